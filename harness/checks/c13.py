"""C13: efficient frontiers and lists of targets."""

import warnings

import cvxpy as cp
import numpy as np

import mr
from checks.c11 import RETRY
from core import Skip, rule, scenario

from skfolio import Population, RiskMeasure
from skfolio.optimization import MeanRisk, ObjectiveFunction

rule("C13", "one state per solved frontier or target list with at least two portfolios")

FASTR = [r for r in mr.RISKS if r not in mr.SLOW]
UNIQUE = ["variance", "standard_deviation", "semi_variance", "semi_deviation", "ulcer_index"]


def _fit(c, **kw):
    for extra in ({}, *RETRY[:2]):
        try:
            m = MeanRisk(**{**c.kw, **kw, **extra})
            return m.fit(c.X, c.y) if c.y is not None else m.fit(c.X)
        except cp.SolverError:
            continue
    raise Skip("solver")


def _case(ctx, drift=0.0012):
    rng = ctx.rng
    c = mr.Case(rng, drift=drift)
    if rng.random() < 0.5:
        c.bounds(shorts=None if rng.random() < 0.4 else False)
    if c.interior() is None:
        raise Skip("box")
    if rng.random() < 0.4:
        c.costs(0.5)
    c.linear(0.25)
    return c


@scenario("C13", quick=160, thorough=1600)
def frontier(ctx):
    rng = ctx.rng
    c = _case(ctx)
    name = str(rng.choice(FASTR if rng.random() < 0.9 else mr.RISKS))
    if name == "gini_mean_difference" and np.any(c.tc):
        name = "variance"
    if name == "evar" and np.any(c.tc):
        name = "cvar"
    k = int(rng.integers(2, 9))
    ctx.note(risk=name, k=k, n=c.n, m=c.m, kw=c.kw)
    rmax, wmax = c.solve("max", lambda w: (c.cvx_ret(w), []))
    if rmax is None or rmax < 1e-4:
        raise Skip("no positive return")
    vmin, wmin = c.solve("min", lambda w: c.cvx_risk(name, w))
    if wmin is None:
        raise Skip("reference")
    pp = dict(name="front", tag="t") if rng.random() < 0.4 else None
    model = _fit(c, efficient_frontier_size=k, risk_measure=RiskMeasure(name), portfolio_params=pp)
    W = np.asarray(model.weights_)
    ctx.require("one allocation per requested portfolio", W.shape == (k, c.m), shape=W.shape)
    ret = np.array([c.ret(w) for w in W])
    risk = np.array([c.risk(name, w) for w in W])
    sc = max(abs(ret).max(), 1e-4)
    rt = 2e-2 if name in ("evar", "edar") else 2e-3
    for w in W:
        bad = c.violations(w)
        ctx.check("every portfolio is feasible", not bad, bad=bad, w=w)
    ctx.check("returns do not decrease", np.all(np.diff(ret) >= -2e-3 * sc), ret=ret)
    ctx.check("risks do not decrease", np.all(np.diff(risk) >= -rt * risk.max() - 1e-7), risk=risk)
    ctx.check("the last portfolio has the maximum return", abs(ret[-1] - rmax) <= 3e-4 * sc + 1e-6, last=ret[-1], best=rmax)
    span = rmax - max(c.ret(wmin), 0.0)
    if span < 1e-2 * sc:
        raise Skip("flat frontier")
    # the first target stands one percent above the return of the minimum-risk portfolio
    first = max(c.ret(wmin), 1e-10) * 1.01
    if first < rmax:
        v1, _ = _min_risk(c, name, first)
        if v1 is not None:
            ctx.check("the first portfolio has the minimum risk", risk[0] <= v1 * (1 + 2 * rt) + 2e-6, first=risk[0], best=v1)
    # returns are evenly spread: the gap between targets is constant where the target binds
    t = np.linspace(max(c.ret(wmin), 1e-10) * 1.01, rmax, k)
    ctx.check("returns reach evenly spread targets", np.all(ret >= t - 0.03 * span - 2e-3 * sc), ret=ret, targets=t)
    for i in range(k):
        v, _ = _min_risk(c, name, ret[i] - 1e-5 * span if i == k - 1 else ret[i])
        if v is not None:
            ctx.check("minimum risk for its return", risk[i] <= v * (1 + 2 * rt) + (1e-7 if name in mr.QUADRATIC else 2e-6) + (0.02 * v if i == k - 1 else 0), i=i, risk=risk[i], best=v)
    ctx.equal("one problem summary per portfolio", len(model.problem_values_), k)
    for i in range(k):
        ctx.close("reported returns", model.problem_values_[i]["expected_return"], ret[i], 1e-3, 1e-6)
    pop = model.predict(c.X)
    ctx.check("prediction is a population", type(pop) is Population and len(pop) == k)
    base = "front" if pp else "MeanRisk"
    ctx.equal("names in order", [p.name for p in pop], [f"ptf{i} - {base}" for i in range(k)])
    if pp:
        ctx.equal("portfolio parameters", {p.tag for p in pop}, {"t"})
    for i, p in enumerate(pop):
        ctx.close("weights in order", p.weights, W[i], 1e-12, 1e-15)
        ctx.close("predicted return", p.mean, c.R.mean(axis=0) @ W[i] - c.cost(W[i]) - c.fees(W[i]), 1e-7, 1e-10)
    ctx.state(c.R, name, k, sorted(c.kw))


def _min_risk(c, name, target):
    w = cp.Variable(c.m)
    e, k = c.cvx_risk(name, w)
    p = cp.Problem(cp.Minimize(e), [*c.cvx_feasible(w), *k, c.cvx_ret(w) >= target])
    try:
        p.solve(solver="CLARABEL")
    except cp.SolverError:
        return None, None
    if p.status != "optimal":
        return None, None
    x = np.asarray(w.value)
    return c.risk(name, x), x


@scenario("C13", quick=200, thorough=2000)
def target_lists(ctx):
    """A list for one limit (and scalars for the others) equals solving each target alone."""
    rng = ctx.rng
    c = _case(ctx)
    obj = [ObjectiveFunction.MINIMIZE_RISK, ObjectiveFunction.MAXIMIZE_RETURN, ObjectiveFunction.MAXIMIZE_UTILITY][int(rng.integers(3))]
    name = str(rng.choice(UNIQUE))
    c.kw.update(objective_function=obj, risk_measure=RiskMeasure(name), l2_coef=0.01)
    k = int(rng.integers(2, 5))
    kind = str(rng.choice(["min_return", "ceiling", "ceiling2", "both"]))
    lists, scalars = {}, {}
    names = [FASTR[i] for i in rng.permutation(len(FASTR))]
    if kind in ("ceiling", "ceiling2", "both"):
        for nm in names[: 2 if kind == "ceiling2" else 1]:
            v = c.risk(nm, c.w0)
            lists[f"max_{nm}"] = [float(v * t) for t in rng.uniform(1.02, 1.4, k)]
    if kind in ("min_return", "both"):
        v = c.ret(c.w0)
        lists["min_return"] = [float(v - abs(v) * t - 1e-6) for t in rng.uniform(0.02, 0.8, k)]
    if kind == "ceiling" and rng.random() < 0.5:
        scalars[f"max_{names[2]}"] = float(c.risk(names[2], c.w0) * 1.2)
    spell = {n: np.array(v) if rng.random() < 0.5 else list(v) for n, v in lists.items()}
    ctx.note(objective=obj.name, risk=name, kind=kind, k=k, lists=lists)
    model = _fit(c, **spell, **scalars)
    W = np.asarray(model.weights_)
    ctx.require("one allocation per target", W.shape == (k, c.m), shape=W.shape)
    for i in range(k):
        one = _fit(c, **{n: v[i] for n, v in lists.items()}, **scalars)
        w1 = np.asarray(one.weights_)
        ctx.check("same allocation as the target alone", np.abs(W[i] - w1).max() <= 5e-3, i=i, got=W[i], want=w1)
        ctx.check("same objective as the target alone", abs(model.problem_values_[i]["objective"] - one.problem_values_["objective"]) <= 1e-3 * abs(one.problem_values_["objective"]) + 1e-6, i=i)
        for n, v in lists.items():
            if n == "min_return":
                ctx.check("return target met", c.ret(W[i]) >= v[i] - 1e-3 * abs(v[i]) - 2e-6, i=i)
            else:
                ctx.check("risk target met", c.risk(n[4:], W[i]) <= v[i] * (1 + 2e-3) + 1e-6, i=i, limit=n)
        for n, v in scalars.items():
            ctx.check("scalar limit met for every target", c.risk(n[4:], W[i]) <= v * (1 + 2e-3) + 1e-6, i=i)
    pop = model.predict(c.X)
    ctx.equal("prediction in target order", [p.name for p in pop], [f"ptf{i} - MeanRisk" for i in range(k)])
    ctx.close("predicted weights in target order", np.array([p.weights for p in pop]), W, 1e-12, 1e-15)
    ctx.close("score is the mean Sharpe ratio", model.score(c.X), np.mean([p.mean / p.standard_deviation for p in pop]), 1e-7, 1e-9)
    ctx.state(c.R, obj.name, name, kind, k)


@scenario("C13", quick=60, thorough=500)
def ratio_targets(ctx):
    """Lists of targets for the maximum ratio objective."""
    rng = ctx.rng
    c = _case(ctx, drift=0.002)
    c.kw.update(objective_function=ObjectiveFunction.MAXIMIZE_RATIO, risk_measure=RiskMeasure(str(rng.choice(["standard_deviation", "semi_deviation", "cvar", "variance"]))))
    if c.ret(c.w0) < 3e-4:
        raise Skip("no positive return")
    k = int(rng.integers(2, 4))
    nm = str(rng.choice(["standard_deviation", "variance", "cvar", "semi_variance", "semi_deviation"]))
    lim = [float(c.risk(nm, c.w0) * t) for t in rng.uniform(1.02, 1.4, k)]
    ctx.note(kw=c.kw, limit=nm, k=k)
    model = _fit(c, **{f"max_{nm}": lim})
    W = np.asarray(model.weights_)
    ctx.require("one allocation per target", W.shape == (k, c.m), shape=W.shape)
    for i in range(k):
        w1 = np.asarray(_fit(c, **{f"max_{nm}": lim[i]}).weights_)
        ctx.check("risk target met", c.risk(nm, W[i]) <= lim[i] * (1 + 2e-3) + 1e-7, i=i, got=c.risk(nm, W[i]), limit=lim[i])
        ctx.check("same allocation as the target alone", np.abs(W[i] - w1).max() <= 2e-2, i=i, got=W[i], want=w1)
    ctx.state(c.R, nm, k, str(c.kw["risk_measure"]))


@scenario("C13", quick=30, thorough=200)
def refusals(ctx):
    rng = ctx.rng
    c = mr.Case(rng, drift=0.001)
    ctx.note(m=c.m)
    ctx.state(c.R)

    def no(name, **kw):
        ctx.refused(name, lambda: MeanRisk(**kw).fit(c.X).weights_)

    no("frontier of one", efficient_frontier_size=1)
    no("frontier of none", efficient_frontier_size=0)
    for o in (ObjectiveFunction.MAXIMIZE_RETURN, ObjectiveFunction.MAXIMIZE_UTILITY, ObjectiveFunction.MAXIMIZE_RATIO):
        no("frontier with another objective", efficient_frontier_size=3, objective_function=o)
    v = float(np.trace(c.cov))
    no("target lists of different lengths", max_variance=[v, v, v], max_cvar=[1.0, 1.0])
    no("target lists of different lengths", max_variance=[v, v], max_cvar=[1.0, 1.0, 1.0])
    no("frontier size against another list", efficient_frontier_size=3, max_cvar=[1.0, 1.0])
    neg = c.R - c.R.max()
    ctx.refused("frontier with only negative returns", lambda: MeanRisk(efficient_frontier_size=3).fit(neg))
    no("one impossible target fails", min_return=[-1.0, float(c.mu.max() + 0.01)])


@scenario("C13", quick=40, thorough=400)
def failed_targets(ctx):
    """Without raise_on_failure, impossible targets are dropped with a warning and the others are solved as usual."""
    rng = ctx.rng
    c = mr.Case(rng, drift=0.0012)
    top = float(c.mu.max())
    low = float(c.mu.mean())
    k = int(rng.integers(2, 5))
    ts = [float(low + t * (top - low) * 0.9) for t in rng.uniform(0, 1, k)]
    j = int(rng.integers(k + 1))
    given = ts[:j] + [top + 0.01] + ts[j:]
    ctx.note(targets=given, impossible=j)
    ctx.state(c.R, given)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        try:
            W = np.asarray(MeanRisk(min_return=given, raise_on_failure=False).fit(c.X).weights_)
        except cp.SolverError:
            W = None
    ctx.require("a failed target does not raise", W is not None)
    ctx.check("a failed target warns", any("fail" in str(s.message) for s in seen) or len(seen) > 0)
    ctx.require("the other targets are solved", W.shape == (k, c.m), shape=W.shape)
    for i in range(k):
        ctx.close("solved as alone", W[i], np.asarray(MeanRisk(min_return=ts[i]).fit(c.X).weights_), 1e-3, 1e-4, i=i)
    ctx.refused("a failed target raises by default", lambda: MeanRisk(min_return=given).fit(c.X).weights_)
