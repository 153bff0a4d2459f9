"""C14: risk budgeting gives each asset its budgeted share of risk."""

import warnings

import cvxpy as cp
import numpy as np

import mr
from core import Skip, rule, scenario

from skfolio import RiskMeasure
from skfolio.moments import LedoitWolf
from skfolio.optimization import RiskBudgeting
from skfolio.prior import EmpiricalPrior

rule("C14", "one state per solved (market, risk measure, budget, constraints)")

SMOOTH = ["variance", "standard_deviation", "semi_variance", "semi_deviation", "evar"]
BASE = {"variance": "standard_deviation", "semi_variance": "semi_deviation"}


def _budget(ctx, c, zeros=False):
    rng, m = ctx.rng, c.m
    kind = str(rng.choice(["none", "array", "list", "dict", "ints"]))
    if kind == "dict" and not c.frame:
        kind = "array"
    b = rng.uniform(0.1, 1.5, m) * float(rng.choice([0.05, 1.0, 10.0]))
    if rng.random() < 0.25:
        b[int(rng.integers(m))] *= float(rng.choice([20.0, 60.0, 200.0]))
    if kind == "none":
        return None, np.ones(m), kind
    if kind == "ints":
        b = rng.integers(1, 5, m)
        return b.tolist() if rng.random() < 0.5 else b, b.astype(float), kind
    if kind == "dict":
        items = list(zip(c.cols, b.tolist()))
        return dict(items[i] for i in rng.permutation(m)), b, kind
    return (b.tolist() if kind == "list" else b), b, kind


def _fit(ctx, c, **kw):
    for extra in ({}, dict(scale_objective=10.0), dict(scale_objective=100.0), dict(solver_params={"tol_gap_abs": 1e-7, "tol_gap_rel": 1e-7, "tol_feas": 1e-7})):
        try:
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter("always")
                model = RiskBudgeting(**{**c.kw, **kw, **extra}).fit(c.X)
        except cp.SolverError:
            continue
        if not any("inaccurate" in str(s.message) for s in seen):
            return model
    raise Skip("solver")


def _score(c, name, b, w):
    """Scale-free objective minimized by the risk-budgeting allocation."""
    return np.log(c.risk(name, w)) - float(np.sum(b * np.log(np.maximum(w, 1e-300)))) / b.sum() + np.log(w.sum())


@scenario("C14", quick=800, thorough=6000)
def budgets(ctx):
    """Without binding constraints: contributions, and no allocation closer to the budget."""
    rng = ctx.rng
    big = rng.random() < 0.015
    c = mr.Case(rng, n=120, m=int(rng.integers(26, 60))) if big else mr.Case(rng)
    name = str(rng.choice(SMOOTH[:4] if big else mr.RISKS if rng.random() < 0.6 else SMOOTH[:4]))
    if rng.random() < 0.3:
        pr = EmpiricalPrior(covariance_estimator=LedoitWolf())
        c.cov = np.asarray(pr.fit(c.X).prior_model_.covariance)
        c.kw["prior_estimator"] = pr
    if rng.random() < 0.4:
        # fees and costs from an empty portfolio scale with the weights
        c.fee = np.round(rng.uniform(0, 0.0005, c.m), 6)
        c.kw["management_fees"] = c.spell(c.fee)
        if name not in ("evar", "gini_mean_difference"):
            c.tc = np.round(rng.uniform(0, 0.002, c.m), 5)
            c.kw["transaction_costs"] = c.spell(c.tc)
    if name in ("semi_variance", "semi_deviation", "first_lower_partial_moment") and rng.random() < 0.4:
        c.mar = float(rng.choice([0.0, 0.001]))
        c.kw["min_acceptable_return"] = c.mar
    c.set_betas()
    rb, b, kind = _budget(ctx, c)
    ctx.note(risk=name, budget=b, kind=kind, n=c.n, m=c.m, kw=c.kw)
    base = BASE.get(name, name)
    probe = c.risk(base, np.ones(c.m) / c.m)
    if probe < 1e-3:
        raise Skip("risk too small")
    model = _fit(ctx, c, risk_measure=RiskMeasure(name), risk_budget=rb)
    w = np.asarray(model.weights_, float)
    ctx.require("one finite weight per asset", w.shape == (c.m,) and np.all(np.isfinite(w)))
    ctx.check("long only", np.all(w > 0), w=w)
    ctx.close("fully invested", w.sum(), 1.0, 1e-6, 1e-7)
    r = c.risk(base, w)
    if r < 1e-4:
        raise Skip("risk vanishes")
    f = _score(c, base, b, w)
    tol = 1e-3 if name in ("evar", "edar") else 1e-4
    if name in SMOOTH and not (name == "evar"):
        rc = np.empty(c.m)
        for i in range(c.m):
            h = 1e-5 * max(w[i], 1e-3)
            e = np.zeros(c.m)
            e[i] = h
            rc[i] = w[i] * (c.risk(base, w + e) - c.risk(base, w - e)) / (2 * h)
        ctx.close("risk contributions follow the budget", rc / rc.sum(), b / b.sum(), 2e-2, 1e-3, w=w)
    x = cp.Variable(c.m)
    e, k = c.cvx_risk(base, x)
    p = cp.Problem(cp.Minimize(e / probe), [*k, (b / b.sum()) @ cp.log(x) >= 0])
    try:
        p.solve(solver="CLARABEL")
        ok = p.status in ("optimal", "optimal_inaccurate") and x.value is not None and np.all(x.value > 0)
    except cp.SolverError:
        ok = False
    if ok:
        v = np.asarray(x.value) / np.sum(x.value)
        if c.risk(base, v) > 1e-4:
            ctx.check("no allocation closer to the budget found independently", f <= _score(c, base, b, v) + tol, ours=f, rival=_score(c, base, b, v), w=w, other=v)
            ctx.check("same allocation as found independently", np.abs(w - v).max() <= (2e-2 if name in mr.NET or name == "gini_mean_difference" else 5e-3), w=w, other=v)
    for _ in range(10):
        i, j = rng.permutation(c.m)[:2]
        d = min(float(rng.choice([0.01, 0.05])), 0.5 * w[j])
        v = w.copy()
        v[i] += d
        v[j] -= d
        if c.risk(base, v) > 1e-5:
            ctx.check("no neighbouring allocation closer to the budget", f <= _score(c, base, b, v) + tol, ours=f, rival=_score(c, base, b, v), w=w, other=v)
    ctx.state(c.R, name, b)


@scenario("C14", quick=60, thorough=600)
def scale_free(ctx):
    """Only the proportions of the budget matter, and equal budgets are the default."""
    rng = ctx.rng
    c = mr.Case(rng)
    name = str(rng.choice(["variance", "standard_deviation", "semi_deviation", "cvar", "mean_absolute_deviation"]))
    b = rng.uniform(0.2, 1.0, c.m)
    ctx.note(risk=name, b=b)
    w1 = _fit(ctx, c, risk_measure=RiskMeasure(name), risk_budget=b).weights_
    w2 = _fit(ctx, c, risk_measure=RiskMeasure(name), risk_budget=b * 7.5).weights_
    ctx.check("only proportions matter", np.abs(w1 - w2).max() < 5e-3, a=w1, b=w2)
    w3 = _fit(ctx, c, risk_measure=RiskMeasure(name)).weights_
    w4 = _fit(ctx, c, risk_measure=RiskMeasure(name), risk_budget=[2.0] * c.m).weights_
    ctx.check("equal budgets by default", np.abs(w3 - w4).max() < 5e-3, a=w3, b=w4)
    ctx.state(c.R, name, b)


@scenario("C14", quick=160, thorough=1600)
def constrained(ctx):
    """Bounds, equations, inequalities and minimum return hold when requested."""
    rng = ctx.rng
    c = mr.Case(rng, drift=0.0008)
    c.bounds(shorts=False)
    if c.interior() is None:
        raise Skip("box")
    if rng.random() < 0.4:
        c.costs(0.5)
    c.linear(0.6)
    c.matrix(0.4)
    c.min_return(0.4)
    name = str(rng.choice([r for r in mr.RISKS if r not in mr.SLOW]))
    ctx.note(risk=name, kw=c.kw)
    rb, b, kind = _budget(ctx, c)
    model = _fit(ctx, c, risk_measure=RiskMeasure(name), risk_budget=rb)
    w = np.asarray(model.weights_)
    bad = c.violations(w, 2e-5)
    ctx.check("all requested constraints hold", not bad, bad=bad, w=w)
    ctx.state(c.R, name, sorted(c.kw), kind)
    # the returned allocation is the closest to the budget among the feasible ones
    if name in ("variance", "standard_deviation", "semi_deviation", "mean_absolute_deviation") and not np.any(c.tc):
        base = BASE.get(name, name)
        f = _score(c, base, b, w)
        for t in (0.05, 0.3, 1.0):
            v = w + t * (c.w0 - w)
            if np.all(v > 1e-6):
                ctx.check("no feasible allocation closer to the budget", f <= _score(c, base, b, v) + 1e-3, ours=f, rival=_score(c, base, b, v), w=w, other=v)


@scenario("C14", quick=30, thorough=200)
def special(ctx):
    rng = ctx.rng
    c = mr.Case(rng, frame=True)
    m = c.m
    ctx.note(m=m)
    ctx.state(c.R)
    # an asset with no budget receives (almost) nothing
    j = int(rng.integers(m))
    b = rng.uniform(0.5, 1.0, m)
    b[j] = 0.0
    keep = b.copy()
    w = _fit(ctx, c, risk_budget=b).weights_
    ctx.equal("budget left as given", b, keep)
    x = cp.Variable(m, nonneg=True)
    p = cp.Problem(cp.Minimize(cp.quad_form(x, cp.psd_wrap(c.cov * 1e4))), [b / b.sum() @ cp.log(x + (b == 0)) >= 0])
    p.solve(solver="CLARABEL")
    ref = x.value / x.value.sum()
    ctx.check("zero budget", np.abs(w - ref).max() < 2e-2, w=w, ref=ref)
    w2 = _fit(ctx, c, risk_budget={a: float(v) for a, v in zip(c.cols, b) if v}).weights_
    ctx.check("omitted names have zero budget", np.abs(w - w2).max() < 5e-3, w=w, w2=w2)
    ctx.refused("negative minimum weights", lambda: RiskBudgeting(min_weights=-0.1).fit(c.X))
    ctx.refused("one negative minimum weight", lambda: RiskBudgeting(min_weights=[-0.1] + [0.0] * (m - 1)).fit(c.X))
    ctx.refused("budget of the wrong length", lambda: RiskBudgeting(risk_budget=[1.0] * (m + 1)).fit(c.X))
    ctx.refused("budget names with unnamed assets", lambda: RiskBudgeting(risk_budget={"a": 1.0}).fit(c.R))
    ctx.refused("risk measure of the wrong type", lambda: RiskBudgeting(risk_measure="variance").fit(c.X))
    ctx.refused("unreachable return", lambda: RiskBudgeting(min_return=float(c.mu.max() + 0.01)).fit(c.X))
    ctx.refused("maximum weights below full investment", lambda: RiskBudgeting(max_weights=0.5 / m).fit(c.X))


def _term(k, j):
    return lambda w: k * w[j]


@scenario("C14", quick=60, thorough=600)
def custom_objective(ctx):
    """A term added to the objective is minimized together with the risk."""
    rng = ctx.rng
    c = mr.Case(rng)
    j = int(rng.integers(c.m))
    name = str(rng.choice(["variance", "standard_deviation", "semi_deviation", "mean_absolute_deviation"]))
    base = _fit(ctx, c, risk_measure=RiskMeasure(name))
    f0 = base.problem_values_["factor"]
    raw0 = np.asarray(base.weights_) * f0
    lam = 3.0 * float(rng.choice([0.3, 1.0, 3.0])) * base.problem_values_["risk"] * (f0 if name == "variance" else 1.0)
    ctx.note(risk=name, asset=j, weight=lam)
    ctx.state(c.R, name, j, lam)
    moved = {}
    for sign in (1.0, -0.1):
        if sign < 0 and name != "variance":
            continue  # unbounded rewards need a stricter risk
        m1 = _fit(ctx, c, risk_measure=RiskMeasure(name), add_objective=_term(sign * lam, j))
        raw1 = np.asarray(m1.weights_) * m1.problem_values_["factor"]
        moved[sign] = raw1[j]
    ctx.check("a penalty lowers the position", moved[1.0] < raw0[j] * (1 - 1e-3), before=raw0[j], after=moved[1.0])
    if -0.1 in moved:
        ctx.check("a reward raises the position", moved[-0.1] > raw0[j] * (1 - 1e-4), before=raw0[j], after=moved[-0.1])
