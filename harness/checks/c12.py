"""C12: no feasible allocation beats the one returned by mean-risk optimization."""

import cvxpy as cp
import numpy as np
import sklearn.utils.validation as skv

import gens
import mr
from checks.c11 import RETRY
from core import Skip, rule, scenario

from skfolio import RiskMeasure
from skfolio.moments import BaseMu, EWMu, LedoitWolf, ShrunkMu
from skfolio.optimization import MeanRisk, ObjectiveFunction
from skfolio.prior import EmpiricalPrior
from skfolio.uncertainty_set import EmpiricalMuUncertaintySet

rule("C12", "one state per solved request compared with independently found allocations")

OBJ = list(ObjectiveFunction)
FASTR = [r for r in mr.RISKS if r not in mr.SLOW]
# objective values are compared in units of a day's return; solver accuracy is about 1e-8
RTOL, ATOL = 1e-3, 2e-7


def _fit(ctx, c, **kw):
    for extra in ({}, *RETRY):
        m = MeanRisk(**{**c.kw, **kw, **extra})
        try:
            return m.fit(c.X, c.y) if c.y is not None else m.fit(c.X)
        except cp.SolverError:
            continue
    raise Skip("solver")


def _setup(ctx, drift=0.0008, ratio=False, p=0.35):
    rng = ctx.rng
    c = mr.Case(rng, drift=drift)
    k = str(rng.choice(["none", "none", "none", "lw", "shrunk", "ew"]))
    prior = {"lw": EmpiricalPrior(covariance_estimator=LedoitWolf()), "shrunk": EmpiricalPrior(mu_estimator=ShrunkMu()), "ew": EmpiricalPrior(mu_estimator=EWMu(alpha=0.1))}.get(k)
    if prior is not None:
        pm = prior.fit(c.X).prior_model_
        c.mu, c.cov = np.asarray(pm.mu), np.asarray(pm.covariance)
        c.kw["prior_estimator"] = prior
        if k != "lw":
            c.other_mu = True
    if rng.random() < 0.5:
        c.bounds()
    if not ratio and rng.random() < 0.4:
        c.budgets()
    if ratio and rng.random() < 0.3:
        c.budget = (0.5, 1.0)
        c.kw.update(budget=None, min_budget=0.5, max_budget=1.0)
    if c.interior() is None:
        raise Skip("box")
    c.costs(0.4)
    c.linear(p)
    c.matrix(p / 2)
    c.totals(p / 2)
    c.turnover(p / 2)
    c.set_betas()
    return c


def _risk_name(ctx, c, names=None):
    rng = ctx.rng
    names = names or (FASTR if rng.random() < 0.8 else mr.RISKS)
    name = str(rng.choice(names))
    if name == "gini_mean_difference" and np.any(c.tc):
        name = "variance"
    if name == "mean_absolute_deviation" and getattr(c, "other_mu", False):
        name = "cvar"
    if name == "evar" and np.any(c.tc):
        name = "cvar"
    if name in ("semi_variance", "semi_deviation", "first_lower_partial_moment") and rng.random() < 0.4:
        if not np.any(c.tc) and not np.any(c.fee) and c.budget == (1.0, 1.0):
            c.mar = float(rng.choice([0.0, 0.001, -0.002]))
            c.kw["min_acceptable_return"] = c.mar
    return name


def _reg(ctx, c, l2=True):
    rng = ctx.rng
    if rng.random() < 0.35:
        c.l1 = float(rng.choice([0.0005, 0.003, 0.02]))
        c.kw["l1_coef"] = c.l1
    if l2 and rng.random() < 0.35:
        c.l2 = float(rng.choice([0.0005, 0.01, 0.1]))
        c.kw["l2_coef"] = c.l2


def _tol(name, v):
    r = 1e-2 if name in ("evar", "edar") else RTOL
    return r * abs(v) + ATOL


def _neighbours(ctx, c, w, k=12):
    """Feasible allocations near and far: segments to the witness and pairwise exchanges."""
    rng = ctx.rng
    out = []
    for t in (1e-2, 0.1, 0.5, 1.0):
        out.append(w + t * (c.w0 - w))
    for _ in range(k):
        i, j = rng.permutation(c.m)[:2]
        v = w.copy()
        d = float(rng.choice([0.003, 0.02, 0.1]))
        v[i] += d
        v[j] -= d
        out.append(v)
    return [v for v in out if not c.violations(v, 1e-9)]


@scenario("C12", quick=500, thorough=6000)
def convex_objectives(ctx):
    """Minimum risk, maximum return and maximum utility against an independent convex program."""
    rng = ctx.rng
    c = _setup(ctx)
    obj = OBJ[int(rng.integers(3))]
    name = _risk_name(ctx, c)
    _reg(ctx, c)
    if rng.random() < 0.2:
        c.rf = c.flpm_rf = float(rng.choice([0.0001, 0.001]))
        c.kw["risk_free_rate"] = c.rf
    if rng.random() < 0.25:
        ceil = [r for r in FASTR if r != name and not (r == "mean_absolute_deviation" and getattr(c, "other_mu", False)) and not (c.mar is not None and r in ("semi_variance", "semi_deviation", "first_lower_partial_moment", "mean_absolute_deviation"))]
        c.ceilings(1.0, ceil, 1)
    if rng.random() < 0.2:
        c.min_return(1.0)
    lam = 1.0
    if obj == ObjectiveFunction.MAXIMIZE_UTILITY:
        lam = float(rng.choice([0.5, 1.0, 3.0, 10.0, 50.0]))
        c.kw["risk_aversion"] = lam
    c.kw.update(objective_function=obj, risk_measure=RiskMeasure(name))
    custom = None
    if rng.random() < 0.15:
        g = np.round(rng.normal(0, 0.0005, c.m), 6)
        c.kw["add_objective"] = lambda w: g @ w
        custom = g
    ctx.note(objective=obj.name, risk=name, kw=c.kw, n=c.n, m=c.m)

    def value(w):
        extra = 0.0 if custom is None else float(custom @ w)
        if obj == ObjectiveFunction.MINIMIZE_RISK:
            return c.risk(name, w) + c.reg(w) + extra
        if obj == ObjectiveFunction.MAXIMIZE_RETURN:
            return -(c.ret(w) - c.reg(w) + extra)
        return -(c.ret(w) - lam * c.risk(name, w) - c.reg(w) + extra)

    def build(w):
        reg = c.l1 * cp.norm1(w) + c.l2 * cp.sum_squares(w)
        extra = 0 if custom is None else custom @ w
        if obj == ObjectiveFunction.MAXIMIZE_RETURN:
            return -(c.cvx_ret(w) - reg + extra), []
        e, k = c.cvx_risk(name, w)
        if obj == ObjectiveFunction.MINIMIZE_RISK:
            return e + reg + extra, k
        return -(c.cvx_ret(w) - lam * e - reg + extra), k

    model = _fit(ctx, c)
    w = np.asarray(model.weights_, float)
    bad = c.violations(w)
    ctx.require("the allocation is feasible", not bad, bad=bad, w=w)
    got = value(w)
    scale = max(abs(got), c.risk(name, w) * (lam if obj == OBJ[2] else 1) if obj != ObjectiveFunction.MAXIMIZE_RETURN else abs(c.ret(w)))
    tol = _tol(name if obj != ObjectiveFunction.MAXIMIZE_RETURN else "", scale) * (1 + (lam if obj == ObjectiveFunction.MAXIMIZE_UTILITY else 0))
    try:
        _, best = c.solve("min", build)
    except cp.SolverError:
        best = None
    if best is not None:
        # move slightly into the feasible set so that the rival is truly feasible
        rival = best + 1e-6 * (c.w0 - best)
        if not c.violations(rival, 3e-6):
            ctx.check("no better allocation found independently", got <= value(rival) + tol, got=got, rival=value(rival), w=w, other=rival, tol=tol)
    for v in _neighbours(ctx, c, w):
        ctx.check("no better neighbouring allocation", got <= value(v) + tol, ours=got, rival=value(v), w=w, other=v)
    _reported(ctx, c, model, obj, name, w, got, tol, lam)
    ctx.state(c.R, obj.name, name, sorted(c.kw))


def _reported(ctx, c, model, obj, name, w, got, tol, lam):
    pv = model.problem_values_
    ctx.close("reported expected return", pv["expected_return"], c.ret(w), 1e-4, 1e-6)
    if obj != ObjectiveFunction.MAXIMIZE_RETURN:
        v = c.risk(name, w)
        ctx.check("reported risk", abs(pv["risk"] - v) <= 3 * _tol(name, v) + (2e-6 if name in mr.QUADRATIC else 1e-5), reported=pv["risk"], actual=v)
    if obj != ObjectiveFunction.MAXIMIZE_RATIO:
        s = 1 if obj == ObjectiveFunction.MINIMIZE_RISK else -1
        ctx.check("reported objective", abs(s * pv["objective"] - got) <= 3 * tol + 2e-6 + 1e-5 * lam, reported=pv["objective"], actual=got)
        ctx.close("reported factor", pv["factor"], 1.0, 1e-9, 0)
        ctx.close("reported regularization", pv["regularization"], c.reg(w), 1e-4, 1e-6)


@scenario("C12", quick=400, thorough=5000)
def ratios(ctx):
    """Maximum ratio: no allocation has a positive surplus over the ratio claimed."""
    rng = ctx.rng
    c = _setup(ctx, drift=0.0015, ratio=True)
    name = _risk_name(ctx, c)
    base = {"variance": "standard_deviation", "semi_variance": "semi_deviation"}.get(name, name)
    if name not in mr.QUADRATIC:
        _reg(ctx, c, l2=False)
    if rng.random() < (0.7 if name == "first_lower_partial_moment" else 0.4):
        c.rf = float(rng.choice([0.0001, 0.0003, 0.001, -0.0002]))
        c.kw["risk_free_rate"] = c.rf
        c.flpm_rf = c.rf
    if rng.random() < 0.3:
        ceil = [r for r in FASTR if r != name and not (c.mar is not None and r in ("semi_variance", "semi_deviation", "first_lower_partial_moment", "mean_absolute_deviation")) and not (r == "mean_absolute_deviation" and getattr(c, "other_mu", False))]
        c.ceilings(1.0, ceil, 1)
    if rng.random() < 0.2:
        c.min_return(1.0)
    if rng.random() < 0.2:
        c.tracking(1.0)
    c.kw.update(objective_function=ObjectiveFunction.MAXIMIZE_RATIO, risk_measure=RiskMeasure(name))
    ctx.note(risk=name, kw=c.kw, n=c.n, m=c.m)
    if c.ret(c.w0) - c.rf < 2e-4 or c.risk(base, c.w0) < 1e-4:
        raise Skip("no clearly positive ratio")

    def ratio(w):
        return (c.ret(w) - c.rf) / (c.risk(base, w) + c.l1 * np.abs(w).sum())

    model = _fit(ctx, c)
    w = np.asarray(model.weights_, float)
    bad = c.violations(w)
    ctx.require("the allocation is feasible", not bad, bad=bad, w=w)
    if c.risk(base, w) < 1e-4:
        raise Skip("risk vanishes")
    th = ratio(w)
    rt = 2e-2 if name in ("evar", "edar") else 3e-3
    ctx.check("at least the ratio of the witness", th >= ratio(c.w0) * (1 - rt) - 1e-5, got=th, witness=ratio(c.w0), w=w, w0=c.w0)
    for v in _neighbours(ctx, c, w):
        if c.risk(base, v) > 1e-4:
            ctx.check("no better neighbouring ratio", ratio(v) <= th * (1 + rt) + 1e-5, ours=th, rival=ratio(v), w=w, other=v)

    def build(x):
        e, k = c.cvx_risk(base, x)
        return -(c.cvx_ret(x) - c.rf - th * (e + c.l1 * cp.norm1(x))), k

    if th > 1e-3:
        try:
            _, best = c.solve("min", build)
        except cp.SolverError:
            best = None
        if best is not None:
            rival = best + 1e-6 * (c.w0 - best)
            if not c.violations(rival, 3e-6) and c.risk(base, rival) > 1e-4:
                ctx.check("no better ratio found independently", ratio(rival) <= th * (1 + rt) + 1e-5, ours=th, rival=ratio(rival), w=w, other=rival)
    _reported(ctx, c, model, ObjectiveFunction.MAXIMIZE_RATIO, name, w, None, None, 1.0)
    ctx.state(c.R, name, sorted(c.kw))


@scenario("C12", quick=100, thorough=1200)
def uncertain_return(ctx):
    """With an expected-return uncertainty set, the worst-case return is what is optimized and reported."""
    rng = ctx.rng
    c = mr.Case(rng, drift=0.004)
    if rng.random() < 0.5:
        c.bounds(shorts=False)
    if c.interior() is None:
        raise Skip("box")
    c.costs(0.3)
    conf = float(rng.choice([0.5, 0.8, 0.95]))
    diag = bool(rng.random() < 0.5)
    est = EmpiricalMuUncertaintySet(confidence_level=conf, diagonal=diag)
    us = EmpiricalMuUncertaintySet(confidence_level=conf, diagonal=diag).fit(c.X).uncertainty_set_
    v, Q = np.linalg.eigh(us.sigma)
    c.unc = (float(us.k), (Q * np.sqrt(np.maximum(v, 0))).T)
    obj = [ObjectiveFunction.MAXIMIZE_RETURN, ObjectiveFunction.MAXIMIZE_UTILITY, ObjectiveFunction.MAXIMIZE_RATIO][int(rng.integers(3))]
    name = str(rng.choice(["variance", "standard_deviation", "cvar", "semi_deviation", "max_drawdown"]))
    base = {"variance": "standard_deviation"}.get(name, name)
    c.kw.update(objective_function=obj, risk_measure=RiskMeasure(name), mu_uncertainty_set_estimator=est)
    ctx.note(objective=obj.name, risk=name, conf=conf, diag=diag, kw=c.kw)
    if obj == ObjectiveFunction.MAXIMIZE_RATIO and c.ret(c.w0) < 2e-4:
        raise Skip("no positive worst-case return")
    model = _fit(ctx, c)
    w = np.asarray(model.weights_, float)
    ctx.require("the allocation is feasible", not c.violations(w), w=w)
    if obj == ObjectiveFunction.MAXIMIZE_RATIO:
        if c.risk(base, w) < 1e-4:
            raise Skip("risk vanishes")
        th = c.ret(w) / c.risk(base, w)

        def build(x):
            e, k = c.cvx_risk(base, x)
            return -(c.cvx_ret(x) - th * e), k

        def value(x):
            return -c.ret(x) / c.risk(base, x)
    elif obj == ObjectiveFunction.MAXIMIZE_RETURN:

        def build(x):
            return -c.cvx_ret(x), []

        def value(x):
            return -c.ret(x)
    else:

        def build(x):
            e, k = c.cvx_risk(name, x)
            return -(c.cvx_ret(x) - e), k

        def value(x):
            return -(c.ret(x) - c.risk(name, x))

    tol = 3e-3 * abs(value(w)) + 1e-6
    _, best = c.solve("min", build)
    if best is not None:
        rival = best + 1e-6 * (c.w0 - best)
        ctx.check("no better allocation found independently", value(w) <= value(rival) + tol, ours=value(w), rival=value(rival), w=w, other=rival)
    for x in _neighbours(ctx, c, w):
        ctx.check("no better neighbouring allocation", value(w) <= value(x) + tol, ours=value(w), rival=value(x), w=w, other=x)
    pv = model.problem_values_
    ctx.close("reported worst-case return", pv["expected_return"], c.ret(w), 1e-3, 2e-6)
    ctx.close("reported uncertainty", pv["mu_uncertainty_set"], c.unc[0] * np.linalg.norm(c.unc[1] @ w), 1e-3, 2e-6)
    ctx.state(c.R, obj.name, name, conf, diag)


@scenario("C12", quick=80, thorough=800)
def overwritten_return(ctx):
    """A custom expected-return function replaces the mean in every objective that uses it."""
    rng = ctx.rng
    c = mr.Case(rng, drift=0.001)
    if c.interior() is None:
        raise Skip("box")
    g = np.round(rng.uniform(0.0002, 0.002, c.m), 6)
    pen = float(rng.choice([0.0, 0.001, 0.01]))
    obj = [ObjectiveFunction.MAXIMIZE_RETURN, ObjectiveFunction.MAXIMIZE_UTILITY][int(rng.integers(2))]
    name = str(rng.choice(["variance", "cvar", "standard_deviation", "average_drawdown"]))
    fn = (lambda w: g @ w - pen * cp.sum_squares(w)) if pen else (lambda w: g @ w)
    ctx.note(objective=obj.name, risk=name, pen=pen)
    model = _fit(ctx, c, objective_function=obj, risk_measure=RiskMeasure(name), overwrite_expected_return=fn)
    w = np.asarray(model.weights_)

    def value(x):
        v = g @ x - pen * x @ x
        return -(v - c.risk(name, x)) if obj == ObjectiveFunction.MAXIMIZE_UTILITY else -v

    def build(x):
        e = g @ x - pen * cp.sum_squares(x)
        if obj == ObjectiveFunction.MAXIMIZE_UTILITY:
            r, k = c.cvx_risk(name, x)
            return -(e - r), k
        return -e, []

    _, best = c.solve("min", build)
    tol = 1e-3 * abs(value(w)) + 1e-6
    ctx.check("no better allocation found independently", value(w) <= value(best) + tol, ours=value(w), rival=value(best), w=w, other=best)
    ctx.close("reported expected return", model.problem_values_["expected_return"], g @ w - pen * w @ w, 1e-3, 1e-6)
    ctx.state(c.R, obj.name, name, pen)


@scenario("C12", quick=60, thorough=600)
def discrete_optimum(ctx):
    """With a limit on the number of positions, every subset of that size is enumerated and solved."""
    import itertools

    rng = ctx.rng
    c = mr.Case(rng, n=int(rng.integers(20, 40)), m=int(rng.integers(3, 6)), drift=0.001)
    k = int(rng.integers(1, c.m))
    name = str(rng.choice(["cvar", "mean_absolute_deviation", "worst_realization", "first_lower_partial_moment"]))
    obj = [ObjectiveFunction.MINIMIZE_RISK, ObjectiveFunction.MAXIMIZE_UTILITY, ObjectiveFunction.MAXIMIZE_RATIO][int(rng.integers(3))]
    thr = float(rng.choice([0.0, 0.0, 0.2, 0.3])) if k > 1 else 0.0
    kw = dict(cardinality=k, solver="SCIP", objective_function=obj, risk_measure=RiskMeasure(name))
    if thr:
        kw["threshold_long"] = thr
    ctx.note(k=k, risk=name, objective=obj.name, thr=thr, m=c.m)
    c.w0 = np.ones(c.m) / c.m
    if obj == ObjectiveFunction.MAXIMIZE_RATIO and c.mu.max() < 3e-4:
        raise Skip("no positive return")
    try:
        w = np.asarray(MeanRisk(**kw).fit(c.X).weights_)
    except cp.SolverError:
        raise Skip("solver")
    th = c.ret(w) / c.risk(name, w)

    def value(x):
        if obj == ObjectiveFunction.MINIMIZE_RISK:
            return c.risk(name, x)
        if obj == ObjectiveFunction.MAXIMIZE_UTILITY:
            return c.risk(name, x) - c.ret(x)
        return -c.ret(x) / c.risk(name, x)

    def build(x):
        e, cons = c.cvx_risk(name, x)
        if obj == ObjectiveFunction.MINIMIZE_RISK:
            return e, cons
        if obj == ObjectiveFunction.MAXIMIZE_UTILITY:
            return e - c.cvx_ret(x), cons
        return th * e - c.cvx_ret(x), cons

    best = None
    for size in range(1, k + 1):
        if thr and size * thr > 1:
            break
        for held in itertools.combinations(range(c.m), size):
            c.lo = np.zeros(c.m)
            c.hi = np.zeros(c.m)
            c.hi[list(held)] = 1.0
            if thr:
                c.lo[list(held)] = thr
            elif size < k:
                continue
            _, x = c.solve("min", build)
            if x is not None and c.risk(name, x) > 1e-6:
                v = value(np.clip(x, 0, 1))
                best = v if best is None else min(best, v)
    tol = 3e-3 * abs(best) + 1e-5
    ctx.check("no better allocation over all subsets", value(w) <= best + tol, ours=value(w), best=best, w=w)
    ctx.state(c.R, k, name, obj.name, thr)


class GivenMeans(BaseMu):
    """A mean estimator that returns prepared values."""

    def __init__(self, values=None):
        self.values = values

    def fit(self, X, y=None):
        skv.validate_data(self, X)
        self.mu_ = np.array(self.values, float)
        return self


@scenario("C12", quick=60, thorough=600)
def overwritten_ratio(ctx):
    """A linear custom return and a prior with those means ask for the same maximum ratio; the problem can be kept."""
    rng = ctx.rng
    c = mr.Case(rng, drift=0.001)
    if c.interior() is None:
        raise Skip("box")
    c.linear(0.2)
    g = np.round(rng.uniform(0.0003, 0.002, c.m), 6)
    rf = float(rng.choice([0.0, 0.0001]))
    name = str(rng.choice(["variance", "semi_variance", "cvar", "standard_deviation", "mean_absolute_deviation"]))
    keep = bool(rng.random() < 0.5)
    ctx.note(risk=name, rf=rf, keep=keep, g=g)
    ctx.state(c.R, name, rf, g)
    kw = dict(objective_function=ObjectiveFunction.MAXIMIZE_RATIO, risk_measure=RiskMeasure(name), risk_free_rate=rf)
    a = _fit(ctx, c, overwrite_expected_return=lambda w: g @ w, save_problem=keep, **kw)
    b = _fit(ctx, c, prior_estimator=EmpiricalPrior(mu_estimator=GivenMeans(g)), **kw)
    hom = {"variance": "standard_deviation", "semi_variance": "semi_deviation"}.get(name, name)
    if name in ("variance", "standard_deviation"):
        S = np.cov(c.R.T)
        risk = lambda w: float(np.sqrt(w @ S @ w))
    else:
        # deviations are taken from the means in force, which differ between the two requests
        risk = lambda w: c.risk(hom, w)
    if min(risk(np.asarray(a.weights_)), risk(np.asarray(b.weights_))) < 1e-5:
        raise Skip("no risk")
    va, vb = ((g @ w - rf) / risk(w) for w in (np.asarray(a.weights_), np.asarray(b.weights_)))
    if name in ("variance", "standard_deviation", "cvar"):
        ctx.close("same maximum ratio", va, vb, 5e-3, 1e-6, a=a.weights_, b=b.weights_)
    ctx.check("a ratio at least as good", va >= vb * (1 - 5e-3) - 1e-9, va=va, vb=vb)
    ctx.close("reported expected return", a.problem_values_["expected_return"], g @ a.weights_, 1e-3, 1e-7)
    ctx.equal("problem kept only on request", hasattr(a, "problem_"), keep)
    if keep:
        ctx.check("kept problem is the solved one", isinstance(a.problem_, cp.Problem) and a.problem_.status in ("optimal", "optimal_inaccurate"))
        ctx.check("kept problem holds the weights", any(v.value is not None and np.shape(v.value) == (c.m,) and np.allclose(
            np.asarray(v.value) / a.problem_values_["factor"], a.weights_, atol=1e-6) for v in a.problem_.variables()))
