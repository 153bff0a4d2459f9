"""C11: every requested constraint holds on the allocation returned by mean-risk optimization."""

import cvxpy as cp
import numpy as np
import pandas as pd

import gens
import mr
from core import Skip, rule, scenario

from skfolio import ExtraRiskMeasure, RiskMeasure
from skfolio.optimization import MeanRisk, ObjectiveFunction
from skfolio.prior import EmpiricalPrior
from skfolio.moments import EWMu, LedoitWolf, ShrunkMu

rule("C11", "one state per request (market, objective, risk measure, constraints) that was solved and judged")

OBJ = list(ObjectiveFunction)
FASTR = [r for r in mr.RISKS if r not in mr.SLOW]


def _pick_risk(ctx, c, names=mr.RISKS):
    name = str(ctx.rng.choice(names))
    if name == "gini_mean_difference" and np.any(c.tc):
        name = "standard_deviation"
    return name


def _prior(ctx, c):
    """Optionally another estimate of the moments; the facts follow the fitted prior."""
    k = str(ctx.rng.choice(["none", "none", "none", "lw", "shrunk", "ew"]))
    if k == "lw":
        return EmpiricalPrior(covariance_estimator=LedoitWolf())
    if k == "shrunk":
        return EmpiricalPrior(mu_estimator=ShrunkMu())
    if k == "ew":
        return EmpiricalPrior(mu_estimator=EWMu(alpha=0.1))
    return None


def _use_prior(c, prior):
    if prior is not None:
        from sklearn.base import clone

        pm = clone(prior).fit(c.X).prior_model_
        c.mu, c.cov = np.asarray(pm.mu), np.asarray(pm.covariance)
        c.kw["prior_estimator"] = prior


def _judge(ctx, c, weights, tag="", tol=1e-5):
    w = np.asarray(weights, float)
    ctx.require(f"{tag}finite weights, one per asset", w.shape == (c.m,) and np.all(np.isfinite(w)), w=w)
    bad = c.violations(w, tol)
    ctx.check(f"{tag}all requested constraints hold", not bad, bad=bad, w=w, w0=c.w0)


# the solver gives up on a few well-posed requests; another scaling then solves them
LOOSE = {"tol_gap_abs": 1e-7, "tol_gap_rel": 1e-7, "tol_feas": 1e-7}
RETRY = [dict(scale_constraints=s, scale_objective=o, solver_params=LOOSE) for s, o in ((1, 1), (10, 10), (100, 1), (0.1, 1))]


def _fit(ctx, c, **kw):
    err = None
    for extra in ({}, *RETRY):
        if extra and c.kw.get("solver"):
            extra = {k: v for k, v in extra.items() if k != "solver_params"}
        m = MeanRisk(**{**c.kw, **kw, **extra})
        try:
            r = m.fit(c.X, c.y) if c.y is not None else m.fit(c.X)
        except cp.SolverError as e:
            err = e
            continue
        ctx.check("a feasible request is solved", True)
        return r
    ctx.check("a feasible request is solved", False, error=str(err)[:200], kw={**c.kw, **kw}, w0=c.w0)
    raise Skip("solver")


@scenario("C11", quick=800, thorough=8000)
def mixed_requests(ctx):
    """Random mixtures of all constraint kinds around a known feasible allocation."""
    rng = ctx.rng
    c = mr.Case(rng, drift=0.0008)
    prior = _prior(ctx, c)
    _use_prior(c, prior)
    c.bounds()
    c.budgets()
    if c.interior() is None:
        raise Skip("box and budget disjoint")
    c.costs(0.4)
    c.turnover(0.3)
    c.linear(0.5)
    c.matrix(0.3)
    c.totals(0.4)
    c.tracking(0.25)
    c.set_betas()
    obj = OBJ[int(rng.integers(4))]
    risk = _pick_risk(ctx, c, FASTR if rng.random() < 0.8 else mr.RISKS)
    names = [r for r in (FASTR if rng.random() < 0.85 else mr.RISKS) if prior is None or r != "mean_absolute_deviation"]
    c.ceilings(0.5, names)
    c.min_return(0.3)
    if rng.random() < 0.2:
        c.kw["l1_coef"] = float(rng.choice([0.001, 0.01]))
    if rng.random() < 0.2:
        c.kw["l2_coef"] = float(rng.choice([0.001, 0.1]))
    if obj == ObjectiveFunction.MAXIMIZE_RATIO:
        # the ratio needs an allocation with a positive excess return and a positive budget
        if c.ret(c.w0) < 1e-4 or c.budget[0] is None or c.budget[0] <= 0 or c.kw.get("l2_coef"):
            obj = ObjectiveFunction.MINIMIZE_RISK
    c.kw.update(objective_function=obj, risk_measure=RiskMeasure(risk))
    ctx.note(objective=obj.name, risk=risk, kw={k: v for k, v in c.kw.items()}, n=c.n, m=c.m)
    ctx.require("generated witness is feasible", not c.violations(c.w0, 2e-6), bad=c.violations(c.w0, 2e-6))
    model = _fit(ctx, c)
    _judge(ctx, c, model.weights_)
    ctx.state(c.R, obj.name, risk, sorted(c.kw))


@scenario("C11", quick=600, thorough=6000)
def one_constraint(ctx):
    """Each constraint alone, made binding: without it the optimum would violate it."""
    rng = ctx.rng
    c = mr.Case(rng, drift=0.001)
    obj = OBJ[int(rng.integers(4))]
    if rng.random() < 0.5:
        c.bounds()
    if c.interior() is None:
        raise Skip("box")
    risk = _pick_risk(ctx, c, FASTR)
    c.kw.update(objective_function=obj, risk_measure=RiskMeasure(risk))
    if obj == ObjectiveFunction.MAXIMIZE_RATIO and c.ret(c.w0) < 1e-4:
        raise Skip("ratio needs a positive return")
    free = _fit(ctx, c)
    wf = np.asarray(free.weights_)
    # stand between the free optimum and the witness, so that the constraint cuts the optimum off
    kind = str(rng.choice(["turnover", "tracking", "min_return", "max_long", "max_short", "ceiling", "matrix", "equation", "hi", "lo"]))
    t = rng.uniform(0.3, 0.8)
    wm = wf + t * (c.w0 - wf)
    if np.abs(c.w0 - wf).max() < 1e-2:
        raise Skip("optimum at the witness")
    L = c.limits
    if kind == "turnover":
        c.prev = np.round(c.w0, 4)
        c.kw["previous_weights"] = c.spell(c.prev)
        L["turnover"] = c.kw["max_turnover"] = float(np.abs(wm - c.prev).max() + 1e-3)
    elif kind == "tracking":
        c.y = c.R @ c.w0 + rng.normal(0, 0.001, c.n)
        L["tracking"] = c.kw["max_tracking_error"] = float(np.linalg.norm(c.R @ wm - c.y) / np.sqrt(c.n - 1) + 1e-5)
    elif kind == "min_return":
        if c.ret(c.w0) <= c.ret(wf) + 1e-5:
            raise Skip("not binding")
        L["min_return"] = c.kw["min_return"] = c.ret(wm)
    elif kind in ("max_long", "max_short"):
        s = 1 if kind == "max_long" else -1
        a, b = np.maximum(s * c.w0, 0).sum(), np.maximum(s * wf, 0).sum()
        if b <= a + 1e-3:
            raise Skip("not binding")
        L[kind] = c.kw[kind] = float(a + 0.5 * (b - a))
    elif kind == "ceiling":
        name = str(rng.choice(mr.RISKS))
        a, b = c.risk(name, c.w0), c.risk(name, wf)
        if b <= a * 1.02 or a <= 1e-6:
            raise Skip("not binding")
        L[name] = c.kw[f"max_{name}"] = float(a + 0.5 * (b - a))
        kind = name
    elif kind == "matrix":
        d = wf - c.w0
        b = float(d @ wm)
        c.kw.update(left_inequality=[d.tolist()], right_inequality=[b])
        c.lin.append((d, b, False))
    elif kind == "equation":
        if not c.frame:
            raise Skip("names")
        j = int(np.argmax(np.abs(c.w0 - wf)))
        v = round(float(wm[j]), 5)
        c.kw["linear_constraints"] = [f"{c.cols[j]} {'<=' if wf[j] > c.w0[j] else '>='} {v}"]
        s = 1.0 if wf[j] > c.w0[j] else -1.0
        c.lin.append((s * np.eye(c.m)[j], s * v, False))
    elif kind == "hi":
        if c.hi is None:
            raise Skip("no bound")
        c.hi = np.maximum(np.round(np.minimum(c.hi, np.maximum(wm, c.w0) + 1e-3), 4), c.lo)
        c.kw["max_weights"] = c.spell(c.hi, 1.0)
    else:
        c.lo = np.minimum(np.round(np.maximum(c.lo, np.minimum(wm, c.w0) - 1e-3), 4), c.hi if c.hi is not None else 9)
        c.kw["min_weights"] = c.spell(c.lo, 0.0)
    ctx.note(kind=kind, objective=obj.name, risk=risk, n=c.n, m=c.m)
    ctx.require("generated witness is feasible", not c.violations(c.w0, 1e-6), bad=c.violations(c.w0, 1e-6))
    model = _fit(ctx, c)
    _judge(ctx, c, model.weights_, f"{kind}: ")
    ctx.state(c.R, kind, obj.name, risk)


@scenario("C11", quick=160, thorough=1600)
def discrete_constraints(ctx):
    """Cardinality, group cardinality and minimum positions (mixed-integer solver)."""
    rng = ctx.rng
    skewed = rng.random() < 0.2
    if skewed:
        # heavy losers beside modest gainers
        m = int(rng.integers(4, 8))
        losers = rng.permutation(m)[: m // 2]
        drift = np.full(m, 0.001)
        drift[losers] = -0.02
        c = mr.Case(rng, n=int(rng.integers(20, 40)), m=m, drift=drift)
    else:
        c = mr.Case(rng, n=int(rng.integers(20, 40)), drift=0.001)
    m = c.m
    short = rng.random() < 0.4 and not skewed
    if short:
        c.lo = -np.full(m, round(float(rng.uniform(0.2, 0.5)), 2))
        c.hi = np.full(m, round(float(rng.uniform(0.6, 1.0)), 2))
    else:
        c.hi = np.full(m, round(float(rng.uniform(0.5, 1.0)), 2))
    c.kw.update(min_weights=c.spell(c.lo, 0.0), max_weights=c.spell(c.hi, 1.0), solver="SCIP")
    want = {}
    # the witness: k held names, at least the thresholds
    k = int(rng.integers(2, m + 1))
    held = rng.permutation(m)[:k]
    if skewed:
        k = min(k, m - len(losers))
        held = np.setdiff1d(np.arange(m), losers)[:k]
    if rng.random() < 0.6 and k < m:
        want["card"] = c.kw["cardinality"] = k
    if rng.random() < 0.4:
        g = [f"G{int(x)}" for x in rng.integers(0, 2, m)]
        c.kw["groups"] = {a: [b] for a, b in zip(c.cols, g)} if c.frame else [g]
        want["groups"] = {}
        for name in sorted(set(g)):
            n_held = sum(g[i] == name for i in held)
            want["groups"][name] = ([i for i in range(m) if g[i] == name], max(1, n_held))
        c.kw["group_cardinalities"] = {a: b[1] for a, b in want["groups"].items()}
        if rng.random() < 0.2:  # unknown groups only warn
            c.kw["group_cardinalities"]["no such group"] = 1
    if rng.random() < 0.5 or len(want) == 0:
        tl = np.full(m, round(float(rng.uniform(0.05, 0.8 / k)), 3))
        if rng.random() < 0.4:
            tl = np.round(tl * rng.uniform(0.5, 1, m), 3)
        if rng.random() < 0.3:
            # no minimum for some
            tl[rng.permutation(m)[: int(rng.integers(1, m))]] = 0.0
        want["tl"] = tl
        c.kw["threshold_long"] = c.spell(tl, 0.0)
        if short:
            ts = -np.full(m, round(float(rng.uniform(0.05, 0.15)), 3))
            if rng.random() < 0.3:
                ts[rng.permutation(m)[: int(rng.integers(1, m))]] = 0.0
            want["ts"] = ts
            c.kw["threshold_short"] = c.spell(ts, 0.0)
    obj = ObjectiveFunction.MAXIMIZE_RATIO if skewed else OBJ[int(rng.integers(4))]
    risk = str(rng.choice(["cvar", "mean_absolute_deviation", "first_lower_partial_moment", "worst_realization", "variance"]))
    w = np.zeros(m)
    w[held] = 1 / k
    if np.any(w > c.hi + 1e-9):
        raise Skip("witness above maximum")
    c.w0 = w
    if obj == ObjectiveFunction.MAXIMIZE_RATIO and c.ret(w) < 2e-4:
        obj = ObjectiveFunction.MINIMIZE_RISK
    if risk == "variance":
        obj = ObjectiveFunction.MINIMIZE_RISK
    c.kw.update(objective_function=obj, risk_measure=RiskMeasure(risk))
    ctx.note(objective=obj.name, risk=risk, kw=c.kw, n=c.n, m=m, short=short)
    model = _fit(ctx, c)
    w = np.asarray(model.weights_)
    _judge(ctx, c, w, tol=2e-5)
    on = np.abs(w) > 1e-5
    if "card" in want:
        ctx.check("at most the requested number of positions", on.sum() <= want["card"], w=w, want=want["card"])
    for name, (idx, lim) in want.get("groups", {}).items():
        ctx.check("at most the requested number of positions in the group", on[idx].sum() <= lim, w=w, group=name, lim=lim)
    if "tl" in want:
        p = w > 1e-5
        ctx.check("long positions at least the threshold", np.all(w[p] >= want["tl"][p] - 2e-5), w=w, tl=want["tl"])
    if "ts" in want:
        p = w < -1e-5
        ctx.check("short positions at least the threshold", np.all(w[p] <= want["ts"][p] + 2e-5), w=w, ts=want["ts"])
    ctx.state(c.R, obj.name, risk, sorted(c.kw), short)


@scenario("C11", quick=60, thorough=800)
def custom_constraints(ctx):
    """Constraints given as functions of the weights, or of the weights and the estimator."""
    rng = ctx.rng
    c = mr.Case(rng, drift=0.001)
    if c.interior() is None:
        raise Skip("box")
    i, j = rng.permutation(c.m)[:2]
    a = float(c.w0[i] + c.w0[j]) + 0.02
    b = float(np.sum(c.w0**2)) + 0.01
    kind = str(rng.choice(["one", "list", "model"]))
    if kind == "one":
        f = lambda w: w[i] + w[j] <= a  # noqa: E731
    elif kind == "list":
        f = lambda w: [w[i] + w[j] <= a, cp.sum_squares(w) <= b]  # noqa: E731
    else:
        f = lambda w, model: [w[i] + w[j] <= a * model.budget]  # noqa: E731
    obj = [ObjectiveFunction.MINIMIZE_RISK, ObjectiveFunction.MAXIMIZE_RETURN, ObjectiveFunction.MAXIMIZE_UTILITY][int(rng.integers(3))]
    risk = str(rng.choice(FASTR))
    c.kw.update(objective_function=obj, risk_measure=RiskMeasure(risk), add_constraints=f)
    ctx.note(kind=kind, objective=obj.name, risk=risk)
    w = _fit(ctx, c).weights_
    _judge(ctx, c, w)
    ctx.check("custom constraint holds", w[i] + w[j] <= a + 1e-5, w=w, a=a)
    if kind == "list":
        ctx.check("custom constraint list holds", np.sum(w**2) <= b + 1e-5, w=w, b=b)
    ctx.state(c.R, kind, obj.name, risk)


@scenario("C11", quick=120, thorough=1200)
def impossible_requests(ctx):
    """Requests no allocation can satisfy end in an error, never in an allocation."""
    rng = ctx.rng
    c = mr.Case(rng, frame=True, drift=0.001)
    m = c.m
    obj = OBJ[int(rng.integers(4))]
    risk = str(rng.choice(FASTR))
    base = dict(objective_function=obj, risk_measure=RiskMeasure(risk))
    A, B = c.cols[0], c.cols[1]
    lim = str(rng.choice(["variance", "cvar", "max_drawdown", "standard_deviation", "semi_deviation", "mean_absolute_deviation", "worst_realization", "gini_mean_difference"]))
    vmin, _ = c.solve("min", lambda w: c.cvx_risk(lim, w))
    bads = {
        "minimum weights above the budget": dict(min_weights=1.2 / m),
        "maximum weights below the budget": dict(max_weights=0.8 / m),
        "minimum above maximum": dict(min_weights={A: 0.5}, max_weights={A: 0.3}),
        "unreachable return": dict(min_return=float(c.mu.max() * 1.3 + 1e-3)),
        "unreachable equations": dict(linear_constraints=[f"{A} >= 0.6", f"{B} >= 0.6"]),
        "contradictory equations": dict(linear_constraints=[f"{A} == 0.6", f"{A} == 0.3"]),
        "long limit below the budget": dict(max_long=0.8),
        "unreachable inequality": dict(left_inequality=[[1.0] * m], right_inequality=[0.7]),
        "unreachable turnover": dict(previous_weights=[1.0] + [0.0] * (m - 1), max_turnover=0.2, max_weights={A: 0.5}),
        "budget range outside the bounds": dict(budget=None, min_budget=0.9, max_budget=1.0, max_weights=0.8 / m),
    }
    if vmin is not None and vmin > 1e-6:
        bads["unreachable risk ceiling"] = {f"max_{lim}": float(vmin * 0.7)}
    kind = str(rng.choice(sorted(bads)))
    ctx.note(kind=kind, objective=obj.name, risk=risk, lim=lim, vmin=vmin)
    ctx.state(c.R, kind, obj.name, risk)
    kw = {**base, **bads[kind]}
    try:
        w = MeanRisk(**kw).fit(c.X).weights_
    except Exception:
        w = None
    ctx.check(f"refused: {kind}", w is None, w=w, kw=kw)
    # an impossible request must not spoil the estimator for the next fit
    model = MeanRisk(**kw)
    try:
        model.fit(c.X)
    except Exception:
        pass
    model.set_params(**{k: MeanRisk().get_params(deep=False)[k] for k in bads[kind]})
    c.kw = base
    if obj != ObjectiveFunction.MAXIMIZE_RATIO:
        w = model.fit(c.X).weights_
        ref = MeanRisk(**base).fit(c.X).weights_
        ctx.close("refit after a refusal equals a fresh fit", w, ref, 1e-4, 1e-5)


@scenario("C11", quick=12, thorough=100)
def malformed_requests(ctx):
    rng = ctx.rng
    c = mr.Case(rng, m=gens.some(rng, 3, 9), frame=True)
    X, m, R = c.X, c.m, c.R
    ctx.note(m=m)
    ctx.state(R)
    y2 = pd.DataFrame({"a": R[:, 0], "b": R[:, 1]}, index=X.index)
    y1 = pd.Series(R[:, 0], index=X.index)

    def no(name, kw, y=None, data=X):
        ctx.refused(name, lambda: MeanRisk(**kw).fit(data, y).weights_)

    no("budget together with a minimum budget", dict(min_budget=0.5))
    no("budget together with a maximum budget", dict(max_budget=0.5))
    no("turnover without previous weights", dict(max_turnover=0.1))
    no("tracking error without a benchmark", dict(max_tracking_error=0.1))
    no("tracking error with two benchmarks", dict(max_tracking_error=0.1), y2)
    no("cardinality with a continuous solver", dict(cardinality=2))
    no("group cardinality with a continuous solver", dict(group_cardinalities={"a": 1}, groups=[["a"] * m]))
    no("threshold with a continuous solver", dict(threshold_long=0.1))
    no("group cardinality without groups", dict(group_cardinalities={"a": 1}, solver="SCIP"))
    no("cardinality without bounds", dict(cardinality=2, solver="SCIP", max_weights=None))
    no("cardinality with all minimum weights positive", dict(cardinality=2, solver="SCIP", min_weights=0.01))
    no("long threshold with shorts needs a short threshold", dict(threshold_long=0.1, min_weights=-0.5, solver="SCIP"))
    no("short threshold needs a long threshold", dict(threshold_short=-0.1, min_weights=-0.5, solver="SCIP"))
    no("non-positive long limit", dict(max_long=0))
    no("non-positive short limit", dict(max_short=-0.1, min_weights=-1))
    no("weights of the wrong length", dict(min_weights=[0.0] * (m + 1)))
    no("weights of the wrong dimension", dict(max_weights=[[1.0] * m]))
    no("names with unnamed assets", dict(min_weights={c.cols[0]: 0.1}), data=R)
    no("equations with unnamed assets", dict(linear_constraints=["A <= 0.1"]), data=R)
    no("inequality of the wrong width", dict(left_inequality=[[1.0] * (m + 1)], right_inequality=[1.0]))
    no("inequality of mismatched height", dict(left_inequality=[[1.0] * m], right_inequality=[1.0, 2.0]))
    no("two-dimensional right-hand side", dict(left_inequality=[[1.0] * m], right_inequality=[[1.0]]))
    no("one-dimensional inequality", dict(left_inequality=[1.0] * m, right_inequality=[1.0]))
    no("NaN weights", dict(max_weights=[np.nan] + [1.0] * (m - 1)))
    no("unknown solver", dict(solver="NOSUCH"))
    no("custom constraint that is not a function", dict(add_constraints="w<=1"))
    no("custom constraint with three arguments", dict(add_constraints=lambda a, b, d: []))
    no("objective of the wrong type", dict(objective_function="minimize"))
    no("prior of the wrong type", dict(prior_estimator=LedoitWolf()))
    no("measure that is not a risk measure", dict(risk_measure=ExtraRiskMeasure.VALUE_AT_RISK))
    m1 = MeanRisk(max_tracking_error=0.05).fit(X, y1)
    ctx.check("a valid benchmark is accepted", m1.weights_.shape == (m,))


@scenario("C11", quick=60, thorough=600)
def partial_groups(ctx):
    """A mapping of groups may leave assets out, give one group or several; assets without a group count nowhere."""
    rng = ctx.rng
    c = mr.Case(rng, m=gens.some(rng, 4, 9), frame=True, drift=0.001)
    member = {}
    for a in c.cols:
        u = rng.random()
        if u < 0.35:
            continue
        member[a] = ["g", "h"][int(rng.integers(2))]
        if u < 0.7:
            member[a] = [member[a], "all"]
    mask = lambda g: np.array([g in ([v] if isinstance(v := member.get(a, []), str) else v) for a in c.cols], float)
    g = str(rng.choice(["g", "h", "all"]))
    if mask(g).sum() in (0, c.m):
        raise Skip("no such group")
    lim = float(rng.choice([0.1, 0.3, 0.6]))
    up = bool(rng.random() < 0.5)
    ctx.note(groups=member, group=g, limit=lim, at_most=up)
    ctx.state(c.R, str(member), g, lim, up)
    kw = dict(groups=member, linear_constraints=[f"{g} {'<=' if up else '>='} {lim}"])
    w = np.asarray(MeanRisk(**kw).fit(c.X).weights_)
    got = float(mask(g) @ w)
    ctx.check("limit on the group holds", got <= lim + 1e-5 if up else got >= lim - 1e-5, got=got, w=w)
    ref = np.asarray(MeanRisk(left_inequality=[mask(g) * (1 if up else -1)], right_inequality=[lim if up else -lim]).fit(c.X).weights_)
    ctx.close("same weights as the matrix form", w, ref, 1e-3, 1e-4)


@scenario("C11", quick=1, thorough=1)
def custom_constraint_in_ratio(ctx):
    """One fixed market: a plain limit on a weight, given as a custom constraint, with the ratio objective."""
    t = np.arange(120)
    R = 0.01 * np.column_stack([np.sin(t * (k + 1.3)) for k in range(4)]) + np.array([0.003, 0.001, 0.0012, 0.0014])
    free = MeanRisk(objective_function=ObjectiveFunction.MAXIMIZE_RATIO).fit(R).weights_
    a = 0.9 * float(free[0])
    ctx.note(free=free, limit=a)
    ctx.state(R)
    w = MeanRisk(objective_function=ObjectiveFunction.MAXIMIZE_RATIO, add_constraints=lambda w: w[0] <= a).fit(R).weights_
    ctx.check("custom weight limit holds in the ratio problem", w[0] <= a + 1e-5, w=w, limit=a)


@scenario("C11", quick=60, thorough=600)
def scale_free_custom_constraints(ctx):
    """Custom constraints that compare weights with weights hold with every objective."""
    rng = ctx.rng
    c = mr.Case(rng)
    obj = list(ObjectiveFunction)[ctx.index % 4]
    i, j = (int(k) for k in rng.choice(c.m, 2, replace=False))
    k = float(rng.choice([0.5, 1.0, 2.0]))
    risk = str(rng.choice(["variance", "standard_deviation", "cvar", "semi_variance"]))
    two = bool(rng.random() < 0.5)
    ctx.note(objective=obj, risk=risk, two=two, i=i, j=j, k=k)
    ctx.state(c.R, obj, risk, i, j, k)
    f = (lambda w: [w[i] >= k * w[j], w[j] >= 0.1 * w[i]]) if two else (lambda w: w[i] >= k * w[j])
    kw = dict(objective_function=obj, risk_measure=RiskMeasure(risk), add_constraints=f)
    try:
        w = np.asarray(MeanRisk(**kw).fit(c.X).weights_)
    except Exception as e:
        if type(e).__name__ == "SolverError":
            raise Skip("solver gave up")
        raise
    ctx.check("relative custom constraint holds", w[i] >= k * w[j] - 1e-5, w=w)
    if two:
        ctx.check("relative custom constraint list holds", w[j] >= 0.1 * w[i] - 1e-5, w=w)
