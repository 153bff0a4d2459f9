"""C37: predictions, scores and scorers report the fitted allocation on the given data."""

import numpy as np
import pandas as pd
import sklearn.base as skb
from sklearn.model_selection import GridSearchCV, KFold, cross_val_score

import catalog
import gens
import refs
from checks.c35 import fit
from core import Skip, rule, scenario
from ptfgen import FAST, MEASURES, as_input, rand_fitness, rand_params

from skfolio import ExtraRiskMeasure, PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.metrics import make_scorer
from skfolio.optimization import (
    BaseOptimization, EqualWeighted, HierarchicalEqualRiskContribution, HierarchicalRiskParity, InverseVolatility,
    MaximumDiversification, MeanRisk, ObjectiveFunction, Random, RiskBudgeting,
)
from skfolio.population import Population
from skfolio.portfolio import Portfolio

rule("C37", "one state per (fitted allocation, table, portfolio parameters)")


class Fixed(BaseOptimization):
    """An allocation given in advance, with whatever costs its subclass declares."""

    def __init__(self, w=None, transaction_costs=0.0, management_fees=0.0, previous_weights=None, risk_free_rate=0.0, portfolio_params=None):
        super().__init__(portfolio_params=portfolio_params)
        self.w = w
        self.transaction_costs = transaction_costs
        self.management_fees = management_fees
        self.previous_weights = previous_weights
        self.risk_free_rate = risk_free_rate

    def fit(self, X, y=None):
        self.weights_ = np.array(self.w, float)
        return self


def _flat(v, cols, m, rng, kinds=("array", "list", "dict", "scalar")):
    k = str(rng.choice(kinds))
    if k == "dict" and cols is None:
        k = "list"
    if k == "scalar":
        x = float(abs(v[0]))
        return x, np.full(m, x)
    return as_input(rng, v, cols, form=k)


def _judge(ctx, p, A, index, cols, w, tc, fee, prev, params, name, tag=None, prefix=""):
    cost = float(np.sum(tc * np.abs(prev - w)))
    fees = float(np.sum(fee * w))
    r = A @ w - cost - fees
    s = 1 + np.abs(w).sum()
    ctx.equal(prefix + "type", type(p), Portfolio)
    ctx.close(prefix + "weights", p.weights, w, 0, 0)
    ctx.close(prefix + "returns", p.returns, r, 1e-9, 1e-13 * s)
    ctx.close(prefix + "total cost", p.total_cost, cost, 1e-10, 1e-15)
    ctx.close(prefix + "total fee", p.total_fee, fees, 1e-10, 1e-15)
    ctx.close(prefix + "previous weights", p.previous_weights, prev, 0, 0)
    ctx.equal(prefix + "observations", np.asarray(p.observations), index)
    ctx.equal(prefix + "assets", [str(c) for c in p.assets], cols)
    ctx.equal(prefix + "name", p.name, name)
    ctx.equal(prefix + "tag", p.tag, tag)
    for k, v in params.items():
        ctx.equal(prefix + "portfolio parameter", getattr(p, k), v, parameter=k)
    return r


def _setup(rng, m):
    n = gens.some(rng, 20, 50)
    A = gens.market(rng, n, m)
    return gens.frame(rng, A, index=gens.dates(rng, n)) if rng.random() < 0.7 else A


@scenario("C37", quick=600, thorough=8000)
def fixed(ctx):
    """Any weights, costs and portfolio parameters reach the predicted portfolio."""
    rng = ctx.rng
    m = gens.some(rng, 1, 7)
    X = _setup(rng, m)
    frame = isinstance(X, pd.DataFrame)
    cols = list(X.columns) if frame else None
    many = int(rng.integers(1, 5)) if rng.random() < 0.4 else None
    W = np.array([gens.weights(rng, m)[0] for _ in range(many or 1)])
    W[np.all(W == 0, axis=1)] = 1.0
    f = dict(tc=np.zeros(m), fee=np.zeros(m), prev=np.zeros(m))
    kw, pp = {}, {}
    for key, short, draw in (
        ("transaction_costs", "tc", lambda: rng.uniform(0, 0.01, m)),
        ("management_fees", "fee", lambda: rng.uniform(0, 0.01, m)),
        ("previous_weights", "prev", lambda: gens.weights(rng, m)[0]),
    ):
        u = rng.random()
        if u < 0.6:
            kw[key], f[short] = _flat(draw(), cols, m, rng)
        if u > 0.4 and rng.random() < 0.5:
            # portfolio parameters win over the estimator's own
            pp[key], f[short] = _flat(draw(), cols, m, rng)
    params = dict(refs.PARAM_DEFAULTS)
    if rng.random() < 0.6:
        kw["risk_free_rate"] = params["risk_free_rate"] = float(rng.choice([0.0, 0.0004, 0.002]))
    for k, v in rand_params(rng, 0.7).items():
        if v != refs.PARAM_DEFAULTS[k]:
            pp[k] = params[k] = v
    name, tag = "Fixed", None
    if rng.random() < 0.5:
        pp["name"] = name = "my portfolio"
    if rng.random() < 0.5:
        pp["tag"] = tag = "the tag"
    if rng.random() < 0.3:
        pp["fitness_measures"] = params["fitness_measures"] = rand_fitness(rng)
    est = Fixed(w=W if many else W[0], portfolio_params=pp if pp or rng.random() < 0.5 else None, **kw)
    keep = dict(pp)
    ctx.note(shape=np.shape(X), weights=W, estimator=kw, portfolio_params=pp, cols=cols)
    est.fit(X)
    n2 = int(rng.integers(4, 30))
    B = gens.market(rng, n2, m)
    Y = gens.frame(rng, B, cols=cols, index=gens.dates(rng, n2, start="2023-01-03")) if frame else B
    out = est.predict(Y)
    index = np.asarray(Y.index) if frame else np.arange(n2)
    labels = cols or [f"x{i}" for i in range(m)]
    ctx.equal("portfolio parameters untouched", pp, keep)
    if many:
        ctx.equal("population", type(out), Population)
        ctx.equal("one portfolio per allocation", len(out), many)
        sharpe = []
        for i, p in enumerate(out):
            r = _judge(ctx, p, B, index, labels, W[i], f["tc"], f["fee"], f["prev"], params, f"ptf{i} - {name}", tag, prefix="population ")
            sharpe.append((refs.mean(r) - params["risk_free_rate"]) / max(refs.std(r), 1e-300))
        if all(refs.std(p.returns) > 1e-8 for p in out):
            ctx.close("score of a population", est.score(Y), np.mean(sharpe), 1e-6, 1e-9)
    else:
        r = _judge(ctx, out, B, index, labels, W[0], f["tc"], f["fee"], f["prev"], params, name, tag)
        sd = refs.std(r)
        if sd > 1e-8:
            want = (refs.mean(r) - params["risk_free_rate"]) / sd
            ctx.close("score is the Sharpe ratio", est.score(Y), want, 1e-6, 1e-9)
            ctx.close("score ignores targets", est.score(Y, np.zeros(n2)), want, 1e-6, 1e-9)
        same = est.fit_predict(Y)
        ctx.close("fit then predict", same.returns, out.returns, 0, 0)
    ctx.state(B, W, f["tc"], f["fee"], f["prev"], params["risk_free_rate"])


OWN = {
    "MeanRisk": (MeanRisk, True, True), "RiskBudgeting": (RiskBudgeting, True, True),
    "MaximumDiversification": (MaximumDiversification, True, True),
    "HierarchicalRiskParity": (HierarchicalRiskParity, True, False),
    "HierarchicalEqualRiskContribution": (HierarchicalEqualRiskContribution, True, False),
    "EqualWeighted": (EqualWeighted, False, False), "InverseVolatility": (InverseVolatility, False, False), "Random": (Random, False, False),
}


@scenario("C37", quick=260, thorough=3000)
def fitted(ctx):
    """The library's estimators pass their own costs and rates on to the prediction."""
    rng = ctx.rng
    m = gens.some(rng, 3, 6)
    X = _setup(rng, m)
    frame = isinstance(X, pd.DataFrame)
    cols = list(X.columns) if frame else None
    name = str(rng.choice(list(OWN)))
    cls, costs, rate = OWN[name]
    f = dict(tc=np.zeros(m), fee=np.zeros(m), prev=np.zeros(m))
    kw, params = {}, dict(refs.PARAM_DEFAULTS)
    if costs:
        for key, short, draw in (
            ("transaction_costs", "tc", lambda: rng.uniform(0, 0.002, m)),
            ("management_fees", "fee", lambda: rng.uniform(0, 0.002, m)),
            ("previous_weights", "prev", lambda: rng.dirichlet(np.ones(m))),
        ):
            if rng.random() < 0.6:
                kw[key], f[short] = _flat(draw(), cols, m, rng, kinds=("array", "list", "dict", "scalar") if short != "prev" else ("array", "list", "dict"))
    if rate and rng.random() < 0.6:
        kw["risk_free_rate"] = params["risk_free_rate"] = float(rng.choice([0.0001, 0.0004]))
    if name == "MeanRisk":
        kw["objective_function"] = [ObjectiveFunction.MINIMIZE_RISK, ObjectiveFunction.MAXIMIZE_UTILITY][int(rng.integers(2))]
        if rng.random() < 0.4:
            kw["risk_measure"] = RiskMeasure.CVAR
            # the estimator's own levels steer the optimisation only
            kw["cvar_beta"] = 0.8
    pp = {}
    if rng.random() < 0.5:
        pp = {"annualized_factor": 12.0, "compounded": True}
        params.update(pp)
    label, tag = name, None
    if rng.random() < 0.4:
        pp["name"] = label = "P"
        pp["tag"] = tag = "T"
    est = cls(portfolio_params=pp or None, **kw)
    ctx.note(estimator=est, cols=cols)
    fit(est, X, None, {})
    n2 = int(rng.integers(5, 40))
    B = gens.market(rng, n2, m)
    Y = gens.frame(rng, B, cols=cols, index=gens.dates(rng, n2, start="2023-01-03")) if frame else B
    p = est.predict(Y)
    r = _judge(ctx, p, B, np.asarray(Y.index) if frame else np.arange(n2), cols or [f"x{i}" for i in range(m)], est.weights_, f["tc"], f["fee"], f["prev"], params, label, tag)
    ctx.close("score is the Sharpe ratio", est.score(Y), (refs.mean(r) - params["risk_free_rate"]) / refs.std(r), 1e-6, 1e-9)
    ctx.equal("weights length", np.shape(est.weights_), (m,))
    ctx.refused("prediction before fit", lambda: skb.clone(est).predict(Y))
    ctx.refused("prediction with another number of assets", lambda: est.predict(np.asarray(Y)[:, :-1]))
    ctx.state(name, np.asarray(X), B)


@scenario("C37", quick=200, thorough=2400)
def catalogue(ctx):
    """Every allocation estimator predicts the portfolio of its weights."""
    rng = ctx.rng
    m = gens.some(rng, 4, 6)
    X = gens.market(rng, int(rng.integers(40, 60)), m)
    sp = catalog.spec(rng, m, kinds=catalog.OPTIM)
    v = catalog.View(catalog.simple_names(rng, m), keyed=bool(rng.random() < 0.5))
    est = fit(sp.make(v), *catalog.inputs(rng, sp, X, v))
    ctx.note(estimator=est)
    B = gens.market(rng, 25, m)
    Y = v.table(B)
    out = est.predict(Y)
    W = np.atleast_2d(est.weights_)
    ps = [out] if est.weights_.ndim == 1 else list(out)
    ctx.equal("one portfolio per weight vector", len(ps), len(W))
    pp = est.portfolio_params or {}
    arr = lambda x: np.zeros(m) if x is None else np.array([x.get(n, 0.0) for n in v.names]) if isinstance(x, dict) else np.broadcast_to(np.asarray(x, float), (m,))
    tc, fee, prev = (arr(getattr(est, k, None)) for k in ("transaction_costs", "management_fees", "previous_weights"))
    for i, (p, w) in enumerate(zip(ps, W)):
        r = B @ w - np.sum(tc * np.abs(prev - w)) - np.sum(fee * w)
        ctx.close("returns of the weights", p.returns, r, 1e-9, 1e-13)
        base = pp.get("name", type(est).__name__)
        ctx.equal("name of the prediction", p.name, base if est.weights_.ndim == 1 else f"ptf{i} - {base}")
        for k, x in pp.items():
            if k != "name":
                ctx.equal("parameters of the prediction", getattr(p, k), x, parameter=k)
    ctx.state(sp.kind, X, B)


PERF = {m for m in MEASURES.values() if isinstance(m, (PerfMeasure, RatioMeasure))}


@scenario("C37", quick=300, thorough=4000)
def scorers(ctx):
    """Scorers report the measure of the prediction, larger being better."""
    rng = ctx.rng
    m = gens.some(rng, 2, 6)
    X = gens.market(rng, int(rng.integers(12, 40)), m)
    w = rng.dirichlet(np.ones(m))
    est = Fixed(w=w, transaction_costs=0.001, previous_weights=rng.dirichlet(np.ones(m))).fit(X)
    p = est.predict(X)
    for name in rng.permutation(list(FAST))[:6]:
        me = MEASURES[str(name)]
        val = getattr(p, me.value)
        want = val if me in PERF else -val
        ctx.note(measure=me)
        ctx.close("score of a measure", make_scorer(me)(est, X), want, 1e-12, 1e-15, measure=me)
        ctx.close("told larger is better", make_scorer(me, greater_is_better=True)(est, X), val, 1e-12, 1e-15, measure=me)
        ctx.close("told smaller is better", make_scorer(me, greater_is_better=False)(est, X), -val, 1e-12, 1e-15, measure=me)
    k = float(rng.normal())

    def custom(pred, weight=1.0):
        return pred.mean * weight - pred.cvar

    ctx.close("custom score", make_scorer(custom)(est, X), p.mean - p.cvar, 1e-12, 1e-15)
    ctx.close("custom score with arguments", make_scorer(custom, weight=k)(est, X), p.mean * k - p.cvar, 1e-12, 1e-15)
    ctx.close("custom loss", make_scorer(custom, greater_is_better=False, weight=k)(est, X), -(p.mean * k - p.cvar), 1e-12, 1e-15)
    ctx.refused("neither a measure nor a function", lambda: make_scorer("sharpe_ratio"), (TypeError,))
    ctx.check("text of a scorer", "custom" in repr(make_scorer(custom, weight=2)) and "weight=2" in repr(make_scorer(custom, weight=2)) and "greater_is_better=False" in repr(make_scorer(custom, greater_is_better=False)))
    ctx.state(X, w)


class Tilt(BaseOptimization):
    """Holds asset ``k`` only."""

    def __init__(self, k=0, portfolio_params=None):
        super().__init__(portfolio_params=portfolio_params)
        self.k = k

    def fit(self, X, y=None):
        self.weights_ = np.eye(np.shape(X)[1])[self.k]
        return self


@scenario("C37", quick=120, thorough=1500)
def model_selection(ctx):
    """Searches pick the allocation with the best average score over the folds."""
    rng = ctx.rng
    m = gens.some(rng, 2, 5)
    k = int(rng.integers(2, 5))
    X = gens.market(rng, int(rng.integers(20, 60)), m)
    me = MEASURES[str(rng.choice(["sharpe_ratio", "variance", "cvar", "mean", "max_drawdown", "skew", "sortino_ratio", "semi_deviation", "kurtosis"]))]
    cv = KFold(k)
    sign = 1 if me in PERF else -1
    table = np.array([[sign * getattr(Portfolio(X[t], np.eye(m)[a]), me.value) for a in range(m)] for _, t in cv.split(X)])
    gs = GridSearchCV(Tilt(), {"k": list(range(m))}, cv=cv, scoring=make_scorer(me)).fit(X)
    ctx.note(measure=me, shape=X.shape, folds=k)
    ctx.close("average scores", gs.cv_results_["mean_test_score"], table.mean(axis=0), 1e-9, 1e-12)
    best = int(np.argmax(table.mean(axis=0)))
    ctx.equal("best allocation", gs.best_params_, {"k": best})
    ctx.close("default score", cross_val_score(Tilt(k=0), X, cv=cv), [Portfolio(X[t], np.eye(m)[0]).sharpe_ratio for _, t in cv.split(X)], 1e-9, 1e-12)
    ctx.close("best allocation is refitted", gs.predict(X).weights, np.eye(m)[best], 0, 0)
    ctx.state(X, str(me), k)
