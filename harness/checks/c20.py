"""C20: stacking, judged on the logs of recording base and final estimators."""

import joblib
import numpy as np
import pandas as pd
import sklearn.model_selection as sks
from sklearn import config_context
from sklearn.base import clone
from sklearn.utils import check_random_state

import gens
import recorder
from checks.c19 import _cv, _data, _rows, predictions
from core import Skip, rule, scenario
from recorder import Recorder, rule_weights

from skfolio import PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.model_selection import CombinatorialPurgedCV, cross_val_predict
from skfolio.optimization import EqualWeighted, InverseVolatility, MeanRisk, StackingOptimization

rule("C20", "one state per fitted (market, base estimators, cross-validation, final estimator)")


@scenario("C20", quick=300, thorough=4000)
def composition(ctx):
    rng = ctx.rng
    X, A, y = _data(rng)
    n, m = A.shape
    cv, vk = _cv(rng, n)
    if rng.random() < 0.2:
        cv, vk = "prefit", "prefit"
    measure = [RatioMeasure.SHARPE_RATIO, RiskMeasure.CVAR, PerfMeasure.MEAN][int(rng.integers(3))]
    q = float(rng.choice([0.0, 0.05, 0.1, 0.5, 0.9, 1.0]))
    k = int(rng.integers(2, 5))
    powers = [float(p) for p in rng.permutation([0.3, 0.6, 1.0, 1.7])[:k]]
    p2 = float(rng.choice([1.0, 2.0]))
    keys = [recorder.start(f"c20b{ctx.index}_{i}") for i in range(k)]
    ko = recorder.start(f"c20f{ctx.index}")
    names = [f"e{int(i)}" for i in rng.permutation(9)[:k]]
    jobs = None if rng.random() < 0.7 else 3
    meta = rng.uniform(0, 2, (n, m)) if rng.random() < 0.25 and vk not in ("cpcv", "prefit") else None
    ctx.note(cv=cv, q=q, measure=measure, powers=powers, names=names, y=None if y is None else np.shape(y), jobs=jobs, meta=meta is not None, shape=A.shape)
    base = [Recorder(key=a, power=p) for a, p in zip(keys, powers)]
    fit_kw = {}
    half = A[: n // 2]
    yh = None if y is None else (y.iloc[: n // 2] if hasattr(y, "iloc") else y[: n // 2])
    with config_context(enable_metadata_routing=meta is not None):
        if vk == "prefit":
            Xh = X.iloc[: n // 2] if isinstance(X, pd.DataFrame) else half
            base = [e.fit(Xh, yh) for e in base]
        if meta is not None:
            base[0].set_fit_request(meta=True)
            for e in base[1:]:
                e.set_fit_request(meta=False)
            fit_kw["meta"] = meta
        model = StackingOptimization(
            estimators=list(zip(names, base)), final_estimator=Recorder(key=ko, power=p2), cv=cv, quantile=q, quantile_measure=measure, n_jobs=jobs
        )
        with joblib.parallel_backend("threading"):
            model.fit(X, y, **fit_kw) if y is not None else model.fit(X, **fit_kw)
    ctx.equal("named estimators in order", list(model.named_estimators_), names)
    ctx.check("unfitted estimators by name", list(model.named_estimators) == names and all(model.named_estimators[k] is e for k, e in zip(names, base)))
    preds, ws = [], []
    rows = np.arange(n)
    for i, (key, p) in enumerate(zip(keys, powers)):
        log = recorder.LOG[key]
        mt = meta if i == 0 else None
        cols = np.arange(m)
        if vk == "prefit":
            ctx.equal("fitted estimators are not refitted", len(log), 1)
            w = rule_weights(half, _rows(yh, slice(None)), None, p)
            preds.append(A @ w)
        else:
            w = rule_weights(A, _rows(y, slice(None)), mt, p)
            hit = [e for e in log if e["X"].shape == A.shape and np.array_equal(e["X"], A)]
            ctx.check("base estimators fitted on all rows", len(hit) >= 1)
            for e in hit:
                if y is None:
                    ctx.check("no target", e["y"] is None)
                else:
                    ctx.close("target given to the base estimators", e["y"], np.asarray(y, float), 0, 0)
                if isinstance(X, pd.DataFrame):
                    ctx.equal("asset names given to the base estimators", e["cols"], list(X.columns))
                ctx.check("metadata only where requested", (e["meta"] is None) == (mt is None))
            ctx.check("given estimators stay unfitted", not hasattr(base[i], "weights_"))
            ctx.check("never refitted", not any(e["refit"] for e in log))
            pr, rows = predictions(A, y, cols, cv, vk, p, measure, q, mt)
            preds.append(pr)
        ws.append(w)
        ctx.close("base weights by name", model.named_estimators_[names[i]].weights_, w, 1e-9, 1e-12)
    P = np.array(preds).T
    outs = recorder.LOG[ko]
    ctx.equal("final estimator fitted once", len(outs), 1)
    ctx.close("final estimator sees the predicted returns in order", outs[-1]["X"], P, 1e-9, 1e-13)
    if y is None:
        ctx.check("no target for the final estimator", outs[-1]["y"] is None)
    else:
        ctx.close("final target follows the rows", np.asarray(outs[-1]["y"]).reshape(len(P), -1), _rows(y, rows).reshape(len(P), -1), 0, 0)
    o = rule_weights(P, _rows(y, rows), None, p2)
    ctx.close("composed weights", model.weights_, o @ np.array(ws), 1e-8, 1e-12)
    pred = model.predict(X)
    ctx.close("prediction of the composed weights", pred.returns, A @ (o @ np.array(ws)), 1e-8, 1e-12)
    ctx.state(A, vk, powers, p2)
    for key in [*keys, ko]:
        del recorder.LOG[key]


@scenario("C20", quick=60, thorough=700)
def library_estimators(ctx):
    rng = ctx.rng
    X, A, _ = _data(rng)
    n, m = A.shape
    cv, vk = _cv(rng, n)
    base = [("mr", MeanRisk(risk_measure=RiskMeasure.CVAR)), ("iv", InverseVolatility()), ("ew", EqualWeighted()), ("mc", MeanRisk(transaction_costs=0.001, management_fees=0.0002))]
    base = [base[i] for i in rng.permutation(4)[: int(rng.integers(1, 5))]]
    final = [None, InverseVolatility(), MeanRisk(risk_measure=RiskMeasure.MEAN_ABSOLUTE_DEVIATION)][int(rng.integers(3))]
    ctx.note(cv=cv, base=[b for b, _ in base], final=final, shape=A.shape)
    model = StackingOptimization(base, final_estimator=final, cv=cv).fit(X)
    fitted = [clone(e).fit(A) for _, e in base]
    if vk == "ignore":
        P = np.array([np.asarray(e.predict(A)) for e in fitted]).T
    else:
        ps = [cross_val_predict(clone(e), A, cv=cv) for _, e in base]
        if isinstance(cv, CombinatorialPurgedCV):
            ps = [p.quantile(measure=RatioMeasure.SHARPE_RATIO, q=0.5) for p in ps]
        P = np.array([np.asarray(p) for p in ps]).T
    o = np.asarray((clone(final) if final is not None else MeanRisk()).fit(P).weights_)
    want = o @ np.array([e.weights_ for e in fitted])
    ctx.check("composed weights", np.abs(model.weights_ - want).max() < 1e-4, got=model.weights_, want=want)
    with joblib.parallel_backend("threading"):
        par = StackingOptimization(base, final_estimator=final, cv=cv, n_jobs=4).fit(X)
    ctx.close("independent of parallelism", par.weights_, model.weights_, 1e-9, 1e-12)
    ctx.state(A, vk, [b for b, _ in base])


@scenario("C20", quick=60, thorough=500)
def parameters(ctx):
    rng = ctx.rng
    A = gens.market(rng, 40, 3)
    ctx.state(A)
    mk = lambda: StackingOptimization([("a", MeanRisk(l2_coef=0.1)), ("b", InverseVolatility())], final_estimator=EqualWeighted())
    s = mk()
    p = s.get_params()
    ctx.equal("nested parameter", p["a__l2_coef"], 0.1)
    ctx.check("estimator by name", p["b"] is s.estimators[1][1])
    s.set_params(a__l2_coef=0.7)
    ctx.equal("nested parameter set", s.estimators[0][1].l2_coef, 0.7)
    e = EqualWeighted()
    s.set_params(b=e)
    ctx.check("estimator replaced in place", [n for n, _ in s.estimators] == ["a", "b"] and s.estimators[1][1] is e)
    c = clone(s)
    ctx.check("clone keeps replaced estimators", isinstance(c.estimators[1][1], EqualWeighted) and c.estimators[0][1].l2_coef == 0.7)
    s.set_params(estimators=[("z", EqualWeighted())])
    ctx.equal("estimators replaced", [n for n, _ in s.estimators], ["z"])
    w = np.asarray(s.fit(A).weights_)
    ctx.close("single estimator", w, np.full(3, 1 / 3), 1e-9, 0)
    ctx.refused("no estimators", lambda: StackingOptimization([]).fit(A))
    ctx.refused("duplicate names", lambda: StackingOptimization([("a", EqualWeighted()), ("a", InverseVolatility())]).fit(A))
    ctx.refused("name of a parameter", lambda: StackingOptimization([("cv", EqualWeighted()), ("b", InverseVolatility())]).fit(A))
    ctx.refused("double underscore", lambda: StackingOptimization([("a__b", EqualWeighted()), ("b", InverseVolatility())]).fit(A))
    ctx.refused("prefit with unfitted estimators", lambda: StackingOptimization([("a", EqualWeighted())], cv="prefit").fit(A))


class RandomBlocks(sks.BaseCrossValidator):
    """Contiguous folds at random places."""

    def __init__(self, random_state=None):
        self.random_state = random_state

    def get_n_splits(self, X=None, y=None, groups=None):
        return 3

    def split(self, X, y=None, groups=None):
        n = len(X)
        a, b = sorted(check_random_state(self.random_state).choice(np.arange(8, n - 8), 2, replace=False))
        for lo, hi in ((0, a), (a, b), (b, n)):
            te = np.arange(lo, hi)
            yield np.setdiff1d(np.arange(n), te), te


@scenario("C20", quick=40, thorough=300)
def random_folds(ctx):
    """All base estimators are predicted on the same random folds."""
    rng = ctx.rng
    n, m = int(rng.integers(30, 60)), int(rng.integers(2, 5))
    A = gens.market(rng, n, m)
    y = gens.market(rng, n, 1)[:, 0] if rng.random() < 0.5 else None
    k = int(rng.integers(2, 5))
    keys = [recorder.start(f"c20r{ctx.index}_{i}") for i in range(k)]
    ko = recorder.start(f"c20s{ctx.index}")
    cv = RandomBlocks(None if rng.random() < 0.7 else int(rng.integers(100)))
    ctx.note(n=n, m=m, k=k, cv=cv)
    StackingOptimization([(f"e{i}", Recorder(key=a)) for i, a in enumerate(keys)], final_estimator=Recorder(key=ko), cv=cv).fit(A, y)
    seen = []
    for a in keys:
        seen.append(sorted([e["X"].tolist() for e in recorder.LOG[a] if len(e["X"]) < n], key=len))
    ctx.equal("three folds", len(seen[0]), 3)
    for s in seen[1:]:
        ctx.equal("same folds for every base estimator", s, seen[0])
    ctx.equal("the final estimator sees every row", recorder.LOG[ko][-1]["X"].shape, (n, k))
    if y is not None:
        ctx.close("and every target", np.ravel(recorder.LOG[ko][-1]["y"]), y, 0, 0)
    ctx.check("the given splitter is left alone", cv.random_state is None or isinstance(cv.random_state, int))
    ctx.state(A, k)
    for a in [*keys, ko]:
        del recorder.LOG[a]
