"""C19: nested clusters, judged on the logs of recording inner and outer estimators."""

import joblib
import numpy as np
import pandas as pd
import sklearn.model_selection as sks
from sklearn import config_context
from sklearn.cluster import AgglomerativeClustering, KMeans

import gens
import recorder
from core import Skip, rule, scenario
from recorder import Recorder, rule_weights

from skfolio import PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.cluster import HierarchicalClustering, LinkageMethod
from skfolio.distance import KendallDistance, PearsonDistance
from skfolio.model_selection import CombinatorialPurgedCV, WalkForward, cross_val_predict
from skfolio.optimization import EqualWeighted, InverseVolatility, MeanRisk, NestedClustersOptimization

rule("C19", "one state per fitted (market, clustering, cross-validation, inner and outer estimator)")


def _data(rng):
    n, m = gens.some(rng, 40, 80), gens.some(rng, 3, 9)
    A = gens.market(rng, n, m)
    X = gens.frame(rng, A) if rng.random() < 0.6 else A
    y = None
    if rng.random() < 0.4:
        Y = gens.market(rng, n, int(rng.integers(1, 3)))
        if Y.shape[1] == 1 and rng.random() < 0.5:
            Y = Y[:, 0]
        y = Y
        if isinstance(X, pd.DataFrame):
            y = pd.Series(Y, index=X.index, name="f") if Y.ndim == 1 else pd.DataFrame(Y, index=X.index, columns=[f"f{i}" for i in range(Y.shape[1])])
    return X, A, y


def _clustering(rng, m):
    k = str(rng.choice(["none", "hc", "hcmax", "kmeans", "agg"]))
    mc = int(rng.integers(1, m + 1))
    return {
        "none": None,
        "hc": HierarchicalClustering(linkage_method=LinkageMethod.SINGLE),
        "hcmax": HierarchicalClustering(max_clusters=mc),
        "kmeans": KMeans(n_clusters=mc, n_init=2, random_state=0),
        "agg": AgglomerativeClustering(n_clusters=mc),
    }[k], k


def _cv(rng, n):
    k = str(rng.choice(["none", "int", "kfold", "ts", "wf", "cpcv", "ignore", "list"]))
    splits = list(sks.KFold(int(rng.integers(2, 5))).split(np.zeros(n)))
    splits = [splits[i] for i in rng.permutation(len(splits))][: int(rng.integers(2, 5))]
    return {
        "list": splits,
        "none": None,
        "int": int(rng.integers(2, 5)),
        "kfold": sks.KFold(int(rng.integers(2, 5))),
        "ts": sks.TimeSeriesSplit(int(rng.integers(2, 5))),
        "wf": WalkForward(test_size=int(rng.integers(4, 9)), train_size=int(rng.integers(8, 16)), purged_size=int(rng.integers(0, 3))),
        "cpcv": CombinatorialPurgedCV(*[(4, 2), (5, 2), (6, 3), (5, 4), (7, 4)][int(rng.integers(5))], purged_size=1, embargo_size=1),
        "ignore": "ignore",
    }[k], k


def _rows(v, r):
    return None if v is None else np.asarray(v, float)[r]


def predictions(A, y, cols, cv, kind, power, measure, q, meta=None):
    """Returns of a recording estimator on ``cols``, out of sample (or in sample)."""
    B = A[:, cols]
    if kind == "ignore":
        return B @ rule_weights(B, _rows(y, slice(None)), meta, power), np.arange(len(A))
    if kind == "cpcv":
        pop = cross_val_predict(Recorder(key="", power=power), B, None if y is None else np.asarray(y, float), cv=cv)
        return np.asarray(pop.quantile(measure=measure, q=q)), np.arange(len(A))
    out = np.full(len(A), np.nan)
    for tr, te in sks.check_cv(cv).split(A):
        out[te] = B[te] @ rule_weights(B[tr], _rows(y, tr), None if meta is None else meta[tr], power)
    rows = np.flatnonzero(~np.isnan(out))
    return out[rows], rows


@scenario("C19", quick=260, thorough=3500)
def composition(ctx):
    rng = ctx.rng
    X, A, y = _data(rng)
    n, m = A.shape
    clu, ck = _clustering(rng, m)
    cv, vk = _cv(rng, n)
    measure = [RatioMeasure.SHARPE_RATIO, RiskMeasure.CVAR, PerfMeasure.MEAN][int(rng.integers(3))]
    q = float(rng.choice([0.0, 0.05, 0.1, 0.5, 0.9, 1.0]))
    p1, p2 = float(rng.choice([0.5, 1.0])), float(rng.choice([1.0, 2.0]))
    ki, ko = recorder.start(f"c19i{ctx.index}"), recorder.start(f"c19o{ctx.index}")
    dist = None if rng.random() < 0.6 else KendallDistance()
    jobs = None if rng.random() < 0.7 else 3
    meta = rng.uniform(0, 2, (n, m)) if rng.random() < 0.25 else None
    ctx.note(clustering=clu, cv=cv, q=q, measure=measure, y=None if y is None else np.shape(y), jobs=jobs, meta=meta is not None, shape=A.shape)
    inner = Recorder(key=ki, power=p1)
    fit_kw = {}
    with config_context(enable_metadata_routing=meta is not None):
        if meta is not None:
            inner.set_fit_request(meta=True)
            fit_kw["meta"] = meta
            if vk == "cpcv":
                raise Skip("metadata with paths")
        model = NestedClustersOptimization(
            inner_estimator=inner, outer_estimator=Recorder(key=ko, power=p2), distance_estimator=dist,
            clustering_estimator=clu, cv=cv, quantile=q, quantile_measure=measure, n_jobs=jobs,
        )
        with joblib.parallel_backend("threading"):
            model.fit(X, y, **fit_kw) if y is not None else model.fit(X, **fit_kw)
    w = np.asarray(model.weights_)
    # the partition
    labels = np.asarray(model.clustering_estimator_.labels_)
    if isinstance(X, pd.DataFrame):
        ctx.equal("clustering knows the asset names", list(model.clustering_estimator_.feature_names_in_), list(X.columns))
    D = (KendallDistance() if dist is not None else PearsonDistance()).fit(A).distance_
    if ck in ("none", "hc", "hcmax", "agg"):
        own = (HierarchicalClustering() if clu is None else type(clu)(**clu.get_params())).fit(D)
        ctx.equal("clusters of the chosen distance", labels, np.asarray(own.labels_))
    k = int(labels.max()) + 1
    groups = [np.flatnonzero(labels == g) for g in range(k)]
    ctx.check("every asset in one cluster", sorted(np.concatenate(groups).tolist()) == list(range(m)))
    # inner fits on all rows
    log = recorder.LOG[ki]
    big = [g for g in groups if len(g) > 1]
    full = [e for e in log if len(e["X"]) == n]
    for g in big:
        hit = [e for e in full if e["X"].shape[1] == len(g) and np.array_equal(e["X"], A[:, g])]
        ctx.check("inner estimator fitted on all rows of its cluster", len(hit) >= 1, cluster=g)
        for e in hit:
            if y is None:
                ctx.check("no target", e["y"] is None)
            else:
                ctx.close("target given to the inner estimator", e["y"], np.asarray(y, float), 0, 0)
            if isinstance(X, pd.DataFrame):
                ctx.equal("asset names given to the inner estimator", e["cols"], [X.columns[i] for i in g])
    ctx.check("inner estimators only see their cluster", all(any(e["X"].shape[1] == len(g) and np.isin(e["X"], A[:, g]).all() for g in big) for e in log))
    ctx.check("never refitted", not any(e["refit"] for e in log))
    # outer fit
    preds = []
    for g in groups:
        if len(g) == 1:
            _, rows = predictions(A, y, g, cv, vk, p1, measure, q)
            preds.append(A[rows, g[0]])
        else:
            p, rows = predictions(A, y, g, cv, vk, p1, measure, q, None if meta is None else meta[:, g])
            preds.append(p)
    P = np.array(preds).T
    outs = recorder.LOG[ko]
    ctx.equal("outer estimator fitted once", len(outs), 1)
    ctx.close("outer estimator sees the cluster returns", outs[-1]["X"], P, 1e-9, 1e-13)
    if y is None:
        ctx.check("no target for the outer estimator", outs[-1]["y"] is None)
    else:
        ctx.close("outer target follows the rows", np.asarray(outs[-1]["y"]).reshape(len(P), -1), _rows(y, rows).reshape(len(P), -1), 0, 0)
    # composition
    outer = rule_weights(P, _rows(y, rows), None, p2)
    want = np.zeros(m)
    for share, g in zip(outer, groups):
        want[g] = share * (rule_weights(A[:, g], _rows(y, slice(None)), None if meta is None else meta[:, g], p1) if len(g) > 1 else 1.0)
    ctx.close("composed weights", w, want, 1e-8, 1e-12)
    ctx.state(A, ck, vk, p1, p2)
    del recorder.LOG[ki], recorder.LOG[ko]


@scenario("C19", quick=60, thorough=700)
def library_estimators(ctx):
    """Composition with the library's own estimators, and parallelism."""
    rng = ctx.rng
    X, A, _ = _data(rng)
    n, m = A.shape
    cv, vk = _cv(rng, n)
    kinds = [None, InverseVolatility(), EqualWeighted(), MeanRisk(risk_measure=RiskMeasure.STANDARD_DEVIATION, max_weights=0.8), MeanRisk(transaction_costs=0.001, management_fees=0.0002)]
    a, b = rng.integers(len(kinds), size=2)
    clu = HierarchicalClustering(max_clusters=int(rng.integers(2, m)))
    ctx.note(cv=cv, inner=kinds[a], outer=kinds[b], clustering=clu, shape=A.shape)
    args = dict(inner_estimator=kinds[a], outer_estimator=kinds[b], clustering_estimator=clu, cv=cv)
    model = NestedClustersOptimization(**args).fit(X)
    labels = np.asarray(HierarchicalClustering(max_clusters=clu.max_clusters).fit(PearsonDistance().fit(A).distance_).labels_)
    groups = [np.flatnonzero(labels == g) for g in range(labels.max() + 1)]
    inner = kinds[a] or MeanRisk()
    outer = kinds[b] or MeanRisk()
    from sklearn.base import clone

    if vk == "ignore" or vk == "cpcv":
        rows = np.arange(n)
    else:
        rows = np.sort(np.concatenate([te for _, te in sks.check_cv(cv).split(A)]))
    preds, ws = [], []
    for g in groups:
        if len(g) == 1:
            preds.append(A[rows, g[0]])
            ws.append(np.ones(1))
            continue
        est = clone(inner).fit(A[:, g])
        ws.append(np.asarray(est.weights_))
        if vk == "ignore":
            p = est.predict(A[:, g])
        else:
            p = cross_val_predict(clone(inner), A[:, g], cv=cv)
            if vk == "cpcv":
                p = p.quantile(measure=RatioMeasure.SHARPE_RATIO, q=0.5)
        preds.append(np.asarray(p))
    o = np.asarray(clone(outer).fit(np.array(preds).T).weights_)
    want = np.zeros(m)
    for share, g, v in zip(o, groups, ws):
        want[g] = share * v
    ctx.check("composed weights", np.abs(model.weights_ - want).max() < 1e-4, got=model.weights_, want=want)
    ctx.check("one fitted inner estimator per cluster of several assets", len(model.inner_estimators_) == sum(len(g) > 1 for g in groups))
    with joblib.parallel_backend("threading"):
        par = NestedClustersOptimization(**args, n_jobs=4).fit(X)
    ctx.close("independent of parallelism", par.weights_, model.weights_, 1e-9, 1e-12)
    ctx.state(A, a, b, vk)
