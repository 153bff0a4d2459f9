"""C10: cross-validated predictions, judged on the log of recording estimators."""

import joblib
import numpy as np
import pandas as pd
import sklearn.model_selection as sks
from sklearn import config_context
from sklearn.base import clone
from sklearn.pipeline import Pipeline

import gens
import recorder
from core import rule, scenario
from recorder import Recorder, rows_of, rule_weights

from skfolio import MultiPeriodPortfolio, PerfMeasure, Population, Portfolio, RiskMeasure
from skfolio.model_selection import CombinatorialPurgedCV, WalkForward, cross_val_predict
from skfolio.optimization import EqualWeighted, HierarchicalRiskParity, InverseVolatility, MeanRisk, RiskBudgeting
from skfolio.pre_selection import DropCorrelated, SelectKExtremes

rule("C10", "one state per (data, splitter, estimator, metadata) run with at least one split")


class Given(sks.BaseCrossValidator):
    """A splitter yielding a given list of splits."""

    def __init__(self, splits):
        self.splits = splits

    def split(self, X, y=None, groups=None):
        yield from self.splits

    def get_n_splits(self, X=None, y=None, groups=None):
        return len(self.splits)


def _data(rng, n=None, m=None):
    n = n or gens.some(rng, 24, 70)
    A = gens.market(rng, n, m or gens.some(rng, 2, 6), smooth=True)
    X = gens.frame(rng, A, index=gens.dates(rng, n, irregular=bool(rng.random() < 0.3))) if rng.random() < 0.7 else A
    y = None
    if rng.random() < 0.5:
        Y = gens.market(rng, n, int(rng.integers(1, 4)), smooth=True)
        y = pd.DataFrame(Y, index=X.index, columns=[f"f{i}" for i in range(Y.shape[1])]) if isinstance(X, pd.DataFrame) else Y
        if Y.shape[1] == 1 and rng.random() < 0.5:
            y = y.iloc[:, 0] if isinstance(y, pd.DataFrame) else y[:, 0]
    return X, y


def _splitter(rng, n, X):
    kinds = ["kfold", "ts", "wf", "wfexp", "given", "givenrev", "int"]
    if isinstance(X, pd.DataFrame):
        kinds.append("wffreq")
    kind = str(rng.choice(kinds))
    if kind == "kfold":
        cv = sks.KFold(int(rng.integers(2, 6)))
    elif kind == "ts":
        cv = sks.TimeSeriesSplit(int(rng.integers(2, 5)))
    elif kind == "wf":
        cv = WalkForward(test_size=int(rng.integers(2, 8)), train_size=int(rng.integers(5, 12)), purged_size=int(rng.integers(0, 3)), reduce_test=bool(rng.random() < 0.5))
    elif kind == "wfexp":
        cv = WalkForward(test_size=int(rng.integers(2, 8)), train_size=int(rng.integers(5, 12)), expend_train=True)
    elif kind == "wffreq":
        cv = WalkForward(test_size=1, train_size=2, freq="W-WED")
    elif kind == "int":
        cv = int(rng.integers(2, 6))
    else:
        cuts = np.sort(rng.permutation(np.arange(6, n - 2))[: int(rng.integers(2, 5))])
        edges = [*cuts, n]
        sp = []
        for a, b in zip(edges[:-1], edges[1:]):
            train = np.arange(0, max(4, a - 1))
            test = np.arange(a, b)
            if len(test):
                sp.append((train, test))
        if kind == "givenrev":
            sp = sp[::-1]
        cv = Given(sp)
    return cv, kind


def _splits(cv, X, y):
    return list(sks.check_cv(cv, y).split(X, y)) if not hasattr(cv, "get_path_ids") else list(cv.split(X, y))


def _np(v, rows):
    return None if v is None else np.asarray(v, float)[rows]


def _judge_log(ctx, key, X, y, splits, meta=None):
    log = recorder.LOG[key]
    A = np.asarray(X, float)
    ctx.equal("one fit per split", len(log), len(splits))
    ctx.check("every fit is on a fresh copy", not any(e["refit"] for e in log))
    want = sorted([list(map(int, tr)) for tr, _ in splits])
    got = sorted([rows_of(e["X"], A) for e in log], key=str) if False else [rows_of(e["X"], A) for e in log]
    ctx.check("fitted rows are known rows", all(None not in g for g in got))
    ctx.equal("fitted exactly on the training rows", sorted(map(tuple, got)), sorted(map(tuple, want)))
    for e, rows in zip(log, got):
        if None in rows:
            continue
        if isinstance(X, pd.DataFrame):
            ctx.equal("columns kept", e["cols"], list(X.columns))
            ctx.equal("index kept", list(e["index"]), list(X.index[rows]))
        if y is None:
            ctx.check("no target", e["y"] is None)
        else:
            ctx.close("target follows the rows", e["y"], _np(y, rows), 0, 0)
        if meta is None:
            ctx.check("no metadata", e["meta"] is None)
        else:
            ctx.close("metadata follows the rows", e["meta"], _np(meta, rows), 0, 0)


def _judge_part(ctx, p, X, y, meta, train, test, power, tag):
    A = np.asarray(X, float)
    w = rule_weights(A[train], _np(y, train), _np(meta, train), power)
    ctx.close(f"{tag}: weights from the training rows", p.weights, w, 1e-9, 1e-12)
    ctx.close(f"{tag}: evaluated on the test rows", np.asarray(p.X, float), A[test], 0, 0)
    ctx.close(f"{tag}: returns", p.returns, A[test] @ w, 1e-9, 1e-13)
    if isinstance(X, pd.DataFrame):
        ctx.equal(f"{tag}: observations", np.asarray(p.observations), np.asarray(X.index[test]))
        ctx.equal(f"{tag}: assets", list(p.assets), list(X.columns))


@scenario("C10", quick=250, thorough=4000)
def single_path(ctx):
    """Recording estimator through every non-combinatorial splitter."""
    rng = ctx.rng
    X, y = _data(rng)
    n = len(X)
    cv, kind = _splitter(rng, n, X)
    splits = _splits(cv, X, y)
    ctx.note(kind=kind, cv=cv, n=n, y=None if y is None else np.shape(y), frame=isinstance(X, pd.DataFrame))
    if not splits or any(len(a) == 0 or len(b) == 0 for a, b in splits):
        return
    meta = None
    if rng.random() < 0.3:
        meta = rng.normal(size=n) if rng.random() < 0.5 else rng.normal(size=(n, 2))
    ctx.state(kind, np.asarray(X), str(cv), y is not None, meta is not None)
    key = recorder.start(f"c10s{ctx.index}")
    power = float(rng.choice([0.5, 1.0, 2.0]))
    est = Recorder(key=key, power=power, portfolio_params=dict(annualized_factor=12) if rng.random() < 0.3 else None)
    X0 = X.copy()
    y0 = None if y is None else y.copy()
    m0 = None if meta is None else meta.copy()
    pp = None
    if rng.random() < 0.5:
        pp = dict(name="oos", tag="cv", annualized_factor=52, compounded=True)
    pp0 = None if pp is None else dict(pp)
    params = None if meta is None else dict(meta=meta)
    n_jobs = None if rng.random() < 0.6 else 3
    with joblib.parallel_backend("threading"):
        pred = cross_val_predict(est, X, y, cv=cv, n_jobs=n_jobs, params=params, portfolio_params=pp)
    _judge_log(ctx, key, X, y, splits, meta)
    ctx.check("estimator left unfitted", not hasattr(est, "weights_"))
    ctx.equal("estimator parameters unchanged", (est.key, est.power), (key, power))
    ctx.check("data unchanged", np.array_equal(np.asarray(X), np.asarray(X0)) and (y is None or np.array_equal(np.asarray(y), np.asarray(y0))))
    ctx.check("metadata unchanged", meta is None or np.array_equal(meta, m0))
    ctx.equal("portfolio parameters unchanged", pp, pp0)
    ctx.check("one multi-period portfolio", type(pred) is MultiPeriodPortfolio)
    order = sorted(splits, key=lambda s: int(s[1][0]))
    ctx.equal("one period per split", len(pred), len(order))
    for p, (train, test) in zip(pred, order):
        _judge_part(ctx, p, X, y, meta, train, test, power, "period")
        if est.portfolio_params:
            ctx.equal("estimator portfolio parameters reach the periods", p.annualized_factor, 12)
    starts = [int(t[0]) for _, t in order]
    ctx.check("periods in time order", starts == sorted(starts))
    if pp:
        ctx.equal("portfolio parameters applied", (pred.name, pred.tag, pred.annualized_factor, pred.compounded), ("oos", "cv", 52, True))
    del recorder.LOG[key]


@scenario("C10", quick=120, thorough=2000)
def combinatorial(ctx):
    rng = ctx.rng
    X, y = _data(rng)
    n = len(X)
    k = int(rng.integers(3, 6))
    t = int(rng.integers(2, k))
    cv = CombinatorialPurgedCV(n_folds=k, n_test_folds=t, purged_size=int(rng.integers(0, 2)), embargo_size=int(rng.integers(0, 2)))
    splits = _splits(cv, X, y)
    ctx.note(n=n, k=k, t=t)
    ctx.state(np.asarray(X), k, t, cv.purged_size, cv.embargo_size, y is not None)
    key = recorder.start(f"c10c{ctx.index}")
    est = Recorder(key=key, power=1.0)
    pp = None if rng.random() < 0.4 else dict(tag="cpcv", risk_free_rate=0.0001)
    if pp and rng.random() < 0.5:
        pp["name"] = "my"
    pp0 = None if pp is None else dict(pp)
    n_jobs = None if rng.random() < 0.6 else 4
    with joblib.parallel_backend("threading"):
        pred = cross_val_predict(est, X, y, cv=cv, n_jobs=n_jobs, portfolio_params=pp)
    _judge_log(ctx, key, X, y, splits)
    ctx.equal("portfolio parameters unchanged", pp, pp0)
    ctx.check("a population of paths", type(pred) is Population)
    ctx.equal("one portfolio per path", len(pred), cv.n_test_paths)
    A = np.asarray(X, float)
    size = n // k
    folds = [list(range(i * size, (i + 1) * size if i < k - 1 else n)) for i in range(k)]
    used = []
    for i, path in enumerate(pred):
        ctx.check("path is a multi-period portfolio", type(path) is MultiPeriodPortfolio)
        ctx.equal("path name", path.name, f"{(pp or {}).get('name', 'path')}_{i}")
        if pp:
            ctx.equal("path parameters", (path.tag, path.risk_free_rate), ("cpcv", 0.0001))
        ctx.equal("each fold once on a path", len(path), k)
        rows = [rows_of(np.asarray(p.X, float), A) for p in path]
        ctx.equal("path covers the folds in time order", rows, folds, path=i)
        for f, p in enumerate(path):
            # the period comes from a split that tests this fold
            fits = [j for j, (tr, te) in enumerate(splits) if any(list(map(int, b)) == folds[f] for b in te)
                    and np.allclose(p.weights, rule_weights(A[tr], _np(y, tr)), rtol=1e-9, atol=1e-12)]
            if ctx.check("period trained on a split testing that fold", len(fits) >= 1, path=i, fold=f):
                used.append((fits[0], f) if len(fits) == 1 else None)
            ctx.close("period returns", p.returns, A[folds[f]] @ p.weights, 1e-9, 1e-13)
    if None not in used:
        ctx.equal("every split-fold prediction used exactly once", len(set(used)), len(splits) * t)
    del recorder.LOG[key]


@scenario("C10", quick=120, thorough=1500)
def column_subsets(ctx):
    """With a subset of columns only those assets, and their columns of per-asset metadata, are seen."""
    rng = ctx.rng
    m = gens.some(rng, 3, 7)
    X, y = _data(rng, m=m)
    n = len(X)
    cols = np.sort(rng.permutation(m)[: int(rng.integers(1, m + 1))])
    meta = None
    if rng.random() < 0.6:
        meta = rng.normal(size=(n, m))
        if isinstance(X, pd.DataFrame) and rng.random() < 0.5:
            meta = pd.DataFrame(meta, index=X.index, columns=X.columns)
    cv = sks.KFold(int(rng.integers(2, 5))) if rng.random() < 0.6 else CombinatorialPurgedCV(n_folds=3, n_test_folds=2)
    ctx.note(n=n, m=m, cols=cols, meta=None if meta is None else type(meta).__name__, y=y is not None)
    key = recorder.start(f"c10k{ctx.index}")
    est = Recorder(key=key)
    pred = cross_val_predict(est, X, y, cv=cv, column_indices=cols, params=None if meta is None else dict(meta=meta))
    Xs = X.iloc[:, cols] if isinstance(X, pd.DataFrame) else X[:, cols]
    ms = None if meta is None else np.asarray(meta)[:, cols]
    ctx.state(np.asarray(X), list(cols), meta is not None, y is not None)
    splits = _splits(cv, X, y)
    _judge_log(ctx, key, Xs, y, splits, ms)
    if isinstance(cv, sks.KFold):
        for p, (train, test) in zip(pred, splits):
            _judge_part(ctx, p, Xs, y, ms, train, test, 1.0, "subset")
    del recorder.LOG[key]


@scenario("C10", quick=60, thorough=800)
def library_estimators(ctx):
    """Library estimators and pipelines: same as fitting a clone by hand on every split."""
    rng = ctx.rng
    n, m = gens.some(rng, 40, 80), gens.some(rng, 4, 7)
    X = gens.frame(rng, gens.market(rng, n, m, smooth=True))
    kind = str(rng.choice(["ew", "iv", "mr", "mrratio", "hrp", "rb", "pipe", "pipe2"]))
    tc = dict(zip(X.columns, rng.uniform(0, 0.002, m)))
    est = {
        "ew": lambda: EqualWeighted(),
        "iv": lambda: InverseVolatility(portfolio_params=dict(tag="iv")),
        "mr": lambda: MeanRisk(risk_measure=RiskMeasure.SEMI_VARIANCE, transaction_costs=tc, previous_weights=np.ones(m) / m),
        "mrratio": lambda: MeanRisk(risk_measure=RiskMeasure.CVAR, l2_coef=0.01),
        "hrp": lambda: HierarchicalRiskParity(),
        "rb": lambda: RiskBudgeting(),
        "pipe": lambda: Pipeline([("sel", SelectKExtremes(k=3)), ("opt", InverseVolatility())]),
        "pipe2": lambda: Pipeline([("sel", DropCorrelated(threshold=0.5)), ("opt", EqualWeighted())]),
    }[kind]()
    cvk = str(rng.choice(["kfold", "wf", "cpcv"]))
    cv = {"kfold": sks.KFold(3), "wf": WalkForward(test_size=10, train_size=20), "cpcv": CombinatorialPurgedCV(n_folds=3, n_test_folds=2)}[cvk]
    ctx.note(kind=kind, cv=cvk, n=n, m=m)
    ctx.state(kind, cvk, X.values)
    before = repr(est.get_params())
    pred = cross_val_predict(est, X, cv=cv)
    ctx.equal("estimator unchanged", repr(est.get_params()), before)
    manual = {}
    for j, (train, test) in enumerate(cv.split(X)):
        e = clone(est).fit(X.iloc[train])
        for b in test if cvk == "cpcv" else [test]:
            manual[(j, int(b[0]))] = e.predict(X.iloc[b])
    if cvk != "cpcv":
        refs_ = [manual[k] for k in sorted(manual, key=lambda k: k[1])]
        ctx.equal("periods", len(pred), len(refs_))
        for p, q in zip(pred, refs_):
            ctx.close("same weights as fitting by hand", p.weights, q.weights, 1e-6, 1e-7)
            ctx.close("same returns as fitting by hand", p.returns, q.returns, 1e-6, 1e-8)
            ctx.equal("same assets", list(p.assets), list(q.assets))
            ctx.equal("same observations", list(p.observations), list(q.observations))
            ctx.equal("same name and tag", (p.name, p.tag), (q.name, q.tag))
    else:
        for path in pred:
            for f, p in enumerate(path):
                start = f * (n // 3)
                cands = [q for (j, s), q in manual.items() if s == start]
                ctx.check("same as a split fitted by hand", any(list(q.assets) == list(p.assets) and np.allclose(p.returns, q.returns, atol=1e-7) for q in cands))
    other = cross_val_predict(est, X, cv=cv, n_jobs=None, verbose=0)
    a = pred.returns if cvk != "cpcv" else np.concatenate([p.returns for p in pred])
    b = other.returns if cvk != "cpcv" else np.concatenate([p.returns for p in other])
    ctx.close("repeatable", a, b, 1e-9, 1e-10)


@scenario("C10", quick=40, thorough=400)
def routed_metadata(ctx):
    """With metadata routing on, requested metadata reaches fit row by row and unrequested metadata is refused."""
    rng = ctx.rng
    X, y = _data(rng)
    n = len(X)
    meta = rng.normal(size=n)
    cv = sks.KFold(int(rng.integers(2, 5)))
    ctx.note(n=n)
    ctx.state(np.asarray(X), meta)
    key = recorder.start(f"c10r{ctx.index}")
    with config_context(enable_metadata_routing=True):
        est = Recorder(key=key).set_fit_request(meta=True)
        pred = cross_val_predict(est, X, y, cv=cv, params=dict(meta=meta))
        _judge_log(ctx, key, X, y, list(cv.split(X)), meta)
        for p, (train, test) in zip(pred, cv.split(X)):
            _judge_part(ctx, p, X, y, meta, train, test, 1.0, "routed")
        ctx.refused("metadata of another length", lambda: cross_val_predict(est, X, y, cv=cv, params=dict(meta=meta[:-1])))
        ctx.refused("metadata of a greater length", lambda: cross_val_predict(est, X, y, cv=cv, params=dict(meta=np.concatenate([meta, meta[:2]]))))
        ctx.refused("unrequested metadata", lambda: cross_val_predict(Recorder(key=key), X, y, cv=cv, params=dict(meta=meta)))
    del recorder.LOG[key]


@scenario("C10", quick=40, thorough=300)
def refusals(ctx):
    rng = ctx.rng
    X, _ = _data(rng)
    n = len(X)
    ctx.note(n=n)
    ctx.state(np.asarray(X))
    est = EqualWeighted()
    ctx.refused("shuffled folds", lambda: cross_val_predict(est, X, cv=sks.KFold(3, shuffle=True, random_state=int(rng.integers(99)))), (ValueError,))
    ctx.refused("overlapping tests", lambda: cross_val_predict(est, X, cv=Given([(np.arange(0, 5), np.arange(5, 10)), (np.arange(0, 6), np.arange(9, 14))])), (ValueError,))
    perm = rng.permutation(np.arange(6, 14))
    while np.all(np.diff(perm) > 0):
        perm = rng.permutation(np.arange(6, 14))
    ctx.refused("unordered test rows", lambda: cross_val_predict(est, X, cv=Given([(np.arange(0, 5), perm)])), (ValueError,))
    ctx.refused("unordered training rows", lambda: cross_val_predict(est, X, cv=Given([(np.arange(5, -1, -1), np.arange(7, 10))])), (ValueError,))


@scenario("C10", quick=50, thorough=600)
def search_uses_same_rules(ctx):
    """Grid search over a splitter scores each candidate on the test rows of copies fitted on the training rows."""
    rng = ctx.rng
    n = gens.some(rng, 30, 60)
    X = gens.frame(rng, gens.market(rng, n, 3, smooth=True))
    key = recorder.start(f"c10g{ctx.index}")
    cv = WalkForward(test_size=7, train_size=12) if rng.random() < 0.5 else sks.KFold(3)
    powers = [0.0, 1.0, 3.0]
    gs = sks.GridSearchCV(Recorder(key=key), {"power": powers}, cv=cv, refit=bool(rng.random() < 0.5))
    gs.fit(X)
    splits = list(cv.split(X))
    ctx.note(n=n, cv=cv)
    ctx.state(X.values, str(cv))
    for i, pw in enumerate(powers):
        for j, (train, test) in enumerate(splits):
            w = rule_weights(X.values[train], power=pw)
            r = X.values[test] @ w
            ctx.close("score is the out-of-sample Sharpe ratio", gs.cv_results_[f"split{j}_test_score"][i], r.mean() / r.std(ddof=1), 1e-7, 1e-9)
    del recorder.LOG[key]
