"""C29: pre-selection transformers against their rules."""

import datetime as dt

import numpy as np
import pandas as pd

import gens
import refs
from checks.c07 import _peel
from core import Skip, rule, scenario
from ptfgen import FAST

from skfolio.measures import ExtraRiskMeasure, PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.pre_selection import (
    DropCorrelated, DropZeroVariance, SelectComplete, SelectKExtremes, SelectNonDominated, SelectNonExpiring,
)

rule("C29", "one state per fitted (table, rule, parameters)")


def _apply(ctx, est, X, A, keep, cols, rng):
    """Mask, support, transformed values and the same selection on a later table."""
    keep = np.asarray(keep, bool)
    ix = np.flatnonzero(keep)
    ctx.equal("kept assets", np.asarray(est.to_keep_).astype(bool), keep)
    ctx.equal("support", np.asarray(est.get_support()), keep)
    ctx.equal("support indices", list(est.get_support(indices=True)), ix.tolist())
    if len(ix) == 0:
        return
    T = est.transform(X)
    ctx.close("kept values", np.asarray(T, float), A[:, ix], 0, 0)
    if cols is not None:
        ctx.equal("kept names", list(est.get_feature_names_out()), [cols[i] for i in ix])
        P = est.set_output(transform="pandas").transform(X)
        ctx.equal("kept columns", list(P.columns), [cols[i] for i in ix])
        ctx.check("kept index", P.index.equals(X.index))
        ctx.close("kept frame values", P.to_numpy(), A[:, ix], 0, 0)
    B = rng.normal(size=(3, A.shape[1]))
    later = pd.DataFrame(B, columns=cols) if cols is not None else B
    ctx.close("same selection later", np.asarray(est.transform(later), float), B[:, ix], 0, 0)


def _table(rng, m=None, dup=True):
    m = int(m or gens.some(rng, 2, 10))
    n = gens.some(rng, 5, 60)
    A = gens.market(rng, n, m)
    if dup:
        for j in range(m):
            if rng.random() < 0.35:
                i = int(rng.integers(m))
                A[:, j] = float(rng.choice([1.0, -1.0])) * A[:, i] + rng.normal(size=n) * float(rng.choice([1e-4, 3e-3, 8e-3]))
    named = rng.random() < 0.6
    X = gens.frame(rng, A) if named else A
    return X, A, list(X.columns) if named else None


def _corr(A):
    D = A - A.mean(axis=0)
    s = np.sqrt((D * D).sum(axis=0))
    return D.T @ D / np.outer(s, s)


@scenario("C29", quick=700, thorough=7000)
def drop_correlated(ctx):
    rng = ctx.rng
    X, A, cols = _table(rng)
    m = A.shape[1]
    t = float(rng.choice([0.95, 0.8, 0.5, 0.2, 0.0, -0.3]))
    absolute = bool(rng.random() < 0.5)
    C = _corr(A)
    if absolute:
        C = np.abs(C)
    pairs = sorted(((C[i, j], i, j) for i in range(m) for j in range(i + 1, m)), reverse=True)
    v = np.array([p[0] for p in pairs] + [t])
    mc = C.mean(axis=0)
    if np.diff(np.sort(v)).min() < 1e-9 or (m > 2 and np.diff(np.sort(mc)).min() < 1e-12):
        raise Skip("ties")
    out = set()
    for c, i, j in pairs:
        if c > t and i not in out and j not in out:
            out.add(j if m == 2 else (i if mc[i] > mc[j] else j))
    keep = np.array([i not in out for i in range(m)])
    kw = {} if t == 0.95 and rng.random() < 0.5 else dict(threshold=t)
    ctx.note(threshold=t, absolute=absolute, shape=A.shape)
    est = DropCorrelated(absolute=absolute, **kw).fit(X)
    got = np.asarray(est.to_keep_, bool)
    if m == 2 and out:
        # both assets have the same mean correlation: either may go
        ctx.equal("one of two correlated assets kept", int(got.sum()), 1)
        keep = got
    G = C[np.ix_(got, got)]
    ctx.check("no kept pair above the threshold", (G[~np.eye(len(G), dtype=bool)] <= t + 1e-12).all(), C=G)
    gone = np.flatnonzero(~got)
    ctx.check("every dropped asset is correlated with another", all((np.delete(C[i], i) > t).any() for i in gone))
    _apply(ctx, est, X, A, keep, cols, rng)
    if rng.random() < 0.1:
        ctx.refused("threshold above one", lambda: DropCorrelated(threshold=1.01).fit(X), (ValueError,))
        ctx.refused("threshold below minus one", lambda: DropCorrelated(threshold=-1.01).fit(X), (ValueError,))
    ctx.state(A, t, absolute)


@scenario("C29", quick=300, thorough=3000)
def zero_variance(ctx):
    rng = ctx.rng
    X, A, cols = _table(rng, dup=False)
    A = A.copy()
    for j in range(A.shape[1]):
        k = rng.random()
        if k < 0.25:
            A[:, j] = float(rng.choice([0.0, 0.01, 1.0]))
        elif k < 0.5:
            A[:, j] = 0.01 + rng.normal(size=len(A)) * float(rng.choice([3e-5, 3e-4]))
    X = pd.DataFrame(A, columns=cols, index=X.index) if cols else A
    t = float(rng.choice([1e-8, 0.0, 1e-9, 1e-4, 1e-6]))
    v = np.array([np.mean((c - c.mean()) ** 2) for c in A.T])
    live = np.ptp(A, axis=0) > 0
    if np.any(np.abs(v - t)[live] < 1e-9 * max(t, 1e-30)) or (t == 0 and not live.all()):
        raise Skip("variance on the threshold")
    ctx.note(threshold=t, variances=v)
    kw = {} if t == 1e-8 and rng.random() < 0.5 else dict(threshold=t)
    est = DropZeroVariance(**kw).fit(X)
    _apply(ctx, est, X, A, v > t, cols, rng)
    ctx.refused("negative threshold", lambda: DropZeroVariance(threshold=-1e-9).fit(X), (ValueError,))
    ctx.state(A, t)


@scenario("C29", quick=350, thorough=3500)
def k_extremes(ctx):
    rng = ctx.rng
    X, A, cols = _table(rng, dup=False)
    m = A.shape[1]
    if rng.random() < 0.2 and len(A) % 2 == 0:  # an asset that returns nothing on average
        A[:, int(rng.integers(m))] = np.tile([1.0, -1.0], len(A) // 2) / 64
        X = A if cols is None else gens.frame(rng, A, cols, X.index)
    pool = [x for x in FAST if "at_risk" not in x or x.startswith("c")]
    name = str(pool[int(rng.integers(len(pool)))])
    meas = next(c(name) for c in (PerfMeasure, RiskMeasure, ExtraRiskMeasure, RatioMeasure) if name in {e.value for e in c})
    default = rng.random() < 0.2
    if default:
        name, meas = "sharpe_ratio", RatioMeasure.SHARPE_RATIO
    k = int(rng.integers(1, m + 3))
    high = bool(rng.random() < 0.6)
    try:
        v = np.array([refs.portfolio_measure(name, A[:, i], dict(refs.PARAM_DEFAULTS)) for i in range(m)], dtype=float)
    except ZeroDivisionError:
        raise Skip("undefined measure") from None
    if not np.isfinite(v).all():
        raise Skip("undefined measure")
    o = np.argsort(-v if high else v, kind="stable")
    keep = np.zeros(m, bool)
    keep[o[:k]] = True
    s = np.sort(v)
    if k < m and np.abs(v[o[k]] - v[o[k - 1]]) < 1e-7 * max(np.abs(v).max(), 1e-12):
        raise Skip("tie at the cut")
    ctx.note(measure=name, k=k, highest=high, values=v)
    kw = {} if default else dict(measure=meas)
    est = SelectKExtremes(k=k, highest=high, **kw).fit(X)
    _apply(ctx, est, X, A, keep, cols, rng)
    ctx.refused("k not positive", lambda: SelectKExtremes(k=0).fit(X), (ValueError,))
    ctx.state(A, name, k, high)


@scenario("C29", quick=350, thorough=3500)
def non_dominated(ctx):
    rng = ctx.rng
    X, A, cols = _table(rng)
    n, m = A.shape
    t = float(rng.choice([-0.5, -0.2, 0.0, 0.3, -1.0]))
    minimum = None if rng.random() < 0.4 else int(rng.integers(1, m + 2))
    fm = None
    names = ["mean", "variance"]
    if rng.random() < 0.5:
        fm = [PerfMeasure.MEAN, RiskMeasure.SEMI_DEVIATION] if rng.random() < 0.5 else [PerfMeasure.MEAN, RiskMeasure.CVAR, RatioMeasure.SHARPE_RATIO]
        names = [f.value for f in fm]
    C = _corr(A)
    if np.abs(C - t).min() < 1e-9:
        raise Skip("correlation on the threshold")
    W = [np.eye(m)[i] for i in range(m)]
    V = np.cov(A.T)
    for i in range(m):
        for j in range(i + 1, m):
            if C[i, j] < t:
                w = np.zeros(m)
                w[i] = (V[j, j] - V[i, j]) / (V[i, i] + V[j, j] - 2 * V[i, j])
                w[j] = 1 - w[i]
                W.append(w)
    sign = [-1.0 if x in {e.value for e in RiskMeasure} else 1.0 for x in names]
    F = np.array([[s * refs.portfolio_measure(x, A @ w, dict(refs.PARAM_DEFAULTS)) for s, x in zip(sign, names)] for w in W])
    for c in F.T:
        u = np.unique(c)
        if len(u) > 1 and np.diff(u).min() < 1e-9 * np.abs(u).max():
            raise Skip("ties")
    if any(1e-7 < abs(x) < 1e-4 for w in W for x in w):
        raise Skip("weight near the zero tolerance")
    fronts = _peel(F)
    ok = []
    if minimum is not None and minimum >= m:
        ok = [np.ones(m, bool)]
    else:
        cur = np.zeros(m, bool)
        for fr in fronts:
            for i in fr:
                cur |= np.abs(W[i]) > 1e-5
            if minimum is None:
                ok = [cur.copy()]
                break
            if cur.sum() >= minimum:
                # a front that fills the minimum exactly may or may not be the last
                ok.append(cur.copy())
                if cur.sum() > minimum:
                    break
        ok.append(cur.copy())
    ctx.note(threshold=t, min_n_assets=minimum, measures=names, shape=A.shape)
    est = SelectNonDominated(min_n_assets=minimum, threshold=t, fitness_measures=fm).fit(X)
    got = np.asarray(est.to_keep_, bool)
    ctx.check("union of the best fronts", any(np.array_equal(got, k) for k in ok), got=got, want=ok)
    if minimum is not None:
        ctx.check("at least the minimum", got.sum() >= min(minimum, m), got=got.sum())
    _apply(ctx, est, X, A, got, cols, rng)
    if rng.random() < 0.1:
        ctx.refused("threshold out of range", lambda: SelectNonDominated(threshold=1.5).fit(X), (ValueError,))
    ctx.state(A, t, minimum, tuple(names))


@scenario("C29", quick=300, thorough=3000)
def complete(ctx):
    rng = ctx.rng
    X, A, cols = _table(rng, dup=False)
    A = A.copy()
    n, m = A.shape
    for j in range(m):
        k = str(rng.choice(["full", "full", "head", "tail", "inner", "all", "both"]))
        if k in ("head", "both"):
            A[: int(rng.integers(1, n)), j] = np.nan
        if k in ("tail", "both"):
            A[-int(rng.integers(1, n)):, j] = np.nan
        if k == "inner":
            A[int(rng.integers(1, n - 1)), j] = np.nan
        if k == "all":
            A[:, j] = np.nan
    X = pd.DataFrame(A, columns=cols, index=X.index) if cols else A
    inner = bool(rng.random() < 0.5)
    keep = []
    for c in A.T:
        miss = [i for i in range(n) if np.isnan(c[i])]
        keep.append(not miss if inner else not (0 in miss or n - 1 in miss))
    ctx.note(inner=inner, shape=A.shape)
    kw = dict(drop_assets_with_internal_nan=inner) if inner or rng.random() < 0.5 else {}
    est = SelectComplete(**kw).fit(X)
    _apply(ctx, est, X, A, keep, cols, rng)
    ctx.state(np.isnan(A), inner)


@scenario("C29", quick=250, thorough=2500)
def non_expiring(ctx):
    rng = ctx.rng
    m = gens.some(rng, 1, 8)
    n = gens.some(rng, 3, 30)
    A = gens.market(rng, n, m)
    cols = gens.names(rng, m)
    if rng.random() < 0.4:  # expiring assets often have missing returns
        A[int(rng.integers(n)):, int(rng.integers(m))] = np.nan
    X = gens.frame(rng, A, cols)
    if rng.random() < 0.3:  # returns within the day
        X.index = X.index + pd.to_timedelta(rng.integers(0, 23, n), unit="h")
    end = X.index[-1]
    look, days = [
        (pd.DateOffset(days=5), 5), (dt.timedelta(days=10), 10), (pd.Timedelta(days=3), 3), (pd.offsets.BDay(4), None), (pd.DateOffset(months=1), None), (pd.DateOffset(days=0), 0),
    ][int(rng.integers(6))]
    cut = end + look if days is None else end + pd.Timedelta(days=days)
    exp, keep = {}, []
    for c in cols:
        k = str(rng.choice(["none", "before", "on", "after", "late", "past", "hour after", "hour before"]))
        d = {"before": cut - pd.Timedelta(days=1), "on": cut, "after": cut + pd.Timedelta(days=1), "hour after": cut + pd.Timedelta(hours=1), "hour before": cut - pd.Timedelta(hours=1), "late": cut + pd.Timedelta(days=400), "past": end - pd.Timedelta(days=30)}.get(k)
        if d is not None:
            exp[c] = d if rng.random() < 0.5 else d.to_pydatetime()
        keep.append(d is None or d > cut)
    if rng.random() < 0.3:
        exp["not an asset"] = end
    ctx.note(lookahead=look, end=end, expirations=exp)
    est = SelectNonExpiring(expiration_dates=exp, expiration_lookahead=look).fit(X)
    _apply(ctx, est, X, A, keep, cols, rng)
    ctx.refused("dates needed in the index", lambda: SelectNonExpiring(expiration_dates=exp, expiration_lookahead=look).fit(X.reset_index(drop=True)), (ValueError,))
    ctx.refused("frame needed", lambda: SelectNonExpiring(expiration_dates=exp, expiration_lookahead=look).fit(A), (ValueError,))
    ctx.refused("lookahead needed", lambda: SelectNonExpiring(expiration_dates=exp).fit(X), (ValueError,))
    ctx.refused("expirations needed", lambda: SelectNonExpiring(expiration_lookahead=look).fit(X), (ValueError,))
    ctx.state(end, str(look), tuple(keep))
