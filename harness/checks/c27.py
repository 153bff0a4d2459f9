"""C27: codependence and distance matrices."""

import numpy as np
import pandas as pd

import gens
from checks.c21 import cov, ew_cov, gerber, ledoit_wolf
from core import Skip, rule, scenario

from skfolio.distance import (
    CovarianceDistance, DistanceCorrelation, KendallDistance, MutualInformation, NBinsMethod, PearsonDistance, SpearmanDistance,
)
from skfolio.moments import EWCovariance, EmpiricalCovariance, GerberCovariance, LedoitWolf
from skfolio.utils.stats import n_bins_freedman, n_bins_knuth

rule("C27", "one state per fitted (return table, distance, options)")


def _table(rng, m=None, ties=None):
    m = int(m or gens.some(rng, 2, 11))
    n = gens.some(rng, 8, 70)
    A = gens.market(rng, n, m)
    if ties if ties is not None else rng.random() < 0.35:
        A = np.round(A, int(rng.choice([2, 3])))
    if rng.random() < 0.3:
        A[:, -1] = A[:, 0] * float(rng.choice([2.0, -1.0]))
    if rng.random() < 0.15:
        # perfectly correlated up to rounding
        A = np.outer(A[:, 0], rng.uniform(0.1, 3, m) * rng.choice([1, 1, -1], m))
    if (A.std(axis=0) < 1e-9).any():
        raise Skip("constant asset")
    return (gens.frame(rng, A) if rng.random() < 0.5 else A), A


def _pearson(x, y):
    a, b = x - x.mean(), y - y.mean()
    return float(a @ b / np.sqrt((a @ a) * (b @ b)))


def _ranks(x):
    return np.array([np.sum(x < v) + (np.sum(x == v) + 1) / 2 for v in x])


def _kendall(x, y):
    a = np.sign(x[:, None] - x[None, :])
    b = np.sign(y[:, None] - y[None, :])
    return float((a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum()))


def _pairs(A, f):
    m = A.shape[1]
    return np.array([[f(A[:, i], A[:, j]) for j in range(m)] for i in range(m)])


def _basic(ctx, D, m):
    ctx.equal("shape", D.shape, (m, m))
    ctx.close("symmetric", D, D.T, 0, 1e-12)
    ctx.check("non-negative", (D >= 0).all(), D=D)
    ctx.close("zero diagonal", np.diag(D), np.zeros(m), 0, 2e-7)


@scenario("C27", quick=700, thorough=7000)
def correlations(ctx):
    rng = ctx.rng
    X, A = _table(rng)
    n, m = A.shape
    k = str(rng.choice(["pearson", "kendall", "spearman", "cov"]))
    absolute = bool(rng.random() < 0.5)
    power = float(rng.choice([1, 2, 3])) if not absolute else float(rng.choice([1, 2, 3, 0.5, 1.5]))
    if power.is_integer() and rng.random() < 0.5:
        power = int(power)
    kw = {}
    if absolute or rng.random() < 0.5:
        kw["absolute"] = absolute
    if power != 1 or rng.random() < 0.5:
        kw["power"] = power
    if k == "pearson":
        est, C = PearsonDistance(**kw), _pairs(A, _pearson)
    elif k == "kendall":
        est, C = KendallDistance(**kw), _pairs(A, _kendall)
    elif k == "spearman":
        est, C = SpearmanDistance(**kw), _pairs(np.column_stack([_ranks(c) for c in A.T]), _pearson)
    else:
        c = str(rng.choice(["default", "emp", "lw", "ew"]))
        if c == "default":
            if min(np.abs(np.abs(A) - 0.5 * A.std(axis=0)).min(axis=0) / A.std(axis=0)) < 1e-9:
                raise Skip("return on the threshold")
            S = gerber(A, 0.5, True)
            if np.linalg.eigvalsh(S).min() < 1e-9 * np.diag(S).max():
                raise Skip("repaired matrix")
        else:
            S = {"emp": cov(A), "lw": ledoit_wolf(A, False), "ew": ew_cov(A, 0.04)}[c]
            if np.linalg.eigvalsh(S).min() < 1e-10 * np.diag(S).max():
                raise Skip("repaired matrix")
        est = CovarianceDistance(covariance_estimator={"default": None, "emp": EmpiricalCovariance(), "lw": LedoitWolf(), "ew": EWCovariance(alpha=0.04)}[c], **kw)
        s = np.sqrt(np.diag(S))
        C = S / np.outer(s, s)
        k += "/" + c
    ctx.note(kind=k, absolute=absolute, power=power, shape=A.shape)
    est.fit(X)
    if absolute:
        C = np.abs(C)
    C = np.array([[abs(v) ** power * (np.sign(v) if power % 2 == 1 else 1.0) for v in r] for r in C])
    # the smallest attainable codependence is at distance one
    low = -1.0 if not absolute and power % 2 == 1 else 0.0
    D = np.sqrt(np.clip((1 - C) / (1 - low), 0, 1))
    tol = 1e-9 if power >= 1 else 1e-7
    ctx.close("codependence", est.codependence_, C, 1e-8, tol)
    ctx.close("squared distance", est.distance_**2, D**2, 1e-8, tol)
    _basic(ctx, est.distance_, m)
    ctx.check("at most one", est.distance_.max() <= 1 + 1e-12)
    if k in ("kendall", "spearman"):
        B = np.exp(A * 30) if rng.random() < 0.5 else A**3 + A
        again = type(est)(**kw).fit(B)
        ctx.close("invariant under increasing transforms", again.distance_**2, est.distance_**2, 1e-8, 1e-9)
    p = rng.permutation(m)
    perm = est.__class__(**est.get_params(deep=False)).fit(A[:, p])
    ctx.close("order of assets", perm.distance_**2, (est.distance_**2)[np.ix_(p, p)], 1e-8, 1e-9)
    ctx.state(A, k, absolute, power)


def _dcov2(x, y):
    a, b = np.abs(x[:, None] - x[None, :]), np.abs(y[:, None] - y[None, :])
    return float((a * b).mean() + a.mean() * b.mean() - 2 * (a.mean(axis=0) * b.mean(axis=0)).mean())


@scenario("C27", quick=250, thorough=2500)
def distance_correlation(ctx):
    rng = ctx.rng
    X, A = _table(rng)
    m = A.shape[1]
    ctx.note(shape=A.shape)
    est = DistanceCorrelation().fit(X)
    C = _pairs(A, lambda x, y: np.sqrt(max(_dcov2(x, y), 0) / np.sqrt(_dcov2(x, x) * _dcov2(y, y))))
    ctx.close("distance correlation", est.codependence_, C, 1e-6, 1e-7)
    ctx.close("squared distance", est.distance_**2, np.clip(1 - C, 0, 1), 1e-6, 1e-7)
    _basic(ctx, est.distance_, m)
    ctx.state(A)


def _bins(x):
    q = np.percentile(x, [25, 75])
    d = 2 * (q[1] - q[0]) / len(x) ** (1 / 3)
    return 5 if d == 0 else max(1, int(np.ceil((x.max() - x.min()) / d)))


def _cells(x, k):
    e = np.linspace(x.min(), x.max(), k + 1)
    return np.clip(np.searchsorted(e, x, side="right") - 1, 0, k - 1)


@scenario("C27", quick=200, thorough=2000)
def bin_counts(ctx):
    """The Freedman-Diaconis rule on short, two-sided, tied and ordinary samples."""
    rng = ctx.rng
    kind = str(rng.choice(["short", "two_sided", "tied", "ordinary"]))
    n = int(rng.integers(2, 9) if kind in ("short", "two_sided") else rng.integers(10, 200))
    x = gens.market(rng, n, 1)[:, 0]
    if kind == "two_sided":
        x = np.where(rng.random(n) < 0.5, -1.0, 1.0) + 0.01 * rng.normal(size=n)
    elif kind == "tied":
        x = np.where(rng.random(n) < 0.9, 0.0, x)
    ctx.note(kind=kind, x=x)
    q = np.percentile(x, [25, 75])
    d = 2 * (q[1] - q[0]) / n ** (1 / 3)
    k = 5.0 if d == 0 else max(1.0, (x.max() - x.min()) / d)
    if d and (abs(k - round(k)) < 1e-9 and k != 1.0):
        raise Skip("bin count decided by rounding")
    ctx.equal("number of bins", n_bins_freedman(x), int(np.ceil(k)))
    ctx.refused("table", lambda: n_bins_freedman(np.zeros((3, 2))), (ValueError,))
    ctx.state(x)


def _entropy(labels):
    c = np.array([np.sum(np.all(labels == u, axis=1)) for u in np.unique(labels, axis=0)]) / len(labels)
    return float(-(c * np.log(c)).sum())


@scenario("C27", quick=300, thorough=3000)
def mutual_information(ctx):
    rng = ctx.rng
    mode = str(rng.choice(["freedman", "given", "knuth"], p=[0.45, 0.4, 0.15]))
    # Knuth's rule has no finite optimum on rounded data
    X, A = _table(rng, ties=False if mode == "knuth" else None)
    m = A.shape[1]
    norm = bool(rng.random() < 0.6)
    kw = dict(normalize=norm) if not norm or rng.random() < 0.5 else {}
    if mode == "given":
        nb = int(rng.integers(2, 12))
        kw["n_bins"] = nb
        bins = [nb] * m
    elif mode == "knuth":
        kw["n_bins_method"] = NBinsMethod.KNUTH
        bins = [n_bins_knuth(A[:, i]) for i in range(m)]
    else:
        if rng.random() < 0.5:
            kw["n_bins_method"] = NBinsMethod.FREEDMAN
        bins = [_bins(A[:, i]) for i in range(m)]
        edge = [(A[:, i].max() - A[:, i].min()) / max(2 * np.subtract(*np.percentile(A[:, i], [75, 25])) / len(A) ** (1 / 3), 1e-300) for i in range(m)]
        if any(abs(e - round(e)) < 1e-9 for e in edge if e < 1e9):
            raise Skip("bin count decided by rounding")
    if min(bins) < 2:
        raise Skip("single bin")
    ctx.note(mode=mode, normalize=norm, bins=bins, shape=A.shape)
    est = MutualInformation(**kw).fit(X)
    C, D = np.empty((m, m)), np.empty((m, m))
    for i in range(m):
        for j in range(m):
            k = max(bins[i], bins[j])
            x, y = _cells(A[:, i], k)[:, None], _cells(A[:, j], k)[:, None]
            hx, hy, hxy = _entropy(x), _entropy(y), _entropy(np.hstack([x, y]))
            mi = hx + hy - hxy
            vi = hxy - mi
            C[i, j] = mi / min(hx, hy) if norm else mi
            D[i, j] = vi / hxy if norm else vi
    ctx.close("mutual information", est.codependence_, C, 1e-8, 1e-9)
    ctx.close("variation of information", est.distance_, D, 1e-8, 1e-9)
    _basic(ctx, est.distance_, m)
    if rng.random() < 0.2:
        ctx.refused("unknown binning method", lambda: MutualInformation(n_bins_method="sturges").fit(X))
    ctx.state(A, mode, norm, tuple(bins))
