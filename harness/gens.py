"""Workload generators shared by the checks."""

from __future__ import annotations

import numpy as np
import pandas as pd


def series(rng, n=None, scale=None):
    """A hostile return series: varied length, tails, ties, signs, constants."""
    n = int(n or rng.choice([2, 3, 5, 7, 10, 19, 20, 21, 40, 61, 100]))
    scale = scale or 10 ** rng.uniform(-4, -0.7)
    kind = rng.choice(
        ["normal", "heavy", "skewed", "ties", "allpos", "allneg", "trend", "const", "sparse", "mixed"]
    )
    if kind == "normal":
        r = rng.normal(size=n)
    elif kind == "heavy":
        r = np.clip(rng.standard_t(2.5, n), -6, 6)
    elif kind == "skewed":
        r = rng.exponential(size=n) - 1
        r *= rng.choice([-1, 1])
    elif kind == "ties":
        r = rng.integers(-3, 4, n).astype(float)
    elif kind == "allpos":
        r = np.abs(rng.normal(size=n)) + 0.05
    elif kind == "allneg":
        r = -np.abs(rng.normal(size=n)) - 0.05
    elif kind == "trend":
        r = np.linspace(-1, 1, n) * rng.choice([-1, 1]) + 0.1 * rng.normal(size=n)
    elif kind == "const":
        r = np.full(n, rng.choice([-1.0, 0.5, 2.0]))
        if n > 3 and rng.random() < 0.5:
            r[rng.integers(n)] *= -1
    elif kind == "sparse":
        r = rng.normal(size=n) * (rng.random(n) < 0.3)
    else:
        r = rng.normal(size=n) + rng.normal()
    r = np.clip(r, -6, 6) * scale
    r = np.clip(r, -0.9, 5)
    return r, str(kind)


def names(rng, m, style=None):
    style = style or rng.choice(["plain", "letters", "mixed"])
    if style == "plain":
        return [f"A{i:02d}" for i in range(m)]
    if style == "letters":
        pool = list("ABCDEFGHJKLMNPQRSTUVWXYZ")
        return [str(pool[i % 24] * (i // 24 + 1)) for i in rng.permutation(max(m, 24))[:m]]
    base = [f"asset {i}" if i % 3 == 0 else f"t_{i}.X" if i % 3 == 1 else f"Zz{i}" for i in range(m)]
    return [base[i] for i in rng.permutation(m)]


def market(rng, n=None, m=None, scale=0.01, drift=True, smooth=False):
    """Asset returns with factor structure, unequal volatilities and some heavy tails; unless smooth, now and then with ties, stale prices or an extreme day."""
    n = int(n or rng.integers(30, 90))
    m = int(m or rng.integers(3, 7))
    k = int(rng.integers(1, 4))
    F = rng.normal(size=(n, k))
    B = rng.normal(0.3, 0.7, size=(k, m))
    eps = np.clip(rng.standard_t(5, size=(n, m)), -6, 6) * rng.uniform(0.5, 1.2, m)
    X = (F @ B + eps) * rng.uniform(0.4, 1.8, m)
    if drift:
        X = X + rng.normal(0.08, 0.12, m)
    kind = 1.0 if smooth else rng.random()
    if kind < 0.05 and n > 20:
        X[rng.permutation(n)[: max(1, n // 15)]] = 0.0  # days on which no asset moves
    elif kind < 0.09 and n > 20:
        X[rng.random((n, m)) < 0.05] = 0.0  # stale prices
    elif kind < 0.13:
        X[int(rng.integers(n))] *= 4.0  # a day of large moves
    elif kind < 0.17:
        X = np.round(X, 2)  # quoted with few digits: ties
    return X * scale


def dates(rng, n, irregular=False, start=None):
    start = pd.Timestamp(start or str(rng.choice(["2018-01-02", "2019-06-03", "2020-02-27", "2021-12-30"])))
    idx = pd.bdate_range(start, periods=n * (2 if irregular else 1))
    if irregular:
        keep = np.sort(rng.permutation(len(idx))[:n])
        idx = idx[keep]
    return idx


def frame(rng, X, cols=None, index=None):
    n, m = X.shape
    return pd.DataFrame(X, columns=cols or names(rng, m), index=index if index is not None else dates(rng, n))


def weights(rng, m, kind=None):
    kind = kind or rng.choice(["long", "sparse", "longshort", "net0", "tiny", "one", "levered"])
    if kind == "long":
        w = rng.dirichlet(np.ones(m))
    elif kind == "sparse":
        w = rng.dirichlet(np.ones(m)) * (rng.random(m) < 0.5)
        if w.sum() == 0:
            w[rng.integers(m)] = 1.0
        w = w / w.sum()
    elif kind == "longshort":
        w = rng.normal(size=m)
        w = w / (np.abs(w).sum() or 1)
    elif kind == "net0":
        w = rng.normal(size=m)
        w = w - w.mean()
    elif kind == "tiny":
        w = rng.dirichlet(np.ones(m))
        j = rng.permutation(m)[: max(1, m // 2)]
        w[j] = rng.choice([1e-6, -3e-6, 9e-6, 2e-5, -5e-5, 1e-12], len(j))
    elif kind == "one":
        w = np.zeros(m)
        w[rng.integers(m)] = 1.0
    else:
        w = rng.normal(0.6, 0.8, m)
    return np.asarray(w, float), str(kind)


def some(rng, lo, hi, far=4):
    """An integer in [lo, hi), now and then well beyond it."""
    return int(rng.integers(lo, hi)) if rng.random() < 0.93 else int(rng.integers(hi, far * hi))
