"""C30: prices to returns, cell by cell."""

import math

import numpy as np
import pandas as pd

import gens
from core import Skip, rule, scenario

from skfolio.preprocessing import prices_to_returns

rule("C30", "one state per converted (price tables, options)")


def _prices(rng, n, m, holes):
    P = 100 * np.exp(np.cumsum(rng.normal(0, 0.02, (n, m)), axis=0)) * rng.uniform(0.1, 5, m)
    for j in range(m):
        if rng.random() < holes:
            k = str(rng.choice(["head", "tail", "inner", "scatter", "all"], p=[0.3, 0.2, 0.25, 0.2, 0.05]))
            if k == "head":
                P[: int(rng.integers(1, max(2, n // 2))), j] = np.nan
            elif k == "tail":
                P[-int(rng.integers(1, max(2, n // 3))):, j] = np.nan
            elif k == "inner":
                a = int(rng.integers(1, n - 1))
                P[a: a + int(rng.integers(1, 3)), j] = np.nan
            elif k == "scatter":
                P[rng.random(n) < 0.2, j] = np.nan
            else:
                P[:, j] = np.nan
    if rng.random() < holes / 2:
        P[int(rng.integers(n)), :] = np.nan
    return P


def _model(rows, m_x, thr, fill, drop):
    """rows: list of (date, [cells]); returns kept rows after gaps are handled."""
    if thr is not None:
        rows = [(d, list(c)) for d, c in rows if not sum(math.isnan(v) for v in c[:m_x]) > m_x * thr]
    else:
        rows = [(d, list(c)) for d, c in rows]
    if fill:
        last = None
        for _, c in rows:
            if last is not None:
                for j in range(len(c)):
                    if math.isnan(c[j]):
                        c[j] = last[j]
            last = c
    if drop:
        rows = [(d, c) for d, c in rows if not any(math.isnan(v) for v in c)]
    else:
        rows = [(d, c) for d, c in rows if not all(math.isnan(v) for v in c)]
    return rows


def _returns(rows, cols, log):
    live = [j for j in range(len(cols)) if any(not math.isnan(c[j]) for _, c in rows)]
    out = []
    for (_, a), (d, b) in zip(rows[:-1], rows[1:]):
        line = []
        for j in live:
            r = b[j] / a[j]
            line.append(math.log(r) if log and not math.isnan(r) else r - 1)
        out.append((d, line))
    return [cols[j] for j in live], out


def _match(ctx, tag, T, cols, out, log):
    ctx.equal(f"{tag}: columns", list(T.columns), cols)
    ctx.equal(f"{tag}: dates", list(T.index), [d for d, _ in out])
    want = np.array([c for _, c in out], dtype=float).reshape(len(out), len(cols))
    if T.shape == want.shape:
        ctx.close(f"{tag}: {'log ' if log else ''}returns", T.to_numpy(float), want, 1e-9, 1e-12)


def _options(rng):
    kw = {}
    log = bool(rng.random() < 0.4)
    fill = bool(rng.random() < 0.7)
    drop = bool(rng.random() < 0.7)
    thr = 1.0
    if rng.random() < 0.5:
        thr = float(rng.choice([0.1, 0.25, 0.5, 0.75, 1.0]))
        kw["nan_threshold"] = thr
    if log or rng.random() < 0.5:
        kw["log_returns"] = log
    if not fill or rng.random() < 0.5:
        kw["fill_nan"] = fill
    if not drop or rng.random() < 0.5:
        kw["drop_inceptions_nan"] = drop
    return kw, log, fill, drop, thr


@scenario("C30", quick=900, thorough=9000)
def single(ctx):
    rng = ctx.rng
    n, m = gens.some(rng, 3, 25), gens.some(rng, 1, 6)
    P = _prices(rng, n, m, float(rng.choice([0.0, 0.4, 0.8])))
    X = gens.frame(rng, P)
    if rng.random() < 0.2:
        X.index = pd.RangeIndex(n)
    cols = list(X.columns)
    kw, log, fill, drop, thr = _options(rng)
    ctx.note(options=kw, missing=int(np.isnan(P).sum()), shape=P.shape)
    keep = X.copy(deep=True)
    rows = _model(list(zip(X.index, P.tolist())), m, thr, fill, drop)
    T = prices_to_returns(X, **kw)
    ctx.check("input untouched", X.equals(keep) and list(X.columns) == cols)
    names, out = _returns(rows, cols, log)
    _match(ctx, "assets", T, names, out, log)
    ctx.state(P, repr(sorted(kw.items())))


@scenario("C30", quick=900, thorough=9000)
def with_factors(ctx):
    rng = ctx.rng
    n, m, f = int(rng.integers(4, 25)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    holes = float(rng.choice([0.0, 0.4, 0.8]))
    idx = gens.dates(rng, n + 6)
    ix = idx[np.sort(rng.permutation(n + 6)[:n])]
    iy = ix if rng.random() < 0.4 else idx[np.sort(rng.permutation(n + 6)[: int(rng.integers(n - 1, n + 5))])]
    P, Q = _prices(rng, n, m, holes), _prices(rng, len(iy), f, holes)
    X = gens.frame(rng, P, index=ix)
    Y = pd.DataFrame(Q, columns=[f"F{i}" for i in range(f)], index=iy)
    join = str(rng.choice(["outer", "inner", "left", "right"]))
    kw, log, fill, drop, thr = _options(rng)
    if join != "outer" or rng.random() < 0.5:
        kw["join"] = join
    ctx.note(options=kw, dates=(len(ix), len(iy)), missing=(int(np.isnan(P).sum()), int(np.isnan(Q).sum())))
    px, py = dict(zip(ix, P.tolist())), dict(zip(iy, Q.tolist()))
    sx, sy = set(ix), set(iy)
    days = {"outer": sorted(sx | sy), "inner": [d for d in ix if d in sy], "left": list(ix), "right": list(iy)}[join]
    nan = float("nan")
    rows = [(d, list(px.get(d, [nan] * m)) + list(py.get(d, [nan] * f))) for d in days]
    kx, ky = X.copy(deep=True), Y.copy(deep=True)
    rows = _model(rows, m, thr, fill, drop)
    R, S = prices_to_returns(X, Y, **kw)
    ctx.check("inputs untouched", X.equals(kx) and Y.equals(ky))
    names, out = _returns(rows, list(X.columns) + list(Y.columns), log)
    nx = [c for c in names if c in set(X.columns)]
    k = len(nx)
    _match(ctx, "assets", R, nx, [(d, c[:k]) for d, c in out], log)
    _match(ctx, "factors", S, names[k:], [(d, c[k:]) for d, c in out], log)
    ctx.check("same dates", R.index.equals(S.index))
    ctx.state(P, Q, repr(sorted(kw.items())))


@scenario("C30", quick=60, thorough=400)
def refusals(ctx):
    rng = ctx.rng
    P = _prices(rng, 8, 3, 0.0)
    X = gens.frame(rng, P)
    ctx.note(n=8)
    ctx.refused("array of prices", lambda: prices_to_returns(P), (TypeError,))
    ctx.refused("array of factors", lambda: prices_to_returns(X, P), (TypeError,))
    ctx.refused("series of prices", lambda: prices_to_returns(X.iloc[:, 0]), (TypeError,))
    ctx.refused("threshold of zero", lambda: prices_to_returns(X, nan_threshold=0), (ValueError,))
    ctx.refused("threshold above one", lambda: prices_to_returns(X, nan_threshold=1.1), (ValueError,))
    ctx.refused("same name in both tables", lambda: prices_to_returns(X, X.copy()), (ValueError,))
    # compounding the returns gives back the prices
    T = prices_to_returns(X)
    ctx.close("compounded returns", P[0] * np.cumprod(1 + T.to_numpy(), axis=0), P[1:], 1e-9)
    L = prices_to_returns(X, log_returns=True)
    ctx.close("summed log returns", P[0] * np.exp(np.cumsum(L.to_numpy(), axis=0)), P[1:], 1e-9)
    ctx.state(P)
