"""C21: covariance estimators against their published definitions."""

import numpy as np
import scipy.optimize as sco
import sklearn.covariance as skc
from sklearn.linear_model import LinearRegression, Ridge
from sklearn.neighbors import KernelDensity

import gens
from core import Skip, rule, scenario

from skfolio.moments import (
    DenoiseCovariance, DetoneCovariance, EWCovariance, EmpiricalCovariance, GerberCovariance,
    GraphicalLassoCV, ImpliedCovariance, LedoitWolf, OAS, ShrunkCovariance,
)

rule("C21", "one state per fitted (return table, estimator, parameters)")


def data(rng, n=None, m=None, drift=True):
    m = int(m or rng.integers(1, 8))
    n = int(n or (rng.integers(m + 8, 120) if rng.random() < 0.93 else rng.integers(200, 900)))
    A = gens.market(rng, n, m, scale=float(rng.choice([0.01, 1.0, 0.001])), drift=drift)
    return (gens.frame(rng, A) if rng.random() < 0.5 else A), A


def cov(A, ddof=1):
    D = A - A.mean(axis=0)
    return D.T @ D / (len(A) - ddof)


def ew_cov(A, alpha):
    w = (1 - alpha) ** np.arange(len(A) - 1, -1, -1.0)
    w = w / w.sum()
    D = A - w @ A
    return (D * w[:, None]).T @ D / (1 - np.sum(w**2))


def gerber(A, c, psd):
    n, m = A.shape
    s = A.std(axis=0)
    out = np.empty((m, m))
    H = np.empty((m, m))
    NN = np.empty((m, m))
    for i in range(m):
        for j in range(m):
            h = nn = 0
            for t in range(n):
                a = 1 if A[t, i] >= c * s[i] else -1 if A[t, i] <= -c * s[i] else 0
                b = 1 if A[t, j] >= c * s[j] else -1 if A[t, j] <= -c * s[j] else 0
                h += a * b
                nn += a == 0 and b == 0
            H[i, j], NN[i, j] = h, nn
    if psd:
        out = H / (n - NN)
    else:
        d = np.sqrt(np.diag(H))
        out = H / np.outer(d, d)
    return out * np.outer(s, s)


def _window(rng, n, lo=5):
    return None if rng.random() < 0.4 else int(rng.integers(lo, n + 10))


@scenario("C21", quick=500, thorough=7000)
def sample(ctx):
    rng = ctx.rng
    X, A = data(rng)
    n, m = A.shape
    w = _window(rng, n, m + 3)
    B = A if w is None else A[-w:]
    tol = dict(rtol=1e-8, atol=1e-12 * float(np.var(A)))
    k = str(rng.choice(["emp", "ew"]))
    ctx.note(kind=k, window=w, shape=A.shape)
    if k == "emp":
        d = int(rng.choice([0, 1]))
        got = EmpiricalCovariance(window_size=w, ddof=d).fit(X).covariance_
        ctx.close("empirical covariance", got, cov(B, d), **tol)
    else:
        a = float(rng.choice([0.01, 0.05, 0.2, 0.5]))
        if a == 0.5 and m > 3:
            raise Skip("nearly singular")
        est = EWCovariance(window_size=w, alpha=a, nearest=False).fit(X)
        ctx.close("exponentially weighted covariance", est.covariance_, ew_cov(B, a), 1e-7, 1e-12 * float(np.var(A)))
    ctx.state(A, k, w)


@scenario("C21", quick=250, thorough=2500)
def gerber_statistic(ctx):
    rng = ctx.rng
    X, A = data(rng, n=gens.some(rng, 12, 50), m=gens.some(rng, 1, 5))
    n = len(A)
    w = _window(rng, n, 8)
    B = A if w is None else A[-w:]
    c = float(rng.choice([0.1, 0.3, 0.5, 0.9]))
    psd = bool(rng.random() < 0.5)
    if rng.random() < 0.2:
        # exactly on the threshold: the volatility is 2 and moves of 1 reach half of it
        k, c = int(rng.integers(1, 4)), 0.5
        B = np.column_stack([rng.permutation(np.tile([1.0, -1.0] * 5 + [3.0, -3.0] * 3, k)) for _ in range(A.shape[1])])
        B *= 2.0 ** -int(rng.integers(0, 8))
        X, A, w = B, B, None
    if np.any(B.std(axis=0) == 0) or np.any(np.sum(np.abs(B) >= c * B.std(axis=0), axis=0) == 0):
        raise Skip("no move beyond the threshold")
    ctx.note(window=w, threshold=c, psd=psd, shape=A.shape)
    want = gerber(B, c, psd)
    got = GerberCovariance(window_size=w, threshold=c, psd_variant=psd, nearest=False).fit(X).covariance_
    ctx.close("Gerber covariance", got, want, 1e-9, 1e-15)
    near = GerberCovariance(window_size=w, threshold=c, psd_variant=psd).fit(X).covariance_
    if np.linalg.eigvalsh(want / np.sqrt(np.outer(np.diag(want), np.diag(want)))).min() > 1e-6:
        ctx.close("valid Gerber covariance is kept", near, want, 1e-9, 1e-15)
    for bad in (0, 1, -0.1, 1.5):
        ctx.refused("threshold outside (0, 1)", lambda: GerberCovariance(threshold=bad).fit(X))
    ctx.state(A, w, c, psd)


def ledoit_wolf(A, centered):
    n, p = A.shape
    X = A if centered else A - A.mean(axis=0)
    S = X.T @ X / n
    mu = np.trace(S) / p
    d = np.sum((S - mu * np.eye(p)) ** 2) / p
    b = sum(np.sum((np.outer(x, x) - S) ** 2) for x in X) / n**2 / p
    b = min(b, d)
    s = 0.0 if b == 0 else b / d
    return (1 - s) * S + s * mu * np.eye(p)


def oas(A, centered):
    n, p = A.shape
    X = A if centered else A - A.mean(axis=0)
    S = X.T @ X / n
    tr, tr2 = np.trace(S), np.trace(S @ S)
    # (1 - 2/p) is dropped for large p in the estimator's published implementation
    num = tr2 / p**2 + (tr / p) ** 2
    den = (n + 1) * (tr2 / p**2 - (tr / p) ** 2 / p)
    s = 1.0 if den == 0 else min(1.0, num / den)
    return (1 - s) * S + s * tr / p * np.eye(p)


@scenario("C21", quick=400, thorough=5000)
def shrinkage(ctx):
    rng = ctx.rng
    X, A = data(rng, m=gens.some(rng, 2, 8))
    n, p = A.shape
    c = bool(rng.random() < 0.3)
    k = str(rng.choice(["lw", "oas", "shrunk"]))
    tol = dict(rtol=1e-7, atol=1e-11 * float(np.var(A)))
    ctx.note(kind=k, centered=c, shape=A.shape)
    if k == "lw":
        ctx.close("Ledoit-Wolf", LedoitWolf(assume_centered=c).fit(X).covariance_, ledoit_wolf(A, c), **tol)
    elif k == "oas":
        ctx.close("oracle approximating", OAS(assume_centered=c).fit(X).covariance_, oas(A, c), **tol)
    else:
        s = float(rng.choice([0.0, 0.1, 0.5, 1.0]))
        B = A if c else A - A.mean(axis=0)
        S = B.T @ B / n
        want = (1 - s) * S + s * np.trace(S) / p * np.eye(p)
        ctx.close("shrunk covariance", ShrunkCovariance(shrinkage=s, assume_centered=c).fit(X).covariance_, want, **tol)
    ctx.state(A, k, c)


@scenario("C21", quick=30, thorough=200)
def graphical_lasso(ctx):
    rng = ctx.rng
    X, A = data(rng, n=gens.some(rng, 40, 90), m=gens.some(rng, 2, 5), drift=False)
    A = A / A.std()
    ctx.note(shape=A.shape)
    got = GraphicalLassoCV(alphas=3, n_refinements=2).fit(A)
    want = skc.GraphicalLassoCV(alphas=3, n_refinements=2).fit(A)
    ctx.close("graphical lasso", got.covariance_, want.covariance_, 1e-7, 1e-10)
    ctx.state(A)


def denoised(C, k):
    """Correlation with the eigenvalues after the ``k`` largest replaced by their mean."""
    v, E = np.linalg.eigh(C)
    v, E = v[::-1], E[:, ::-1]
    v = v.copy()
    v[k:] = v[k:].mean()
    R = (E * v) @ E.T
    d = np.sqrt(np.diag(R))
    return R / np.outer(d, d)


def noise_variance(ev, q):
    def f(s):
        s = float(np.ravel(s)[0])
        lo, hi = s * (1 - q**-0.5) ** 2, s * (1 + q**-0.5) ** 2
        g = np.linspace(lo, hi, 1000)
        theory = q / (2 * np.pi * s * g) * np.sqrt(np.maximum((hi - g) * (g - lo), 0))
        z = (g[:, None] - ev[None, :]) / 0.01
        dens = np.exp(-0.5 * z**2).mean(axis=1) / (0.01 * np.sqrt(2 * np.pi))
        return np.sum((dens - theory) ** 2)

    return f


@scenario("C21", quick=80, thorough=800)
def denoise(ctx):
    rng = ctx.rng
    m = gens.some(rng, 4, 16)
    n = int(rng.integers(2 * m, 8 * m) + 5)
    X, A = data(rng, n=n, m=m)
    base = None if rng.random() < 0.6 else LedoitWolf()
    S = cov(A) if base is None else ledoit_wolf(A, False)
    sd = np.sqrt(np.diag(S))
    C = S / np.outer(sd, sd)
    ev = np.sort(np.linalg.eigvalsh(C))[::-1]
    q = n / m
    ctx.note(shape=A.shape, base=base, eigenvalues=ev)
    got = DenoiseCovariance(covariance_estimator=base, nearest=False).fit(X).covariance_
    ctx.close("variances unchanged", np.diag(got), sd**2, 1e-8, 0)
    R = got / np.outer(sd, sd)
    fits = [k for k in range(m) if np.abs(denoised(C, k) - R).max() < 1e-7]
    ctx.check("noise eigenvalues replaced by their mean", len(fits) > 0)
    f = noise_variance(ev, q)
    # the fit has several local optima: only judged where the cut does not depend on
    # the start or the accuracy of the optimizer
    ks = set()
    for x0, g in ((0.5, f), (0.48, f), (0.52, f), (0.5, noise_variance(ev * (1 + 1e-7), q))):
        s = float(sco.minimize(g, x0=x0, bounds=((1e-5, 1 - 1e-5),)).x[0])
        ks |= {int(np.sum(ev >= t * (1 + q**-0.5) ** 2)) for t in (s * 0.97, s, s * 1.03)}
    k = min(ks)
    if len(ks) == 1 and fits:
        ctx.check("signal kept above the fitted noise edge", min(k, m - 1) in fits or (k == m and np.abs(C - R).max() < 1e-7), ours=fits, want=k, variance=s)
    ctx.state(A, base is None)


@scenario("C21", quick=200, thorough=2000)
def detone(ctx):
    rng = ctx.rng
    X, A = data(rng, m=gens.some(rng, 3, 9))
    m = A.shape[1]
    k = int(rng.integers(1, min(3, m - 1)))
    base = None if rng.random() < 0.6 else LedoitWolf()
    S = cov(A) if base is None else ledoit_wolf(A, False)
    sd = np.sqrt(np.diag(S))
    C = S / np.outer(sd, sd)
    v, E = np.linalg.eigh(C)
    if np.diff(v)[-k] < 1e-6:
        raise Skip("tied eigenvalues")
    R = (E[:, : m - k] * v[: m - k]) @ E[:, : m - k].T
    d = np.sqrt(np.diag(R))
    if d.min() < 1e-4:
        raise Skip("asset explained by the market alone")
    want = R / np.outer(d, d) * np.outer(sd, sd)
    ctx.note(shape=A.shape, k=k, base=base)
    got = DetoneCovariance(covariance_estimator=base, n_markets=k, nearest=False).fit(X).covariance_
    ctx.close("detoned covariance", got, want, 1e-6, 1e-9 * float(np.var(A)))
    near = DetoneCovariance(covariance_estimator=base, n_markets=k).fit(X).covariance_
    ctx.close("repaired detoned covariance", near, want, 1e-5, 1e-7 * float(np.var(A)))
    ctx.state(A, k)


@scenario("C21", quick=300, thorough=3000)
def implied(ctx):
    rng = ctx.rng
    m = gens.some(rng, 1, 5)
    w = int(rng.choice([3, 5, 10]))
    n = int(rng.integers(3 * w, 12 * w if rng.random() < 0.7 else 4 * w))
    X, A = data(rng, n=n, m=m)
    af = float(rng.choice([252.0, 52.0, 1.0]))
    iv = np.abs(rng.normal(0.25, 0.08, (n, m))) + 0.02
    frame = hasattr(X, "columns")
    V = iv
    if frame:
        import pandas as pd

        V = pd.DataFrame(iv, columns=X.columns, index=X.index)
        if rng.random() < 0.6:
            # columns in another order, with an extra one
            V = V.iloc[:, rng.permutation(m)]
            V["other"] = 0.5
    adj = None
    if rng.random() < 0.5:
        a = rng.uniform(0.5, 2, m)
        adj = float(a[0]) if rng.random() < 0.4 else a if not frame or rng.random() < 0.5 else dict(zip(X.columns, a.tolist()))
    base = None if rng.random() < 0.6 or m == 1 else LedoitWolf()
    # three folds do not determine an ordinary regression
    reg = None if n // w > 3 and rng.random() < 0.7 else Ridge(alpha=0.1)
    S = cov(A) if base is None else ledoit_wolf(A, False)
    sd = np.sqrt(np.diag(S))
    C = S / np.outer(sd, sd)
    ctx.note(shape=A.shape, window=w, factor=af, adj=adj, base=base, reg=reg)
    est = ImpliedCovariance(prior_covariance_estimator=base, annualized_factor=af, window_size=w, linear_regressor=reg, volatility_risk_premium_adj=adj, nearest=False)
    d = iv / np.sqrt(af)
    if adj is not None:
        vol = d[-1] / (a[0] if np.isscalar(adj) else a)
    else:
        k = n // w
        ends = [n - 1 - w * i for i in range(k)][::-1]
        rv = np.array([A[e - w + 1 : e + 1].std(axis=0, ddof=1) for e in ends])
        if rv.min() < 1e-9:
            raise Skip("no move in a window")
        I = np.array([d[e] for e in ends])
        vol = np.empty(m)
        fitted = []
        for j in range(m):
            x = np.column_stack([np.log(I[:, j]), np.log(rv[:, j])])
            y = np.log(rv[1:, j])
            if reg is None:
                G = np.column_stack([np.ones(k - 1), x[:-1]])
                if np.linalg.matrix_rank(G) < 3:
                    raise Skip("few folds")
                beta = np.linalg.lstsq(G, y, rcond=None)[0]
                vol[j] = np.exp(beta[0] + beta[1:] @ x[-1])
                res = y - G @ beta
                fitted.append((j, beta, 1 - res @ res / np.sum((y - y.mean()) ** 2)))
            else:
                vol[j] = np.exp(Ridge(alpha=0.1).fit(x[:-1], y).predict(x[[-1]])[0])
    if vol.min() < 1e-6 or not np.isfinite(vol).all() or vol.max() > 1e6:
        raise Skip("extreme extrapolated volatility")
    keep = np.array(V)
    est.fit(X, implied_vol=V)
    ctx.equal("implied volatilities untouched", np.array(V), keep)
    for j, beta, r2 in fitted if adj is None else []:
        ctx.close("regression coefficients", est.coefs_[j], beta[1:], 1e-6, 1e-8)
        ctx.close("regression intercept", est.intercepts_[j], beta[0], 1e-6, 1e-8)
        ctx.close("regression fit", est.r2_scores_[j], r2, 1e-6, 1e-8)
    ctx.close("predicted volatilities", est.pred_realised_vols_, vol, 1e-7, 1e-12)
    ctx.close("implied covariance", est.covariance_, C * np.outer(vol, vol), 1e-7, 1e-15)
    if frame and m > 1:
        ctx.refused("missing asset", lambda: ImpliedCovariance(window_size=w).fit(X, implied_vol=V.drop(columns=X.columns[0])))
    ctx.refused("no implied volatilities", lambda: ImpliedCovariance(window_size=w).fit(X))
    ctx.refused("negative implied volatilities", lambda: ImpliedCovariance(window_size=w).fit(A, implied_vol=-iv))
    ctx.refused("wrong shape", lambda: ImpliedCovariance(window_size=w).fit(A, implied_vol=iv[:-1]))
    ctx.refused("too few folds", lambda: ImpliedCovariance(window_size=n // 2).fit(A, implied_vol=iv))
    ctx.refused("window too small", lambda: ImpliedCovariance(window_size=2).fit(A, implied_vol=iv))
    ctx.refused("one adjustment too few", lambda: ImpliedCovariance(volatility_risk_premium_adj=np.ones(A.shape[1] + 1)).fit(A, implied_vol=iv))
    ctx.refused("vector of implied volatilities", lambda: ImpliedCovariance(window_size=w).fit(A, implied_vol=iv[:, 0]))
    ctx.refused("adjustment not positive", lambda: ImpliedCovariance(volatility_risk_premium_adj=0.0).fit(A, implied_vol=iv))
    ctx.state(A, w, af)
