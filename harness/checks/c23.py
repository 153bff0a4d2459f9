"""C23: expected-return estimators against their formulas."""

import numpy as np

import gens
from checks.c21 import cov, data, ew_cov, ledoit_wolf
from core import Skip, rule, scenario

from skfolio.moments import EWCovariance, EWMu, EmpiricalCovariance, EmpiricalMu, EquilibriumMu, LedoitWolf, ShrunkMu, ShrunkMuMethods

rule("C23", "one state per fitted (return table, estimator, parameters)")


@scenario("C23", quick=500, thorough=7000)
def means(ctx):
    rng = ctx.rng
    X, A = data(rng)
    n = len(A)
    w = None if rng.random() < 0.4 else int(rng.integers(1, n + 10))
    B = A if w is None else A[-w:]
    tol = dict(rtol=1e-9, atol=1e-12 * float(A.std()))
    a = float(rng.choice([0.01, 0.1, 0.5, 0.9, 1.0]))
    ctx.note(window=w, alpha=a, shape=A.shape)
    ctx.close("sample mean", EmpiricalMu(window_size=w).fit(X).mu_, [float(np.mean([float(v) for v in c])) for c in B.T], **tol)
    g = (1 - a) ** np.arange(len(B) - 1, -1, -1.0)
    ctx.close("exponentially weighted mean", EWMu(window_size=w, alpha=a).fit(X).mu_, (g @ B) / g.sum(), **tol)
    ctx.state(A, w, a)


def _cov(rng, A):
    k = str(rng.choice(["none", "emp", "lw", "ew"]))
    if A.shape[1] == 1 and k == "lw":
        k = "none"
    if k == "none":
        return None, cov(A), k
    if k == "emp":
        return EmpiricalCovariance(ddof=0), cov(A, 0), k
    if k == "lw":
        return LedoitWolf(), ledoit_wolf(A, False), k
    return EWCovariance(alpha=0.05), ew_cov(A, 0.05), k


@scenario("C23", quick=400, thorough=5000)
def equilibrium(ctx):
    rng = ctx.rng
    X, A = data(rng)
    m = A.shape[1]
    est, S, k = _cov(rng, A)
    ra = float(rng.choice([0.5, 1.0, 3.0]))
    w = None if rng.random() < 0.4 else rng.dirichlet(np.ones(m)) * float(rng.choice([1.0, 5.0]))
    form = w if w is None or rng.random() < 0.5 else w.tolist()
    ctx.note(cov=k, risk_aversion=ra, weights=w, shape=A.shape)
    kw = {} if ra == 1.0 and rng.random() < 0.5 else dict(risk_aversion=ra)
    got = EquilibriumMu(covariance_estimator=est, weights=form, **kw).fit(X).mu_
    v = np.full(m, 1 / m) if w is None else w
    ctx.close("equilibrium returns", got, ra * (S @ v), 1e-7, 1e-12 * float(A.var()))
    ctx.state(A, k, ra)


@scenario("C23", quick=700, thorough=8000)
def shrunk(ctx):
    rng = ctx.rng
    X, A = data(rng, m=gens.some(rng, 2, 8))
    n, m = A.shape
    est, S, k = _cov(rng, A)
    if np.linalg.cond(S) > 1e8:
        raise Skip("ill-conditioned")
    vw = bool(rng.random() < 0.5)
    meth = [ShrunkMuMethods.JAMES_STEIN, ShrunkMuMethods.BAYES_STEIN, ShrunkMuMethods.BODNAR_OKHRIN][int(rng.integers(3))]
    ctx.note(cov=k, target=vw, method=meth, shape=A.shape)
    model = ShrunkMu(covariance_estimator=est, vol_weighted_target=vw, method=meth).fit(X)
    mu = A.mean(axis=0)
    one = np.ones(m)
    t = (one @ np.linalg.solve(S, mu)) / (one @ np.linalg.solve(S, one)) if vw else mu.mean()
    target = t * one
    d = mu - target
    if meth == ShrunkMuMethods.JAMES_STEIN:
        ev = np.linalg.eigvalsh(S)
        beta = (m * ev.mean() - 2 * ev.max()) / (n * (d @ d))
        alpha = 1 - beta
    elif meth == ShrunkMuMethods.BAYES_STEIN:
        beta = (m + 2) / ((m + 2) + n * (d @ np.linalg.solve(S, d)))
        alpha = 1 - beta
    else:
        u = mu @ np.linalg.solve(S, mu)
        v = mu @ np.linalg.solve(S, target)
        w = target @ np.linalg.solve(S, target)
        alpha = ((u - m / (n - m)) * w - v**2) / (u * w - v**2)
        beta = (1 - alpha) * v / u
        if abs(u * w - v**2) < 1e-6 * u * w:
            raise Skip("means equal to the target")
    rt = 1e-5
    ctx.close("target", model.mu_target_, target, 1e-6, 1e-12 * A.std())
    ctx.close("alpha", model.alpha_, alpha, rt, 1e-8)
    ctx.close("beta", model.beta_, beta, rt, 1e-8)
    ctx.close("shrunk mean", model.mu_, alpha * mu + beta * target, rt, 1e-8 * A.std())
    ctx.refused("unknown method", lambda: ShrunkMu(method="JAMES_STEIN").fit(X))
    ctx.state(A, k, vw, meth.value)
