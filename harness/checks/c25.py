"""C25: factor-model priors."""

import joblib
import numpy as np
import sklearn.linear_model as skl

import gens
from checks.c21 import cov, ew_cov, ledoit_wolf
from core import Skip, rule, scenario

from skfolio.moments import EWCovariance, EWMu, LedoitWolf
from skfolio.prior import BaseLoadingMatrix, BasePrior, BlackLitterman, EmpiricalPrior, FactorModel, LoadingMatrixRegression, PriorModel

rule("C25", "one state per fitted (asset table, factor table, loading estimator, factor prior, options)")


class GivenLoadings(BaseLoadingMatrix):
    def __init__(self, B=None, a=None):
        self.B = B
        self.a = a

    def fit(self, X, y):
        self.loading_matrix_ = np.array(self.B)
        self.intercepts_ = np.array(self.a)
        return self


class GivenPrior(BasePrior):
    """Factor moments and scenarios from elsewhere, such as simulated ones."""

    def __init__(self, model=None):
        self.model = model

    def fit(self, X, y=None):
        self.prior_model_ = self.model
        return self


def _tables(rng, k=None):
    k = int(k or rng.integers(1, 5))
    m = gens.some(rng, 1, 8)
    n = int(rng.integers(max(k, m) + 15, 110))
    F = gens.market(rng, n, k)
    B = rng.normal(0.6, 0.6, (m, k)) * (rng.random((m, k)) < 0.8)
    A = F @ B.T + rng.normal(size=(n, m)) * rng.uniform(0.002, 0.01, m) + rng.normal(0, 0.001, m)
    return A, F


def _ols(A, F, icpt, ridge=0.0):
    a0, f0 = (A.mean(0), F.mean(0)) if icpt else (0.0, 0.0)
    D, G = A - a0, F - f0
    B = np.linalg.solve(G.T @ G + ridge * np.eye(F.shape[1]), G.T @ D).T
    return B, (a0 - B @ f0) if icpt else np.zeros(A.shape[1])


def _regressor(rng):
    k = str(rng.choice(["default", "ols", "ols0", "ridge", "lasso", "given"], p=[0.1, 0.25, 0.15, 0.2, 0.15, 0.15]))
    return k


def _loadings(rng, k, A, F):
    m, f = A.shape[1], F.shape[1]
    if k == "ols":
        return LoadingMatrixRegression(linear_regressor=skl.LinearRegression()), *_ols(A, F, True)
    if k == "ols0":
        return LoadingMatrixRegression(linear_regressor=skl.LinearRegression(fit_intercept=False)), *_ols(A, F, False)
    if k == "ridge":
        l2 = float(10 ** rng.uniform(-5, -2))
        return LoadingMatrixRegression(linear_regressor=skl.Ridge(alpha=l2)), *_ols(A, F, True, l2)
    if k == "given":
        B, a = rng.normal(size=(m, f)), rng.normal(0, 0.001, m)
        return GivenLoadings(B, a), B, a
    mk = (lambda: skl.LassoCV(fit_intercept=False)) if k == "default" else (lambda: skl.Lasso(alpha=1e-6))
    fits = [mk().fit(F, A[:, i]) for i in range(m)]
    B = np.array([r.coef_ for r in fits])
    a = np.array([r.intercept_ for r in fits])
    return (None if k == "default" and rng.random() < 0.6 else LoadingMatrixRegression(linear_regressor=mk(), n_jobs=int(rng.choice([1, 2])))), B, a


def _factor_prior(rng, F, cols):
    k = str(rng.choice(["default", "lw", "ew", "bl", "given"]))
    if k == "given":
        G = gens.market(rng, int(rng.integers(F.shape[1] + 15, 200)), F.shape[1])
        return k, GivenPrior(PriorModel(mu=G.mean(0), covariance=cov(G), returns=G)), G.mean(0), cov(G)
    if k == "default":
        return k, None, F.mean(0), cov(F)
    if k == "lw":
        return k, EmpiricalPrior(covariance_estimator=LedoitWolf()), F.mean(0), ledoit_wolf(F, False) if F.shape[1] > 1 else None
    if k == "ew":
        g = 0.95 ** np.arange(len(F) - 1, -1, -1.0)
        return k, EmpiricalPrior(mu_estimator=EWMu(alpha=0.05), covariance_estimator=EWCovariance(alpha=0.02)), (g @ F) / g.sum(), ew_cov(F, 0.02)
    S = cov(F)
    w = np.full(F.shape[1], 1 / F.shape[1])
    mu0 = S @ w
    p = np.eye(F.shape[1])[0]
    q, tau = 0.004, 0.05
    gain = tau * S @ p / (2 * tau * p @ S @ p)
    return k, BlackLitterman(views=[f"{cols[0]} == 0.004"]), mu0 + gain * (q - p @ mu0), (1 + tau) * S - tau * np.outer(gain, p @ S)


@scenario("C25", quick=500, thorough=6000)
def mapping(ctx):
    rng = ctx.rng
    A, F = _tables(rng)
    n, m = A.shape
    f = F.shape[1]
    cols = [f"F{i}" for i in range(f)]
    idx = gens.dates(rng, n)
    X, Y = gens.frame(rng, A, index=idx), gens.frame(rng, F, cols, idx)
    kind = _regressor(rng)
    fk, fprior, fmu, fS = _factor_prior(rng, F, cols)
    if fS is None:
        raise Skip("single factor")
    with joblib.parallel_backend("threading"):
        est, B, a = _loadings(rng, kind, A, F)
        resid = bool(rng.random() < 0.7)
        arrays = fk != "bl" and rng.random() < 0.4
        ctx.note(regressor=kind, factor_prior=fk, residual=resid, assets=m, factors=f, n=n, arrays=arrays)
        if not resid and (np.abs(B).sum(axis=1) == 0).any():
            raise Skip("an asset without any factor exposure has no variance")
        kw = {} if resid and rng.random() < 0.5 else dict(residual_variance=resid)
        fm = FactorModel(loading_matrix_estimator=est, factor_prior_estimator=fprior, higham=bool(rng.random() < 0.2 and resid), **kw)
        fm.fit(*((A, F) if arrays else (X, Y)))
    p = fm.prior_model_
    sc = float(A.std())
    lt = 1e-6 if kind not in ("default", "lasso") else 1e-9
    ctx.close("loadings", fm.loading_matrix_estimator_.loading_matrix_, B, lt, 1e-8)
    ctx.close("intercepts", fm.loading_matrix_estimator_.intercepts_, a, lt, 1e-10)
    ctx.close("asset mean", p.mu, B @ fmu + a, 1e-6, 1e-8 * sc)
    ctx.close("asset returns", p.returns, (fprior.model.returns if fk == "given" else F) @ B.T + a, 1e-6, 1e-8 * sc)
    E = A - F @ B.T - a
    rv = E.var(axis=0, ddof=1)
    S = B @ fS @ B.T + (np.diag(rv) if resid else 0)
    ev = np.linalg.eigvalsh(S)
    if ev.min() > 1e-10 * ev.max() and np.diag(S).min() > 0:
        ctx.close("asset covariance", p.covariance, S, 1e-6, 1e-8 * float(np.diag(S).max()))
    elif np.diag(S).min() > 1e-12 * sc**2:
        # repaired: variances are kept and the distance stays at the rounding level
        ctx.close("repaired covariance", p.covariance, S, 1e-4, 1e-5 * float(np.diag(S).max()))
        ctx.check("repaired covariance is positive definite", np.linalg.eigvalsh(p.covariance).min() > -1e-14 * sc**2)
    ctx.close("square root", p.cholesky @ p.cholesky.T, S, 1e-6, 1e-8 * float(np.diag(S).max() or 1))
    ctx.equal("width of the square root", p.cholesky.shape, (m, f + (m if resid else 0)))
    ctx.state(A, kind, fk, resid)


@scenario("C25", quick=120, thorough=1500)
def refusals(ctx):
    rng = ctx.rng
    A, F = _tables(rng)
    n, m = A.shape
    f = F.shape[1]
    B, a = rng.normal(size=(m, f)), np.zeros(m)
    ctx.note(assets=m, factors=f)
    fit = lambda B, a: FactorModel(loading_matrix_estimator=GivenLoadings(B, a)).fit(A, F)
    fit(B, a)
    ctx.refused("loadings with a factor too many", lambda: fit(np.column_stack([B, B[:, :1]]), a), (ValueError,))
    ctx.refused("loadings of another asset count", lambda: fit(np.vstack([B, B[:1]]), np.zeros(m + 1)), (ValueError,))
    if m != f:
        ctx.refused("transposed loadings", lambda: fit(B.T, a), (ValueError,))
    ctx.refused("intercepts of another length", lambda: fit(B, np.zeros(m + 1)), (ValueError,))
    ctx.refused("factors of another length", lambda: FactorModel(loading_matrix_estimator=GivenLoadings(B, a)).fit(A, F[:-1]), (ValueError,))
    ctx.refused("loading estimator of another type", lambda: FactorModel(loading_matrix_estimator=skl.Lasso()).fit(A, F), (TypeError,))
    ctx.refused("factor prior of another type", lambda: FactorModel(factor_prior_estimator=LedoitWolf()).fit(A, F), (TypeError,))
    # the loadings are per asset: selecting assets selects their rows
    if m > 1:
        sel = np.sort(rng.permutation(m)[: int(rng.integers(1, m))])
        est = LoadingMatrixRegression(linear_regressor=skl.LinearRegression())
        full = FactorModel(loading_matrix_estimator=est).fit(A, F).prior_model_
        part = FactorModel(loading_matrix_estimator=est).fit(A[:, sel], F).prior_model_
        ctx.close("mean of selected assets", part.mu, full.mu[sel], 1e-8, 1e-12)
        ctx.close("covariance of selected assets", part.covariance, full.covariance[np.ix_(sel, sel)], 1e-6, 1e-12)
        perm = rng.permutation(f)
        p2 = FactorModel(loading_matrix_estimator=est).fit(A, F[:, perm]).prior_model_
        ctx.close("order of factors", p2.covariance, full.covariance, 1e-7, 1e-12)
        ctx.close("order of factors, mean", p2.mu, full.mu, 1e-7, 1e-12)
    ctx.state(A, F)
