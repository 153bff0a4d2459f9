"""C22: validity of every covariance output, and matrix repair."""

import warnings

import numpy as np
import pandas as pd

import gens
from core import Skip, rule, scenario

from skfolio.moments import (
    DenoiseCovariance, DetoneCovariance, EWCovariance, EmpiricalCovariance, GerberCovariance,
    ImpliedCovariance, LedoitWolf, OAS, ShrunkCovariance,
)
from skfolio.prior import BlackLitterman, EmpiricalPrior, FactorModel
from skfolio.utils.stats import corr_to_cov, cov_nearest, cov_to_corr

rule("C22", "one state per (hostile table or matrix, estimator, repair method)")


def hostile(rng):
    m = gens.some(rng, 2, 20)
    n = int(rng.integers(m + 5, 90))
    k = str(rng.choice(["plain", "short", "dup", "lowrank", "neardup", "scales", "const", "tiny", "opposite"]))
    if k == "short":
        n = int(rng.integers(3, m + 2)) if m > 3 else 3
    A = gens.market(rng, n, m)
    if k == "dup":
        j = rng.permutation(m)[: max(1, m // 2)]
        A[:, j] = A[:, [0]] * rng.uniform(0.5, 2, len(j))
    elif k == "opposite":
        A[:, -1] = -A[:, 0]
    elif k == "lowrank":
        A = rng.normal(size=(n, 2)) @ rng.normal(size=(2, m)) * 0.01
    elif k == "neardup":
        A[:, 1] = A[:, 0] + 1e-9 * rng.normal(size=n)
    elif k == "scales":
        A = A * 10 ** rng.uniform(-3, 2, m)
    elif k == "const":
        A[:, int(rng.integers(m))] = float(rng.choice([0.0, 0.01]))
    elif k == "tiny":
        A = A * 1e-4
    return A, k


def judge(ctx, tag, C, m, psd=1e-9):
    C = np.asarray(C)
    ctx.require(f"{tag}: one row and column per asset", C.shape == (m, m), shape=C.shape)
    if not ctx.check(f"{tag}: finite", np.all(np.isfinite(C)), C=C):
        return
    d = np.diag(C)
    ctx.check(f"{tag}: positive variances", np.all(d > 0), d=d)
    s = np.sqrt(np.abs(d))
    R = C / np.outer(s, s)
    ctx.check(f"{tag}: symmetric", np.abs(R - R.T).max() < 1e-9, gap=np.abs(R - R.T).max())
    ev = np.linalg.eigvalsh((R + R.T) / 2).min()
    ctx.check(f"{tag}: positive semi-definite", ev > -psd * m, ev=ev)


EST = {
    "empirical": lambda rng: EmpiricalCovariance(),
    "ew": lambda rng: EWCovariance(alpha=float(rng.choice([0.05, 0.3]))),
    "gerber": lambda rng: GerberCovariance(threshold=float(rng.choice([0.2, 0.5])), psd_variant=bool(rng.random() < 0.5)),
    "denoise": lambda rng: DenoiseCovariance(),
    "detone": lambda rng: DetoneCovariance(),
    "lw": lambda rng: LedoitWolf(),
    "oas": lambda rng: OAS(),
    "shrunk": lambda rng: ShrunkCovariance(shrinkage=float(rng.choice([0.0, 1e-17, 0.1]))),
    "implied": lambda rng: ImpliedCovariance(volatility_risk_premium_adj=1.1),
    "detone_of_denoise": lambda rng: DetoneCovariance(covariance_estimator=DenoiseCovariance()),
}


@scenario("C22", quick=700, thorough=9000)
def estimators(ctx):
    rng = ctx.rng
    A, k = hostile(rng)
    n, m = A.shape
    e = str(rng.choice(list(EST)))
    est = EST[e](rng)
    h = bool(rng.random() < 0.2)
    est.set_params(higham=h)
    X = gens.frame(rng, A) if rng.random() < 0.3 else A
    ctx.note(table=k, shape=A.shape, estimator=est)
    try:
        if e == "implied":
            est.fit(X, implied_vol=np.full((n, m), 0.2))
        else:
            est.fit(X)
    except Exception as x:
        if "detone" in e and m == 2:
            # nothing may be left of two assets whose common part is removed
            raise Skip("two assets without their market") from None
        # refusing to fit is allowed for degenerate tables only
        ctx.check("ordinary tables are fitted", k not in ("plain", "scales", "tiny") or h, error=repr(x)[:200])
        ctx.state(A, k, e, "refused")
        return
    judge(ctx, "estimator", est.covariance_, m)
    try:
        np.linalg.cholesky(est.covariance_)
        ok = True
    except np.linalg.LinAlgError:
        ok = False
    ctx.check("estimator: triangular factor can be computed", ok)
    ctx.state(A, k, e)


@scenario("C22", quick=150, thorough=1500)
def degenerate(ctx):
    """An asset that never moves is reported, by name when it has one."""
    rng = ctx.rng
    A = gens.market(rng, 40, int(rng.integers(2, 6)))
    j = int(rng.integers(A.shape[1]))
    A[:, j] = float(rng.choice([0.0, 0.003]))
    e = str(rng.choice(["empirical", "ew"]))
    frame = bool(rng.random() < 0.5)
    X = gens.frame(rng, A) if frame else A
    ctx.note(estimator=e, j=j)
    from skfolio.exceptions import NonPositiveVarianceError

    try:
        EST[e](rng).fit(X)
        ctx.check("constant asset reported", False)
    except NonPositiveVarianceError as x:
        ctx.check("constant asset reported", (str(X.columns[j]) if frame else str(j)) in str(x), msg=str(x))
    ctx.state(A, e)


def _matrix(rng):
    m = gens.some(rng, 2, 15)
    k = str(rng.choice(["valid", "indefinite", "slightly", "lowrank", "short"]))
    if k == "valid":
        B = rng.normal(size=(m + 5, m))
        R = np.corrcoef(B.T)
    elif k == "indefinite":
        R = rng.uniform(-1, 1, (m, m))
        R = (R + R.T) / 2
        np.fill_diagonal(R, 1)
    elif k == "slightly":
        B = rng.normal(size=(3, m))
        R = np.corrcoef(B.T) if m > 1 else np.eye(1)
        N = rng.normal(0, 0.02, (m, m))
        R = R + (N + N.T) / 2
        np.fill_diagonal(R, 1)
    elif k == "lowrank":
        B = rng.normal(size=(m, 2))
        R = B @ B.T
        d = np.sqrt(np.diag(R))
        R = R / np.outer(d, d)
    else:
        R = np.corrcoef(rng.normal(size=(max(3, m // 2), m)).T)
    s = 10 ** rng.uniform(-2.5, -1, m)
    return R * np.outer(s, s), s, k


@scenario("C22", quick=600, thorough=9000)
def repair(ctx):
    rng = ctx.rng
    C, s, k = _matrix(rng)
    m = len(C)
    h = bool(rng.random() < 0.4)
    ctx.note(kind=k, higham=h, m=m)
    keep = C.copy()
    try:
        out = np.asarray(cov_nearest(C, higham=h))
    except ValueError:
        ctx.check("only the iterative method may give up", h)
        return
    ctx.equal("argument untouched", C, keep)
    judge(ctx, "repaired", out, m)
    ctx.close("variances preserved", np.diag(out), np.diag(C), 1e-9, 0)
    np.linalg.cholesky(out)
    R = C / np.outer(s, s)
    S = out / np.outer(s, s)
    ev, E = np.linalg.eigh(R)
    if ev.min() > 1e-8:
        ctx.equal("valid matrix unchanged", out, C)
    else:
        # the repair is no further away than clipping and rescaling would be
        P = (E * np.maximum(ev, 1e-13)) @ E.T
        d = np.sqrt(np.diag(P))
        P = P / np.outer(d, d)
        a, b = np.linalg.norm(S - R), np.linalg.norm(P - R)
        ctx.check("repair stays close", a <= b * (1 + 1e-6) + 1e-7, ours=a, clipping=b)
        if h:
            # nearest correlation matrix by alternating projections with correction
            x, corr = R.copy(), np.zeros_like(R)
            for _ in range(400):
                y = x - corr
                v, Q = np.linalg.eigh(y)
                x = (Q * np.maximum(v, 1e-15)) @ Q.T
                corr = x - y
                np.fill_diagonal(x, 1)
            near = np.linalg.norm(x - R)
            ctx.check("the iterative repair is the nearest", a <= near * (1 + 5e-4) + 1e-6, ours=a, nearest=near)
        else:
            ctx.close("clipped repair", S, P, 1e-6, 1e-7)
        again = np.asarray(cov_nearest(out, higham=h))
        ctx.close("repairing twice changes nothing", again, out, 1e-6, 1e-8 * float(np.diag(out).max()))
    ctx.state(C, h)


@scenario("C22", quick=300, thorough=4000)
def conversions(ctx):
    rng = ctx.rng
    C, s, k = _matrix(rng)
    ctx.note(kind=k)
    R, sd = cov_to_corr(C)
    ctx.close("standard deviations", sd, np.sqrt(np.diag(C)), 1e-12, 0)
    ctx.close("unit diagonal", np.diag(R), np.ones(len(C)), 1e-12, 0)
    want = np.array([[C[i, j] / (np.sqrt(C[i, i]) * np.sqrt(C[j, j])) for j in range(len(C))] for i in range(len(C))])
    ctx.close("correlations", R, want, 1e-10, 1e-14)
    ctx.close("back to the covariance", corr_to_cov(R, sd), C, 1e-10, 1e-18)
    R2, s2 = cov_to_corr(corr_to_cov(R, s))
    ctx.close("back to the correlation", R2, R, 1e-10, 1e-12)
    ctx.close("back to the standard deviations", s2, s, 1e-10, 0)
    ctx.refused("correlation of a vector", lambda: cov_to_corr(sd))
    ctx.refused("covariance from a table of deviations", lambda: corr_to_cov(R, R))
    ctx.refused("covariance from a vector", lambda: corr_to_cov(sd, sd))
    ctx.refused("repair of a rectangle", lambda: cov_nearest(C[:-1]))
    B = C.copy()
    B[0, 1] += 0.1
    ctx.refused("repair of an asymmetric matrix", lambda: cov_nearest(B))
    ctx.state(C)


@scenario("C22", quick=150, thorough=1500)
def priors(ctx):
    """Prior covariances and their factors are valid as well."""
    rng = ctx.rng
    m = gens.some(rng, 2, 7)
    A = gens.market(rng, int(rng.integers(50, 90)), m)
    X = gens.frame(rng, A)
    k = str(rng.choice(["empirical", "bl", "factor", "blfactor", "lognormal"]))
    names = list(X.columns)
    F = A[:, :2] * 0.6 + rng.normal(0, 0.003, (len(A), 2))
    F = pd.DataFrame(F, index=X.index, columns=["f1", "f2"])
    ctx.note(prior=k, shape=A.shape)
    import string

    X.columns = list((string.ascii_uppercase + string.ascii_lowercase)[:m])
    if k == "empirical":
        p = EmpiricalPrior(covariance_estimator=EST[str(rng.choice(["lw", "gerber", "detone"]))](rng)).fit(X)
    elif k == "bl":
        p = BlackLitterman(views=["A == 0.001", "B - A == 0.0005"]).fit(X)
    elif k == "factor":
        p = FactorModel().fit(X, F)
    elif k == "blfactor":
        p = FactorModel(factor_prior_estimator=BlackLitterman(views=["f1 == 0.001"])).fit(X, F)
    else:
        p = EmpiricalPrior(is_log_normal=True, investment_horizon=60).fit(X)
    pm = p.prior_model_
    judge(ctx, "prior", pm.covariance, m)
    if pm.cholesky is not None:
        L = np.asarray(pm.cholesky)
        ctx.close("square root reproduces the covariance", L @ L.T, pm.covariance, 1e-6, 1e-12)
    ctx.state(A, k)


PARAMS = {
    "empirical": lambda: EmpiricalCovariance(),
    "ew": lambda: EWCovariance(),
    "gerber": lambda: GerberCovariance(psd_variant=False),
    "shrunk": lambda: ShrunkCovariance(shrinkage=0.0),
    "lw": lambda: LedoitWolf(),
    "oas": lambda: OAS(),
    "denoise": lambda: DenoiseCovariance(),
    "detone": lambda: DetoneCovariance(),
    "implied": lambda: ImpliedCovariance(volatility_risk_premium_adj=1.1),
}


@scenario("C22", quick=250, thorough=2500)
def repair_parameters(ctx):
    """An estimator repairs its matrix the way its parameters say, or not at all."""
    rng = ctx.rng
    A, k = hostile(rng)
    n, m = A.shape
    e = str(rng.choice(list(PARAMS)))
    kw = {"implied_vol": np.full((n, m), 0.2)} if e == "implied" else {}
    h = bool(rng.random() < 0.6)
    it = int(rng.choice([1, 2, 5, 40, 200]))
    ctx.note(estimator=e, table=k, shape=A.shape, higham=h, iterations=it)
    try:
        raw = PARAMS[e]().set_params(nearest=False).fit(A, **kw).covariance_
    except Exception:
        raise Skip("refused without repair") from None
    keep = raw.copy()
    R = raw / np.sqrt(np.outer(np.diag(raw), np.diag(raw)))
    if not np.isfinite(R).all():
        raise Skip("undefined correlation")

    def outcome(f):
        try:
            return np.asarray(f())
        except ValueError as x:
            return str(x)[:20]

    want = outcome(lambda: cov_nearest(raw, higham=h, higham_max_iteration=it))
    got = outcome(lambda: PARAMS[e]().set_params(nearest=True, higham=h, higham_max_iteration=it).fit(A, **kw).covariance_)
    ctx.equal("argument untouched", raw, keep)
    if isinstance(want, str) or isinstance(got, str):
        ctx.equal("same refusal", got, want)
    else:
        ctx.close("same repair", got, want, 1e-9, 1e-12 * float(np.abs(want).max()))
    if e == "empirical":
        ctx.close("nothing repaired unless asked", raw, np.cov(A.T), 1e-9, 1e-13 * float(np.abs(raw).max()))
        plain = EmpiricalCovariance(nearest=False).fit(A).covariance_
        ctx.equal("the same unrepaired matrix again", plain, raw)
    ev = np.linalg.eigvalsh((R + R.T) / 2).min()
    with warnings.catch_warnings(record=True) as said:
        warnings.simplefilter("always")
        outcome(lambda: cov_nearest(raw, warn=True))
    told = any("positive definite" in str(x.message) for x in said)
    if ev > 1e-8:
        ctx.check("no warning for a valid matrix", not told, ev=ev)
    elif ev < -1e-8:
        ctx.check("warning about a repaired matrix", told, ev=ev)
    ctx.state(A, e, h, it)
