"""C26: uncertainty sets, stationary bootstrap and robust optimization."""

import cvxpy as cp
import numpy as np
import scipy.optimize as sco
import scipy.stats as st

import gens
from checks.c21 import cov, ledoit_wolf
from core import Skip, rule, scenario

from skfolio.measures import RiskMeasure
from skfolio.moments import LedoitWolf
from skfolio.optimization import MeanRisk, ObjectiveFunction
from skfolio.prior import EmpiricalPrior
from skfolio.uncertainty_set import (
    BootstrapCovarianceUncertaintySet, BootstrapMuUncertaintySet, EmpiricalCovarianceUncertaintySet, EmpiricalMuUncertaintySet,
)
from skfolio.utils.bootstrap import stationary_bootstrap

rule("C26", "one state per fitted set, resampled table or robust portfolio")


def _table(rng, m=None, n=None):
    m = int(m or (rng.integers(2, 6) if rng.random() < 0.85 else rng.integers(6, 13)))
    A = gens.market(rng, int(n or rng.integers(m + 12, 90)), m)
    return (gens.frame(rng, A) if rng.random() < 0.5 else A), A


def _prior(rng):
    if rng.random() < 0.5:
        return None, cov
    return EmpiricalPrior(covariance_estimator=LedoitWolf()), lambda A: ledoit_wolf(A, False)


def _kappa(conf, df):
    """Radius of the chi-squared ball, by bisection on the distribution function."""
    return np.sqrt(sco.brentq(lambda x: st.gamma.cdf(x, df / 2, scale=2) - conf, 1e-9, 1e4, xtol=1e-13, rtol=1e-13))


@scenario("C26", quick=400, thorough=5000)
def empirical_sets(ctx):
    rng = ctx.rng
    X, A = _table(rng)
    n, m = A.shape
    prior, ref = _prior(rng)
    S = ref(A)
    conf = float(rng.choice([0.5, 0.8, 0.95, 0.99]))
    diag = bool(rng.random() < 0.5)
    kw = dict(prior_estimator=prior)
    if conf != 0.95 or rng.random() < 0.5:
        kw["confidence_level"] = conf
    if not diag or rng.random() < 0.5:
        kw["diagonal"] = diag
    ctx.note(conf=conf, diagonal=diag, prior=prior, shape=A.shape)
    u = EmpiricalMuUncertaintySet(**kw).fit(X).uncertainty_set_
    s = S / n
    ctx.close("radius of the mean set", u.k, _kappa(conf, m), 1e-8)
    ctx.close("estimation covariance of the mean", u.sigma, np.diag(np.diag(s)) if diag else s, 1e-7, 1e-14)
    u = EmpiricalCovarianceUncertaintySet(**kw).fit(X).uncertainty_set_
    if diag:
        s = np.diag(np.diag(s))
    want = np.array([n * (s[i, i] * s[j, j] + s[i, j] ** 2) for j in range(m) for i in range(m)])
    ctx.close("radius of the covariance set", u.k, _kappa(conf, m * m), 1e-8)
    ctx.close("estimation covariance of the covariance", u.sigma, np.diag(want), 1e-7, 1e-20)
    ctx.state(A, conf, diag)


@scenario("C26", quick=150, thorough=2000)
def bootstrap_sets(ctx):
    rng = ctx.rng
    X, A = _table(rng)
    n, m = A.shape
    prior, ref = _prior(rng)
    conf = float(rng.choice([0.6, 0.95, 0.99]))
    diag = bool(rng.random() < 0.5)
    ns = int(rng.choice([2, 30, 120]))
    bs = None if rng.random() < 0.4 else float(rng.choice([1.0, 2.5, 10.0]))
    seed = int(rng.integers(0, 1000))
    ctx.note(conf=conf, diagonal=diag, samples=ns, block=bs, seed=seed, shape=A.shape)
    kw = dict(prior_estimator=prior, confidence_level=conf, diagonal=diag, n_bootstrap_samples=ns, block_size=bs, seed=seed)
    Z = stationary_bootstrap(A, n_bootstrap_samples=ns, block_size=bs, seed=seed)
    um = BootstrapMuUncertaintySet(**kw).fit(X).uncertainty_set_
    M = np.array([z.mean(axis=0) for z in Z])
    s = cov(M)
    ctx.close("radius of the mean set", um.k, _kappa(conf, m), 1e-8)
    ctx.close("bootstrap covariance of the mean", um.sigma, np.diag(np.diag(s)) if diag else s, 1e-7, 1e-14)
    uc = BootstrapCovarianceUncertaintySet(**kw).fit(X).uncertainty_set_
    V = np.array([cov(z).ravel() for z in Z])
    s = cov(V)
    ctx.close("radius of the covariance set", uc.k, _kappa(conf, m * m), 1e-8)
    ctx.close("bootstrap covariance of the covariance", uc.sigma, np.diag(np.diag(s)) if diag else s, 1e-6, 1e-18)
    again = BootstrapMuUncertaintySet(**kw).fit(X).uncertainty_set_
    ctx.close("same seed, same set", again.sigma, um.sigma, 0, 0)
    ctx.state(A, conf, diag, seed, bs)


def _block(x):
    """Stationary-bootstrap block length of Politis and White (2004, corrected 2009)."""
    n = len(x)
    e = x - x.mean()
    kn = max(5, int(np.log10(n)))
    mm = int(np.ceil(np.sqrt(n))) + kn
    cv = 2 * np.sqrt(np.log10(n) / n)
    R = [float(np.dot(e[k:], e[: n - k])) / n for k in range(mm + 1)]
    rho = [n * abs(R[k]) / np.sqrt(np.dot(e[k + 1:], e[k + 1:]) * np.dot(e[: n - k - 1], e[: n - k - 1])) for k in range(mm + 1)]
    lag = next((i - kn for i in range(kn, mm + 1) if all(r < cv for r in rho[i - kn: i])), None)
    M = min(2 * max(lag, 1), mm) if lag is not None else mm
    lam = lambda t: 1.0 if t <= 0.5 else 2 * (1 - t)
    G = sum(2 * lam(k / M) * k * R[k] for k in range(1, M + 1))
    D = 2 * (R[0] + sum(2 * lam(k / M) * R[k] for k in range(1, M + 1))) ** 2
    return min((2 * G * G / D) ** (1 / 3) * n ** (1 / 3), np.ceil(min(3 * np.sqrt(n), n / 3)))


@scenario("C26", quick=120, thorough=1500)
def resampling(ctx):
    rng = ctx.rng
    n = int(rng.choice([2, 5, 17, 40, 60]))
    m = gens.some(rng, 1, 4)
    A = rng.normal(size=(n, m)) * 0.01
    if n >= 40 and rng.random() < 0.6:
        for t in range(1, n):
            A[t] += 0.7 * A[t - 1]
    auto = n >= 40 and rng.random() < 0.4
    b = None if auto else float(rng.choice([1.0, 1.5, 4.0, 20.0]))
    ns = int(rng.choice([200, 500])) if n < 40 else 300
    seed = int(rng.integers(0, 10000))
    ctx.note(n=n, assets=m, block=b, samples=ns, seed=seed)
    keep = A.copy()
    Z = stationary_bootstrap(A, n_bootstrap_samples=ns, block_size=b, seed=seed)
    ctx.check("input untouched", np.array_equal(A, keep))
    ctx.equal("shape of the samples", Z.shape, (ns, n, m))
    row = {tuple(r): i for i, r in enumerate(A)}
    ids = np.array([[row.get(tuple(r), -1) for r in z] for z in Z])
    ctx.require("every sampled row is an observed row", (ids >= 0).all())
    nxt = (ids[:, 1:] == (ids[:, :-1] + 1) % n)
    bl = b if b is not None else float(np.median([_block(A[:, i]) for i in range(m)]))
    go = max(0.0, 1 - 1 / bl)
    p = go + (1 - go) / n
    tot = nxt.size
    ctx.check("blocks continue with the stated probability", abs(nxt.sum() - p * tot) <= 6 * np.sqrt(tot * p * (1 - p)) + 1e-9 * tot, got=nxt.mean(), want=p, total=tot)
    # block starts are uniform on the observations
    starts = np.concatenate([ids[:, 0], ids[:, 1:][~nxt]])
    first = np.bincount(ids[:, 0], minlength=n)
    ctx.check("starting rows are uniform", np.all(np.abs(first - ns / n) <= 6 * np.sqrt(ns / n) + 3), counts=first)
    allst = np.bincount(ids.ravel(), minlength=n)
    ctx.check("every row is reachable", np.all(allst > 0) if ns * n >= 60 * n else True, counts=allst)
    # the wrap from the last row to the first occurs
    wrap = ((ids[:, :-1] == n - 1) & (ids[:, 1:] == 0)).sum()
    at_end = (ids[:, :-1] == n - 1).sum()
    ctx.check("blocks wrap around", abs(wrap - p * at_end) <= 6 * np.sqrt(at_end * p * (1 - p)) + 1e-9 * tot, got=wrap, want=p * at_end)
    Z2 = stationary_bootstrap(A, n_bootstrap_samples=ns, block_size=b, seed=seed)
    ctx.check("same seed, same samples", np.array_equal(Z, Z2))
    Z3 = stationary_bootstrap(A, n_bootstrap_samples=ns, block_size=b, seed=seed + 1)
    ctx.check("another seed, other samples", not np.array_equal(Z, Z3))
    ctx.state(A, b, seed, len(starts))


def _bounds(rng, m):
    if rng.random() < 0.5:
        return 0.0, 1.0
    return (float(rng.choice([-0.3, 0.0])), float(rng.choice([0.5, 0.7, 1.0])))


def _minimise(f, m, lo, hi, cons=(), tries=4, rng=None):
    best = np.inf, None
    base = [{"type": "eq", "fun": lambda w: w.sum() - 1}] + list(cons)
    starts = [np.full(m, 1 / m)] + [np.clip(rng.dirichlet(np.ones(m)), lo, hi) for _ in range(tries - 1)]
    for w0 in starts:
        r = sco.minimize(f, w0, method="SLSQP", bounds=[(lo, hi)] * m, constraints=base, options=dict(maxiter=300, ftol=1e-13))
        w = r.x
        if abs(w.sum() - 1) < 1e-7 and (w >= lo - 1e-7).all() and (w <= hi + 1e-7).all() and all(c["fun"](w) > -1e-8 for c in cons) and f(w) < best[0]:
            best = f(w), w
    return best


@scenario("C26", quick=160, thorough=1800)
def robust_mean(ctx):
    rng = ctx.rng
    X, A = _table(rng, m=gens.some(rng, 2, 6))
    n, m = A.shape
    S, mu = cov(A), A.mean(axis=0)
    conf = float(rng.choice([0.1, 0.5, 0.9]))
    boot = bool(rng.random() < 0.4)
    diag = bool(rng.random() < 0.5)
    if boot:
        seed = int(rng.integers(0, 100))
        est = BootstrapMuUncertaintySet(confidence_level=conf, diagonal=diag, n_bootstrap_samples=50, seed=seed)
        C = cov(np.array([z.mean(axis=0) for z in stationary_bootstrap(A, 50, seed=seed)]))
    else:
        est = EmpiricalMuUncertaintySet(confidence_level=conf, diagonal=diag)
        C = S / n
    if diag:
        C = np.diag(np.diag(C))
    k = _kappa(conf, m)
    lo, hi = _bounds(rng, m)
    worst = lambda w: w @ mu - k * np.sqrt(max(w @ C @ w, 0))
    obj = str(rng.choice(["utility", "return", "ratio", "min"]))
    rb = float(rng.choice([1.0, 5.0]))
    ctx.note(objective=obj, conf=conf, boot=boot, diagonal=diag, lo=lo, hi=hi)
    if hi * m < 1.001:
        raise Skip("infeasible bounds")
    kw = dict(mu_uncertainty_set_estimator=est, min_weights=lo, max_weights=hi)
    cons = []
    if obj == "utility":
        model = MeanRisk(objective_function=ObjectiveFunction.MAXIMIZE_UTILITY, risk_aversion=rb, **kw)
        f = lambda w: rb * w @ S @ w - worst(w)
        sc = float(np.sqrt(np.diag(S)).max()) + rb * float(np.diag(S).max())
    elif obj == "return":
        model = MeanRisk(objective_function=ObjectiveFunction.MAXIMIZE_RETURN, **kw)
        f = lambda w: -worst(w)
        sc = float(np.sqrt(np.diag(S)).max())
    elif obj == "ratio":
        best = _minimise(lambda w: -1e3 * worst(w), m, lo, hi, rng=rng)
        if not best[0] < -0.02:
            raise Skip("no portfolio with a positive worst-case return")
        model = MeanRisk(objective_function=ObjectiveFunction.MAXIMIZE_RATIO, **kw)
        f = lambda w: -worst(w) / np.sqrt(w @ S @ w)
        sc = 1.0
    else:
        best = _minimise(lambda w: -1e3 * worst(w), m, lo, hi, rng=rng)
        plain = _minimise(lambda w: 1e4 * w @ S @ w, m, lo, hi, rng=rng)
        if best[1] is None or plain[1] is None:
            raise Skip("reference failed")
        target = 0.5 * (-best[0] / 1e3 + worst(plain[1]))
        model = MeanRisk(min_return=target, **kw)
        f = lambda w: w @ S @ w
        sc = float(np.diag(S).max())
        cons = [{"type": "ineq", "fun": lambda w: 100 * (worst(w) - target)}]
    w = model.fit(X).weights_
    ctx.close("budget", w.sum(), 1.0, 1e-6)
    ctx.check("bounds", (w >= lo - 1e-6).all() and (w <= hi + 1e-6).all(), w=w)
    if obj == "min":
        ctx.check("worst-case return reaches its bound", worst(w) >= target - 1e-6 * np.sqrt(sc), got=worst(w), want=target)
    ref, wr = _minimise(lambda w: f(w) / sc, m, lo, hi, cons, rng=rng)
    if wr is None:
        raise Skip("reference failed")
    ctx.check("no better weights against the worst-case mean", f(w) / sc <= ref + 2e-5, got=f(w) / sc, want=ref, w=w, better=wr)
    ctx.close("reported uncertainty term", model.problem_values_["mu_uncertainty_set"], k * np.sqrt(w @ C @ w), 1e-3, 1e-6 * np.sqrt(np.diag(S).max()))
    ctx.state(A, conf, diag, obj)


def _worst_variance(w, S, C, k):
    """max of w'Vw over the positive semi-definite V of the ellipsoid."""
    m = len(w)
    v = np.outer(w, w).ravel()
    d = C @ v
    nrm = np.sqrt(max(v @ d, 0))
    if nrm < 1e-30:
        return float(w @ S @ w), True
    V = S + k * d.reshape(m, m) / nrm
    if np.linalg.eigvalsh((V + V.T) / 2).min() >= -1e-12 * np.trace(S):
        return float(w @ V @ w), True
    sc = float(np.diag(S).max())
    val, vec = np.linalg.eigh(C / sc**2)
    R = vec * np.sqrt(np.clip(val, 0, None))
    u = cp.Variable(m * m)
    Vx = cp.Variable((m, m), symmetric=True)
    p = cp.Problem(cp.Maximize(cp.trace(Vx @ np.outer(w, w))), [cp.vec(Vx, order="C") == S.ravel() / sc + k * R @ u, cp.norm(u, 2) <= 1, Vx >> 0])
    p.solve(solver="CLARABEL")
    if p.status != "optimal":
        raise Skip("reference failed")
    return float(p.value * sc), False


@scenario("C26", quick=120, thorough=1200)
def robust_covariance(ctx):
    rng = ctx.rng
    X, A = _table(rng, m=gens.some(rng, 2, 5))
    n, m = A.shape
    S, mu = cov(A), A.mean(axis=0)
    conf = float(rng.choice([0.1, 0.5, 0.95]))
    boot = bool(rng.random() < 0.5)
    diag = bool(rng.random() < 0.6)
    if boot:
        seed = int(rng.integers(0, 100))
        est = BootstrapCovarianceUncertaintySet(confidence_level=conf, diagonal=diag, n_bootstrap_samples=60, seed=seed)
        C = cov(np.array([cov(z).ravel() for z in stationary_bootstrap(A, 60, seed=seed)]))
        if diag:
            C = np.diag(np.diag(C))
    else:
        est = EmpiricalCovarianceUncertaintySet(confidence_level=conf, diagonal=diag)
        s = np.diag(np.diag(S / n)) if diag else S / n
        C = np.diag([n * (s[i, i] * s[j, j] + s[i, j] ** 2) for i in range(m) for j in range(m)])
    k = _kappa(conf, m * m)
    lo, hi = _bounds(rng, m)
    if hi * m < 1.001:
        raise Skip("infeasible bounds")
    obj = str(rng.choice(["min", "min", "utility", "ratio"]))
    rb = 3.0
    ctx.note(objective=obj, conf=conf, boot=boot, diagonal=diag, lo=lo, hi=hi, shape=A.shape)
    of = {"min": ObjectiveFunction.MINIMIZE_RISK, "utility": ObjectiveFunction.MAXIMIZE_UTILITY, "ratio": ObjectiveFunction.MAXIMIZE_RATIO}[obj]
    if obj == "ratio" and np.partition(mu, -1)[-1] < 1e-4:
        raise Skip("no positive expected return")
    model = MeanRisk(objective_function=of, risk_measure=RiskMeasure.VARIANCE, risk_aversion=rb, covariance_uncertainty_set_estimator=est, min_weights=lo, max_weights=hi)
    try:
        model.fit(X)
    except cp.SolverError:
        raise Skip("semi-definite solver gave up")
    w = model.weights_
    ctx.close("budget", w.sum(), 1.0, 1e-6)
    ctx.check("bounds", (w >= lo - 1e-5).all() and (w <= hi + 1e-5).all(), w=w)
    v, exact = _worst_variance(w, S, C, k)
    ctx.note(closed_form=exact)
    ctx.close("reported worst-case variance", model.problem_values_["risk"], v, 5e-3, 1e-4 * np.diag(S).max())

    def f(w):
        r = _worst_variance(w, S, C, k)[0]
        if obj == "min":
            return r
        return rb * r - w @ mu if obj == "utility" else -(w @ mu) / r

    sc = {"min": v, "utility": rb * v + abs(w @ mu), "ratio": max(abs(w @ mu) / v, 1e-9)}[obj]
    f0 = f(w)
    best, arg = f0, None
    for t in range(14):
        d = rng.normal(size=m)
        d -= d.mean()
        d *= 10 ** rng.uniform(-3, -0.5) / np.abs(d).max()
        c = np.clip(w + d, lo, hi)
        c += (1 - c.sum()) / m
        if (c < lo).any() or (c > hi).any():
            continue
        fc = f(c)
        if fc < best:
            best, arg = fc, c
    if exact:
        ref, wr = _minimise(lambda w: f(w) / sc, m, lo, hi, rng=rng, tries=2)
        if wr is not None and ref * sc < best:
            best, arg = ref * sc, wr
    ctx.check("no better weights against the worst-case covariance", f0 <= best + 5e-4 * sc, got=f0, want=best, w=w, better=arg)
    ctx.state(A, conf, diag, obj)
