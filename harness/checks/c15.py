"""C15: maximum diversification and distributionally robust CVaR."""

import cvxpy as cp
import numpy as np

import mr
from core import Skip, rule, scenario

from skfolio.moments import EWCovariance, LedoitWolf
from skfolio.optimization import DistributionallyRobustCVaR, MaximumDiversification
from skfolio.prior import EmpiricalPrior

rule("C15", "one state per solved request compared with independently found allocations")


def _solve(cls, c, **kw):
    for extra in ({}, dict(scale_constraints=10.0), dict(solver_params={"tol_gap_abs": 1e-7, "tol_gap_rel": 1e-7, "tol_feas": 1e-7})):
        try:
            m = cls(**{**c.kw, **kw, **extra})
            return m.fit(c.X, c.y) if c.y is not None else m.fit(c.X)
        except cp.SolverError:
            continue
    return None


def _moves(rng, c, w, k=12):
    out = [w + t * (c.w0 - w) for t in (0.01, 0.1, 0.5, 1.0)]
    for _ in range(k):
        i, j = rng.permutation(c.m)[:2]
        v = w.copy()
        d = float(rng.choice([0.003, 0.02, 0.1]))
        v[i] += d
        v[j] -= d
        out.append(v)
    return [v for v in out if not c.violations(v, 1e-9)]


@scenario("C15", quick=300, thorough=3000)
def diversification(ctx):
    rng = ctx.rng
    c = mr.Case(rng, drift=float(rng.choice([0.001, 0.0, -0.002])))
    k = str(rng.choice(["none", "none", "lw", "ew"]))
    if k != "none":
        pr = EmpiricalPrior(covariance_estimator=LedoitWolf() if k == "lw" else EWCovariance(alpha=0.1))
        c.cov = np.asarray(pr.fit(c.X).prior_model_.covariance)
        c.kw["prior_estimator"] = pr
    if rng.random() < 0.6:
        c.bounds()
    if rng.random() < 0.25:
        c.budget = (0.5, 1.0)
        c.kw.update(budget=None, min_budget=0.5, max_budget=1.0)
    if c.interior() is None:
        raise Skip("box")
    c.linear(0.4)
    c.matrix(0.3)
    c.totals(0.3)
    c.turnover(0.25)
    c.tracking(0.2)
    vol = np.sqrt(np.diag(c.cov))
    ctx.note(kw=c.kw, n=c.n, m=c.m)
    if vol @ c.w0 < 1e-3:
        raise Skip("no positive volatility exposure")
    model = _solve(MaximumDiversification, c)
    if not ctx.check("a feasible request is solved", model is not None):
        return
    w = np.asarray(model.weights_)
    bad = c.violations(w)
    ctx.check("all requested constraints hold", not bad, bad=bad, w=w)

    def ratio(x):
        return (vol @ x) / np.sqrt(x @ c.cov @ x)

    th = ratio(w)
    x = cp.Variable(c.m)
    root = np.linalg.cholesky(c.cov).T
    p = cp.Problem(cp.Maximize(vol @ x - th * cp.norm(root @ x)), c.cvx_feasible(x))
    p.solve(solver="CLARABEL")
    if x.value is not None:
        rival = np.asarray(x.value) + 1e-6 * (c.w0 - x.value)
        if not c.violations(rival, 3e-6):
            ctx.check("no higher diversification found independently", ratio(rival) <= th * (1 + 1e-3) + 1e-6, ours=th, rival=ratio(rival), w=w, other=rival)
    for v in _moves(rng, c, w):
        ctx.check("no higher diversification nearby", ratio(v) <= th * (1 + 1e-3) + 1e-6, ours=th, rival=ratio(v), w=w, other=v)
    ctx.state(c.R, k, sorted(c.kw))


@scenario("C15", quick=60, thorough=600)
def diversification_min_return(ctx):
    """A minimum return applies to the expected return net of costs and fees."""
    rng = ctx.rng
    c = mr.Case(rng, drift=0.0005)
    if rng.random() < 0.5:
        c.costs(0.5)
    vol = np.sqrt(np.diag(c.cov))
    free = _solve(MaximumDiversification, c)
    rmax, wmax = c.solve("max", lambda w: (c.cvx_ret(w), []))
    if free is None or wmax is None:
        raise Skip("reference")
    lo = c.ret(np.asarray(free.weights_))
    if rmax - lo < 1e-5:
        raise Skip("flat")
    t = float(lo + rng.uniform(0.2, 0.9) * (rmax - lo))
    c.limits["min_return"] = t
    ctx.note(target=t, lo=lo, rmax=rmax, kw=c.kw)
    model = _solve(MaximumDiversification, c, min_return=t)
    if not ctx.check("a feasible request is solved", model is not None):
        return
    w = np.asarray(model.weights_)
    ctx.check("minimum return holds", c.ret(w) >= t - 1e-3 * abs(t) - 2e-6, got=c.ret(w), want=t, w=w)
    if not np.any(c.tc) and not np.any(c.fee):
        th = (vol @ w) / np.sqrt(w @ c.cov @ w)
        x = cp.Variable(c.m)
        p = cp.Problem(cp.Maximize(vol @ x - th * cp.norm(np.linalg.cholesky(c.cov).T @ x)), c.cvx_feasible(x))
        p.solve(solver="CLARABEL")
        v = np.asarray(x.value)
        ctx.check("no higher diversification found independently", (vol @ v) / np.sqrt(v @ c.cov @ v) <= th * (1 + 2e-3), ours=th, other=v, w=w)
    ctx.refused("unreachable return", lambda: MaximumDiversification(min_return=float(c.mu.max() * 1.2 + 0.002)).fit(c.X))
    ctx.state(c.R, t)


def worst_case(c, w, beta, rho, eps):
    """Worst case over the ball of E[-r] + rho CVaR(r), by the primal supremum over moved observations.

    Asset returns cannot fall below -1; the ball moves mass at the sum of absolute changes.
    """
    a = (-1.0, -1.0 - rho / (1 - beta))
    b = (rho, rho * (1 - 1 / (1 - beta)))
    lam0 = abs(a[1]) * max(0.0, float(np.max(-w)))
    lam, tau = cp.Variable(), cp.Variable()
    parts = []
    for ak, bk in zip(a, b):
        gain = (1 + c.R) @ cp.pos(abs(ak) * w - lam)
        parts.append(bk * tau + ak * (c.R @ w) + gain)
    s = cp.maximum(*parts)
    p = cp.Problem(cp.Minimize(eps * lam + cp.sum(s) / c.n), [lam >= lam0])
    p.solve(solver="CLARABEL")
    return float(p.value) if p.value is not None else None


def worst_case_program(c, beta, rho, eps):
    a = (-1.0, -1.0 - rho / (1 - beta))
    b = (rho, rho * (1 - 1 / (1 - beta)))
    w, lam, tau = cp.Variable(c.m), cp.Variable(), cp.Variable()
    parts = [bk * tau + ak * (c.R @ w) + (1 + c.R) @ cp.pos(abs(ak) * w - lam) for ak, bk in zip(a, b)]
    cons = [lam >= abs(a[1]) * cp.max(-w), lam >= 0, *c.cvx_feasible(w)]
    p = cp.Problem(cp.Minimize(eps * lam + cp.sum(cp.maximum(*parts)) / c.n), cons)
    p.solve(solver="CLARABEL")
    return None if w.value is None else np.asarray(w.value)


@scenario("C15", quick=120, thorough=1200)
def robust_cvar(ctx):
    rng = ctx.rng
    c = mr.Case(rng, n=int(rng.integers(15, 35)), m=int(rng.integers(2, 5)), drift=0.001)
    scale = float(rng.choice([1.0, 5.0]))
    c.R = c.R * scale
    c.X = c.X * scale
    c.mu, c.cov = c.R.mean(axis=0), np.cov(c.R, rowvar=False)
    beta = float(rng.choice([0.5, 0.8, 0.9, 0.95]))
    rho = float(rng.choice([0.5, 1.0, 3.0]))
    eps = float(rng.choice([0.0001, 0.001, 0.005, 0.02, 0.1, 0.3, 1.0]))
    if rng.random() < 0.6:
        c.bounds()
    if rng.random() < 0.3:
        c.budgets()
    if c.interior() is None:
        raise Skip("box")
    c.linear(0.4)
    c.matrix(0.2)
    c.totals(0.2)
    ctx.note(beta=beta, rho=rho, eps=eps, kw=c.kw, n=c.n, m=c.m)
    model = _solve(DistributionallyRobustCVaR, c, cvar_beta=beta, risk_aversion=rho, wasserstein_ball_radius=eps)
    if not ctx.check("a feasible request is solved", model is not None):
        return
    w = np.asarray(model.weights_)
    bad = c.violations(w)
    ctx.check("all requested constraints hold", not bad, bad=bad, w=w)
    ours = worst_case(c, w, beta, rho, eps)
    best = worst_case_program(c, beta, rho, eps)
    if ours is None or best is None:
        raise Skip("reference")
    tol = 2e-3 * abs(ours) + 2e-6
    v = worst_case(c, best, beta, rho, eps)
    ctx.check("no better worst case found independently", ours <= v + tol, ours=ours, rival=v, w=w, other=best)
    for x in _moves(rng, c, w, 4):
        v = worst_case(c, x, beta, rho, eps)
        if v is not None:
            ctx.check("no better worst case nearby", ours <= v + tol, ours=ours, rival=v, w=w, other=x)
    ctx.close("reported objective", model.problem_values_["objective"], ours, 3e-3, 5e-6)
    ctx.state(c.R, beta, rho, eps, sorted(c.kw))


@scenario("C15", quick=40, thorough=300)
def robust_limits(ctx):
    """A vanishing radius gives the sample optimum, a large one approaches equal weights."""
    rng = ctx.rng
    c = mr.Case(rng, n=25, m=int(rng.integers(2, 5)))
    beta, rho = 0.8, 1.0
    ctx.note(n=c.n, m=c.m)
    c.betas["cvar"] = beta
    m0 = _solve(DistributionallyRobustCVaR, c, cvar_beta=beta, risk_aversion=rho, wasserstein_ball_radius=0.0)
    m1 = _solve(DistributionallyRobustCVaR, c, cvar_beta=beta, risk_aversion=rho, wasserstein_ball_radius=10.0)
    if m0 is None or m1 is None:
        raise Skip("solver")
    w = m0.weights_

    def f(x):
        return -c.mu @ x + rho * c.risk("cvar", x)

    _, best = c.solve("min", lambda x: (c.cvx_risk("cvar", x)[0] * rho - c.mu @ x, []))
    ctx.check("zero radius is the sample optimum", f(w) <= f(best) + 1e-3 * abs(f(best)) + 1e-6, ours=f(w), best=f(best), w=w)
    # with a large radius every dollar can be lost: only the ranking of s remains
    v1, ve = worst_case(c, m1.weights_, beta, rho, 10.0), worst_case(c, np.ones(c.m) / c.m, beta, rho, 10.0)
    ctx.check("large radius no worse than equal weights", v1 <= ve + 1e-3 * abs(ve) + 1e-5, ours=v1, equal=ve)
    ctx.state(c.R)
