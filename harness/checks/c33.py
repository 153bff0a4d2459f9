"""C33: bivariate copulas."""

import numpy as np
import pandas as pd
import scipy.integrate as si
import scipy.special as sp
import scipy.stats as st

from core import Skip, rule, scenario

from skfolio.distribution import (
    ClaytonCopula, CopulaRotation, GaussianCopula, GumbelCopula, IndependentCopula, JoeCopula, SelectionCriterion, StudentTCopula,
    compute_pseudo_observations, empirical_tail_concentration, plot_tail_concentration, select_bivariate_copula,
)

rule("C33", "one state per fitted (family, parameters, rotation)")

ARCH = {"clayton": ClaytonCopula, "gumbel": GumbelCopula, "joe": JoeCopula}
FAMILIES = {"gaussian": GaussianCopula, "student": StudentTCopula, **ARCH}
ROT = [CopulaRotation.R0, CopulaRotation.R90, CopulaRotation.R180, CopulaRotation.R270]


# ---- independent closed forms, written in log space -------------------------------
def _base_logpdf(kind, th, u, v):
    if kind == "clayton":
        a, b = -th * np.log(u), -th * np.log(v)
        m = np.maximum(a, b)
        ls = m + np.log(np.exp(a - m) + np.exp(b - m) - np.exp(-m))
        return np.log1p(th) - (1 + th) * (np.log(u) + np.log(v)) - (2 + 1 / th) * ls
    if kind == "gumbel":
        x, y = -np.log(u), -np.log(v)
        s = np.exp(np.logaddexp(th * np.log(x), th * np.log(y)) / th)
        return -s + x + y + (th - 1) * (np.log(x) + np.log(y)) + (1 - 2 * th) * np.log(s) + np.log(s + th - 1)
    a, b = (1 - u) ** th, (1 - v) ** th
    d = a + b - a * b
    return (1 / th - 2) * np.log(d) + (th - 1) * (np.log1p(-u) + np.log1p(-v)) + np.log(th - 1 + d)


def _base_cdf(kind, th, u, v):
    if kind == "clayton":
        a, b = -th * np.log(u), -th * np.log(v)
        m = np.maximum(a, b)
        return np.exp(-(m + np.log(np.exp(a - m) + np.exp(b - m) - np.exp(-m))) / th)
    if kind == "gumbel":
        return np.exp(-np.exp(np.logaddexp(th * np.log(-np.log(u)), th * np.log(-np.log(v))) / th))
    a, b = (1 - u) ** th, (1 - v) ** th
    return 1 - (a + b - a * b) ** (1 / th)


def _base_h(kind, th, u, v):
    """Distribution of the first variable given the second."""
    if kind == "clayton":
        a, b = -th * np.log(u), -th * np.log(v)
        m = np.maximum(a, b)
        ls = m + np.log(np.exp(a - m) + np.exp(b - m) - np.exp(-m))
        return np.exp(-(1 + th) * np.log(v) - (1 + 1 / th) * ls)
    if kind == "gumbel":
        y = -np.log(v)
        s = np.exp(np.logaddexp(th * np.log(-np.log(u)), th * np.log(y)) / th)
        return np.exp(-s + y + (th - 1) * (np.log(y) - np.log(s)))
    a, b = (1 - u) ** th, (1 - v) ** th
    return np.exp((1 / th - 1) * np.log(a + b - a * b) + (th - 1) * np.log1p(-v)) * (1 - a)


def logpdf(c, U):
    kind, p = c
    u, v = U[:, 0], U[:, 1]
    if kind == "independent":
        return np.zeros(len(U))
    if kind == "gaussian":
        x, y, r = sp.ndtri(u), sp.ndtri(v), p["rho"]
        return -0.5 * np.log(1 - r * r) - (r * r * (x * x + y * y) - 2 * r * x * y) / (2 * (1 - r * r))
    if kind == "student":
        r, n = p["rho"], p["dof"]
        x, y = sp.stdtrit(n, u), sp.stdtrit(n, v)
        q = (x * x - 2 * r * x * y + y * y) / (1 - r * r)
        joint = sp.gammaln((n + 2) / 2) - sp.gammaln(n / 2) - np.log(n * np.pi) - 0.5 * np.log(1 - r * r) - (n + 2) / 2 * np.log1p(q / n)
        return joint - st.t.logpdf(x, n) - st.t.logpdf(y, n)
    th, rot = p["theta"], ROT.index(p["rot"])
    if rot in (1, 2):
        u = 1 - u
    if rot in (2, 3):
        v = 1 - v
    return _base_logpdf(kind, th, u, v)


def hfun(c, U, first):
    """Conditional distribution: of v given u when ``first``, otherwise of u given v."""
    kind, p = c
    u, v = U[:, 0], U[:, 1]
    if kind == "independent":
        return v if first else u
    x, given = (v, u) if first else (u, v)
    if kind == "gaussian":
        return sp.ndtr((sp.ndtri(x) - p["rho"] * sp.ndtri(given)) / np.sqrt(1 - p["rho"] ** 2))
    if kind == "student":
        n, r = p["dof"], p["rho"]
        g = sp.stdtrit(n, given)
        return sp.stdtr(n + 1, (sp.stdtrit(n, x) - r * g) * np.sqrt((n + 1) / ((n + g * g) * (1 - r * r))))
    th, rot = p["theta"], ROT.index(p["rot"])
    fu, fv = rot in (1, 2), rot in (2, 3)
    flip_x, flip_g = (fv, fu) if first else (fu, fv)
    h = _base_h(kind, th, 1 - x if flip_x else x, 1 - given if flip_g else given)
    return 1 - h if flip_x else h


def cdf(c, U):
    kind, p = c
    u, v = U[:, 0], U[:, 1]
    if kind == "independent":
        return u * v
    if kind in ("gaussian", "student"):
        # integrate the conditional distribution over the second margin
        return np.array([si.quad(lambda t: hfun(c, np.array([[a, t]]), False)[0], 0, b, limit=200, points=None)[0] for a, b in U])
    th, rot = p["theta"], ROT.index(p["rot"])
    if rot == 0:
        return _base_cdf(kind, th, u, v)
    if rot == 1:
        return v - _base_cdf(kind, th, 1 - u, v)
    if rot == 2:
        return u + v - 1 + _base_cdf(kind, th, 1 - u, 1 - v)
    return u - _base_cdf(kind, th, u, 1 - v)


def tau_of(kind, th):
    if kind == "clayton":
        return th / (th + 2)
    if kind == "gumbel":
        return 1 - 1 / th
    k = np.arange(1, 200001.0)
    s = np.sum(1 / (k * (th * k + 2) * (th * (k - 1) + 2)))
    tail = 1 / (2 * th * th * (k[-1] + 0.5) ** 2)
    return 1 - 4 * (s + tail)


def describe(est):
    kind = {v: k for k, v in {**FAMILIES, "independent": IndependentCopula}.items()}[type(est)]
    if kind == "independent":
        return kind, {}
    if kind == "gaussian":
        return kind, {"rho": float(est.rho_)}
    if kind == "student":
        return kind, {"rho": float(est.rho_), "dof": float(est.dof_)}
    return kind, {"theta": float(est.theta_), "rot": est.rotation_}


def draw(c, rng, n):
    """Simulate a copula by inverting the reference conditional distribution."""
    u = rng.uniform(1e-6, 1 - 1e-6, n)
    q = rng.uniform(1e-6, 1 - 1e-6, n)
    lo, hi = np.full(n, 1e-9), np.full(n, 1 - 1e-9)
    for _ in range(50):
        mid = (lo + hi) / 2
        up = hfun(c, np.column_stack([u, mid]), True) < q
        lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
    return np.column_stack([u, (lo + hi) / 2])


def _random(rng, kinds=tuple(FAMILIES), strong=False):
    kind = str(rng.choice(list(kinds)))
    if kind in ("gaussian", "student"):
        p = {"rho": float(rng.choice([-1, 1]) * rng.uniform(0.1, 0.97))}
        if kind == "student":
            p["dof"] = float(rng.uniform(2.2, 15))
        return kind, p
    t = float(rng.uniform(0.05, 0.85 if not strong else 0.94))
    if kind == "joe":
        t = min(t, 0.85)
        th = float(1 / (1 - t) * 1.3)
    else:
        th = 2 * t / (1 - t) if kind == "clayton" else 1 / (1 - t)
    return kind, {"theta": th, "rot": ROT[int(rng.integers(4))]}


def fitted(ctx, kinds=tuple(FAMILIES), n=None, **kw):
    """A copula fitted on data simulated from a random member of its family."""
    rng = ctx.rng
    c = _random(rng, kinds)
    U = draw(c, rng, int(n or rng.choice([40, 80, 150])))
    est = FAMILIES[c[0]](random_state=int(rng.integers(1000)), **kw)
    ctx.note(truth=c, n=len(U), **kw)
    est.fit(pd.DataFrame(U, columns=["a", "b"]) if rng.random() < 0.2 else U)
    return est, describe(est), U, c


def _points(rng, n=30):
    U = rng.uniform(0.002, 0.998, (n, 2))
    k = n // 3
    U[:k] = np.clip(rng.beta(0.3, 0.3, (k, 2)), 1e-4, 1 - 1e-4)
    d = rng.uniform(0.01, 0.99, k)
    U[k : 2 * k, 0] = d
    U[k : 2 * k, 1] = np.clip(np.where(rng.random(k) < 0.5, d, 1 - d) + rng.normal(0, 0.02, k), 1e-3, 1 - 1e-3)
    return U


@scenario("C33", quick=500, thorough=6000)
def functions(ctx):
    rng = ctx.rng
    est, c, _, _ = fitted(ctx, itau=True)
    kind, p = c
    U = _points(rng)
    ctx.close("log density", est.score_samples(U), logpdf(c, U), 1e-7, 1e-7, params=p)
    for first in (False, True):
        h = hfun(c, U, first)
        got = est.partial_derivative(U, first_margin=first) if first or rng.random() < 0.5 else est.partial_derivative(U)
        ctx.close("conditional distribution", got, h, 1e-6, 1e-7, params=p, first=first)
        # inverse: the probability takes the place of the variable being solved for
        q = np.clip(rng.beta(0.6, 0.6, len(U)), 1e-4, 1 - 1e-4)
        V = U.copy()
        V[:, 1 if first else 0] = q
        x = est.inverse_partial_derivative(V, first_margin=first) if first or rng.random() < 0.5 else est.inverse_partial_derivative(V)
        ctx.check("inverse within the unit interval", (x >= 0).all() and (x <= 1).all(), x=x)
        W = U.copy()
        W[:, 1 if first else 0] = np.clip(x, 1e-9, 1 - 1e-9)
        inner = (x > 1e-5) & (x < 1 - 1e-5)
        back = hfun(c, W, first)
        ctx.close("inverse conditional distribution", back[inner], q[inner], 1e-4, 1e-5, params=p, first=first)
    n = 4 if kind in ("gaussian", "student") else len(U)
    V = U[rng.permutation(len(U))[:n]]
    tol = {"student": 3e-3, "gaussian": 1e-5}.get(kind, 1e-8)
    ctx.close("cumulative probability", est.cdf(V), cdf(c, V), tol, tol, params=p)
    ctx.state(kind, sorted((k, str(v)) for k, v in p.items()))


@scenario("C33", quick=350, thorough=4000)
def copula_axioms(ctx):
    rng = ctx.rng
    est, c, _, _ = fitted(ctx, ("gaussian", "clayton", "gumbel", "joe"), itau=bool(rng.random() < 0.7))
    kind, p = c
    g = rng.uniform(0.001, 0.999, 12)
    one, zero = np.ones(12), np.zeros(12)
    tol = 1e-5 if kind == "gaussian" else 3e-8
    ctx.close("uniform first margin", est.cdf(np.column_stack([g, one])), g, 1e-6, tol)
    ctx.close("uniform second margin", est.cdf(np.column_stack([one, g])), g, 1e-6, tol)
    ctx.close("zero at the left edge", est.cdf(np.column_stack([zero, g])), zero, 0, tol)
    ctx.close("zero at the bottom edge", est.cdf(np.column_stack([g, zero])), zero, 0, tol)
    a, b = np.sort(rng.random((2, 12)), axis=0)
    d, e = np.sort(rng.random((2, 12)), axis=0)
    C = lambda x, y: est.cdf(np.column_stack([x, y]))
    vol = C(b, e) - C(a, e) - C(b, d) + C(a, d)
    ctx.check("rectangles have non-negative probability", (vol >= -3e-5 if kind == "gaussian" else vol >= -1e-9).all(), vol=vol, params=p)
    U = rng.uniform(0.05, 0.95, (12, 2))
    h = 1e-5
    du, dv = np.array([h, 0.0]), np.array([0.0, h])
    if kind != "gaussian":
        num = (est.cdf(U + dv) - est.cdf(U - dv)) / (2 * h)
        ctx.close("derivative in the second margin", est.partial_derivative(U), num, 1e-3, 1e-4, params=p)
        num = (est.cdf(U + du) - est.cdf(U - du)) / (2 * h)
        ctx.close("derivative in the first margin", est.partial_derivative(U, first_margin=True), num, 1e-3, 1e-4, params=p)
    dens = np.exp(est.score_samples(U))
    num = (est.partial_derivative(U + du) - est.partial_derivative(U - du)) / (2 * h)
    ctx.close("mixed derivative", dens, num, 1e-3, 1e-4, params=p)
    num = (est.partial_derivative(U + dv, first_margin=True) - est.partial_derivative(U - dv, first_margin=True)) / (2 * h)
    ctx.close("mixed derivative, other order", dens, num, 1e-3, 1e-4, params=p)
    ctx.state(kind, sorted((k, str(v)) for k, v in p.items()))


@scenario("C33", quick=300, thorough=3000)
def extremes(ctx):
    """Observations far in the corners and very strong dependence."""
    rng = ctx.rng
    kind = str(rng.choice(list(ARCH) + ["gaussian", "student"]))
    tau = float(rng.choice([0.3, 0.8, 0.93, 0.97, 0.99, 0.999]))
    sgn = float(rng.choice([-1, 1]))
    x = rng.normal(size=60)
    y = sgn * x + rng.normal(0, 0.2, 60)
    D = compute_pseudo_observations(np.column_stack([x, y]))
    est = FAMILIES[kind](kendall_tau=sgn * tau).fit(D)
    c = describe(est)
    ctx.note(kind=kind, tau=sgn * tau, params=c[1])
    g = np.array([1e-9, 1e-8, 1e-6, 1e-4, 0.01, 0.5, 0.99, 1 - 1e-4, 1 - 1e-6, 1 - 1e-8, 1 - 1e-9])
    U = np.array([(a, b) for a in g for b in g])
    s = est.score_samples(U)
    ctx.check("log density is a number", not np.isnan(s).any() and not np.isposinf(s).any() and not np.isneginf(s).any(), where=U[~np.isfinite(s)][:4], params=c[1])
    if kind in ARCH:
        # rotated margins lose the last digits of one minus a probability, so judge where both are exact
        inner = U[(U.min(axis=1) >= 1e-6) & (U.max(axis=1) <= 1 - 1e-6)]
        ctx.close("log density in the corners", est.score_samples(inner), logpdf(c, inner), 1e-4, 1e-3, params=c[1])
    for first in (False, True):
        h = est.partial_derivative(U, first_margin=first)
        ctx.check("conditional probabilities in range", (h >= 0).all() and (h <= 1).all(), where=U[~((h >= 0) & (h <= 1))][:4], params=c[1], first=first)
        x = est.inverse_partial_derivative(U, first_margin=first)
        ctx.check("inverse in range", (x >= 0).all() and (x <= 1).all(), where=U[~((x >= 0) & (x <= 1))][:4], params=c[1], first=first)
    if kind != "student":
        C = est.cdf(U)
        lo, hi = np.maximum(U.sum(axis=1) - 1, 0), U.min(axis=1)
        tol = 1e-5 if kind == "gaussian" else 1e-6
        ctx.check("Frechet bounds", (C >= lo - tol).all() and (C <= hi + tol).all(), where=U[(C < lo - tol) | (C > hi + tol)][:4], params=c[1])
    if kind in ARCH:
        # inverting close to the edges, alone and among other observations
        e = float(rng.choice([1e-2, 1e-3, 1e-4, 1e-5]))
        given = np.concatenate([np.full(6, e), np.full(6, 1 - e), rng.uniform(0.05, 0.95, 4)])
        q = rng.uniform(0.02, 0.98, 16)
        for first in (False, True):
            V = np.column_stack([given, q] if first else [q, given])
            pick = int(rng.integers(16))
            for sel in (np.arange(16), np.array([pick])):
                x = est.inverse_partial_derivative(V[sel], first_margin=first)
                ok = (x > 1e-7) & (x < 1 - 1e-7)
                W = np.column_stack([given[sel], x] if first else [x, given[sel]])[ok]
                if len(W):
                    ctx.close("inverse near the edges", hfun(c, W, first), q[sel][ok], 0, 2e-3, params=c[1], first=first, given=given[sel][ok])
    R = rng.random((200, 2))
    h = est.partial_derivative(R)
    ctx.check("conditional probabilities in range", (h >= 0).all() and (h <= 1).all(), where=R[~((h >= 0) & (h <= 1))][:4], params=c[1])
    ctx.state(kind, tau, sgn)


def _kendall(x, y):
    a, b = np.sign(x[:, None] - x[None, :]), np.sign(y[:, None] - y[None, :])
    return float((a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum()))


@scenario("C33", quick=600, thorough=4000)
def fit_by_tau(ctx):
    rng = ctx.rng
    c = _random(rng)
    kind = c[0]
    U = draw(c, rng, int(rng.choice([30, 60, 120])))
    if rng.random() < 0.3:
        U = np.clip(np.round(U, 2), 0.005, 0.995)
    given = bool(rng.random() < 0.4)
    tau = float(np.sign(_kendall(U[:, 0], U[:, 1])) * (rng.uniform(0.1, 0.8) if rng.random() < 0.6 else rng.uniform(0.85, 0.975))) if given else _kendall(U[:, 0], U[:, 1])
    if abs(tau) < 0.02:
        raise Skip("near independence")
    est = FAMILIES[kind](**({"kendall_tau": tau} if given else {}))
    ctx.note(truth=c, n=len(U), tau=tau, given=given)
    est.fit(U)
    _, p = describe(est)
    if kind in ("gaussian", "student"):
        ctx.close("correlation from Kendall's tau", p["rho"], np.clip(np.sin(np.pi * tau / 2), -0.999, 0.999), 1e-9, 1e-12)
        if kind == "student":
            ctx.check("degrees of freedom in range", 2 <= p["dof"] <= 50)
            ll = logpdf((kind, p), U).sum()
            alt = [logpdf((kind, dict(p, dof=v)), U).sum() for v in (2.05, 2.5, 3.5, 5.0, 8.0, 15.0, 49.0)]
            ctx.check("likely degrees of freedom", ll >= max(alt) - 0.05, got=ll, alternatives=alt, dof=p["dof"])
    else:
        bound = {"clayton": (1e-4, 50.0), "gumbel": (1.0001, 80.0), "joe": (1.005, 20.0)}[kind]
        if tau_of(kind, bound[0]) < abs(tau) < tau_of(kind, bound[1]):
            ctx.close("parameter matches Kendall's tau", tau_of(kind, p["theta"]), abs(tau), 1e-5, 1e-6, theta=p["theta"])
        ll = [logpdf((kind, dict(p, rot=r)), U).sum() for r in ROT]
        ctx.check("most likely rotation", ll[ROT.index(p["rot"])] >= max(ll) - 1e-6 * (1 + abs(max(ll))), ll=ll, rot=p["rot"])
    ctx.state(U, kind, given)


@scenario("C33", quick=160, thorough=2000)
def fit_by_likelihood(ctx):
    rng = ctx.rng
    est, c, U, _ = fitted(ctx, itau=False)
    kind, p = c
    ll = logpdf(c, U).sum()
    if kind == "gaussian":
        alts = {r: logpdf((kind, {"rho": r}), U).sum() for r in np.concatenate([np.linspace(-0.99, 0.99, 67), p["rho"] + np.array([-0.01, 0.01])]) if abs(r) < 0.999}
    elif kind == "student":
        alts = {(r, n): logpdf((kind, {"rho": r, "dof": n}), U).sum() for r in p["rho"] + np.array([-0.05, 0, 0.05]) if abs(r) < 0.999 for n in (2.2, 3.0, 4.5, 8.0, 20.0, 45.0)}
    else:
        base = {"clayton": np.geomspace(0.02, 40, 40), "gumbel": 1 + np.geomspace(0.01, 60, 40), "joe": 1 + np.geomspace(0.01, 18, 40)}[kind]
        near = p["theta"] * np.array([0.97, 1.03])
        bound = {"clayton": (1e-4, 50.0), "gumbel": (1.0001, 80.0), "joe": (1.005, 20.0)}[kind]
        alts = {(t, r): logpdf((kind, {"theta": t, "rot": r}), U).sum() for r in ROT for t in np.concatenate([base, near]) if bound[0] <= t <= bound[1]}
    best = max(alts, key=alts.get)
    # the library searches by a bounded local method; the two-parameter search stops early on a relative decrease
    tol = 1 + 0.05 * abs(alts[best]) if kind == "student" else 0.02
    if kind == "student":
        start = logpdf((kind, {"rho": float(np.clip(np.sin(np.pi * _kendall(U[:, 0], U[:, 1]) / 2), -0.999, 0.999)), "dof": 3.0}), U).sum()
        ctx.check("no worse than matching Kendall's tau", ll >= start - 1e-6 * (1 + abs(start)), got=ll, want=start)
    ctx.check("most likely parameters", ll >= alts[best] - tol, got=ll, alternative=alts[best], at=best, params=p)
    k = {"student": 2}.get(kind, 1)
    ctx.equal("number of parameters", est.n_params, k)
    ctx.close("score", est.score(U), ll, 1e-7, 1e-6)
    ctx.close("aic", est.aic(U), 2 * k - 2 * ll, 1e-7, 1e-6)
    ctx.close("bic", est.bic(U), k * np.log(len(U)) - 2 * ll, 1e-7, 1e-6)
    ctx.state(U, kind)


@scenario("C33", quick=260, thorough=3000)
def samples(ctx):
    rng = ctx.rng
    est, c, _, _ = fitted(ctx)
    kind, p = c
    S = est.sample(2000)
    ctx.equal("shape", S.shape, (2000, 2))
    ctx.check("within the unit square", (S >= 0).all() and (S <= 1).all())
    ctx.equal("same seed, same sample", est.sample(2000), S)
    ctx.equal("one sample by default", est.sample().shape, (1, 2))
    Q = np.clip(S, 1e-9, 1 - 1e-9)
    for j in (0, 1):
        ctx.check("uniform margins", st.kstest(S[:, j], "uniform").pvalue > 1e-8, margin=j, params=p)
    for first in (False, True):
        h = hfun(c, Q, first)
        ctx.check("conditional probabilities are uniform", st.kstest(h, "uniform").pvalue > 1e-8, first=first, params=p)
        other = Q[:, 0] if first else Q[:, 1]
        r = st.spearmanr(h, other).statistic
        ctx.check("and independent of the other margin", abs(r) < 6.5 / np.sqrt(2000), corr=r, first=first, params=p)
        # also in each half of the other margin, which reveals a wrong orientation
        for part in (other < 0.3, other > 0.7):
            ctx.check("uniform given either end", st.kstest(h[part], "uniform").pvalue > 1e-8, first=first, params=p)
    ctx.state(kind, sorted((k, str(v)) for k, v in p.items()))


@scenario("C33", quick=260, thorough=2500)
def tails(ctx):
    rng = ctx.rng
    est, c, U, _ = fitted(ctx)
    kind, p = c
    low = up = 0.0
    if kind == "student":
        low = up = 2 * sp.stdtr(p["dof"] + 1, -np.sqrt((p["dof"] + 1) * (1 - p["rho"]) / (1 + p["rho"])))
    elif kind in ARCH:
        lam = 2 ** (-1 / p["theta"]) if kind == "clayton" else 2 - 2 ** (1 / p["theta"])
        at_low = (kind == "clayton") == (p["rot"] == CopulaRotation.R0)
        if p["rot"] in (CopulaRotation.R0, CopulaRotation.R180):
            low, up = (lam, 0.0) if at_low else (0.0, lam)
    ctx.close("lower tail dependence", est.lower_tail_dependence, low, 1e-9, 1e-12, params=p)
    ctx.close("upper tail dependence", est.upper_tail_dependence, up, 1e-9, 1e-12, params=p)
    q = np.sort(np.concatenate([rng.uniform(0.01, 0.99, 3), [0.5, 0.3, 0.9]]))
    got = est.tail_concentration(q)
    C = cdf(c, np.column_stack([q, q]))
    want = np.where(q <= 0.5, C / q, (1 - 2 * q + C) / (1 - q))
    # the distribution function is integrated numerically for the elliptical families
    m = np.minimum(q, 1 - q)
    tol = {"student": 3e-3, "gaussian": 1e-4}.get(kind, 1e-7)
    ctx.close("tail concentration", got * m, want * m, tol, tol, params=p)
    ctx.refused("quantile out of range", lambda: est.tail_concentration(np.array([0.2, 1.4])), (ValueError,))
    if kind in ("clayton", "gumbel", "joe"):
        e = 1e-5
        Cl = cdf(c, np.array([[e, e]]))[0] / e
        ctx.check("limit of the concentration", abs(est.tail_concentration(np.array([e]))[0] - Cl) < 1e-3)
    got = empirical_tail_concentration(U, q)
    want = []
    for v in q:
        sel = U[:, 0] <= v if v <= 0.5 else U[:, 0] >= v
        both = sel & (U[:, 1] <= v if v <= 0.5 else U[:, 1] >= v)
        want.append(both.sum() / sel.sum() if sel.sum() else 0.0)
    ctx.close("empirical tail concentration", got, want, 1e-12, 1e-12)
    if kind != "student" and rng.random() < 0.4:
        fig = est.plot_tail_concentration(U if rng.random() < 0.5 else None)
        x = np.array(fig.data[0].x, float)
        ctx.close("plotted concentration", np.array(fig.data[0].y, float)[::20], est.tail_concentration(x)[::20], 1e-3, 1e-4)
        if len(fig.data) > 1:
            ctx.close("plotted empirical concentration", np.array(fig.data[1].y, float), empirical_tail_concentration(U, np.array(fig.data[1].x, float)), 1e-9, 1e-12)
    if rng.random() < 0.2:
        for fig in (est.plot_pdf_2d(), est.plot_pdf_3d()):
            t = fig.data[0]
            x, y, z = np.array(t.x, float), np.array(t.y, float), np.array(t.z, float)
            if x.ndim == 1:
                x, y = np.meshgrid(x, y)
            i, j = rng.integers(0, z.shape[0], 10), rng.integers(0, z.shape[1], 10)
            ctx.close("plotted density", z[i, j], np.exp(logpdf(c, np.column_stack([x[i, j], y[i, j]]))), 1e-6, 1e-8)
    ctx.state(kind, sorted((k, str(v)) for k, v in p.items()))


@scenario("C33", quick=200, thorough=2400)
def selection(ctx):
    rng = ctx.rng
    n = int(rng.choice([30, 60, 120]))
    if rng.random() < 0.35:
        U = rng.uniform(0.001, 0.999, (n, 2))
        truth = "independent"
    else:
        truth = _random(rng)
        U = draw(truth, rng, n)
    crit = SelectionCriterion.AIC if rng.random() < 0.5 else SelectionCriterion.BIC
    level = float(rng.choice([0.05, 0.01, 0.5, 0.9]))
    kinds = list(FAMILIES)
    cands = None
    if rng.random() < 0.7:
        kinds = [str(k) for k in rng.permutation(list(FAMILIES))[: int(rng.integers(1, 5))]]
        cands = [FAMILIES[k](itau=bool(rng.random() < 0.7)) for k in kinds]
        if rng.random() < 0.3:
            kinds.insert(0, "independent")
            cands.insert(0, IndependentCopula())
            if rng.random() < 0.5:
                level = 1.01  # no independence test
    ctx.note(truth=truth, n=n, candidates=kinds, criterion=str(crit), level=level)
    kw = {} if cands is None else {"copula_candidates": cands}
    if level != 0.05 or rng.random() < 0.5:
        kw["independence_level"] = level
    if crit == SelectionCriterion.BIC or rng.random() < 0.5:
        kw["selection_criterion"] = crit
    got = select_bivariate_copula(pd.DataFrame(U) if rng.random() < 0.2 else U, **kw)
    pv = st.kendalltau(U[:, 0], U[:, 1]).pvalue
    if abs(pv - level) < 1e-9:
        raise Skip("p-value on the level")
    kind, p = describe(got)
    if pv >= level:
        ctx.equal("independent copula when the test accepts", kind, "independent")
    else:
        ctx.check("one of the candidates", kind in kinds, kind=kind)
        val = lambda k, d: (2 if crit == SelectionCriterion.AIC else np.log(n)) * (2 if k == "student" else 1) - 2 * logpdf((k, d), U).sum() if k != "independent" else 0.0
        vals = []
        for k, cnd in zip(kinds, cands or [FAMILIES[k]() for k in kinds]):
            f = FAMILIES[k](itau=cnd.itau).fit(U) if k != "independent" else None
            vals.append(val(k, describe(f)[1] if f else None))
        ctx.close("best criterion", val(kind, p), min(vals), 1e-7, 1e-5, got_kind=kind, all=vals)
    if cands is not None:
        ctx.check("candidates stay unfitted", not any(hasattr(x, "rho_") or hasattr(x, "theta_") or getattr(x, "kendall_tau", None) is not None for x in cands))
    ctx.state(U, kinds, str(crit), level)


@scenario("C33", quick=150, thorough=1200)
def independent_and_refusals(ctx):
    rng = ctx.rng
    U = rng.uniform(0.001, 0.999, (30, 2))
    est = IndependentCopula(random_state=int(rng.integers(100))).fit(U)
    ctx.close("product", est.cdf(U), U[:, 0] * U[:, 1], 1e-12, 0)
    ctx.close("unit density", est.score_samples(U), np.zeros(30), 0, 1e-12)
    ctx.close("conditional given the second", est.partial_derivative(U), U[:, 0], 1e-12, 0)
    ctx.close("conditional given the first", est.partial_derivative(U, first_margin=True), U[:, 1], 1e-12, 0)
    ctx.close("inverse given the second", est.inverse_partial_derivative(U), U[:, 0], 1e-12, 0)
    ctx.close("inverse given the first", est.inverse_partial_derivative(U, first_margin=True), U[:, 1], 1e-12, 0)
    ctx.equal("no tail dependence", (est.lower_tail_dependence, est.upper_tail_dependence, est.n_params), (0, 0, 0))
    S = est.sample(1500)
    ctx.check("uniform samples", S.shape == (1500, 2) and all(st.kstest(S[:, j], "uniform").pvalue > 1e-8 for j in (0, 1)) and abs(st.spearmanr(S).statistic) < 6.5 / np.sqrt(1500))
    kind = str(rng.choice([*FAMILIES, "independent"]))
    F = {**FAMILIES, "independent": IndependentCopula}[kind]
    ctx.note(kind=kind)
    ctx.refused("one column", lambda: F().fit(U[:, :1]), (ValueError,))
    ctx.refused("three columns", lambda: F().fit(np.hstack([U, U[:, :1]])), (ValueError,))
    bad = U.copy()
    bad[3, int(rng.integers(2))] = float(rng.choice([-0.01, 1.01]))
    ctx.refused("outside the unit square", lambda: F().fit(bad), (ValueError,))
    f = F().fit(draw(_random(rng), rng, 40))
    named = F().fit(pd.DataFrame(draw(_random(rng), rng, 40), columns=["one", "two"]))
    for name in ("cdf", "score_samples", "partial_derivative", "inverse_partial_derivative"):
        ctx.refused("other assets", lambda: getattr(named, name)(pd.DataFrame(U, columns=["one", "three"])), (ValueError,), method=name)
        ctx.refused("swapped assets", lambda: getattr(named, name)(pd.DataFrame(U, columns=["two", "one"])), (ValueError,), method=name)
    for name in ("cdf", "score_samples", "partial_derivative", "inverse_partial_derivative"):
        ctx.refused("outside the unit square", lambda: getattr(f, name)(bad), (ValueError,), method=name)
        if kind != "independent":
            ctx.refused("unfitted", lambda: getattr(F(), name)(U), method=name)
    Z = rng.normal(size=(int(rng.integers(5, 40)), int(rng.integers(2, 5))))
    if rng.random() < 0.5:
        Z = np.round(Z, 1)
    P = compute_pseudo_observations(Z)
    want = np.array([[(np.sum(c < v) + (np.sum(c == v) + 1) / 2) / (len(c) + 1) for v in c] for c in Z.T]).T
    ctx.close("pseudo-observations", P, want, 1e-12, 0)
    ctx.refused("empirical concentration outside the unit square", lambda: empirical_tail_concentration(bad, np.array([0.3])), (ValueError,))
    ctx.refused("empirical concentration at impossible quantiles", lambda: empirical_tail_concentration(U, np.array([0.3, 1.2])), (ValueError,))
    ctx.refused("empirical concentration at impossible quantiles", lambda: empirical_tail_concentration(U, np.array([-0.1, 0.2])), (ValueError,))
    ctx.refused("selection with three columns", lambda: select_bivariate_copula(np.hstack([U, U[:, :1]])), (ValueError,))
    ctx.refused("selection among other objects", lambda: select_bivariate_copula(U, copula_candidates=[IndependentCopula(), object()], independence_level=2.0), (ValueError,))
    if kind != "independent":
        ctx.check("representation", F.__name__ in f.fitted_repr, got=f.fitted_repr)
    q = np.linspace(0.05, 0.95, 7)
    curve = rng.random(7)
    sm = [None, 0.0, 0.7, 1.3][int(rng.integers(4))]
    fig = plot_tail_concentration({"one": curve, "two": 1 - curve}, q, smoothing=sm)
    ctx.equal("concentration curves", [(t.name, tuple(np.round(t.y, 12))) for t in fig.data][:2], [("one", tuple(np.round(curve, 12))), ("two", tuple(np.round(1 - curve, 12)))])
    ctx.check("curve shape", all(t.line.shape == ("linear" if sm is None else "spline") for t in fig.data[:2]), smoothing=sm)
    ctx.close("concentration abscissae", np.array(fig.data[0].x, float), q, 1e-12, 0)
    for bad_s in (-0.1, 1.4):
        ctx.refused("impossible smoothing", lambda: plot_tail_concentration({"one": curve}, q, smoothing=bad_s), (ValueError,))
    ctx.refused("empirical concentration of three columns", lambda: empirical_tail_concentration(np.hstack([U, U]), np.array([0.3])), (ValueError,))
    ctx.state(U, kind)
