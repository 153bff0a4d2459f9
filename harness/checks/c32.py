"""C32: univariate distributions."""

import numpy as np
import pandas as pd
import scipy.integrate as si
import scipy.special as sp
import scipy.stats as st

import gens
from core import Skip, rule, scenario

from skfolio.distribution import Gaussian, JohnsonSU, NormalInverseGaussian, SelectionCriterion, StudentT, select_univariate_dist

rule("C32", "one state per fitted (sample, family, fixed parameters)")

FAMILIES = {"gaussian": Gaussian, "student": StudentT, "johnson": JohnsonSU, "nig": NormalInverseGaussian}


def _params(d):
    return {k: float(getattr(d, k)) for k in ("a_", "b_", "dof_", "loc_", "scale_") if hasattr(d, k)}


def logpdf(kind, p, x):
    """Closed-form log density of each family."""
    z = (np.asarray(x, float) - p["loc_"]) / p["scale_"]
    ls = np.log(p["scale_"])
    if kind == "gaussian":
        return -0.5 * z**2 - 0.5 * np.log(2 * np.pi) - ls
    if kind == "student":
        v = p["dof_"]
        return -sp.betaln(v / 2, 0.5) - 0.5 * np.log(v) - (v + 1) / 2 * np.log1p(z**2 / v) - ls
    a, b = p["a_"], p["b_"]
    if kind == "johnson":
        t = a + b * np.arcsinh(z)
        return np.log(b) - 0.5 * np.log1p(z**2) - 0.5 * t**2 - 0.5 * np.log(2 * np.pi) - ls
    q = np.sqrt(1 + z**2)
    return np.log(a) + np.log(sp.k1e(a * q)) - a * q - np.log(np.pi) - np.log(q) + np.sqrt(a * a - b * b) + b * z - ls


def cdf(kind, p, x):
    z = (np.asarray(x, float) - p["loc_"]) / p["scale_"]
    if kind == "gaussian":
        return sp.ndtr(z)
    if kind == "student":
        return sp.stdtr(p["dof_"], z)
    if kind == "johnson":
        return sp.ndtr(p["a_"] + p["b_"] * np.arcsinh(z))
    q = dict(p, loc_=0.0, scale_=1.0)
    mid = p["b_"] / np.sqrt(p["a_"] ** 2 - p["b_"] ** 2)
    f = lambda t: np.exp(logpdf(kind, q, t))
    low = si.quad(f, -np.inf, mid, limit=200)[0]
    return np.array([low + si.quad(f, mid, v, limit=200)[0] for v in np.ravel(z)]).reshape(np.shape(z))


def _sample(rng, n=None):
    n = int(n or rng.choice([15, 40, 90, 200]) if rng.random() < 0.97 else rng.integers(600, 1500))
    k = str(rng.choice(["normal", "t", "skew", "mix", "shift"]))
    r = {
        "normal": lambda: rng.logistic(size=n),
        "t": lambda: rng.standard_t(4, n),
        "skew": lambda: rng.gamma(3.0, 1.0, n) - 3,
        "mix": lambda: np.where(rng.random(n) < 0.8, rng.normal(size=n), rng.normal(-1, 3, n)),
        "shift": lambda: rng.normal(2.0, 1.0, n),
    }[k]()
    return r * 10 ** rng.uniform(-3, -1), k


def _fitted(ctx, kinds=("gaussian", "student", "johnson", "nig"), p=None, n=None):
    rng = ctx.rng
    r, shape = _sample(rng, n)
    kind = str(rng.choice(list(kinds), p=p))
    kw = {}
    fix = rng.random()
    if fix < 0.25:
        kw["loc"] = float(rng.choice([0.0, np.median(r), 0.001]))
    elif fix < 0.4:
        kw["scale"] = float(r.std() * rng.uniform(0.6, 1.5))
    elif fix < 0.5 and kind == "student":
        kw = dict(loc=float(np.median(r)), scale=float(r.std()))
    X = r.reshape(-1, 1)
    est = FAMILIES[kind](random_state=int(rng.integers(1000)), **kw)
    ctx.note(kind=kind, data=shape, n=len(r), fixed=kw)
    est.fit(pd.DataFrame(X, columns=["x"]) if rng.random() < 0.3 else X)
    p = _params(est)
    ctx.check("finite parameters", all(np.isfinite(v) for v in p.values()) and p["scale_"] > 0, params=p)
    for k, v in kw.items():
        ctx.close("fixed parameter kept", p[k + "_"], v, 1e-12, 0, which=k)
    # shape parameters without a finite optimum run away: the density is then only known to few digits
    if p.get("dof_", 1.0) > 1e3 or max(abs(p.get("a_", 0.0)), p.get("b_", 0.0)) > 30 or not 0.02 < p["scale_"] / r.std() < 50:
        raise Skip("runaway fit")
    return est, kind, p, r, X, kw


@scenario("C32", quick=700, thorough=6000)
def fits(ctx):
    rng = ctx.rng
    est, kind, p, r, X, kw = _fitted(ctx, p=[0.25, 0.3, 0.25, 0.2])
    names = {"gaussian": ["loc_", "scale_"], "student": ["dof_", "loc_", "scale_"]}.get(kind, ["a_", "b_", "loc_", "scale_"])
    ctx.equal("parameters of the family", sorted(p), sorted(names))
    ll = logpdf(kind, p, r).sum()
    if kind == "gaussian":
        loc = kw.get("loc", r.mean())
        ctx.close("Gaussian location", p["loc_"], loc, 1e-10, 1e-14)
        ctx.close("Gaussian scale", p["scale_"], kw.get("scale", np.sqrt(np.mean((r - loc) ** 2))), 1e-10, 1e-14)
    else:
        model = {"student": st.t, "johnson": st.johnsonsu, "nig": st.norminvgauss}[kind]
        ref = model.fit(r, **{"f" + k: v for k, v in kw.items()})
        ctx.check("likelihood at least the reference fit", ll >= model.logpdf(r, *ref).sum() - 0.5, got=ll, want=model.logpdf(r, *ref).sum())
    x = np.concatenate([rng.choice(r, 4), p["loc_"] + p["scale_"] * np.array([-5.0, -1.0, 0.0, 0.5, 4.0])])
    x = x[logpdf(kind, p, x) > -500]
    want = logpdf(kind, p, x)
    ctx.close("log density", est.score_samples(x.reshape(-1, 1)), want, 1e-7, 1e-7)
    ctx.close("score", est.score(X), ll, 1e-8, 1e-7)
    k = len(p)
    ctx.equal("number of parameters", est.n_params, k)
    ctx.close("aic", est.aic(X), 2 * k - 2 * ll, 1e-8, 1e-7)
    ctx.close("bic", est.bic(X), k * np.log(len(r)) - 2 * ll, 1e-8, 1e-7)
    Y = x.reshape(-1, 1)
    ctx.close("aic of other data", est.aic(Y), 2 * k - 2 * want.sum(), 1e-7, 1e-6)
    ctx.close("bic of other data", est.bic(Y), k * np.log(len(x)) - 2 * want.sum(), 1e-7, 1e-6)
    ctx.check("representation", type(est).__name__ in est.fitted_repr, got=est.fitted_repr)
    ctx.state(r, kind, sorted(kw))


@scenario("C32", quick=600, thorough=5000)
def functions(ctx):
    rng = ctx.rng
    est, kind, p, r, X, kw = _fitted(ctx, p=[0.25, 0.3, 0.3, 0.15], n=int(rng.choice([15, 40, 90])))
    u = np.sort(np.concatenate([rng.random(4), [0.5, 0.01, 0.99]]))
    try:
        x = np.array(est.ppf(u.reshape(-1, 1))).ravel()
    except RuntimeError:
        # root search of the underlying distribution on extreme parameters
        raise Skip("no quantile found") from None
    ctx.check("quantiles increase", (np.diff(x) >= 0).all(), x=x)
    c = np.array(est.cdf(x.reshape(-1, 1))).ravel()
    ctx.close("cumulative probability of a quantile", c, u, 1e-6, 1e-6)
    y = np.sort(np.concatenate([rng.choice(r, 3), p["loc_"] + p["scale_"] * np.array([-2.0, 0.3, 2.5])]))
    got = np.array(est.cdf(y.reshape(-1, 1))).ravel()
    ctx.close("cumulative probability", got, cdf(kind, p, y), 1e-6, 1e-6)
    ctx.check("within the unit interval", (got >= -1e-12).all() and (got <= 1 + 1e-12).all(), got=got - 1, y=y, params=p)
    ctx.equal("shape kept", np.shape(est.cdf(y.reshape(-1, 1))), (len(y), 1))
    # the density is the derivative of the distribution function
    h = 1e-4 * p["scale_"]
    num = (np.array(est.cdf(x[:, None] + h)) - np.array(est.cdf(x[:, None] - h))).ravel() / (2 * h)
    dens = np.exp(est.score_samples(x.reshape(-1, 1)))
    ctx.close("density is the derivative", num * p["scale_"], dens * p["scale_"], 2e-4, 2e-5)
    ctx.state(r, kind, u)


@scenario("C32", quick=350, thorough=3000)
def samples(ctx):
    rng = ctx.rng
    est, kind, p, r, X, kw = _fitted(ctx, ("gaussian", "student", "johnson", "nig"), [0.3, 0.3, 0.3, 0.1], n=int(rng.choice([15, 40, 90])))
    n = 400 if kind == "nig" else 3000
    S = est.sample(n)
    ctx.equal("sample shape", S.shape, (n, 1))
    ctx.equal("one sample by default", est.sample().shape, (1, 1))
    ctx.equal("same seed, same sample", est.sample(n), S)
    est.random_state = int(est.random_state) + 1
    T = est.sample(n)
    ctx.check("another seed, another sample", not np.array_equal(S, T))
    for Z in (S, T):
        if kind == "nig":
            ctx.check("samples follow the distribution", st.kstest(Z.ravel()[:60], lambda v: cdf(kind, p, v)).pvalue > 1e-8)
        else:
            ctx.check("samples follow the distribution", st.kstest(Z.ravel(), lambda v: cdf(kind, p, v)).pvalue > 1e-8, kind=kind)
    ctx.state(r, kind)


@scenario("C32", quick=250, thorough=2000)
def plots(ctx):
    rng = ctx.rng
    est, kind, p, r, X, kw = _fitted(ctx, ("gaussian", "student", "johnson"), [0.3, 0.35, 0.35])
    fig = est.qq_plot(X)
    n = len(r)
    q = (np.arange(1, n + 1) - 0.5) / n
    ctx.close("sample quantiles", np.array(fig.data[0].y, float), np.sort(r), 1e-12, 0)
    ctx.close("theoretical quantiles", cdf(kind, p, np.array(fig.data[0].x, float)), q, 1e-6, 1e-7)
    # the reference is the identity line
    ctx.close("identity line", np.array(fig.data[1].x, float), np.array(fig.data[1].y, float), 1e-12, 0)
    span = [min(fig.data[0].x[0], r.min()), max(fig.data[0].x[-1], r.max())]
    ctx.close("identity line spans both samples", np.sort(np.array(fig.data[1].x, float)), np.array(span, float), 1e-9, 1e-12)
    with_x = bool(rng.random() < 0.5)
    fig = est.plot_pdf(X if with_x else None)
    ctx.equal("number of curves", len(fig.data), 2 if with_x else 1)
    c = fig.data[-1]
    x, y = np.array(c.x, float).ravel(), np.array(c.y, float).ravel()
    ctx.close("density curve", y, np.exp(logpdf(kind, p, x)), 1e-7, 1e-9)
    ctx.check("curve covers the distribution", cdf(kind, p, x[0]) < 0.01 and cdf(kind, p, x[-1]) > 0.99)
    if with_x:
        k = fig.data[0]
        ctx.close("kernel density", np.array(k.y, float).ravel(), st.gaussian_kde(r)(np.array(k.x, float).ravel()), 1e-7, 1e-9)
    ctx.state(r, kind)


@scenario("C32", quick=300, thorough=3000)
def selection(ctx):
    rng = ctx.rng
    r, shape = _sample(rng, int(rng.choice([40, 90, 200])))
    X = r.reshape(-1, 1)
    crit = SelectionCriterion.AIC if rng.random() < 0.5 else SelectionCriterion.BIC
    default = bool(rng.random() < 0.3)
    if default:
        kinds = ["gaussian", "student", "johnson"]
        cands = None
    else:
        kinds = [str(k) for k in rng.permutation(["gaussian", "student", "johnson", "nig", "gaussian"])[: int(rng.integers(1, 5))]]
        cands = []
        for k in kinds:
            kw = {"loc": float(rng.choice([0.0, np.median(r)]))} if rng.random() < 0.3 else {}
            cands.append(FAMILIES[k](**kw))
    ctx.note(data=shape, n=len(r), candidates=kinds, criterion=str(crit), default=default)
    got = select_univariate_dist(pd.DataFrame(X) if rng.random() < 0.3 else X, **({} if cands is None else {"distribution_candidates": cands}), selection_criterion=crit)
    vals = []
    for k, c in zip(kinds, cands or [FAMILIES[k]() for k in kinds]):
        f = FAMILIES[k](**c.get_params()).fit(X)
        p = _params(f)
        ll = logpdf(k, p, r).sum()
        vals.append((2 * len(p) if crit == SelectionCriterion.AIC else np.log(len(r)) * len(p)) - 2 * ll)
    vals = np.array(vals)
    if not np.isfinite(vals).all():
        raise Skip("degenerate candidate")
    best = vals.min()
    own = {v: k for k, v in FAMILIES.items()}[type(got)]
    p = _params(got)
    val = (2 if crit == SelectionCriterion.AIC else np.log(len(r))) * len(p) - 2 * logpdf(own, p, r).sum()
    ctx.close("best criterion", val, best, 1e-7, 1e-3, got_kind=own, all=vals)
    ctx.check("one of the candidates", own in kinds)
    if cands is not None:
        ctx.check("candidates stay unfitted", not any(hasattr(c, "loc_") for c in cands))
        ctx.check("a new object", all(got is not c for c in cands))
    ctx.refused("candidate of another kind", lambda: select_univariate_dist(X, distribution_candidates=[Gaussian(), object()]), (ValueError,))
    ctx.refused("two columns refused", lambda: select_univariate_dist(np.hstack([X, X])), (ValueError,))
    ctx.refused("vector refused", lambda: select_univariate_dist(r), (ValueError,))
    ctx.state(r, kinds, str(crit))


@scenario("C32", quick=40, thorough=200)
def refusals(ctx):
    rng = ctx.rng
    r, _ = _sample(rng, 30)
    X = r.reshape(-1, 1)
    k = str(rng.choice(list(FAMILIES)))
    F = FAMILIES[k]
    ctx.note(kind=k)
    ctx.refused("two columns", lambda: F().fit(np.hstack([X, X])), (ValueError,))
    ctx.refused("missing value", lambda: F().fit(np.vstack([X, [[np.nan]]])), (ValueError,))
    if k != "student":
        ctx.refused("nothing left to fit", lambda: F(loc=0.0, scale=0.01).fit(X), (ValueError,))
    for call in (lambda: F().sample(3), lambda: F().cdf(X), lambda: F().ppf(np.full((2, 1), 0.5))):
        ctx.refused("unfitted", call)
    if k in ("gaussian", "student"):
        est = F().fit(X)
        ctx.refused("scoring two columns", lambda: est.score_samples(np.hstack([X, X])), (ValueError,))
    ctx.state(r, k)
