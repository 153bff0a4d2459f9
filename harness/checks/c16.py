"""C16: naive allocations and random weights."""

import numpy as np
from sklearn.base import clone

import gens
from core import rule, scenario

from skfolio.moments import EWCovariance, EmpiricalCovariance, LedoitWolf, GerberCovariance, OAS
from skfolio.optimization import EqualWeighted, InverseVolatility, Random
from skfolio.prior import EmpiricalPrior, FactorModel
from skfolio.utils.stats import rand_weights, rand_weights_dirichlet

rule("C16", "one state per fitted (market, estimator)")


def _data(rng):
    m = int(rng.choice([1, 2, 3, 5, 8, 20, 50]))
    n = int(rng.integers(max(12, m + 3), m + 60))
    A = gens.market(rng, n, m)
    if m > 1 and rng.random() < 0.2:
        A[:, int(rng.integers(m))] *= float(rng.choice([1e-4, 1e-2, 30.0]))
    return (gens.frame(rng, A) if rng.random() < 0.5 else A), A


@scenario("C16", quick=300, thorough=4000)
def equal_and_random(ctx):
    rng = ctx.rng
    X, A = _data(rng)
    m = A.shape[1]
    ctx.note(shape=A.shape)
    ctx.state(A)
    e = EqualWeighted().fit(X)
    ctx.close("equal weights", e.weights_, np.full(m, 1 / m), 1e-12, 0)
    p = e.predict(X)
    ctx.close("equal-weighted returns", p.returns, A.mean(axis=1), 1e-9, 1e-14)
    r = Random().fit(X)
    w = np.asarray(r.weights_)
    ctx.check("random weights are non-negative", w.shape == (m,) and np.all(w >= 0), w=w)
    ctx.close("random weights sum to one", w.sum(), 1.0, 1e-9, 0)
    ctx.close("random returns", r.predict(X).returns, A @ w, 1e-9, 1e-14)
    if m >= 3:
        w2 = np.asarray(Random().fit(X).weights_)
        ctx.check("random weights vary", np.abs(w - w2).max() > 1e-12)


@scenario("C16", quick=300, thorough=4000)
def inverse_volatility(ctx):
    rng = ctx.rng
    X, A = _data(rng)
    n, m = A.shape
    kinds = ["default", "emp", "lw", "oas", "ew", "gerber"]
    if m == 1:
        kinds = ["default", "emp"]
    k = str(rng.choice(kinds))
    est = {
        "emp": lambda: EmpiricalCovariance(window_size=int(rng.integers(5, n))),
        "lw": LedoitWolf,
        "oas": OAS,
        "ew": lambda: EWCovariance(alpha=0.1),
        "gerber": GerberCovariance,
    }
    prior = None if k == "default" else EmpiricalPrior(covariance_estimator=est[k]())
    ctx.note(kind=k, shape=A.shape)
    ctx.state(A, k)
    w = np.asarray(InverseVolatility(prior_estimator=prior).fit(X).weights_)
    if k == "default":
        vol = A.std(axis=0, ddof=1)
    elif k == "emp":
        vol = A[-prior.covariance_estimator.window_size :].std(axis=0, ddof=1)
    else:
        cov = np.atleast_2d(clone(prior).fit(X).prior_model_.covariance)
        vol = np.sqrt(np.diag(cov))
    iv = 1 / vol
    ctx.close("inverse volatility weights", w, iv / iv.sum(), 1e-7, 1e-12)
    ctx.close("sum to one", w.sum(), 1.0, 1e-9, 0)


@scenario("C16", quick=60, thorough=600)
def inverse_volatility_factor(ctx):
    """Under a factor-model prior the volatility is the one of the factor model."""
    rng = ctx.rng
    n, m, k = 80, int(rng.integers(2, 6)), 2
    F = rng.normal(0, 0.01, (n, k))
    A = F @ rng.normal(1, 0.5, (k, m)) + rng.normal(0, 0.004, (n, m))
    X = gens.frame(rng, A)
    ctx.note(m=m)
    ctx.state(A)
    prior = FactorModel()
    w = InverseVolatility(prior_estimator=prior).fit(X, F).weights_
    cov = FactorModel().fit(X, F).prior_model_.covariance
    iv = 1 / np.sqrt(np.diag(cov))
    ctx.close("inverse volatility under the factor model", w, iv / iv.sum(), 1e-7, 1e-12)


@scenario("C16", quick=300, thorough=4000)
def random_weights(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 5, 10, 40]))
    z = int(rng.integers(0, n))
    ctx.note(n=n, zeros=z)
    w = rand_weights(n=n, zeros=z)
    ctx.check("one weight per asset", np.shape(w) == (n,))
    ctx.check("non-negative", np.all(np.asarray(w) >= 0), w=w)
    ctx.close("sum to one", np.sum(w), 1.0, 1e-9, 0)
    ctx.equal("exact number of zero weights", int(np.sum(np.asarray(w) == 0)), z)
    d = rand_weights_dirichlet(n=n)
    ctx.check("dirichlet weights", np.shape(d) == (n,) and np.all(d >= 0) and abs(np.sum(d) - 1) < 1e-9)
    ctx.refused("more zeros than weights", lambda: rand_weights(n=n, zeros=n + 1))
    ctx.state(n, z, np.asarray(w))


@scenario("C16", quick=8, thorough=60)
def uniform_on_the_simplex(ctx):
    """Random allocations are spread evenly over all allocations."""
    rng = ctx.rng
    n = int(rng.choice([2, 3, 5]))
    X = gens.market(rng, 12, n)
    ctx.note(n=n)
    if ctx.index % 2:
        W = np.array([Random().fit(X).weights_ for _ in range(1500)])
    else:
        W = np.array([rand_weights_dirichlet(n=n) for _ in range(4000)])
    # P(w > t) = (1 - t) ** (n - 1) for each asset
    for t in (0.05, 0.3, 0.6):
        p = (1 - t) ** (n - 1)
        sd = np.sqrt(p * (1 - p) / len(W))
        ctx.check("share of large weights", np.all(np.abs((W > t).mean(axis=0) - p) < 6 * sd + 1e-3), t=t, got=(W > t).mean(axis=0), expected=p)
    ctx.state(n, W[:5])
