"""C01: every measure equals its definition."""

import numpy as np

import gens
import refs
from core import rule, scenario

import skfolio.measures as sm

rule("C01", "one state per generated return series with its confidence level and parameters")

BETAS = [0.01, 0.05, 0.25, 0.5, 0.75, 0.9, 0.95, 0.975, 0.99, 0.999]


def _beta(rng):
    return float(rng.choice(BETAS) if rng.random() < 0.7 else rng.uniform(0.001, 0.999))


@scenario("C01", quick=1500, thorough=20000)
def definitions(ctx):
    rng = ctx.rng
    r, kind = gens.series(rng)
    n = len(r)
    beta = _beta(rng)
    if rng.random() < 0.3:
        beta = 1 - int(rng.integers(1, n)) / n  # exact number of tail observations
        beta = min(max(beta, 1e-3), 0.9999)
    s = float(np.max(np.abs(r))) or 1.0
    mar = None if rng.random() < 0.4 else float(rng.choice([0.0, rng.normal() * s, float(r[0])]))
    theta = float(s * 10 ** rng.uniform(-1, 2))
    ctx.note(kind=kind, n=n, beta=beta, mar=mar, theta=theta, r=r)
    ctx.state(r, beta, mar)
    r0 = r.copy()
    eps = 1e-12 * s
    C = ctx.close
    C("mean", sm.mean(r), refs.mean(r), 1e-9, eps)
    C("mean_absolute_deviation", sm.mean_absolute_deviation(r, min_acceptable_return=mar), refs.mad(r, mar), 1e-9, eps)
    C("first_lower_partial_moment", sm.first_lower_partial_moment(r, min_acceptable_return=mar), refs.flpm(r, mar), 1e-9, eps)
    C("variance", sm.variance(r), refs.variance(r), 1e-8, eps * s)
    C("semi_variance", sm.semi_variance(r, min_acceptable_return=mar), refs.semi_variance(r, mar), 1e-8, eps * s)
    C("standard_deviation", sm.standard_deviation(r), refs.std(r), 1e-7, 1e-9 * s)
    C("semi_deviation", sm.semi_deviation(r, min_acceptable_return=mar), refs.semi_dev(r, mar), 1e-7, 1e-9 * s)
    C("third_central_moment", sm.third_central_moment(r), refs.central_moment(r, 3), 1e-7, eps * s**2)
    C("fourth_central_moment", sm.fourth_central_moment(r), refs.central_moment(r, 4), 1e-7, eps * s**3)
    C("fourth_lower_partial_moment", sm.fourth_lower_partial_moment(r, min_acceptable_return=mar), refs.fourth_lpm(r, mar), 1e-7, eps * s**3)
    if refs.std(r) > 1e-6 * s:
        C("skew", sm.skew(r), refs.skew(r), 1e-7, 1e-9)
        C("kurtosis", sm.kurtosis(r), refs.kurtosis(r), 1e-7, 1e-9)
    C("worst_realization", sm.worst_realization(r), refs.worst(r), 1e-12, 0)
    v = float(sm.value_at_risk(r, beta=beta))
    cands = refs.var_candidates(r, beta)
    ctx.check("value_at_risk", any(abs(v - c) <= eps for c in cands), got=v, want=cands)
    C("cvar", sm.cvar(r, beta=beta), refs.cvar(r, beta), 1e-8, 1e-10 * s)
    C("entropic_risk_measure", sm.entropic_risk_measure(r, theta=theta, beta=beta), refs.entropic(r, theta, beta), 1e-9, 1e-12 * (s + theta))
    e = float(sm.evar(r, beta=beta))
    lo, hi = refs.evar_range(r, beta)
    ctx.check("evar", lo <= e <= hi, got=e, want=(lo, hi))
    for comp in (False, True):
        c = sm.get_cumulative_returns(r, compounded=comp)
        C("cumulative", c, refs.cumulative(r, comp), 1e-9, 1e-11 * s)
        dd = sm.get_drawdowns(r, compounded=comp)
        ref = refs.drawdowns(r, comp)
        ds = max(float(np.max(np.abs(ref))), s)
        C("drawdowns", dd, ref, 1e-8, 1e-12 * n * ds + 1e-14)
        C("max_drawdown", sm.max_drawdown(ref), -min(ref), 1e-12, 0)
        C("average_drawdown", sm.average_drawdown(ref), -np.sum(ref) / n, 1e-9, 1e-13 * ds)
        C("cdar", sm.cdar(ref, beta=beta), refs.cvar(ref, beta), 1e-8, 1e-10 * ds)
        C("ulcer_index", sm.ulcer_index(ref), refs.ulcer(ref), 1e-9, 1e-12 * ds)
        d = float(sm.drawdown_at_risk(ref, beta=beta))
        cands = refs.var_candidates(list(ref), beta)
        ctx.check("drawdown_at_risk", any(abs(d - x) <= 1e-12 * ds for x in cands), got=d, want=cands)
        e = float(sm.edar(ref, beta=beta))
        lo, hi = refs.evar_range(ref, beta)
        ctx.check("edar", lo <= e <= hi, got=e, want=(lo, hi))
    C("gini_mean_difference", sm.gini_mean_difference(r), refs.gmd(r), 1e-9, 1e-11 * s)
    w, _ = gens.weights(rng, int(rng.integers(1, 9)))
    if np.any(w != 0):
        C("effective_number_assets", sm.effective_number_assets(w), 1 / sum(x * x for x in w), 1e-10, 0)
    ctx.equal("input untouched", r, r0)


@scenario("C01", quick=60, thorough=1200)
def default_arguments(ctx):
    """Defaults: 95% confidence, theta one, target the mean, non-compounded."""
    rng = ctx.rng
    r, kind = gens.series(rng)
    s = float(np.max(np.abs(r))) or 1.0
    ctx.note(kind=kind, r=r)
    ctx.state(r)
    dd = refs.drawdowns(r, False)
    v = float(sm.value_at_risk(r))
    ctx.check("default var", any(abs(v - c) < 1e-12 * s for c in refs.var_candidates(r, 0.95)), got=v)
    ctx.close("default cvar", sm.cvar(r), refs.cvar(r, 0.95), 1e-8, 1e-10 * s)
    ctx.close("default entropic", sm.entropic_risk_measure(r), refs.entropic(r, 1.0, 0.95), 1e-9, 1e-12)
    lo, hi = refs.evar_range(r, 0.95)
    ctx.check("default evar", lo <= float(sm.evar(r)) <= hi, got=sm.evar(r), want=(lo, hi))
    ctx.close("default cdar", sm.cdar(dd), refs.cvar(dd, 0.95), 1e-8, 1e-10 * s)
    lo, hi = refs.evar_range(dd, 0.95)
    ctx.check("default edar", lo <= float(sm.edar(dd)) <= hi, got=sm.edar(dd), want=(lo, hi))
    d = float(sm.drawdown_at_risk(dd))
    ctx.check("default dar", any(abs(d - c) < 1e-12 * s * len(r) for c in refs.var_candidates(list(dd), 0.95)), got=d)
    ctx.close("default drawdowns", sm.get_drawdowns(r), dd, 1e-8, 1e-12 * s * len(r))
    ctx.close("default mad", sm.mean_absolute_deviation(r), refs.mad(r), 1e-9, 1e-12 * s)
    ctx.close("default semi variance", sm.semi_variance(r), refs.semi_variance(r), 1e-8, 1e-12 * s * s)
    ctx.close("default flpm", sm.first_lower_partial_moment(r), refs.flpm(r), 1e-9, 1e-12 * s)
    ctx.close("default flpm4", sm.fourth_lower_partial_moment(r), refs.fourth_lpm(r), 1e-7, 1e-12 * s**4)


@scenario("C01", quick=300, thorough=5000)
def relations(ctx):
    """Ordering, monotonicity, scaling and translation."""
    rng = ctx.rng
    r, kind = gens.series(rng, n=int(rng.integers(5, 80)))
    n = len(r)
    s = float(np.max(np.abs(r))) or 1.0
    b1, b2 = sorted([_beta(rng), _beta(rng)])
    ctx.note(kind=kind, n=n, b1=b1, b2=b2, r=r)
    ctx.state(r, b1, b2)
    tol = 1e-9 * s
    etol = 5e-5 * s if s > 1e-3 else 5e-3 * s
    slack = 0.02 * s * np.log(1 / (1 - 0.9999))
    dd = sm.get_drawdowns(r)
    ds = max(float(np.max(np.abs(dd))), s)
    for tag, x, var, cvar, evar, worst in (
        ("returns", r, sm.value_at_risk, sm.cvar, sm.evar, sm.worst_realization),
        ("drawdowns", dd, sm.drawdown_at_risk, sm.cdar, sm.edar, sm.max_drawdown),
    ):
        ctx.check(f"{tag}: var<=cvar", var(x, beta=b1) <= cvar(x, beta=b1) + tol)
        ctx.check(f"{tag}: cvar<=evar", cvar(x, beta=b1) <= evar(x, beta=b1) + etol)
        ctx.check(f"{tag}: cvar<=worst", cvar(x, beta=b2) <= worst(x) + tol)
        ctx.check(f"{tag}: var monotone", var(x, beta=b1) <= var(x, beta=b2) + tol)
        ctx.check(f"{tag}: cvar monotone", cvar(x, beta=b1) <= cvar(x, beta=b2) + tol)
        ctx.check(f"{tag}: evar monotone", evar(x, beta=b1) <= evar(x, beta=b2) + etol + slack)
    c, k = float(rng.uniform(0.1, 5)), float(rng.normal() * s)
    for f, p in (
        (sm.standard_deviation, 1), (sm.variance, 2), (sm.mean_absolute_deviation, 1),
        (sm.semi_variance, 2), (sm.semi_deviation, 1), (sm.first_lower_partial_moment, 1),
        (sm.fourth_central_moment, 4), (sm.fourth_lower_partial_moment, 4),
        (sm.gini_mean_difference, 1), (sm.third_central_moment, 3),
    ):
        ctx.close(f"{f.__name__} scales", f(c * r), c**p * f(r), 1e-7, 1e-9 * (c * s) ** p)
        ctx.close(f"{f.__name__} ignores translation", f(r + k), f(r), 1e-6, 1e-9 * (s + abs(k)) ** p)
    for f in (sm.cvar, sm.value_at_risk):
        ctx.close(f"{f.__name__} translates", f(r + k, beta=b1), f(r, beta=b1) - k, 1e-8, 1e-10 * (s + abs(k)))
        ctx.close(f"{f.__name__} scales", f(c * r, beta=b1), c * f(r, beta=b1), 1e-8, 1e-10 * s * c)
    ctx.close("worst translates", sm.worst_realization(r + k), sm.worst_realization(r) - k, 1e-9, 1e-12 * (s + abs(k)))
    ctx.close("mean translates", sm.mean(r + k), sm.mean(r) + k, 1e-9, 1e-12 * (s + abs(k)))
    p = rng.permutation(n)
    for f in (sm.variance, sm.cvar, sm.gini_mean_difference, sm.mean_absolute_deviation, sm.value_at_risk):
        ctx.close(f"{f.__name__} order free", f(r[p]), f(r), 1e-8, 1e-10 * s)
    ctx.check("drawdowns non-positive", np.all(dd <= 1e-12 * ds))


@scenario("C01", quick=120, thorough=2400)
def portfolio_attributes(ctx):
    """The same measures read as attributes of a portfolio with its own parameters."""
    from skfolio.portfolio import BasePortfolio, Portfolio

    rng = ctx.rng
    r, kind = gens.series(rng, n=int(rng.integers(4, 60)))
    p = dict(refs.PARAM_DEFAULTS)
    if rng.random() < 0.8:
        p.update(
            annualized_factor=float(rng.choice([1, 12, 52, 252, 255.5])),
            risk_free_rate=float(rng.choice([0, 0.001, -0.002])),
            compounded=bool(rng.random() < 0.5),
            min_acceptable_return=None if rng.random() < 0.4 else float(rng.normal() * 0.01),
            entropic_risk_measure_theta=float(10 ** rng.uniform(-1, 1)),
        )
        for k in list(p):
            if k.endswith("beta"):
                p[k] = _beta(rng)
    ctx.note(kind=kind, r=r, p=p)
    ctx.state(r, p)
    if rng.random() < 0.5:
        ptf = BasePortfolio(returns=r, observations=np.arange(len(r)), **p)
    else:
        ptf = Portfolio(X=r[:, None], weights=[1.0], **p)
    for name in rng.permutation(refs.ALL_MEASURES):
        got = getattr(ptf, str(name))
        ok, want = refs.measure_ok(str(name), got, r, p)
        ctx.check(f"attribute {name}", ok, got=got, want=want)
    ctx.close("cumulative_returns", ptf.cumulative_returns, refs.cumulative(r, p["compounded"]), 1e-9, 1e-11)
    ctx.close("drawdowns", ptf.drawdowns, refs.drawdowns(r, p["compounded"]), 1e-8, 1e-11)


@scenario("C01", quick=80, thorough=800)
def wiped_out(ctx):
    """A portfolio losing (nearly) everything once: compounded wealth and drawdowns."""
    rng = ctx.rng
    r, kind = gens.series(rng)
    i = int(rng.integers(1, len(r)))  # wealth is first known after the first return
    loss = float(rng.choice([-1.0, -1.0, -0.9999, -0.99]))
    r[i] = loss
    ctx.note(kind=kind, at=i, loss=loss, n=len(r))
    c = sm.get_cumulative_returns(r, compounded=True)
    ref = refs.cumulative(r, True)
    ctx.close("wealth", c, ref, 1e-9, 1e-10)
    dd = sm.get_drawdowns(r, compounded=True)
    ctx.close("drawdowns", dd, refs.drawdowns(r, True), 1e-8, 1e-10)
    if loss == -1:
        ctx.close("nothing left", c[i:], np.zeros(len(r) - i), 0, 1e-12)
        ctx.close("drawdown of one", dd[i:], -np.ones(len(r) - i), 0, 1e-12)
    ctx.state(r)
