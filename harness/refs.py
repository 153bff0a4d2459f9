"""Independent reference definitions.

Nothing here imports the library under test.  Measures are written as plain sums over
sorted or unsorted observations, straight from their textbook definitions.
"""

from __future__ import annotations

import math

import numpy as np
from scipy.special import logsumexp


# -- return measures -------------------------------------------------------------------
def mean(r):
    return math.fsum(r) / len(r)


def _mar(r, mar):
    return mean(r) if mar is None else mar


def mad(r, mar=None):
    m = _mar(r, mar)
    return math.fsum(abs(x - m) for x in r) / len(r)


def flpm(r, mar=None):
    m = _mar(r, mar)
    return math.fsum(max(m - x, 0.0) for x in r) / len(r)


def variance(r):
    m = mean(r)
    return math.fsum((x - m) ** 2 for x in r) / (len(r) - 1)


def semi_variance(r, mar=None):
    m = _mar(r, mar)
    return math.fsum(max(m - x, 0.0) ** 2 for x in r) / (len(r) - 1)


def std(r):
    return math.sqrt(variance(r))


def semi_dev(r, mar=None):
    return math.sqrt(semi_variance(r, mar))


def central_moment(r, p):
    m = mean(r)
    return math.fsum((x - m) ** p for x in r) / len(r)


def skew(r):
    return central_moment(r, 3) / std(r) ** 3


def kurtosis(r):
    return central_moment(r, 4) / std(r) ** 4


def fourth_lpm(r, mar=None):
    m = _mar(r, mar)
    return math.fsum(max(m - x, 0.0) ** 4 for x in r) / len(r)


def worst(r):
    return max(-x for x in r)


def var_candidates(r, beta):
    """Values accepted as the value at risk.

    The loss exceeded with probability at most 1-beta: the ceil((1-beta)n)-th smallest
    return.  When (1-beta)n is an integer up to rounding, the two adjacent order
    statistics are both quantiles and rounding decides.
    """
    s = sorted(r)
    n = len(s)
    k = (1 - beta) * n
    ks = {max(1, math.ceil(k))}
    near = round(k)
    if abs(k - near) < 1e-9 and not (k == near and float(beta * 1024).is_integer()):
        ks |= {max(1, near), min(n, near + 1)}
    return [-s[min(n, i) - 1] for i in ks]


def cvar(r, beta):
    """Average of the worst (1-beta) fraction of the losses (fractional last atom)."""
    losses = sorted((-x for x in r), reverse=True)
    n = len(losses)
    k = (1 - beta) * n
    tot, left = [], k
    for x in losses:
        w = min(1.0, left)
        if w <= 0:
            break
        tot.append(w * x)
        left -= w
    return math.fsum(tot) / k


def entropic(r, theta, beta):
    losses = -np.asarray(r, float)
    n = len(losses)
    return theta * (logsumexp(losses / theta) - math.log(n) - math.log(1 - beta))


def evar(r, beta):
    """Infimum over theta > 0 of the entropic risk (convex in theta); returns (value, theta)."""
    r = np.asarray(r, float)
    if np.ptp(r) == 0:
        return -r[0], 0.0
    s = float(np.ptp(r))
    lo, hi = math.log(s * 1e-5), math.log(s * 1e5)
    g = (math.sqrt(5) - 1) / 2
    a, b = hi - g * (hi - lo), lo + g * (hi - lo)
    fa, fb = entropic(r, math.exp(a), beta), entropic(r, math.exp(b), beta)
    for _ in range(90):
        if fa < fb:
            hi, b, fb = b, a, fa
            a = hi - g * (hi - lo)
            fa = entropic(r, math.exp(a), beta)
        else:
            lo, a, fa = a, b, fb
            b = lo + g * (hi - lo)
            fb = entropic(r, math.exp(b), beta)
    t = math.exp((lo + hi) / 2)
    return entropic(r, t, beta), t


def evar_range(r, beta):
    """Accepted interval for the entropic value at risk.

    The published implementation searches theta above 1% of the largest loss; below that the
    measure is within 1% * log(.) of the worst realization.  The interval spans the true
    infimum and the value at that smallest theta.
    """
    r = np.asarray(r, float)
    v, t = evar(r, beta)
    big = float(np.max(np.abs(r)))
    if big == 0:
        return v, v
    ml = float(np.max(-r))
    tb = (ml if ml > 0 else big) / 100
    up = v if t >= tb else entropic(r, tb, beta)
    # the published search stops on an absolute tolerance: tiny series are resolved less finely
    tol = 2e-5 * big if big > 1e-4 else 2e-3 * big if big > 1e-5 else 0.05 * big if big > 1e-6 else big
    return v - tol, max(up, v) + tol


def cumulative(r, compounded):
    out, acc = [], 1000.0 if compounded else 0.0
    for x in r:
        acc = acc * (1 + x) if compounded else acc + x
        out.append(acc)
    return np.array(out)


def drawdowns(r, compounded):
    c = cumulative(r, compounded)
    out, peak = [], -math.inf
    for x in c:
        peak = max(peak, x)
        out.append(x / peak - 1 if compounded else x - peak)
    return np.array(out)


def ulcer(dd):
    return math.sqrt(math.fsum(x * x for x in dd) / len(dd))


def gmd(r):
    """Mean absolute difference over all ordered pairs of distinct observations."""
    r = np.asarray(r, float)
    n = len(r)
    return float(np.abs(r[:, None] - r[None, :]).sum() / (n * (n - 1)))


# names: measure attribute -> function(returns, params)
def portfolio_measure(name, r, p):
    """Value of a portfolio measure attribute from its returns and parameters.

    ``p`` holds: annualized_factor, risk_free_rate, compounded, min_acceptable_return and the
    betas.  Entropic value/drawdown at risk and value at risk are given as sets/intervals by
    the callers; here the central value is returned.
    """
    r = [float(x) for x in r]
    af, rf, mar = p["annualized_factor"], p["risk_free_rate"], p["min_acceptable_return"]
    if name.startswith("annualized_"):
        base = name[len("annualized_"):]
        if base in ("sharpe_ratio", "sortino_ratio"):
            risk = "standard_deviation" if base == "sharpe_ratio" else "semi_deviation"
            return (portfolio_measure("annualized_mean", r, p) - rf) / portfolio_measure(
                "annualized_" + risk, r, p
            )
        v = portfolio_measure(base, r, p)
        return v * (af if base in ("mean", "variance", "semi_variance") else math.sqrt(af))
    if name in RATIO_RISK:
        return (mean(r) - rf) / portfolio_measure(RATIO_RISK[name], r, p)
    if name in ("drawdown_at_risk", "max_drawdown", "average_drawdown", "cdar", "edar", "ulcer_index"):
        dd = drawdowns(r, p["compounded"])
        return {
            "drawdown_at_risk": lambda: var_candidates(dd, p["drawdown_at_risk_beta"])[0],
            "max_drawdown": lambda: -min(dd),
            "average_drawdown": lambda: -math.fsum(dd) / len(dd),
            "cdar": lambda: cvar(dd, p["cdar_beta"]),
            "edar": lambda: evar(dd, p["edar_beta"])[0],
            "ulcer_index": lambda: ulcer(dd),
        }[name]()
    return {
        "mean": lambda: mean(r),
        "variance": lambda: variance(r),
        "semi_variance": lambda: semi_variance(r, mar),
        "standard_deviation": lambda: std(r),
        "semi_deviation": lambda: semi_dev(r, mar),
        "mean_absolute_deviation": lambda: mad(r, mar),
        "first_lower_partial_moment": lambda: flpm(r, mar),
        "fourth_central_moment": lambda: central_moment(r, 4),
        "fourth_lower_partial_moment": lambda: fourth_lpm(r, mar),
        "skew": lambda: skew(r),
        "kurtosis": lambda: kurtosis(r),
        "worst_realization": lambda: worst(r),
        "value_at_risk": lambda: var_candidates(r, p["value_at_risk_beta"])[0],
        "cvar": lambda: cvar(r, p["cvar_beta"]),
        "evar": lambda: evar(r, p["evar_beta"])[0],
        "entropic_risk_measure": lambda: entropic(
            r, p["entropic_risk_measure_theta"], p["entropic_risk_measure_beta"]
        ),
        "gini_mean_difference": lambda: gmd(r),
    }[name]()


RATIO_RISK = {
    "sharpe_ratio": "standard_deviation",
    "sortino_ratio": "semi_deviation",
    "mean_absolute_deviation_ratio": "mean_absolute_deviation",
    "first_lower_partial_moment_ratio": "first_lower_partial_moment",
    "value_at_risk_ratio": "value_at_risk",
    "cvar_ratio": "cvar",
    "entropic_risk_measure_ratio": "entropic_risk_measure",
    "evar_ratio": "evar",
    "worst_realization_ratio": "worst_realization",
    "drawdown_at_risk_ratio": "drawdown_at_risk",
    "cdar_ratio": "cdar",
    "calmar_ratio": "max_drawdown",
    "average_drawdown_ratio": "average_drawdown",
    "edar_ratio": "edar",
    "ulcer_index_ratio": "ulcer_index",
    "gini_mean_difference_ratio": "gini_mean_difference",
}
RISKS = [
    "variance", "annualized_variance", "semi_variance", "annualized_semi_variance",
    "standard_deviation", "annualized_standard_deviation", "semi_deviation",
    "annualized_semi_deviation", "mean_absolute_deviation", "first_lower_partial_moment",
    "fourth_central_moment", "fourth_lower_partial_moment", "skew", "kurtosis",
    "worst_realization", "value_at_risk", "cvar", "evar", "entropic_risk_measure",
    "drawdown_at_risk", "max_drawdown", "average_drawdown", "cdar", "edar", "ulcer_index",
    "gini_mean_difference",
]
PERFS = ["mean", "annualized_mean"]
RATIOS = list(RATIO_RISK) + ["annualized_sharpe_ratio", "annualized_sortino_ratio"]
ALL_MEASURES = PERFS + RISKS + RATIOS
LOOSE = {"evar", "edar", "evar_ratio", "edar_ratio"}
QUANTILE = {"value_at_risk", "drawdown_at_risk", "value_at_risk_ratio", "drawdown_at_risk_ratio"}
PARAM_DEFAULTS = dict(
    annualized_factor=252,
    risk_free_rate=0,
    compounded=False,
    min_acceptable_return=None,
    value_at_risk_beta=0.95,
    entropic_risk_measure_theta=1,
    entropic_risk_measure_beta=0.95,
    cvar_beta=0.95,
    evar_beta=0.95,
    drawdown_at_risk_beta=0.95,
    cdar_beta=0.95,
    edar_beta=0.95,
)


def measure_ok(name, got, r, p, rtol=1e-7):
    """Does a portfolio measure attribute agree with its definition?"""
    if not np.isscalar(got) and np.ndim(got) != 0:
        return False, None
    got = float(got)
    r = np.asarray(r, float)
    scale = max(float(np.max(np.abs(r))), 1e-300)
    if name in ("evar", "edar", "evar_ratio", "edar_ratio"):
        src = r if name.startswith("evar") else drawdowns(r, p["compounded"])
        lo, hi = evar_range(src, p[name[:4] + "_beta"])
        if name.endswith("ratio"):
            num = mean(r) - p["risk_free_rate"]
            if lo <= 0 <= hi:
                return True, "undetermined"
            c = sorted([num / lo, num / hi])
            return c[0] - 1e-9 <= got <= c[1] + 1e-9, c
        return lo <= got <= hi, (lo, hi)
    if name in QUANTILE:
        base = name.replace("_ratio", "")
        src = r if base == "value_at_risk" else drawdowns(r, p["compounded"])
        cands = var_candidates(list(map(float, src)), p[base + "_beta"])
        if name.endswith("ratio"):
            num = mean(r) - p["risk_free_rate"]
            if any(abs(c) < 1e-9 * scale for c in cands):
                return True, "degenerate"
            cands = [num / c for c in cands]
            return any(_close(got, c, max(rtol, 1e-6), 1e-9) for c in cands), cands
        return (
            any(_close(got, c, rtol, 1e-11 * scale) for c in cands),
            cands,
        )
    try:
        want = portfolio_measure(name, r, p)
    except (ZeroDivisionError, FloatingPointError):
        return True, "undefined"
    if name in ("skew", "kurtosis") or name in RATIOS:
        # quotients: ill-conditioned when the denominator is rounding noise
        try:
            den = portfolio_measure(
                {"skew": "standard_deviation", "kurtosis": "standard_deviation",
                 "annualized_sharpe_ratio": "standard_deviation",
                 "annualized_sortino_ratio": "semi_deviation"}.get(name) or RATIO_RISK[name], r, p)
        except (ZeroDivisionError, FloatingPointError):
            return True, "undefined"
        if abs(den) < 1e-9 * max(scale, abs(p["risk_free_rate"])):
            return True, "degenerate"
        rt = max(rtol, 1e-13 * scale / abs(den) * 10)
        num_noise = 1e-13 * max(scale, abs(p["risk_free_rate"])) / abs(den)
        return _close(got, want, rt, num_noise * (math.sqrt(p["annualized_factor"]) + 1) + 1e-12), want
    power = {"variance": 2, "semi_variance": 2, "fourth_central_moment": 4,
             "fourth_lower_partial_moment": 4}.get(name.replace("annualized_", ""), 1)
    atol = 1e-12 * scale**power * (p["annualized_factor"] if name.startswith("annualized") else 1) * len(r)
    if name == "entropic_risk_measure":
        atol += 1e-12 * p["entropic_risk_measure_theta"]
    if p["compounded"] and name in ("max_drawdown", "average_drawdown", "cdar", "ulcer_index"):
        atol += 1e-12
    return _close(got, want, rtol, atol), want


def _close(a, b, rtol, atol):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * abs(b)
