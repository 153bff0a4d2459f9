"""C02: portfolio accounting."""

import numpy as np
import pandas as pd

import gens
import refs
from core import Skip, rule, scenario
from ptfgen import BETAS, FAST, MEASURES, as_input, rand_params, rand_portfolio

from skfolio.portfolio import Portfolio

rule("C02", "one state per generated asset table with weights, previous weights, costs and fees")

ZERO = 1e-5


def _describe(ctx, f):
    a = {k: v for k, v in f["args"].items() if k != "X"}
    ctx.note(A=f["A"], cols=f["cols"], **a)
    ctx.state(f["A"], f["w"], f["prev"], f["tc"], f["fee"])


@scenario("C02", quick=700, thorough=9000)
def accounting(ctx):
    rng = ctx.rng
    p, f = rand_portfolio(rng, n=gens.some(rng, 2, 40))
    _describe(ctx, f)
    n, m = f["A"].shape
    s = 1 + np.abs(f["w"]).sum()
    ctx.close("returns", p.returns, f["returns"], 1e-9, 1e-13 * s)
    ctx.close("returns through array protocol", np.asarray(p), f["returns"], 1e-9, 1e-13 * s)
    ctx.equal("observations", np.asarray(p.observations), f["index"])
    ctx.equal("assets", [str(x) for x in p.assets], f["cols"])
    ctx.equal("n_observations", p.n_observations, n)
    ctx.equal("n_assets", p.n_assets, m)
    ctx.close("weights", p.weights, f["w"], 0, 0)
    ctx.close("previous_weights", p.previous_weights, f["prev"], 0, 0)
    ctx.close("total_cost", p.total_cost, f["cost"], 1e-10, 1e-15)
    ctx.close("total_fee", p.total_fee, f["feesum"], 1e-10, 1e-15)
    # series attach every return to its observation
    sr = p.returns_df
    ctx.equal("returns_df index", np.asarray(sr.index), f["index"])
    ctx.close("returns_df", sr.values, f["returns"], 1e-9, 1e-13 * s)
    cr = p.cumulative_returns_df
    ctx.equal("cumulative_returns_df index", np.asarray(cr.index), f["index"])
    ctx.close("cumulative_returns_df", cr.values, refs.cumulative(f["returns"], False), 1e-8, 1e-12 * s)
    # composition
    comp = p.composition
    held = {c: w for c, w in zip(f["cols"], f["w"]) if abs(w) > ZERO}
    ctx.equal("composition assets", sorted(comp.index), sorted(held))
    ctx.equal("composition column", list(comp.columns), [p.name])
    ctx.close("composition weights", [comp.iloc[:, 0][c] for c in sorted(held)], [held[c] for c in sorted(held)], 0, 0)
    ctx.check("composition sorted", np.all(np.diff(comp.iloc[:, 0].values) <= 0), got=comp.iloc[:, 0].values)
    ctx.equal("nonzero assets", [str(x) for x in p.nonzero_assets], [c for c in f["cols"] if c in held])
    ctx.equal("nonzero index", list(p.nonzero_assets_index), [i for i, c in enumerate(f["cols"]) if c in held])
    # weights per observation
    wpo = p.weights_per_observation
    ctx.equal("weights per observation index", np.asarray(wpo.index), f["index"])
    ctx.equal("weights per observation assets", sorted(wpo.columns), sorted(held))
    for c in held:
        ctx.close("weights per observation", wpo[c].values, np.full(n, held[c]), 0, 0)
    for c, w in zip(f["cols"], f["w"]):
        ctx.close("get_weight", p.get_weight(c), w, 0, 0)
    ctx.refused("get_weight of unknown asset", lambda: p.get_weight("no such asset"))
    # scalar summaries
    if np.any(f["w"] != 0):
        ctx.close("effective_number_assets", p.effective_number_assets, 1 / sum(x * x for x in f["w"]), 1e-10, 0)
    sd = refs.std(f["returns"])
    if sd > 1e-9:
        stds = [np.sqrt(sum((x - np.mean(c)) ** 2 for x in c) / n) for c in f["A"].T]
        ctx.close("diversification", p.diversification, sum(a * b for a, b in zip(f["w"], stds)) / sd, 1e-6, 1e-9)
        sh = refs.mean(f["returns"]) / sd
        if abs(sh) > 1e-6:
            ctx.close("sric", p.sric, sh - m / (n * sh), 1e-5, 1e-9)
    mu = rng.normal(size=m)
    B = rng.normal(size=(m, m))
    ctx.close("expected_returns_from_assets", p.expected_returns_from_assets(mu), f["w"] @ mu - f["cost"] - f["feesum"], 1e-9, 1e-12)
    ctx.close("variance_from_assets", p.variance_from_assets(B @ B.T), sum((B.T @ f["w"]) ** 2), 1e-9, 1e-12)


@scenario("C02", quick=120, thorough=2000)
def contributions(ctx):
    """Contribution of every asset to a measure: its weight times the derivative."""
    rng = ctx.rng
    params = rand_params(rng) if rng.random() < 0.6 else {}
    p, f = rand_portfolio(rng, n=gens.some(rng, 10, 40), m=gens.some(rng, 2, 6), params=params)
    _describe(ctx, f)
    full = dict(refs.PARAM_DEFAULTS, **params)
    names = ["mean", "variance", "standard_deviation", "semi_variance", "mean_absolute_deviation",
             "cvar", "sharpe_ratio", "annualized_mean", "gini_mean_difference", "worst_realization",
             "first_lower_partial_moment", "kurtosis", "max_drawdown", "cdar", "average_drawdown", "ulcer_index"]
    name = str(rng.choice(names))
    ctx.note(measure=name)
    default_h = 0.1 if name in ("max_drawdown", "average_drawdown", "cdar") else 1e-5
    h = None if rng.random() < 0.5 else float(rng.choice([1e-4, 1e-3, 0.05]))
    hh = default_h if h is None else h

    if np.ptp(f['returns']) < 1e-9:
        raise Skip('constant returns')

    def value(w):
        r = f["A"] @ w - sum(f["tc"] * np.abs(f["prev"] - w)) - sum(f["fee"] * w)
        return refs.portfolio_measure(name, r, full)

    want = []
    for i in range(len(f["w"])):
        if f["w"][i] == 0:
            want.append(0.0)
            continue
        e = np.zeros(len(f["w"]))
        e[i] = hh
        want.append((value(f["w"] + e) - value(f["w"] - e)) / (2 * hh) * f["w"][i])
    got = p.contribution(MEASURES[name], spacing=h)
    scale = abs(value(f["w"])) + np.max(np.abs(want)) + 1e-6
    ctx.close("contribution", got, want, 1e-5, 1e-13 / hh * scale * 100 + 1e-7 * scale)
    df = p.contribution(MEASURES[name], spacing=h, to_df=True)
    nz = [c for c, w in zip(f["cols"], f["w"]) if w != 0]
    ctx.equal("contribution table assets", sorted(df.index), sorted(nz))
    ctx.equal("contribution table column", list(df.columns), [p.name])
    byname = dict(zip(f["cols"], got))
    ctx.close("contribution table", [df.iloc[:, 0][c] for c in nz], [byname[c] for c in nz], 1e-12, 1e-15)
    ctx.check("contribution table sorted", np.all(np.diff(df.iloc[:, 0].values) <= 0))
    if name in ("mean", "standard_deviation", "variance", "annualized_mean") and f["cost"] == 0 and h is None:
        # Euler: contributions of a homogeneous measure add up to degree times the measure
        deg = 2 if name == "variance" else 1
        ctx.close("Euler sum", sum(got), deg * getattr(p, name), 1e-4, 1e-8 * scale)


@scenario("C02", quick=150, thorough=2000)
def input_forms(ctx):
    """The same holdings given as array, list, mapping or permuted table agree."""
    rng = ctx.rng
    m = gens.some(rng, 2, 7)
    A = gens.market(rng, int(rng.integers(3, 20)), m)
    X = gens.frame(rng, A)
    cols = list(X.columns)
    w, _ = gens.weights(rng, m)
    prev, _ = gens.weights(rng, m)
    tc, fee = rng.uniform(0, 0.01, m), rng.uniform(0, 0.01, m)
    ctx.note(A=A, cols=cols, w=w, prev=prev, tc=tc, fee=fee)
    ctx.state(A, w, prev, tc, fee)
    want = A @ w - sum(tc * abs(prev - w)) - sum(fee * w)
    perm = rng.permutation(m)
    for form in ("array", "list", "dict"):
        kw = {}
        for k, v in (("weights", w), ("previous_weights", prev), ("transaction_costs", tc), ("management_fees", fee)):
            kw[k] = as_input(rng, v, cols, form=form, partial=False)[0]
        ctx.close(f"returns from {form}", Portfolio(X=X, **kw).returns, want, 1e-9, 1e-13)
        if form == "dict":
            ctx.close("mapping on permuted table", Portfolio(X=X.iloc[:, perm], **kw).returns, want, 1e-9, 1e-13)
            # partial mapping: a missing asset counts as zero
            drop = cols[int(rng.integers(m))]
            kw2 = {k: {c: x for c, x in v.items() if c != drop} for k, v in kw.items()}
            z = np.array([0.0 if c == drop else 1.0 for c in cols])
            want2 = A @ (w * z) - sum(tc * z * abs(prev * z - w * z)) - sum(fee * z * w * z)
            ctx.close("partial mapping", Portfolio(X=X, **kw2).returns, want2, 1e-9, 1e-13)
        elif form == "array":
            ctx.close("bare array table", Portfolio(X=A, **kw).returns, want, 1e-9, 1e-13)
    # uniform float inputs
    c = float(rng.uniform(0, 0.01))
    ctx.close("float costs", Portfolio(X=X, weights=w, previous_weights=prev, transaction_costs=c).returns,
              A @ w - c * sum(abs(prev - w)), 1e-9, 1e-13)
    ctx.close("float fees", Portfolio(X=X, weights=w, management_fees=c).returns, A @ w - c * sum(w), 1e-9, 1e-13)
    ctx.close("cost without previous weights", Portfolio(X=X, weights=w, transaction_costs=tc).returns,
              A @ w - sum(tc * abs(w)), 1e-9, 1e-13)


@scenario("C02", quick=80, thorough=800)
def refusals(ctx):
    """Inputs that do not describe a portfolio are refused rather than accounted wrongly."""
    rng = ctx.rng
    m = gens.some(rng, 2, 6)
    A = gens.market(rng, int(rng.integers(3, 12)), m)
    X = gens.frame(rng, A)
    w, _ = gens.weights(rng, m, "long")
    ctx.note(A=A, w=w)
    ctx.state(A, w)
    bad = A.copy()
    j = int(rng.integers(m))
    bad[rng.integers(len(A)), j] = np.nan
    wj = w.copy()
    wj[j] = 0.3
    ctx.refused("NaN in a held asset", lambda: Portfolio(X=bad, weights=wj))
    ctx.refused("too many weights", lambda: Portfolio(X=A, weights=np.append(w, 0.1)))
    ctx.refused("too few weights", lambda: Portfolio(X=A, weights=w[:-1]))
    ctx.refused("wrong number of costs", lambda: Portfolio(X=A, weights=w, transaction_costs=np.ones(m + 1)))
    ctx.refused("wrong number of fees", lambda: Portfolio(X=A, weights=w, management_fees=np.ones(m - 1) if m > 2 else np.ones(5)))
    ctx.refused("wrong number of previous weights", lambda: Portfolio(X=A, weights=w, previous_weights=np.ones(m + 2)))
    ctx.refused("one-dimensional table", lambda: Portfolio(X=A[:, 0], weights=[1.0]))
    ctx.refused("mapping without names", lambda: Portfolio(X=A, weights={"a": 1.0}))


@scenario("C02", quick=60, thorough=800)
def summary_table(ctx):
    """Summary entries are the portfolio's own measures under their labels."""
    rng = ctx.rng
    params = rand_params(rng)
    p, f = rand_portfolio(rng, n=gens.some(rng, 10, 40), params=params)
    _describe(ctx, f)
    raw = p.summary(formatted=False)
    txt = p.summary(formatted=True)
    ctx.equal("same labels", list(raw.index), list(txt.index))
    base_of = dict(refs.RATIO_RISK, annualized_sharpe_ratio="x", annualized_sortino_ratio="x")
    n_found = 0
    for name, e in MEASURES.items():
        base = base_of.get(name, name)
        key = str(e)
        if f"{base}_beta" in BETAS:
            key = f"{e} at {params[base + '_beta']:.0%}"
        n_found += 1
        if not ctx.check("summary label", key in raw.index, key=key, labels=list(raw.index)):
            continue
        v = raw[key]
        ok, want = refs.measure_ok(name, v, f["returns"], params)
        ctx.check("summary value", ok, key=key, got=v, want=want)
    ctx.equal("assets number", int(raw["Assets Number"]), f["A"].shape[1])
    ctx.close("effective number", raw["Effective Number of Assets"], 1 / sum(x * x for x in f["w"]), 1e-9, 0)
    for name in FAST[:6]:
        v, s = getattr(p, name), txt[str(MEASURES[name])]
        ctx.check("formatted value", s.endswith("%") and abs(float(s[:-1]) / 100 - v) <= 0.51 * 10 ** -(len(s[:-1].split(".")[1]) if "." in s else 0) / 100 * 1.01, got=s, value=v)
    ctx.equal("labels count", len(raw), n_found + 2)
    md = p.measures_df
    for k in md.index:
        ok, want = refs.measure_ok(k, md.loc[k].iloc[0], f["returns"], params)
        ctx.check("measures_df", ok, key=k, want=want)
