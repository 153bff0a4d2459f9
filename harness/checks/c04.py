"""C04: portfolio arithmetic."""

import math

import numpy as np

import gens
import refs
from core import rule, scenario
from ptfgen import FAST, rand_fitness, rand_params, rand_portfolio

from skfolio.portfolio import MultiPeriodPortfolio, Portfolio

rule("C04", "one state per operator application (operator, operand weights, scalar)")

SETTINGS = [*refs.PARAM_DEFAULTS, "fitness_measures"]
SHARED = ["previous_weights", "transaction_costs", "management_fees"]


def _snapshot(p):
    return dict(w=np.array(p.weights), r=np.array(p.returns), s={k: getattr(p, k) for k in SETTINGS},
                name=p.name, tag=p.tag, sh={k: np.array(getattr(p, k)) for k in SHARED})


def _unchanged(ctx, p, snap):
    ctx.equal("operand weights untouched", np.asarray(p.weights), snap["w"])
    ctx.equal("operand returns untouched", np.asarray(p.returns), snap["r"])
    ctx.equal("operand settings untouched", {k: getattr(p, k) for k in SETTINGS}, snap["s"])
    ctx.equal("operand labels untouched", (p.name, p.tag), (snap["name"], snap["tag"]))


def _result(ctx, res, w, p, f, op):
    w = np.asarray(w, float)
    ctx.check("result is a new portfolio", isinstance(res, Portfolio) and res is not p, op=op)
    ctx.close("result weights", res.weights, w, 1e-12, 1e-15, op=op)
    want = f["A"] @ w - sum(f["tc"] * np.abs(f["prev"] - w)) - sum(f["fee"] * w)
    ctx.close("result returns", res.returns, want, 1e-8, 1e-12 * (1 + np.abs(w).sum()), op=op)
    for k in SETTINGS:
        ctx.equal("result settings", getattr(res, k), getattr(p, k), setting=k, op=op)
    for k in SHARED:
        ctx.equal("result costs and previous weights", np.asarray(getattr(res, k)), np.asarray(getattr(p, k)), setting=k, op=op)
    ctx.equal("result assets", list(res.assets), list(p.assets), op=op)
    ctx.equal("result observations", np.asarray(res.observations), np.asarray(p.observations), op=op)
    ctx.check("result data", res.X is p.X or np.array_equal(np.asarray(res.X), np.asarray(p.X)), op=op)
    params = {k: getattr(p, k) for k in refs.PARAM_DEFAULTS}
    for name in ("mean", "cvar", "max_drawdown", "sortino_ratio"):
        ok, v = refs.measure_ok(name, getattr(res, name), res.returns, params)
        ctx.check("result measures", ok, measure=name, want=v, op=op)


def _scalar(rng):
    v = rng.choice([2, -1, 3, 0.5, -0.25, 1.7, 0.1])
    return int(v) if float(v).is_integer() and rng.random() < 0.5 else (np.float64(v) if rng.random() < 0.3 else float(v))


@scenario("C04", quick=350, thorough=6000)
def single(ctx):
    rng = ctx.rng
    p, f = rand_portfolio(rng, params=rand_params(rng), fitness_measures=rand_fitness(rng), name="p",
                          tag="tag" if rng.random() < 0.5 else None)
    if rng.random() < 0.5:
        p.mean, p.cvar, p.fitness, p.drawdowns  # warm caches must not leak into results
    w2, _ = gens.weights(rng, len(f["w"]))
    q = Portfolio(**dict(f["args"], weights=w2, name="q", tag="other"))
    c = _scalar(rng)
    nd = int(rng.integers(0, 4))
    ctx.note(w=f["w"], w2=w2, c=c, nd=nd, **{k: v for k, v in f["args"].items() if k not in ("X", "weights")})
    ctx.state(f["w"], w2, c, nd)
    sp, sq = _snapshot(p), _snapshot(q)
    w = f["w"]
    for op, res, want in (
        ("neg", -p, -w),
        ("abs", abs(p), np.abs(w)),
        ("round", round(p, nd), np.round(w, nd)),
        ("floor", math.floor(p), np.floor(w)),
        ("trunc", math.trunc(p), np.trunc(w)),
        ("add", p + q, w + w2),
        ("sub", p - q, w - w2),
        ("mul", p * c, w * c),
        ("rmul", c * p if not isinstance(c, np.generic) else float(c) * p, c * w),
        ("div", p / c, w / c),
        ("floordiv", p // c, np.floor(w / c) if float(c) in (0.5, -0.25, 2, -1) else np.array([x // c for x in w])),
    ):
        _result(ctx, res, want, p, f, op)
    ctx.close("chained", (2 * p - q / 2 + p).weights, 3 * w - w2 / 2, 1e-12, 1e-15)
    _unchanged(ctx, p, sp)
    _unchanged(ctx, q, sq)


@scenario("C04", quick=120, thorough=1500)
def refusals(ctx):
    """Different data or settings cannot be combined."""
    rng = ctx.rng
    m = gens.some(rng, 2, 6)
    p, f = rand_portfolio(rng, n=gens.some(rng, 4, 20), m=m, params=rand_params(rng), fitness_measures=rand_fitness(rng, 2))
    base = dict(f["args"])
    which = str(rng.choice(["X", "transaction_costs", "management_fees", "previous_weights", "fitness_measures", *refs.PARAM_DEFAULTS]))
    ch = dict(base)
    if which == "X":
        A = f["A"].copy()
        A[rng.integers(len(A)), rng.integers(m)] += 1e-4
        X = base["X"]
        if hasattr(X, "columns"):
            X = X.copy()
            X.iloc[:, :] = A
        else:
            X = A
        ch["X"] = X
    elif which == "previous_weights":
        v = f["prev"].copy()
        v[rng.integers(m)] += 0.01
        ch[which] = v
    elif which in ("transaction_costs", "management_fees"):
        v = (f["tc"] if which[0] == "t" else f["fee"]).copy()
        v[rng.integers(m)] += 0.003
        ch[which] = v
    elif which == "fitness_measures":
        ch[which] = list(reversed(base[which]))
    elif which == "compounded":
        ch[which] = not base[which]
    elif which == "min_acceptable_return":
        ch[which] = 0.0123 if base[which] is None else base[which] + 0.001
    else:
        ch[which] = base[which] + (0.001 if which != "annualized_factor" else 1)
    q = Portfolio(**ch)
    ctx.note(which=which)
    ctx.state(which, f["w"])
    snap = _snapshot(p)
    ctx.refused("add with different " + which, lambda: p + q, (ValueError, TypeError))
    ctx.refused("subtract with different " + which, lambda: p - q, (ValueError, TypeError))
    for bad in (1, 2.5, "a", None, [1, 2]):
        ctx.refused("add a non portfolio", lambda: p + bad, (TypeError, ValueError))
        ctx.refused("subtract a non portfolio", lambda: p - bad, (TypeError, ValueError))
    for bad in ("a", None, [1, 2], p):
        ctx.refused("multiply by a non number", lambda: p * bad, (TypeError,))
        ctx.refused("divide by a non number", lambda: p / bad, (TypeError,))
        ctx.refused("floor divide by a non number", lambda: p // bad, (TypeError,))
    _unchanged(ctx, p, snap)


@scenario("C04", quick=120, thorough=2000)
def multi_period(ctx):
    rng = ctx.rng
    k = int(rng.integers(1, 5))
    facts, ps, qs, w2s = [], [], [], []
    frame = bool(rng.random() < 0.5)
    for i in range(k):
        p, f = rand_portfolio(rng, n=gens.some(rng, 3, 12), frame=frame, params=rand_params(rng), name=f"p{i}")
        w2, _ = gens.weights(rng, len(f["w"]))
        facts.append(f)
        ps.append(p)
        w2s.append(w2)
        qs.append(Portfolio(**dict(f["args"], weights=w2, name=f"q{i}")))
    fit = rand_fitness(rng, 2)
    P = MultiPeriodPortfolio(portfolios=ps, name="P", tag="T", fitness_measures=fit)
    Q = MultiPeriodPortfolio(portfolios=qs, name="Q", fitness_measures=fit)
    if rng.random() < 0.5:
        P.mean, P.fitness, P.drawdowns
    c = _scalar(rng)
    cl = [_scalar(rng) for _ in range(k)]
    nd = int(rng.integers(0, 3))
    ctx.note(k=k, c=c, cl=cl, w=[f["w"] for f in facts], w2=w2s)
    ctx.state(k, c, cl, nd, *[f["w"] for f in facts])
    snaps = [_snapshot(p) for p in ps]
    W = [f["w"] for f in facts]
    fd = lambda w, x: np.array([v // x for v in w])
    for op, res, want in (
        ("neg", -P, [-w for w in W]),
        ("abs", abs(P), [np.abs(w) for w in W]),
        ("round", round(P, nd), [np.round(w, nd) for w in W]),
        ("floor", math.floor(P), [np.floor(w) for w in W]),
        ("trunc", math.trunc(P), [np.trunc(w) for w in W]),
        ("add", P + Q, [a + b for a, b in zip(W, w2s)]),
        ("sub", P - Q, [a - b for a, b in zip(W, w2s)]),
        ("mul", P * c, [w * c for w in W]),
        ("mul list", P * cl, [w * x for w, x in zip(W, cl)]),
        ("rmul", float(c) * P, [w * c for w in W]),
        ("div", P / c, [w / c for w in W]),
        ("div list", P / cl, [w / x for w, x in zip(W, cl)]),
        ("floordiv", P // c, [fd(w, c) for w in W]),
        ("floordiv list", P // cl, [fd(w, x) for w, x in zip(W, cl)]),
    ):
        ctx.check("multi-period result type", isinstance(res, MultiPeriodPortfolio) and res is not P, op=op)
        ctx.equal("multi-period result length", len(res), k, op=op)
        ctx.equal("multi-period fitness and tag", (list(res.fitness_measures), res.tag), (fit, "T"), op=op)
        for i, part in enumerate(res):
            _result(ctx, part, want[i], ps[i], facts[i], op)
        ctx.close("multi-period returns", res.returns, np.concatenate([x.returns for x in res]), 1e-12, 1e-15, op=op)
        ctx.close("multi-period measure", res.mean, refs.mean(res.returns), 1e-8, 1e-12, op=op)
    for p, s in zip(ps, snaps):
        _unchanged(ctx, p, s)
    ctx.equal("operand periods untouched", [x is y for x, y in zip(P, ps)], [True] * k)
    short = MultiPeriodPortfolio(portfolios=qs[:-1])
    ctx.refused("different number of periods (add)", lambda: P + short, (TypeError, ValueError))
    ctx.refused("different number of periods (sub)", lambda: P - short, (TypeError, ValueError))
    ctx.refused("wrong number of factors", lambda: P * [*cl, 2.0], (TypeError, ValueError))
    ctx.refused("wrong number of divisors", lambda: P / [*cl, 2.0], (TypeError, ValueError))
    ctx.refused("non portfolio", lambda: P + 3, (TypeError, ValueError))
    ctx.refused("single portfolio", lambda: P - ps[0], (TypeError, ValueError))
