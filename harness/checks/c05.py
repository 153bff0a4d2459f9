"""C05: a multi-period portfolio is the concatenation of its periods."""

import copy
import pickle

import numpy as np
import pandas as pd

import gens
import refs
from core import rule, scenario
from ptfgen import FAST, MEASURES, rand_fitness, rand_param, rand_params, rand_portfolio

from skfolio.portfolio import MultiPeriodPortfolio

rule("C05", "one state per step of an edit history (operation, number of periods, weights)")

PARAMS = list(refs.PARAM_DEFAULTS)


def _period(rng, slot, frame, cols=None):
    """A portfolio living on time slot number ``slot`` (slots never overlap)."""
    n = gens.some(rng, 2, 9)
    if frame:
        idx = pd.date_range(pd.Timestamp("2020-01-01") + pd.Timedelta(days=40 * slot), periods=n)
        pool = cols or [f"S{i}" for i in range(7)]
        m = min(gens.some(rng, 1, 5), len(pool))
        names = [pool[i] for i in rng.permutation(len(pool))[:m]]
        X = pd.DataFrame(gens.market(rng, n, m), index=idx, columns=names)
        p, f = rand_portfolio(rng, X=X, name=str(rng.choice(["a", "b", f"p{slot}", "a_1"])))
    else:
        X = pd.DataFrame(gens.market(rng, n, 3), index=np.arange(n) + 40 * slot, columns=list("xyz"))
        p, f = rand_portfolio(rng, X=X, name=f"p{slot}")
    f["slot"] = slot
    return p, f


def _verify(ctx, P, items, params, where, names):
    ctx.equal("number of periods", len(P), len(items), where=where)
    ctx.check("periods in order", all(a is b for a, (b, _) in zip(P, items)), where=where)
    ctx.check("portfolios attribute", len(P.portfolios) == len(items) and all(a is b for a, (b, _) in zip(P.portfolios, items)))
    want = np.concatenate([f["returns"] for _, f in items]) if items else np.array([])
    obs = np.concatenate([f["index"] for _, f in items]) if items else np.array([])
    ctx.close("returns are the concatenation", P.returns, want, 1e-9, 1e-12, where=where)
    ctx.equal("observations are the concatenation", np.asarray(P.observations), obs, where=where)
    ctx.equal("n_observations", P.n_observations, len(want), where=where)
    if len(want) < 3:
        return
    for name in names:
        ok, v = refs.measure_ok(name, getattr(P, name), want, params)
        ctx.check("measure of the concatenation", ok, measure=name, got=getattr(P, name), want=v, where=where)
    comp = params["compounded"]
    ctx.close("cumulative returns", P.cumulative_returns, refs.cumulative(want, comp), 1e-8, 1e-10, where=where)
    ctx.close("drawdowns", P.drawdowns, refs.drawdowns(want, comp), 1e-7, 1e-10, where=where)
    ctx.equal("returns_df index", np.asarray(P.returns_df.index), obs, where=where)
    fit = P.fitness
    for v, e in zip(fit, P.fitness_measures):
        sign = -1 if e.value in refs.RISKS else 1
        ok, w = refs.measure_ok(e.value, sign * v, want, params)
        ctx.check("fitness of the concatenation", ok, measure=e.value, got=v, want=w, where=where)


@scenario("C05", quick=300, thorough=5000)
def edit_histories(ctx):
    rng = ctx.rng
    frame = bool(rng.random() < 0.6)
    params = rand_params(rng, 0.5)
    fit = rand_fitness(rng, 2)
    order = bool(rng.random() < 0.6)
    k = int(rng.integers(0, 4))
    items = [_period(rng, 10 * (i + 1), frame) for i in range(k)]
    src = [p for p, _ in items]
    P = MultiPeriodPortfolio(portfolios=src if rng.random() < 0.8 or k else None, check_observations_order=order,
                             fitness_measures=fit, name="mp", **params)
    log = []
    ctx.note(k=k, order=order, frame=frame, log=log, params=params)
    pool = FAST
    for step in range(int(rng.integers(3, 11))):
        op = str(rng.choice(["append", "append", "set", "del", "assign", "param", "read", "copy", "caller", "pickle", "baditem"]))
        if op == "append":
            nxt = (max(f["slot"] for _, f in items) if items else 0) + int(rng.integers(1, 4))
            it = _period(rng, nxt, frame)
            P.append(it[0])
            items = [*items, it]
        elif op == "set" and items:
            i = int(rng.integers(len(items)))
            lo = items[i - 1][1]["slot"] if i else 0
            it = _period(rng, items[i][1]["slot"], frame)
            P[i if rng.random() < 0.7 else i - len(items)] = it[0]
            items = [*items[:i], it, *items[i + 1 :]]
            del lo
        elif op == "del" and items:
            i = int(rng.integers(len(items)))
            del P[i]
            items = [*items[:i], *items[i + 1 :]]
        elif op == "assign":
            n = int(rng.integers(0, 4))
            items = [_period(rng, 7 * (i + 1), frame) for i in range(n)]
            P.portfolios = [p for p, _ in items]
        elif op == "param":
            key = str(rng.choice(PARAMS))
            params[key] = rand_param(rng, key)
            setattr(P, key, params[key])
        elif op == "read":
            if items:
                for name in rng.permutation(pool)[:6]:
                    getattr(P, str(name))
                P.fitness, P.drawdowns
        elif op == "copy" and items:
            c = P.copy() if rng.random() < 0.6 else copy.deepcopy(P)
            nxt = max(f["slot"] for _, f in items) + 1
            if rng.random() < 0.5:
                c.append(_period(rng, nxt, frame)[0])
            elif len(c) > 1:
                del c[0]
            else:
                c[0] = _period(rng, nxt, frame)[0]
            c.compounded = not params["compounded"]
        elif op == "pickle" and items:
            c = pickle.loads(pickle.dumps(P))
            ctx.close("pickled returns", c.returns, P.returns, 0, 0)
            ctx.equal("pickled parameters", {q: getattr(c, q) for q in PARAMS}, params)
            ctx.equal("pickled order flag", c.check_observations_order, order)
        elif op == "caller":
            src.append(_period(rng, 99, frame)[0])  # the list given at construction stays the caller's
        elif op == "baditem" and items:

            def bad():
                P[0] = 3

            ctx.refused("non portfolio period", bad, (TypeError,))

            def bad2():
                P.portfolios = [items[0][0], "x"]

            ctx.refused("non portfolio in assignment", bad2, (TypeError,))
        if items:
            other = _period(rng, 500, frame)[0]
            ctx.equal("membership", [items[-1][0] in P, other in P, "text" in P, None in P, 3 in P], [True, False, False, False, False])
        log.append(op)
        ctx.state(op, step, len(items), *[f["w"] for _, f in items])
        _verify(ctx, P, items, params, f"step {step} after {op}", [str(x) for x in rng.permutation(pool)[:6]])
    if items and sum(len(f["returns"]) for _, f in items) >= 3:
        _verify(ctx, P, items, params, "end", pool)


@scenario("C05", quick=150, thorough=2500)
def tables(ctx):
    rng = ctx.rng
    k = int(rng.integers(1, 6))
    pool = [f"S{i}" for i in range(int(rng.integers(4, 9)))]
    items = [_period(rng, i + 1, True, pool) for i in range(k)]
    P = MultiPeriodPortfolio(portfolios=[p for p, _ in items], name="mp")
    ctx.note(names=[p.name for p, _ in items], w=[dict(zip(f["cols"], f["w"])) for _, f in items])
    ctx.state(*[f["w"] for _, f in items])
    comp = P.composition
    ctx.equal("composition: one column per period", comp.shape[1], k)
    ctx.equal("composition: unique column names", len(set(comp.columns)), k, columns=list(comp.columns))
    ctx.equal("composition: unique assets", len(set(comp.index)), len(comp.index))
    held = [{c: w for c, w in zip(f["cols"], f["w"]) if abs(w) > 1e-5} for _, f in items]
    union = set().union(*held) if held else set()
    ctx.equal("composition: assets", set(comp.index), union)
    for i in range(k):
        ctx.close("composition: values", [comp.iloc[:, i][a] for a in sorted(union)], [held[i].get(a, 0.0) for a in sorted(union)], 0, 1e-15, period=i)
    seen = {}
    for i, (p, _) in enumerate(items):
        if p.name not in seen:
            seen[p.name] = i
    # a period whose name occurs once keeps its own name
    counts = {}
    for p, _ in items:
        counts[p.name] = counts.get(p.name, 0) + 1
    for i, (p, _) in enumerate(items):
        if seen[p.name] == i and not any(c != p.name and p.name.startswith(c + "_") for c in counts):
            ctx.equal("composition: first period of a name keeps it", comp.columns[i], p.name)
    wpo = P.weights_per_observation
    obs = np.concatenate([f["index"] for _, f in items])
    ctx.equal("weights per observation: index", np.asarray(wpo.index), obs)
    row = 0
    for i, (_, f) in enumerate(items):
        n = len(f["returns"])
        block = wpo.iloc[row : row + n]
        for a in wpo.columns:
            ctx.close("weights per observation: values", block[a].values, np.full(n, held[i].get(a, 0.0)), 0, 1e-15, asset=a, period=i)
        row += n
    name = str(rng.choice(["mean", "variance", "cvar", "standard_deviation"]))
    con = P.contribution(MEASURES[name])
    ctx.equal("contribution: one column per period", con.shape[1], k)
    ctx.equal("contribution: unique column names", len(set(con.columns)), k)
    raw = P.contribution(MEASURES[name], to_df=False)
    ctx.equal("contribution: list per period", len(raw), k)
    for i, (p, f) in enumerate(items):
        own = p.contribution(MEASURES[name])
        ctx.close("contribution: period arrays", raw[i], own, 1e-9, 1e-12)
        by = {c: v for c, v, w in zip(f["cols"], own, f["w"]) if w != 0}
        ctx.close("contribution: values", [con.iloc[:, i][a] for a in con.index], [by.get(a, 0.0) for a in con.index], 1e-9, 1e-12, period=i)
        ctx.check("contribution: assets present", set(by) <= set(con.index))
    ctx.equal("assets per period", [[str(a) for a in x] for x in P.assets], [f["cols"] for _, f in items])
    if P.n_observations >= 4:
        s = P.summary(formatted=False)
        ctx.equal("summary: periods number", int(s["Portfolios Number"]), k)
        ctx.close("summary: average assets", float(s["Avg nb of Assets per Portfolio"]), np.mean([len(f["cols"]) for _, f in items]), 1e-12, 0)
        ctx.close("summary: mean", s["Mean"], refs.mean(np.concatenate([f["returns"] for _, f in items])), 1e-8, 1e-12)


@scenario("C05", quick=40, thorough=400)
def periods_in_any_order(ctx):
    """Weights are reported by date whatever the order of the periods; membership follows equality."""
    rng = ctx.rng
    k = int(rng.integers(2, 6))
    pool = [f"S{i}" for i in range(int(rng.integers(4, 9)))]
    items = [_period(rng, i + 1, True, pool) for i in range(k)]
    order = rng.permutation(k)
    P = MultiPeriodPortfolio(portfolios=[items[i][0] for i in order])
    ctx.note(order=order)
    wpo = P.weights_per_observation
    ctx.check("dates increase", wpo.index.is_monotonic_increasing)
    for _, f in items:
        held = {c: w for c, w in zip(f["cols"], f["w"]) if abs(w) > 1e-5}
        for a in wpo.columns:
            ctx.close("weights on the dates of a period", wpo.loc[f["index"], a].values, np.full(len(f["index"]), held.get(a, 0.0)), 0, 1e-15, asset=a)
    p = items[int(rng.integers(k))][0]
    ctx.check("contains its portfolios", p in P)
    ctx.check("contains an equal portfolio", p.copy() in P)
    q = p * 1.37
    ctx.check("contains no other portfolio", any(q == x for x in P) or q not in P)
    ctx.state(order, *[f["w"] for _, f in items])


@scenario("C05", quick=120, thorough=1500)
def overlap(ctx):
    """With order checking on, overlapping or unordered periods are refused and nothing changes."""
    rng = ctx.rng
    frame = bool(rng.random() < 0.5)
    k = int(rng.integers(1, 4))
    items = [_period(rng, i + 2, frame) for i in range(k)]
    ps = [p for p, _ in items]
    P = MultiPeriodPortfolio(portfolios=ps, check_observations_order=True)
    step = pd.Timedelta(days=1) if frame else 1

    def starting(start):
        n = int(rng.integers(2, 5))
        idx = pd.date_range(start, periods=n) if frame else np.arange(start, start + n)
        X = pd.DataFrame(gens.market(rng, n, 2), index=idx, columns=["u", "v"])
        return rand_portfolio(rng, X=X)[0]

    last = pd.Timestamp(items[-1][1]["index"][-1]) if frame else int(items[-1][1]["index"][-1])
    back = int(rng.integers(0, 4))
    ctx.note(k=k, frame=frame, back=back)
    ctx.state(k, frame, back, *[f["w"] for _, f in items])
    bad = starting(last - back * step)
    before = np.array(P.returns)
    ctx.refused("append overlapping", lambda: P.append(bad), (ValueError,), back=back)
    ctx.refused("construct overlapping", lambda: MultiPeriodPortfolio(portfolios=[*ps, bad], check_observations_order=True), (ValueError,))

    def assign():
        P.portfolios = [*ps, bad]

    ctx.refused("assign overlapping", assign, (ValueError,))
    if k > 1:
        def swap():
            P[0] = ps[-1]

        ctx.refused("replace by a later period", swap, (ValueError,))
        ctx.refused("reversed periods", lambda: MultiPeriodPortfolio(portfolios=ps[::-1], check_observations_order=True), (ValueError,))
    ctx.equal("refused edits have no effect", (len(P), [a is b for a, b in zip(P, ps)]), (k, [True] * k))
    ctx.close("refused edits keep returns", P.returns, before, 0, 0)
    ctx.close("measures after refused edits", P.mean, refs.mean(before), 1e-9, 1e-13)
    P.append(starting(last + (1 + int(rng.integers(0, 3))) * step))
    ctx.equal("adjacent period accepted", len(P), k + 1)
    Q = MultiPeriodPortfolio(portfolios=[*ps, bad])
    ctx.close("without order checking periods are kept as given", Q.returns, np.concatenate([before, bad.returns]), 0, 0)
