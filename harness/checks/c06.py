"""C06: population queries."""

import numpy as np
import pandas as pd

import gens
import refs
from core import rule, scenario
from ptfgen import FAST, MEASURES, rand_param, rand_params, rand_portfolio

from skfolio import Population
from skfolio.portfolio import MultiPeriodPortfolio, Portfolio

rule("C06", "one state per population (member names, tags, returns) or per step of an edit history")

SAFE = [m for m in FAST if m not in refs.QUANTILE]


def _member(rng, X, multi=None):
    name = str(rng.choice(["a", "b", "c", "a_1", "long name", "z9"]))
    tag = None if rng.random() < 0.3 else str(rng.choice(["t1", "t2", "t3"]))
    if multi is None:
        multi = rng.random() < 0.25
    if multi:
        h = len(X) // 2
        ps = [rand_portfolio(rng, X=X.iloc[:h], name="first")[0], rand_portfolio(rng, X=X.iloc[h:], name=str(rng.choice(["first", "second"])))[0]]
        return MultiPeriodPortfolio(portfolios=ps, name=name, tag=tag)
    return rand_portfolio(rng, X=X, name=name, tag=tag)[0]


def _population(rng, k=None, multi=None):
    X = gens.frame(rng, gens.market(rng, int(rng.integers(8, 24)), int(rng.integers(2, 6))))
    k = k or gens.some(rng, 1, 11, far=7)
    ms = [_member(rng, X, multi) for _ in range(k)]
    if k > 2 and rng.random() < 0.3:
        ms[-1] = ms[0].copy()  # equal measures
    return ms, X


def _ids(seq):
    return [id(x) for x in seq]


@scenario("C06", quick=250, thorough=4000)
def queries(ctx):
    rng = ctx.rng
    ms, _ = _population(rng)
    pop = Population(ms)
    k = len(ms)
    ctx.note(names=[p.name for p in ms], tags=[p.tag for p in ms])
    ctx.state([p.name for p in ms], [p.tag for p in ms], *[p.returns for p in ms])
    ctx.equal("members", _ids(pop), _ids(ms))
    for _ in range(4):
        name = str(rng.choice(SAFE))
        e = MEASURES[name]
        if not np.all(np.isfinite([getattr(p, name) for p in ms])):
            continue
        vals = np.array([refs.portfolio_measure(name, p.returns, {q: getattr(p, q) for q in refs.PARAM_DEFAULTS}) for p in ms])
        got = pop.measures(e)
        scale = np.max(np.abs(vals)) + 1e-12
        ctx.close("measures vector", got, vals, 1e-6, 1e-9 * scale, measure=name)
        own = np.array([getattr(p, name) for p in ms])
        ctx.close("measures vector equals members", got, own, 0, 0, measure=name)
        ctx.close("measures mean", pop.measures_mean(e), sum(own) / k, 1e-9, 1e-13 * scale, measure=name)
        ctx.close("measures std", pop.measures_std(e), np.sqrt(sum((own - sum(own) / k) ** 2) / k), 1e-7, 1e-9 * scale, measure=name)
        for reverse in (False, True):
            s = pop.sort_measure(e) if not reverse and rng.random() < 0.5 else pop.sort_measure(e, reverse=reverse)
            ctx.equal("sorted population type", type(s) is Population, True)
            ctx.equal("sorted members", sorted(_ids(s)), sorted(_ids(ms)))
            v = np.array([getattr(p, name) for p in s])
            d = np.diff(v)
            ctx.check("sorted order", np.all(d <= 0) if reverse else np.all(d >= 0), got=v, reverse=reverse)
        ctx.equal("sorting leaves the population", _ids(pop), _ids(ms))
        srt = np.sort(own)
        for q in (0.0, 1.0, float(rng.random()), 0.5, float(rng.choice([0.05, 0.25, 0.95]))):
            p = pop.quantile(e, q)
            ctx.check("quantile is a member", id(p) in _ids(ms))
            v = getattr(p, name)
            # the member of rank round(k q), rounding ties either way
            ranks = {max(0, int(np.round(k * q)) - 1)}
            if abs(k * q - np.floor(k * q) - 0.5) < 1e-9:
                ranks |= {max(0, int(np.floor(k * q)) - 1), max(0, int(np.ceil(k * q)) - 1)}
            ctx.check("quantile value", any(v == srt[r] for r in ranks), q=q, got=v, sorted=srt)
        ctx.close("min_measure", getattr(pop.min_measure(e), name), srt[0], 0, 0)
        ctx.close("max_measure", getattr(pop.max_measure(e), name), srt[-1], 0, 0)
        for bad in (-0.1, 1.1):
            ctx.refused("quantile out of range", lambda: pop.quantile(e, bad), (ValueError,))


@scenario("C06", quick=200, thorough=3000)
def filtering(ctx):
    rng = ctx.rng
    ms, _ = _population(rng, multi=False)
    pop = Population(ms)
    all_names, all_tags = ["a", "b", "c", "a_1", "long name", "z9", "nobody", "long"], ["t1", "t2", "t3", "none", "t"]
    ctx.note(names=[p.name for p in ms], tags=[p.tag for p in ms])
    ctx.state([p.name for p in ms], [p.tag for p in ms])
    ctx.equal("no criterion keeps everybody", _ids(pop.filter()), _ids(ms))
    for _ in range(6):
        nm = [str(x) for x in rng.permutation(all_names)[: int(rng.integers(1, 4))]]
        tg = [str(x) for x in rng.permutation(all_tags)[: int(rng.integers(1, 3))]]
        one = nm[0]
        onet = tg[0]
        for label, kw, pred in (
            ("names", dict(names=nm), lambda p: p.name in nm),
            ("one name", dict(names=one), lambda p: p.name == one),
            ("tags", dict(tags=tg), lambda p: p.tag in tg),
            ("one tag", dict(tags=onet), lambda p: p.tag == onet),
            ("names and tags", dict(names=nm, tags=tg), lambda p: p.name in nm and p.tag in tg),
            ("one name and one tag", dict(names=one, tags=onet), lambda p: p.name == one and p.tag == onet),
        ):
            res = pop.filter(**kw)
            ctx.check("filter type", type(res) is Population)
            ctx.equal(f"filter by {label}", _ids(res), [id(p) for p in ms if pred(p)], kw=kw)
    ctx.equal("filtering leaves the population", _ids(pop), _ids(ms))


@scenario("C06", quick=150, thorough=2500)
def tables(ctx):
    rng = ctx.rng
    ms, X = _population(rng, k=int(rng.integers(1, 6)))
    pop = Population(ms)
    n = len(X)
    ctx.note(names=[p.name for p in ms], tags=[p.tag for p in ms], kinds=[type(p).__name__ for p in ms])
    ctx.state([p.name for p in ms], *[p.returns for p in ms])
    for fm in (False, True):
        s = pop.summary(formatted=fm)
        ctx.equal("summary columns", s.shape[1], len(ms))
        for i, p in enumerate(ms):
            own = p.summary(formatted=fm)
            ctx.equal("summary column name", s.columns[i], p.name)
            col = s.iloc[:, i]
            ok = all((col[k] == v) or (not fm and np.isnan(float(col[k])) and np.isnan(float(v))) for k, v in own.items())
            ctx.check("summary column equals member summary", ok, member=i)
    for display in (True, False):
        name = str(rng.choice(["mean", "cvar", "variance"]))
        spacing = float(rng.choice([1e-2, 0.1, 0.4]))
        for kind, table, own in (
            ("composition", pop.composition(display_sub_ptf_name=display), [p.composition for p in ms]),
            ("contribution", pop.contribution(MEASURES[name], spacing=spacing, display_sub_ptf_name=display),
             [p.contribution(MEASURES[name], spacing=spacing, to_df=True) for p in ms]),
        ):
            width = sum(o.shape[1] for o in own)
            ctx.equal(f"{kind} width", table.shape[1], width)
            ctx.equal(f"{kind} names distinguishable", len(set(table.columns)), width, columns=list(table.columns))
            ctx.equal(f"{kind} assets", set(table.index), set().union(*[set(o.index) for o in own]))
            ctx.equal(f"{kind} assets unique", len(set(table.index)), len(table.index))
            j = 0
            for p, o in zip(ms, own):
                for c in range(o.shape[1]):
                    by = dict(zip(o.index, o.iloc[:, c]))
                    ctx.close(f"{kind} values", [table.iloc[:, j][a] for a in table.index], [by.get(a, 0.0) for a in table.index], 1e-12, 1e-15, column=j)
                    ctx.check(f"{kind} column names its portfolio", str(table.columns[j]).startswith(p.name), column=table.columns[j], portfolio=p.name)
                    j += 1
    for p in ms:  # tables do not rename anything in the members
        ctx.check("members keep their names", isinstance(p.name, str) and list(p.composition.columns)[:1] != [None])
    name = str(rng.choice(SAFE))
    window = int(rng.integers(3, n + 1))
    df = pop.rolling_measure(MEASURES[name], window=window)
    ctx.equal("rolling width", df.shape[1], len(ms))
    ctx.equal("rolling names distinguishable", len(set(df.columns)), len(ms), columns=list(df.columns))
    for i, p in enumerate(ms):
        own = p.rolling_measure(MEASURES[name], window=window)
        ctx.equal("rolling index", np.asarray(df.index), np.asarray(own.index))
        ctx.close("rolling values", df.iloc[:, i].values, own.values, 1e-12, 1e-15, member=i)
        ctx.check("rolling column names its portfolio", str(df.columns[i]).startswith(p.name))


@scenario("C06", quick=60, thorough=600)
def rolling_over_different_dates(ctx):
    """Members that cover different dates keep their own values, in order of time."""
    rng = ctx.rng
    n, m = int(rng.integers(20, 50)), int(rng.integers(2, 5))
    X = gens.frame(rng, gens.market(rng, n, m), index=gens.dates(rng, n) if rng.random() < 0.5 else np.arange(n) * 3)
    ms = []
    for k in range(int(rng.integers(2, 5))):
        a = int(rng.integers(0, n - 8))
        b = int(rng.integers(a + 8, n + 1))
        ms.append(Portfolio(X=X.iloc[a:b], weights=rng.dirichlet(np.ones(m)), name=f"p{k}"))
    window = int(rng.integers(2, 6))
    name = str(rng.choice(["mean", "variance", "mean_absolute_deviation"]))
    ctx.note(dates=[(str(p.observations[0]), str(p.observations[-1])) for p in ms], window=window, measure=name)
    df = Population(ms).rolling_measure(MEASURES[name], window=window)
    ctx.check("rolling dates increase", df.index.is_monotonic_increasing, index=list(df.index))
    ctx.equal("rolling dates", set(df.index), set().union(*[set(p.observations) for p in ms]))
    for i, p in enumerate(ms):
        own = p.rolling_measure(MEASURES[name], window=window)
        ctx.close("rolling values on own dates", df.iloc[:, i].loc[own.index].values, own.values, 1e-12, 1e-15, member=i)
        ctx.check("nothing on other dates", df.iloc[:, i].drop(own.index).isna().all(), member=i)
    ctx.state(*[p.returns for p in ms], window, name)


@scenario("C06", quick=200, thorough=3000)
def edit_histories(ctx):
    """A population behaves as a list of portfolios, and only of portfolios."""
    rng = ctx.rng
    ms, X = _population(rng, multi=False)
    extra = [_member(rng, X) for _ in range(10)]
    pop = Population(ms)
    model = list(ms)
    log = []
    ctx.note(log=log, k=len(ms))
    for step in range(int(rng.integers(3, 12))):
        op = str(rng.choice(["append", "insert", "extend", "extendpop", "set", "del", "pop", "add", "iadd", "slice", "bad", "params", "badparam", "contains"]))
        new = extra[int(rng.integers(len(extra)))]
        if op == "append":
            pop.append(new)
            model.append(new)
        elif op == "insert":
            i = int(rng.integers(0, len(model) + 1))
            pop.insert(i, new)
            model.insert(i, new)
        elif op == "extend":
            pop.extend(extra[:2])
            model.extend(extra[:2])
        elif op == "extendpop":
            pop.extend(Population(extra[2:4]))
            model.extend(extra[2:4])
        elif op == "set" and model:
            i = int(rng.integers(-len(model), len(model)))
            pop[i] = new
            model[i] = new
        elif op == "del" and model:
            i = int(rng.integers(len(model)))
            del pop[i]
            del model[i]
        elif op == "pop" and model:
            ctx.check("pop returns the member", pop.pop() is model.pop())
        elif op == "add":
            before = _ids(pop)
            pop2 = pop + Population([new])
            ctx.check("sum type", type(pop2) is Population)
            ctx.equal("sum operand untouched", _ids(pop), before)
            ctx.equal("sum members", _ids(pop2), _ids([*model, new]))
            ctx.refused("sum with a list", lambda: pop + [new], (TypeError,))
        elif op == "iadd":
            pop += [new]
            model += [new]
            ctx.check("in-place sum type", type(pop) is Population)
        elif op == "slice":
            a, b = sorted(int(v) for v in rng.integers(0, len(model) + 1, 2))
            st = int(rng.choice([1, 2]))
            s = pop[a:b:st]
            ctx.check("slice type", type(s) is Population)
            ctx.equal("slice members", _ids(s), _ids(model[a:b:st]))
        elif op == "bad":
            x = [3, "p", None, np.zeros(3), ["l"]][int(rng.integers(5))]
            ctx.refused("append a non portfolio", lambda: pop.append(x), (TypeError,))
            ctx.refused("insert a non portfolio", lambda: pop.insert(0, x), (TypeError,))
            ctx.refused("extend with a non portfolio", lambda: pop.extend([x]), (TypeError,))
            ctx.refused("construct with a non portfolio", lambda: Population([*model, x]), (TypeError,))
            if model:
                def put():
                    pop[0] = x

                ctx.refused("set a non portfolio", put, (TypeError,))

            def iadd():
                q = pop
                q += [x]

            ctx.refused("add a non portfolio in place", iadd, (TypeError,))
        elif op == "params":
            keys = [str(q) for q in rng.permutation(list(refs.PARAM_DEFAULTS))[:2]]
            kw = {q: rand_param(rng, q) for q in keys}
            r = pop.set_portfolio_params(**kw)
            ctx.check("set_portfolio_params returns the population", r is pop)
            for p in model:
                for q, v in kw.items():
                    ctx.equal("parameter set on every member", getattr(p, q), v, param=q)
                ok, w = refs.measure_ok("sortino_ratio", p.sortino_ratio, p.returns, {q: getattr(p, q) for q in refs.PARAM_DEFAULTS})
                ctx.check("measures follow the parameter", ok, want=w)
        elif op == "badparam":
            ctx.refused("unknown parameter", lambda: pop.set_portfolio_params(no_such_param=1), (ValueError,))
            before = [p.compounded for p in model]

            def partial():
                pop.set_portfolio_params(compounded=True, no_such_param=1)

            ctx.refused("unknown parameter with a valid one", partial, (ValueError,))
            ctx.equal("refused parameters change nothing", [p.compounded for p in model], before)
        log.append(op)
        ctx.state(step, op, len(model))
        ctx.equal("members after edit", _ids(pop), _ids(model), op=op)
        ctx.equal("length after edit", len(pop), len(model), op=op)
        if model:
            v = pop.measures(MEASURES["mean"])
            ctx.close("measures after edit", v, [refs.mean(p.returns) for p in model], 1e-8, 1e-13, op=op)
