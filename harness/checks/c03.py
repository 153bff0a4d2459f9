"""C03: no stale measure after any history of reads, changes, copies and pickling."""

import copy
import pickle

import numpy as np

import gens
import refs
from core import rule, scenario
from ptfgen import FAST, MEASURES, rand_fitness, rand_param, rand_params, rand_portfolio

from skfolio.measures import ExtraRiskMeasure, PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.portfolio import BasePortfolio, MultiPeriodPortfolio, Portfolio

rule("C03", "one state per step of a generated history (operation, portfolio kind, parameters in force)")

PARAMS = list(refs.PARAM_DEFAULTS)


class Obj:
    """A live portfolio together with the plain facts it must agree with."""

    def __init__(self, ptf, kind, returns, params, fitness, rebuild):
        self.ptf, self.kind, self.returns = ptf, kind, returns
        self.params, self.fitness, self.rebuild = params, fitness, rebuild

    def clone(self, ptf):
        return Obj(ptf, self.kind, self.returns, dict(self.params), list(self.fitness), self.rebuild)


def _make(rng, kind):
    params = rand_params(rng, 0.5)
    fit = rand_fitness(rng)
    if kind == "base":
        r, _ = gens.series(rng, n=gens.some(rng, 5, 40), scale=10 ** rng.uniform(-3, -1.3))
        obs = np.arange(len(r))
        build = lambda pr, ft: BasePortfolio(returns=r, observations=obs, fitness_measures=ft, **pr)
        returns = r
    elif kind == "single":
        p, f = rand_portfolio(rng, n=gens.some(rng, 5, 40))
        build = lambda pr, ft: Portfolio(**dict(f["args"], fitness_measures=ft, **pr))
        returns = f["returns"]
    else:
        parts, rets = [], []
        for _ in range(int(rng.integers(1, 4))):
            p, f = rand_portfolio(rng, n=gens.some(rng, 3, 15), frame=False)
            parts.append(p)
            rets.append(f["returns"])
        build = lambda pr, ft: MultiPeriodPortfolio(portfolios=parts, fitness_measures=ft, **pr)
        returns = np.concatenate(rets)
    return Obj(build(params, fit), kind, returns, params, fit, build)


def _fitness(o):
    out = []
    for e in o.fitness:
        sign = -1 if e.value in refs.RISKS else 1
        out.append((e.value, sign))
    return out


def _compare(ctx, o, names, where):
    fresh = o.rebuild(o.params, o.fitness)
    for k in PARAMS:
        ctx.equal("parameter in force", getattr(o.ptf, k), o.params[k], param=k, where=where)
    for name in names:
        got = getattr(o.ptf, name)
        ok, want = refs.measure_ok(name, got, o.returns, o.params)
        ctx.check("measure equals definition", ok, measure=name, got=got, want=want, where=where)
        want = getattr(fresh, name)
        ctx.close("measure equals fresh portfolio", got, want, 1e-9, 1e-13, measure=name, where=where)
        ctx.close("get_measure equals attribute", o.ptf.get_measure(MEASURES[name]), got, 1e-9, 1e-13, measure=name, where=where)
    fit = o.ptf.fitness
    ctx.equal("fitness length", len(fit), len(o.fitness), where=where)
    for v, (name, sign) in zip(fit, _fitness(o)):
        if name in refs.LOOSE:
            ctx.close("fitness equals fresh", v, sign * getattr(fresh, name), 1e-9, 1e-13, where=where)
            continue
        ok, want = refs.measure_ok(name, sign * v, o.returns, o.params)
        ctx.check("fitness entry", ok, measure=name, got=v, want=want, where=where)
    comp = o.params["compounded"]
    ctx.close("cumulative returns", o.ptf.cumulative_returns, refs.cumulative(o.returns, comp), 1e-8, 1e-10, where=where)
    ctx.close("drawdowns", o.ptf.drawdowns, refs.drawdowns(o.returns, comp), 1e-7, 1e-10, where=where)
    ctx.close("returns", o.ptf.returns, o.returns, 1e-9, 1e-13, where=where)


@scenario("C03", quick=260, thorough=4000)
def histories(ctx):
    rng = ctx.rng
    kind = str(rng.choice(["base", "single", "single", "multi"]))
    objs = [_make(rng, kind)]
    log = []
    ctx.note(kind=kind, log=log)
    pool = list(refs.ALL_MEASURES)
    for step in range(int(rng.integers(4, 13))):
        o = objs[int(rng.integers(len(objs)))]
        op = str(rng.choice(["read", "read", "set", "set", "set", "copy", "pickle", "deepcopy", "summary",
                             "fitness", "readonly", "clear", "rolling", "setmany"]))
        if op == "read":
            for name in rng.permutation(pool)[: int(rng.integers(1, 6))]:
                getattr(o.ptf, str(name))
            if rng.random() < 0.4:
                o.ptf.fitness, o.ptf.drawdowns, o.ptf.cumulative_returns
        elif op in ("set", "setmany"):
            for k in rng.permutation(PARAMS)[: 1 if op == "set" else 3]:
                k = str(k)
                v = rand_param(rng, k)
                setattr(o.ptf, k, v)
                o.params[k] = v
                op = f"{op} {k}={v}"
        elif op in ("copy", "deepcopy", "pickle") and len(objs) < 4:
            if op == "copy":
                new = o.ptf.copy() if rng.random() < 0.5 else copy.copy(o.ptf)
            elif op == "deepcopy":
                new = copy.deepcopy(o.ptf)
            else:
                new = pickle.loads(pickle.dumps(o.ptf))
            ctx.check("duplicate is a new object of the same type", new is not o.ptf and type(new) is type(o.ptf))
            ctx.equal("duplicate keeps name and tag", (new.name, new.tag), (o.ptf.name, o.ptf.tag))
            objs.append(o.clone(new))
        elif op == "summary":
            o.ptf.summary()
            o.ptf.summary(formatted=False)
        elif op == "fitness":
            if rng.random() < 0.4 and len(o.fitness) > 1:
                o.ptf.fitness
                o.fitness = [o.fitness[i] for i in rng.permutation(len(o.fitness))]
            else:
                o.fitness = rand_fitness(rng)
            o.ptf.fitness_measures = list(o.fitness)
        elif op == "readonly":
            attrs = ["returns", "observations"]
            if o.kind == "single":
                attrs += ["X", "assets", "weights", "previous_weights", "transaction_costs", "management_fees",
                          "n_assets", "total_cost", "total_fee"]
            a = str(rng.choice(attrs))
            old = getattr(o.ptf, a)

            def assign():
                setattr(o.ptf, a, np.zeros(3))

            op = f"readonly {a}"
            ctx.refused("defining data cannot be reassigned", assign, attr=a)
            ctx.check("refused assignment has no effect", getattr(o.ptf, a) is old, attr=a)
        elif op == "clear":
            o.ptf.clear()
        elif op == "rolling":
            o.ptf.rolling_measure(MEASURES[str(rng.choice(FAST))], window=max(2, len(o.returns) // 2))
        log.append((objs.index(o), op))
        ctx.state(step, op, kind, sorted((k, str(v)) for k, v in o.params.items()))
        for i, x in enumerate(objs):
            _compare(ctx, x, [str(n) for n in rng.permutation(pool)[:5]], where=f"step {step} object {i}")
    for i, x in enumerate(objs):
        _compare(ctx, x, pool, where=f"end object {i}")


@scenario("C03", quick=120, thorough=2500)
def each_parameter(ctx):
    """Read everything, change exactly one parameter, read everything again."""
    rng = ctx.rng
    kind = str(rng.choice(["base", "single", "multi"]))
    o = _make(rng, kind)
    k = PARAMS[ctx.index % len(PARAMS)]
    v = rand_param(rng, k)
    ctx.note(kind=kind, param=k, value=v, params=o.params)
    ctx.state(kind, k, v, sorted((a, str(b)) for a, b in o.params.items()))
    o.fitness = rand_fitness(rng, 3)
    o.ptf.fitness_measures = o.fitness
    for name in refs.ALL_MEASURES:
        getattr(o.ptf, name)
    o.ptf.fitness, o.ptf.drawdowns, o.ptf.cumulative_returns
    setattr(o.ptf, k, v)
    o.params[k] = v
    _compare(ctx, o, refs.ALL_MEASURES, where=f"after setting {k}")


@scenario("C03", quick=60, thorough=800)
def rolling(ctx):
    """A rolling measure is the measure of each window of returns."""
    rng = ctx.rng
    o = _make(rng, str(rng.choice(["base", "single"])))
    n = len(o.returns)
    window = int(rng.integers(3, n + 1)) if rng.random() < 0.9 else n + int(rng.integers(1, 6))
    name = str(rng.choice(FAST))
    if rng.random() < 0.3:
        name = str(rng.choice(["sharpe_ratio", "annualized_sharpe_ratio", "annualized_sortino_ratio", "annualized_mean",
                               "annualized_variance", "annualized_standard_deviation", "cdar_ratio"]))
    ctx.note(measure=name, window=window, n=n, params=o.params, r=o.returns)
    ctx.state(name, window, o.returns)
    s = o.ptf.rolling_measure(MEASURES[name], window=window)
    ctx.equal("rolling index", np.asarray(s.index), np.asarray(o.ptf.observations))
    ctx.check("rolling undefined before the first window", bool(np.all(np.isnan(s.values[: window - 1]))))
    for t in range(window - 1, n):
        r = o.returns[t - window + 1 : t + 1]
        ok, want = refs.measure_ok(name, s.values[t], r, o.params)
        ctx.check("rolling value", ok, t=t, got=s.values[t], want=want)


@scenario("C03", quick=60, thorough=600)
def settings_guard(ctx):
    """Malformed fitness measures are refused and leave the portfolio as it was."""
    rng = ctx.rng
    o = _make(rng, str(rng.choice(["base", "single", "multi"])))
    ctx.note(kind=o.kind, params=o.params)
    ctx.state(o.kind, sorted((a, str(b)) for a, b in o.params.items()))
    for bad in ([], "mean", ["mean"], [MEASURES["mean"], 3], MEASURES["mean"]):

        def assign():
            o.ptf.fitness_measures = bad

        ctx.refused("malformed fitness measures", assign, bad=bad)
    ctx.equal("fitness measures unchanged", list(o.ptf.fitness_measures), o.fitness)
    c = o.ptf.copy()
    k = str(rng.choice(PARAMS))
    before = {n: getattr(o.ptf, n) for n in FAST}
    setattr(c, k, rand_param(rng, k))
    c.name, c.tag = "other", "t"
    for n in FAST:
        ctx.close("original unaffected by its copy", getattr(o.ptf, n), before[n], 0, 0, measure=n, param=k)
    ctx.check("original keeps name", o.ptf.name != "other" and o.ptf.tag != "t")


@scenario("C03", quick=20, thorough=60)
def measure_names(ctx):
    """The enumerations: annualized and plain versions point to each other, and every measure knows its kind."""
    every = [*PerfMeasure, *RiskMeasure, *ExtraRiskMeasure, *RatioMeasure]
    e = every[ctx.index % len(every)] if ctx.index < len(every) else every[int(ctx.rng.integers(len(every)))]
    for e in every:
        ann = e.name.startswith("ANNUALIZED_")
        ctx.equal("annualized", bool(e.is_annualized), ann, measure=e.name)
        if ann:
            ctx.equal("plain version", e.non_annualized_measure.name, e.name[len("ANNUALIZED_"):])
            ctx.equal("back again", e.non_annualized_measure.annualized_measure, e)
            ctx.refused("annualizing twice", lambda: e.annualized_measure, (ValueError, AttributeError))
        else:
            ctx.refused("plain version of a plain measure", lambda: e.non_annualized_measure, (ValueError, AttributeError))
            if not hasattr(type(e), "ANNUALIZED_" + e.name):
                ctx.refused("no annualized version", lambda: e.annualized_measure, (ValueError, AttributeError))
            else:
                ctx.equal("annualized version", e.annualized_measure.name, "ANNUALIZED_" + e.name)
        ctx.equal("kind", (e.is_perf, e.is_risk, e.is_ratio), (isinstance(e, PerfMeasure), isinstance(e, (RiskMeasure, ExtraRiskMeasure)), isinstance(e, RatioMeasure)), measure=e.name)
        if e.is_ratio:
            ctx.check("linked risk measure", isinstance(e.linked_risk_measure, (RiskMeasure, ExtraRiskMeasure)) and e.linked_risk_measure.is_annualized == ann, measure=e.name)
        ctx.equal("value membership", (type(e).has(e.value), type(e).has("no such measure")), (True, False))
    ctx.state(e.name)
    o = _make(ctx.rng, str(ctx.rng.choice(["base", "single", "multi"]))).ptf
    ctx.refused("measure of another kind", lambda: o.get_measure("mean"))

    def cached(k):
        setattr(o, k, 1.0)

    for k in ("cumulative_returns", "drawdowns"):
        ctx.refused("cached values are read-only", lambda: cached(k), (AttributeError,))
    ctx.refused("deleting an unknown attribute", lambda: delattr(o, "no_such_attribute"), (AttributeError,))
