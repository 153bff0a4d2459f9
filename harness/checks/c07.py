"""C07: dominance and non-dominated sorting."""

import numpy as np

import gens
import refs
from core import rule, scenario
from ptfgen import FAST, MEASURES, rand_fitness, rand_portfolio

from skfolio import Population
from skfolio.portfolio import BasePortfolio, Portfolio
from skfolio.utils.sorting import dominate, non_denominated_sort

rule("C07", "one state per fitness table or population with its fitness measures")


def _dom(a, b):
    return bool(np.all(a >= b) and np.any(a > b))


def _peel(F):
    """Fronts by repeated removal of the non-dominated points."""
    left = list(range(len(F)))
    fronts = []
    while left:
        fr = [i for i in left if not any(_dom(F[j], F[i]) for j in left if j != i)]
        fronts.append(sorted(fr))
        left = [i for i in left if i not in fr]
    return fronts


def _table(rng):
    n, d = int(rng.integers(1, 40)), int(rng.integers(1, 5))
    kind = str(rng.choice(["real", "grid", "dups", "chain", "anti", "const"]))
    if kind == "real":
        F = rng.normal(size=(n, d))
    elif kind == "grid":
        F = rng.integers(0, 4, size=(n, d)).astype(float)
    elif kind == "dups":
        base = rng.normal(size=(max(1, n // 3), d))
        F = base[rng.integers(len(base), size=n)]
    elif kind == "chain":
        F = np.repeat(rng.permutation(n)[:, None].astype(float), d, axis=1)
    elif kind == "anti":
        t = rng.permutation(n).astype(float)
        F = np.column_stack([t if i % 2 == 0 else -t for i in range(d)])
    else:
        F = np.ones((n, d))
        F[: n // 2, 0] += rng.integers(0, 2, n // 2)
    if rng.random() < 0.1:
        F[rng.integers(n), rng.integers(d)] = rng.choice([np.inf, -np.inf])
    return F, kind


def _check_fronts(ctx, fronts, want, n, tag):
    flat = [i for fr in fronts for i in fr]
    ctx.equal(f"{tag}: every item in exactly one front", sorted(flat), list(range(n)))
    ctx.equal(f"{tag}: fronts", [sorted(int(i) for i in fr) for fr in fronts], want)


@scenario("C07", quick=600, thorough=8000)
def sorting(ctx):
    rng = ctx.rng
    F, kind = _table(rng)
    n = len(F)
    ctx.note(kind=kind, F=F)
    ctx.state(F)
    F0 = F.copy()
    want = _peel(F)
    _check_fronts(ctx, non_denominated_sort(fitnesses=F, first_front_only=False), want, n, "sort")
    first = non_denominated_sort(fitnesses=F, first_front_only=True)
    ctx.equal("first front only", [sorted(int(i) for i in fr) for fr in first], [want[0]])
    for _ in range(10):
        i, j = (int(v) for v in rng.integers(0, n, 2))
        ctx.equal("dominate", bool(dominate(F[i], F[j])), _dom(F[i], F[j]), a=F[i], b=F[j])
    ctx.check("irreflexive", not dominate(F[0], F[0]))
    ctx.equal("input untouched", F, F0)
    ctx.equal("empty table", non_denominated_sort(fitnesses=np.empty((0, 2)), first_front_only=False), [])


@scenario("C07", quick=250, thorough=4000)
def populations(ctx):
    rng = ctx.rng
    names = [m for m in FAST if m not in ("skew", "kurtosis")]
    fit = rand_fitness(rng, int(rng.integers(1, 5)), names)
    k = int(rng.integers(1, 15))
    n = gens.some(rng, 6, 25)
    ms = []
    for _ in range(k):
        if rng.random() < 0.5 or not ms:
            r, _ = gens.series(rng, n=n, scale=0.02)
            if np.ptp(r) < 1e-6:
                r = r + rng.normal(size=n) * 0.01
        else:
            r = ms[int(rng.integers(len(ms)))].returns.copy()
            if rng.random() < 0.6:
                r = r + float(rng.choice([0.0, 1e-3, -1e-3]))
        ms.append(BasePortfolio(returns=r, observations=np.arange(n), fitness_measures=fit))
    ctx.note(fit=[e.value for e in fit], k=k, n=n)
    ctx.state([e.value for e in fit], *[p.returns for p in ms])
    sign = np.array([-1.0 if e.value in refs.RISKS else 1.0 for e in fit])
    F = np.array([[getattr(p, e.value) for e in fit] for p in ms]) * sign
    for p, f in zip(ms, F):
        ctx.close("fitness: performance up, risk down", p.fitness, f, 0, 0)
        for e, v in zip(fit, f):
            s = -1 if e.value in refs.RISKS else 1
            ok, w = refs.measure_ok(e.value, s * v, p.returns, refs.PARAM_DEFAULTS)
            ctx.check("fitness entries are the measures", ok, measure=e.value, got=v, want=w)
    if not np.all(np.isfinite(F)):
        F = np.where(np.isnan(F), np.nan, F)
        if np.any(np.isnan(F)):
            return
    pop = Population(ms)
    _check_fronts(ctx, pop.non_denominated_sort(), _peel(F), k, "population")
    ctx.equal("population first front", [sorted(fr) for fr in pop.non_denominated_sort(first_front_only=True)], [_peel(F)[0]])
    for _ in range(12):
        i, j = (int(v) for v in rng.integers(0, k, 2))
        a, b = ms[i], ms[j]
        d, e = _dom(F[i], F[j]), bool(np.array_equal(F[i], F[j]))
        ctx.equal("dominates", bool(a.dominates(b)), d)
        ctx.equal("greater", bool(a > b), d)
        ctx.equal("less", bool(b < a), d)
        ctx.equal("equal", bool(a == b), e)
        ctx.equal("greater or equal", bool(a >= b), d or e)
        ctx.equal("less or equal", bool(b <= a), d or e)
        sub = np.sort(rng.permutation(len(fit))[: int(rng.integers(1, len(fit) + 1))])
        ctx.equal("dominates on some measures", bool(a.dominates(b, idx=sub)), _dom(F[i][sub], F[j][sub]))
        sl = slice(0, int(rng.integers(1, len(fit) + 1)))
        ctx.equal("dominates on a slice", bool(a.dominates(b, idx=sl)), _dom(F[i][sl], F[j][sl]))
    for bad in (3, "x", None):
        ctx.refused("compare > with a non portfolio", lambda: ms[0] > bad, (TypeError,))
        ctx.refused("compare >= with a non portfolio", lambda: ms[0] >= bad, (TypeError,))
        ctx.check("never equal to a non portfolio", not (ms[0] == bad))


@scenario("C07", quick=60, thorough=600)
def changed_fitness(ctx):
    """Fronts follow the fitness measures in force; mixed measures are refused."""
    rng = ctx.rng
    X = gens.market(rng, 20, 4)
    ms = [rand_portfolio(rng, X=X)[0] for _ in range(int(rng.integers(2, 9)))]
    pop = Population(ms)
    for step in range(3):
        fit = rand_fitness(rng, int(rng.integers(1, 4)), ["mean", "variance", "cvar", "max_drawdown", "sharpe_ratio", "kurtosis", "worst_realization", "calmar_ratio"])
        pop.set_portfolio_params(fitness_measures=fit)
        sign = np.array([-1.0 if e.value in refs.RISKS else 1.0 for e in fit])
        F = np.array([[getattr(p, e.value) for e in fit] for p in ms]) * sign
        ctx.note(fit=[e.value for e in fit])
        ctx.state([e.value for e in fit], F)
        if np.all(np.isfinite(F)):
            _check_fronts(ctx, pop.non_denominated_sort(), _peel(F), len(ms), f"after change")
    ms[-1].fitness_measures = [MEASURES["mean"], MEASURES["variance"], MEASURES["ulcer_index"], MEASURES["cvar"], MEASURES["skew"]]
    ctx.refused("mixed fitness measures", lambda: pop.non_denominated_sort(), (ValueError,))
    default = Portfolio(X=X, weights=np.ones(4) / 4)
    ctx.equal("default fitness measures", len(default.fitness_measures), 2)
