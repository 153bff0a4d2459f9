"""C17: hierarchical risk parity against a bisection of the ordered dendrogram."""

import numpy as np
import scipy.cluster.hierarchy as sch

import gens
import hier
from core import Skip, rule, scenario

from skfolio.measures import ExtraRiskMeasure, PerfMeasure, RiskMeasure
from skfolio.optimization import HierarchicalRiskParity

rule("C17", "one state per fitted (market, prior, distance, linkage, risk measure, costs, bounds)")


def reference(c, name, lo, hi):
    unit = c.asset_risks(name)
    order = sch.leaves_list(sch.optimal_leaf_ordering(c.Z, c.cond))
    w = np.ones(c.m)

    def split(ids, share):
        if len(ids) == 1:
            w[ids[0]] = share
            return
        h = len(ids) // 2
        a, b = ids[:h], ids[h:]
        ra, rb = (c.risk(name, c.inverse_risk(name, g, unit)) for g in (a, b))
        if ra <= 1e-9 * max(unit) or rb <= 1e-9 * max(unit):
            raise Skip("non-positive cluster risk")
        left = share * rb / (ra + rb)
        left = min(hi[a].sum(), max(lo[a].sum(), left))
        right = min(hi[b].sum(), max(lo[b].sum(), share - left))
        split(a, share - right)
        split(b, right)

    split(list(order), 1.0)
    return w


@scenario("C17", quick=500, thorough=6000)
def weights(ctx):
    rng = ctx.rng
    c = hier.Market(rng)
    k, d = c.structure()
    c.costs(0.3)
    name = str(rng.choice(hier.CHEAP if rng.random() < 0.93 else hier.NAMES))
    ctx.note(risk=name, prior=k, distance=d, kw=c.kw, shape=c.A.shape)
    c.prepare()
    w0 = reference(c, name, np.zeros(c.m), np.ones(c.m))
    rt = 1e-2 if name in ("evar", "edar") else 1e-6
    model = c.fit(HierarchicalRiskParity(risk_measure=hier.ENUM[name], **c.kw))
    w = np.asarray(model.weights_)
    ctx.close("weights sum to one", w.sum(), 1.0, 1e-9, 0)
    ctx.close("weights of the bisected tree", w, w0, rt, 1e-9)
    hier.dendrogram_names(ctx, model, c.cols)
    ctx.state(c.A, name, k, d, sorted(c.kw))


@scenario("C17", quick=400, thorough=5000)
def bounded(ctx):
    rng = ctx.rng
    c = hier.Market(rng)
    c.structure()
    kind = c.bounds()
    name = str(rng.choice(["variance", "standard_deviation", "cvar", "mean_absolute_deviation", "semi_variance"]))
    ctx.note(risk=name, kind=kind, kw=c.kw, m=c.m)
    c.prepare()
    ref = reference(c, name, c.lo, c.hi)
    model = c.fit(HierarchicalRiskParity(risk_measure=hier.ENUM[name], **c.kw))
    w = np.asarray(model.weights_)
    ctx.check("weights are finite", np.all(np.isfinite(w)), w=w)
    ctx.close("weights sum to one", w.sum(), 1.0, 1e-9, 0, w=w)
    ctx.check("minimum weights hold", np.all(w >= c.lo - 1e-9), w=w, lo=c.lo)
    ctx.check("maximum weights hold", np.all(w <= c.hi + 1e-9), w=w, hi=c.hi)
    free = reference(c, name, np.zeros(c.m), np.ones(c.m))
    if np.all(free >= c.lo) and np.all(free <= c.hi):
        ctx.close("inactive bounds change nothing", w, free, 1e-6, 1e-9)
    ctx.close("every split moves only as far as the bounds require", w, ref, 1e-6, 1e-9)
    ctx.state(c.A, name, c.lo, c.hi)


@scenario("C17", quick=40, thorough=300)
def refusals(ctx):
    rng = ctx.rng
    c = hier.Market(rng, m=gens.some(rng, 2, 6))
    m = c.m
    X = c.X
    H = HierarchicalRiskParity
    ctx.note(m=m)
    ctx.state(c.A)
    ctx.refused("negative minimum weight", lambda: H(min_weights=-0.01).fit(X))
    ctx.refused("one negative minimum weight", lambda: H(min_weights=[-0.01] + [0.0] * (m - 1)).fit(X))
    ctx.refused("maximum above one", lambda: H(max_weights=1.1).fit(X))
    ctx.refused("maximum weights below full investment", lambda: H(max_weights=0.9 / m).fit(X))
    ctx.refused("minimum above maximum", lambda: H(min_weights=[0.5] + [0.0] * (m - 1), max_weights=[0.4] + [1.0] * (m - 1)).fit(X))
    ctx.refused("minimum weights above full investment", lambda: H(min_weights=1.2 / m).fit(X))
    ctx.refused("bounds of the wrong length", lambda: H(max_weights=[1.0] * (m + 1)).fit(X))
    ctx.refused("names with unnamed assets", lambda: H(max_weights={"a": 0.5}).fit(c.A))
    ctx.refused("performance measure as risk", lambda: H(risk_measure=PerfMeasure.MEAN).fit(X))
    ctx.refused("skewness as risk", lambda: H(risk_measure=ExtraRiskMeasure.SKEW).fit(X))
    ctx.refused("kurtosis as risk", lambda: H(risk_measure=ExtraRiskMeasure.KURTOSIS).fit(X))
    a = H(min_weights=None, max_weights=None).fit(X).weights_
    b = H(risk_measure=RiskMeasure.VARIANCE).fit(X).weights_
    ctx.close("no bounds means zero to one", a, b, 1e-12, 1e-14)


@scenario("C17", quick=40, thorough=300)
def equal_bounds(ctx):
    """Bounds of one over the number of assets leave the equal weights only."""
    rng = ctx.rng
    m = int(rng.integers(2, 40))
    c = hier.Market(rng, m=m)
    b = 1 / m if rng.random() < 0.5 else np.full(m, 1 / m)
    ctx.note(m=m)
    for side in ("min_weights", "max_weights"):
        w = HierarchicalRiskParity(**{side: b}).fit(c.X).weights_
        ctx.close("the only feasible weights", w, np.full(m, 1 / m), 0, 1e-6, side=side)
    ctx.state(c.A, m)
