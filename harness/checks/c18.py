"""C18: hierarchical equal risk contribution against a recursion on the dendrogram."""

import cvxpy as cp
import numpy as np
import scipy.cluster.hierarchy as sch
from sklearn.base import clone

import gens
import hier
from core import Skip, rule, scenario

from skfolio.cluster import HierarchicalClustering
from skfolio.measures import ExtraRiskMeasure, PerfMeasure
from skfolio.optimization import HierarchicalEqualRiskContribution
from skfolio.utils.stats import minimize_relative_weight_deviation

rule("C18", "one state per fitted (market, prior, distance, clustering, risk measure, costs, bounds)")


def reference(c, name, labels):
    unit = c.asset_risks(name)
    k = int(max(labels)) + 1
    groups = [np.flatnonzero(labels == g) for g in range(k)]
    inner = [c.inverse_risk(name, g, unit) for g in groups]
    risk = [c.risk(name, w) for w in inner]
    if min(risk) <= 1e-9 * max(unit):
        raise Skip("non-positive cluster risk")
    share = np.ones(k)
    leaves = {i: {i} for i in range(c.m)}
    kids = {}
    for i, (a, b, _, _) in enumerate(c.Z):
        kids[c.m + i] = (int(a), int(b))
        leaves[c.m + i] = leaves[int(a)] | leaves[int(b)]

    def walk(node):
        inside = [g for g in range(k) if set(groups[g]) <= leaves[node]]
        if len(inside) == 1 and set(groups[inside[0]]) == leaves[node]:
            return
        if not inside:
            raise Skip("clusters are not subtrees")
        a, b = kids[node]
        ga = [g for g in inside if set(groups[g]) <= leaves[a]]
        gb = [g for g in inside if set(groups[g]) <= leaves[b]]
        if not ga or not gb or len(ga) + len(gb) != len(inside):
            raise Skip("clusters are not subtrees")
        ra, rb = sum(risk[g] for g in ga), sum(risk[g] for g in gb)
        for g in ga:
            share[g] *= rb / (ra + rb)
        for g in gb:
            share[g] *= ra / (ra + rb)
        walk(a)
        walk(b)

    walk(2 * c.m - 2)
    return sum(s * w for s, w in zip(share, inner))


def adjust(w0, lo, hi):
    """Minimizer of the sum of squared relative changes within the bounds, by its multiplier."""
    a, b = -1e9, 1e9

    def w(t):
        return np.clip(w0 + t * w0**2, lo, hi)

    for _ in range(300):
        t = (a + b) / 2
        if w(t).sum() < 1:
            a = t
        else:
            b = t
    return w((a + b) / 2)


def _labels(c):
    hc = c.clustering if c.clustering is not None else HierarchicalClustering()
    hc = clone(hc).fit(c.D)
    labels = np.asarray(hc.labels_)
    if c.max_clusters is not None:
        labels = sch.fcluster(c.Z, t=c.max_clusters, criterion="maxclust") - 1
    return labels


@scenario("C18", quick=500, thorough=6000)
def weights(ctx):
    rng = ctx.rng
    c = hier.Market(rng)
    k, d = c.structure(monotone=bool(rng.random() < 0.9))
    c.costs(0.3)
    name = str(rng.choice(hier.CHEAP if rng.random() < 0.95 else hier.NAMES))
    ctx.note(risk=name, prior=k, distance=d, kw=c.kw, shape=c.A.shape)
    c.prepare()
    labels = _labels(c)
    w0 = reference(c, name, labels)
    model = c.fit(HierarchicalEqualRiskContribution(risk_measure=hier.ENUM[name], **c.kw))
    w = np.asarray(model.weights_)
    ctx.close("weights sum to one", w.sum(), 1.0, 1e-9, 0)
    ctx.close("weights of the cut tree", w, w0, 1e-2 if name in ("evar", "edar") else 1e-6, 1e-9, labels=labels)
    hier.dendrogram_names(ctx, model, c.cols)
    ctx.state(c.A, name, k, d, sorted(c.kw))


@scenario("C18", quick=300, thorough=3500)
def bounded(ctx):
    rng = ctx.rng
    c = hier.Market(rng)
    c.structure(monotone=True)
    kind = c.bounds()
    name = str(rng.choice(["variance", "standard_deviation", "cvar", "mean_absolute_deviation", "semi_variance"]))
    ctx.note(risk=name, kind=kind, kw=c.kw, m=c.m)
    c.prepare()
    free = reference(c, name, _labels(c))
    if c.m > 2 and rng.random() < 0.2 and free.min() > 0.01:
        # bounds that bind by very little
        d = float(rng.choice([2e-5, 2e-4, 2e-3]))
        i = int(np.argmax(free))
        c.lo, c.hi = np.zeros(c.m), np.ones(c.m)
        if rng.random() < 0.5:
            c.hi[i] = free[i] - d
        else:
            c.lo[np.argmin(free)] = free.min() + d
        c.kw.update(min_weights=c.lo, max_weights=c.hi)
        ctx.note(slight=d)
    model = HierarchicalEqualRiskContribution(risk_measure=hier.ENUM[name], **c.kw)
    if free.min() < 1e-4 and np.any((free < c.lo) | (free > c.hi)):
        # relative changes of vanishing weights can be beyond the solver
        try:
            c.fit(model)
        except cp.SolverError:
            raise Skip("solver") from None
    else:
        c.fit(model)
    w = np.asarray(model.weights_)
    ctx.close("weights sum to one", w.sum(), 1.0, 1e-6, 0, w=w)
    ctx.check("minimum weights hold", np.all(w >= c.lo - 1e-6), w=w, lo=c.lo)
    ctx.check("maximum weights hold", np.all(w <= c.hi + 1e-6), w=w, hi=c.hi)
    if np.all(free >= c.lo) and np.all(free <= c.hi):
        ctx.close("inactive bounds change nothing", w, free, 1e-6, 1e-9)
    else:
        if free.min() < 1e-3:
            raise Skip("relative changes too large for the solver")
        best = adjust(free, c.lo, c.hi)
        f, g = (float(np.sum((x / free - 1) ** 2)) for x in (w, best))
        ctx.check("smallest relative adjustment", f <= g * (1 + 1e-4) + 1e-6, ours=f, best=g, w=w, other=best)
        ctx.close("adjusted weights", w, best, 1e-2, 1e-3, free=free)
    ctx.state(c.A, name, c.lo, c.hi)


@scenario("C18", quick=200, thorough=2000)
def adjustment(ctx):
    """The weight adjustment on its own, on arbitrary starting weights."""
    rng = ctx.rng
    m = gens.some(rng, 2, 12)
    w0 = rng.dirichlet(np.ones(m) * float(rng.choice([0.5, 1, 5])))
    w0 = np.maximum(w0, 1e-4)
    w0 /= w0.sum()
    ref = rng.dirichlet(np.ones(m))
    lo = np.round(ref * rng.uniform(0, 1, m), 3) * (rng.random(m) < 0.7)
    hi = np.minimum(1, np.maximum(ref * rng.uniform(1, 2, m), lo) + 0.005)
    if lo.sum() > 0.999 or hi.sum() < 1.001:
        raise Skip("bounds")
    ctx.note(w0=w0, lo=lo, hi=hi)
    keep = (w0.copy(), lo.copy(), hi.copy())
    w = np.asarray(minimize_relative_weight_deviation(w0, lo, hi))
    ctx.equal("arguments untouched", [a.tobytes() for a in (w0, lo, hi)], [a.tobytes() for a in keep])
    best = adjust(w0, lo, hi)
    f, g = (float(np.sum((x / w0 - 1) ** 2)) for x in (w, best))
    ctx.check("within bounds", np.all(w >= lo - 1e-6) and np.all(w <= hi + 1e-6), w=w)
    ctx.close("sum to one", w.sum(), 1.0, 1e-6, 0)
    ctx.check("smallest relative adjustment", f <= g * (1 + 1e-4) + 1e-6, ours=f, best=g, w=w, other=best)
    ctx.refused("minimum above maximum", lambda: minimize_relative_weight_deviation(w0, hi + 0.1, hi))
    ctx.refused("sizes differ", lambda: minimize_relative_weight_deviation(w0, lo[:-1], hi))
    ctx.refused("start not fully invested", lambda: minimize_relative_weight_deviation(w0 * 0.9, lo, hi))
    ctx.refused("negative start", lambda: minimize_relative_weight_deviation(np.r_[-0.1, w0[1:] + (w0[0] + 0.1) / (m - 1)], lo, hi))
    ctx.state(w0, lo, hi)


@scenario("C18", quick=40, thorough=300)
def refusals(ctx):
    rng = ctx.rng
    c = hier.Market(rng, m=gens.some(rng, 2, 6))
    m, X, H = c.m, c.X, HierarchicalEqualRiskContribution
    ctx.note(m=m)
    ctx.state(c.A)
    ctx.refused("negative minimum weight", lambda: H(min_weights=-0.01).fit(X))
    ctx.refused("maximum above one", lambda: H(max_weights=1.1).fit(X))
    ctx.refused("maximum weights below full investment", lambda: H(max_weights=0.9 / m).fit(X))
    ctx.refused("minimum above maximum", lambda: H(min_weights=[0.5] + [0.0] * (m - 1), max_weights=[0.4] + [1.0] * (m - 1)).fit(X))
    ctx.refused("minimum weights above full investment", lambda: H(min_weights=1.2 / m).fit(X))
    ctx.refused("bounds of the wrong length", lambda: H(max_weights=[1.0] * (m + 1)).fit(X))
    ctx.refused("performance measure as risk", lambda: H(risk_measure=PerfMeasure.MEAN).fit(X))
    ctx.refused("skewness as risk", lambda: H(risk_measure=ExtraRiskMeasure.SKEW).fit(X))
    ctx.refused("kurtosis as risk", lambda: H(risk_measure=ExtraRiskMeasure.KURTOSIS).fit(X))


@scenario("C18", quick=40, thorough=300)
def equal_bounds(ctx):
    """Bounds of one over the number of assets leave the equal weights only."""
    rng = ctx.rng
    m = int(rng.integers(2, 40))
    c = hier.Market(rng, m=m)
    b = 1 / m if rng.random() < 0.5 else np.full(m, 1 / m)
    ctx.note(m=m)
    for side in ("min_weights", "max_weights"):
        w = HierarchicalEqualRiskContribution(**{side: b}).fit(c.X).weights_
        ctx.close("the only feasible weights", w, np.full(m, 1 / m), 0, 1e-5, side=side)
    ctx.state(c.A, m)
