"""C36: results follow the assets, not their order, names or scale."""

import numpy as np
import pandas as pd

import catalog
import gens
from checks.c35 import fit
from core import Skip, rule, scenario

from skfolio import RiskMeasure
from skfolio.cluster import HierarchicalClustering, LinkageMethod
from skfolio.distance import KendallDistance, PearsonDistance, SpearmanDistance
from skfolio.optimization import HierarchicalEqualRiskContribution, HierarchicalRiskParity
from skfolio.portfolio import Portfolio

rule("C36", "one state per (estimator, market, transformation)")


def _compare(ctx, name, sp, got, want, view, factor=1.0, extra=1.0, **detail):
    """``got`` comes from ``view``; ``want`` is in base order."""
    for (l, a, axes, p), (_, b, *_) in zip(got, want):
        a, b = view.base(np.asarray(a, float), axes), np.asarray(b, float) * factor**p
        s = 1.0 if sp.tags.get("loose") and p == 0 else (np.abs(b).max() if b.size else 0.0)
        ctx.close(f"{name}: {l}", a, b, 0, sp.tol * extra * s + 1e-14, **detail)


def _case(ctx, kinds=None, ban=()):
    rng = ctx.rng
    m = gens.some(rng, 4, 7)
    X = gens.market(rng, int(rng.integers(45, 80)), m)
    kinds = kinds or list(catalog.KINDS)
    for _ in range(40):
        sp = catalog.spec(rng, m, kinds=kinds)
        if not any(sp.tags.get(b) for b in ban):
            break
    else:
        raise Skip("nothing suitable")
    frame = True if sp.tags.get("named") else bool(rng.random() < 0.7)
    keyed = bool(frame and rng.random() < 0.5)
    v = catalog.View(catalog.simple_names(rng, m), keyed=keyed, lists=bool(rng.random() < 0.4), frame=frame)
    est = fit(sp.make(v), *catalog.inputs(rng, sp, X, v))
    want = [(l, np.array(a), *r) for l, a, *r in sp.result(est)]
    ctx.note(kind=sp.kind, shape=X.shape, estimator=est, names=v.names, keyed=keyed)
    return sp, X, v, est, want


@scenario("C36", quick=420, thorough=5000)
def order(ctx):
    """Another column order gives the same allocation asset by asset."""
    rng = ctx.rng
    sp, X, v, est, want = _case(ctx, ban=("no_order",))
    m = X.shape[1]
    perm = rng.permutation(m)
    frame = v.frame
    w = catalog.View([v.names[i] for i in perm], perm, keyed=bool(frame and rng.random() < 0.5), lists=bool(rng.random() < 0.4), frame=frame)
    e2 = fit(sp.make(w), *catalog.inputs(rng, sp, X, w))
    ctx.note(perm=perm)
    _compare(ctx, "reordered", sp, sp.result(e2), want, w, kind=sp.kind)
    if sp.tags.get("optim") and est.weights_.ndim == 1:
        p, q = est.predict(v.table(X)), e2.predict(w.table(X))
        ctx.close("same portfolio returns", q.returns, p.returns, 0, 2 * sp.tol * np.abs(X).max() * (m if sp.tags.get("loose") else 1) + 1e-12)
    ctx.state(sp.kind, X, perm)


@scenario("C36", quick=300, thorough=3500)
def names(ctx):
    """Other names change labels only."""
    rng = ctx.rng
    sp, X, v, est, want = _case(ctx)
    m = X.shape[1]
    if v.frame:
        new = [f"N{99 - i}x" for i in rng.permutation(m)]
        w = catalog.View(new, None, keyed=v.keyed, lists=v.lists, frame=True)
    else:
        w = catalog.View(v.names, None, keyed=False, lists=v.lists, frame=True)
    T, y, fp = catalog.inputs(rng, sp, X, w)
    if not v.frame and fp:
        fp = {k: np.asarray(x) for k, x in fp.items()}
    e2 = fit(sp.make(w), T, y, fp)
    _compare(ctx, "renamed", sp, sp.result(e2), want, w, kind=sp.kind)
    if sp.tags.get("optim"):
        p = e2.predict(T)
        p = p if est.weights_.ndim == 1 else p[0]
        ctx.equal("labels of the prediction", [str(a) for a in p.assets], w.names)
        big = np.asarray(e2.weights_ if e2.weights_.ndim == 1 else e2.weights_[0])
        comp = p.composition.iloc[:, 0]
        for n, x in zip(w.names, big):
            if abs(x) > 2e-5:
                ctx.close("labelled weights", comp[n], x, 1e-12, 1e-12)
    elif sp.tags.get("transformer"):
        out = e2.set_output(transform="pandas").transform(T)
        keep = [n for n, k in zip(w.names, e2.get_support()) if k]
        ctx.equal("labels of the kept assets", list(out.columns), keep)
        ctx.close("values of the kept assets", out.to_numpy(), X[:, e2.get_support()], 0, 0)
        ctx.equal("names out", list(e2.get_feature_names_out()), keep)
    ctx.state(sp.kind, X, w.names)


@scenario("C36", quick=260, thorough=3000)
def keyed(ctx):
    """Values keyed by name in any order mean the same as values by position."""
    rng = ctx.rng
    m = gens.some(rng, 4, 7)
    X = gens.market(rng, int(rng.integers(45, 80)), m)
    sp = catalog.spec(rng, m, kinds=["bl", "mean_risk", "frontier", "risk_budgeting", "max_div", "dr_cvar", "hrp", "stacking", "robust"])
    nm = catalog.simple_names(rng, m)
    a = catalog.View(nm, keyed=False, lists=bool(rng.random() < 0.5))
    b = catalog.View(nm, keyed=True)
    e1 = fit(sp.make(a), *catalog.inputs(rng, sp, X, a))
    e2 = sp.make(b)
    # the order of the keys carries no meaning
    shuffled = {}
    for k, val in e2.get_params(deep=False).items():
        if isinstance(val, dict) and set(val) == set(nm):
            shuffled[k] = {nm[i]: val[nm[i]] for i in rng.permutation(m)}
    e2.set_params(**shuffled)
    fit(e2, *catalog.inputs(rng, sp, X, b))
    want = sp.result(e1)
    ctx.note(kind=sp.kind, estimator=e2, names=nm)
    tight = 1e-3 if sp.tags.get("loose") else 1e-7
    for (l, x, *_), (_, y, *_) in zip(sp.result(e2), want):
        y = np.asarray(y, float)
        ctx.close(f"keyed: {l}", x, y, 0, tight * (1.0 if sp.tags.get("loose") else np.abs(y).max()) + 1e-14)
    if sp.tags.get("optim"):
        T = a.table(X)
        p, q = e1.predict(T), e2.predict(T)
        for r, s in zip([p] if e1.weights_.ndim == 1 else p, [q] if e1.weights_.ndim == 1 else q):
            ctx.close("same portfolio returns", s.returns, r.returns, 0, 1e-4)
            for k in ("total_cost", "total_fee"):
                ctx.close(f"same {k}", getattr(s, k), getattr(r, k), 1e-3, 1e-5)
    ctx.state(sp.kind, X, nm)


@scenario("C36", quick=300, thorough=3500)
def scale(ctx):
    """Returns in other units rescale the moments and leave scale-free allocations alone."""
    rng = ctx.rng
    sp, X, v, est, want = _case(ctx, ban=("no_scale", "named"))
    c = float(rng.choice([0.25, 0.5, 2.0, 4.0]))
    if sp.tags.get("distance"):
        raise Skip("takes a distance")
    e2 = fit(sp.make(v), *catalog.inputs(rng, sp, X * c, v))
    ctx.note(scale=c)
    extra = 2.0 if sp.tags.get("loose") else 10.0
    # the search for the noise bandwidth and the shrinkage towards absolute targets
    _compare(ctx, "rescaled", sp, sp.result(e2), want, v, factor=c, extra=extra, kind=sp.kind)
    ctx.state(sp.kind, X, c)


@scenario("C36", quick=200, thorough=2500)
def hierarchical_order(ctx):
    """With two clear groups of two, hierarchical allocations follow the assets."""
    rng = ctx.rng
    n = int(rng.integers(60, 150))
    z = rng.normal(size=(n, 2))
    X = np.column_stack([z[:, 0], z[:, 0], z[:, 1], z[:, 1]]) + rng.normal(0, 0.25, (n, 4)) * np.array([1.0, 1.3, 0.8, 1.1])
    X = X * rng.uniform(0.005, 0.02, 4) + 0.0005
    cls = HierarchicalRiskParity if rng.random() < 0.5 else HierarchicalEqualRiskContribution
    d = [PearsonDistance, KendallDistance, SpearmanDistance][int(rng.integers(3))]
    lm = [LinkageMethod.WARD, LinkageMethod.AVERAGE, LinkageMethod.COMPLETE][int(rng.integers(3))]
    rm = [RiskMeasure.VARIANCE, RiskMeasure.CVAR, RiskMeasure.SEMI_DEVIATION][int(rng.integers(3))]
    hi = np.minimum(1, rng.uniform(0.3, 0.6, 4)) if rng.random() < 0.5 else None
    nm = np.array(["A", "B", "C", "D"])

    def go(perm):
        e = cls(distance_estimator=d(), hierarchical_clustering_estimator=HierarchicalClustering(linkage_method=lm, max_clusters=2), risk_measure=rm, max_weights=None if hi is None else {str(k): float(x) for k, x in zip(nm, hi)})
        if hi is None:
            e.set_params(max_weights=1.0)
        e.fit(pd.DataFrame(X[:, perm], columns=nm[perm]))
        return e.weights_[np.argsort(perm)]

    want = go(np.arange(4))
    perm = rng.permutation(4)
    ctx.note(cls=cls.__name__, distance=d.__name__, linkage=lm, risk=rm, limits=hi, perm=perm)
    if d is PearsonDistance:
        cor = np.abs(np.corrcoef(X.T))
        if min(cor[0, 1], cor[2, 3]) < 2.5 * np.abs(cor[:2, 2:]).max() or min(cor[0, 1], cor[2, 3]) < 0.7:
            raise Skip("groups not clear")
    ctx.close("weights by asset", go(perm), want, 0, 1e-5)
    ctx.state(cls.__name__, X, perm)
