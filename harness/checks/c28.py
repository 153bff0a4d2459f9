"""C28: hierarchical clustering against a naive agglomeration."""

import itertools

import numpy as np
import pandas as pd

import gens
from core import Skip, rule, scenario

from skfolio.cluster import HierarchicalClustering, LinkageMethod
from skfolio.distance import PearsonDistance
from skfolio.optimization import HierarchicalRiskParity

rule("C28", "one state per clustered (distance matrix, linkage, cluster limit)")

METHODS = [LinkageMethod.SINGLE, LinkageMethod.COMPLETE, LinkageMethod.AVERAGE, LinkageMethod.WEIGHTED, LinkageMethod.CENTROID, LinkageMethod.MEDIAN, LinkageMethod.WARD]
MONOTONE = {LinkageMethod.SINGLE, LinkageMethod.COMPLETE, LinkageMethod.AVERAGE, LinkageMethod.WEIGHTED, LinkageMethod.WARD}


def agglomerate(D, method):
    """Merge the two closest clusters until one is left; (members, height) per merge."""
    n = len(D)
    size = {i: 1 for i in range(n)}
    mem = {i: frozenset([i]) for i in range(n)}
    d = {(i, j): float(D[i, j]) for i in range(n) for j in range(i + 1, n)}
    get = lambda a, b: d[(min(a, b), max(a, b))]
    out, nxt, gap = [], n, np.inf
    while len(mem) > 1:
        order = sorted(d.items(), key=lambda kv: kv[1])
        (s, t), h = order[0]
        if len(order) > 1:
            gap = min(gap, order[1][1] - h)
        u = nxt
        nxt += 1
        ns, nt = size[s], size[t]
        new = {}
        for v in mem:
            if v in (s, t):
                continue
            a, b, nv = get(v, s), get(v, t), size[v]
            if method == LinkageMethod.SINGLE:
                x = min(a, b)
            elif method == LinkageMethod.COMPLETE:
                x = max(a, b)
            elif method == LinkageMethod.AVERAGE:
                x = (ns * a + nt * b) / (ns + nt)
            elif method == LinkageMethod.WEIGHTED:
                x = (a + b) / 2
            elif method == LinkageMethod.CENTROID:
                x = np.sqrt(max((ns * a * a + nt * b * b) / (ns + nt) - ns * nt * h * h / (ns + nt) ** 2, 0))
            elif method == LinkageMethod.MEDIAN:
                x = np.sqrt(max(a * a / 2 + b * b / 2 - h * h / 4, 0))
            else:
                x = np.sqrt(max(((nv + ns) * a * a + (nv + nt) * b * b - nv * h * h) / (nv + ns + nt), 0))
            new[v] = x
        mem[u] = mem.pop(s) | mem.pop(t)
        size[u] = ns + nt
        d = {k: v for k, v in d.items() if s not in k and t not in k}
        d.update({(v, u): x for v, x in new.items()})
        out.append((mem[u], h, frozenset()))
    return [(a, b) for a, b, _ in out], gap


def levels(merges, n, k):
    """The partition into k clusters: all but the last k - 1 merges applied."""
    part = {frozenset([i]) for i in range(n)}
    for m, _ in merges[: n - k]:
        part = {p for p in part if not p <= m} | {m}
    return part


def gap_clusters(D, merges, n):
    """Number of clusters with the largest second difference of the dispersion."""
    top = min(n, max(8, round(np.sqrt(n))))
    W = []
    for k in range(1, top + 1):
        W.append(sum(np.mean([D[i, j] for i, j in itertools.combinations(sorted(c), 2)]) for c in levels(merges, n, k) if len(c) > 1))
    g = [W[i + 2] + W[i] - 2 * W[i + 1] for i in range(len(W) - 2)]
    o = np.sort(g)[::-1]
    return int(np.argmax(g)) + 2, (o[0] - o[1]) if len(o) > 1 else np.inf


def _distance(rng, n):
    k = str(rng.choice(["random", "euclid", "corr", "blocks"]))
    if k == "random":
        D = rng.uniform(0.1, 1, (n, n))
    elif k == "euclid":
        P = rng.normal(size=(n, 3))
        D = np.linalg.norm(P[:, None] - P[None], axis=2)
    elif k == "corr":
        D = PearsonDistance().fit(gens.market(rng, 60, n)).distance_.copy()
    else:
        g = rng.integers(0, 3, n)
        D = np.where(g[:, None] == g[None], 0.2, 1.0) + rng.uniform(0, 0.1, (n, n))
    D = (D + D.T) / 2
    np.fill_diagonal(D, 0)
    return D, k


def _tree(Z, n):
    nodes = {i: frozenset([i]) for i in range(n)}
    for r, row in enumerate(Z):
        nodes[n + r] = nodes[int(row[0])] | nodes[int(row[1])]
    return nodes


@scenario("C28", quick=900, thorough=9000)
def clustering(ctx):
    rng = ctx.rng
    n = int(rng.choice([2, 3, 4, 5, 6, 8, 10, 14, 20])) if rng.random() < 0.985 else int(rng.integers(40, 90))
    D, dk = _distance(rng, n)
    method = METHODS[int(rng.integers(len(METHODS)))]
    limit = None if rng.random() < 0.5 else int(rng.integers(1, n + 3))
    ctx.note(n=n, matrix=dk, method=method, limit=limit)
    merges, gap = agglomerate(D, method)
    if gap < 1e-9:
        raise Skip("ties")
    kw = {} if method == LinkageMethod.WARD and rng.random() < 0.5 else dict(linkage_method=method)
    X = pd.DataFrame(D, columns=gens.names(rng, n)) if rng.random() < 0.4 else D
    keep = D.copy()
    est = HierarchicalClustering(max_clusters=limit, **kw).fit(X)
    ctx.check("distance untouched", np.array_equal(D, keep))
    Z, lab = est.linkage_matrix_, np.asarray(est.labels_)
    ctx.equal("linkage shape", Z.shape, (n - 1, 4))
    ctx.close("condensed distance", est.condensed_distance_, [D[i, j] for i in range(n) for j in range(i + 1, n)], 1e-12)
    nodes = _tree(Z, n)
    got = [nodes[n + r] for r in range(n - 1)]
    ctx.check("clusters merged", set(got) == {m for m, _ in merges}, got=got, want=merges)
    hs = {m: h for m, h in merges}
    if set(got) == set(hs):
        ctx.close("merge heights", Z[:, 2], [hs[m] for m in got], 1e-8, 1e-10)
        ctx.close("merge sizes", Z[:, 3], [len(m) for m in got], 0, 0)
    # labels
    ctx.equal("one label per item", lab.shape, (n,))
    k = est.n_clusters_
    ctx.equal("labels are consecutive from zero", sorted(set(lab.tolist())), list(range(k)))
    part = {frozenset(np.flatnonzero(lab == c).tolist()) for c in range(k)}
    ctx.check("clusters are nodes of the tree", part <= set(nodes.values()), part=part)
    if method in MONOTONE:
        want = limit
        if limit is None:
            if n < 3:
                want = n
            else:
                want, margin = gap_clusters(D, merges, n)
                if margin < 1e-9:
                    raise Skip("tied gap statistic")
        want = min(want, n)
        ctx.equal("number of clusters", k, want)
        ctx.check("tree cut at the number of clusters", part == levels(merges, n, k), part=part)
    elif limit is not None:
        ctx.check("at most the cluster limit", k <= limit, got=k)
    if rng.random() < 0.1:
        H = HierarchicalClustering
        bad = D.copy()
        bad[0, 1] += 0.5
        ctx.refused("asymmetric matrix", lambda: H().fit(bad), (ValueError,))
        ctx.refused("non-zero diagonal", lambda: H().fit(D + 0.1 * np.eye(n)), (ValueError,))
        ctx.refused("not square", lambda: H().fit(D[:, :-1] if n > 2 else np.ones((3, 2))), (ValueError,))
    ctx.state(D, method.value, limit)


@scenario("C28", quick=60, thorough=500)
def dendrogram(ctx):
    """The plotted heat map shows the distances in leaf order."""
    rng = ctx.rng
    n = gens.some(rng, 3, 10)
    D, dk = _distance(rng, n)
    named = bool(rng.random() < 0.6)
    cols = gens.names(rng, n)
    X = pd.DataFrame(D, columns=cols) if named else D
    method = [m for m in METHODS if m in MONOTONE][int(rng.integers(5))]
    est = HierarchicalClustering(linkage_method=method, max_clusters=int(rng.integers(2, n))).fit(X)
    ctx.note(n=n, matrix=dk, method=method, named=named)
    fig = est.plot_dendrogram()
    heat = [t for t in fig.data if t.type == "heatmap"]
    ctx.equal("one heat map", len(heat), 1)
    text = list(fig.layout.xaxis.ticktext)
    if named:
        ctx.equal("every asset once", sorted(text), sorted(cols))
        ix = [cols.index(t) for t in text]
    else:
        ctx.equal("every asset once", len(set(text)), n)
        names = sorted(text, key=lambda t: (len(str(t)), str(t)))
        ix = [names.index(t) for t in text]
    z = np.array(heat[0].z, dtype=float)
    ctx.close("heat map entries", z, D[np.ix_(ix, ix)], 1e-12)
    boxes = [(s.x0, s.x1) for s in fig.layout.shapes]
    ctx.equal("one box per cluster", len(boxes), est.n_clusters_)
    delta = float(np.diff(fig.layout.xaxis.tickvals)[0])
    spans = sorted((round(a / delta), round(b / delta)) for a, b in boxes)
    lab = np.asarray(est.labels_)[ix]
    want = []
    for c in set(lab.tolist()):
        p = np.flatnonzero(lab == c)
        want.append((int(p[0]), int(p[-1]) + 1))
    ctx.equal("boxes span their cluster", spans, sorted(want))
    ctx.check("leaf order keeps clusters together", all(b - a == int(np.sum(lab == lab[a])) for a, b in spans), lab=lab)
    flat = est.plot_dendrogram(heatmap=False)
    ctx.equal("dendrogram alone, labels", sorted(flat.layout.xaxis.ticktext), sorted(text))
    ctx.equal("dendrogram alone, one trace per merge", len(flat.data), n - 1)
    ctx.state(D, method.value)
