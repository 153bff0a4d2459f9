"""C34: vine copulas and the synthetic-data prior."""

import itertools

import numpy as np
import pandas as pd
import scipy.stats as st
import sklearn
import sklearn.base as skb
from sklearn.feature_selection import mutual_info_regression

import gens
from checks import c32
from checks.c33 import FAMILIES as COPULAS, _kendall, describe, draw, hfun, logpdf
from checks.c33 import _random as random_copula
from core import Skip, rule, scenario

from skfolio.distribution import (
    DependenceMethod, Gaussian, JohnsonSU, SelectionCriterion, StudentT, VineCopula, select_bivariate_copula, select_univariate_dist,
)
from skfolio.prior import SyntheticData

rule("C34", "one state per fitted (market, vine options)")

EPS = 1e-9
UNI = {Gaussian: "gaussian", StudentT: "student", JohnsonSU: "johnson"}


def _market(rng, m=None, n=None):
    """Uniform data with tree-like dependence, including asymmetric and negative pairs."""
    m = int(m or rng.integers(3, 6))
    n = int(n or rng.choice([60, 120, 250]))
    U = np.empty((n, m))
    U[:, 0] = rng.uniform(1e-4, 1 - 1e-4, n)
    for j in range(1, m):
        i = int(rng.integers(j))
        c = random_copula(rng)
        if rng.random() < 0.15:
            U[:, j] = rng.uniform(1e-4, 1 - 1e-4, n)
            continue
        q = rng.uniform(1e-5, 1 - 1e-5, n)
        lo, hi = np.full(n, 1e-7), np.full(n, 1 - 1e-7)
        for _ in range(40):
            mid = (lo + hi) / 2
            up = hfun(c, np.column_stack([U[:, i], mid]), True) < q
            lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
        U[:, j] = (lo + hi) / 2
    return U[:, rng.permutation(m)]


def _returns(rng, U):
    Z = np.empty_like(U)
    for j in range(U.shape[1]):
        k = rng.integers(3)
        z = st.norm.ppf(U[:, j]) if k == 0 else st.t.ppf(U[:, j], 5) if k == 1 else np.sinh(st.norm.ppf(U[:, j]) / 1.5 + 0.3)
        Z[:, j] = np.clip(0.0005 + 0.012 * rng.uniform(0.5, 2) * z, -0.6, 2)
    return Z


def _candidates(rng):
    k = [str(x) for x in rng.permutation(list(COPULAS))[: int(rng.integers(1, 5))]]
    return [COPULAS[x]() for x in k]


def _vine(ctx, fit_marginals=None, central=None, m=None, n=None, options=True, frame=None):
    rng = ctx.rng
    U = _market(rng, m, n)
    m = U.shape[1]
    fm = bool(rng.random() < 0.5) if fit_marginals is None else fit_marginals
    X = _returns(rng, U) if fm else U
    kw = dict(fit_marginals=fm, random_state=int(rng.integers(1000)), copula_candidates=_candidates(rng))
    if fm:
        kw["marginal_candidates"] = [[Gaussian()], [Gaussian(), StudentT()], [Gaussian(), StudentT(), JohnsonSU()]][int(rng.integers(3))]
    if options:
        if rng.random() < 0.6:
            kw["max_depth"] = [None, 2, 3, 10][int(rng.integers(4))]
        if rng.random() < 0.3:
            kw["selection_criterion"] = SelectionCriterion.BIC
        if rng.random() < 0.3:
            kw["independence_level"] = float(rng.choice([0.01, 0.2, 1.0]))
    A = pd.DataFrame(X, columns=gens.names(rng, m)) if (rng.random() < 0.5 if frame is None else frame) else X
    if central:
        idx = [int(i) for i in rng.permutation(m)[:central]]
        kw["central_assets"] = [str(A.columns[i]) if isinstance(A, pd.DataFrame) and rng.random() < 0.6 else i for i in idx]
    else:
        idx = []
    ctx.note(shape=X.shape, options={k: str(v) for k, v in kw.items()}, frame=isinstance(A, pd.DataFrame))
    est = VineCopula(**kw).fit(A)
    return est, A, X, kw, idx


def _edges(est):
    """[(level, a, b, conditioning, copula)] from the public fitted trees."""
    out = []
    for k, tree in enumerate(est.trees_):
        for e in tree.edges:
            a, b = e.cond_sets.conditioned
            out.append((k, int(a), int(b), frozenset(int(i) for i in e.cond_sets.conditioning), e.copula))
    return out


def _margins(est, X, kw):
    """Uniform scale of the data through the fitted margins, with their log density."""
    if not kw["fit_marginals"]:
        return np.clip(X, EPS, 1 - EPS), np.zeros(len(X))
    U, ll = np.empty_like(X), np.zeros(len(X))
    for j, d in enumerate(est.marginal_distributions_):
        kind, p = UNI[type(d)], c32._params(d)
        U[:, j] = c32.cdf(kind, p, X[:, j])
        ll += c32.logpdf(kind, p, X[:, j])
    return np.clip(U, EPS, 1 - EPS), ll


def _recursion(edges, U):
    """Conditional distribution of every (asset | set) reached by the vine."""
    F = {(j, frozenset()): U[:, j] for j in range(U.shape[1])}
    for _, a, b, D, cop in edges:
        P = np.clip(np.column_stack([F[a, D], F[b, D]]), EPS, 1 - EPS)
        c = describe(cop)
        F[a, D | {b}] = hfun(c, P, False)
        F[b, D | {a}] = hfun(c, P, True)
    return F


def _structure(ctx, est, m, depth):
    E = _edges(est)
    ctx.equal("number of trees", len(est.trees_), depth)
    for k in range(depth):
        lev = [e for e in E if e[0] == k]
        ctx.equal("edges per tree", len(lev), m - 1 - k)
        ctx.equal("nodes per tree", len(est.trees_[k].nodes), m - k)
        ctx.check("conditioning size", all(len(D) == k and a != b and not {a, b} & D for _, a, b, D, _ in lev), level=k, edges=[e[1:4] for e in lev])
        ctx.equal("distinct pairs", len({frozenset((a, b)) for _, a, b, _, _ in lev}), len(lev))
        # spanning tree over the nodes: assets first, then the previous edges
        nodes = [frozenset([i]) for i in range(m)] if k == 0 else [frozenset((a, b)) | D for kk, a, b, D, _ in E if kk == k - 1]
        group = {n: i for i, n in enumerate(nodes)}
        for _, a, b, D, _ in lev:
            want = [n for n in nodes if n <= (frozenset((a, b)) | D)]
            ok = ctx.check("joins two nodes sharing their conditioning set", len(want) == 2 and (want[0] & want[1]) == D and (want[0] | want[1]) == (frozenset((a, b)) | D), edge=(a, b, D))
            if ok:
                g0, g1 = group[want[0]], group[want[1]]
                ctx.check("no cycle", g0 != g1, level=k)
                group = {n: (g0 if g == g1 else g) for n, g in group.items()}
    return E


@scenario("C34", quick=160, thorough=1600)
def trees(ctx):
    rng = ctx.rng
    central = int(rng.choice([0, 0, 1, 2]))
    est, A, X, kw, idx = _vine(ctx, central=central)
    m = X.shape[1]
    md = kw.get("max_depth", 4)
    depth = m - 1 if md is None else min(md, m - 1)
    E = _structure(ctx, est, m, depth)
    ctx.equal("central assets", {int(i) for i in est.central_assets_}, set(idx))
    if idx:
        first = [(a, b) for k, a, b, _, _ in E if k == 0]
        inner = [e for e in first if set(e) <= set(idx)]
        ctx.equal("central assets are linked together", len(inner), len(idx) - 1)
        ctx.check("other assets hang on a central one", all(set(e) & set(idx) for e in first), edges=first, central=idx)
    U, ll = _margins(est, X, kw)
    if kw["fit_marginals"]:
        for j, d in enumerate(est.marginal_distributions_):
            ref = select_univariate_dist(X[:, [j]], kw["marginal_candidates"], kw.get("selection_criterion", SelectionCriterion.AIC))
            ctx.equal("family of the margin", type(d), type(ref), asset=j)
            ctx.close("score of the margin", d.score(X[:, [j]]), ref.score(X[:, [j]]), 1e-6, 1e-4, asset=j)
    F = _recursion(E, U)
    # every pair copula is the selected one for its conditional pair
    for k, a, b, D, cop in E:
        P = np.clip(np.column_stack([F[a, D], F[b, D]]), EPS, 1 - EPS)
        level = kw.get("independence_level", 0.05)
        if abs(st.kendalltau(P[:, 0], P[:, 1]).pvalue - level) < 1e-4:
            continue
        ref = select_bivariate_copula(P, kw["copula_candidates"], kw.get("selection_criterion", SelectionCriterion.AIC), level)
        ctx.close("pair copula fits as well as the selected one", logpdf(describe(cop), P).sum(), logpdf(describe(ref), P).sum(), 1e-3, 0.05, edge=(a, b, sorted(D)), got_copula=describe(cop), want_copula=describe(ref))
    if not idx:
        # spanning trees of largest absolute Kendall's tau, level by level
        for k in range(depth):
            if k == 0:
                nodes = [frozenset([i]) for i in range(m)]
            else:
                nodes = [frozenset((a, b)) | D for kk, a, b, D, _ in E if kk == k - 1]
                prev = [e for e in E if e[0] == k - 1]
            cand = []
            for i in range(len(nodes)):
                for j in range(i + 1, len(nodes)):
                    inter, sym = nodes[i] & nodes[j], nodes[i] ^ nodes[j]
                    if len(inter) != k or len(sym) != 2:
                        continue
                    a, b = sorted(sym)
                    if k > 0 and ((a, inter) not in F or (b, inter) not in F):
                        continue
                    cand.append((abs(_kendall(F[a, inter], F[b, inter])), i, j))
            group = list(range(len(nodes)))
            best = 0.0
            for w, i, j in sorted(cand, reverse=True):
                if group[i] != group[j]:
                    best += w
                    g = group[j]
                    group = [group[i] if x == g else x for x in group]
            got = sum(abs(_kendall(F[a, D], F[b, D])) for kk, a, b, D, _ in E if kk == k)
            ctx.close("maximum spanning tree", got, best, 1e-6, 2e-4, level=k)
    npar = sum(c.n_params for *_, c in E) + (sum(d.n_params for d in est.marginal_distributions_) if kw["fit_marginals"] else 0)
    ctx.equal("number of parameters", est.n_params, npar)
    ctx.state(X, depth, idx, kw["fit_marginals"])


@scenario("C34", quick=160, thorough=1600)
def densities(ctx):
    rng = ctx.rng
    est, A, X, kw, idx = _vine(ctx, central=int(rng.choice([0, 1])))
    E = _edges(est)
    Y = X[rng.permutation(len(X))[:30]]
    if rng.random() < 0.5:
        # other points, some of them unusual
        Y = rng.uniform(0.001, 0.999, (25, X.shape[1])) if not kw["fit_marginals"] else X.mean(axis=0) + X.std(axis=0) * rng.normal(0, 2.0, (25, X.shape[1]))
    B = pd.DataFrame(Y, columns=A.columns) if isinstance(A, pd.DataFrame) else Y
    got = est.score_samples(B)
    U, ll = _margins(est, Y, kw)
    F = _recursion(E, U)
    edge = np.zeros(len(Y), bool)
    for _, a, b, D, cop in E:
        P = np.column_stack([F[a, D], F[b, D]])
        # conditional probabilities at the edge keep few correct digits
        edge |= (P.min(axis=1) < 1e-5) | (P.max(axis=1) > 1 - 1e-5)
        ll = ll + logpdf(describe(cop), np.clip(P, EPS, 1 - EPS))
    ctx.equal("one value per observation", np.shape(got), (len(Y),))
    if (~edge).any():
        ctx.close("log density", got[~edge], ll[~edge], 1e-3, 2e-3)
    ctx.close("score", est.score(B), got.sum(), 1e-10, 1e-9)
    k = est.n_params
    ctx.close("aic", est.aic(B), 2 * k - 2 * got.sum(), 1e-10, 1e-9)
    ctx.close("bic", est.bic(B), k * np.log(len(Y)) - 2 * got.sum(), 1e-10, 1e-9)
    S = est.sample(20)
    ctx.equal("sampling leaves the density alone", est.score_samples(B), got)
    ctx.equal("scoring leaves the samples alone", est.sample(20), S)
    # rows are scored independently of each other
    i = int(rng.integers(len(Y)))
    ctx.close("row by row", est.score_samples(B[i : i + 1])[0], got[i], 1e-6, 1e-6)
    ctx.state(X, Y, kw["fit_marginals"])


def _follows(ctx, name, h, other, n, **detail):
    ok = st.kstest(h, "uniform").pvalue > 1e-8
    ctx.check(name + " uniform", ok, **detail)
    if other is not None and np.std(other) > 1e-9:
        r = st.spearmanr(h, other).statistic
        ctx.check(name + " independent", abs(r) < 6.5 / np.sqrt(n), corr=r, **detail)
        for part in (other < np.quantile(other, 0.25), other > np.quantile(other, 0.75)):
            ctx.check(name + " uniform at either end", st.kstest(h[part], "uniform").pvalue > 1e-8, **detail)


@scenario("C34", quick=160, thorough=1600)
def samples(ctx):
    rng = ctx.rng
    est, A, X, kw, idx = _vine(ctx, central=int(rng.choice([0, 0, 1])))
    m, n = X.shape[1], 1500
    E = _edges(est)
    S = est.sample(n)
    ctx.equal("shape", S.shape, (n, m))
    ctx.check("finite", np.isfinite(S).all())
    ctx.equal("same seed, same samples", est.sample(n), S)
    ctx.equal("one sample by default", est.sample().shape, (1, m))
    if not kw["fit_marginals"]:
        ctx.check("within the unit cube", (S >= 0).all() and (S <= 1).all())
    U, _ = _margins(est, S, kw)
    for j in range(m):
        ctx.check("margins reproduced", st.kstest(U[:, j], "uniform").pvalue > 1e-8, asset=j)
    F = _recursion(E, U)
    for k, a, b, D, cop in E:
        _follows(ctx, "first given second", F[a, D | {b}], F[b, D], n, edge=(a, b, sorted(D)), copula=describe(cop))
        _follows(ctx, "second given first", F[b, D | {a}], F[a, D], n, edge=(a, b, sorted(D)), copula=describe(cop))
    ctx.state(X, kw["fit_marginals"], len(est.trees_))


@scenario("C34", quick=220, thorough=2200)
def conditioning(ctx):
    rng = ctx.rng
    k = int(rng.choice([1, 1, 2]))
    central = bool(rng.random() < 0.75)
    est, A, X, kw, idx = _vine(ctx, central=k if central else 0, m=int(rng.integers(3, 6)))
    m, n = X.shape[1], 1200
    fm = kw["fit_marginals"]
    if not central:
        idx = [int(i) for i in rng.permutation(m)[:k]]
    cond, forms = {}, {}
    for i in idx:
        lo, hi = np.quantile(X[:, i], [0.05, 0.95])
        f = str(rng.choice(["value", "value", "range", "half", "array"]))
        if f == "value":
            v = float(rng.uniform(lo, hi))
        elif f == "range":
            a, b = np.sort(rng.uniform(lo, hi, 2))
            v = (float(a), float(b) + 1e-4)
        elif f == "half":
            c = float(rng.uniform(lo, hi))
            none = bool(rng.random() < 0.5)
            edge = (None if none else -np.inf, None if none else np.inf) if fm else (0.0, 1.0)
            v = (edge[0], c) if rng.random() < 0.5 else (c, edge[1])
        else:
            v = rng.uniform(lo, hi, n)
            if rng.random() < 0.5:
                v = list(v)
        key = str(A.columns[i]) if isinstance(A, pd.DataFrame) and rng.random() < 0.6 else i
        cond[key] = v
        forms[i] = (f, v)
    ctx.note(forms={i: (f, v if f != "array" else "array") for i, (f, v) in forms.items()}, central=central)
    if len(idx) >= m:
        raise Skip("everything conditioned")
    S = est.sample(n, conditioning=cond)
    ctx.equal("shape", S.shape, (n, m))
    ctx.check("finite", np.isfinite(S).all())
    for i, (f, v) in forms.items():
        if f in ("value", "array"):
            ctx.close("conditioned asset takes the given value", S[:, i], np.full(n, v) if f == "value" else np.asarray(v), 1e-12, 1e-14, asset=i)
        else:
            lo = -np.inf if v[0] is None else v[0]
            hi = np.inf if v[1] is None else v[1]
            ctx.check("conditioned asset stays in its range", (S[:, i] >= lo - 1e-12).all() and (S[:, i] <= hi + 1e-12).all(), asset=i)
            U, _ = _margins(est, S, kw)
            Q, _ = _margins(est, np.vstack([np.where(np.arange(m) == i, lo if np.isfinite(lo) else X[:, i].min(), X[0]), np.where(np.arange(m) == i, hi if np.isfinite(hi) else X[:, i].max(), X[0])]), kw)
            a, b = Q[0, i] if np.isfinite(lo) else 0.0, Q[1, i] if np.isfinite(hi) else 1.0
            ctx.check("conditioned asset follows its margin in the range", st.kstest((U[:, i] - a) / (b - a), "uniform").pvalue > 1e-8, asset=i, a=a, b=b)
    ctx.equal("same seed, same conditional samples", est.sample(n, conditioning=cond), S)
    if central:
        # given the conditioned assets, the others follow the vine
        U, _ = _margins(est, S, kw)
        E = _edges(est)
        F = _recursion(E, U)
        K = set(idx)
        for _, a, b, D, cop in E:
            for x, y in ((a, b), (b, a)):
                if x not in K and K <= (D | {y}):
                    _follows(ctx, "conditional law", F[x, D | {y}], F[y, D], n, edge=(x, y, sorted(D)), copula=describe(cop))
    ctx.state(X, sorted(idx), str(sorted(forms.items(), key=str))[:200])


@scenario("C34", quick=24, thorough=300)
def far_conditioning(ctx):
    """Conditions far outside the history are kept exactly."""
    rng = ctx.rng
    X = _returns(rng, _market(rng, m=3, n=60))
    log = bool(rng.random() < 0.3)
    i = int(rng.integers(3))
    est = VineCopula(marginal_candidates=[Gaussian()], copula_candidates=[COPULAS["gaussian"]()], central_assets=[i], log_transform=log, random_state=int(rng.integers(99))).fit(X)
    sd = X[:, i].std()
    k = float(rng.choice([9.0, 12.0, 20.0])) * sd
    low = bool(rng.random() < 0.5)
    edge = max(X[:, i].mean() - k, -0.9) if low else X[:, i].mean() + k
    form = str(rng.choice(["value", "half", "range"]))
    v = edge if form == "value" else ((None, edge) if low else (edge, None)) if form == "half" else (edge - sd * 0.2, edge) if low else (edge, edge + sd * 0.2)
    ctx.note(form=form, value=v, log=log)
    S = est.sample(50, conditioning={i: v})
    ctx.check("finite", np.isfinite(S).all())
    if form == "value":
        ctx.close("far value taken", S[:, i], np.full(50, v), 1e-12, 0)
    else:
        lo, hi = (-np.inf if v[0] is None else v[0]), (np.inf if v[1] is None else v[1])
        ctx.check("far range kept", (S[:, i] >= lo).all() and (S[:, i] <= hi).all(), got=(S[:, i].min(), S[:, i].max()), v=v)
    ctx.state(X, v, form)


@scenario("C34", quick=4, thorough=40)
def many_trees(ctx):
    """The requested depth, also when it is large."""
    rng = ctx.rng
    m = int(rng.integers(7, 11))
    U = _market(rng, m=m, n=60)
    depth = [m - 1, m + 3, m - 2, 7][ctx.index % 4]
    depth = max(depth, 2)
    ctx.note(m=m, depth=depth)
    est = VineCopula(fit_marginals=False, copula_candidates=[COPULAS["gaussian"]()], max_depth=depth, independence_level=0.4, random_state=1).fit(U)
    ctx.equal("number of trees", len(est.trees_), min(depth, m - 1))
    _structure(ctx, est, m, min(depth, m - 1))
    ctx.state(U, depth)


@scenario("C34", quick=60, thorough=500)
def log_transform(ctx):
    rng = ctx.rng
    U = _market(rng)
    X = _returns(rng, U)
    if rng.random() < 0.5:
        # large moves, for which logarithmic and simple returns differ much
        X = np.expm1(np.clip(X * float(rng.choice([10.0, 25.0])), -3, 3))
    m = X.shape[1]
    cols = gens.names(rng, m)
    A = pd.DataFrame(X, columns=cols)
    form = str(rng.choice(["all", "list", "dict"]))
    flags = np.ones(m, bool) if form == "all" else rng.random(m) < 0.5
    flags[int(rng.integers(m))] = True
    arg = True if form == "all" else [bool(f) for f in flags] if form == "list" else {c: True for c, f in zip(cols, flags) if f}
    ctx.note(shape=X.shape, form=form, flags=flags)
    est = VineCopula(log_transform=arg, marginal_candidates=[Gaussian(), StudentT()], copula_candidates=_candidates(rng), random_state=3).fit(A)
    T = np.where(flags, np.log1p(X), X)
    for j in range(m):
        ref = select_univariate_dist(T[:, [j]], [Gaussian(), StudentT()])
        d = est.marginal_distributions_[j]
        ctx.equal("family of the margin", type(d), type(ref))
        ctx.close("location of the margin", d.loc_, ref.loc_, 1e-6, 1e-9)
        ctx.close("scale of the margin", d.scale_, ref.scale_, 1e-6, 1e-9)
    n = 1500
    S = est.sample(n)
    ctx.check("returns above minus one", (S[:, flags] > -1).all())
    Z = np.where(flags, np.log1p(S), S)
    for j, d in enumerate(est.marginal_distributions_):
        v = Z[:, j]
        # returns above two hundred percent are not exponentiated
        keep = v <= np.log(3) if flags[j] else np.ones(n, bool)
        top = float(c32.cdf(UNI[type(d)], c32._params(d), np.array([np.log(3)]))[0]) if flags[j] else 1.0
        u = c32.cdf(UNI[type(d)], c32._params(d), v[keep])
        ctx.check("margins reproduced", keep.sum() < 50 or st.kstest(u / top, "uniform").pvalue > 1e-8, asset=j)
        ctx.check("share of very large returns", abs(keep.mean() - top) < 6 * np.sqrt(top * (1 - top) / n) + 1e-3, asset=j, got=keep.mean(), expected=top)
    i = int(rng.choice(np.flatnonzero(flags)))
    v = float(np.quantile(X[:, i], rng.uniform(0.1, 0.9)))
    a, b = np.quantile(X[:, i], [0.2, 0.7])
    C = est.sample(200, conditioning={cols[i]: v})
    ctx.close("conditioned asset takes the given value", C[:, i], np.full(200, v), 1e-12, 0)
    C = est.sample(n, conditioning={i: (float(a), float(b))})
    ctx.check("conditioned asset stays in its range", (C[:, i] >= a - 1e-12).all() and (C[:, i] <= b + 1e-12).all())
    d = est.marginal_distributions_[i]
    if b > 1.9:
        raise Skip("very large returns")
    q = c32.cdf(UNI[type(d)], c32._params(d), np.log1p(np.array([a, b])))
    u = c32.cdf(UNI[type(d)], c32._params(d), np.log1p(C[:, i]))
    ctx.check("conditioned asset follows its margin in the range", st.kstest((u - q[0]) / (q[1] - q[0]), "uniform").pvalue > 1e-8)
    # the same vine on the transformed returns
    plain = skb.clone(est).set_params(log_transform=False).fit(pd.DataFrame(T, columns=cols))
    s1, s2 = est.score_samples(A), plain.score_samples(pd.DataFrame(T, columns=cols))
    jac = -np.where(flags, np.log1p(X), 0.0).sum(axis=1)
    if np.isfinite(s2).all():
        off = min(np.abs(s1 - s2).max(), np.abs(s1 - s2 - jac).max())
        ctx.check("log-likelihood of the transformed returns", off < 1e-6, off=off)
    given = rng.choice(X[:, i], 50)
    C1, C2 = (e.set_params(random_state=5).sample(50, conditioning={i: g}) for e, g in ((est, given), (plain, np.log1p(given))))
    ctx.close("conditioned asset takes the given values", C1[:, i], given, 1e-12, 0)
    ok = ~flags | (C2 <= np.log(3))
    ctx.close("conditional samples of the transformed returns", C1[ok], np.where(flags, np.expm1(C2), C2)[ok], 1e-8, 1e-10)
    ctx.state(X, form, flags)


def _spans(t, m):
    group = list(range(m))
    for a, b in t:
        if group[a] == group[b]:
            return False
        g = group[b]
        group = [group[a] if x == g else x for x in group]
    return True


@scenario("C34", quick=60, thorough=500)
def refusals_and_options(ctx):
    rng = ctx.rng
    U = _market(rng, m=int(rng.integers(3, 5)), n=60)
    n, m = U.shape
    A = pd.DataFrame(U, columns=gens.names(rng, m))
    cc = [COPULAS["gaussian"]()]
    new = lambda **k: VineCopula(fit_marginals=False, copula_candidates=cc, **k)
    ctx.refused("two assets", lambda: new().fit(U[:, :2]), (ValueError,))
    ctx.refused("depth of one", lambda: new(max_depth=1).fit(U), (ValueError,))
    ctx.refused("data outside the unit interval", lambda: new().fit(U + 0.5), (ValueError,))
    ctx.refused("unknown central index", lambda: new(central_assets=[m]).fit(U), (ValueError,))
    ctx.refused("duplicated central assets", lambda: new(central_assets=[0, 0]).fit(U), (ValueError,))
    est = new(random_state=0).fit(A)
    s = lambda c, k=10: est.sample(k, conditioning=c)
    ctx.refused("conditioning is not a mapping", lambda: s([0.5]), (ValueError,))
    ctx.refused("unknown asset name", lambda: s({"no such asset": 0.5}), (ValueError,))
    ctx.refused("unknown asset index", lambda: s({m: 0.5}), (ValueError,))
    ctx.refused("all assets conditioned", lambda: s({i: 0.5 for i in range(m)}), (ValueError,))
    ctx.refused("reversed range", lambda: s({0: (0.8, 0.2)}), (ValueError,))
    ctx.refused("three bounds", lambda: s({0: (0.1, 0.2, 0.3)}), (ValueError,))
    ctx.refused("array of another length", lambda: s({0: np.full(7, 0.5)}), (ValueError,))
    ctx.refused("text value", lambda: s({0: "0.5"}), (ValueError,))
    ctx.refused("unfitted", lambda: new().sample(3))
    ctx.check("representation lists every edge", est.fitted_repr.count("Edge(") == len(_edges(est)))
    if rng.random() < 0.5:
        # Wasserstein distance as dependence: the first tree maximises it
        w = new(dependence_method=DependenceMethod.WASSERSTEIN_DISTANCE).fit(U)
        V = np.clip(U, EPS, 1 - EPS)
        D = np.array([[np.abs(np.sort(V[:, i]) - np.sort(V[:, j])).mean() for j in range(m)] for i in range(m)])
        first = [(a, b) for k, a, b, _, _ in _edges(w) if k == 0]
        cand = sorted(((D[i, j], i, j) for i in range(m) for j in range(i + 1, m)), reverse=True)
        group, best = list(range(m)), 0.0
        for v, i, j in cand:
            if group[i] != group[j]:
                best += v
                g = group[j]
                group = [group[i] if x == g else x for x in group]
        ctx.close("spanning tree of the chosen dependence", sum(D[a, b] for a, b in first), best, 1e-7, 1e-9)
    else:
        w = new(dependence_method=DependenceMethod.MUTUAL_INFORMATION).fit(U)
        D = np.array([[0.0 if i == j else mutual_info_regression(U[:, [i]], U[:, j], random_state=0)[0] for j in range(m)] for i in range(m)])
        first = [(a, b) for k, a, b, _, _ in _edges(w) if k == 0]
        trees = [t for t in itertools.combinations(list(itertools.combinations(range(m), 2)), m - 1) if _spans(t, m)]
        val = lambda t: sum(min(D[a, b], D[b, a]) for a, b in t)
        ctx.check("tree of the mutual information", sum(max(D[a, b], D[b, a]) for a, b in first) >= max(map(val, trees)) - 0.02 * m, D=D, first=first)
    # figures for named and unnamed assets
    for est, data in ((est, A), (new(random_state=1).fit(U), U)):
        named = isinstance(data, pd.DataFrame)
        labels = [str(c) for c in A.columns] if named else [str(i) for i in range(m)]
        sub = [int(i) for i in rng.permutation(m)[:2]]
        keys = [labels[i] if named and rng.random() < 0.6 else i for i in sub]
        fig = est.plot_marginal_distributions(X=data, subset=keys)
        ctx.equal("curves of the subset", [t.name for t in fig.data], [f"{labels[i]} Generated" for i in sub] + [f"{labels[i]} Empirical" for i in sub])
        V = np.asarray(data)
        for t, i in zip(fig.data[2:], sub):
            ctx.close("empirical density", np.array(t.y, float)[::50], st.gaussian_kde(V[:, i])(np.array(t.x, float))[::50], 1e-8, 1e-9)
        fig = est.plot_scatter_matrix(X=data, n_samples=n)
        ctx.equal("labels of the scatter matrix", [[d.label for d in t.dimensions] for t in fig.data], [labels, labels])
        ctx.close("historical points", np.array([d["values"] for d in fig.data[0].dimensions], float).T, V, 1e-12, 0)
        k = int(rng.integers(5, n))
        cond = None if rng.random() < 0.5 else {int(rng.integers(m)): 0.3}
        fig = est.plot_scatter_matrix(X=data, n_samples=k, conditioning=cond)
        pts = {t.name: np.array([d["values"] for d in t.dimensions], float).T for t in fig.data}
        ctx.equal("points drawn", {a: len(b) for a, b in pts.items()}, {"Historical": k, "Generated": k})
        rows = {tuple(r) for r in V}
        ctx.check("subsample of the history", all(tuple(r) in rows for r in pts["Historical"]))
        if len(rows) == n:
            ctx.equal("subsample without repetition", len({tuple(r) for r in pts["Historical"]}), k)
        ctx.refused("scatter matrix of other assets", lambda: est.plot_scatter_matrix(X=V[:, :2]), (ValueError,))
        ctx.refused("scatter matrix of a vector", lambda: est.plot_scatter_matrix(X=V[:, 0]), (ValueError,))
        ctx.refused("marginals of other assets", lambda: est.plot_marginal_distributions(X=V[:, :2]), (ValueError,))
        fig = est.plot_marginal_distributions(X=data, n_samples=k)
        ctx.equal("all curves", [t.name for t in fig.data], [f"{c} Generated" for c in labels] + [f"{c} Empirical" for c in labels])
    ctx.state(U)


class Recorder(skb.BaseEstimator):
    """A distribution estimator that returns a prepared sample and remembers its calls."""

    def __init__(self, data=None, tag=None):
        self.data = data
        self.tag = tag

    def fit(self, X, y=None, extra=None):
        self.seen_ = (np.asarray(X).copy(), None if y is None else np.asarray(y).copy(), extra)
        self.n_features_in_ = np.shape(X)[1]
        return self

    def sample(self, n_samples=1, shift=0.0):
        self.asked_ = (n_samples, shift)
        return np.array(self.data)[:n_samples] + shift


class NoSample(skb.BaseEstimator):
    def fit(self, X, y=None):
        return self


class NoSize(NoSample):
    def sample(self, size=3):
        return np.zeros((size, 2))


@scenario("C34", quick=200, thorough=2000)
def synthetic(ctx):
    rng = ctx.rng
    m = int(rng.integers(2, 6))
    X = gens.market(rng, int(rng.integers(20, 50)), m)
    D = gens.market(rng, int(rng.integers(30, 80)), m, scale=0.02)
    n = int(rng.integers(10, len(D) + 1))
    shift = float(rng.choice([0.0, 0.01]))
    const = bool(rng.random() < 0.25)
    if const:
        D[:, 0] = 0.003
    A = gens.frame(rng, X) if rng.random() < 0.6 else X
    kw = dict(distribution_estimator=Recorder(D), n_samples=n)
    if shift:
        kw["sample_args"] = {"shift": shift}
    ctx.note(shape=X.shape, n=n, shift=shift, constant=const)
    est = SyntheticData(**kw)
    y = rng.normal(size=(len(X), 2)) if rng.random() < 0.5 else None
    with sklearn.config_context(enable_metadata_routing=True):
        routed = bool(rng.random() < 0.4)
        if routed:
            est = SyntheticData(**{**kw, "distribution_estimator": Recorder(D).set_fit_request(extra=True)}).fit(A, y, extra="abc")
        else:
            est.fit(A, y)
    r = est.distribution_estimator_
    ctx.equal("distribution fitted on the data", r.seen_[0], np.asarray(X))
    ctx.equal("targets passed on", r.seen_[1] if y is not None else None, y)
    ctx.equal("metadata passed on", r.seen_[2], "abc" if routed else None)
    ctx.equal("size and arguments of the sample", r.asked_, (n, shift))
    pm = est.prior_model_
    S = D[:n] + shift
    got = np.asarray(pm.returns)
    ctx.equal("sample size", got.shape, (n, m))
    if const:
        ctx.check("constant asset made non-degenerate", 0 < got[:, 0].std() < 1e-5 and np.abs(got[:, 0] - S[:, 0]).max() < 2e-5, std=got[:, 0].std())
        ctx.close("other assets unchanged", got[:, 1:], S[:, 1:], 1e-12, 0)
    else:
        ctx.close("returns are the sample", got, S, 1e-12, 0)
    ctx.close("mean of the sample", pm.mu, got.mean(axis=0), 1e-9, 1e-14)
    c = np.cov(got, rowvar=False)
    if np.linalg.eigvalsh(c).min() > 1e-10 * np.diag(c).max():
        ctx.close("covariance of the sample", pm.covariance, c, 1e-7, 1e-14)
    ctx.equal("number of features", est.n_features_in_, m)
    ctx.refused("no sampling method", lambda: SyntheticData(distribution_estimator=NoSample()).fit(X), (ValueError,))
    ctx.refused("sampling method without a size", lambda: SyntheticData(distribution_estimator=NoSize()).fit(X), (ValueError,))
    ctx.state(X, D, n)


@scenario("C34", quick=60, thorough=500)
def synthetic_vine(ctx):
    rng = ctx.rng
    U = _market(rng, m=int(rng.integers(3, 5)), n=80)
    X = _returns(rng, U)
    m = X.shape[1]
    A = pd.DataFrame(X, columns=gens.names(rng, m))
    kw = dict(marginal_candidates=[Gaussian(), StudentT()], copula_candidates=_candidates(rng), random_state=int(rng.integers(100)), central_assets=[0])
    n = int(rng.choice([100, 400]))
    cond = None
    if rng.random() < 0.5:
        cond = {"conditioning": {str(A.columns[0]): (float(np.quantile(X[:, 0], 0.05)), float(np.quantile(X[:, 0], 0.4)))}}
    ctx.note(shape=X.shape, n=n, conditioned=cond)
    est = SyntheticData(distribution_estimator=VineCopula(**kw), n_samples=n, sample_args=cond).fit(A)
    S = VineCopula(**kw).fit(A).sample(n, **(cond or {}))
    pm = est.prior_model_
    ctx.close("returns are the vine sample", np.asarray(pm.returns), S, 1e-9, 1e-12)
    ctx.close("mean of the sample", pm.mu, S.mean(axis=0), 1e-9, 1e-12)
    ctx.close("covariance of the sample", pm.covariance, np.cov(S, rowvar=False), 1e-7, 1e-12)
    ctx.close("cholesky or none", 0.0 if pm.cholesky is None else np.abs(pm.cholesky @ pm.cholesky.T - pm.covariance).max() / np.abs(pm.covariance).max(), 0.0, 0, 1e-7)
    ctx.state(X, n)
