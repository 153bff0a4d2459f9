"""C35: fitting leaves inputs and parameters alone and is repeatable."""

import copy
import enum
import pickle

import numpy as np
import pandas as pd
import sklearn
import sklearn.base as skb

import catalog
import gens
from core import Skip, rule, scenario

from cvxpy import SolverError
from skfolio.exceptions import OptimizationError
from skfolio.utils.tools import input_to_array

rule("C35", "one state per (estimator with parameters, table, history)")


def snap(o, depth=0):
    """A deep, comparable copy of anything found in parameters and inputs."""
    if depth > 12:
        return "deep"
    if isinstance(o, np.ndarray):
        return ("array", o.dtype.str, o.shape, o.tobytes() if o.dtype != object else tuple(map(repr, o.ravel())), id(o))
    if isinstance(o, (pd.DataFrame, pd.Series)):
        return ("frame", tuple(map(repr, o.index)), tuple(map(repr, getattr(o, "columns", [o.name if hasattr(o, "name") else ""]))), snap(np.array(o.values), depth + 1)[:-1])
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), snap(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(v, depth + 1) for v in o))
    if isinstance(o, enum.Enum) or o is None or isinstance(o, (bool, int, float, str)):
        return repr(o)
    if isinstance(o, skb.BaseEstimator):
        return ("est", type(o).__name__, id(o), tuple((k, snap(v, depth + 1)) for k, v in sorted(vars(o).items())))
    inner = {k: v for k, v in vars(o).items()} if hasattr(o, "__dict__") and not callable(o) else None
    return ("other", type(o).__name__, id(o), None if inner is None else snap(inner, depth + 1))


def params(est):
    return tuple((k, snap(v)) for k, v in sorted(est.get_params(deep=False).items()))


def fit(est, T, y, fp):
    with sklearn.config_context(enable_metadata_routing=True):
        try:
            return est.fit(T, y, **fp) if y is not None or fp else est.fit(T)
        except (OptimizationError, SolverError) as e:
            raise Skip("no solution") from e
        except ValueError as e:
            if "negative expected returns" in str(e):
                raise Skip("no frontier") from e
            raise


def compare(ctx, name, got, want, tol, loose=False, **detail):
    for (l, a, *_), (_, b, *_) in zip(got, want):
        a, b = np.asarray(a, float), np.asarray(b, float)
        s = np.abs(b).max() if b.size else 0.0
        ctx.close(f"{name}: {l}", a, b, 0 if loose else tol, (tol if loose else tol * s) + 1e-14, **detail)


def _setup(ctx, kinds=None, keyed=None, frame=None):
    rng = ctx.rng
    m = gens.some(rng, 4, 7)
    X = gens.market(rng, int(rng.integers(40, 70)), m)
    sp = catalog.spec(rng, m, kinds=kinds)
    frame = True if sp.tags.get("named") else bool(rng.random() < 0.7) if frame is None else frame
    keyed = bool(frame and rng.random() < 0.5) if keyed is None else keyed
    v = catalog.View(catalog.simple_names(rng, m), keyed=keyed, lists=bool(rng.random() < 0.4), frame=frame)
    ctx.note(kind=sp.kind, shape=X.shape, keyed=keyed, frame=frame)
    return sp, X, v


def _tolerance(sp):
    """Solvers amplify the last bits, which change with memory layout."""
    if sp.tags.get("loose"):
        return 1e-3, True
    return (1e-4, True) if sp.kind == "hierarchical" else (1e-7, False)


@scenario("C35", quick=420, thorough=5000)
def no_mutation(ctx):
    """Fit, predict and transform leave data, metadata and parameters as they were."""
    rng = ctx.rng
    sp, X, v = _setup(ctx)
    index = gens.dates(rng, len(X)) if v.frame else None
    T, y, fp = catalog.inputs(rng, sp, X, v, index)
    est = sp.make(v)
    ctx.note(estimator=est)
    before = (snap(T), snap(y), snap(fp), params(est))
    fit(est, T, y, fp)
    ctx.check("data untouched by fit", snap(T) == before[0])
    ctx.check("targets untouched by fit", snap(y) == before[1])
    ctx.check("metadata untouched by fit", snap(fp) == before[2])
    after = params(est)
    for (k, a), (_, b) in zip(before[3], after):
        ctx.check("parameters untouched by fit", a == b, param=k)
    state = snap(est)
    if sp.tags.get("optim"):
        est.predict(T)
        est.score(T)
        ctx.check("estimator untouched by predict", snap(est) == state)
    elif sp.tags.get("transformer"):
        est.transform(T)
        ctx.check("estimator untouched by transform", snap(est) == state)
    ctx.check("data untouched afterwards", snap(T) == before[0])
    ctx.check("parameters untouched afterwards", params(est) == before[3])
    ctx.state(sp.kind, X, str(est)[:300])


@scenario("C35", quick=300, thorough=3500)
def repeatable(ctx):
    """Refits, clones, copies and earlier fits on other data give the same result."""
    rng = ctx.rng
    sp, X, v = _setup(ctx)
    T, y, fp = catalog.inputs(rng, sp, X, v)
    tol, loose = _tolerance(sp)
    first = fit(sp.make(v), T, y, fp)
    want = sp.result(first)
    want = [(l, np.array(a), *r) for l, a, *r in want]
    ctx.note(estimator=first)
    fit(first, T, y, fp)
    compare(ctx, "refit", sp.result(first), want, tol, loose)
    c = fit(skb.clone(first), T, y, fp)
    compare(ctx, "clone", sp.result(c), want, tol, loose)
    d = copy.deepcopy(first)
    compare(ctx, "deep copy", sp.result(d), want, 0 if not loose else tol, loose)
    # history: other data first, of another length or with other assets
    h = sp.make(v)
    how = str(rng.choice(["values", "length", "columns", "container", "params"]))
    if sp.tags.get("implied") or sp.tags.get("factors") or sp.tags.get("distance"):
        how = "values"
    other = gens.market(rng, len(X), X.shape[1]) * 2.0
    if how == "length":
        other = other[: len(X) - 7]
    if how == "columns" and v.frame and v.keyed and not sp.tags.get("named"):
        W = catalog.View(v.names[:-1], keyed=True, frame=True)
        O, oy, ofp = W.table(other[:, :-1]), None, {}
    elif how == "container" and not v.keyed and not sp.tags.get("named"):
        O, oy, ofp = (other if v.frame else pd.DataFrame(other, columns=v.names)), None, {}
    else:
        O, oy, ofp = catalog.inputs(rng, sp, other, v)
    ctx.note(history=how)
    try:
        fit(h, O, oy, ofp)
        earlier = True
    except Skip:
        earlier = True
    except Exception:
        earlier = False
    if earlier:
        fit(h, T, y, fp)
        compare(ctx, "after other data", sp.result(h), want, tol, loose)
        for k in ("n_features_in_", "feature_names_in_"):
            ctx.equal(f"{k} after other data", str(getattr(h, k, None)), str(getattr(first, k, None)))
        ctx.equal("fitted attributes after other data", sorted(k for k in vars(h) if k.endswith("_")), sorted(k for k in vars(first) if k.endswith("_")))
    # earlier results are not changed by later fits
    keep = [(l, np.array(a)) for l, a, *_ in sp.result(c)]
    raw = [a for _, a, *_ in sp.result(c)]
    try:
        fit(c, O, oy, ofp)
    except Exception:
        pass
    for (l, a), r in zip(keep, raw):
        ctx.check("results handed out stay as they were", np.array_equal(a, np.asarray(r), equal_nan=True), label=l)
    ctx.state(sp.kind, X, how)


@scenario("C35", quick=300, thorough=3500)
def containers(ctx):
    """Frames, arrays, memory layouts and read-only tables with the same numbers agree."""
    rng = ctx.rng
    sp, X, v = _setup(ctx, keyed=False)
    T, y, fp = catalog.inputs(rng, sp, X, v)
    tol, loose = _tolerance(sp)
    est = fit(sp.make(v), T, y, fp)
    want = [(l, np.array(a), *r) for l, a, *r in sp.result(est)]
    ctx.note(estimator=est)
    form = str(rng.choice(["other container", "fortran", "read-only", "strided", "string index", "object params"]))
    ctx.note(form=form)
    A = np.array(T, float)
    fp2, y2 = fp, y
    if form == "other container":
        if sp.tags.get("named"):
            T2 = T.copy()
        else:
            T2 = A if v.frame else pd.DataFrame(A, columns=v.names)
            if sp.tags.get("implied"):
                V = np.array(fp["implied_vol"], float)
                fp2 = {"implied_vol": V if v.frame else pd.DataFrame(V, columns=v.names)}
            if y is not None and not isinstance(y, np.ndarray):
                y2 = y  # factors keep their names
    elif form == "fortran":
        B = np.asfortranarray(A)
        T2 = pd.DataFrame(B, columns=v.names, index=T.index) if v.frame else B
    elif form == "read-only":
        B = A.copy()
        B.flags.writeable = False
        T2 = pd.DataFrame(B, columns=v.names, index=T.index, copy=False) if v.frame else B
    elif form == "strided":
        B = np.repeat(A, 2, axis=0)[::2] if rng.random() < 0.5 else np.repeat(A, 2, axis=1)[:, ::2]
        T2 = pd.DataFrame(B, columns=v.names, index=T.index) if v.frame else B
    elif form == "string index":
        T2 = T.copy()
        if v.frame and not sp.tags.get("distance"):
            T2.index = [f"d{i}" for i in range(len(T2))]
            if y is not None:
                y2 = y.copy()
                y2.index = T2.index
            if fp:
                fp2 = {k: x.set_axis(T2.index) for k, x in fp.items()}
    else:
        T2 = T
        v = catalog.View(v.names, keyed=False, lists=not v.lists, frame=v.frame)
    e2 = fit(sp.make(v), T2, y2, fp2)
    compare(ctx, "same numbers", sp.result(e2), want, tol, loose, form=form)
    if sp.tags.get("optim") and est.weights_.ndim == 1:
        p, q = est.predict(T), e2.predict(T2)
        ctx.close("same predicted returns", q.returns, p.returns, 0, 1e-4 if loose else 1e-8)
    ctx.state(sp.kind, X, form)


@scenario("C35", quick=160, thorough=2000)
def copies(ctx):
    """Fitted estimators survive pickling and cloning drops the fit only."""
    rng = ctx.rng
    sp, X, v = _setup(ctx, kinds=catalog.OPTIM)
    T, y, fp = catalog.inputs(rng, sp, X, v)
    est = fit(sp.make(v), T, y, fp)
    ctx.note(estimator=est)
    back = pickle.loads(pickle.dumps(est))
    ctx.equal("weights after pickling", back.weights_, est.weights_)
    p, q = est.predict(T), back.predict(T)
    ps, qs = ([p], [q]) if est.weights_.ndim == 1 else (list(p), list(q))
    for a, b in zip(ps, qs):
        ctx.equal("predictions after pickling", b.returns, a.returns)
        ctx.equal("names after pickling", b.name, a.name)
    c = skb.clone(est)
    ctx.check("clone is unfitted", not [k for k in vars(c) if k.endswith("_") and not k.startswith("_")])
    ctx.equal("clone keeps the parameters", {k: str(x) for k, x in c.get_params().items()}, {k: str(x) for k, x in est.get_params().items()})
    ctx.refused("prediction of an unfitted clone", lambda: c.predict(T))
    # parameters set afterwards count at the next fit, and only then
    w = est.weights_.copy()
    est.set_params(portfolio_params={"name": "later"})
    ctx.equal("setting parameters leaves the fit", est.weights_, w)
    names = [x.name for x in ([est.predict(T)] if w.ndim == 1 else est.predict(T))]
    ctx.check("portfolio parameters read at prediction", all("later" in n for n in names), names=names)
    ctx.state(sp.kind, X)


@scenario("C35", quick=300, thorough=4000)
def keyed_values(ctx):
    """Per-asset inputs are read by position, or by name with the default filled in."""
    rng = ctx.rng
    m = gens.some(rng, 1, 8)
    names = np.array(gens.names(rng, m), dtype=object)
    fill = float(rng.choice([0.0, 1.0, -2.5]))
    vals = rng.normal(size=m)
    call = lambda items, dim=1, nm=names, n=m, f=fill: input_to_array(items=items, n_assets=n, fill_value=f, dim=dim, assets_names=nm, name="thing")
    for x in (vals, list(vals), tuple(vals)):
        ctx.equal("by position", call(x), vals)
    keep = rng.random(m) < 0.7
    keep[int(rng.integers(m))] = True
    order = rng.permutation(m)
    d = {str(names[i]): float(vals[i]) for i in order if keep[i]}
    if rng.random() < 0.4:
        d["not an asset"] = 9.0
    b = dict(d)
    ctx.equal("by name", np.asarray(call(d), float), np.where(keep, vals, fill))
    ctx.equal("mapping untouched", d, b)
    g = rng.choice(["x", "y", "z"], (2, m))
    ctx.equal("groups by position", call(g, dim=2, f=""), g)
    ctx.equal("groups by position, lists", call(g.tolist(), dim=2, f=""), g)
    if m > 1:
        dg = {str(names[i]): [str(g[0, i]), str(g[1, i])] for i in order}
        got = call(dg, dim=2, f="")
        ctx.equal("groups by name", np.asarray(got, str), np.vstack([names.astype(str), g]))
        one = {str(names[i]): str(g[0, i]) for i in order}
        ctx.equal("one group by name", np.asarray(call(one, dim=2, f=""), str), np.vstack([names.astype(str), g[:1]]))
    ctx.refused("mapping without names", lambda: call(d, nm=None), (ValueError,))
    ctx.refused("wrong length", lambda: call(np.append(vals, 1.0)), (ValueError,))
    ctx.refused("wrong dimension", lambda: call(vals[None, :]), (ValueError,))
    bad = vals.copy()
    bad[int(rng.integers(m))] = np.nan
    ctx.refused("missing numbers", lambda: call(bad), (ValueError,))
    ctx.state(list(names), vals, keep)
