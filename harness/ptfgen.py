"""Generators and comparisons for portfolios."""

from __future__ import annotations

import numpy as np
import pandas as pd

import gens
import refs
from skfolio import ExtraRiskMeasure, PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.portfolio import Portfolio

MEASURES = {e.value: e for enu in (PerfMeasure, RiskMeasure, ExtraRiskMeasure, RatioMeasure) for e in enu}
FAST = [m for m in refs.ALL_MEASURES if m not in refs.LOOSE]
BETAS = [k for k in refs.PARAM_DEFAULTS if k.endswith("beta")]


def rand_params(rng, p_default=0.25):
    p = dict(refs.PARAM_DEFAULTS)
    for k in p:
        if rng.random() > p_default:
            p[k] = rand_param(rng, k)
    return p


def rand_param(rng, k):
    if k == "annualized_factor":
        return float(rng.choice([1, 4, 12, 52, 252, 260.5]))
    if k == "risk_free_rate":
        return float(rng.choice([0, 0.0005, 0.002, -0.001]))
    if k == "compounded":
        return bool(rng.random() < 0.5)
    if k == "min_acceptable_return":
        return None if rng.random() < 0.3 else float(rng.choice([0.0, 0.001, -0.002, 0.01]))
    if k == "entropic_risk_measure_theta":
        return float(rng.choice([0.1, 0.5, 1, 2.5]))
    return float(rng.choice([0.05, 0.5, 0.75, 0.8, 0.9, 0.95, 0.99]))


def rand_fitness(rng, n=None, names=None):
    n = n or int(rng.integers(1, 5))
    names = list(names or FAST)
    return [MEASURES[str(x)] for x in rng.permutation(names)[:n]]


def as_input(rng, values, cols, form=None, partial=True):
    """Give per-asset values as array, list or mapping; returns (input, resulting array)."""
    values = np.asarray(values, float)
    forms = ["array", "list"] + (["dict"] if cols is not None else [])
    form = form or str(rng.choice(forms))
    if form == "array":
        return values.copy(), values
    if form == "list":
        return [float(v) for v in values], values
    order = list(rng.permutation(len(cols)))
    keep = set(order)
    if partial and rng.random() < 0.5 and len(cols) > 1:
        keep.discard(int(rng.integers(len(cols))))
    res = np.array([values[i] if i in keep else 0.0 for i in range(len(cols))])
    return {cols[i]: float(values[i]) for i in order if i in keep}, res


def rand_portfolio(rng, X=None, params=None, frame=None, n=None, m=None, name=None, tag=None, start=None, **kw):
    """A random portfolio and the plain facts it was built from."""
    if X is None:
        n = n or int(rng.integers(4, 40))
        m = m or int(rng.integers(1, 7))
        A = gens.market(rng, n, m)
        if frame is None:
            frame = rng.random() < 0.7
        X = gens.frame(rng, A, index=gens.dates(rng, n, start=start)) if frame else A
    A = np.asarray(X, float)
    n, m = A.shape
    cols = list(X.columns) if isinstance(X, pd.DataFrame) else None
    w, wk = gens.weights(rng, m)
    if np.allclose(w, 0):
        w[0] = 1.0
    w_in, w2 = as_input(rng, w, cols)
    if np.allclose(w2, 0):
        w_in, w2 = w.copy(), w
    w = w2
    f = dict(A=A, cols=cols or [f"x{i}" for i in range(m)], w=w, wk=wk, prev=np.zeros(m), tc=np.zeros(m), fee=np.zeros(m))
    f["index"] = np.asarray(X.index) if cols is not None else np.arange(n)
    args = dict(X=X, weights=w_in)
    if rng.random() < 0.6:
        if rng.random() < 0.2:
            v = float(rng.uniform(0, 0.5))
            args["previous_weights"], f["prev"] = v, np.full(m, v)
        else:
            args["previous_weights"], f["prev"] = as_input(rng, gens.weights(rng, m)[0], cols)
    for key, short in (("transaction_costs", "tc"), ("management_fees", "fee")):
        if rng.random() < 0.6:
            if rng.random() < 0.4:
                v = float(rng.choice([0.0, 0.001, 0.01]))
                args[key], f[short] = v, np.full(m, v)
            else:
                args[key], f[short] = as_input(rng, rng.uniform(0, 0.01, m) * (rng.random(m) < 0.8), cols)
    if params:
        args.update(params)
    args.update(kw)
    if name is not None:
        args["name"] = name
    if tag is not None:
        args["tag"] = tag
    f["args"] = args
    f["cost"] = float(sum(f["tc"] * np.abs(f["prev"] - f["w"])))
    f["feesum"] = float(sum(f["fee"] * f["w"]))
    f["returns"] = np.array([sum(a * b for a, b in zip(row, f["w"])) for row in A]) - f["cost"] - f["feesum"]
    return Portfolio(**args), f


def params_of(p):
    return {k: getattr(p, k) for k in refs.PARAM_DEFAULTS}


def same(a, b, rtol=1e-7, atol=1e-12):
    a, b = float(a), float(b)
    if np.isnan(a) or np.isnan(b):
        return np.isnan(a) and np.isnan(b)
    if np.isinf(a) or np.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
