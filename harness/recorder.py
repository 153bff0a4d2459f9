"""Recording estimators: log every fit and leave a trace that can be judged offline."""

from __future__ import annotations

import threading

import numpy as np

from skfolio.optimization import BaseOptimization

LOG: dict[str, list] = {}
_LOCK = threading.Lock()


def start(key):
    LOG[key] = []
    return key


def record(key, **event):
    with _LOCK:
        LOG.setdefault(key, []).append(event)


def rule_weights(X, y=None, meta=None, power=1.0):
    """Deterministic allocation depending on every value of the fitted data."""
    X = np.asarray(X, float)
    v = 1e-6 + np.var(X, axis=0) + 0.3 * np.abs(X.mean(axis=0))
    if y is not None:
        Y = np.asarray(y, float).reshape(len(X), -1)
        v = v * (1 + np.abs(X.T @ Y).sum(axis=1) * 50)
    if meta is not None:
        M = np.asarray(meta, float)
        v = v * (1 + (np.abs(M).mean(axis=0) if M.ndim == 2 and M.shape[1] == X.shape[1] else abs(M).mean()))
        if M.ndim == 1:
            v = v + np.abs(X.T @ M) * 1e-3
    w = 1 / v**power
    return w / w.sum()


class Recorder(BaseOptimization):
    """Allocation by ``rule_weights``; every fit is appended to the log named ``key``."""

    def __init__(self, key="", power=1.0, portfolio_params=None):
        super().__init__(portfolio_params=portfolio_params)
        self.key = key
        self.power = power

    def fit(self, X, y=None, meta=None, **fit_params):
        had = hasattr(self, "weights_")
        self.weights_ = rule_weights(X, y, meta, self.power)
        if hasattr(X, "columns"):
            self.feature_names_in_ = np.asarray(X.columns, dtype=object)
        self.n_features_in_ = np.asarray(X).shape[1]
        record(
            self.key,
            obj=id(self),
            refit=had,
            power=self.power,
            X=np.array(X, float),
            cols=list(X.columns) if hasattr(X, "columns") else None,
            index=list(X.index) if hasattr(X, "index") else None,
            y=None if y is None else np.array(y, float),
            meta=None if meta is None else np.array(meta, float),
            extra=sorted(fit_params),
        )
        return self


def rows_of(block, table):
    """Row numbers of ``block`` inside ``table`` (rows are unique)."""
    block, table = np.asarray(block, float), np.asarray(table, float)
    out = []
    for r in block:
        k = np.flatnonzero(np.all(table == r, axis=1))
        out.append(int(k[0]) if len(k) == 1 else None)
    return out
