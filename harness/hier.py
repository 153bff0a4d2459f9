"""Workloads and reference computations shared by the hierarchical checks."""

from __future__ import annotations

import numpy as np
import scipy.cluster.hierarchy as sch
import scipy.spatial.distance as scd
from sklearn.base import clone

import gens
import refs
from core import Skip

from skfolio.cluster import HierarchicalClustering, LinkageMethod
from skfolio.distance import CovarianceDistance, DistanceCorrelation, KendallDistance, MutualInformation, PearsonDistance, SpearmanDistance
from skfolio.measures import ExtraRiskMeasure, RiskMeasure
from skfolio.moments import LedoitWolf
from skfolio.prior import EmpiricalPrior, FactorModel

NAMES = [r.value for r in RiskMeasure if not r.value.startswith("annualized")] + [
    r.value for r in ExtraRiskMeasure if r.value not in ("skew", "kurtosis")
]
ENUM = {r.value: r for r in [*RiskMeasure, *ExtraRiskMeasure]}
CHEAP = [n for n in NAMES if n not in ("evar", "edar")]


class Market:
    def __init__(self, rng, m=None, n=None):
        self.rng = rng
        self.m = int(m or (rng.choice([2, 3, 4, 5, 6, 7, 9, 12, 16, 21]) if rng.random() < 0.97 else rng.integers(30, 70)))
        self.n = int(n or rng.integers(max(25, self.m + 5), max(90, 4 * self.m)))
        A = gens.market(rng, self.n, self.m)
        if self.m > 3 and rng.random() < 0.3:
            # two nearly identical assets
            A[:, 1] = A[:, 0] * 1.3 + rng.normal(0, 1e-4, self.n)
        self.A = A
        self.frame = bool(rng.random() < 0.6)
        self.X = gens.frame(rng, A) if self.frame else A
        self.cols = list(self.X.columns) if self.frame else None
        self.y = None
        self.prior = None
        self.distance = None
        self.clustering = None
        self.tc, self.fee, self.prev = np.zeros(self.m), np.zeros(self.m), np.zeros(self.m)
        self.kw = {}

    def spell(self, v, fill=None):
        """One of the accepted spellings (mappings may omit assets at their fill value)."""
        r = self.rng
        kind = r.choice(["array", "list", "dict"] if self.frame else ["array", "list"])
        if kind == "dict":
            items = [(c, float(x)) for c, x in zip(self.cols, v) if x != fill or r.random() < 0.3]
            return dict(items[i] for i in r.permutation(len(items)))
        return np.asarray(v, float) if kind == "array" else [float(x) for x in v]

    def structure(self, monotone=False):
        r = self.rng
        k = str(r.choice(["none", "none", "lw", "factor"]))
        if k == "lw":
            self.prior = EmpiricalPrior(covariance_estimator=LedoitWolf())
        elif k == "factor" and self.n > 40:
            F = self.A[:, : min(2, self.m)] * 0.7 + r.normal(0, 0.002, (self.n, min(2, self.m)))
            self.y = F
            self.prior = FactorModel()
        d = str(r.choice(["none", "pearson", "spearman", "kendall", "cov", "dcor", "mi", "abs"]))
        self.distance = {
            "none": lambda: None,
            "pearson": lambda: PearsonDistance(power=float(r.choice([1, 2]))),
            "spearman": SpearmanDistance,
            "kendall": KendallDistance,
            "cov": lambda: CovarianceDistance(covariance_estimator=LedoitWolf()),
            "dcor": DistanceCorrelation,
            "mi": MutualInformation,
            "abs": lambda: PearsonDistance(absolute=True),
        }[d]()
        link = [e for e in LinkageMethod if not (monotone and e.value in ("centroid", "median"))]
        if r.random() < 0.7:
            mc = None if r.random() < 0.5 else int(r.integers(1, self.m + 3))
            self.clustering = HierarchicalClustering(max_clusters=mc, linkage_method=link[int(r.integers(len(link)))])
        self.kw = dict(prior_estimator=self.prior, distance_estimator=self.distance, hierarchical_clustering_estimator=self.clustering)
        self.kw = {a: b for a, b in self.kw.items() if b is not None}
        return k, d

    def costs(self, p):
        r = self.rng
        if r.random() > p:
            return
        if r.random() < 0.7:
            self.tc = np.round(r.uniform(0, 0.003, self.m), 5)
            self.kw["transaction_costs"] = self.spell(self.tc)
            if r.random() < 0.3:
                self.tc = np.full(self.m, 0.001)
                self.kw["transaction_costs"] = 0.001
        if r.random() < 0.6:
            self.fee = np.round(r.uniform(0, 0.001, self.m), 6)
            self.kw["management_fees"] = self.spell(self.fee)
        if r.random() < 0.6:
            self.prev = np.round(r.dirichlet(np.ones(self.m)), 3)
            self.kw["previous_weights"] = self.spell(self.prev)

    # -- reference pieces --------------------------------------------------
    def prepare(self):
        pr = clone(self.prior) if self.prior is not None else EmpiricalPrior()
        pr.fit(self.X, self.y) if self.y is not None else pr.fit(self.X)
        self.returns = np.asarray(pr.prior_model_.returns, float)
        self.cov = np.asarray(pr.prior_model_.covariance, float)
        if self.returns.std(axis=0).min() < 1e-9:
            raise Skip("constant returns")
        de = clone(self.distance) if self.distance is not None else PearsonDistance()
        de.fit(self.returns)
        self.D = np.asarray(de.distance_, float)
        hc = self.clustering if self.clustering is not None else HierarchicalClustering()
        self.method = hc.linkage_method.value
        self.max_clusters = hc.max_clusters
        self.cond = scd.squareform(self.D, checks=False)
        self.Z = sch.linkage(self.cond, method=self.method)
        # two near-equal merge heights make the tree itself a matter of rounding
        gaps = np.diff(np.sort(self.Z[:, 2]))
        if len(gaps) and gaps.min() < 1e-10:
            raise Skip("tied distances")

    def risk(self, name, w):
        w = np.asarray(w, float)
        if name == "variance":
            return float(w @ self.cov @ w)
        if name == "standard_deviation":
            return float(np.sqrt(w @ self.cov @ w))
        r = self.returns @ w - float(np.abs(w - self.prev) @ self.tc) - float(w @ self.fee)
        if name in refs.QUANTILE:
            s = r if name == "value_at_risk" else refs.drawdowns(r, False)
            v = refs.var_candidates(s, 0.95)
            if max(v) - min(v) > 1e-9:
                raise Skip("quantile decided by rounding")
        return float(refs.portfolio_measure(name, r, refs.PARAM_DEFAULTS))

    def asset_risks(self, name):
        v = np.array([self.risk(name, e) for e in np.eye(self.m)])
        if np.any(v <= 1e-10):
            raise Skip("non-positive asset risk")
        return v

    def inverse_risk(self, name, ids, unit):
        w = np.zeros(self.m)
        w[ids] = 1 / unit[ids]
        return w / w.sum()

    def bounds(self, feasible=True, zeros=True):
        r, m = self.rng, self.m
        lo, hi = np.zeros(m), np.ones(m)
        k = str(r.choice(["none", "lo", "hi", "both"]))
        w = r.dirichlet(np.ones(m) * 2)
        if k in ("lo", "both"):
            lo = np.round(w * r.uniform(0, 1, m) * (r.random(m) < 0.6), 3)
            if r.random() < 0.3:
                lo = np.full(m, round(float(r.uniform(0, 1 / m)), 3))
            if r.random() < 0.1:
                lo = np.floor(w * 1000) / 1000
        if k in ("hi", "both"):
            hi = np.minimum(1, np.round(np.maximum(w * r.uniform(1, 2.5, m), lo) + 0.002, 3))
            hi = np.where(r.random(m) < 0.3, 1.0, hi)
            if r.random() < 0.3 and k == "hi":
                hi = np.full(m, min(1.0, round(float(r.uniform(1.05 / m, 2.5 / m)), 3)))
            if zeros and r.random() < 0.25 and m > 2:
                z = r.permutation(m)[: int(r.integers(1, m - 1))]
                lo[z] = 0.0
                hi[z] = 0.0
                rest = np.setdiff1d(np.arange(m), z)
                hi[rest] = 1.0
                if lo.sum() > 1:
                    lo[:] = 0
        if lo.sum() > 1 or hi.sum() < 1 or np.any(lo > hi):
            raise Skip("bounds")
        if np.any(lo > 0) or r.random() < 0.2:
            self.kw["min_weights"] = float(lo[0]) if np.ptp(lo) == 0 else self.spell(lo, 0.0)
        if np.any(hi < 1) or r.random() < 0.2:
            self.kw["max_weights"] = float(hi[0]) if np.ptp(hi) == 0 else self.spell(hi, 1.0)
        self.lo, self.hi = lo, hi
        return k

    def fit(self, est):
        return est.fit(self.X, self.y) if self.y is not None else est.fit(self.X)


def dendrogram_names(ctx, model, names, chance=0.2):
    """The tree of a named market is drawn with the names of its assets."""
    if names is None or ctx.rng.random() > chance:
        return
    fig = model.hierarchical_clustering_estimator_.plot_dendrogram(heatmap=False)
    ctx.equal("tree drawn with the asset names", sorted(map(str, fig.layout.xaxis.ticktext)), sorted(map(str, names)))
