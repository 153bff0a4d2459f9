"""Catalogue of estimators for the cross-cutting properties (C35, C36, C37).

A *spec* stores values per asset in a base order; ``make(view)`` spells them for a given
column order and naming, by position or keyed by asset name, and returns the estimator.
"""

from __future__ import annotations

import numpy as np
import pandas as pd
from sklearn.linear_model import LinearRegression
from sklearn.model_selection import KFold

from skfolio import RatioMeasure, RiskMeasure
from skfolio.cluster import HierarchicalClustering, LinkageMethod
from skfolio.distance import (
    CovarianceDistance, DistanceCorrelation, KendallDistance, MutualInformation, PearsonDistance, SpearmanDistance,
)
from skfolio.model_selection import CombinatorialPurgedCV, WalkForward
from skfolio.moments import (
    DenoiseCovariance, DetoneCovariance, EmpiricalCovariance, EmpiricalMu, EquilibriumMu, EWCovariance, EWMu,
    GerberCovariance, GraphicalLassoCV, ImpliedCovariance, LedoitWolf, OAS, ShrunkCovariance, ShrunkMu, ShrunkMuMethods,
)
from skfolio.optimization import (
    DistributionallyRobustCVaR, EqualWeighted, HierarchicalEqualRiskContribution, HierarchicalRiskParity,
    InverseVolatility, MaximumDiversification, MeanRisk, NestedClustersOptimization, ObjectiveFunction,
    RiskBudgeting, StackingOptimization,
)
from skfolio.pre_selection import DropCorrelated, DropZeroVariance, SelectKExtremes, SelectNonDominated
from skfolio.prior import BlackLitterman, EmpiricalPrior, FactorModel, LoadingMatrixRegression
from skfolio.uncertainty_set import (
    BootstrapCovarianceUncertaintySet, BootstrapMuUncertaintySet, EmpiricalCovarianceUncertaintySet,
    EmpiricalMuUncertaintySet,
)


class View:
    """How the assets are shown: ``perm[p]`` is the base asset in column p, called ``names[p]``."""

    def __init__(self, names, perm=None, keyed=False, lists=False, frame=True):
        self.names = list(names)
        self.perm = np.arange(len(self.names)) if perm is None else np.asarray(perm)
        self.inv = np.argsort(self.perm)
        self.keyed = keyed
        self.lists = lists
        self.frame = frame

    def vec(self, base):
        base = np.asarray(base)
        vals = base[self.perm]
        if self.keyed:
            return {n: x.item() for n, x in zip(self.names, vals)}
        return [x.item() for x in vals] if self.lists else vals.copy()

    def groups(self, rows):
        rows = np.asarray(rows)[:, self.perm]
        if self.keyed:
            return {n: [str(g) for g in rows[:, p]] for p, n in enumerate(self.names)}
        if self.frame:
            rows = np.vstack([np.array(self.names), rows])
        return [[str(x) for x in r] for r in rows] if self.lists else rows.copy()

    def name(self, base):
        return self.names[self.inv[base]]

    def table(self, X, index=None):
        X = np.asarray(X)[:, self.perm]
        return pd.DataFrame(X, columns=self.names, index=index) if self.frame else X.copy()

    def base(self, arr, axes):
        """Bring a result back to base order; ``axes`` marks asset axes with 'a'."""
        arr = np.asarray(arr)
        for k, a in enumerate(axes):
            if a == "a":
                arr = np.take(arr, self.inv, axis=k)
        return arr


class Spec:
    def __init__(self, kind, make, result, tol=1e-7, **tags):
        self.kind = kind
        self.make = make
        self.result = result  # est -> [(label, value, axes, scale power)]
        self.tol = tol
        self.tags = tags


# -- results ---------------------------------------------------------------------------
def r_mu(e):
    return [("mu", e.mu_, "a", 1)]


def r_cov(e):
    return [("covariance", e.covariance_, "aa", 2)]


def r_dist(e):
    return [("distance", e.distance_, "aa", 0), ("codependence", e.codependence_, "aa", 0)]


def r_prior(e):
    p = e.prior_model_
    out = [("mu", p.mu, "a", 1), ("covariance", p.covariance, "aa", 2), ("returns", np.asarray(p.returns), ".a", 1)]
    if p.cholesky is not None:
        out.append(("cholesky square", p.cholesky @ p.cholesky.T, "aa", 2))
    return out


def r_weights(e):
    return [("weights", e.weights_, "a", 0)]


def r_rows(e):
    return [("weights", e.weights_, ".a", 0)]


def r_support(e):
    return [("support", e.get_support().astype(float), "a", 0)]


def r_cluster(e):
    return [("together", (e.labels_[:, None] == e.labels_[None, :]).astype(float), "aa", 0), ("n clusters", float(e.n_clusters_), "", 0)]


def r_unc(e):
    u = e.uncertainty_set_
    return [("radius", float(u.k), "", 0), ("sigma", u.sigma, "aa", 2)]


def r_unc_cov(e):
    u = e.uncertainty_set_
    return [("radius", float(u.k), "", 0), ("trace", float(np.trace(u.sigma)), "", 4)]


# -- specs -----------------------------------------------------------------------------
def _mu(rng):
    k = int(rng.integers(4))
    if k == 0:
        w = int(rng.integers(5, 20)) if rng.random() < 0.5 else None
        return lambda v: EmpiricalMu(window_size=w)
    if k == 1:
        a = float(rng.uniform(0.05, 0.5))
        return lambda v: EWMu(alpha=a)
    if k == 2:
        meth = list(ShrunkMuMethods)[int(rng.integers(3))]
        vw = bool(rng.random() < 0.5)
        return lambda v: ShrunkMu(method=meth, vol_weighted_target=vw)
    return lambda v: EquilibriumMu(risk_aversion=2.0)


def _cov(rng):
    k = int(rng.integers(6))
    if k == 0:
        return lambda v: EmpiricalCovariance()
    if k == 1:
        a = float(rng.uniform(0.05, 0.4))
        return lambda v: EWCovariance(alpha=a)
    if k == 2:
        return lambda v: LedoitWolf()
    if k == 3:
        return lambda v: OAS()
    if k == 4:
        t = float(rng.uniform(0.2, 0.8))
        return lambda v: GerberCovariance(threshold=t)
    s = float(rng.uniform(0, 0.5))
    return lambda v: ShrunkCovariance(shrinkage=s)


def _distance(rng):
    k = int(rng.integers(5))
    if k < 3:
        cls = [PearsonDistance, KendallDistance, SpearmanDistance][k]
        a = bool(rng.random() < 0.5)
        p = 1 if not a else float(rng.choice([1, 2, 0.5]))
        return lambda v: cls(absolute=a, power=p)
    if k == 3:
        c = _cov(rng)
        return lambda v: CovarianceDistance(covariance_estimator=c(v))
    t = float(rng.choice([0.3, 0.5, 1.0]))
    return lambda v: DistanceCorrelation(threshold=t)


def _prior(rng, m):
    if rng.random() < 0.5:
        return lambda v: None
    a, b = _mu(rng), _cov(rng)
    return lambda v: EmpiricalPrior(mu_estimator=a(v), covariance_estimator=b(v))


def _views(rng, m, groups):
    out = []
    for _ in range(int(rng.integers(1, 3))):
        i, j = (int(x) for x in rng.permutation(m)[:2])
        q = round(float(rng.uniform(-0.002, 0.003)), 5)
        if rng.random() < 0.5:
            out.append(lambda v, i=i, q=q: f"{v.name(i)} == {q:.5f}")
        else:
            out.append(lambda v, i=i, j=j, q=q: f"{v.name(i)} - {v.name(j)} == {q:.5f}")
    if groups is not None and rng.random() < 0.5:
        g = sorted(set(groups[0]))
        if len(g) > 1:
            q = round(float(rng.uniform(-0.001, 0.002)), 5)
            out.append(lambda v, q=q, g=g: f"{g[0]} - {g[1]} == {q:.5f}")
    return out


def _groups(rng, m):
    a = rng.choice(["Bonds", "Stocks", "Gold"], m)
    a[:2] = ["Bonds", "Stocks"]
    b = rng.choice(["US", "EU"], m)
    return np.array([rng.permutation(a), b])


def _costs(rng, m):
    """Costs, fees, previous weights in base order with their keyword."""
    c = {}
    if rng.random() < 0.6:
        c["transaction_costs"] = rng.uniform(0, 0.002, m)
        c["previous_weights"] = rng.dirichlet(np.ones(m))
    if rng.random() < 0.4:
        c["management_fees"] = rng.uniform(0, 0.001, m)
    return c


def _limits(rng, m):
    c = {}
    if rng.random() < 0.6:
        c["max_weights"] = np.minimum(1, rng.uniform(1.4, 2.5, m) / m + 0.1)
    if rng.random() < 0.4:
        c["min_weights"] = rng.uniform(0, 0.5 / m, m)
    return c


PORTFOLIO = ({}, {"name": "mine", "tag": "t1"}, {"annualized_factor": 52, "risk_free_rate": 0.0003}, {"compounded": True, "cvar_beta": 0.8})


def _pp(rng):
    return dict(PORTFOLIO[int(rng.integers(len(PORTFOLIO)))]) or None


def spec(rng, m, kind=None, kinds=None):
    kind = kind or str(rng.choice(list(kinds or KINDS)))
    return KINDS[kind](rng, m)


def k_mu(rng, m):
    if rng.random() < 0.3:
        w = rng.dirichlet(np.ones(m))
        c = _cov(rng)
        ra = float(rng.uniform(0.5, 3))
        return Spec("mu", lambda v: EquilibriumMu(weights=v.vec(w) if not v.keyed else w[v.perm], risk_aversion=ra, covariance_estimator=c(v)), lambda e: [("mu", e.mu_, "a", 2)])
    f = _mu(rng)
    power = 2 if isinstance(f(None), EquilibriumMu) else 1
    return Spec("mu", f, lambda e: [("mu", e.mu_, "a", power)])


def k_cov(rng, m):
    k = int(rng.integers(4))
    if k <= 1:
        f = _cov(rng)
        return Spec("covariance", f, r_cov)
    inner = _cov(rng)
    if k == 2:
        return Spec("covariance", lambda v: DenoiseCovariance(covariance_estimator=inner(v)), r_cov, tol=1e-4)
    n = int(rng.integers(1, 2))
    return Spec("covariance", lambda v: DetoneCovariance(covariance_estimator=inner(v), n_markets=n), r_cov, tol=1e-5)


def k_glasso(rng, m):
    a = sorted(float(x) for x in rng.uniform(1e-6, 5e-5, 3))
    return Spec("graphical lasso", lambda v: GraphicalLassoCV(alphas=list(a), cv=3), r_cov, tol=2e-2, loose=True, no_scale=True)


def k_implied(rng, m):
    adj = rng.uniform(0.9, 1.1, m) if rng.random() < 0.5 else None
    w = int(rng.integers(5, 9))
    return Spec("implied covariance", lambda v: ImpliedCovariance(window_size=w, volatility_risk_premium_adj=None if adj is None else adj[v.perm].copy()), r_cov, implied=True, no_scale=True)


def k_distance(rng, m):
    f = _distance(rng)
    return Spec("distance", f, r_dist, tol=1e-6)


def k_mutual(rng, m):
    nb = int(rng.integers(2, 6)) if rng.random() < 0.6 else None
    n = bool(rng.random() < 0.5)
    return Spec("mutual information", lambda v: MutualInformation(n_bins=nb, normalize=n), r_dist, tol=1e-6, no_scale=True)


def k_cluster(rng, m):
    f = _distance(rng)
    lm = [LinkageMethod.WARD, LinkageMethod.COMPLETE, LinkageMethod.AVERAGE][int(rng.integers(3))]
    mc = int(rng.integers(2, m + 1)) if rng.random() < 0.6 else None
    return Spec("clustering", lambda v: HierarchicalClustering(linkage_method=lm, max_clusters=mc), r_cluster, distance=f)


def k_empirical_prior(rng, m):
    a, b = _mu(rng), _cov(rng)
    ln = {}
    if rng.random() < 0.3:
        ln = dict(is_log_normal=True, investment_horizon=float(rng.choice([5, 21])))
    ep = 2 if isinstance(a(None), EquilibriumMu) else 1
    res = lambda e: [(l, x, ax, ep if l == "mu" else p) for l, x, ax, p in r_prior(e)]
    return Spec("empirical prior", lambda v: EmpiricalPrior(mu_estimator=a(v), covariance_estimator=b(v), **ln), res, no_scale=bool(ln))


def k_black_litterman(rng, m):
    g = _groups(rng, m) if rng.random() < 0.6 else None
    views = _views(rng, m, g)
    conf = [float(c) for c in rng.uniform(0.1, 0.95, len(views))] if rng.random() < 0.5 else None
    tau = float(rng.uniform(0.01, 0.1))
    p = _prior(rng, m)
    rf = float(rng.choice([0, 0.0002]))
    return Spec("black litterman", lambda v: BlackLitterman([x(v) for x in views], groups=None if g is None else v.groups(g), prior_estimator=p(v), tau=tau, view_confidences=None if conf is None else list(conf), risk_free_rate=rf), r_prior, named=True, no_scale=True, tol=1e-6)


def k_factor(rng, m):
    a, b = _mu(rng), _cov(rng)
    plain = bool(rng.random() < 0.5)
    rv = bool(rng.random() < 0.6) or not plain
    lr = lambda: LinearRegression() if plain else None
    ep = 2 if isinstance(a(None), EquilibriumMu) else 1
    res = lambda e: [(l, x, ax, p) for l, x, ax, p in r_prior(e) if l != "mu" or ep == 1]
    return Spec("factor model", lambda v: FactorModel(factor_prior_estimator=EmpiricalPrior(mu_estimator=a(v), covariance_estimator=b(v)), loading_matrix_estimator=LoadingMatrixRegression(linear_regressor=lr()), residual_variance=rv), res, factors=True, no_scale=True, tol=1e-5)


def k_uncertainty(rng, m):
    cl = float(rng.choice([0.8, 0.95]))
    d = bool(rng.random() < 0.5)
    s = int(rng.integers(100))
    k = int(rng.integers(4))
    p = _prior(rng, m)
    if k == 0:
        return Spec("uncertainty", lambda v: EmpiricalMuUncertaintySet(confidence_level=cl, diagonal=d, prior_estimator=p(v)), r_unc)
    if k == 1:
        return Spec("uncertainty", lambda v: EmpiricalCovarianceUncertaintySet(confidence_level=cl, diagonal=d, prior_estimator=p(v)), r_unc_cov, tol=1e-5)
    if k == 2:
        return Spec("uncertainty", lambda v: BootstrapMuUncertaintySet(confidence_level=cl, diagonal=d, seed=s, n_bootstrap_samples=60), r_unc, seeded=True)
    return Spec("uncertainty", lambda v: BootstrapCovarianceUncertaintySet(confidence_level=cl, diagonal=d, seed=s, n_bootstrap_samples=60), r_unc_cov, seeded=True)


def k_preselection(rng, m):
    k = int(rng.integers(4))
    if k == 0:
        t = float(rng.choice([0.2, 0.5, 0.8]))
        a = bool(rng.random() < 0.5)
        return Spec("pre-selection", lambda v: DropCorrelated(threshold=t, absolute=a), r_support, transformer=True)
    if k == 1:
        n = int(rng.integers(1, m + 1))
        h = bool(rng.random() < 0.5)
        ms = [RatioMeasure.SHARPE_RATIO, RiskMeasure.CVAR, RatioMeasure.SORTINO_RATIO][int(rng.integers(3))]
        return Spec("pre-selection", lambda v: SelectKExtremes(k=n, highest=h, measure=ms), r_support, transformer=True)
    if k == 2:
        n = int(rng.integers(1, m + 1)) if rng.random() < 0.6 else None
        return Spec("pre-selection", lambda v: SelectNonDominated(min_n_assets=n, threshold=-0.2), r_support, transformer=True)
    return Spec("pre-selection", lambda v: DropZeroVariance(threshold=1e-5), r_support, transformer=True, no_scale=True)


SMOOTH = [RiskMeasure.VARIANCE, RiskMeasure.STANDARD_DEVIATION, RiskMeasure.SEMI_VARIANCE]


def k_mean_risk(rng, m):
    c = {**_costs(rng, m), **_limits(rng, m)}
    g = _groups(rng, m) if rng.random() < 0.5 else None
    obj = [ObjectiveFunction.MINIMIZE_RISK, ObjectiveFunction.MAXIMIZE_UTILITY, ObjectiveFunction.MAXIMIZE_RATIO][int(rng.integers(3))]
    rm = SMOOTH[int(rng.integers(2))]
    ra = float(rng.uniform(1, 20))
    p = _prior(rng, m)
    i, j = (int(x) for x in rng.permutation(m)[:2])
    lin = bool(rng.random() < 0.5)
    ineq = bool(rng.random() < 0.3)
    A = rng.normal(size=(1, m))
    b = np.array([A.mean() + 0.5])
    extra = {}
    if rng.random() < 0.3:
        extra["l2_coef"] = 0.01
    if rng.random() < 0.2 and "previous_weights" in c:
        extra["max_turnover"] = 1.5
    pp = _pp(rng)

    def make(v):
        kw = {k: v.vec(x) for k, x in c.items()}
        if g is not None:
            kw["groups"] = v.groups(g)
        cons = []
        if lin and v.frame:
            cons.append(f"{v.name(i)} + {v.name(j)} <= 0.9")
            if g is not None:
                cons.append("Bonds <= 0.95")
        if cons:
            kw["linear_constraints"] = cons
        if ineq:
            kw["left_inequality"] = A[:, v.perm].copy()
            kw["right_inequality"] = b.copy()
        return MeanRisk(objective_function=obj, risk_measure=rm, risk_aversion=ra, prior_estimator=p(v), portfolio_params=None if pp is None else dict(pp), **kw, **extra)

    plain = obj != ObjectiveFunction.MAXIMIZE_UTILITY and not c.keys() & {"transaction_costs", "management_fees"} and not extra
    return Spec("mean risk", make, r_weights, tol=5e-3, optim=True, named=lin, no_scale=not (plain and obj == ObjectiveFunction.MINIMIZE_RISK), obj=obj, loose=True)


def k_frontier(rng, m):
    n = int(rng.integers(2, 4))
    c = _limits(rng, m)
    return Spec("frontier", lambda v: MeanRisk(efficient_frontier_size=n, **{k: v.vec(x) for k, x in c.items()}), r_rows, tol=1e-2, optim=True, loose=True, no_scale=True)


def k_risk_budgeting(rng, m):
    c = _costs(rng, m)
    rb = rng.uniform(0.3, 1.5, m) if rng.random() < 0.6 else None
    rm = [RiskMeasure.VARIANCE, RiskMeasure.STANDARD_DEVIATION, RiskMeasure.SEMI_VARIANCE][int(rng.integers(3))]
    p = _prior(rng, m)
    pp = _pp(rng)
    return Spec("risk budgeting", lambda v: RiskBudgeting(risk_measure=rm, prior_estimator=p(v), risk_budget=None if rb is None else v.vec(rb), portfolio_params=None if pp is None else dict(pp), **{k: v.vec(x) for k, x in c.items()}), r_weights, tol=5e-3, optim=True, loose=True, no_scale=bool(c))


def k_max_div(rng, m):
    c = {**_costs(rng, m), **_limits(rng, m)}
    p = _prior(rng, m)
    return Spec("maximum diversification", lambda v: MaximumDiversification(prior_estimator=p(v), **{k: v.vec(x) for k, x in c.items()}), r_weights, tol=5e-3, optim=True, loose=True, no_scale="transaction_costs" in c or "management_fees" in c)


def k_dr_cvar(rng, m):
    c = _limits(rng, m)
    r = float(rng.choice([0.0005, 0.02]))
    return Spec("robust cvar", lambda v: DistributionallyRobustCVaR(wasserstein_ball_radius=r, **{k: v.vec(x) for k, x in c.items()}), r_weights, optim=True, loose=True, no_scale=True, no_order=True)


def k_hrp(rng, m):
    c = {**_costs(rng, m), **_limits(rng, m)}
    f = _distance(rng)
    lm = [LinkageMethod.WARD, LinkageMethod.SINGLE, LinkageMethod.COMPLETE][int(rng.integers(3))]
    rm = [RiskMeasure.VARIANCE, RiskMeasure.CVAR, RiskMeasure.STANDARD_DEVIATION][int(rng.integers(3))]
    herc = bool(rng.random() < 0.5)
    cls = HierarchicalEqualRiskContribution if herc else HierarchicalRiskParity
    pp = _pp(rng)
    return Spec("hierarchical", lambda v: cls(risk_measure=rm, distance_estimator=f(v), hierarchical_clustering_estimator=HierarchicalClustering(linkage_method=lm), portfolio_params=None if pp is None else dict(pp), **{k: v.vec(x) for k, x in c.items()}), r_weights, optim=True, no_order=True, tol=1e-4, no_scale=bool(c.keys() & {"transaction_costs", "management_fees"}))


def _cv(rng):
    k = int(rng.integers(6))
    if k < 2:
        return [None, 3][k]
    if k == 2:
        return KFold(3)
    if k == 3:
        return WalkForward(train_size=20, test_size=7)
    if k == 4:
        return CombinatorialPurgedCV(n_folds=4, n_test_folds=2)
    return "ignore"


def k_nco(rng, m):
    c = _limits(rng, m)
    f = _distance(rng)
    mc = int(rng.integers(2, 4))
    cv = _cv(rng)
    pp = _pp(rng)
    return Spec("nested clusters", lambda v: NestedClustersOptimization(inner_estimator=InverseVolatility(), outer_estimator=RiskBudgeting(), distance_estimator=f(v), clustering_estimator=HierarchicalClustering(max_clusters=mc), cv=cv, portfolio_params=None if pp is None else dict(pp)), r_weights, tol=5e-3, optim=True, loose=True)


def k_stacking(rng, m):
    c = _limits(rng, m)
    cv = _cv(rng)
    pp = _pp(rng)
    return Spec("stacking", lambda v: StackingOptimization(estimators=[("iv", InverseVolatility()), ("mr", MeanRisk(**{k: v.vec(x) for k, x in c.items()})), ("ew", EqualWeighted())], final_estimator=RiskBudgeting(), cv=cv, portfolio_params=None if pp is None else dict(pp)), r_weights, tol=5e-3, optim=True, loose=True)


def k_naive(rng, m):
    p = _prior(rng, m)
    pp = _pp(rng)
    if rng.random() < 0.3:
        return Spec("naive", lambda v: EqualWeighted(portfolio_params=None if pp is None else dict(pp)), r_weights, optim=True)
    return Spec("naive", lambda v: InverseVolatility(prior_estimator=p(v), portfolio_params=None if pp is None else dict(pp)), r_weights, optim=True)


def k_robust_mean_risk(rng, m):
    k = int(rng.integers(3))
    cl = float(rng.choice([0.5, 0.9]))
    mus = [None, EmpiricalMuUncertaintySet(confidence_level=cl), None][k]
    covs = [None, None, EmpiricalCovarianceUncertaintySet(confidence_level=cl)][k]
    g = _groups(rng, m)
    views = _views(rng, m, g)
    a = _prior(rng, m)
    return Spec("mean risk with nested estimators", lambda v: MeanRisk(objective_function=ObjectiveFunction.MAXIMIZE_UTILITY, risk_aversion=5.0, mu_uncertainty_set_estimator=mus, covariance_uncertainty_set_estimator=covs, prior_estimator=BlackLitterman([x(v) for x in views], groups=v.groups(g), prior_estimator=a(v)), groups=v.groups(g), linear_constraints=["US <= 0.9"] if len(set(g[1])) > 1 else None), r_weights, optim=True, loose=True, tol=1e-2, named=True, no_scale=True)


KINDS = {
    "mu": k_mu, "cov": k_cov, "glasso": k_glasso, "implied": k_implied, "distance": k_distance, "mutual": k_mutual,
    "cluster": k_cluster, "prior": k_empirical_prior, "bl": k_black_litterman, "factor": k_factor,
    "uncertainty": k_uncertainty, "preselection": k_preselection, "mean_risk": k_mean_risk, "frontier": k_frontier,
    "risk_budgeting": k_risk_budgeting, "max_div": k_max_div, "dr_cvar": k_dr_cvar, "hrp": k_hrp, "nco": k_nco,
    "stacking": k_stacking, "naive": k_naive, "robust": k_robust_mean_risk,
}
OPTIM = ["mean_risk", "frontier", "risk_budgeting", "max_div", "dr_cvar", "hrp", "nco", "stacking", "naive", "robust"]


def simple_names(rng, m):
    if rng.random() < 0.5 or m > 15:
        return [f"A{i:02d}" for i in rng.permutation(m)]
    return [f"{c}q" for c in rng.permutation(list("BCDFGHJKLMNPRST"))[:m]]


def inputs(rng, sp, X, view, index=None):
    """(X, y, fit_params) for a spec."""
    T = view.table(X, index)
    y, fp = None, {}
    if sp.tags.get("factors"):
        F = sp.tags.setdefault("F", np.asarray(X) @ rng.dirichlet(np.ones(np.shape(X)[1]), 2).T + rng.normal(0, 0.003, (len(X), 2)))
        y = pd.DataFrame(F, columns=["f1", "f2"], index=T.index) if view.frame else F.copy()
    if sp.tags.get("implied"):
        V = sp.tags.setdefault("V", rng.uniform(0.1, 0.4, np.shape(X)))
        fp["implied_vol"] = view.table(V, index)
    if sp.tags.get("distance"):
        d = sp.tags["distance"](view).fit(T).distance_
        T = pd.DataFrame(d, columns=view.names, index=view.names) if view.frame else d
    return T, y, fp
