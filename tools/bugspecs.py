"""Planted bugs: each entry is turned into seeded/<id>/ by plant.py."""
BUGS = []


def bug(id, prop, edits, needs, what, demo, count=1):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo=demo, count=count))


bug("b01-cvar-exact-tail", "C01",
    [("measures/_measures.py", "    return -np.sum(ret[:ik]) / k + ret[ik] * (ik / k - 1)",
      "    tail = ret[:ik] if ik > 0 else np.sort(ret[:1])\n    return -np.sum(tail) / k + ret[ik] * (ik / k - 1)")],
    "a confidence level so high (or a series so short) that the tail holds less than one observation",
    "conditional value at risk counts the worst observation twice when the tail is shorter than one observation",
    """
import numpy as np
from skfolio.measures import cvar
r = np.array([-0.02, 0.01, 0.03, -0.01, 0.0])
assert abs(cvar(r, beta=0.95) - 0.02) < 1e-12, cvar(r, beta=0.95)
""")

bug("b02-semivar-target", "C01",
    [("measures/_measures.py", """    return np.sum(np.power(np.minimum(0, returns - min_acceptable_return), 2)) / (
        len(returns) - 1
    )""", """    downside = returns[returns < min_acceptable_return] - min_acceptable_return
    return np.sum(np.power(downside, 2)) / max(len(returns) - 1, len(downside))""")],
    "every return below the target (a high minimum acceptable return)",
    "semi-variance divides by n instead of n-1 when all observations are below the target",
    """
import numpy as np
from skfolio.measures import semi_variance
r = np.array([0.01, 0.02, -0.01])
got = semi_variance(r, min_acceptable_return=0.05)
want = ((0.04) ** 2 + 0.03**2 + 0.06**2) / 2
assert abs(got - want) < 1e-12, (got, want)
""")

bug("b03-fee-short", "C02",
    [("portfolio/_portfolio.py", "            total_fee = (management_fees * weights).sum()",
      "            total_fee = (management_fees * np.maximum(weights, 0)).sum()")],
    "a short position held with management fees",
    "the fee on held weights ignores short positions, so returns, fees and reported measures are off",
    """
import numpy as np
from skfolio import Portfolio
X = np.array([[0.01, 0.02], [0.0, -0.01], [0.02, 0.01]])
p = Portfolio(X=X, weights=[1.3, -0.3], management_fees=[0.001, 0.002])
want = X @ [1.3, -0.3] - (0.0013 - 0.0006)
assert np.allclose(p.returns, want, atol=1e-12), (p.returns, want)
""")

bug("b04-stale-rf", "C03",
    [("portfolio/_base.py", """    def __setattr__(self, name, value):""",
      """    def _depends_on(self, name):
        return name != "risk_free_rate" or self._fitness is None

    def __setattr__(self, name, value):""") if False else
     ("portfolio/_base.py", """        for attr in attrs + list(_MEASURES_VALUES):
            delattr(self, attr)""", """        for attr in attrs + [e for e in _MEASURES_VALUES if e != "edar_ratio"]:
            delattr(self, attr)""")],
    "reading the EDaR ratio, then changing a parameter it depends on, then reading it again",
    "one ratio measure stays cached after parameters change",
    """
import numpy as np
from skfolio.portfolio import BasePortfolio
r = np.random.default_rng(0).normal(0.001, 0.01, 50)
p = BasePortfolio(returns=r, observations=np.arange(50))
p.edar_ratio
p.risk_free_rate = 0.001
q = BasePortfolio(returns=r, observations=np.arange(50), risk_free_rate=0.001)
assert abs(p.edar_ratio - q.edar_ratio) < 1e-9, (p.edar_ratio, q.edar_ratio)
""")

bug("b05-mpp-del", "C05",
    [("portfolio/_multi_period_portfolio.py", """        del new_portfolios[key]
        self._set_portfolios(portfolios=new_portfolios)
        self.clear()""", """        del new_portfolios[key]
        self._set_portfolios(portfolios=new_portfolios)
        if len(new_portfolios) > 1:
            self.clear()""")],
    "reading a measure, then deleting periods until one is left, then reading it again",
    "measures of a multi-period portfolio stay those of the longer concatenation after deleting down to one period",
    """
import numpy as np
from skfolio import MultiPeriodPortfolio, Portfolio
rng = np.random.default_rng(0)
ps = [Portfolio(X=rng.normal(size=(5, 2)), weights=[0.5, 0.5]) for _ in range(2)]
m = MultiPeriodPortfolio(portfolios=ps)
m.mean
del m[0]
assert abs(m.mean - ps[1].returns.mean()) < 1e-12
""")

bug("b06-quantile-floor", "C06",
    [("population/_population.py", "        k = max(0, int(np.round(len(sorted_portfolios) * q)) - 1)",
      "        k = max(0, int(len(sorted_portfolios) * q + 1e-9) - 1)")],
    "a quantile falling in the upper half between two ranks",
    "quantile selection rounds the rank down instead of to the nearest",
    """
import numpy as np
from skfolio import PerfMeasure, Population
from skfolio.portfolio import BasePortfolio
ps = [BasePortfolio(returns=np.array([0.0, 1.0, 2.0]) * 0.01 + i, observations=np.arange(3)) for i in range(10)]
pop = Population(ps)
got = pop.quantile(PerfMeasure.MEAN, 0.48)
assert got is ps[4], got.mean
""")

bug("b07-purge-first", "C08",
    [("model_selection/_combinatorial.py", "        for k in range(self.purged_size + self.embargo_size):",
      "        for k in range(max(self.purged_size, self.embargo_size)):")],
    "purge and embargo used together",
    "training observations inside the combined purge and embargo distance after a test block leak into training",
    """
import numpy as np
from skfolio.model_selection import CombinatorialPurgedCV
cv = CombinatorialPurgedCV(n_folds=4, n_test_folds=2, purged_size=2, embargo_size=1)
for train, tests in cv.split(np.zeros((40, 1))):
    for t in tests:
        assert not (set(train) & {t[-1] + 1, t[-1] + 2, t[-1] + 3}), (train, t)
""")

bug("b08-wf-first-window", "C09",
    [("model_selection/_walk_forward.py", """    i = np.argmax(train_idx > -1)""",
      """    i = np.argmax(train_idx > 0)""")],
    "a calendar training window that starts exactly on the first observation",
    "the split whose training window begins on the first observation is dropped",
    """
import numpy as np, pandas as pd
from skfolio.model_selection import WalkForward
X = pd.DataFrame(np.zeros((120, 2)), index=pd.date_range("2020-01-01", periods=120))
out = list(WalkForward(test_size=1, train_size=pd.DateOffset(months=1), freq="MS").split(X))
assert out[0][0][0] == 0 and len(out[0][0]) == 31, out[0]
""")

bug("b09-dominates-idx", "C07",
    [("utils/sorting.py", """        elif self_value < other_value:
            return False
    return not_equal""", """        elif self_value < other_value:
            return not_equal and len(fitness_1) > 3
    return not_equal""")],
    "at least four fitness measures with a trade-off between them",
    "with four or more fitness measures a portfolio that is better on the first and worse on a later one counts as dominating",
    """
import numpy as np
from skfolio.utils.sorting import non_denominated_sort
F = np.array([[1.0, 0, 0, 0], [0, 1.0, 0, 0]])
assert [sorted(f) for f in non_denominated_sort(F, first_front_only=False)] == [[0, 1]]
""")

bug("b10-sub-check", "C04",
    [("portfolio/_portfolio.py", """            if arg not in ["weights", "name", "tag"] and not np.array_equal(
                getattr(self, arg), getattr(other, arg)
            ):
                raise ValueError(
                    f"Cannot subtract two Portfolios with different `{arg}`"
                )""",
      """            if arg not in [
                "weights",
                "name",
                "tag",
                "previous_weights",
            ] and not np.array_equal(getattr(self, arg), getattr(other, arg)):
                raise ValueError(
                    f"Cannot subtract two Portfolios with different `{arg}`"
                )""")],
    "subtracting two portfolios that differ only by their previous weights",
    "portfolios with different previous weights can be subtracted; costs are then those of the first one",
    """
import numpy as np
from skfolio import Portfolio
X = np.zeros((3, 2))
a = Portfolio(X=X, weights=[0.5, 0.5], previous_weights=[0.1, 0.1], transaction_costs=0.01)
b = Portfolio(X=X, weights=[0.5, 0.5], previous_weights=[0.2, 0.1], transaction_costs=0.01)
try:
    a - b
except ValueError:
    pass
else:
    raise AssertionError("subtraction accepted")
""")


_DATA = """
import warnings; warnings.simplefilter("ignore")
import numpy as np, pandas as pd
rng = np.random.default_rng(3)
def returns(n, k, seed=3):
    r = np.random.default_rng(seed)
    f = r.normal(0.0004, 0.008, (n, 2))
    return f @ r.normal(0.7, 0.5, (2, k)) + r.normal(0.0003, 0.007, (n, k)) * r.uniform(0.5, 1.5, k)
"""

bug("b11-fold-order", "C10",
    [("model_selection/_validation.py", "        sorted_fold_id = np.argsort([x[0] for x in test_indices])",
      "        sorted_fold_id = np.argsort([len(train) for train, _ in splits], kind=\"stable\")")],
    "a splitter whose test folds do not come in time order",
    "out-of-sample portfolios are concatenated by training size instead of time",
    _DATA + """
from skfolio.model_selection import cross_val_predict
from skfolio.optimization import EqualWeighted
X = pd.DataFrame(returns(90, 3), index=pd.date_range("2020-01-01", periods=90), columns=list("abc"))
i = np.arange(90)
splits = [(i[:30], i[60:90]), (i[60:], i[30:60]), (i[30:60], i[:30])]
p = cross_val_predict(EqualWeighted(), X, cv=splits)
assert np.allclose(p.returns, X.mean(axis=1).to_numpy(), atol=1e-12)
""")

bug("b12-zero-threshold", "C11",
    [("optimization/convex/_base.py", "            if np.all(threshold_long == 0):\n", "            if np.any(threshold_long == 0):\n")],
    "minimum long positions of which some are zero",
    "one asset without a minimum position removes the minimum positions of all",
    _DATA + """
from skfolio.optimization import MeanRisk
X = pd.DataFrame(returns(150, 6), columns=list("abcdef"))
t = {"a": 0.0, "b": 0.3, "c": 0.3, "d": 0.3, "e": 0.3, "f": 0.3}
w = MeanRisk(threshold_long=t, solver="SCIP").fit(X).weights_
t = np.array(list(t.values()))
assert np.all((w < 1e-6) | (w > t - 1e-5)), w
""")

bug("b13-flpm-ratio", "C12",
    [("optimization/convex/_base.py", "            self.risk_free_rate * factor * self._scale_constraints\n            - ptf_min",
      "            self.risk_free_rate * self._scale_constraints\n            - ptf_min")],
    "ratio maximization of the first lower partial moment with a non-zero risk-free rate",
    "the risk-free rate is not scaled with the homogenised weights, so the ratio is not maximal",
    _DATA + """
from skfolio import RiskMeasure
from skfolio.optimization import MeanRisk, ObjectiveFunction
X = returns(200, 5) + 0.002
rf = 0.0012
m = MeanRisk(objective_function=ObjectiveFunction.MAXIMIZE_RATIO, risk_measure=RiskMeasure.FIRST_LOWER_PARTIAL_MOMENT,
             risk_free_rate=rf, min_acceptable_return=0.0).fit(X)
def ratio(w):
    r = X @ w
    return (r.mean() - rf) / np.maximum(rf - r, 0).mean()
best = max(ratio(w) for w in np.random.default_rng(0).dirichlet(np.ones(5) * 0.6, 30000))
assert ratio(m.weights_) > best - 1e-3 * abs(best), (ratio(m.weights_), best)
""")

bug("b14-sorted-targets", "C13",
    [("optimization/convex/_base.py", """                (p, [v] * n_optimizations) if np.isscalar(v) else (p, v)
""", """                (p, [v] * n_optimizations) if np.isscalar(v) else (p, np.sort(v))
""")],
    "a list of targets that is not in increasing order",
    "the weights of a list of targets come back in another order than the targets",
    _DATA + """
from skfolio.optimization import MeanRisk, ObjectiveFunction
X = returns(200, 5, seed=3) + 0.001
hi = X.mean(0).max()
targets = [0.8 * hi, 0.95 * hi, 0.9 * hi]
W = MeanRisk(min_return=targets).fit(X).weights_
for t, w in zip(targets, W):
    one = MeanRisk(min_return=t).fit(X).weights_
    assert np.abs(one - w).max() < 1e-3, (t, one, w)
""")

bug("b15-scalar-cost-ratio", "C12",
    [("optimization/convex/_base.py", "            return transaction_costs * cp.norm(previous_weights * factor - w, 1)",
      "            return transaction_costs * cp.norm(previous_weights - w, 1)")],
    "one transaction cost for all assets, previous weights and the ratio objective together",
    "the transaction cost is measured from the unscaled previous weights when a ratio is maximized",
    _DATA + """
from skfolio.optimization import MeanRisk, ObjectiveFunction
X = returns(200, 4) + 0.004
pw = np.array([0.7, 0.1, 0.1, 0.1])
kw = dict(objective_function=ObjectiveFunction.MAXIMIZE_RATIO, previous_weights=pw)
a = MeanRisk(transaction_costs=0.003, **kw).fit(X).weights_
b = MeanRisk(transaction_costs=np.full(4, 0.003), **kw).fit(X).weights_
assert np.abs(a - b).max() < 1e-3, (a, b)
""")

bug("b16-budget-cap", "C14",
    [("optimization/convex/_risk_budgeting.py", """        custom_objective = self._get_custom_objective(w=w)""",
      """        if np.ptp(risk_budget) > 10 * np.mean(risk_budget):
            risk_budget = np.minimum(risk_budget, 10 * np.mean(risk_budget))
        constraints[0] = (
            risk_budget @ cp.log(w) * self._scale_constraints
            >= c * self._scale_constraints
        )

        custom_objective = self._get_custom_objective(w=w)""")],
    "a risk budget concentrated on one asset among more than ten",
    "very concentrated risk budgets are capped, so the risk contributions do not follow the budget",
    _DATA + """
from skfolio.optimization import RiskBudgeting
X = returns(250, 14)
b = np.full(14, 0.01); b[2] = 0.87
w = RiskBudgeting(risk_budget=b).fit(X).weights_
C = np.cov(X.T)
rc = w * (C @ w); rc /= rc.sum()
assert np.allclose(rc, b / b.sum(), atol=5e-3), rc
""")

bug("b17-drcvar-tail", "C15",
    [("optimization/convex/_distributionally_robust.py", "        b2 = cp.Constant(self.risk_aversion * (1 - 1 / (1 - self.cvar_beta)))",
      "        b2 = cp.Constant(min(self.risk_aversion, 1.0) * (1 - 1 / (1 - self.cvar_beta)))")],
    "a risk aversion above one",
    "the distributionally robust objective uses the wrong tail coefficient for risk-averse investors",
    _DATA + """
from skfolio.optimization import DistributionallyRobustCVaR
from skfolio.measures import cvar
X = returns(60, 4)
m = DistributionallyRobustCVaR(risk_aversion=4.0, cvar_beta=0.9, wasserstein_ball_radius=0.0).fit(X)
def obj(w):
    r = X @ w
    return -r.mean() + 4.0 * cvar(r, beta=0.9)
best = min(obj(w) for w in np.random.default_rng(0).dirichlet(np.ones(4) * 0.6, 20000))
assert obj(m.weights_) < best + 1e-4, (obj(m.weights_), best)
""")

bug("b18-hrp-max-right", "C17",
    [("optimization/cluster/hierarchical/_hrp.py", "        np.sum(max_weights[right_cluster]) / weights[right_cluster[0]],",
      "        len(right_cluster) * np.max(max_weights[right_cluster]) / weights[right_cluster[0]],")],
    "different maximum weights that bind together on a right cluster",
    "the right cluster may receive more than the sum of its maximum weights when these differ",
    _DATA + """
from skfolio.optimization import HierarchicalRiskParity
rng = np.random.default_rng(0)
for s in range(12):
    X = returns(200, 8, seed=s) * rng.choice([1.0, 6.0], 8)
    hi = rng.choice([0.04, 0.3], 8)
    hi[:2] = 0.5
    w = HierarchicalRiskParity(max_weights=hi).fit(X).weights_
    assert (w <= hi + 1e-9).all(), (w, hi)
""")

bug("b19-herc-cluster-risk", "C18",
    [("optimization/cluster/hierarchical/_herc.py", """            right_risk = np.sum(cluster_risks[right_cluster])
""", """            right_risk = np.sum(cluster_risks[right_cluster][:6])
""")],
    "a dendrogram with more than six clusters under one right branch",
    "the risk of a large right branch counts only six of its clusters",
    _DATA + """
from skfolio.optimization import HierarchicalEqualRiskContribution
from skfolio.cluster import HierarchicalClustering
import scipy.cluster.hierarchy as sch
for s in range(6):
    X = returns(150, 16, seed=s) + np.random.default_rng(s).normal(0, 0.03, (150, 16))
    m = HierarchicalEqualRiskContribution(hierarchical_clustering_estimator=HierarchicalClustering(max_clusters=14)).fit(X)
    hc = m.hierarchical_clustering_estimator_
    C = np.cov(X.T); lab = hc.labels_; K = hc.n_clusters_
    risk = np.zeros(K); inner = np.zeros(16)
    for k in range(K):
        i = np.where(lab == k)[0]
        v = 1 / np.diag(C)[i]; v /= v.sum(); inner[i] = v; risk[k] = v @ C[np.ix_(i, i)] @ v
    cw = np.ones(K)
    def rec(node):
        ids = set(node.pre_order())
        ks = {lab[i] for i in ids}
        if len(ks) == 1:
            return
        l = [k for k in ks if set(np.where(lab == k)[0]) <= set(node.left.pre_order())]
        r = [k for k in ks if k not in l]
        a = 1 - risk[l].sum() / (risk[l].sum() + risk[r].sum())
        cw[l] *= a; cw[r] *= 1 - a
        rec(node.left); rec(node.right)
    rec(sch.to_tree(hc.linkage_matrix_))
    assert np.allclose(m.weights_, inner * cw[lab], atol=1e-4), s
""")

bug("b20-nco-quantile", "C19",
    [("optimization/cluster/_nco.py", "measure=self.quantile_measure, q=self.quantile",
      "measure=self.quantile_measure, q=min(self.quantile, 0.75)")],
    "a combinatorial splitter with a quantile above three quarters",
    "nested clusters use the wrong out-of-sample path for high quantiles",
    _DATA + """
from skfolio.model_selection import CombinatorialPurgedCV, cross_val_predict
from skfolio.optimization import NestedClustersOptimization, InverseVolatility, MeanRisk
from skfolio.cluster import HierarchicalClustering
X = returns(160, 6)
cv = CombinatorialPurgedCV(n_folds=6, n_test_folds=2)
m = NestedClustersOptimization(inner_estimator=MeanRisk(), outer_estimator=MeanRisk(), cv=cv, quantile=1.0,
                               clustering_estimator=HierarchicalClustering(max_clusters=2)).fit(X)
lab = m.clustering_estimator_.labels_
cols, inner = [], []
for k in range(lab.max() + 1):
    i = np.where(lab == k)[0]
    w = np.zeros(6)
    if len(i) == 1:
        cols.append(X[:, i[0]]); w[i] = 1
    else:
        pop = cross_val_predict(MeanRisk(), X[:, i], cv=cv)
        cols.append(max(pop, key=lambda p: p.sharpe_ratio).returns)
        w[i] = MeanRisk().fit(X[:, i]).weights_
    inner.append(w)
want = MeanRisk().fit(np.array(cols).T).weights_ @ np.array(inner)
assert np.allclose(m.weights_, want, atol=1e-4), (m.weights_, want)
""")

bug("b21-stack-target", "C20",
    [("optimization/ensemble/_stacking.py", "                    y = y[test_indices]", "                    y = y[-len(test_indices) :]")],
    "a target with a splitter whose test folds stop before the last observation",
    "the final estimator of the stacking receives a target that is not aligned with the predictions",
    _DATA + """
from skfolio.optimization import StackingOptimization, EqualWeighted, InverseVolatility, BaseOptimization
from skfolio.model_selection import WalkForward
seen = {}
class Rec(BaseOptimization):
    def __init__(self, portfolio_params=None):
        super().__init__(portfolio_params=portfolio_params)
    def fit(self, X, y=None):
        seen["y"] = np.asarray(y).copy()
        self.weights_ = np.ones(X.shape[1]) / X.shape[1]
        return self
X = returns(107, 3); y = np.arange(107.0)
StackingOptimization([("a", EqualWeighted()), ("b", InverseVolatility())], final_estimator=Rec(),
                     cv=WalkForward(test_size=20, train_size=40)).fit(X, y)
assert np.array_equal(seen["y"].ravel(), np.arange(40.0, 100.0)), seen["y"]
""")

bug("b22-implied-window", "C21",
    [("moments/covariance/_implied_covariance.py", """            n_observations - (chunks - 1) * window_size - 1, n_observations, window_size""",
      """            window_size - 1, n_observations, window_size""")],
    "a number of observations that is not a multiple of the window",
    "the implied volatilities are taken at dates that do not end the realised volatility windows",
    _DATA + """
from skfolio.moments import ImpliedCovariance
import sklearn.linear_model as skl
X = returns(95, 3); iv = np.abs(np.random.default_rng(5).normal(0.2, 0.05, (95, 3))) + 0.05
m = ImpliedCovariance(window_size=10).fit(X, implied_vol=iv)
n, W = 95, 10; c = n // W
for j in range(3):
    rv = np.log([X[n - (c - k) * W : n - (c - k - 1) * W, j].std(ddof=1) for k in range(c)])
    v = np.log([iv[n - (c - k - 1) * W - 1, j] / np.sqrt(252) for k in range(c)])
    Z = np.column_stack([v, rv])
    r = skl.LinearRegression().fit(Z[:-1], rv[1:])
    want = np.exp(r.predict(Z[[-1]]))[0]
    assert abs(m.pred_realised_vols_[j] - want) < 1e-10, (j, m.pred_realised_vols_[j], want)
""")

bug("b23-gerber-discordant", "C21",
    [("moments/covariance/_gerber_covariance.py", "        discordant = u.T @ d + d.T @ u",
      "        discordant = u.T @ d + (d.T @ u if self.threshold < 0.75 else u.T @ d)")],
    "a Gerber threshold of at least three quarters",
    "the discordant pairs are counted twice in one direction for high thresholds",
    _DATA + """
from skfolio.moments import GerberCovariance
X = rng.normal(0, 0.01, (120, 4)); X[:, 1] -= 0.8 * X[:, 0]
m = GerberCovariance(threshold=0.8, nearest=False).fit(X)
assert np.allclose(m.covariance_, m.covariance_.T, atol=1e-12)
""")

bug("b24-detone-two", "C21",
    [("moments/covariance/_denoise_covariance.py", "float(\n            e_val_.shape[0] - n_facts\n        )", "float(\n            max(e_val_.shape[0] - n_facts, 2)\n        )")]
    if False else
    [("moments/covariance/_detone_covariance.py", "        corr, _ = cov_to_corr(corr)", "        if self.n_markets == 1:\n            corr, _ = cov_to_corr(corr)")],
    "removing more than one market component",
    "the detoned covariance no longer keeps the variances when several components are removed",
    _DATA + """
from skfolio.moments import DetoneCovariance
X = returns(200, 6)
m = DetoneCovariance(n_markets=2).fit(X)
assert np.allclose(np.diag(m.covariance_), X.var(axis=0, ddof=1), rtol=1e-6)
""")

bug("b25-bayes-stein-target", "C23",
    [("moments/expected_returns/_shrunk_mu.py", """                self.beta_ = (n_assets + 2) / (
                    n_observations
                    * (sample_mu - self.mu_target_).T
                    @ cov_inv
                    @ (sample_mu - self.mu_target_)
                    + (n_assets + 2)
                )""", """                gap = sample_mu - self.mu_target_
                if not self.vol_weighted_target:
                    gap = gap - gap.mean()
                else:
                    gap = sample_mu - sample_mu.mean()
                self.beta_ = (n_assets + 2) / (
                    n_observations * gap.T @ cov_inv @ gap + (n_assets + 2)
                )""")],
    "Bayes-Stein shrinkage towards the volatility-weighted target",
    "the Bayes-Stein shrinkage intensity is measured against the grand mean instead of the chosen target",
    _DATA + """
from skfolio.moments import ShrunkMu, ShrunkMuMethods
X = returns(120, 5) + np.linspace(0, 0.01, 5)
m = ShrunkMu(method=ShrunkMuMethods.BAYES_STEIN, vol_weighted_target=True).fit(X)
C = np.cov(X.T); Ci = np.linalg.inv(C); mu = X.mean(0); t = (Ci.sum(0) @ mu / Ci.sum()) * np.ones(5)
b = 7 / (120 * (mu - t) @ Ci @ (mu - t) + 7)
assert np.allclose(m.mu_, (1 - b) * mu + b * t, atol=1e-12)
""")

bug("b26-bl-confidence", "C24",
    [("prior/_black_litterman.py", """                    self.tau
                    * alphas[:, np.newaxis]
                    * self.picking_matrix_""", """                    self.tau
                    * alphas[::-1, np.newaxis]
                    * self.picking_matrix_""")],
    "several views with different confidences",
    "view confidences are attached to the wrong views",
    _DATA + """
from skfolio.prior import BlackLitterman
X = pd.DataFrame(returns(200, 3), columns=list("abc"))
m = BlackLitterman(views=["a == 0.003", "b == -0.002"], view_confidences=[1.0, 0.0], tau=0.05).fit(X)
assert abs(m.prior_model_.mu[0] - 0.003) < 1e-8, m.prior_model_.mu
""")

bug("b27-factor-residual", "C25",
    [("prior/_factor_model.py", "            err_cov = np.diag(np.var(err, ddof=1, axis=0))",
      "            err_cov = np.diag(np.sum(err**2, axis=0) / (len(err) - 1))")],
    "a regression without intercept whose residuals do not average to zero",
    "the residual variance includes the squared mean of the residuals",
    _DATA + """
import sklearn.linear_model as skl
from skfolio.prior import FactorModel, LoadingMatrixRegression
F = rng.normal(0, 0.01, (100, 2)); X = F @ rng.normal(0.6, 0.3, (2, 3)) + 0.02 + rng.normal(0, 0.004, (100, 3))
m = FactorModel(loading_matrix_estimator=LoadingMatrixRegression(linear_regressor=skl.LinearRegression(fit_intercept=False))).fit(X, F)
B = m.loading_matrix_estimator_.loading_matrix_
want = B @ np.cov(F.T) @ B.T + np.diag((X - F @ B.T).var(axis=0, ddof=1))
assert np.allclose(m.prior_model_.covariance, want, atol=1e-10)
""")

bug("b28-bootstrap-cov-level", "C26",
    [("uncertainty_set/_bootstrap.py", "        k = np.sqrt(st.chi2.ppf(q=self.confidence_level, df=n_assets**2))",
      "        k = np.sqrt(\n            st.chi2.ppf(q=min(self.confidence_level, 0.975), df=n_assets**2)\n        )")],
    "a confidence level above 97.5 percent",
    "the covariance uncertainty set is too small for high confidence levels",
    _DATA + """
from skfolio.uncertainty_set import BootstrapCovarianceUncertaintySet
from scipy.stats import chi2
m = BootstrapCovarianceUncertaintySet(confidence_level=0.99, n_bootstrap_samples=30, seed=0).fit(returns(60, 8))
assert abs(m.uncertainty_set_.k - np.sqrt(chi2.ppf(0.99, 64))) < 1e-9
""")

bug("b29-distance-odd-power", "C27",
    [("distance/_distance.py", "    scaler = 1 / (1 - min(bounds))", "    scaler = 1 / (1 - min(bounds)) if power < 3 else 1 / (1 - np.median(bounds))")],
    "an odd power of at least three without absolute values",
    "the distance of negatively correlated assets saturates at one for odd powers",
    _DATA + """
from skfolio.distance import PearsonDistance
X = rng.normal(0, 1, (200, 3)); X[:, 1] -= 1.2 * X[:, 0]
m = PearsonDistance(power=3).fit(X)
c = np.corrcoef(X.T)
assert np.allclose(m.distance_, np.sqrt(np.clip((1 - c**3) / 2, 0, 1)), atol=1e-10), m.distance_
""")

bug("b30-ten-clusters", "C28",
    [("utils/stats.py", "    max_clusters = min(n, max(8, round(np.sqrt(n))))", "    max_clusters = min(n, max(8, round(np.sqrt(n - 0.999))))") if False else
     ("cluster/_hierarchical.py", """        labels_ = sch.fcluster(
            self.linkage_matrix_, t=max_clusters, criterion="maxclust"
        )""", """        labels_ = sch.fcluster(
            self.linkage_matrix_, t=min(max_clusters, 10), criterion="maxclust"
        )""")],
    "asking for more than ten clusters",
    "no more than ten clusters are ever formed",
    _DATA + """
from skfolio.cluster import HierarchicalClustering
from skfolio.distance import PearsonDistance
D = PearsonDistance().fit(rng.normal(0, 1, (60, 16))).distance_
assert HierarchicalClustering(max_clusters=13).fit(D).n_clusters_ == 13
""")

bug("b31-drop-corr-chain", "C29",
    [("pre_selection/_drop_correlated.py", "        selected_idx = selected_idx[np.argsort(-corr[triu_idx][selected_idx])]",
      "        selected_idx = selected_idx[np.argsort(-np.round(corr[triu_idx][selected_idx], 2))]")],
    "several highly correlated pairs whose correlations differ by less than one percent",
    "correlated pairs are not examined from the most to the least correlated",
    _DATA + """
from skfolio.pre_selection import DropCorrelated
for s in range(60):
    r = np.random.default_rng(s)
    X = r.normal(0, 1, (80, 1)) + r.normal(0, 0.12, (80, 7))
    got = DropCorrelated(threshold=0.98).fit(X).to_keep_
    c = np.corrcoef(X.T); mean = c.mean(0)
    pairs = sorted(((c[i, j], i, j) for i in range(7) for j in range(i + 1, 7) if c[i, j] > 0.98), reverse=True)
    gone = set()
    for _, i, j in pairs:
        if i not in gone and j not in gone:
            gone.add(i if mean[i] > mean[j] else j)
    want = np.array([k not in gone for k in range(7)])
    assert np.array_equal(got, want), s
""")

bug("b32-returns-ffill", "C30",
    [("preprocessing/_returns.py", "        df.ffill(inplace=True)", "        df.ffill(inplace=True, limit=5)")],
    "a gap of more than five missing prices",
    "long gaps of missing prices are not filled",
    _DATA + """
from skfolio.preprocessing import prices_to_returns
P = pd.DataFrame(100 * np.cumprod(1 + returns(40, 2), axis=0), index=pd.date_range("2020-01-01", periods=40), columns=["a", "b"])
Q = P.copy(); Q.iloc[10:18, 0] = np.nan
got = prices_to_returns(Q)
want = Q.ffill().pct_change().iloc[1:]
assert got.shape == want.shape and np.allclose(got, want, atol=1e-12), got.shape
""")

bug("b33-view-group-mean", "C31",
    [("utils/equations.py", """                arr = _matching_array(values=groups, key=e, sum_to_one=sum_to_one)
                left += number * sign * arr
                e = next(iterator, None)

            elif""", """                arr = _matching_array(values=groups, key=e, sum_to_one=sum_to_one)
                left += abs(number) * sign * arr
                e = next(iterator, None)

            elif""") if False else
     ("utils/equations.py", "    right *= -comparison_sign", "    right *= -comparison_sign if is_inequality or left.any() else 1") if False else
     ("utils/equations.py", "    if sum_to_one:\n        s = np.sum(arr)", "    if sum_to_one:\n        s = len(np.unique(np.nonzero(values == key)[1])) if len(values) < 3 else np.sum(values == key) * 1.0\n        s = s if s < 5 else s - 1")],
    "a view on a group of five or more assets",
    "views on large groups are not averaged over all the members of the group",
    _DATA + """
from skfolio.utils.equations import equations_to_matrix
g = [["a", "b", "c", "d", "e", "f"], ["G", "G", "G", "G", "G", "H"]]
A, b, *_ = equations_to_matrix(groups=np.array(g), equations=["G == 0.1"], sum_to_one=True)
assert np.allclose(A[0], [0.2] * 5 + [0.0]), A
""")

bug("b34-univariate-bic", "C32",
    [("distribution/univariate/_selection.py", "                results[dist] = dist.bic(X)", "                results[dist] = dist.aic(X)")],
    "selecting by the Bayesian criterion when the two criteria disagree",
    "the Bayesian criterion is ignored when selecting a univariate distribution",
    _DATA + """
from skfolio.distribution import select_univariate_dist, Gaussian, StudentT, JohnsonSU, SelectionCriterion
n = 0
for s in range(120):
    x = np.random.default_rng(s).standard_t(12, (150, 1))
    c = [Gaussian(), StudentT(), JohnsonSU()]
    d = select_univariate_dist(x, distribution_candidates=c, selection_criterion=SelectionCriterion.BIC)
    best = min((k.fit(x).bic(x) for k in c))
    assert d.bic(x) <= best + 1e-6, s
""")

bug("b35-tied-ranks", "C33",
    [("distribution/copula/_utils.py", "    ranks = st.rankdata(X, axis=0)", "    ranks = st.rankdata(X, method=\"max\", axis=0)")],
    "a sample with equal values",
    "pseudo-observations of equal values are the highest rank instead of the average rank",
    _DATA + """
from skfolio.distribution import compute_pseudo_observations
u = compute_pseudo_observations(np.array([[1.0, 4.0], [1.0, 3.0], [2.0, 2.0], [5.0, 2.0]]))
assert np.allclose(u[:, 0], np.array([1.5, 1.5, 3, 4]) / 5), u
""")

bug("b36-vine-array-cond", "C34",
    [("distribution/multivariate/_vine_copula.py", """                if self._log_transform[var]:
                    samples = np.log1p(samples)""",
      """                if np.all(self._log_transform):
                    samples = np.log1p(samples)""")],
    "the log transform for some of the assets and conditioning on an array of values",
    "samples conditioned on an array are generated for other values than those given",
    _DATA + """
from skfolio.distribution import VineCopula, Gaussian, GaussianCopula
x = rng.normal(0, 0.2, (500, 1))
X = np.expm1(np.hstack([x, x + rng.normal(0, 0.01, (500, 1)), rng.normal(0, 0.2, (500, 1))]))
kw = dict(random_state=0, central_assets=[0], marginal_candidates=[Gaussian()], copula_candidates=[GaussianCopula()])
m = VineCopula(log_transform=[True, True, False], **kw).fit(X)
s = m.sample(n_samples=400, conditioning={0: np.full(400, 0.6)})
t = m.sample(n_samples=400, conditioning={0: 0.6})
assert abs(np.median(s[:, 1]) - np.median(t[:, 1])) < 0.02, (np.median(s[:, 1]), np.median(t[:, 1]))
""")

bug("b37-params-mutated", "C35",
    [("optimization/_base.py", "            ptf_kwargs = self.portfolio_params.copy()", "            ptf_kwargs = self.portfolio_params")],
    "predicting twice with a named portfolio",
    "predicting modifies the portfolio parameters passed by the caller",
    _DATA + """
from skfolio.optimization import EqualWeighted
p = {"name": "mine", "annualized_factor": 100}
m = EqualWeighted(portfolio_params=p).fit(returns(30, 3))
a = m.predict(returns(30, 3)).name; b = m.predict(returns(30, 3)).name
assert a == b == "mine" and p == {"name": "mine", "annualized_factor": 100}, (a, b, p)
""")

bug("b38-keyed-order", "C36",
    [("utils/tools.py", "            arr = np.array([items.get(asset, fill_value) for asset in assets_names])",
      "            arr = np.array(\n                [items.get(asset, fill_value) for asset in assets_names]\n                if len(items) < len(assets_names)\n                else list(items.values())[: len(assets_names)]\n            )")],
    "a dictionary with a value for every asset given in another order than the columns",
    "values given by asset name are attached by position",
    _DATA + """
from skfolio.optimization import MeanRisk
X = pd.DataFrame(returns(100, 3), columns=list("abc"))
w = MeanRisk(max_weights={"c": 0.9, "b": 0.9, "a": 0.05}).fit(X).weights_
assert w[0] <= 0.05 + 1e-6, w
""")

bug("b39-scorer-sign", "C37",
    [("metrics/_scorer.py", "            if measure.is_perf or measure.is_ratio:", "            if measure.is_perf or measure.is_ratio or measure.value == \"skew\":")],
    "scoring with the skew as a measure",
    "the scorer of an extra risk measure has the wrong sign",
    _DATA + """
from skfolio import ExtraRiskMeasure
from skfolio.metrics import make_scorer
from skfolio.optimization import EqualWeighted
X = returns(60, 3)
m = EqualWeighted().fit(X)
assert abs(make_scorer(ExtraRiskMeasure.SKEW)(m, X) + m.predict(X).skew) < 1e-12
""")

bug("b40-invvol-floor", "C16",
    [("optimization/naive/_naive.py", "        w = 1 / np.sqrt(np.diag(covariance))", "        w = 1 / np.sqrt(np.maximum(np.diag(covariance), 1e-8))")],
    "an asset with a volatility below one basis point",
    "the inverse volatility of very quiet assets is floored",
    _DATA + """
from skfolio.optimization import InverseVolatility
X = rng.normal(0, 1, (200, 3)) * np.array([0.01, 0.02, 2e-5])
w = InverseVolatility().fit(X).weights_
v = 1 / X.std(axis=0, ddof=1)
assert np.allclose(w, v / v.sum(), rtol=1e-8), w
""")

bug("b41-nearest-or", "C22",
    [("utils/stats.py", """    if is_cholesky_dec(cov) and is_positive_definite(cov):
        return cov
""", """    if is_cholesky_dec(cov) or is_positive_definite(cov):
        return cov
""")],
    "nearly identical assets, so that the covariance still has a Cholesky factor but a negative eigenvalue",
    "a covariance with a negative eigenvalue is returned as positive definite",
    _DATA + """
from skfolio.utils.stats import cov_nearest, is_positive_definite
for s in range(400):
    rng = np.random.default_rng(s)
    m = int(rng.integers(2, 9))
    B = rng.normal(size=(m, m - 1))
    C = B @ B.T
    C = (C + C.T) / 2
    C = cov_nearest(C)
    assert is_positive_definite(C), (s, np.linalg.eigvals(C).min())
""")

bug("b42-ew-nearest", "C38",
    [("moments/covariance/_ew_covariance.py", """            nearest=nearest,
""", """            nearest=nearest or higham,
""")],
    "an exponentially weighted covariance told not to search the nearest matrix while higham is set",
    "the constructor changes the value it was given",
    _DATA + """
from skfolio.moments import EWCovariance
assert EWCovariance(nearest=False, higham=True).nearest is False
""")

bug("b43-denoise-routing", "C39",
    [("moments/covariance/_denoise_covariance.py", """        self.covariance_estimator_.fit(X, y, **routed_params.covariance_estimator.fit)
""", """        self.covariance_estimator_.fit(X, y)
""")],
    "metadata requested by the covariance inside a denoised covariance",
    "metadata requested by a nested covariance estimator does not reach it",
    _DATA + """
import sklearn
sklearn.set_config(enable_metadata_routing=True)
from skfolio.moments import DenoiseCovariance, EmpiricalCovariance
seen = []
class Rec(EmpiricalCovariance):
    def fit(self, X, y=None, info=None):
        seen.append(info)
        return super().fit(X, y)
DenoiseCovariance(covariance_estimator=Rec().set_fit_request(info=True)).fit(returns(100, 4), info="here")
assert seen == ["here"], seen
""")

bug("b44-plot-spacing", "C40",
    [("population/_population.py", """            display_sub_ptf_name=display_sub_ptf_name, measure=measure, spacing=spacing
        ).T""", """            display_sub_ptf_name=display_sub_ptf_name, measure=measure
        ).T""")],
    "drawing the contributions of a population with an explicit spacing",
    "the drawn contributions ignore the spacing",
    _DATA + """
from skfolio import Portfolio, Population, RiskMeasure
X = returns(40, 4)
ps = Population([Portfolio(X=X, weights=[0.4, 0.3, 0.2, 0.1], name="a"), Portfolio(X=X, weights=[0.1, 0.2, 0.3, 0.4], name="b")])
fig = ps.plot_contribution(measure=RiskMeasure.CVAR, spacing=0.2)
df = ps.contribution(measure=RiskMeasure.CVAR, spacing=0.2)
shown = np.array([t.y for t in fig.data], dtype=float)
assert np.allclose(shown, df.values, rtol=1e-8), (shown, df.values)
""")

bug("b45-data-variable-first", "C41",
    [("datasets/_base.py", """    if data_home is None:
        data_home = os.environ.get("SKFOLIO_DATA", os.path.join("~", "skfolio_data"))
""", """    data_home = os.environ.get(
        "SKFOLIO_DATA", data_home or os.path.join("~", "skfolio_data")
    )
""")],
    "an explicit data directory while the SKFOLIO_DATA variable is set",
    "the explicit data directory is ignored, so another directory is used and cleared",
    """
import os, tempfile
from skfolio.datasets._base import get_data_home
with tempfile.TemporaryDirectory() as d:
    os.environ["SKFOLIO_DATA"] = os.path.join(d, "variable")
    got = get_data_home(os.path.join(d, "mine"))
    assert got == os.path.join(d, "mine"), got
""")

bug("b46-split-colours", "C40",
    [("model_selection/_combinatorial.py", """            self.index_train_test_ == -1,
            self.index_train_test_ == 0,
            self.index_train_test_ == 1,
""", """            self.index_train_test_ < 0,
            self.index_train_test_ == 1,
            self.index_train_test_ == 0,
""")],
    "drawing the train and test observations of combinatorial splits",
    "train and test observations are drawn in each other's colour",
    _DATA + """
from skfolio.model_selection import CombinatorialPurgedCV
cv = CombinatorialPurgedCV(n_folds=4, n_test_folds=2)
X = returns(40, 2)
fold = cv.plot_train_test_folds().data[0].cells
index = cv.plot_train_test_index(X).data[0].cells
test_colour = {c for v, c in zip(np.ravel(fold.values[1:]), np.ravel(np.array(fold.fill.color[1:]))) if v == 1}
got = {c for v, c in zip(np.ravel(index.values[1:]), np.ravel(np.array(index.fill.color[1:]))) if v == 1}
assert got == test_colour, (got, test_colour)
""")
