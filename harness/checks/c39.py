"""C39: side information handed to a composed estimator reaches exactly the parts that ask for it."""

import numpy as np
import pandas as pd
import sklearn
import sklearn.base as skb
from sklearn.model_selection import KFold
from sklearn.pipeline import Pipeline

import gens
from core import rule, scenario

import skfolio.cluster as CL
import skfolio.distance as DI
import skfolio.moments as MO
import skfolio.optimization as OP
import skfolio.pre_selection as PS
import skfolio.prior as PR
import skfolio.uncertainty_set as US
from skfolio import RiskMeasure
from skfolio.model_selection import CombinatorialPurgedCV, WalkForward, cross_val_predict

rule("C39", "one state per (composition, side information, data)")

LOG = {}


def log(key, X, y, info):
    LOG.setdefault(key, []).append((X, y, info))


class RecMu(MO.BaseMu):
    def __init__(self, key=""):
        self.key = key

    def fit(self, X, y=None, info=None):
        log(self.key, X, y, info)
        self.mu_ = np.asarray(X).mean(axis=0)
        return self


class RecCov(MO.BaseCovariance):
    def __init__(self, key=""):
        super().__init__()
        self.key = key

    def fit(self, X, y=None, info=None):
        log(self.key, X, y, info)
        self.covariance_ = np.atleast_2d(np.cov(np.asarray(X).T))
        return self


class RecPrior(PR.BasePrior):
    def __init__(self, key=""):
        self.key = key

    def fit(self, X, y=None, info=None):
        log(self.key, X, y, info)
        R = np.asarray(X)
        self.prior_model_ = PR.PriorModel(mu=R.mean(axis=0), covariance=np.atleast_2d(np.cov(R.T)), returns=R)
        return self


class RecDistance(DI.BaseDistance):
    def __init__(self, key=""):
        self.key = key

    def fit(self, X, y=None, info=None):
        log(self.key, X, y, info)
        self.codependence_ = np.corrcoef(np.asarray(X).T)
        self.distance_ = np.sqrt(0.5 * np.clip(1 - self.codependence_, 0, None))
        return self


class RecClustering(CL.HierarchicalClustering):
    def __init__(self, key="", max_clusters=None, linkage_method=CL.LinkageMethod.WARD):
        super().__init__(max_clusters=max_clusters, linkage_method=linkage_method)
        self.key = key

    def fit(self, X, y=None, info=None):
        log(self.key, X, y, info)
        return super().fit(X, y)


class RecDist(skb.BaseEstimator):
    def __init__(self, key=""):
        self.key = key

    def fit(self, X, y=None, info=None):
        log(self.key, X, y, info)
        self.X_ = np.asarray(X)
        return self

    def sample(self, n_samples=1):
        r = np.random.default_rng(0)
        return self.X_[r.integers(0, len(self.X_), n_samples)] + r.normal(0, 1e-4, (n_samples, self.X_.shape[1]))


class RecMuSet(US.BaseMuUncertaintySet):
    def __init__(self, key="", prior_estimator=None):
        super().__init__(prior_estimator=prior_estimator)
        self.key = key

    def get_metadata_routing(self):
        return skb.BaseEstimator.get_metadata_routing(self)

    def fit(self, X, y=None, info=None):
        log(self.key, X, y, info)
        m = np.asarray(X).shape[1]
        self.uncertainty_set_ = US.UncertaintySet(k=0.01, sigma=np.eye(m) * 1e-4)
        return self


class RecCovSet(US.BaseCovarianceUncertaintySet):
    def __init__(self, key="", prior_estimator=None):
        super().__init__(prior_estimator=prior_estimator)
        self.key = key

    def get_metadata_routing(self):
        return skb.BaseEstimator.get_metadata_routing(self)

    def fit(self, X, y=None, info=None):
        log(self.key, X, y, info)
        m = np.asarray(X).shape[1]
        self.uncertainty_set_ = US.UncertaintySet(k=0.01, sigma=np.eye(m * m) * 1e-6)
        return self


class RecOpt(OP.BaseOptimization):
    def __init__(self, key="", portfolio_params=None):
        super().__init__(portfolio_params=portfolio_params)
        self.key = key

    def fit(self, X, y=None, info=None):
        log(self.key, X, y, info)
        v = 1 / np.var(np.asarray(X), axis=0)
        self.weights_ = v / v.sum()
        return self


class Tree:
    """A random composition; ``leaves`` maps a leaf key to what its data should look like."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.leaves = {}
        self.n = 0
        self.text = []
        self.shared = False

    def pick(self, *options):
        return options[self.rng.integers(len(options))]

    def leaf(self, cls, where, **kw):
        self.n += 1
        key = f"{self.ctx.scen}/{self.ctx.index}/{self.ctx.seed}/{self.n}"
        LOG[key] = []
        ask = self.rng.random() < 0.8
        e = cls(key=key, **kw)
        if ask:
            e.set_fit_request(info=True if self.shared else f"info_{self.n}")
        else:
            e.set_fit_request(info=False)
        self.leaves[key] = dict(number=self.n, name="info" if self.shared else f"info_{self.n}", ask=ask, cls=cls.__name__, where=where)
        return e

    def cov(self, where="X", depth=0):
        k = self.pick("leaf", "leaf", "denoise", "detone", "implied") if depth < 2 else "leaf"
        k = "leaf" if k == "implied" and where != "X" else k
        # two factors have no market mode to take away twice
        k = "leaf" if k == "detone" and (depth or where[0] == "F") else k
        self.text.append(k)
        if k == "denoise":
            return MO.DenoiseCovariance(covariance_estimator=self.cov(where, depth + 1))
        if k == "detone":
            return MO.DetoneCovariance(covariance_estimator=self.cov(where, depth + 1))
        if k == "implied":
            return MO.ImpliedCovariance(prior_covariance_estimator=self.cov(where, depth + 1), window_size=5, volatility_risk_premium_adj=1.0).set_fit_request(implied_vol=True)
        return self.leaf(RecCov, where)

    def mu(self, where="X"):
        k = self.pick("leaf", "equilibrium", "shrunk")
        self.text.append(k)
        if k == "equilibrium":
            return MO.EquilibriumMu(covariance_estimator=self.cov(where, 1))
        if k == "shrunk":
            return MO.ShrunkMu(covariance_estimator=self.cov(where, 1), method=self.pick(*MO.ShrunkMuMethods))
        return self.leaf(RecMu, where)

    def prior(self, where="X", depth=0, assets=None):
        k = self.pick("leaf", "empirical", "empirical", "lognormal", "bl", "factor", "synthetic") if depth < 2 else "empirical"
        self.text.append(k)
        if k == "empirical":
            return PR.EmpiricalPrior(mu_estimator=self.mu(where), covariance_estimator=self.cov(where))
        if k == "lognormal":
            w = where + "log"
            return PR.EmpiricalPrior(mu_estimator=self.mu(w), covariance_estimator=self.cov(w), is_log_normal=True, investment_horizon=5)
        if k == "bl" and where == "X":
            return PR.BlackLitterman(["A1 == 0.001", "A2 - A0 == 0.0005"], prior_estimator=self.prior(where, depth + 1))
        if k == "factor" and where == "X":
            return PR.FactorModel(factor_prior_estimator=self.prior("F", depth + 1), loading_matrix_estimator=PR.LoadingMatrixRegression(
                linear_regressor=sklearn.linear_model.LinearRegression(fit_intercept=False)))
        if k == "synthetic" and where == "X":
            return PR.SyntheticData(distribution_estimator=self.leaf(RecDist, where), n_samples=60)
        return self.leaf(RecPrior, where)

    def distance(self, where="X?"):
        k = self.pick("leaf", "covariance")
        self.text.append(k)
        if k == "covariance":
            return DI.CovarianceDistance(covariance_estimator=self.cov(where, 1))
        return self.leaf(RecDistance, where)

    def mu_set(self):
        k = self.pick("leaf", "empirical", "bootstrap")
        self.text.append("ms-" + k)
        if k == "empirical":
            return US.EmpiricalMuUncertaintySet(prior_estimator=self.prior(depth=1))
        if k == "bootstrap":
            return US.BootstrapMuUncertaintySet(prior_estimator=self.prior(depth=1), n_bootstrap_samples=20, seed=1, block_size=2)
        return self.leaf(RecMuSet, "X")

    def cov_set(self):
        k = self.pick("leaf", "empirical", "bootstrap")
        self.text.append("cs-" + k)
        if k == "empirical":
            return US.EmpiricalCovarianceUncertaintySet(prior_estimator=self.prior(depth=1))
        if k == "bootstrap":
            return US.BootstrapCovarianceUncertaintySet(prior_estimator=self.prior(depth=1), n_bootstrap_samples=20, seed=1, block_size=2)
        return self.leaf(RecCovSet, "X")

    def opt(self, kinds=None):
        k = self.pick(*(kinds or ["meanrisk", "meanrisk", "frontier", "riskbudget", "maxdiv", "drcvar", "invvol", "hrp", "herc"]))
        self.text.append(k)
        if k == "meanrisk":
            kw = {}
            if self.rng.random() < 0.4:
                kw.update(mu_uncertainty_set_estimator=self.mu_set(), objective_function=OP.ObjectiveFunction.MAXIMIZE_UTILITY)
            if self.rng.random() < 0.3:
                kw.update(covariance_uncertainty_set_estimator=self.cov_set())
            return OP.MeanRisk(prior_estimator=self.prior(), **kw)
        if k == "frontier":
            return OP.MeanRisk(prior_estimator=PR.EmpiricalPrior(mu_estimator=self.leaf(RecMu, "X"), covariance_estimator=self.leaf(RecCov, "X")), efficient_frontier_size=2)
        if k == "riskbudget":
            return OP.RiskBudgeting(prior_estimator=self.prior())
        if k == "maxdiv":
            return OP.MaximumDiversification(prior_estimator=self.prior())
        if k == "drcvar":
            return OP.DistributionallyRobustCVaR(prior_estimator=self.prior(), wasserstein_ball_radius=0.001)
        if k == "invvol":
            return OP.InverseVolatility(prior_estimator=self.prior())
        if k in ("hrp", "herc"):
            C = OP.HierarchicalRiskParity if k == "hrp" else OP.HierarchicalEqualRiskContribution
            return C(prior_estimator=self.prior(), distance_estimator=self.distance(), hierarchical_clustering_estimator=self.leaf(RecClustering, "D"))
        return self.leaf(RecOpt, "X")


def _market(rng, n, m=5):
    idx = pd.bdate_range("2021-01-04", periods=n)
    X = pd.DataFrame(gens.market(rng, n=n, m=m) + 0.001, columns=[f"A{i}" for i in range(m)], index=idx)
    X["A0"] += 0.001 - X["A0"].mean()  # some expected return is positive
    F = pd.DataFrame(X.values @ rng.normal(size=(m, 2)) / m + rng.normal(0, 0.002, (n, 2)), index=idx, columns=["F0", "F1"])
    return X, F


def _side(rng, tree, X, kinds=("rows", "table", "text", "dict")):
    out = {}
    for d in tree.leaves.values():
        if d["ask"]:
            kind = rng.choice(list(kinds))
            v = (rng.normal(size=len(X)) if kind == "rows" else pd.DataFrame(rng.normal(size=(len(X), 2)), index=X.index, columns=["p", "q"])
                 if kind == "table" else f"value {d['number']}" if kind == "text" else {"a": d["number"]})
            d["kind"] = str(kind)
            out[d["name"]] = v
    if "implied" in tree.text:
        out["implied_vol"] = pd.DataFrame(np.abs(rng.normal(0.2, 0.04, X.shape)), index=X.index, columns=X.columns)
    return out


def _eq(a, b):
    if isinstance(b, (pd.DataFrame, np.ndarray)):
        return a is not None and not isinstance(a, (str, dict)) and np.array_equal(np.asarray(a), np.asarray(b))
    return type(a) is type(b) and a == b


def _judge(ctx, tree, side, X, F, rows=None, calls=None):
    """Every leaf was fitted, with its own side information and the data of its place."""
    for key, d in tree.leaves.items():
        seen = LOG.pop(key, [])
        ctx.check("leaf-fitted", len(seen) >= 1, leaf=d)
        for i, (x, y, info) in enumerate(seen):
            if not d["ask"]:
                ctx.check("unasked", info is None, leaf=d, got=info)
            elif rows is None:
                ctx.check("own-information", _eq(info, side[d["name"]]), leaf=d, got=info)
            else:
                want = side[d["name"]]
                ok = any(_eq(info, _take(want, r)) and _same_rows(x, X, F, r, d) for r in rows)
                ctx.check("own-rows", ok, leaf=d, got=info, rows=rows)
            if rows is None:
                w = d["where"]
                if w == "X":
                    ctx.check("leaf-data", np.array_equal(np.asarray(x), X.values) and list(getattr(x, "columns", [])) == list(X.columns), leaf=d)
                elif w == "F":
                    ctx.check("leaf-data", np.array_equal(np.asarray(x), F.values), leaf=d)
                elif w in ("Xlog", "Flog"):
                    ctx.close("leaf-data-log", np.asarray(x), np.log1p((X if w[0] == "X" else F).values), rtol=1e-12, leaf=d)
                if w == "X" and F is not None and y is not None:
                    ctx.check("leaf-target", np.array_equal(np.asarray(y), F.values), leaf=d)


def _take(v, r):
    if isinstance(v, pd.DataFrame):
        return v.iloc[r]
    if isinstance(v, np.ndarray):
        return v[r]
    return v


def _same_rows(x, X, F, r, d):
    w = d["where"]
    if w == "X":
        return np.array_equal(np.asarray(x), X.values[r])
    if w == "F":
        return np.array_equal(np.asarray(x), F.values[r])
    return True


def _fit(ctx, est, *a, **k):
    with sklearn.config_context(enable_metadata_routing=True):
        return est.fit(*a, **k)


@scenario("C39", quick=260, thorough=4000, weight=2)
def compositions(ctx):
    rng = ctx.rng
    with sklearn.config_context(enable_metadata_routing=True):
        t = Tree(ctx)
        est = t.opt()
    X, F = _market(rng, int(rng.integers(25, 60)))
    F = F if "factor" in t.text or rng.random() < 0.4 else None
    side = _side(rng, t, X)
    ctx.note(composition=" ".join(t.text), information={k: type(v).__name__ for k, v in side.items()})
    ctx.state(tuple(t.text), X.values)
    _fit(ctx, est, X, *([] if F is None else [F]), **side)
    _judge(ctx, t, side, X, F)


@scenario("C39", quick=90, thorough=1200, weight=3)
def parts(ctx):
    """The same below the level of an allocation: moments, priors, distances, sets on their own."""
    rng = ctx.rng
    kind = ["cov", "mu", "prior", "distance", "mu_set", "cov_set"][ctx.index % 6]
    with sklearn.config_context(enable_metadata_routing=True):
        t = Tree(ctx)
        make = {"distance": lambda: t.distance("X")}.get(kind, getattr(t, kind))
        est = make()
        while hasattr(est, "key"):
            # a recording part on its own has nothing to route
            t = Tree(ctx)
            make = {"distance": lambda: t.distance("X")}.get(kind, getattr(t, kind))
            est = make()
    X, F = _market(rng, int(rng.integers(25, 60)))
    F = F if "factor" in t.text or rng.random() < 0.4 else None
    side = _side(rng, t, X)
    ctx.note(kind=kind, composition=" ".join(t.text))
    ctx.state(kind, tuple(t.text), X.values)
    _fit(ctx, est, X, *([] if F is None else [F]), **side)
    _judge(ctx, t, side, X, F)


@scenario("C39", quick=60, thorough=800, weight=4)
def nested(ctx):
    """Nested clusters and stacking: each inner estimator gets its own information."""
    rng = ctx.rng
    m = int(rng.integers(5, 8))
    X, F = _market(rng, int(rng.integers(40, 70)), m)
    stack = ctx.index % 2 == 0
    with sklearn.config_context(enable_metadata_routing=True):
        t = Tree(ctx)
        if stack:
            cv = t.pick("ignore", None, KFold(3), WalkForward(test_size=7, train_size=15))
            # renamed information does not survive the inner cross-validation
            t.shared = cv != "ignore"
            ests = [(f"e{i}", t.leaf(RecOpt, "X")) for i in range(int(rng.integers(2, 4)))]
            est = OP.StackingOptimization(ests, final_estimator=OP.EqualWeighted(), cv=cv)
        else:
            cv = "ignore"
            est = OP.NestedClustersOptimization(
                inner_estimator=t.leaf(RecOpt, "part"), outer_estimator=OP.EqualWeighted(), cv=cv,
                distance_estimator=t.leaf(RecDistance, "X"), clustering_estimator=t.leaf(RecClustering, "D"))
    side = _side(rng, t, X, ("rows", "table"))
    ctx.note(stack=stack, cv=repr(cv), assets=m)
    ctx.state(stack, repr(cv), X.values)
    inner_table = None
    if not stack:
        k = next((k for k, d in t.leaves.items() if d["cls"] == "RecOpt"), None)
        if t.leaves[k]["ask"]:
            # a table of asset columns is cut to the cluster's assets
            inner_table = pd.DataFrame(rng.normal(size=X.shape), index=X.index, columns=X.columns)
            side[t.leaves[k]["name"]] = inner_table
    _fit(ctx, est, X, F, **side)
    if not stack:
        seen = LOG.pop(k)
        d = t.leaves.pop(k)
        single = sum(1 for c in np.unique(est.clustering_estimator_.labels_) if (est.clustering_estimator_.labels_ == c).sum() > 1)
        ctx.equal("inner-fits", len(seen), single)
        for x, y, info in seen:
            cols = list(x.columns)
            ctx.check("inner-data", np.array_equal(x.values, X[cols].values), cols=cols)
            ctx.check("inner-target", y is None or np.array_equal(np.asarray(y), F.values), cols=cols)
            if d["ask"]:
                ctx.check("inner-information", info is not None and np.array_equal(np.asarray(info), inner_table[cols].values), cols=cols)
            else:
                ctx.check("inner-unasked", info is None)
        _judge(ctx, t, side, X, F)
    else:
        rows = [np.arange(len(X))]
        if cv != "ignore":
            rows += [tr for tr, _ in (KFold(5) if cv is None else cv).split(X)]
        for d in t.leaves.values():
            ctx.equal("stack-fits", len(LOG[[k for k, v in t.leaves.items() if v is d][0]]), len(rows))
        _judge(ctx, t, side, X, F, rows=rows)


@scenario("C39", quick=60, thorough=800, weight=4)
def cross_validated(ctx):
    """cross_val_predict and pipelines hand each training window its own rows of the information."""
    rng = ctx.rng
    X, F = _market(rng, int(rng.integers(40, 70)))
    with sklearn.config_context(enable_metadata_routing=True):
        t = Tree(ctx)
        k = t.pick("leaf", "prior", "set")
        est = (t.leaf(RecOpt, "X") if k == "leaf" else OP.InverseVolatility(
            prior_estimator=PR.EmpiricalPrior(mu_estimator=t.leaf(RecMu, "X"), covariance_estimator=t.leaf(RecCov, "X")))
            if k == "prior" else OP.MeanRisk(
                objective_function=OP.ObjectiveFunction.MAXIMIZE_UTILITY, prior_estimator=t.leaf(RecPrior, "X"),
                mu_uncertainty_set_estimator=t.leaf(RecMuSet, "X")))
        pipe = rng.random() < 0.4
        if pipe:
            est = Pipeline([("select", PS.DropZeroVariance(threshold=0.0).set_output(transform="pandas")), ("opt", est)])
        cv = t.pick(KFold(3), WalkForward(test_size=8, train_size=15), CombinatorialPurgedCV(n_folds=4, n_test_folds=2))
    side = _side(rng, t, X, ("rows", "table"))
    ctx.note(composition=k, cv=repr(cv), pipeline=pipe)
    ctx.state(k, repr(cv), pipe, X.values)
    with sklearn.config_context(enable_metadata_routing=True):
        cross_val_predict(est, X, F, cv=cv, params=side)
    rows = [s[0] for s in cv.split(X)]
    for key, d in t.leaves.items():
        ctx.equal("windows", len(LOG[key]), len(rows))
    _judge(ctx, t, side, X, F, rows=rows)


@scenario("C39", quick=60, thorough=400)
def refusals(ctx):
    """Information nobody asked for is refused."""
    rng = ctx.rng
    X, F = _market(rng, 30)
    with sklearn.config_context(enable_metadata_routing=True):
        t = Tree(ctx)
        est = t.opt(["meanrisk", "riskbudget", "maxdiv", "drcvar", "invvol", "hrp", "herc"])
    side = _side(rng, t, X)
    y = [F] if "factor" in t.text else []
    ctx.note(composition=" ".join(t.text))
    ctx.state(tuple(t.text), X.values)
    with sklearn.config_context(enable_metadata_routing=True):
        ctx.refused("nobody-asked", lambda: est.fit(X, *y, **dict(side, nobody_asked=1)))
    for k in t.leaves:
        LOG.pop(k, None)


@scenario("C39", quick=30, thorough=300, weight=3)
def implied_volatility(ctx):
    """The shipped consumer: implied volatilities reach the covariance through every level."""
    rng = ctx.rng
    m = 5
    X, F = _market(rng, 60, m)
    iv = pd.DataFrame(np.abs(rng.normal(0.2, 0.05, X.shape)), index=X.index, columns=X.columns)
    other = iv * 3
    with sklearn.config_context(enable_metadata_routing=True):
        c = lambda: MO.ImpliedCovariance(volatility_risk_premium_adj=1.0).set_fit_request(implied_vol=True)
        direct = MO.ImpliedCovariance(volatility_risk_premium_adj=1.0).fit(X, implied_vol=iv).covariance_
        pr = PR.EmpiricalPrior(covariance_estimator=c())
        chain = [
            lambda: OP.InverseVolatility(prior_estimator=pr), lambda: OP.MeanRisk(prior_estimator=pr),
            lambda: OP.RiskBudgeting(prior_estimator=pr), lambda: OP.HierarchicalRiskParity(prior_estimator=pr),
            lambda: OP.MaximumDiversification(prior_estimator=pr), lambda: OP.MeanRisk(prior_estimator=PR.BlackLitterman(["A1 == 0.001"], prior_estimator=pr)),
            lambda: OP.HierarchicalEqualRiskContribution(prior_estimator=pr),
        ][ctx.index % 7]()
        ctx.note(estimator=type(chain).__name__)
        ctx.state(type(chain).__name__, X.values)
        chain.fit(X, implied_vol=iv)
        pe = chain.prior_estimator_
        pe = getattr(pe, "prior_estimator_", pe)
        ctx.close("implied-reaches", pe.prior_model_.covariance, direct, rtol=1e-10)
        w = np.array(chain.weights_)
        chain.fit(X, implied_vol=other)
        ctx.close("implied-scale", chain.prior_estimator_.prior_model_.covariance if not hasattr(chain.prior_estimator_, "prior_estimator_")
                  else chain.prior_estimator_.prior_estimator_.prior_model_.covariance, direct * 9, rtol=1e-9)
        cv = WalkForward(test_size=15, train_size=30)
        e = OP.InverseVolatility(prior_estimator=pr)
        pred = cross_val_predict(e, X, cv=cv, params=dict(implied_vol=iv))
        for p, (tr, te) in zip(pred, cv.split(X)):
            d = np.diag(MO.ImpliedCovariance(volatility_risk_premium_adj=1.0).fit(X.iloc[tr], implied_vol=iv.iloc[tr]).covariance_)
            v = 1 / np.sqrt(d)
            ctx.close("implied-window", p.weights, v / v.sum(), rtol=1e-9)
