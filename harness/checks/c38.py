"""C38: constructors keep what they are given, documented defaults apply, misuse is refused."""

import enum
import inspect

import numpy as np
import pandas as pd
import sklearn
import sklearn.base as skb
import sklearn.linear_model as skl
from sklearn.cluster import KMeans
from sklearn.exceptions import NotFittedError
from sklearn.model_selection import KFold

import gens
from core import rule, scenario

import skfolio.cluster as CL
import skfolio.distance as DI
import skfolio.distribution as DB
import skfolio.measures as ME
import skfolio.model_selection as MS
import skfolio.moments as MO
import skfolio.optimization as OP
import skfolio.pre_selection as PS
import skfolio.prior as PR
import skfolio.uncertainty_set as US
import skfolio.utils.stats as ST
from skfolio import MultiPeriodPortfolio, PerfMeasure, Portfolio, RatioMeasure, RiskMeasure
from skfolio.preprocessing import prices_to_returns

rule("C38", "one state per (class, parameter, values) and per (estimator, data)")

COST = dict(transaction_costs=0.0, management_fees=0.0, previous_weights=None)
BOUND = dict(min_weights=0.0, max_weights=1.0)
TAIL = dict(cvar_beta=0.95, evar_beta=0.95, cdar_beta=0.95, edar_beta=0.95)
SOLVE = dict(solver="CLARABEL", solver_params=None, scale_objective=None, scale_constraints=None, save_problem=False,
             raise_on_failure=True, add_objective=None, add_constraints=None)
LIN = dict(groups=None, linear_constraints=None, left_inequality=None, right_inequality=None)
BUDG = dict(budget=1.0, min_budget=None, max_budget=None, max_short=None, max_long=None)
REPAIR = dict(nearest=True, higham=False, higham_max_iteration=100)
HIER = dict(risk_measure=RiskMeasure.VARIANCE, prior_estimator=None, distance_estimator=None,
            hierarchical_clustering_estimator=None, **BOUND, **COST, portfolio_params=None)
CAPS = ["mean_absolute_deviation", "first_lower_partial_moment", "variance", "standard_deviation", "semi_variance",
        "semi_deviation", "worst_realization", "cvar", "evar", "max_drawdown", "average_drawdown", "cdar", "edar",
        "ulcer_index", "gini_mean_difference"]
COPULA = dict(itau=True, kendall_tau=None, tolerance=1e-4, random_state=None)
DIST = dict(loc=None, scale=None, random_state=None)
PTF = dict(risk_free_rate=0.0, annualized_factor=252.0, compounded=False, min_acceptable_return=None,
           value_at_risk_beta=0.95, entropic_risk_measure_theta=1.0, entropic_risk_measure_beta=0.95, cvar_beta=0.95,
           evar_beta=0.95, drawdown_at_risk_beta=0.95, cdar_beta=0.95, edar_beta=0.95)

# (class, required arguments, documented defaults)
DOC = [
    (OP.EqualWeighted, {}, dict(portfolio_params=None)),
    (OP.Random, {}, dict(portfolio_params=None)),
    (OP.InverseVolatility, {}, dict(prior_estimator=None, portfolio_params=None)),
    (OP.MeanRisk, {}, dict(
        objective_function=OP.ObjectiveFunction.MINIMIZE_RISK, risk_measure=RiskMeasure.VARIANCE, risk_aversion=1.0,
        efficient_frontier_size=None, prior_estimator=None, **BOUND, **BUDG, cardinality=None, group_cardinalities=None,
        threshold_long=None, threshold_short=None, **COST, **LIN, l1_coef=0.0, l2_coef=0.0,
        mu_uncertainty_set_estimator=None, covariance_uncertainty_set_estimator=None, risk_free_rate=0.0,
        min_return=None, max_tracking_error=None, max_turnover=None, **{f"max_{c}": None for c in CAPS},
        min_acceptable_return=None, **TAIL, **SOLVE, overwrite_expected_return=None, portfolio_params=None)),
    (OP.RiskBudgeting, {}, dict(
        risk_measure=RiskMeasure.VARIANCE, risk_budget=None, prior_estimator=None, **BOUND, **COST, **LIN,
        risk_free_rate=0.0, min_return=None, min_acceptable_return=None, **TAIL, **SOLVE,
        overwrite_expected_return=None, portfolio_params=None)),
    (OP.MaximumDiversification, {}, dict(
        prior_estimator=None, **BOUND, **BUDG, **COST, **LIN, l1_coef=0.0, l2_coef=0.0, risk_free_rate=0.0,
        min_return=None, max_tracking_error=None, max_turnover=None, **SOLVE, portfolio_params=None)),
    (OP.DistributionallyRobustCVaR, {}, dict(
        risk_aversion=1.0, cvar_beta=0.95, wasserstein_ball_radius=0.02, prior_estimator=None, **BOUND, **BUDG, **LIN,
        risk_free_rate=0.0, **SOLVE, overwrite_expected_return=None, portfolio_params=None)),
    (OP.HierarchicalRiskParity, {}, HIER),
    (OP.HierarchicalEqualRiskContribution, {}, dict(HIER, solver="CLARABEL", solver_params=None)),
    (OP.NestedClustersOptimization, {}, dict(
        inner_estimator=None, outer_estimator=None, distance_estimator=None, clustering_estimator=None, cv=None,
        quantile=0.5, quantile_measure=RatioMeasure.SHARPE_RATIO, n_jobs=None, verbose=0, portfolio_params=None)),
    (OP.StackingOptimization, dict(estimators=[("a", OP.EqualWeighted())]), dict(
        final_estimator=None, cv=None, quantile=0.5, quantile_measure=RatioMeasure.SHARPE_RATIO, n_jobs=None, verbose=0,
        portfolio_params=None)),
    (MO.EmpiricalMu, {}, dict(window_size=None)),
    (MO.EWMu, {}, dict(window_size=None, alpha=0.2)),
    (MO.EquilibriumMu, {}, dict(risk_aversion=1.0, weights=None, covariance_estimator=None)),
    (MO.ShrunkMu, {}, dict(covariance_estimator=None, vol_weighted_target=False, method=MO.ShrunkMuMethods.JAMES_STEIN)),
    (MO.EmpiricalCovariance, {}, dict(window_size=None, ddof=1, **REPAIR)),
    (MO.EWCovariance, {}, dict(window_size=None, alpha=0.2, **REPAIR)),
    (MO.GerberCovariance, {}, dict(window_size=None, threshold=0.5, psd_variant=True, **REPAIR)),
    (MO.DenoiseCovariance, {}, dict(covariance_estimator=None, **REPAIR)),
    (MO.DetoneCovariance, {}, dict(covariance_estimator=None, n_markets=1, **REPAIR)),
    (MO.LedoitWolf, {}, dict(store_precision=True, assume_centered=False, block_size=1000, **REPAIR)),
    (MO.OAS, {}, dict(store_precision=True, assume_centered=False, **REPAIR)),
    (MO.ShrunkCovariance, {}, dict(store_precision=True, assume_centered=False, shrinkage=0.1, **REPAIR)),
    (MO.GraphicalLassoCV, {}, dict(alphas=4, n_refinements=4, cv=None, tol=1e-4, enet_tol=1e-4, max_iter=100, mode="cd",
                                   n_jobs=None, verbose=False, assume_centered=False, **REPAIR)),
    (MO.ImpliedCovariance, {}, dict(prior_covariance_estimator=None, annualized_factor=252, window_size=20,
                                    linear_regressor=None, volatility_risk_premium_adj=None, **REPAIR)),
    (PR.EmpiricalPrior, {}, dict(mu_estimator=None, covariance_estimator=None, is_log_normal=False, investment_horizon=None)),
    (PR.BlackLitterman, dict(views=["A == 0.1"]), dict(groups=None, prior_estimator=None, tau=0.05, view_confidences=None, risk_free_rate=0.0)),
    (PR.FactorModel, {}, dict(loading_matrix_estimator=None, factor_prior_estimator=None, residual_variance=True, higham=False, max_iteration=100)),
    (PR.LoadingMatrixRegression, {}, dict(linear_regressor=None, n_jobs=None)),
    (PR.SyntheticData, {}, dict(distribution_estimator=None, n_samples=1000, sample_args=None)),
    (US.EmpiricalMuUncertaintySet, {}, dict(prior_estimator=None, confidence_level=0.95, diagonal=True)),
    (US.EmpiricalCovarianceUncertaintySet, {}, dict(prior_estimator=None, confidence_level=0.95, diagonal=True)),
    (US.BootstrapMuUncertaintySet, {}, dict(prior_estimator=None, confidence_level=0.95, diagonal=True, n_bootstrap_samples=1000, block_size=None, seed=None)),
    (US.BootstrapCovarianceUncertaintySet, {}, dict(prior_estimator=None, confidence_level=0.95, diagonal=True, n_bootstrap_samples=1000, block_size=None, seed=None)),
    (DI.PearsonDistance, {}, dict(absolute=False, power=1)),
    (DI.KendallDistance, {}, dict(absolute=False, power=1)),
    (DI.SpearmanDistance, {}, dict(absolute=False, power=1)),
    (DI.CovarianceDistance, {}, dict(covariance_estimator=None, absolute=False, power=1)),
    (DI.DistanceCorrelation, {}, dict(threshold=0.5)),
    (DI.MutualInformation, {}, dict(n_bins_method=DI.NBinsMethod.FREEDMAN, n_bins=None, normalize=True)),
    (CL.HierarchicalClustering, {}, dict(max_clusters=None, linkage_method=CL.LinkageMethod.WARD)),
    (PS.DropCorrelated, {}, dict(threshold=0.95, absolute=False)),
    (PS.DropZeroVariance, {}, dict(threshold=1e-8)),
    (PS.SelectComplete, {}, dict(drop_assets_with_internal_nan=False)),
    (PS.SelectKExtremes, {}, dict(k=10, measure=RatioMeasure.SHARPE_RATIO, highest=True)),
    (PS.SelectNonDominated, {}, dict(min_n_assets=None, fitness_measures=None)),
    (PS.SelectNonExpiring, {}, dict(expiration_dates=None, expiration_lookahead=None)),
    (DB.Gaussian, {}, DIST),
    (DB.StudentT, {}, DIST),
    (DB.JohnsonSU, {}, DIST),
    (DB.NormalInverseGaussian, {}, DIST),
    (DB.GaussianCopula, {}, COPULA),
    (DB.StudentTCopula, {}, COPULA),
    (DB.ClaytonCopula, {}, COPULA),
    (DB.GumbelCopula, {}, COPULA),
    (DB.JoeCopula, {}, COPULA),
    (DB.IndependentCopula, {}, dict(random_state=None)),
    (DB.VineCopula, {}, dict(fit_marginals=True, marginal_candidates=None, copula_candidates=None, max_depth=4,
                             log_transform=False, central_assets=None, dependence_method=DB.DependenceMethod.KENDALL_TAU,
                             selection_criterion=DB.SelectionCriterion.AIC, independence_level=0.05, n_jobs=None, random_state=None)),
    (MS.CombinatorialPurgedCV, {}, dict(n_folds=10, n_test_folds=8, purged_size=0, embargo_size=0)),
    (MS.WalkForward, dict(test_size=3, train_size=5), dict(freq=None, freq_offset=None, previous=False, expend_train=False, reduce_test=False, purged_size=0)),
]


def _same(a, b):
    if a is None or b is None or isinstance(a, (bool, str)) or isinstance(b, (bool, str)):
        return a is b or (type(a) is type(b) and a == b)
    if isinstance(b, (int, float)):
        return isinstance(a, (int, float, np.number)) and a == b
    return a == b


@scenario("C38", quick=len(DOC), thorough=len(DOC))
def documented_defaults(ctx):
    cls, req, doc = DOC[ctx.index % len(DOC)]
    ctx.note(cls=cls.__name__)
    o = cls(**req)
    for k, v in doc.items():
        ctx.check("default", _same(getattr(o, k), v), cls=cls.__name__, parameter=k, got=getattr(o, k), documented=v)
        ctx.state(cls.__name__, k)
    if hasattr(o, "get_params"):
        got = o.get_params(deep=False)
        for k, v in doc.items():
            ctx.check("default-param", k in got and _same(got[k], v), cls=cls.__name__, parameter=k, got=got.get(k), documented=v)


class _Mark:
    """A value nothing else is equal to."""


@scenario("C38", quick=len(DOC) * 2, thorough=len(DOC) * 10)
def keeps_values(ctx):
    """What the constructor or set_params is given is what the object reports."""
    cls, req, doc = DOC[ctx.index % len(DOC)]
    if not hasattr(cls, "get_params"):
        # the splitters check their arguments
        o = (MS.CombinatorialPurgedCV(n_folds=7, n_test_folds=3, purged_size=2, embargo_size=1) if cls is MS.CombinatorialPurgedCV
             else MS.WalkForward(test_size=4, train_size=9, freq="MS", freq_offset=pd.offsets.Day(2), previous=True, expend_train=True, reduce_test=True, purged_size=3))
        want = (dict(n_folds=7, n_test_folds=3, purged_size=2, embargo_size=1) if cls is MS.CombinatorialPurgedCV
                else dict(test_size=4, train_size=9, freq="MS", freq_offset=pd.offsets.Day(2), previous=True, expend_train=True, reduce_test=True, purged_size=3))
        for k, v in want.items():
            ctx.check("splitter-keeps", getattr(o, k) == v, cls=cls.__name__, parameter=k, got=getattr(o, k), given=v)
        ctx.state(cls.__name__)
        return
    keys = sorted(set(inspect.signature(cls).parameters))
    some = keys if ctx.index < len(DOC) else [k for k in keys if ctx.rng.random() < 0.5]
    vals = {k: RiskMeasure.CVAR if k == "risk_measure" else _Mark() for k in some}
    vals.update({k: v for k, v in req.items() if k not in vals})
    ctx.note(cls=cls.__name__, given=some)
    ctx.state(cls.__name__, tuple(some))
    o = cls(**vals)
    got = o.get_params(deep=False)
    ctx.equal("all-parameters-reported", sorted(got), keys, cls=cls.__name__)
    for k in keys:
        if k in vals:
            ctx.check("keeps-value", got.get(k) is vals[k], cls=cls.__name__, parameter=k, got=got.get(k))
        elif k in doc:
            ctx.check("keeps-default", _same(got.get(k), doc[k]), cls=cls.__name__, parameter=k, got=got.get(k), documented=doc[k])
    p = cls(**req)
    for k in vals:
        p.set_params(**{k: vals[k]})
    for k in keys:
        if k in vals:
            ctx.check("set-value", p.get_params(deep=False).get(k) is vals[k], cls=cls.__name__, parameter=k)
        elif k in doc:
            ctx.check("set-leaves-others", _same(p.get_params(deep=False).get(k), doc[k]), cls=cls.__name__, parameter=k)


def _plausible(rng, v):
    if isinstance(v, bool):
        return bool(rng.random() < 0.5)
    if isinstance(v, int):
        return int(rng.choice([0, 1, 2, v + 3, v * 10 + 7]))
    if isinstance(v, float):
        return float(rng.choice([0.0, 1.0, v / 2, v + 0.25, -v - 1]))
    if isinstance(v, enum.Enum):
        # annualized risk measures are replaced with a warning
        some = [e for e in type(v) if not getattr(e, "is_annualized", False)]
        return some[int(rng.integers(len(some)))]
    if v is None:
        return [None, 0, 0.3, [1, 2], {"A": 1.0}, "text", _Mark()][int(rng.integers(7))]
    return v


SWITCHES = [(i, tuple(k for k, v in d.items() if isinstance(v, bool))) for i, (_, _, d) in enumerate(DOC)]
SWITCHES = [(i, k, code) for i, k in SWITCHES if k and hasattr(DOC[i][0], "get_params") for code in range(2 ** len(k))]


@scenario("C38", quick=len(SWITCHES), thorough=len(SWITCHES))
def keeps_switches(ctx):
    """Every combination of the true-or-false parameters."""
    i, keys, code = SWITCHES[ctx.index % len(SWITCHES)]
    cls, req, doc = DOC[i]
    vals = {k: bool(code >> j & 1) for j, k in enumerate(keys)}
    ctx.note(cls=cls.__name__, given=vals)
    ctx.state(cls.__name__, code)
    got = cls(**req, **vals).get_params(deep=False)
    for k, v in doc.items():
        ctx.check("keeps-switch", _same(got.get(k), vals.get(k, v)), cls=cls.__name__, parameter=k, got=got.get(k), given=vals)


@scenario("C38", quick=len(DOC) * 25, thorough=len(DOC) * 100)
def keeps_plausible_values(ctx):
    """The same with ordinary values, which a constructor might adjust to each other."""
    rng = ctx.rng
    cls, req, doc = DOC[ctx.index % len(DOC)]
    if not hasattr(cls, "get_params"):
        return
    vals = {k: _plausible(rng, v) for k, v in doc.items() if rng.random() < 0.8 and not (k == "risk_measure" and v is None)}
    vals.update({k: v for k, v in req.items() if k not in vals})
    ctx.note(cls=cls.__name__, given={k: str(v)[:30] for k, v in vals.items()})
    ctx.state(cls.__name__, str({k: str(v)[:12] for k, v in vals.items()}))
    o = cls(**vals)
    got = o.get_params(deep=False)
    for k, v in doc.items():
        want = vals.get(k, v)
        ok = got.get(k) is want if not isinstance(want, (int, float)) or isinstance(want, bool) else type(got.get(k)) is type(want) and got.get(k) == want
        ctx.check("keeps-plausible-value", ok or (k not in vals and _same(got.get(k), want)), cls=cls.__name__, parameter=k, got=got.get(k), given=want)


def _x(rng, n=60, m=5):
    X = gens.market(rng, n=n, m=m)
    return pd.DataFrame(X, columns=[f"A{i}" for i in range(m)], index=pd.bdate_range("2021-01-04", periods=n))


MEAS = [
    (lambda f, x, **k: f(x, **k), ME.cvar, "beta", 0.95), (lambda f, x, **k: f(x, **k), ME.value_at_risk, "beta", 0.95),
    (lambda f, x, **k: f(x, **k), ME.evar, "beta", 0.95), (lambda f, x, **k: f(x, **k), ME.entropic_risk_measure, "theta", 1.0),
    (lambda f, x, **k: f(x, **k), ME.entropic_risk_measure, "beta", 0.95),
    (lambda f, x, **k: f(np.minimum(0, x), **k), ME.cdar, "beta", 0.95), (lambda f, x, **k: f(np.minimum(0, x), **k), ME.edar, "beta", 0.95),
    (lambda f, x, **k: f(np.minimum(0, x), **k), ME.drawdown_at_risk, "beta", 0.95),
    (lambda f, x, **k: f(x, **k), ME.get_drawdowns, "compounded", False), (lambda f, x, **k: f(x, **k), ME.get_cumulative_returns, "compounded", False),
    (lambda f, x, **k: f(x, **k), ME.mean_absolute_deviation, "min_acceptable_return", None),
    (lambda f, x, **k: f(x, **k), ME.first_lower_partial_moment, "min_acceptable_return", None),
    (lambda f, x, **k: f(x, **k), ME.semi_variance, "min_acceptable_return", None),
    (lambda f, x, **k: f(x, **k), ME.semi_deviation, "min_acceptable_return", None),
    (lambda f, x, **k: f(x, **k), ME.fourth_lower_partial_moment, "min_acceptable_return", None),
]


@scenario("C38", quick=40, thorough=400)
def function_defaults(ctx):
    """Leaving an argument out is the same as giving its documented default."""
    x = ctx.rng.normal(0.001, 0.02, int(ctx.rng.choice([20, 37, 80, 200])))
    call, f, k, v = MEAS[ctx.index % len(MEAS)]
    v = float(np.mean(x)) if v is None else v
    ctx.note(function=f.__name__, argument=k, n=len(x))
    ctx.state(f.__name__, k, x)
    ctx.close("function-default", call(f, x), call(f, x, **{k: v}), rtol=1e-12, atol=1e-15, function=f.__name__, argument=k)
    X = _x(ctx.rng, m=4)
    w = ctx.rng.dirichlet(np.ones(4))
    a, b = Portfolio(X, w), Portfolio(X, w, previous_weights=0.0, transaction_costs=0.0, management_fees=0.0, **PTF)
    A = MultiPeriodPortfolio([a, a])
    B = MultiPeriodPortfolio([a, a], check_observations_order=False, **PTF)
    for k, v in PTF.items():
        for o in (a, A):
            ctx.check("portfolio-default", _same(getattr(o, k), v), cls=type(o).__name__, parameter=k, got=getattr(o, k))
    for e in [*RiskMeasure, *RatioMeasure, *PerfMeasure]:
        if e.value in ("Sharpe Ratio",) or ctx.rng.random() < 0.15:
            k = e.name.lower()
            ctx.close("portfolio-default-measure", getattr(a, k), getattr(b, k), rtol=1e-10, measure=k)
            ctx.close("multi-default-measure", getattr(A, k), getattr(B, k), rtol=1e-10, measure=k)
    P = (1 + X).cumprod() * 30
    P.iloc[7, 1] = np.nan
    ctx.check("prices-default", prices_to_returns(P).equals(prices_to_returns(
        P, log_returns=False, nan_threshold=1, join="outer", drop_inceptions_nan=True, fill_nan=True)))
    C = np.cov(X.values.T) - 0.4 * np.diag(np.var(X.values, axis=0))
    ctx.close("nearest-default", ST.cov_nearest(C), ST.cov_nearest(C, higham=False, higham_max_iteration=100), rtol=1e-12)


# (estimator without, estimator with the documented default spelled out)
def _pairs():
    EP, EC, EM = PR.EmpiricalPrior, MO.EmpiricalCovariance, MO.EmpiricalMu
    out = []

    def p(name, a, b, kind="plain"):
        out.append((name, a, b, kind))

    for rm in (RiskMeasure.VARIANCE, RiskMeasure.CVAR):
        p("MeanRisk.prior", OP.MeanRisk(risk_measure=rm), OP.MeanRisk(risk_measure=rm, prior_estimator=EP()))
        p("RiskBudgeting.prior", OP.RiskBudgeting(risk_measure=rm), OP.RiskBudgeting(risk_measure=rm, prior_estimator=EP()))
        for H in (OP.HierarchicalRiskParity, OP.HierarchicalEqualRiskContribution):
            p(H.__name__, H(risk_measure=rm), H(
                risk_measure=rm, prior_estimator=EP(), distance_estimator=DI.PearsonDistance(),
                hierarchical_clustering_estimator=CL.HierarchicalClustering(linkage_method=CL.LinkageMethod.WARD)))
    p("RiskBudgeting.budget", OP.RiskBudgeting(), OP.RiskBudgeting(risk_budget=[1.0] * 5))
    p("MaxDiv.prior", OP.MaximumDiversification(), OP.MaximumDiversification(prior_estimator=EP()))
    p("DRCVaR.prior", OP.DistributionallyRobustCVaR(), OP.DistributionallyRobustCVaR(prior_estimator=EP()))
    p("InvVol.prior", OP.InverseVolatility(), OP.InverseVolatility(prior_estimator=EP()))
    p("NCO", OP.NestedClustersOptimization(), OP.NestedClustersOptimization(
        inner_estimator=OP.MeanRisk(), outer_estimator=OP.MeanRisk(), distance_estimator=DI.PearsonDistance(),
        clustering_estimator=CL.HierarchicalClustering(), cv=KFold(5)))
    ests = [("a", OP.InverseVolatility()), ("b", OP.EqualWeighted()), ("c", OP.HierarchicalRiskParity())]
    p("Stacking", OP.StackingOptimization(ests), OP.StackingOptimization(ests, final_estimator=OP.MeanRisk(), cv=KFold(5)))
    p("EmpiricalPrior", EP(), EP(mu_estimator=EM(), covariance_estimator=EC(ddof=1)), "prior")
    p("BlackLitterman.prior", PR.BlackLitterman(["A1 - A0 == 0.001", "A3 == 0.0004"]),
      PR.BlackLitterman(["A1 - A0 == 0.001", "A3 == 0.0004"], prior_estimator=EP(mu_estimator=MO.EquilibriumMu())), "prior")
    p("FactorModel", PR.FactorModel(), PR.FactorModel(
        loading_matrix_estimator=PR.LoadingMatrixRegression(), factor_prior_estimator=EP(), residual_variance=True), "factor")
    p("Loading", PR.FactorModel(), PR.FactorModel(
        loading_matrix_estimator=PR.LoadingMatrixRegression(linear_regressor=skl.LassoCV(fit_intercept=False))), "factor")
    p("EquilibriumMu", MO.EquilibriumMu(), MO.EquilibriumMu(weights=np.ones(5) / 5, covariance_estimator=EC()), "mu")
    for me in MO.ShrunkMuMethods:
        p(f"ShrunkMu {me.name}", MO.ShrunkMu(method=me), MO.ShrunkMu(method=me, covariance_estimator=EC()), "mu")
    p("EmpiricalMu.window", MO.EmpiricalMu(), MO.EmpiricalMu(window_size=60), "mu")
    p("EWMu.window", MO.EWMu(), MO.EWMu(window_size=60), "mu")
    p("EmpiricalCovariance.window", EC(), EC(window_size=60), "cov")
    p("EWCovariance.window", MO.EWCovariance(), MO.EWCovariance(window_size=60), "cov")
    p("Gerber.window", MO.GerberCovariance(), MO.GerberCovariance(window_size=60), "cov")
    p("Denoise.cov", MO.DenoiseCovariance(), MO.DenoiseCovariance(covariance_estimator=EC()), "cov")
    p("Detone.cov", MO.DetoneCovariance(), MO.DetoneCovariance(covariance_estimator=EC()), "cov")
    p("Implied.cov", MO.ImpliedCovariance(), MO.ImpliedCovariance(prior_covariance_estimator=EC()), "implied")
    p("Implied.regressor", MO.ImpliedCovariance(), MO.ImpliedCovariance(linear_regressor=skl.LinearRegression()), "implied")
    p("CovarianceDistance.cov", DI.CovarianceDistance(), DI.CovarianceDistance(covariance_estimator=MO.GerberCovariance()), "distance")
    for U in (US.EmpiricalMuUncertaintySet, US.EmpiricalCovarianceUncertaintySet):
        p(U.__name__, U(), U(prior_estimator=EP()), "set")
    for U in (US.BootstrapMuUncertaintySet, US.BootstrapCovarianceUncertaintySet):
        p(U.__name__, U(seed=3, n_bootstrap_samples=40), U(prior_estimator=EP(), seed=3, n_bootstrap_samples=40), "set")
    p("SelectNonDominated.fitness", PS.SelectNonDominated(), PS.SelectNonDominated(fitness_measures=[PerfMeasure.MEAN, RiskMeasure.VARIANCE]), "select")
    p("Vine.marginals", DB.VineCopula(random_state=4), DB.VineCopula(
        random_state=4, marginal_candidates=[DB.Gaussian(), DB.StudentT(), DB.JohnsonSU()],
        copula_candidates=[DB.GaussianCopula(), DB.StudentTCopula(), DB.ClaytonCopula(), DB.GumbelCopula(), DB.JoeCopula()]), "vine")
    p("Synthetic.vine", PR.SyntheticData(n_samples=50), PR.SyntheticData(n_samples=50, distribution_estimator=DB.VineCopula()), "vine-prior")
    return out


N_PAIRS = len(_pairs())


@scenario("C38", quick=N_PAIRS * 2, thorough=N_PAIRS * 12, weight=3)
def missing_parts(ctx):
    """An estimator left to None behaves as its documented default component."""
    rng = ctx.rng
    name, a, b, kind = _pairs()[ctx.index % N_PAIRS]
    m = 5
    X = _x(rng, 60, m)
    ctx.note(pair=name)
    ctx.state(name, X.values)

    def fit(e):
        if kind == "factor":
            F = pd.DataFrame(X.values @ rng0.normal(size=(m, 2)) / m, index=X.index, columns=["F0", "F1"])
            return e.fit(X, F)
        if kind == "implied":
            iv = pd.DataFrame(np.abs(rng0.normal(0.25, 0.05, X.shape)), index=X.index, columns=X.columns)
            return e.fit(X, implied_vol=iv)
        return e.fit(X)

    seed = int(rng.integers(1 << 30))
    outs = []
    for e in (a, b):
        rng0 = np.random.default_rng(seed)
        fit(e)
        if kind == "plain":
            o = [e.weights_]
        elif kind in ("prior", "factor"):
            q = e.prior_model_
            o = [q.mu, q.covariance, q.returns]
        elif kind == "mu":
            o = [e.mu_]
        elif kind in ("cov", "implied"):
            o = [e.covariance_]
        elif kind == "distance":
            o = [e.codependence_, e.distance_]
        elif kind == "set":
            u = e.uncertainty_set_
            o = [u.k, u.sigma]
        elif kind == "select":
            o = [e.get_support().astype(float)]
        elif kind == "vine":
            o = [e.score_samples(X), [type(d).__name__ for d in e.marginal_distributions_]]
        else:
            d = e.distribution_estimator_
            o = [d.score_samples(X), [type(d).__name__]]
        outs.append(o)
    for u, v in zip(*outs):
        if isinstance(u, list):
            ctx.equal("same-components", u, v, pair=name)
        else:
            ctx.close("default-component", u, v, rtol=1e-7, atol=1e-10, pair=name)


def _wrong():
    """(name, estimator with a component of the wrong kind)"""
    mu, cov, dist, prior, clus, opt = (MO.EmpiricalMu(), MO.EmpiricalCovariance(), DI.PearsonDistance(), PR.EmpiricalPrior(),
                                       CL.HierarchicalClustering(), OP.EqualWeighted())
    us_m, us_c = US.EmpiricalMuUncertaintySet(), US.EmpiricalCovarianceUncertaintySet()
    out = []
    for C in (OP.MeanRisk, OP.RiskBudgeting, OP.MaximumDiversification, OP.DistributionallyRobustCVaR, OP.InverseVolatility,
              OP.HierarchicalRiskParity, OP.HierarchicalEqualRiskContribution, US.EmpiricalMuUncertaintySet,
              US.EmpiricalCovarianceUncertaintySet, US.BootstrapMuUncertaintySet, US.BootstrapCovarianceUncertaintySet):
        for w in (mu, cov, dist, opt, "prior", 3):
            out.append((f"{C.__name__}.prior_estimator", C(prior_estimator=w)))
    for C in (OP.HierarchicalRiskParity, OP.HierarchicalEqualRiskContribution):
        for w in (mu, cov, prior, clus, "pearson"):
            out.append((f"{C.__name__}.distance_estimator", C(distance_estimator=w)))
        for w in (mu, dist, prior, KMeans(2)):
            out.append((f"{C.__name__}.hierarchical_clustering_estimator", C(hierarchical_clustering_estimator=w)))
    N = OP.NestedClustersOptimization
    out += [("NCO.distance_estimator", N(distance_estimator=w)) for w in (mu, clus, opt)]
    out += [("NCO.inner_estimator", N(inner_estimator=w)) for w in (mu, prior, KMeans(2))]
    out += [("NCO.outer_estimator", N(outer_estimator=w)) for w in (mu, prior, KMeans(2))]
    out += [("Stacking.final_estimator", OP.StackingOptimization([("a", opt), ("b", OP.InverseVolatility())], final_estimator=w)) for w in (mu, prior)]
    for w in (cov, prior, dist):
        out.append(("EmpiricalPrior.mu_estimator", PR.EmpiricalPrior(mu_estimator=w)))
    for w in (mu, prior, dist):
        out.append(("EmpiricalPrior.covariance_estimator", PR.EmpiricalPrior(covariance_estimator=w)))
        out.append(("EquilibriumMu.covariance_estimator", MO.EquilibriumMu(covariance_estimator=w)))
        out.append(("ShrunkMu.covariance_estimator", MO.ShrunkMu(covariance_estimator=w)))
        out.append(("Denoise.covariance_estimator", MO.DenoiseCovariance(covariance_estimator=w)))
        out.append(("Detone.covariance_estimator", MO.DetoneCovariance(covariance_estimator=w)))
        out.append(("CovarianceDistance.covariance_estimator", DI.CovarianceDistance(covariance_estimator=w)))
    for w in (mu, cov, opt):
        out.append(("BlackLitterman.prior_estimator", PR.BlackLitterman(["A1 == 0.001"], prior_estimator=w)))
    for w in (us_c, prior, mu):
        out.append(("MeanRisk.mu_uncertainty_set_estimator", OP.MeanRisk(
            objective_function=OP.ObjectiveFunction.MAXIMIZE_RETURN, mu_uncertainty_set_estimator=w)))
    for w in (us_m, prior, cov):
        out.append(("MeanRisk.covariance_uncertainty_set_estimator", OP.MeanRisk(covariance_uncertainty_set_estimator=w)))
    for w in (RatioMeasure.SHARPE_RATIO, "variance", PerfMeasure.MEAN):
        out.append(("MeanRisk.risk_measure", lambda w=w: OP.MeanRisk(risk_measure=w)))
        out.append(("RiskBudgeting.risk_measure", lambda w=w: OP.RiskBudgeting(risk_measure=w)))
    for w in ("minimize", 2.5, RiskMeasure.CVAR):
        out.append(("MeanRisk.objective_function", OP.MeanRisk(objective_function=w)))
    return out


N_WRONG = len(_wrong())


@scenario("C38", quick=N_WRONG, thorough=N_WRONG)
def wrong_component(ctx):
    name, e = _wrong()[ctx.index % N_WRONG]
    X = _x(ctx.rng, 40, 5)
    ctx.note(what=name, estimator=repr(e)[:200])
    ctx.state(name, repr(e)[:200])
    ctx.refused("wrong-component", lambda: (e() if callable(e) else e).fit(X), (TypeError, ValueError, AttributeError), what=name)


def _unfitted():
    X = lambda rng: _x(rng, 30, 4)
    U = lambda rng: rng.uniform(0.1, 0.9, (20, 2))
    V = lambda rng: rng.normal(size=(20, 1))
    out = []
    for C, req, _ in DOC:
        m = C.__module__
        if issubclass(C, OP.BaseOptimization):
            out += [(C, req, "predict", X), (C, req, "score", X)]
        elif ".pre_selection" in m:
            out += [(C, req, "transform", X), (C, req, "get_support", None)]
        elif ".univariate" in m:
            out += [(C, req, k, V) for k in ("score_samples", "score", "cdf")] + [(C, req, "aic", V), (C, req, "bic", V), (C, req, "sample", None)]
        elif ".copula" in m:
            out += [(C, req, k, U) for k in ("score_samples", "score", "cdf", "partial_derivative", "inverse_partial_derivative", "aic", "bic")]
            out += [(C, req, "sample", None)]
        elif ".multivariate" in m:
            out += [(C, req, "sample", None), (C, req, "score_samples", X), (C, req, "score", X)]
    return out


N_UNF = len(_unfitted())


@scenario("C38", quick=N_UNF, thorough=N_UNF)
def unfitted(ctx):
    C, req, meth, gen = _unfitted()[ctx.index % N_UNF]
    e = C(**req)
    if not hasattr(e, meth):
        return
    ctx.note(cls=C.__name__, method=meth)
    ctx.state(C.__name__, meth)
    args = [] if gen is None else [gen(ctx.rng)]
    ctx.refused("not-fitted", lambda: getattr(e, meth)(*args), (AttributeError,) if ".univariate" in C.__module__ else (NotFittedError,), cls=C.__name__, method=meth)
