"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

S = "src/skfolio/"


def P(id, title, statement, over, text, why, files, mech, observe, technique, note):
    return dict(
        id=id,
        title=title,
        statement=statement,
        over=over,
        text=text,
        why=why,
        files=[S + f for f in files],
        mech=[dict(name=n, where=S + w) for n, w in mech],
        observe=observe,
        technique=technique,
        note=note,
    )


PROPS = [
    P(
        "C01",
        "Every risk, performance and drawdown measure equals its definition",
        "For every finite return series and every admissible confidence level, risk aversion, minimum acceptable "
        "return or compounding choice, each published measure (moments, lower partial moments, mean absolute "
        "deviation, value at risk, conditional and entropic value at risk, worst realization, drawdown measures, "
        "ulcer index, Gini mean difference, effective number of assets) returns the value of its published "
        "mathematical definition. Measures move consistently with each other: tail measures are ordered and "
        "monotone in their confidence level, and they scale and translate with the returns as their definition says.",
        ["inputs", "configurations"],
        "all finite return series (any length, sign, ties, constants, extreme scales), all confidence levels in (0,1), thetas, minimum acceptable returns, compounded or not",
        "The tests compare a few fixed series against hard-coded numbers at the default confidence levels; boundary confidence levels, ties, short series and compounded drawdowns are not sampled.",
        ["measures/_measures.py", "measures/_enums.py"],
        [("closed-form or sorted-order evaluation of each measure", "measures/_measures.py")],
        ["return value of each public measure function", "measure attributes of a portfolio"],
        "reference-model monitor on generated return series",
        "Independent scalar re-implementation (loops, sorting, 1-D convex search for entropic measures) compared on generated series; metamorphic monitors (ordering, monotonicity, scaling). Held on the series generated, not proved.",
    ),
    P(
        "C02",
        "Portfolio returns and holdings account exactly for weights, costs and fees",
        "For every asset-return table, weights, previous weights, transaction costs and management fees, given as "
        "numbers, arrays or mappings by asset name, a portfolio's returns are the weighted asset returns minus the "
        "cost on traded weights and the fee on held weights. Its composition, per-observation weights, weight lookup, "
        "contributions, diversification ratio, effective number of assets, and expectations from given asset moments are those of that same "
        "portfolio, with every value attached to the right asset and observation.",
        ["inputs", "configurations"],
        "all asset tables (arrays, data frames), weight/cost/fee encodings (scalar, array, mapping with missing assets), long/short/zero weights",
        "Tests use one data set and a handful of weight vectors; mapping inputs with missing or reordered assets, near-zero weights and simultaneous costs and fees are barely reached.",
        ["portfolio/_portfolio.py", "utils/tools.py"],
        [("net return computation", "portfolio/_portfolio.py"), ("conversion of mappings to per-asset arrays", "utils/tools.py")],
        ["returns", "composition", "weights per observation", "contribution", "diversification"],
        "reference-model monitor on generated portfolios",
        "Independent per-observation accounting compared on generated portfolios. Held on what was generated.",
    ),
    P(
        "C03",
        "Portfolio measures are never stale after any history of reads and changes",
        "After any sequence of measure reads, parameter changes, copies, pickling and summaries, every measure, ratio, "
        "annualized measure, fitness vector and summary entry of a portfolio equals that of a portfolio freshly built "
        "with the current parameters. Data that defines the portfolio cannot be reassigned, and changing a copy never "
        "changes the original.",
        ["histories", "configurations"],
        "all interleavings of attribute reads, parameter assignments, clears, copies and pickles on single-period, multi-period and base portfolios",
        "Each test sets one parameter once; cached values make correctness depend on the whole history of reads and writes.",
        ["portfolio/_base.py", "portfolio/_portfolio.py", "portfolio/_multi_period_portfolio.py", "utils/tools.py"],
        [("measure cache in slots cleared on parameter change", "portfolio/_base.py"), ("read-only attribute guard", "portfolio/_base.py")],
        ["every measure attribute after each step of the history", "rejected assignments", "summary"],
        "history monitor against a freshly built twin",
        "Random operation histories are replayed on the real object; after each step sampled measures are compared with a fresh object and with independent definitions.",
    ),
    P(
        "C04",
        "Portfolio arithmetic acts on weights and keeps everything else",
        "Adding, subtracting, negating, scaling, dividing, floor-dividing, rounding or taking the absolute value of portfolios yields a portfolio "
        "whose weights are the elementwise result and whose other settings are those of the operands, leaving the operands untouched. "
        "Combining portfolios whose data or settings differ is refused. Multi-period portfolios apply the same operation period by period.",
        ["inputs", "histories"],
        "all operators on all pairs of compatible and incompatible portfolios, chained",
        "Tests apply each operator once to one portfolio; chains, incompatible operands and cost-bearing portfolios are not covered.",
        ["portfolio/_portfolio.py", "portfolio/_multi_period_portfolio.py"],
        [("operator overloads rebuilding a portfolio", "portfolio/_portfolio.py")],
        ["weights, returns and settings of results and operands", "errors"],
        "reference-model monitor on generated operator chains",
        "Independent elementwise model compared on generated operator chains.",
    ),
    P(
        "C05",
        "A multi-period portfolio is always the concatenation of its periods",
        "After any history of construction, appending, replacing, deleting and reassigning periods, a multi-period portfolio's "
        "returns and observations are the concatenation of its periods in order and all of its measures are those of that "
        "concatenation. Its composition, per-observation weights and contribution tables hold each period's values under unique names, and "
        "overlapping periods are refused when order checking is on.",
        ["histories", "inputs"],
        "all edit histories over periods with equal or different assets, with and without order checking",
        "Tests exercise each edit once; wrong results appear only after particular edit and read sequences.",
        ["portfolio/_multi_period_portfolio.py", "utils/tools.py"],
        [("concatenation on edit and cache clearing", "portfolio/_multi_period_portfolio.py")],
        ["returns, observations, measures, tables after each edit"],
        "history monitor against a list-of-periods model",
        "A plain list of periods is edited in lockstep; after each edit the observable state is compared.",
    ),
    P(
        "C06",
        "Population queries return exactly the portfolios they describe",
        "For every population, filtering by name or tag, sorting, quantile, minimum and maximum selection, measure vectors, averages, dispersions, "
        "summaries, composition, contribution and rolling tables correspond exactly to the member portfolios' own values, in order and with names kept distinguishable. "
        "List edits keep the population consistent, refuse anything that is not a portfolio, and setting a parameter on the population changes it on every member.",
        ["histories", "inputs"],
        "all populations (empty-ish, duplicates, ties, mixed single and multi-period members), measures, quantiles, filters and edits",
        "Tests use one random population; ties, duplicate names, extreme quantiles and slices are not explored.",
        ["population/_population.py", "utils/tools.py"],
        [("selection by sorted measure", "population/_population.py")],
        ["selected members", "tables", "errors"],
        "reference-model monitor on generated populations",
        "Independent selection over plain lists compared on generated populations.",
    ),
    P(
        "C07",
        "Non-dominated sorting yields the true Pareto fronts",
        "For every population and choice of fitness measures, dominance holds exactly when one portfolio is at least as good on every fitness measure and strictly better on one, "
        "performance and ratios counting upward and risks downward. Non-dominated sorting puts every portfolio in exactly one front, each front contains exactly the portfolios dominated only by earlier fronts, "
        "and asking for the first front only returns that first front.",
        ["inputs"],
        "all fitness tables including ties, duplicates, one or many objectives, and all portfolio populations",
        "Tests check one random population; ties and duplicates and many objectives change the fronts.",
        ["utils/sorting.py", "population/_population.py", "portfolio/_base.py"],
        [("fast non-dominated sort", "utils/sorting.py"), ("fitness sign convention", "portfolio/_base.py")],
        ["fronts", "comparison operators and dominance calls"],
        "brute-force oracle monitor on generated fitness tables",
        "Quadratic brute-force front peeling compared on generated tables with many ties.",
    ),
    P(
        "C08",
        "Combinatorial purged splits partition the data and never leak",
        "For every number of observations, folds and test folds, every combination of test folds appears exactly once, every observation belongs to exactly one fold, and the training set of a "
        "split is exactly the remaining observations minus those within the purge and embargo distance of a test block. The path assignment puts each fold exactly once on each test path, and reported counts "
        "(splits, paths, average training size) match what is produced.",
        ["configurations", "inputs"],
        "all (observations, folds, test folds, purge, embargo) combinations that are accepted, and those that must be refused",
        "Tests check two or three configurations where the folds divide evenly.",
        ["model_selection/_combinatorial.py"],
        [("fold assignment, purge and embargo marking, path recombination", "model_selection/_combinatorial.py")],
        ["train and test indices", "path ids", "summary"],
        "exhaustive-small and random configuration monitor with set oracle",
        "Set-based oracle evaluated on every split of enumerated and random configurations.",
    ),
    P(
        "C09",
        "Walk-forward splits roll forward with the stated sizes and never look ahead",
        "For every number of observations, size, purge, expansion and partial-test choice, each test block directly follows the previous one and each training block ends the purge distance before its test block "
        "with the stated length, or starts at the first observation when expanding. With calendar frequencies the blocks are delimited by the frequency dates, resolved to the previous or next observation, shifted by the stated offset, and training never contains "
        "a test or later observation. The announced number of splits equals the number produced.",
        ["configurations", "inputs"],
        "all integer configurations and all calendar frequency, offset, previous/next, expanding, partial-test and purge combinations on regular and irregular calendars",
        "Tests cover one calendar with no purge in the calendar modes and no irregular index.",
        ["model_selection/_walk_forward.py"],
        [("index arithmetic over frequency dates", "model_selection/_walk_forward.py")],
        ["train and test indices", "announced number of splits"],
        "configuration monitor with date-based oracle",
        "Independent date-scan oracle compared on random calendars and configurations.",
    ),
    P(
        "C10",
        "Cross-validated predictions are out-of-sample and faithfully assembled",
        "For every estimator and splitter, each predicted portfolio comes from a fresh copy of the estimator fitted only on that split's training rows and evaluated on exactly its test rows, leaving the passed estimator and data unchanged. "
        "Single-path splitters give one multi-period portfolio in time order; combinatorial splitters give one per path with each fold once. Results do not depend on parallelism, and metadata, targets and asset subsets follow the same rows and columns.",
        ["configurations", "schedules", "inputs"],
        "all splitters (k-fold, time-series, walk-forward, combinatorial), estimators, pipelines, n_jobs, aligned fit metadata and column subsets",
        "Tests compare two cases; leakage or mis-assembly depends on the splitter, the metadata and the number of workers.",
        ["model_selection/_validation.py", "utils/tools.py"],
        [("fit/predict per split on a clone, path assembly", "model_selection/_validation.py"), ("safe row/column slicing", "utils/tools.py")],
        ["rows seen by fit and predict of a recording estimator", "assembled portfolios"],
        "recording-estimator event-log monitor",
        "A probe estimator logs the exact rows, columns and metadata it receives; an offline oracle checks the log and the assembled result.",
    ),
    P(
        "C11",
        "Mean-risk portfolios satisfy every constraint they were given",
        "Every allocation returned by mean-risk optimization satisfies, up to solver accuracy, all requested constraints for every objective and risk measure: weight bounds, budget or budget range, total long and short limits, "
        "linear and group constraints, matrix inequalities, cardinality and group cardinality, minimum-position thresholds, turnover, tracking error, minimum expected return, every risk-measure ceiling and custom constraints. "
        "Infeasible or contradictory requests fail rather than return a violating allocation.",
        ["configurations", "inputs"],
        "all combinations of constraints, objectives, risk measures, costs and input encodings on random markets",
        "Tests exercise constraints mostly one at a time on one data set with the default objective.",
        ["optimization/convex/_mean_risk.py", "optimization/convex/_base.py", "utils/equations.py"],
        [("constraint construction with homogenization factor", "optimization/convex/_base.py")],
        ["weights", "errors"],
        "post-condition monitor on generated constrained problems",
        "Each returned allocation is re-evaluated by an independent constraint checker. Tolerances 1e-4 relative to the constraint scale.",
    ),
    P(
        "C12",
        "Mean-risk portfolios are optimal for their stated objective",
        "For every objective (minimum risk, maximum return, maximum utility, maximum ratio), convex risk measure, cost, fee, regularization and confidence level, no feasible allocation achieves a better objective value than the one returned, up to "
        "solver accuracy. The reported objective and expected return equal those of the returned weights, and so does the reported risk when the objective involves it.",
        ["configurations", "inputs"],
        "all objective / risk-measure / cost / regularization combinations on random markets",
        "Tests assert a few orderings between models on one data set; a slightly wrong objective still passes them.",
        ["optimization/convex/_mean_risk.py", "optimization/convex/_base.py"],
        [("convex formulation of each risk measure and objective", "optimization/convex/_base.py")],
        ["weights", "problem values"],
        "differential optimality monitor (independent formulation plus feasible-move search)",
        "Independent conic formulation and random feasible moves, both judged with independent measure definitions. Trusts the conic solver for the reference solution but the verdict only needs a better feasible point.",
    ),
    P(
        "C13",
        "Efficient frontiers and target lists return one consistent portfolio per target",
        "An efficient frontier returns the requested number of portfolios, spanning from minimum risk to maximum return, with expected return and risk both non-decreasing and each portfolio of minimum risk for its return. "
        "A list of targets for a return or risk constraint yields, in order, the same portfolio as solving for each target alone, and predictions name and order the portfolios accordingly.",
        ["configurations", "inputs"],
        "all frontier sizes, risk measures, target lists and additional constraints",
        "Tests look at one frontier; parameter reuse across solves makes order and independence matter.",
        ["optimization/convex/_mean_risk.py", "optimization/convex/_base.py", "optimization/_base.py"],
        [("parametrized problem solved repeatedly", "optimization/convex/_base.py")],
        ["weights matrix", "predicted population"],
        "pointwise differential monitor",
        "Each frontier point is compared with an independent single solve and with monotonicity of the frontier.",
    ),
    P(
        "C14",
        "Risk budgeting gives each asset its budgeted share of risk",
        "For every supported risk measure and positive budget vector (equal by default, given as array or by asset name), the long-only, fully invested allocation returned has asset risk contributions proportional to the budget, up to solver accuracy, when no other constraint binds. "
        "Weight bounds, linear constraints and minimum return are satisfied when requested, and unsupported short allocations are refused.",
        ["configurations", "inputs"],
        "all markets, risk measures, budgets and bounds",
        "Tests check equality of contributions on one data set and for equal or one fixed budget.",
        ["optimization/convex/_risk_budgeting.py", "optimization/convex/_base.py"],
        [("log-barrier formulation", "optimization/convex/_risk_budgeting.py")],
        ["weights", "risk contributions computed independently"],
        "post-condition monitor with analytic risk contributions",
        "Contributions are computed by independent (sub)gradients of the measure definitions.",
    ),
    P(
        "C15",
        "Maximum-diversification and distributionally robust allocations are optimal",
        "The maximum-diversification allocation is feasible for all requested constraints and no feasible allocation has a higher ratio of weighted volatilities to portfolio volatility. "
        "The distributionally robust allocation minimizes the worst-case conditional value at risk, combined with the stated risk aversion, over the stated Wasserstein radius and confidence level, subject to its constraints.",
        ["configurations", "inputs"],
        "all markets, bounds, groups, radii, aversions and confidence levels",
        "Tests check one data set.",
        ["optimization/convex/_maximum_diversification.py", "optimization/convex/_distributionally_robust.py"],
        [("ratio homogenization", "optimization/convex/_maximum_diversification.py"), ("dual reformulation", "optimization/convex/_distributionally_robust.py")],
        ["weights"],
        "differential optimality monitor",
        "Closed-form / independent conic reference plus feasible-move search.",
    ),
    P(
        "C16",
        "Naive allocations follow their rule",
        "The equal-weighted allocation gives every asset the same weight, the inverse-volatility allocation gives weights proportional to the inverse of each asset's estimated volatility under the chosen prior, and the random "
        "allocation gives non-negative weights; all sum to one for every number of assets. Random weight generation returns non-negative weights summing to one with exactly the requested number of zero weights.",
        ["inputs", "configurations"],
        "all markets, priors and generated sizes",
        "Tests check a single data set.",
        ["optimization/naive/_naive.py", "utils/stats.py"],
        [("closed-form allocation", "optimization/naive/_naive.py")],
        ["weights"],
        "reference-model monitor",
        "Closed-form oracle on generated markets and priors.",
    ),
    P(
        "C17",
        "Hierarchical risk parity splits weight by inverse risk down the ordered tree",
        "For every market, risk measure, distance, linkage and prior, hierarchical risk parity weights are those obtained by bisecting the optimally ordered dendrogram leaves and splitting each cluster in inverse proportion to the risk of its inverse-risk allocation. "
        "The weights sum to one and respect per-asset minimum and maximum weights, and infeasible bounds are refused.",
        ["inputs", "configurations"],
        "all markets, risk measures, linkage methods, distances, priors, bounds, costs and fees",
        "Tests use one data set; unequal sub-cluster sizes and binding bounds are sampled only there.",
        ["optimization/cluster/hierarchical/_hrp.py", "optimization/cluster/hierarchical/_base.py"],
        [("recursive bisection with bounded split", "optimization/cluster/hierarchical/_hrp.py")],
        ["weights"],
        "reference-model monitor",
        "Independent recursive implementation on generated markets; bounds checked as post-conditions.",
    ),
    P(
        "C18",
        "Hierarchical equal risk contribution divides risk along the cluster tree",
        "For every market, risk measure, distance and clustering setting, the weights are inverse-risk within each cluster and, at each split of the dendrogram above the cut, shared in inverse proportion to the total risk of the clusters on either side. "
        "The weights sum to one and, when minimum or maximum weights are given, are the closest relative adjustment satisfying them.",
        ["inputs", "configurations"],
        "all markets, risk measures, linkage methods, cluster counts, bounds",
        "Tests use one data set with few settings.",
        ["optimization/cluster/hierarchical/_herc.py", "optimization/cluster/hierarchical/_base.py", "utils/stats.py"],
        [("top-down recursive division", "optimization/cluster/hierarchical/_herc.py"), ("relative deviation projection", "utils/stats.py")],
        ["weights"],
        "reference-model monitor",
        "Independent tree recursion and independent projection on generated markets.",
    ),
    P(
        "C19",
        "Nested-cluster weights compose inner and outer allocations",
        "For every clustering, inner and outer estimator, the final weights are each cluster's inner weights times the weight the outer estimator gives that cluster, every asset belonging to exactly one cluster. "
        "The outer estimator is fitted on out-of-sample cluster returns of the requested cross-validation, or in-sample when cross-validation is disabled, and results do not depend on parallelism.",
        ["inputs", "configurations", "schedules"],
        "all markets, clusterings, inner/outer estimators, splitters, n_jobs",
        "Tests check one market and sum of weights.",
        ["optimization/cluster/_nco.py"],
        [("inner/outer composition", "optimization/cluster/_nco.py")],
        ["weights", "data seen by recording inner and outer estimators"],
        "reference-model and event-log monitor",
        "Independent recomposition from separately fitted estimators; recording estimators log what the outer fit saw.",
    ),
    P(
        "C20",
        "Stacking weights compose base allocations with the final allocation",
        "For every set of base estimators and final estimator, the stacked weights are the base estimators' weights (fitted on all rows) averaged with the final estimator's weights. The final estimator is fitted on the base estimators' predicted "
        "returns — out-of-sample for the requested cross-validation, in-sample when disabled, or from already fitted estimators without refitting them — in the order of the named estimators, independent of parallelism; base estimators and their parameters can be read and replaced by name.",
        ["inputs", "configurations", "schedules"],
        "all base sets, final estimators, splitters (including combinatorial with quantile selection), prefit, n_jobs",
        "Tests check one composition.",
        ["optimization/ensemble/_stacking.py", "optimization/ensemble/_base.py"],
        [("composition of base and final weights", "optimization/ensemble/_stacking.py")],
        ["weights", "data seen by the final estimator"],
        "reference-model and event-log monitor",
        "Independent recomposition plus recording estimators.",
    ),
    P(
        "C21",
        "Covariance estimators compute their stated estimator",
        "For every return table and parameter choice, each covariance estimator (empirical, exponentially weighted, Gerber variants, denoised, detoned, Ledoit-Wolf, oracle-approximating, shrunk, graphical lasso, implied) returns the matrix of its published definition, "
        "using only the stated window, decay, degrees of freedom, threshold or volatility inputs.",
        ["inputs", "configurations"],
        "all return tables and parameters",
        "Tests compare single default runs with stored numbers.",
        ["moments/covariance"],
        [("per-estimator formula", "moments/covariance")],
        ["fitted covariance"],
        "reference-model monitor",
        "Independent implementations (explicit loops, direct library calls) on generated tables.",
    ),
    P(
        "C22",
        "Covariance outputs are always symmetric, positive definite and repair minimally",
        "Every fitted covariance is finite, symmetric, has positive variances and is numerically positive semi-definite, even for degenerate, collinear or short samples, or fitting fails. Repairing a matrix to the nearest covariance leaves an already valid matrix unchanged, preserves the variances, "
        "and always returns a valid matrix; conversions between covariance and correlation are mutually inverse.",
        ["inputs"],
        "all symmetric matrices including indefinite, singular, badly scaled ones, and all degenerate return tables",
        "Tests use a couple of fixed indefinite matrices.",
        ["utils/stats.py", "moments/covariance/_base.py"],
        [("eigenvalue clipping and alternating projections", "utils/stats.py")],
        ["returned matrices"],
        "invariant monitor on hostile matrices",
        "Numerical invariants (eigenvalues, symmetry, diagonal, Cholesky) on generated matrices.",
    ),
    P(
        "C23",
        "Expected-return estimators compute their stated estimator",
        "For every return table and parameter choice, the empirical, exponentially weighted, equilibrium and shrinkage (James-Stein, Bayes-Stein, Bodnar-Okhrin) expected returns equal their published formulas, using only the stated window, weights, aversion, "
        "covariance estimator and shrinkage target.",
        ["inputs", "configurations"],
        "all return tables, parameters and nested covariance estimators",
        "Tests compare single default runs with stored numbers.",
        ["moments/expected_returns"],
        [("per-estimator formula", "moments/expected_returns")],
        ["fitted expected returns"],
        "reference-model monitor",
        "Independent formulas on generated tables.",
    ),
    P(
        "C24",
        "Empirical and Black-Litterman priors combine data and views as stated",
        "The empirical prior exposes exactly the fitted moments and the return table, and under the log-normal option the moments projected to the horizon from log-return moments. The Black-Litterman prior returns the posterior mean and covariance of the prior moments, view portfolios, tau, "
        "confidences and risk-free rate; certain views are met exactly, worthless views leave the prior mean, and the order in which views are listed does not matter.",
        ["inputs", "configurations"],
        "all markets, view sets over assets and groups, confidences, taus",
        "Tests compare two view sets.",
        ["prior/_empirical.py", "prior/_black_litterman.py", "utils/equations.py"],
        [("posterior formulas", "prior/_black_litterman.py")],
        ["prior model"],
        "reference-model and metamorphic monitor",
        "Independent dense formula (inverse form) and metamorphic limits on generated views.",
    ),
    P(
        "C25",
        "Factor-model priors map factor moments to assets through the loadings",
        "For every asset and factor table and loading estimator, the factor prior's mean, covariance and returns are the factor prior's mapped through the fitted loadings and intercepts, plus the residual variances on the diagonal when requested, and the exposed square root reproduces the covariance. "
        "Loadings are the per-asset regression coefficients of assets on factors.",
        ["inputs", "configurations"],
        "all asset/factor tables, regressors, factor priors, residual options",
        "Tests compare one data set.",
        ["prior/_factor_model.py"],
        [("loading regression and moment mapping", "prior/_factor_model.py")],
        ["prior model", "loading matrix"],
        "reference-model monitor",
        "Independent regression and algebra on generated tables.",
    ),
    P(
        "C26",
        "Uncertainty sets and resampling follow their stated construction",
        "Each uncertainty set reports the confidence radius implied by its chi-squared level and the estimation covariance implied by its construction (empirical or bootstrap, diagonal or full). Stationary-bootstrap samples consist only of "
        "wrapped runs of consecutive observed rows of the original length with the stated mean block length, reproducibly for a given seed. Robust optimization with these sets is optimal against the worst case of its set.",
        ["inputs", "configurations"],
        "all markets, confidence levels, seeds, block sizes",
        "Tests compare fixed numbers for one data set.",
        ["uncertainty_set/_empirical.py", "uncertainty_set/_bootstrap.py", "utils/bootstrap.py"],
        [("chi-squared radius and estimation covariance", "uncertainty_set/_empirical.py"), ("circular block resampling", "utils/bootstrap.py")],
        ["uncertainty set", "bootstrap samples", "robust weights"],
        "reference-model and structural monitor",
        "Independent formulas, structural check of every resampled row, recomputation from public bootstrap samples.",
    ),
    P(
        "C27",
        "Codependence and distance matrices follow their definition",
        "For every return table, each distance estimator returns the codependence matrix of its definition (Pearson, Kendall, Spearman, covariance-based, distance correlation, mutual information) with the absolute and power options applied, and a symmetric distance matrix with zero diagonal and non-negative entries derived from it by the stated formula.",
        ["inputs", "configurations"],
        "all return tables with ties, constants, monotone transforms; all options",
        "Tests compare single runs to stored numbers.",
        ["distance/_distance.py"],
        [("codependence to distance map", "distance/_distance.py")],
        ["codependence and distance matrices"],
        "reference-model and metamorphic monitor",
        "Independent pairwise loops; metamorphic symmetry, permutation, rank invariance.",
    ),
    P(
        "C28",
        "Hierarchical clustering labels the assets consistently with its tree",
        "For every distance matrix, linkage method and cluster limit, the linkage is the hierarchical clustering of that distance, the dendrogram and heat map show the assets in the leaf order of that tree, the labels are a partition of all items into consecutive cluster numbers obtained by cutting that tree, and the number of clusters respects the given maximum or the two-order-difference gap statistic when none is given.",
        ["inputs", "configurations"],
        "all distance matrices, linkage methods and cluster limits",
        "Tests use one matrix.",
        ["cluster/_hierarchical.py", "utils/stats.py"],
        [("linkage, gap statistic and tree cut", "cluster/_hierarchical.py")],
        ["labels", "linkage matrix", "number of clusters"],
        "reference-model monitor",
        "Independent re-computation of linkage, gap statistic and cut on generated matrices.",
    ),
    P(
        "C29",
        "Pre-selection keeps exactly the assets its rule keeps",
        "For every return table, each pre-selection step keeps exactly the assets its documented rule selects (correlation, zero variance, extreme measure, non-domination, completeness, expiration), in their original order and with their values and names unchanged. "
        "After dropping correlated assets no kept pair is above the threshold, and the same selection is applied to any later table.",
        ["inputs", "configurations"],
        "all return tables with duplicates, missing values, ties, and all thresholds, measures, k, dates",
        "Tests use one data set per step.",
        ["pre_selection"],
        [("support masks", "pre_selection")],
        ["support mask", "transformed table"],
        "reference-model monitor",
        "Independent rule implementations on generated tables.",
    ),
    P(
        "C30",
        "Price-to-return conversion is exact and aligned",
        "For every price table, optional factor table and option set, the returns are the simple or logarithmic changes between consecutive kept observations, missing prices are dropped or carried forward exactly as the options state, asset and factor outputs share the same dates, and every value stays under its own column. "
        "The input tables are left unchanged.",
        ["inputs", "configurations"],
        "all price tables with internal/leading/trailing gaps, joins, thresholds",
        "Tests use complete data or one gap pattern.",
        ["preprocessing/_returns.py"],
        [("join, drop, fill, difference", "preprocessing/_returns.py")],
        ["returned tables"],
        "reference-model monitor",
        "Independent cell-by-cell model on generated price tables.",
    ),
    P(
        "C31",
        "Constraint equations mean what they say",
        "Every well-formed linear constraint or view, whatever its spacing, term order, sign, coefficient placement, side or group level, is translated to the matrix and bounds of that same equation over the assets, so the set of allocations satisfying the text equals the set satisfying the matrices. "
        "Malformed equations are refused and unknown names are refused or ignored with a warning as requested; group cardinality limits count exactly the assets of the group.",
        ["programs", "inputs"],
        "all equation strings of the grammar over all group tables",
        "Tests enumerate a dozen strings.",
        ["utils/equations.py"],
        [("string to matrix parser", "utils/equations.py")],
        ["returned matrices", "errors and warnings"],
        "grammar-generated differential monitor",
        "Equations are generated from an abstract syntax tree, printed with random formatting, and the matrices compared with direct evaluation of the tree.",
    ),
    P(
        "C32",
        "Univariate distributions are coherent and correctly fitted",
        "For every fitted univariate distribution, density, cumulative probability, quantile and samples agree with each other and with the fitted parameters, the fit is a maximum-likelihood fit of its family honouring fixed location and scale, and information criteria are those of the fitted likelihood. "
        "Selection returns the candidate with the best criterion.",
        ["inputs", "configurations"],
        "all samples and families",
        "Tests check a few stored values.",
        ["distribution/univariate"],
        [("wrapping of parametric families", "distribution/univariate")],
        ["pdf/cdf/ppf/sample/score/criteria"],
        "coherence monitor",
        "Numerical integration, inversion and likelihood-perturbation monitors.",
    ),
    P(
        "C33",
        "Bivariate copulas are coherent in every rotation",
        "For every copula family, parameter and rotation, the distribution function is a copula (uniform margins, 2-increasing), its density is the mixed derivative, its conditional distribution is the partial derivative, and the inverse conditional inverts it; samples follow the copula. "
        "Fitting by Kendall's tau or likelihood recovers the stated relation, tail dependence matches the family and rotation, and selection returns the independent copula or the best criterion.",
        ["inputs", "configurations"],
        "all families, parameters, rotations and points of the unit square",
        "Tests check a few points and mostly one rotation.",
        ["distribution/copula"],
        [("closed-form copula functions and rotation mapping", "distribution/copula")],
        ["cdf, density, conditional, inverse, sample, fit"],
        "coherence monitor with numerical differentiation",
        "Finite differences, inversion and margin checks on generated parameters and points, plus independent closed forms.",
    ),
    P(
        "C34",
        "Vine copulas and synthetic priors preserve margins, conditions and shape",
        "A fitted vine is a valid sequence of trees over all assets honouring depth and central assets; samples have the requested size, column order and bounds, reproduce the fitted margins, and conditioned assets take exactly the conditioned values or stay within the conditioned range. "
        "Densities are those of margins times pair copulas, and a synthetic-data prior exposes exactly the moments of the sample it drew.",
        ["inputs", "configurations"],
        "all markets, depths, central assets, conditioning choices, seeds",
        "Tests check a few stored values on one data set.",
        ["distribution/multivariate/_vine_copula.py", "distribution/multivariate/_utils.py", "prior/_synthetic_data.py"],
        [("tree construction, conditional sampling", "distribution/multivariate/_vine_copula.py")],
        ["samples", "trees", "densities", "prior model"],
        "structural and statistical monitor",
        "Structural checks on trees and samples with generous statistical bounds; density re-derived from public fitted parts.",
    ),
    P(
        "C35",
        "Fitting never alters inputs or parameters and is repeatable",
        "For every estimator in the library, fitting, predicting or transforming leaves the caller's data, targets, metadata and parameter objects unchanged, refitting or fitting a clone on the same data gives the same result, and a fit never depends on what the object was fitted on before. "
        "Data frames and arrays with the same numbers give the same numerical result.",
        ["histories", "inputs", "configurations"],
        "all estimators, parameter containers (arrays, lists, mappings), refit histories, containers",
        "Tests fit each estimator once on fresh inputs and look at the result only.",
        ["optimization", "prior", "moments", "distance", "cluster", "pre_selection", "uncertainty_set", "distribution"],
        [("clone-before-fit and copy-on-read discipline", "utils/tools.py")],
        ["deep snapshots of inputs and parameters before and after", "fitted results"],
        "snapshot and refit monitor",
        "Deep snapshot comparison around every call over a catalogue of estimators.",
    ),
    P(
        "C36",
        "Results follow the assets, not their order, scale or names",
        "Reordering the assets of the input permutes the outputs of every deterministic moment, prior, distance and convex or naive allocation estimator in the same way, renaming assets changes only labels, and inputs keyed by asset name give the same result as the same values by position. "
        "Rescaling all returns rescales moments accordingly and leaves scale-free allocations unchanged.",
        ["inputs", "configurations"],
        "all markets, permutations, namings, keyed parameter encodings",
        "Tests use one column order and mostly positional inputs.",
        ["utils/tools.py", "optimization", "prior", "moments", "distance"],
        [("name-to-position resolution", "utils/tools.py")],
        ["fitted results under transformed inputs"],
        "metamorphic monitor",
        "Runs each estimator on the original and transformed input and compares. Hierarchical methods are excluded where ties make order matter.",
    ),
    P(
        "C37",
        "Predictions and scores report the fitted allocation on the given data",
        "For every fitted allocation, prediction on any table with the same assets yields the portfolio of the fitted weights on that table with the estimator's costs, fees, previous weights, risk-free rate and portfolio parameters, or one such portfolio per fitted weight vector in order. "
        "The score is that portfolio's Sharpe ratio, and scorers built from any measure report its value with the sign that makes larger better, unless told otherwise.",
        ["inputs", "configurations"],
        "all estimators, cost encodings, portfolio parameters, measures and custom score functions",
        "Tests check defaults.",
        ["optimization/_base.py", "metrics/_scorer.py"],
        [("prediction parameter forwarding", "optimization/_base.py"), ("score sign", "metrics/_scorer.py")],
        ["predicted portfolios", "scores"],
        "reference-model monitor",
        "Independent portfolio accounting on generated fits; scorer sign table.",
    ),
    P(
        "C38",
        "Constructors keep what they are given and defaults are as documented",
        "Every public estimator stores each constructor argument unchanged under its own name, uses the documented default when an argument is left out, and builds a left-out component as the documented one. "
        "A component of the wrong kind is refused when fitting, and results asked of an unfitted estimator are refused.",
        ["configurations"],
        "all public estimators, all of their parameters, omitted and wrong components",
        "Tests construct estimators with the few parameters they need; nothing compares defaults with the documentation.",
        ["optimization", "prior", "moments", "distance", "cluster", "pre_selection", "uncertainty_set", "distribution", "model_selection"],
        [("parameter storage in constructors", "optimization/convex/_base.py"), ("default component creation", "utils/tools.py")],
        ["constructor signatures and docstrings", "stored parameters", "fitted results with and without explicit components"],
        "reference-model and refusal monitor",
        "Reads defaults from the parsed docstrings, compares with the signatures and the stored values, and compares a fit with a left-out component to one with the documented component.",
    ),
    P(
        "C39",
        "Requested metadata reaches exactly the components that asked for it",
        "With metadata routing enabled, each value passed to fit reaches every nested component that requested it, unchanged and under the requested name, and no component that did not, through every composition of optimizers, priors, moments, distances, clusterings, uncertainty sets, pipelines, stacks and cross-validation. "
        "Metadata that a component supports but did not request is refused.",
        ["configurations", "histories"],
        "all compositions of nested components, request patterns, aliases and fold cuts",
        "The routing tests of the repository need a downloaded data set and check a few compositions.",
        ["optimization", "prior", "moments", "model_selection/_validation.py", "utils/tools.py"],
        [("metadata routers", "optimization/_base.py"), ("per-fold metadata cuts", "model_selection/_validation.py")],
        ["what recording components received in fit"],
        "recording-component monitor",
        "Random compositions of recording leaf components; what each one received is compared with what it requested.",
    ),
    P(
        "C40",
        "Figures show the reported numbers",
        "Every line, bar, point, density, histogram, surface and table drawn for portfolios, populations and combinatorial splits shows the numbers that the objects report, on the right dates, assets and names and restricted to the chosen observations. "
        "Figures that would mislead, such as a logarithmic axis for non-compounded returns, are refused.",
        ["inputs", "configurations"],
        "all portfolios, multi-period portfolios and populations, figure kinds and their options",
        "Tests only check that a figure object is returned.",
        ["portfolio/_base.py", "population/_population.py", "model_selection/_combinatorial.py"],
        [("figure data assembly", "population/_population.py"), ("figure data assembly", "portfolio/_base.py")],
        ["trace data of the returned figures"],
        "reference-model monitor",
        "Reads the traces back out of the figures and compares them with independently obtained series.",
    ),
    P(
        "C41",
        "Data sets are returned as stored and cached in one place",
        "Each bundled data set is returned as documented, as a fresh table with increasing dates. "
        "A remote data set is requested once, kept in the chosen data directory and read back from there, refused when it is missing and downloads are not allowed, and a failed download is not kept as data. "
        "Clearing removes the chosen data directory and nothing else.",
        ["histories", "configurations"],
        "all loaders, data directory choices (argument, variable, home, relative), download outcomes and clearing histories",
        "The repository's tests need the network for the remote data sets.",
        ["datasets/_base.py"],
        [("cache lookup and download", "datasets/_base.py"), ("data directory choice", "datasets/_base.py")],
        ["returned tables", "requests seen by a stand-in server", "files in a scratch directory"],
        "history monitor",
        "An in-process stand-in answers the requests; all file effects happen in a scratch directory under an unprivileged child process.",
    ),
]
