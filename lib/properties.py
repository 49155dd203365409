#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here because JSON lines are hard to review)."""
import json, os
P = []
S = "src/ldt_statistics/modeling/search/"
D = "src/ldt_statistics/modeling/discrete/"
L = "src/ldt_statistics/modeling/linear/"
V = "src/ldt_statistics/modeling/time_series/varma/"
H = "include/math/statistics/inference/"

def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "A model search visits every admissible model exactly once",
     "For every set of variable groups, model size, number of fixed groups and number of fixed variables, a search evaluates each admissible combination of variables (one variable from each chosen group, groups ascending, fixed groups and targets respected) exactly once and evaluates nothing else. The expected number of models that is announced equals the number of combinations that a complete search evaluates.",
     ["configurations"], "all group layouts, sizes, fixed-group and fixed-variable settings and target counts",
     "The tests look at a handful of layouts and compare a few counts; a combination that is skipped or repeated for one layout is not seen.",
     [S + "searcher.cpp", S + "searcher_reg.cpp", S + "modelset.cpp", H + "searchers.h"],
     [("combination odometer and its counter", S + "searcher.cpp: MoveNext/next/move_next/GetCount"),
      ("targets filter", S + "searcher.cpp: CheckForEmpty")],
     ["the list of evaluated combinations", "announced and actual model counts"])
prop("C02", "Search results do not depend on searcher order, threads or timing",
     "The models kept, the summary statistics and the failure counts that a search reports are the same for every order in which its parts are executed and for every interleaving of them on parallel threads, and equal those of a sequential run. No part of a parallel search reads or writes memory that another part writes without synchronization.",
     ["schedules"], "all orders of the parts and all thread interleavings up to a preemption bound, for all estimator families",
     "The order is shuffled with an unseeded generator and the parallel path is never exercised by the C++ tests; a test run sees one schedule.",
     [S + "modelset.cpp", S + "searcher.cpp", S + "summary.cpp", D + "discrete_choice_modelset.cpp", L + "sur_modelset.cpp", V + "varma_modelset.cpp", "src/ldt_math/optimization/lmbfgsb.cpp"],
     [("parallel loop with per-part work memory", S + "modelset.cpp: ModelSet::Start"),
      ("order-free combination of results", S + "modelset.cpp: Combine*")],
     ["combined results of a model set"])
prop("C03", "The best-model lists are the true top K, in order",
     "For every history of evaluated models and every K, the reported best list of an evaluation, target and parameter contains exactly the K best distinct evaluations by the orientation of its metric (all of them when fewer were evaluated), sorted best first, however the evaluations were distributed over the parts of the search.",
     ["histories", "configurations"], "all sequences of metric values (ties included) over all partitions into parts, all K, both orientations",
     "Tests check a few searches with well separated metrics; ties, extreme metric values and distributions over parts are not covered.",
     [S + "summary.cpp", S + "modelset.cpp", H + "searchers.h"],
     [("bounded ordered set per part", S + "summary.cpp: SearcherSummary::Push"),
      ("merge of the parts", S + "modelset.cpp: CombineBests")],
     ["SearcherSummary::Bests, ModelSet::CombineBests"])
prop("C04", "Search summaries equal their definitions over all evaluated models",
     "Inclusion weights, weighted CDF values, extreme bounds, the four mixture moments and the model lists that a search reports equal the values computed from their definitions over the complete list of evaluated models (weights, means and variances), for every order of evaluation and every distribution over the parts. Requested summaries are complete and unrequested ones absent.",
     ["histories", "configurations"], "all short histories of (weight, mean, variance, variables) and all distributions over parts",
     "The summaries are streamed and then merged; tests compare one data set in one order.",
     [S + "summary.cpp", S + "modelset.cpp", "include/math/statistics/running.h"],
     [("streaming update", S + "summary.cpp: Push"), ("merge", S + "modelset.cpp: CombineInclusionWeights, CombineCdfAt, CombineExtremeBounds, CombineMixture"),
      ("running moments", "include/math/statistics/running.h")],
     ["combined summaries of a model set"])
prop("C05", "A model that fails never disturbs the search or its results",
     "If the evaluation of any subset of models fails in any way (an error of any kind, a rejected model check, or metrics that are not numbers), the search still evaluates all the other models, counts every model exactly once, reports each failure under its reason with the right multiplicity, and keeps nothing from the failed models.",
     ["fault_sequences"], "all subsets of failing models and all failure kinds, in sequential and split searches",
     "Tests contain a few data-driven failures; which model fails and how is not enumerated.",
     [S + "searcher.cpp", S + "searcher_reg.cpp", S + "modelset.cpp"],
     [("catch and count", S + "searcher.cpp: Searcher::Start, AddState"), ("merging of failure counts", S + "modelset.cpp: CombineInfo")],
     ["counts, failure table and kept models after the search"])
prop("C06", "Cancellation stops a search promptly and leaves a consistent prefix",
     "When cancellation is requested at any moment of a search or of an out-of-sample simulation, it ends without an error and without starting further models, and the counts and results are exactly those of the models finished before the request was seen (a model interrupted inside its evaluation leaves at most one failure entry).",
     ["fault_sequences", "schedules"], "every model boundary and every point inside a model evaluation at which the request can arrive",
     "Cancellation needs a concurrent request; no test raises one.",
     [S + "searcher.cpp", S + "searcher_reg.cpp", S + "modelset.cpp", D + "discrete_choice_sim.cpp", L + "sur_simulation.cpp", V + "varma_simulation.cpp"],
     [("request flag polled between and inside evaluations", S + "searcher.cpp: Start; " + S + "searcher_reg.cpp: EstimateOne")],
     ["counts and results after a cancelled run"])
prop("C07", "What a search reports for a model equals estimating that model alone",
     "For each estimator family (seemingly unrelated regressions, binary choice, vector autoregressive moving average), each in-sample and out-of-sample metric, coefficient and variance that a search records for a model is the value obtained by estimating or simulating exactly the variables of that model alone with the same options and seed. With a fixed seed two runs of the same search report identical results.",
     ["configurations", "inputs"], "all models of small searches over all metric selections, with and without weights",
     "Tests check selected models of selected searches, mostly for agreement of a single metric.",
     [D + "discrete_choice_modelset.cpp", L + "sur_modelset.cpp", V + "varma_modelset.cpp", S + "searcher_reg.cpp"],
     [("column selection and metric slots", S + "searcher_reg.cpp: EstimateOne"), ("family specific evaluation", "*_modelset.cpp: EstimateOneReg")],
     ["kept models of a search against stand-alone estimation classes"])
prop("C08", "Estimators do not remember earlier data or dirty memory",
     "Calculating with an object that was used before on other data, or whose work and storage memory contains arbitrary values, gives the same results as a fresh object with clean memory. This holds for every sequence of calculations with inputs no larger than the object was declared for.",
     ["histories"], "all short sequences of calculations over a set of inputs of different sizes, for every calculator class and memory content",
     "Tests use fresh objects and zeroed memory, while searches and simulations reuse both.",
     ["src/matrix/dataset.cpp", "src/ldt_statistics/data_split.cpp", "src/ldt_statistics/pca.cpp", "src/ldt_statistics/correlation.cpp", L + "sur.cpp", D + "discrete_choice.cpp", V + "varma.cpp", "src/ldt_statistics/scoring/frequency_cost.cpp"],
     [("storage re-bound and initialized by each calculation", "Calculate() of every class")],
     ["results of every calculator class"])
prop("C09", "Declared memory sizes are sufficient and never exceeded",
     "Every calculation stays inside its input and inside the storage and work memory of the sizes that the object itself announces, for every admissible dimension and option setting, and inputs that do not fit are rejected with an error instead of being computed.",
     ["configurations", "inputs"], "all small dimensions and option settings of every calculator class",
     "Sizes are hand-written formulas; tests use few shapes and ordinary heap memory that hides small overruns.",
     [L + "sur.cpp", L + "sur_extended.cpp", L + "sur_projection.cpp", L + "sur_simulation.cpp", D + "discrete_choice.cpp", D + "discrete_choice_extended.cpp", D + "discrete_choice_sim.cpp", V + "varma.cpp", V + "varma_forecast.cpp", V + "varma_extended.cpp", V + "varma_simulation.cpp", "src/ldt_statistics/pca.cpp", "src/ldt_statistics/correlation.cpp", "src/ldt_statistics/clustering/group_data.cpp", "src/ldt_math/polynomials/mpolynomial.cpp", "src/ldt_math/optimization/newton.cpp"],
     [("StorageSize/WorkSize/WorkSizeI formulas", "constructors of every calculator class")],
     ["memory accesses of every calculator class on exactly sized buffers"])
prop("C10", "Frequencies form a consistent, ordered time line",
     "For every frequency class and every pair of valid points, moving n steps and then m steps equals moving n+m steps (also for negative steps), the difference of two points is the number of steps from one to the other, and comparison agrees with the sign of that difference. Steps follow the calendar or the list, including year, month, week and day boundaries, and points outside a list.",
     ["inputs", "histories"], "all points in windows around every calendar boundary, all step pairs in a range, for all frequency classes and week ranges",
     "Tests step a few points of each class by a few steps.",
     ["src/frequency/f_base.cpp", "src/frequency/f_year_based.cpp", "src/frequency/f_week_based.cpp", "src/frequency/f_day_based.cpp", "src/frequency/f_list.cpp", "src/frequency/f_cross_section.cpp", "include/frequency.h"],
     [("Next/Minus/CompareTo of each class", "src/frequency/*.cpp"), ("day-of-week ranges", "src/frequency/f_base.cpp: DayOfWeekRange")],
     ["Frequency::Next, Minus, CompareTo"])
prop("C11", "Frequencies and variables survive conversion to text and back",
     "Writing a frequency and its class as text and parsing it gives back an equal frequency of the same class, for every class and every valid point; the same holds for variables with their name, data, start and attached fields. Different points have different texts, and malformed text is rejected with an error.",
     ["inputs"], "all valid points in windows around calendar boundaries for all classes, and all small variables",
     "Tests parse a few literals per class.",
     ["src/frequency/f_base.cpp", "src/frequency/f_year_based.cpp", "src/frequency/f_week_based.cpp", "src/frequency/f_day_based.cpp", "src/frequency/f_list.cpp", "src/variable/variable.cpp", "include/frequency.h"],
     [("ToString/ToClassString and Parse", "src/frequency/*.cpp"), ("Variable text format", "src/variable/variable.cpp")],
     ["Frequency::Parse(ToString), Variable::Parse(ToString)"])
prop("C12", "Combining and trimming variables never moves an observation in time",
     "When variables of the same frequency are aligned in one table, every observation stays at its own date, the table covers exactly the union of the ranges, and cells without an observation are marked missing. Trimming removes exactly the leading and trailing missing values, interpolation only fills interior gaps on the straight line between their neighbours, and the reported data ranges match.",
     ["inputs", "configurations"], "all sets of small variables with all relative offsets, lengths and missing patterns, for all frequency classes",
     "Tests align one or two examples.",
     ["src/variable/variable.cpp", "src/variable/variables.cpp", "include/variable.h", "src/array.cpp", "include/array.h"],
     [("alignment", "src/variable/variables.cpp"), ("trim, interpolate, ranges", "src/variable/variable.cpp, include/array.h")],
     ["Variables data and ranges, Variable::Trim, Array range functions"])
prop("C13", "Frequency conversion aggregates exactly the observations of each period",
     "Converting a series to a lower or coarser frequency assigns every observation to the target period that contains its date, applies the aggregation to exactly those observations in time order, and dates the first result at the period of the first observation. Partitioning a series into groups of k uses every observation exactly once, and equal lengths give no empty groups.",
     ["inputs", "configurations"], "all start points in windows that cross week, month and year boundaries, all small lengths, all conversions and group counts",
     "Tests convert single series from a convenient start.",
     ["src/variable/variable.cpp", "include/variable.h", "include/array.h"],
     [("period boundaries", "src/variable/variable.cpp: ConvertTo_*"), ("grouping", "include/array.h: PartitionData/PartitionEqual")],
     ["converted variable: start, length and values"])
prop("C14", "Matrix element, slice, sort and NaN operations act on exactly the right cells",
     "For every matrix shape, every operation that reads, writes, slices, fills, sorts, searches, compares or removes rows and columns (including removal of rows and columns with missing values, elementwise arithmetic and summaries of rows and columns) has exactly the effect of its definition on each cell and leaves all other cells alone. Indices out of range and shapes past the end are rejected by the checked versions.",
     ["inputs", "configurations"], "all small shapes including empty and one-dimensional ones, all index choices, all missing patterns",
     "Tests use a few fixed matrices; storage is column-major with hand-written index arithmetic.",
     ["src/matrix/matrix.cpp", "src/matrix/matrix_sym.cpp", "src/matrix/vmatrix.cpp", "include/matrix.h", "include/matrix_utils.h"],
     [("column-major index arithmetic", "src/matrix/matrix.cpp")],
     ["Matrix<T> public operations"])
prop("C15", "Matrix algebra satisfies its defining identities",
     "Products (plain, transposed, symmetric, diagonal, Kronecker, with scalars and accumulation), inverse, determinant, solve, Cholesky, QR, SVD and norm results satisfy their defining identities for every small matrix, singular input is reported or gives a non-finite result, and arguments that are documented as inputs are unchanged.",
     ["inputs"], "all matrices over a small integer alphabet for all small shapes",
     "Tests compare one or two numeric examples per routine.",
     ["src/matrix/matrix_la.cpp", "src/matrix/decompositions.cpp", "src/matrix/matrix_sym.cpp", "include/matrix.h"],
     [("BLAS/LAPACK calls with transposition and leading dimensions", "src/matrix/matrix_la.cpp")],
     ["Matrix<double> algebra operations"])
prop("C16", "Sample selection drops exactly the observations with missing data",
     "Selecting columns for a model keeps exactly the rows in which every selected column is available, in order and with values unchanged; for time series it returns the longest contiguous range that every selected series supports, or reports that there is a gap. Results for one selection do not depend on earlier selections.",
     ["inputs", "histories"], "all missing patterns of small tables, all column selections in all orders",
     "Tests use one table with a few missing cells.",
     ["src/matrix/dataset.cpp", "include/matrix_utils.h", "include/array.h"],
     [("row filter and column copy", "src/matrix/dataset.cpp: Dataset"), ("common range", "src/matrix/dataset.cpp: DatasetTs")],
     ["Dataset::Result, DatasetTs::Start/End/HasMissingData"])
prop("C17", "Classification scores equal their definitions",
     "The area under the ROC curve equals the weighted share of concordant positive-negative pairs (ties count one half), is unchanged by permuting observations or by a monotone transformation of the scores, and unit weights equal no weights; its points form a monotone curve, and partial areas and costs follow the stated bounds. Cost-based scores equal the weighted sum of the costs selected by each observation's class and predicted probability.",
     ["inputs"], "all label, tie, weight and order patterns of small samples, all thresholds",
     "Tests check a few vectors without enumeration of ties and orders.",
     ["src/ldt_statistics/scoring/roc.cpp", "src/ldt_statistics/scoring/frequency_cost.cpp", "include/math/statistics/scoring.h"],
     [("single sweep over sorted scores", "src/ldt_statistics/scoring/roc.cpp"), ("cost table lookup", "src/ldt_statistics/scoring/frequency_cost.cpp")],
     ["ROC::Result/Points, FrequencyCost results"])
prop("C18", "Metric weights, orientations and option names are coherent",
     "For every metric, converting a metric to a weight and back returns the metric, and a better metric never gets a smaller weight; the orientation reported for the metric agrees with that. Every documented name of a metric, distance, linkage, correlation, distribution or model selects exactly the option that carries this name, and unknown names are rejected; the continuous ranked probability score and its log version equal their closed forms.",
     ["inputs", "configurations"], "all metrics on a grid of values and base values, all names and abbreviations",
     "Tests convert single values of a few metrics.",
     ["src/ldt_statistics/scoring/scoring.cpp", "include/math/statistics/scoring.h", "include/math/statistics/clustering.h", "include/math/statistics/correlation.h", "include/math/statistics/distributions.h"],
     [("weight transforms", "src/ldt_statistics/scoring/scoring.cpp"), ("name tables", "include/math/statistics/*.h: FromString_*")],
     ["ToWeight/FromWeight/IsPositiveOriented, FromString_*/ToString"])
prop("C19", "Training and test samples always split the data",
     "In every simulation split, each observation is in exactly one of the training and test samples, whole observations stay together, and sizes follow the requested ratio or fixed size. For discrete data every class keeps its share and is represented in the training sample, and the same seed gives the same split.",
     ["inputs", "schedules"], "all class patterns, ratios, fixed sizes and shuffles (every draw of the random source) of small samples",
     "Tests check sizes of one split.",
     ["src/ldt_statistics/data_split.cpp", "include/math/statistics/data_split.h"],
     [("shuffle and copy", "src/ldt_statistics/data_split.cpp")],
     ["DataSplit and DataSplitDiscrete samples"])
prop("C20", "Hierarchical clustering merges the closest groups by its linkage",
     "For every distance matrix and linkage, the clustering merges mutually closest groups with the distance that the linkage defines, so that the set of merges, heights and the dendrogram equal a direct computation, and cutting into k groups gives k non-empty disjoint groups that cover all items. Distances equal their definitions (also with missing values), and grouping of variables removes exactly those closer than the threshold to an earlier one of their group.",
     ["inputs"], "all distance matrices over a small set of values up to five items, all linkages, all group counts",
     "Tests compare one dendrogram per linkage.",
     ["src/ldt_statistics/clustering/hcluster.cpp", "src/ldt_statistics/clustering/distance.cpp", "src/ldt_statistics/clustering/group_data.cpp"],
     [("nearest-neighbour merging with linkage update", "src/ldt_statistics/clustering/hcluster.cpp")],
     ["HCluster nodes, merge table, groups; Distance result; GroupData groups"])
prop("C21", "Descriptive and running statistics equal their batch definitions",
     "Means, variances, covariances, correlations, ranks, quantiles, higher moments, principal components and running (one-pass, weighted, merged) statistics equal their textbook definitions on the same data, with missing values skipped when asked, for every sample and every way of splitting it into pieces.",
     ["inputs", "histories"], "all small samples over a small alphabet with missing values and weights, all splits and merges",
     "Tests compare a few numeric examples.",
     ["include/array.h", "src/array.cpp", "include/math/statistics/running.h", "src/ldt_statistics/statistics/descriptive.cpp", "src/ldt_statistics/statistics/statistics.cpp", "src/ldt_statistics/correlation.cpp", "src/ldt_statistics/pca.cpp"],
     [("one-pass updates", "include/math/statistics/running.h, include/array.h")],
     ["Array, RunningMoments, Descriptive, Rank, Correlation, PcaAnalysis results"])
prop("C22", "Distribution functions are mutually consistent",
     "For every distribution and admissible parameter set, the distribution function is monotone from 0 to 1 over the support, the quantile function inverts it, the density (or mass) is non-negative and is its derivative (or step), the logarithmic density agrees, and the reported mean, variance, skewness, kurtosis, median, mode and bounds are those of that distribution; mixtures and histograms are the stated combinations of their parts.",
     ["inputs", "configurations"], "all distributions on parameter and argument grids, all small mixtures and histograms",
     "Tests compare individual values with another package.",
     ["src/ldt_statistics/distributions/distributions_uni.cpp", "src/ldt_statistics/distributions/distribution_gld.cpp", "src/ldt_statistics/distributions/mixture.cpp", "src/ldt_statistics/distributions/histogram.cpp", "src/ldt_statistics/distributions/empirical103.cpp", "include/math/statistics/distributions.h"],
     [("closed forms per distribution", "src/ldt_statistics/distributions/*.cpp")],
     ["Distribution<T>, DistributionMixture, DistributionGld, Histogram results"])
prop("C23", "Polynomial and lag-operator algebra is exact",
     "Products, powers and inverses of scalar and matrix polynomials satisfy their defining identities up to the requested length, differencing a series and undoing it returns the series, and the lag structure, parameter counts and labels of a time series model agree with its orders and seasons. Restriction matrices keep exactly the coefficients they are documented to keep.",
     ["inputs", "configurations"], "all small polynomials, all small orders, seasons and dimensions",
     "Tests multiply and invert a few polynomials and check a few orders.",
     ["src/ldt_math/polynomials/polynomial.cpp", "src/ldt_math/polynomials/mpolynomial.cpp", V + "varma_sizes.cpp", V + "varma_arma.cpp", V + "varma_restriction.cpp", V + "varma.cpp"],
     [("convolution with truncation", "src/ldt_math/polynomials"), ("lag sets", V + "varma_sizes.cpp")],
     ["Polynomial*, VarmaSizes, VarmaRestriction, Varma::Difference/UnDiferences"])
prop("C24", "Linear system estimates satisfy their normal equations",
     "Least squares, generalized least squares and seemingly unrelated regression estimates, with or without restrictions, satisfy their normal equations, excluded coefficients are exactly zero, and covariances, likelihood, information criteria, fitted values, residuals, test statistics and projections are those of the estimate. Reordering observations leaves the estimate unchanged, and the significance search only keeps restrictions whose coefficients were insignificant.",
     ["inputs", "configurations"], "all small designs over a small alphabet and all restriction patterns",
     "Tests compare a few published examples.",
     [L + "sur.cpp", L + "sur_extended.cpp", L + "sur_projection.cpp", L + "sur_simulation.cpp", "src/ldt_statistics/statistics/statistics.cpp"],
     [("estimation and details", L + "sur.cpp"), ("projection", L + "sur_projection.cpp")],
     ["Ols, Gls, Sur, SurProjection, SurSimulation results"])
prop("C25", "Discrete choice estimates maximize the likelihood and predict probabilities",
     "For binary and ordered logit and probit models, a converged estimate makes the score of the (weighted) likelihood zero, the reported likelihood, criteria and covariance are those at the estimate, and an integer weight equals repeating the observation. Predicted probabilities are non-negative and sum to one for each observation, and data without variation is rejected.",
     ["inputs", "configurations"], "all small samples over small regressor and label alphabets, all weights in a set",
     "Tests compare a few published examples.",
     [D + "discrete_choice.cpp", D + "discrete_choice_extended.cpp", D + "discrete_choice_sim.cpp"],
     [("likelihood, score and Hessian per model", D + "discrete_choice.cpp")],
     ["DiscreteChoice, DiscreteChoiceExtended, DiscreteChoiceSim results"])
prop("C26", "Time series forecasts follow from the estimated equations",
     "For every order, dimension, differencing and regressor setting, the fitted residuals satisfy the estimated equations on the sample, the forecasts are the recursion of those equations continued from the last observations on the original scale, and forecast variances are those implied by the moving-average form, growing with the horizon. Out-of-sample simulation scores equal the scores of those forecasts against the held-out observations for each horizon.",
     ["inputs", "configurations"], "all small orders, dimensions, seasons and sample ends over small data sets",
     "Tests compare a few published examples.",
     [V + "varma.cpp", V + "varma_forecast.cpp", V + "varma_extended.cpp", V + "varma_simulation.cpp"],
     [("recursions", V + "varma.cpp, varma_forecast.cpp"), ("scores", V + "varma_simulation.cpp")],
     ["Varma, VarmaForecast, VarmaExtended, VarmaSimulation results"])
prop("C27", "Optimizers and numerical derivatives respect their contracts",
     "A minimizer (Newton with its line search, L-BFGS-B, Nelder-Mead) never returns a point with a larger function value than its start, reports the function value of the point it returns, returns a point inside the given bounds (L-BFGS-B also evaluates nowhere else), stops within its iteration limit whatever the limit is, and finds the minimum of convex quadratics. Numerical gradients and Hessians agree with the analytic ones on smooth functions, and numerical areas under points equal the integral of the interpolant.",
     ["inputs", "configurations"], "all small quadratics and standard test functions over grids of starts, bounds and limits",
     "Tests run two or three functions from one start.",
     ["src/ldt_math/optimization/newton.cpp", "src/ldt_math/optimization/nelder_mead.cpp", "src/ldt_math/optimization/lmbfgsb.cpp", "src/ldt_math/derivative.cpp", "src/ldt_math/auc.cpp", "include/math/optimization.h"],
     [("line search, bounds and stopping rules", "src/ldt_math/optimization")],
     ["Newton, NelderMead, LimitedMemoryBFGSB, Derivative, AUC results"])
prop("C28", "The R functions pass data through to the library and back unchanged",
     "In the R packages, data preparation (choice of columns, lags, weights, transformations, missing values), construction of variables, binding, conversion and the textual forms of frequencies return the values, names, positions and dates that their documentation defines, for every small input. Sequences, positions and distances agree with stepping one by one.",
     ["inputs", "configurations"], "all small data frames, equations and option combinations; all frequency classes",
     "The R tests call each function with one or two examples.",
     ["Rpackage/R/data.R", "Rpackage_F/R/frequency.R", "Rpackage_F/R/variable.R", "Rpackage_F/R/convert.R", "Rpackage_F/src/r_frequency.cpp", "Rpackage_F/src/r_variable.cpp", "Rpackage_F/src/r_convert.cpp", "Rpackage/src/r_ldt.cpp"],
     [("data layout", "Rpackage/R/data.R: get.data"), ("conversion to and from R lists", "Rpackage_F/src/*.cpp")],
     ["return values of the exported R functions"])
prop("C29", "Searches in R report the models, metrics and counts that they name",
     "For search.sur, search.bin and search.varma in R: the expected, searched and failed counts follow from the requested combinations; exactly the models of the requested sizes, partitions, groups, fixed variables, lags and links are considered; each reported best model, all-model, inclusion weight, combined moment, distribution value or bound of a coefficient or prediction belongs to the model and value type it names, and re-estimating that model (summary) gives the reported metric; checks exclude exactly the models beyond their thresholds; step-wise searches use only the variables of the best models of the step before. The answer does not depend on when the garbage collector runs.",
     ["inputs", "configurations", "schedules"], "all small combinations of partitions, groups, targets, fixed variables, sizes, metrics, thresholds and items; a collection at every allocation of the compiled functions",
     "The R tests compare a handful of searches with stored numbers.",
     ["Rpackage/R/search.R", "Rpackage/R/sur.R", "Rpackage/R/bin.R", "Rpackage/R/varma.R", "Rpackage/src/r_ldt.cpp", "Rpackage/src/r_sur.cpp", "Rpackage/src/r_dc.cpp", "Rpackage/src/r_varma.cpp"],
     [("collection of results", "Rpackage/src/r_ldt.cpp"), ("steps", "Rpackage/R/search.R")],
     ["search.sur, search.bin, search.varma and summary results"])
prop("C30", "R answers about an estimated model follow from its data and equations",
     "For a SUR, binary or VARMA model estimated in R: coefficients, residuals (also standardized), fitted values, endogenous and exogenous data, information criteria, projections and predictions with variances, labels and frequencies, out-of-sample simulation details, what the plot functions draw, model names and printed counts equal what a direct computation from the data of each equation gives, aligned with the rows of the data when observations are lost, missing or new, and with principal components, weights, restrictions or transformations. Simulated samples follow the equations they report, and tables of coefficients show every coefficient of every model once. The answer does not depend on when the garbage collector runs.",
     ["inputs", "configurations", "schedules"], "all subsets of small sets of equations and variables x intercept x restrictions x components x orders x horizons; a collection at every allocation of the compiled functions",
     "The R tests compare some coefficients of a few models; plots, residual functions and predictions in levels are not tested.",
     ["Rpackage/R/g.regression.R", "Rpackage/R/g.plots.R", "Rpackage/R/g.prints.R", "Rpackage/R/sur.R", "Rpackage/R/bin.R", "Rpackage/R/varma.R", "Rpackage/src/r_sur.cpp", "Rpackage/src/r_dc.cpp", "Rpackage/src/r_varma.cpp"],
     [("accessors", "Rpackage/R/g.regression.R"), ("drawings", "Rpackage/R/g.plots.R"), ("simulated samples", "Rpackage/R/*.R: sim.*")],
     ["estim.*, predict, fitted, residuals, coef, plot, print, sim.* and coefs.table results"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
