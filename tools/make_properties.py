"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the list of properties changes)."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files,
                  mech=mech, level_note=level_note, technique=technique))


SIM = "quantfinlib/sim/"
FT = "quantfinlib/feature/"
DI = "quantfinlib/distance/"

prop("C01", "Simulated paths follow the exact transition law of the model",
     "For every model (Brownian motion, geometric Brownian motion, Ornstein-Uhlenbeck), every set of parameters, "
     "correlation matrix, time step, number of steps, paths and variates, each simulated path obeys, step by step, the "
     "exact discrete solution of the model's SDE driven by standard normal shocks that are independent over steps and "
     "paths and have the given correlation between the variates of one path. "
     "With zero volatility the path is the deterministic solution, geometric Brownian paths are positive, and every "
     "path starts at the requested value. "
     "The quasi-random model returns the base model's path plus the cumulative sum of the technical indicator of that "
     "same path, lagged by one step and scaled to the requested fraction of the base volatility.",
     "inputs configurations", "all parameters, correlations, dt, num_steps, num_paths, variates, x0 and seeds",
     "The tests check shapes and a few hand-picked parameter sets with loose statistical tolerances; drift, "
     "correlation, mean reversion and multi-path/multi-variate layouts interact for all values.",
     [SIM + "_base.py", SIM + "_bm.py", SIM + "_gbm.py", SIM + "_ou.py", SIM + "_quasi_random.py"],
     [("_path_sample_np", SIM + "_bm.py, _gbm.py, _ou.py, _quasi_random.py"),
      ("_fill_with_correlated_noise", SIM + "_base.py")],
     "Reference recursion driven by the shocks recovered from the simplest model, plus statistical tests of those "
     "shocks with false-alarm probability below 1e-9; trusts numpy's linear algebra.",
     "property-based testing: reference-model recursion and statistical oracle over generated model configurations")

prop("C02", "Simulation is reproducible and free of side effects",
     "With an integer random_state, path_sample returns bit-for-bit the same result every time, regardless of which "
     "other library calls, models or global random draws happened before, and different seeds give different paths. "
     "Simulating, fitting and evaluating likelihoods never change numpy's or Python's global random state, the "
     "caller's arrays and frames, or the parameters of the model (except fit, which replaces them), and print nothing. "
     "Without a random_state, repeated calls give different paths.",
     "histories inputs", "all interleavings of simulation calls, seeds, models and unrelated random draws",
     "Tests call each model once with one seed; hidden state can only show up for particular call histories.",
     [SIM + "_base.py", SIM + "_quasi_random.py"],
     [("private default_rng per call", SIM + "_base.py:_fill_with_correlated_noise")],
     "Random call histories compared with fresh-model replays and snapshots of inputs and global state.",
     "stateful property-based testing of call histories against fresh-instance replays")

prop("C03", "path_sample returns the documented container, shape, labels and layout",
     "The result has num_steps+1 rows (num_steps when the initial value is excluded, which drops only that first "
     "row) and variates x paths columns with all variates of the first path first, and starts at x0 repeated for every "
     "path. "
     "It is a plain array unless the model was fitted on pandas data or date labels or column names are requested, in "
     "which case it is a DataFrame (or a Series for one column of an unfitted or Series-fitted model) with the given, "
     "fitted or default (S, or S0, S1 and so on) names, suffixed _0, _1 and so on per path when there are several paths. "
     "Its dates, if any, are the range that starts at the requested label (else the first or last fitted date, in line "
     "with x0) with the requested (else fitted) frequency, and carry the name of the fitted index; labels never change "
     "the simulated numbers.",
     "inputs configurations", "all combinations of containers, fit states, labels, columns, x0 forms and path counts",
     "The option space is a product of about ten options; tests sample a few dozen points of it.",
     [SIM + "_base.py"], [("_format_ans, _make_columns_names, _make_date_time_index", SIM + "_base.py")],
     "Independent model of the output contract compared on generated option combinations.",
     "property-based testing against a reference model of the output contract")

prop("C04", "Defaults and fitted state survive every history of model calls",
     "After any sequence of fit, path_sample, nll, aic and bic calls, a model behaves exactly like a fresh one that saw "
     "only the last fit: evaluating a likelihood or simulating never changes what the model remembers. "
     "The default time step is the duration of the requested label frequency if there is one, else the time step of "
     "the fit, else 1/252, and fit and the likelihoods derive it from the frequency of a date index (1/252 without "
     "dates). "
     "The default start is the first fitted value ('first'; 'last' gives the last), or the model's default (0, or 100 "
     "for geometric Brownian motion) when unfitted.",
     "histories inputs", "all sequences of fit/path_sample/nll/aic/bic on models and differently typed data",
     "State leaks between calls need specific call orders; unit tests use one fit followed by one call.",
     [SIM + "_base.py"], [("_preprocess_fit_x_and_dt, _get_values_and_dt, _preprocess_sim_path_args", SIM + "_base.py")],
     "Stateful generation of call histories; the oracle replays the last fit on a fresh model with explicit arguments.",
     "stateful model-based property testing")

prop("C05", "Calibration recovers the model's parameters per column",
     "fit equals the documented estimators for every column of any data set: sample mean and unbiased standard "
     "deviation of the (log) changes scaled with dt for (geometric) Brownian motion, where the geometric drift "
     "includes the Ito correction, and the least-squares AR(1) mapping for Ornstein-Uhlenbeck; a multivariate fit has "
     "the correlation of the changes or residuals. "
     "Parameters of a column do not depend on the other columns or on the container type, permuting columns permutes "
     "them, and rescaling the data or dt rescales them accordingly. "
     "Fitting a long simulated path recovers the simulated parameters within sampling error.",
     "inputs", "all data sets, columns, dt and containers",
     "Tests fit one or two fixed paths with loose tolerances.",
     [SIM + "_bm.py", SIM + "_gbm.py", SIM + "_ou.py"], [("_fit_np", SIM + "_bm.py, _gbm.py, _ou.py")],
     "Independent estimators, metamorphic relations and simulate-fit round trips with error bounds of many standard "
     "deviations.", "property-based testing: reference estimators, metamorphic and round-trip relations")

prop("C06", "Likelihood, AIC and BIC are those of the simulated transition density",
     "nll is minus the sum over all steps of the log of the model's exact Gaussian transition density (of log changes "
     "for geometric Brownian motion), including the correlation between variates, for any data and dt. "
     "aic is 2k + 2 nll and bic is k ln(number of rows) + 2 nll, with k the number of free parameters of the model "
     "(drift/mean, mean-reversion and volatility per variate plus the pairwise correlations), also after fitting. "
     "Splitting a path at any row splits the likelihood additively, and uncorrelated variates add up.",
     "inputs", "all models, parameters, data sets, dt and split points",
     "Tests check signs or a few reference values.",
     [SIM + "_base.py", SIM + "_bm.py", SIM + "_gbm.py", SIM + "_ou.py"],
     [("_nll, SimNllMixin, num_parameters_", SIM)],
     "Independent log-density computed from first principles on generated data.",
     "property-based testing: reference likelihood and additivity relations")

prop("C07", "Time-aware K-fold never leaks test groups or purged/embargoed data",
     "Over all folds without look-forward the test sets are contiguous, non-empty, disjoint and cover every sample "
     "exactly once in order, in near-equal folds that are only stretched so that samples of one group are never split "
     "over folds; the number of splits is as announced. "
     "The training set of a split is every other sample (only samples of earlier groups with look_forward, which skips the "
     "first fold) except those whose group lies within n_purge after the last test group or within n_embargo before "
     "the first test group, measured in group units (frequency units for dates). "
     "The result does not depend on y, the container type or the index labels, splitting can be repeated, and a "
     "setting that leaves no training data or a fold without samples raises ValueError instead of yielding a wrong "
     "split.",
     "inputs configurations", "all group layouts (ties, gaps, dates, Series with any labels), fold counts, purge and embargo sizes",
     "Leakage shows up only for particular alignments of group ties/gaps with fold bounds.",
     ["quantfinlib/train_test_split/_base.py", "quantfinlib/train_test_split/kfoldpe.py"],
     [("_modify_fold_bounds, _purge, _embargo, _get_train_index_per_split", "quantfinlib/train_test_split/")],
     "Per-sample brute-force specification compared on generated layouts.",
     "property-based testing against a per-sample brute-force specification")

prop("C08", "Walk-forward splits are causal, windowed and embargoed",
     "Every walk-forward split tests on the groups in consecutive, non-overlapping windows of test_window that start "
     "train_window after the first group, and trains only on groups strictly before the test window: all of them when "
     "expanding, those of the last train_window groups when rolling, minus those within n_embargo before the first test "
     "group; windows without training or test samples are skipped and the last window may be cut off by the end of the "
     "data. "
     "Sizes count in group units, or in units of freq for dates, and results do not depend on y, container type or "
     "index labels. "
     "After a complete pass the number of splits reported equals the number yielded by that last pass, however often "
     "the splitter was used before; non-positive windows, unsorted groups and embargoes that leave nothing raise "
     "ValueError.",
     "inputs histories configurations", "all group layouts, window sizes, embargoes, split types and reuse histories",
     "Tests use consecutive groups and a handful of window sizes.",
     ["quantfinlib/train_test_split/_base.py", "quantfinlib/train_test_split/walk_forward.py"],
     [("split, get_n_splits", "quantfinlib/train_test_split/walk_forward.py"), ("_embargo", "quantfinlib/train_test_split/_base.py")],
     "Brute-force windows in value space compared on generated layouts and reuse histories.",
     "property-based testing against a brute-force specification, with reuse histories")

prop("C09", "No feature looks into the future",
     "For every indicator, band, volatility, spread, price-impact, volume and structural-break feature, the value at "
     "time t depends only on observations up to and including t: computing the feature on any prefix of the data, or "
     "changing any later observation, leaves the values up to t unchanged. "
     "Features with a rolling window of w also do not depend on observations more than their look-back before t.",
     "inputs", "all features, series, windows, prefixes and perturbations of later (or much earlier) data",
     "Tests compare complete outputs on fixed series; a centred window or a shift of the wrong sign in an edge case "
     "passes.",
     [FT + "indicators/", FT + "micro_structure/", FT + "structural_breaks/cusumtest.py"],
     [("trailing rolling/ewm windows and positive shifts", FT)],
     "Metamorphic prefix/perturbation relations on generated series for every public feature.",
     "property-based testing: metamorphic prefix-invariance relations")

prop("C10", "Features treat arrays and Series alike and keep length, index and inputs",
     "Every feature function and band gives the same numbers for numpy arrays as for Series, returning an array for "
     "arrays and a Series with the identical index for Series, with one value per observation; positional and keyword "
     "arguments are equivalent. "
     "Index labels (dates, strings, duplicates, unsorted integers) never influence the numbers, and inputs are never "
     "modified. "
     "Mixing arrays and Series, or passing lists or scalars as series, raises TypeError.",
     "inputs configurations", "all features, containers, index types and argument styles",
     "Tests check parity for a few functions on a default index.",
     [FT + "indicators/_base.py", FT + "indicators/_bands.py", FT + "micro_structure/"],
     [("numpy_io_support", FT + "indicators/_base.py")],
     "Differential comparison of containers and index relabelings on generated data.",
     "property-based testing: differential (array vs Series) and metamorphic (index relabeling) oracles")

prop("C11", "Technical indicators equal their textbook definitions",
     "Rolling mean, standard deviation (n-1), maximum, minimum and momentum use exactly the last w observations and are "
     "undefined until the window is full; exponentially weighted mean, standard deviation and momentum use the "
     "normalised weights (1-a)^i with a = 2/(span+1) and the unbiased variance. "
     "Average true range is the exponentially weighted (a = 1/window) mean of the largest of high-low, |high - previous "
     "close| and |low - previous close|; MACD is the difference of fast and slow exponential means, and its signal "
     "function the MACD minus its own exponential mean. "
     "RSI is 100 x average gain / (average gain + average loss), so it stays within 0..100, is 100 for only gains and "
     "0 for only losses, and is unchanged by adding a constant to or positively scaling the prices.",
     "inputs", "all series and parameters",
     "Tests compare a few fixed series or only check types.",
     [FT + "indicators/_base.py", FT + "indicators/_macd.py", FT + "indicators/_rsi.py"],
     [("rolling_*, ewm_*, average_true_range, macd, rsi", FT + "indicators/")],
     "Direct loops from the definitions compared on generated series.",
     "property-based testing against from-the-definition reference implementations")

prop("C12", "Bands bracket their middle line and %B and bandwidth are consistent",
     "For all data and settings upper and lower lie symmetrically around the middle at multiplier times the band's "
     "width measure: rolling mean and standard deviation (Bollinger), exponentially weighted ones (EWM Bollinger), "
     "exponential mean and average true range (Keltner), mid-point and half-range of rolling extremes (Donchian, so "
     "upper and lower are the rolling maximum and minimum). "
     "Bandwidth is (upper-lower)/middle and %B is (price-lower)/(upper-lower), 0 at the lower and 1 at the upper band. "
     "The methods can be called repeatedly and in any order with the same results and the documented names.",
     "inputs histories", "all series, windows, multipliers, containers and call orders",
     "Tests check one series with default settings.",
     [FT + "indicators/_bands.py"], [("GenericBands and subclasses", FT + "indicators/_bands.py")],
     "Reference bands and identities on generated data and call orders.",
     "property-based testing: identities and reference implementation over call orders")

prop("C13", "OHLC volatility estimators equal their published formulas",
     "Close-close, high-low (Parkinson), Garman-Klass, Rogers-Satchell, Yang-Zhang and Becker-Parkinson estimators "
     "equal, for all prices and windows, their formulas evaluated on exactly the last window of observations, and are "
     "undefined before enough observations exist. "
     "They are unchanged when all prices are multiplied by a positive constant; the high-low, Rogers-Satchell and "
     "Becker-Parkinson estimates are never negative for consistent bars, and all of them are zero for constant prices.",
     "inputs", "all OHLC series and windows",
     "Tests compare one data set per estimator.",
     [FT + "micro_structure/_price_sequences.py"],
     [("get_*_volatility, _get_beta, _get_gamma, _get_sigma", FT + "micro_structure/_price_sequences.py")],
     "Direct loops from the formulas, scaling and sign relations on generated bars. Yang-Zhang is taken as implemented "
     "and documented by the project (uncentred overnight and close-to-previous-open terms).",
     "property-based testing against from-the-formula reference implementations and metamorphic relations")

prop("C14", "Spread estimators equal their published formulas",
     "The Corwin-Schultz, EDGE and Roll estimators and the Roll impact equal, for all prices and windows, their "
     "published formulas on exactly the last window of observations, in the original order, independent of how the "
     "work is distributed over workers. "
     "Spreads are non-negative (signed EDGE carries the sign of the squared estimate), Corwin-Schultz stays below 2 "
     "and is 0 when the adjusted estimate is negative, and all of them are unchanged when prices are multiplied by a "
     "positive constant (Roll impact scales inversely with price and volume).",
     "inputs schedules", "all price/volume series, windows and numbers of workers",
     "Tests compare fixed data; the reference implementation needs network access.",
     [FT + "micro_structure/_price_sequences.py"],
     [("get_cowrin_schultz_spread, get_edge_spread, get_roll_measure, get_roll_impact", FT + "micro_structure/_price_sequences.py")],
     "Independent loops from the papers' formulas on generated bars, under several joblib back ends.",
     "property-based testing against from-the-paper reference implementations, with varied parallel back ends")

prop("C15", "Price-impact and informed-trading measures equal their definitions",
     "Kyle's, Amihud's and Hasbrouck's lambda are the rolling means, over exactly the last window of observations with "
     "a price change, of |price change|/volume, |relative return|/dollar volume and |log return|/sqrt(dollar volume), "
     "hence never negative. "
     "VPIN is the rolling mean of |buy - sell volume|/volume, lies in 0..1 for consistent volumes, and is symmetric in buy "
     "and sell volume. "
     "Estimated buy volume is the volume times the Student-t (0.25 degrees of freedom) probability of the standardised "
     "price change, lies between 0 and the volume, is half of it for an unchanged price and increases with the price "
     "change.",
     "inputs", "all price, volume and sigma series and windows",
     "Tests compare a few fixed series.",
     [FT + "micro_structure/_strategic_trade_models.py", FT + "micro_structure/_sequential_trade_models.py"],
     [("get_kyle_lambda, get_amihud_lambda, get_hasbrouck_lambda, get_vpin, estimate_buy_volume", FT + "micro_structure/")],
     "Direct loops and range/symmetry relations on generated data; windows with an unchanged price are outside the "
     "claim for Kyle and Hasbrouck.",
     "property-based testing against from-the-definition reference implementations and range relations")

prop("C16", "The CUSUM structural-break test equals its definition",
     "For any positive price series the statistic at t is the largest, over all earlier starting points n, of the log "
     "price change since n divided by the square root of the elapsed steps and by the root mean square of all log "
     "changes up to t; the critical value is sqrt(4.6 + log(elapsed steps)) at that maximising start. "
     "Both are 0 at the first point, have one value per observation and are unchanged when the prices are multiplied "
     "by a positive constant, and the statistic (being standardised) when log prices are scaled.",
     "inputs", "all positive price series",
     "Tests check one or two series.",
     [FT + "structural_breaks/cusumtest.py"], [("chu_stinchcombe_white_cusum_test", FT + "structural_breaks/cusumtest.py")],
     "Brute-force double loop on generated series; critical values are compared where the maximum is unique.",
     "property-based testing against a brute-force reference and metamorphic relations")

prop("C17", "Correlation distances are exact, bounded and consistent between forms",
     "Angular, absolute angular and squared angular distances equal sqrt((1-r)/2), sqrt(1-|r|) and sqrt(1-r^2) for every "
     "correlation (values outside [-1,1] by rounding are treated as -1 or 1), lie in [0,1], and are zero on the diagonal "
     "of a matrix. "
     "Scalars, arrays, DataFrames (labels kept) and raw pairs of vectors give the same distances, inputs are not "
     "modified, and the pairwise forms are symmetric and invariant under positive affine maps (any sign for the "
     "absolute forms). "
     "Matrices that are not square, symmetric or with unit diagonal are rejected.",
     "inputs", "all correlations, matrices, containers and vector pairs",
     "Tests check a few values.",
     [DI + "correlation.py"], [("_convert_correlation_to_distance", DI + "correlation.py")],
     "Closed formulas and metamorphic relations on generated correlations and vectors.",
     "property-based testing: closed-form and metamorphic oracles")

prop("C18", "Information measures obey the identities of information theory",
     "With given bins the entropies are those of the equal-width histograms of the data, and mutual information is "
     "H(X)+H(Y)-H(X,Y) (normalised: divided by sqrt(H(X)H(Y))) and variation of information 2H(X,Y)-H(X)-H(Y) "
     "(normalised: divided by H(X,Y)); without bins the Hacine-Gharbi-Ravier optimal number for the sample size and "
     "correlation is used. "
     "Hence all are symmetric, invariant under reordering of the observations and positive affine maps of the data, "
     "mutual information lies between 0 and the smaller entropy, normalised measures lie in [0,1], and a variable has "
     "zero variation of information with itself. "
     "Kullback-Leibler divergence is the sum of p ln(p/q) over histogram bins, zero for identical data and "
     "non-negative.",
     "inputs", "all pairs of samples, bin counts and flags",
     "Tests check a few random pairs.",
     [DI + "information.py"], [("compute_entropies, mutual_info, var_info, kl_divergence_xy", DI + "information.py")],
     "Independent histogram and entropy computation on generated samples; data placed away from bin edges for exact "
     "comparison. One known finding on the KL divergence (separate bin edges, dropped bins).",
     "property-based testing: reference implementation and information-theoretic invariants")

prop("C19", "Matrix divergences are true divergences",
     "For all positive definite matrices the log-det divergence equals tr(PQ^-1) - ln det(PQ^-1) - n and the von "
     "Neumann divergence tr(P ln P - P ln Q - P + Q). "
     "Both are non-negative, zero if and only if the matrices are equal, unchanged by a common orthogonal change of "
     "basis (log-det by any invertible congruence) and, for diagonal matrices, equal to the sums of the scalar "
     "divergences; the von Neumann divergence scales linearly with a common factor and the log-det divergence not at "
     "all. "
     "Matrices that are not positive definite are rejected.",
     "inputs", "all pairs of positive definite matrices",
     "Tests check identity and a few small matrices.",
     [DI + "matrix_divergence.py"], [("log_det_divergence, von_neuman_divergence", DI + "matrix_divergence.py")],
     "Closed forms by independent eigendecompositions and invariances on generated well-conditioned matrices.",
     "property-based testing: closed-form and invariance oracles")

prop("C20", "Distance matrices agree with the pairwise measures for every pair of columns",
     "Every entry of a correlation or information distance matrix equals the pairwise measure of those two columns, so "
     "matrices are symmetric with the documented diagonal: 0 for distances, 1 (or the entropy when not normalised) for "
     "mutual information. "
     "Permuting columns permutes rows and columns, adding columns does not change existing entries, arrays and "
     "DataFrames give the same numbers (with column labels on both axes for frames), options such as the number of bins, "
     "rank correlation or a correlation transformer are honoured, and the data are not modified. "
     "Unknown methods and data that are not two-dimensional with at least two columns are rejected.",
     "inputs configurations", "all data sets, methods, options and column orders",
     "Tests check shapes and a few entries.",
     [DI + "distance_matrix.py"], [("get_corr_distance_matrix, get_info_distance_matrix, corr_to_dist", DI + "distance_matrix.py")],
     "Pairwise differential comparison on generated data sets.",
     "property-based testing: differential (matrix vs pairwise) and metamorphic oracles")

prop("C21", "Hierarchical clustering yields exactly k nested clusters of the items",
     "For every data set, correlation or distance matrix, linkage method and k, the clustering labels every item, with "
     "exactly k distinct labels, and the clusters for k+1 refine those for k. "
     "The tree and clusters are those of agglomerative clustering of the chosen distances (from data, correlation or "
     "given distances alike), so relabelling or reordering items reorders the result, arrays and frames agree, and "
     "single, complete and average linkage merge at the minimal, maximal and mean distance between clusters. "
     "Asking repeatedly, in any order, gives the same answer, and unsupported codependence methods or missing data raise "
     "ValueError.",
     "inputs histories", "all inputs, linkage methods, k and query orders",
     "Tests cluster a few block matrices.",
     ["quantfinlib/clustering/hierarchical.py"], [("HC", "quantfinlib/clustering/hierarchical.py")],
     "Brute-force agglomeration for tie-free distances and structural invariants on generated inputs.",
     "property-based testing: brute-force reference, refinement and permutation relations")

prop("C22", "Cluster-quality metrics and the chosen number of clusters follow the definitions",
     "The silhouette t-statistic is mean/std of the per-item silhouettes, and the gap statistic is the mean log "
     "within-cluster dispersion of nb reference matrices with uniformly random symmetric distances up to the largest "
     "distance minus that of the data, with its standard deviation; both are invariant under relabelling of clusters and "
     "scaling of the distances, and reproducible for a given seed without touching the global random state. "
     "The optimal number of clusters is always between 2 and the smaller of the maximum asked for and the number of items minus "
     "one, is the silhouette maximiser, or for the gap the smallest k whose gap is at least that of k+1 minus its "
     "deviation (the largest k if there is none).",
     "inputs", "all distance matrices, labelings, seeds, nb and maximum cluster counts",
     "Tests check a few block matrices.",
     ["quantfinlib/clustering/metrics.py", "quantfinlib/clustering/hierarchical.py"],
     [("gap_statistic, silhouette_tstat", "quantfinlib/clustering/metrics.py"), ("optimize_n_clusters", "quantfinlib/clustering/hierarchical.py")],
     "Independent silhouettes; the gap's data term is exact, its random reference term is bounded statistically and by "
     "invariances; the selection rule is recomputed from the public metrics.",
     "property-based testing: reference implementation, invariances and statistical bounds")

prop("C23", "Covariance, correlation and eigen conversions round-trip",
     "Converting a covariance matrix to correlation plus standard deviations and back returns it; correlations are "
     "symmetric, within [-1,1], with unit diagonal; correlation to eigenvalues and eigenvectors and back is the "
     "identity, sorted in decreasing order on request and truncated to exactly the k largest. "
     "Completing a partial eigen system keeps the given part, yields an orthonormal basis and restores the trace; block "
     "matrices have the given within-block correlations and zeros elsewhere, and random covariance/correlation matrices are "
     "valid ones. "
     "The Marchenko-Pastur density is non-negative, zero outside its support, integrates to min(1, observations/assets) "
     "and scales with the variance; no conversion modifies its input.",
     "inputs", "all covariance/correlation matrices, k, block layouts and Marchenko-Pastur parameters",
     "Tests check 2x2 and 3x3 examples.",
     ["quantfinlib/math/cov.py"], [("_cov_to_cor, _cor_to_cov, _cor_to_eig, _eig_to_cor, _eig_complete, _marchenko_pastur_pdf", "quantfinlib/math/cov.py")],
     "Round trips and closed formulas on generated matrices.",
     "property-based testing: round-trip and closed-form oracles")

prop("C24", "Denoising keeps signal and variances and returns a valid matrix",
     "Denoising replaces exactly the eigenvalues below the noise threshold (or all but the k largest when k is given) by "
     "their mean, keeps the others and the eigenvectors, and rescales nothing else, so the denoised correlation matrix "
     "is symmetric, positive semi-definite, with unit diagonal, and a denoised covariance keeps every variance. "
     "The noise threshold is the upper edge of the Marchenko-Pastur law whose variance is the likelihood maximiser "
     "for the eigenvalues (those outside the support count with density 1/largest), also when assets outnumber observations, and the reported information is consistent with "
     "it. "
     "Inputs are not modified and results for a given input do not depend on earlier calls.",
     "inputs histories", "all covariance/correlation matrices, sample sizes and k",
     "Tests check shapes and a few properties of one random matrix.",
     ["quantfinlib/math/cov.py"], [("_cov_denoise, _cor_denoise, _eigen_values_denoise, _marchenko_pastur_fit", "quantfinlib/math/cov.py")],
     "Reference reconstruction from the eigensystem and matrix invariants on generated matrices.",
     "property-based testing: reference reconstruction and matrix invariants")

prop("C25", "Frequency detection recognises regular calendars and maps them to durations",
     "For every sufficiently long regular calendar (daily, working-day, weekly, month/quarter/year start or end) the "
     "detected frequency is that calendar's code whatever the start, length, container or values, also with one or two "
     "isolated irregularities (missing or shifted days), a time of day or a time zone, and irregular, intraday or too short "
     "data give no frequency. "
     "Every reported frequency maps to a duration in years (1/365, 1/252, 7/365, 1/12, 1/4, 1), anchors such as W-SUN or "
     "QE-DEC do not matter, and unknown codes and non-date inputs give None.",
     "inputs", "all calendars, start dates, lengths, containers and isolated irregularities",
     "Tests use a handful of start dates.",
     ["quantfinlib/_datatypes/timeseries.py"], [("time_series_freq, time_series_freq_to_duration", "quantfinlib/_datatypes/timeseries.py")],
     "Calendars generated over two centuries of start dates; the generator is the oracle.",
     "property-based testing with a calendar generator as oracle")

prop("C26", "Malformed input is rejected before any result is produced",
     "Wrong containers, dimensions, lengths, unsorted groups, non-triangular correlation lists, negative purge/embargo "
     "sizes, unknown method names, correlations of distance functions that are not symmetric with unit diagonal and "
     "correlations of models that are not positive definite raise an exception "
     "of the documented kind, whatever the other arguments, passed by position or keyword. "
     "Valid inputs at the boundary (two observations, two columns, zero purge) are accepted. "
     "The validating decorators keep the wrapped function's metadata, ignore arguments that are None or absent, and pass all "
     "arguments and the return value through unchanged.",
     "inputs", "all combinations of one malformed argument with otherwise valid ones, and all signatures for the decorators",
     "Tests reject one bad value per function.",
     ["quantfinlib/util/_validate.py", "quantfinlib/train_test_split/", "quantfinlib/distance/", "quantfinlib/clustering/", "quantfinlib/sim/_base.py"],
     [("validate_series_or_1Darray, validate_frame_or_2Darray", "quantfinlib/util/_validate.py"), ("BaseCV", "quantfinlib/train_test_split/_base.py")],
     "Generated mutations of valid calls; each must be rejected with the documented exception type.",
     "property-based testing: mutation of valid inputs, acceptance/rejection oracle")

prop("C27", "Logger configuration is idempotent and never leaks handlers or levels",
     "After any sequence of logger configurations exactly one console handler, plus one file handler if and only if the last "
     "call asked for a file, is attached, every record at or above the last verbosity is emitted exactly once to each, and "
     "none below it. "
     "Handlers that were replaced are closed, so earlier log files receive nothing more and no file descriptor is leaked, "
     "and file contents are appended to, never truncated. "
     "Using or importing other parts of the library does not change the configured level or handlers.",
     "histories", "all sequences of configuration and logging calls and library use",
     "Tests configure once or twice.",
     ["quantfinlib/util/_logging.py", "quantfinlib/distance/distance_matrix.py"], [("configure_logger", "quantfinlib/util/_logging.py")],
     "Stateful sequences against a model of handlers and log files in a scratch directory.",
     "stateful model-based property testing")

prop("C28", "Bundled data sets load completely, identically and independently",
     "Each loader returns, whatever the working directory and previous calls, the full data set of its bundled file: all rows and "
     "documented columns with unchanged values and missing values kept, on a sorted, unique date index. "
     "Every call returns an independent frame, so modifying a returned frame never affects later loads, and the bundled "
     "files are never changed. "
     "Index levels are positive and every column is numeric.",
     "histories configurations", "all sequences of loads, mutations of results and working directories",
     "Tests load each data set once and check the shape.",
     ["quantfinlib/datasets/_dataloader.py"], [("load_vix, load_treasury_rates, load_equity_indices", "quantfinlib/datasets/_dataloader.py")],
     "Histories of loads and mutations compared with an independent csv parse of the bundled file.",
     "stateful property-based testing with an independent parser as oracle")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    have = {n[:3].upper() for n in os.listdir(os.path.join(ROOT, "checks")) if n[0] == "c" and n.endswith(".py")}
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["level_note"],
        } for p in P if p["id"] in have],
        "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in P if p["id"] not in have],
        "notes": "See DESIGN.md. No hooks are needed: every check drives the public API of /repo's working tree.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
