"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["mlpaper/" + f for f in files], mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)))

p("C01", "Classification losses are the textbook proper scoring rules",
  "For every label vector (integer or boolean) and every table of normalized log probabilities, including zero probabilities and one-label problems, the per-point log, Brier and spherical losses equal their textbook definitions. With rescaling (the default) Brier and spherical give 0 to a certain correct prediction and 1 to a uniform one; without it the raw losses are returned. Each loss is proper: under any label distribution no report has a lower expected loss than the distribution itself.",
  ["inputs"], "all label vectors, label counts, label dtypes and probability tables (incl. p=0, p=1, uniform, single label, single row, many rows)",
  "Tests draw one random table per function per run, never with zero probabilities off the true label, never check properness, and compare Brier against sklearn only for 2 labels.",
  ["classification.py", "util.py"], [("log_loss / brier_loss / spherical_loss", "mlpaper/classification.py"), ("shape_and_validate, one_hot", "mlpaper/classification.py, mlpaper/util.py")])

p("C02", "Decision loss takes a Bayes-optimal action and charges the loss matrix",
  "For every predictive distribution and every finite loss matrix with any number of actions, the chosen action has the least expected loss under the prediction, with exact ties going to the lowest-numbered action. The loss charged to a point is exactly the matrix entry of its true label and the chosen action. Without a matrix the loss is 0 when the most probable label is the true one and 1 otherwise.",
  ["inputs"], "all distributions on a grid x all small loss matrices (negative entries, more or fewer actions than labels) x all labels",
  "Tests use random matrices where ties and negative costs never occur, and check only the 0-1 loss of random 2-label tables.",
  ["classification.py"], [("hard_loss_decision / hard_loss", "mlpaper/classification.py")])

p("C03", "Classification loss tables renormalize predictions and keep cells in place",
  "For every table of log predictions, each cell (metric, method) of the loss table holds, row by row, that metric evaluated on that method's own predictions after each row is normalized to a probability distribution, so adding any constant to a row's log scores changes nothing. The row index is that of the input, every metric x method pair is present, and method or metric names and their order never change a value. A NaN prediction, a misordered or missing label column, or a label vector of the wrong length is rejected, never scored.",
  ["inputs", "configurations"], "all prediction tables, row offsets, method/metric name sets and orders, row indices, NaN positions, already-normalized or not",
  "No test calls the classification loss table at all; only the normalizing helper is tested on random data.",
  ["classification.py", "util.py"], [("loss_table", "mlpaper/classification.py"), ("normalize", "mlpaper/util.py")])

p("C04", "Regression losses and loss tables score the right target and method",
  "For all finite targets, predictive means and positive predictive standard deviations, the square, absolute and log losses equal (y-mu)^2, |y-mu| and the negative Gaussian log density at y. Each cell (metric, method) of the regression loss table holds that metric of that method's own mean and standard deviation, row by row and in the input's row order, whatever the method names and their order. Non-finite targets or predictions and non-positive standard deviations are rejected.",
  ["inputs", "configurations"], "all targets/means/stds on a grid with extremes, all method sets and column orders, every position of an invalid value",
  "No test imports the regression module.",
  ["regression.py"], [("square_loss, abs_loss, log_loss, shape_and_validate", "mlpaper/regression.py"), ("loss_table", "mlpaper/regression.py")])

p("C05", "t-based error bar and p-value are exact and invert each other",
  "For every sample of at least two finite values the t error bar is the two-sided Student-t half width for the requested confidence and the t-test p-value is the two-sided p-value that the mean is zero, so zero lies outside mean +/- error bar exactly when the p-value is below 1 - confidence. Samples with at most one value or with an infinity give an infinite error bar and p-value 1; a constant sample gives error bar 0 and p-value 1 if it is zero, 0 otherwise. NaNs and confidences outside (0,1) are rejected.",
  ["inputs"], "all samples over a value alphabet (ties, zeros, sign changes, infinities, tiny and huge scales) up to a length, all confidences in a set",
  "Tests draw random normal samples, where constant, zero-mean and infinite samples are special-cased one by one; the duality is checked only at confidence = 1 - p.",
  ["mlpaper.py"], [("t_EB, t_test", "mlpaper/mlpaper.py")])

p("C06", "Bernstein error bar is a valid bound and matches its test",
  "For every sample within known limits the Bernstein error bar equals the empirical Bernstein bound for that confidence, and the p-value is the smallest error level whose bound excludes zero (capped at 1), so the two never disagree. For every distribution within the limits, the probability over all samples that mean +/- error bar contains the true mean is at least the confidence. Samples of at most one value, non-finite samples, and infinite or zero ranges give p-value 1; values outside the limits are rejected.",
  ["inputs"], "all samples over finite value alphabets; for coverage all sample outcomes of all grid-valued discrete distributions, weighted exactly",
  "Tests estimate coverage by simulating uniform data and do not even assert the result (the p-value is returned); inversion is checked for one random sample.",
  ["mlpaper.py"], [("bernstein_EB, bernstein_test", "mlpaper/mlpaper.py")])

p("C07", "Bootstrap interval, error bar and significance primitives are coherent",
  "For every array of bootstrap estimates the percentile interval's ends are estimates of that array at the confidence's ranks, rounded outward and per trailing element; the basic interval is its reflection about the original estimate, and the error bar is the smallest symmetric bar about the original estimate that contains either interval. The significance is min(1, twice the smaller of the fractions of estimates <= and >= the reference), pairing element by element when the reference is an array. If the p-value is at least 1 - confidence then the percentile interval contains the reference; NaNs, mismatched shapes and confidences outside (0,1) are rejected.",
  ["inputs"], "all arrays of estimates over an alphabet (ties, infinities) up to a length and with trailing dimensions, all references, all confidences in a set",
  "Tests draw random arrays with a zero planted; ties with the reference, infinities, higher dimensions and the basic interval's values are not reached.",
  ["boot_util.py"], [("confidence_to_percentiles, percentile, basic, error_bar, significance", "mlpaper/boot_util.py")])

p("C08", "Bootstrap of a mean uses true resamples, the same ones for bar and test",
  "Bootstrap weights are, for every random outcome, counts of drawing N points uniformly with replacement, one independent draw per replicate, raised only to the requested minimum weight. For every sample and every outcome of the resampling the bootstrap error bar and p-value of a mean are those of the resampled means about the sample mean and about zero, both from the same resamples. Samples of at most one value or with an infinity give an infinite error bar and p-value 1, without a random draw deciding it.",
  ["inputs", "fault_sequences"], "all samples over an alphabet x all outcomes of the random number source (every weight vector, every mixture of them over the replicates)",
  "Tests fix the seed and compare the functions with each other, so they reach a handful of resampling outcomes and no independent value.",
  ["boot_util.py", "mlpaper.py"], [("boot_weights", "mlpaper/boot_util.py"), ("boot_EB, boot_test, combined bar-and-test", "mlpaper/mlpaper.py")],
  state=[("numpy global random source", "answers enumerated by the checker", "np.random")])

p("C09", "Known limits only tighten error bars, and all entry points agree",
  "Clipping an error bar to known limits never makes it larger than needed to cover the limits from the estimate, never smaller than min(the bar, that cover) or the minimum bar, leaves the covered part of the allowed range unchanged, and keeps a NaN bar NaN. For each of the three methods (t, bernstein, boot) the combined mean/bar/test entry points return the sample mean, that method's bar clipped this way, and that method's p-value, identical across entry points for the same random draws. Data or an estimate outside the limits, or a minimum bar too big for them, is rejected.",
  ["inputs", "configurations"], "all estimates, bars, limits and minimum bars over an alphabet with infinities and NaN; all samples x methods x limits x confidences",
  "The clipping test and the entry-point test draw random reals and do not pass on this toolchain before the repairs; exact boundary values are never drawn.",
  ["mlpaper.py", "util.py"], [("clip_EB", "mlpaper/mlpaper.py"), ("get_mean_and_EB, get_test, get_mean_EB_test", "mlpaper/mlpaper.py"), ("clip_chk", "mlpaper/util.py")])

p("C10", "Loss summary: mean, error bar and paired p-value of each method",
  "For every loss table the summary has one row per method and (mean, error, p) per metric, where mean is the method's average loss and p tests the per-point loss differences to the reference method under the chosen method and the metric's limits. The error bar is that of the method's own losses, or with pairwise intervals that of the loss differences; the reference's p (and its pairwise error bar) is NaN and nothing else is, and each metric uses only its own limits, infinite when not given. Renaming or reordering methods, metrics or rows changes nothing but labels and order; NaN losses and losses outside the limits are rejected.",
  ["inputs", "configurations"], "all small loss tables x reference choice x {t, bernstein, boot} x pairwise or not x limits x confidence x name/row orders",
  "One test draws a single random table with t or bernstein; ties with the reference, infinite losses, boot, limits at the data's edge and column/row orders are not reached.",
  ["mlpaper.py"], [("loss_summary_table", "mlpaper/mlpaper.py")])

p("C11", "ROC, precision-recall and PR-gain curves equal direct counting",
  "For every label vector and finite score vector the ROC, recall-precision and recall-gain/precision-gain curves consist of the points obtained by counting true and false positives at every distinct score from the highest down, preceded by the zero-positives point, with thresholds strictly decreasing from infinity. Equal scores always form one point, so the curves (and the area under ROC, which equals the probability of ranking a positive above a negative with ties counted half) do not depend on the order of the data or on any strictly increasing transformation of the scores. When only one class is present the curves are those of a random guess: area 1/2, the base rate, and 0.",
  ["inputs"], "all label vectors x all score patterns (weak orders with ties) up to N points; all permutations; several monotone transformations",
  "The repository's curve tests cannot be collected with the installed sklearn; the remaining test checks only average areas over random data.",
  ["perf_curves.py", "util.py"], [("_binary_clf_curve, _add_pseudo_points", "mlpaper/perf_curves.py"), ("roc_curve, recall_precision_curve, prg_curve", "mlpaper/perf_curves.py")])

p("C12", "Weighting data points is equivalent to replicating them, per replicate",
  "For every data set and matrix of positive weights, each row of the weighted curves equals the curve of that weight row alone, computed independently of the other rows, and with whole-number weights has the same areas and points as the data set with each point repeated that many times. All-one weights give the unweighted curve, and scaling a weight row by a positive constant does not change its curve. Points of negligible weight change the area under ROC by no more than that weight's order while both classes keep a weightier point; non-positive or non-finite weights are rejected.",
  ["inputs"], "all label/score patterns up to N x all weight vectors over a small alphabet x weight matrices of several rows in every order",
  "The only tests of weighted curves cannot be collected here; the bootstrap tests reach them only through coverage statistics.",
  ["perf_curves.py"], [("_binary_clf_curve with sample_weight", "mlpaper/perf_curves.py")])

p("C13", "Curve interpolation and area are exact for step and linear curves",
  "For all nondecreasing x points (repeats allowed) and y points, evaluating a step curve gives the y of the last point at or left of each grid value and evaluating a linear curve gives straight-line interpolation, taking the last y where x repeats; stacked curves are evaluated independently. The area is the integral of exactly that function: left rectangles for steps (an infinite y over zero width counts 0) and trapezoids for lines. Step functions honour their initial value left of the first step, unsorted steps are sorted first, and reducing repeated points keeps the last of each.",
  ["inputs"], "all nondecreasing point sequences over a grid up to a length, all y values, all grid points, several stacked curves",
  "Tests compare against scipy and statsmodels on random points, where repeats hit by a grid point and infinite values hardly occur.",
  ["util.py"], [("unique_take_last, eval_step_func, _interp1d, interp1d, area", "mlpaper/util.py")])

p("C14", "Curve summaries: area, bootstrap bar and p-value from shared resamples",
  "For every binary data set and every resampling outcome, a curve's summary is the area of the curve on the original data, the bootstrap error bar of that area (with pairwise intervals: of its difference to the reference), and the two-sided bootstrap p-value against the reference, whose areas come from the same resamples; the curve output holds the grid, the original curve on it and the pointwise percentile envelope (columns xgrid, ygrid, LB and UB). A scalar reference is compared directly. In the summary table each method x curve cell is that triple for that method's positive-class scores against the reference method, with NaN exactly for the reference's p and its pairwise error bar.",
  ["inputs", "configurations", "fault_sequences"], "all small label/score data sets x curve kinds x references x every outcome of the random source over few replicates x pairwise or not",
  "No stable test checks a value of the curve bootstrap; one slow test checks coverage statistics at N=201.",
  ["classification.py", "boot_util.py"], [("curve_boot, check_curve", "mlpaper/classification.py"), ("curve_summary_table", "mlpaper/classification.py")],
  state=[("numpy global random source", "answers enumerated by the checker", "np.random")])

p("C15", "Prediction tables hold each model's own floored, normalized predictions",
  "For every set of models, each is fitted exactly once on the training data as given and asked for the test points as given, and its columns hold exactly its own predictions, whatever the other models predict. Classification columns are log probabilities in label order, floored at the requested minimum and then renormalized, taken from a model's log probabilities or else from the log of its probabilities; regression columns are mean and standard deviation, the latter floored at the requested minimum and 1 for models that report none. The baseline models predict the class frequencies (with pseudo-counts) and the training mean and standard deviation.",
  ["inputs", "configurations"], "all model sets over stub behaviours (log-proba, proba only, failing log-proba, with/without std) x data shapes x floors x name orders",
  "No test calls these functions, which raised TypeError on every call with the installed joblib before the repair.",
  ["classification.py", "regression.py"], [("get_pred_log_prob, JustNoise", "mlpaper/classification.py"), ("get_gauss_pred, JustNoise", "mlpaper/regression.py")])

p("C16", "Checkpointing never changes results and resumes after any interruption",
  "With a checkpoint directory, every prediction table equals the one computed without it, for every history of calls in any order with differing training data, test data, model settings, floors or problem type sharing the directory. If a run is interrupted at any point, during training or between any two file operations, a later run with the same directory gives the same table as an uninterrupted one, and models whose train/predict step had completed and been stored are not trained again. Without a checkpoint directory nothing is stored.",
  ["histories", "crash_points"], "all call histories up to a depth over an alphabet of differing inputs sharing one directory; a crash at every file operation and every model step",
  "No test uses checkpoints; the property is about histories and crash points, not single calls.",
  ["classification.py", "regression.py"], [("joblib memory around the train/predict step", "mlpaper/classification.py get_pred_log_prob, mlpaper/regression.py get_gauss_pred")],
  state=[("checkpoint directory", "stored train/predict results keyed by their inputs", "joblib Memory")])

p("C17", "The one-call benchmark equals its documented pieces",
  "For every data set, model set, options and random state, the one-call classification benchmark returns exactly what predicting, tabulating losses, summarizing losses and summarizing curves separately return, loss metrics first and then curve metrics, with methods in the same rows; the regression benchmark likewise for its losses. All options (reference, floor, pairwise intervals, error-bar method, limits) reach the pieces unchanged and the defaults are 95% confidence, t error bars and non-pairwise intervals. Boolean and 0/1 integer labels give the same table.",
  ["inputs", "configurations"], "all combinations of the option values x small data sets x model sets",
  "No test calls either one-call interface.",
  ["classification.py", "regression.py"], [("just_benchmark, summary_table", "mlpaper/classification.py"), ("just_benchmark", "mlpaper/regression.py")])

p("C18", "Splits partition the data; joint splits need every criterion to agree",
  "For every data frame and split specification the train, test and unused parts are disjoint, together contain every row exactly once, and keep the rows' contents, index and order. A row is in train exactly when every criterion puts it in train, in test exactly when every criterion puts it in test, and otherwise unused, so a single criterion leaves nothing unused and joint splits share no train value with test for any criterion. Splitting on the index equals splitting on a column with the same values, duplicates included.",
  ["inputs", "configurations", "fault_sequences"], "all small frames (duplicate values, duplicate or unsorted index, numeric, string and time columns) x all combinations of criteria and fractions x all outcomes of the random source",
  "The splitter tests do not run with the installed numpy, so nothing tests this module.",
  ["data_splitter.py"], [("split_df, index_to_series", "mlpaper/data_splitter.py")])

p("C19", "Each split rule puts the requested share of values in train",
  "For every series and fraction, a random split puts exactly the fraction (rounded up) of the distinct values in train, every subset of that size being possible for some random outcome, and equal values always land together; an ordered split puts in train the fewest smallest distinct values that make up at least the fraction (at least one); a linear split puts in train exactly the values up to the point that fraction of the way from minimum to maximum. The promises that values are sorted or unique are only speed-ups: when true they never change the result for the same random draws. Null values and fractions outside [0,1] are rejected.",
  ["inputs", "fault_sequences"], "all series over a value alphabet up to a length x fractions (0, 1, multiples of 1/n, others) x truthful flags x all outcomes of the random source",
  "No passing test covers the splitter; fractions that are whole multiples of 1/n (the usual 0.8 of 10 values) crash the ordered split before the repair.",
  ["data_splitter.py"], [("rand_subset, rand_mask, random_split_series, ordered_split_series, linear_split_series", "mlpaper/data_splitter.py")])

p("C20", "Lagged data frames contain exactly the past values",
  "For every frame, number of lags and stride, the lag-k column of a feature holds at row i the feature's value at row i - k*stride, and is missing where no such row exists. Lag 0 keeps every column unchanged, higher lags hold exactly the selected features, the lag is the last column level, and lags appear in increasing order. The row index is unchanged.",
  ["inputs", "configurations"], "all frame shapes, lag counts (past 10), strides, feature subsets, index types and column levels in the bounds",
  "No test calls it; it raised TypeError on Python 3 before the repair.",
  ["data_splitter.py"], [("build_lag_df", "mlpaper/data_splitter.py")])

p("C21", "Rounding a results table is conservative and to the stated precision",
  "For every results table, each error bar is rounded up to the requested significant digits (infinite when above its metric's limit), each p-value is rounded up to the requested decimals, and each mean is rounded half up to the last digit of its error bar, or to the default significant digits when the error bar is zero, infinite or NaN. So no reported error bar or p-value is below the true one or more than one unit of its last digit above it. Rows, columns and their order are unchanged, and an error limit for one metric never affects another.",
  ["inputs", "configurations"], "all mean/error/p triples over an alphabet (powers of ten and their neighbours, exact ties, zero, infinities, NaN, tiny and huge) x digit settings x limits x table orders",
  "Tests check only that random p-values and error bars are not rounded down, not the precision, the mean or the limit.",
  ["sciprint.py"], [("decimalize, create_decimal", "mlpaper/sciprint.py")])

p("C22", "Formatted entries read back as exactly the rounded numbers",
  "For every rounded mean and error bar, the printed entry, read as mean(error in units of the last digit) and shifted back, gives exactly that mean and error bar, without exponent notation; a non-finite error bar prints the mean alone. Means beyond a clip limit print only that limit with < or >, non-finite means print the configured text, and p-values print as given except that those not above their smallest step print as < that step and NaN as its configured text. A shift that would hide digits is refused instead of printed wrongly.",
  ["inputs", "configurations"], "all decimal means/errors over digits and exponents in bounds x shifts x clip limits x non-finite texts; all p-values at given precisions",
  "Tests read back one random pair per run; p-value printing and custom texts are not tested.",
  ["sciprint.py"], [("print_estimate, print_pval, digit_str, decimal_to_dot", "mlpaper/sciprint.py"), ("format_table", "mlpaper/sciprint.py")])

p("C23", "The column shift is admissible and gives the narrowest column",
  "For every column of finite means and its error bars the chosen power-of-ten shift is a multiple of the modulus, keeps every mean printable to its last digit, and leaves at least one mean with a nonzero leading place at or left of the point unless that is impossible. Among such shifts it makes the widest printed entry (not counting points and commas) as narrow as possible, preferring the smallest shift on ties; an empty column is not shifted. Clipped entries never influence the shift, and one shift is used for the whole column.",
  ["inputs", "configurations"], "all lists of decimals over digits/exponents in bounds up to a length x moduli x error bars",
  "Tests check one random list per run against the function's own search range.",
  ["sciprint.py"], [("get_shift_range, find_shift, floor_mod, ceil_mod", "mlpaper/sciprint.py")])

p("C24", "Rendered tables: right cells, decimal alignment and truthful headers",
  "For every results table, the formatted text or LaTeX shows for each method and metric that method's entry and p-value under that metric's header, and padding puts the decimal points of a column in line without changing entries. The header tells the scale: the printed number times the SI prefix of the unit, or divided by the stated power of ten, is the true value; an unshifted column shows neither. Underscores in metric names become spaces, units appear in parentheses, and p columns are headed p.",
  ["inputs", "configurations"], "all tables over metrics, methods, scales, units, prefix on/off, TeX on/off, moduli in bounds",
  "No test renders a table or a header.",
  ["sciprint.py", "constants.py"], [("adjust_headers, table_to_string, table_to_latex, just_format_it", "mlpaper/sciprint.py"), ("pad_num_str, find_last_dig", "mlpaper/sciprint.py"), ("SI prefix tables", "mlpaper/constants.py")])

p("C25", "Calls are pure: no input changes, no memory between calls",
  "No public function changes its arguments, the shared default options, the numpy error settings, the decimal context settings, or the warning filters and print options of numpy and pandas, and functions without randomness leave the random state alone. The result of a call depends only on its arguments and the numpy random state, never on which calls came before it, so any sequence of calls gives each the result it would have had in a fresh process and re-seeding reproduces every result.",
  ["histories"], "all sequences of public calls up to a depth over an alphabet of calls with colliding arguments",
  "Tests call each function in isolation and never compare inputs before and after.",
  ["classification.py", "regression.py", "mlpaper.py", "perf_curves.py", "boot_util.py", "util.py", "sciprint.py", "data_splitter.py"],
  [("mutable default arguments, module constants, in-place numpy/pandas operations", "all modules")])

p("C26", "Tie-breaking and ordering helpers keep order and encode exactly",
  "For every finite vector and every random outcome, breaking ties by noise keeps the strict order of distinct values, moves no value by more than half the smallest gap (or the given maximum), and makes equal values distinct whenever their random draws differ. Making a sequence strictly increasing never lowers a value, changes none that already exceeds its predecessor's result, and otherwise raises by the least representable amount. One-hot encoding sets exactly the column of each label, and row normalization of log scores yields distributions with the same log ratios.",
  ["inputs", "fault_sequences"], "all vectors over an alphabet (ties, adjacent floats, negatives, zero, huge) up to a length x all random answers from a small set incl. extremes",
  "Tests use random normal vectors, where ties, adjacent floats and extreme draws do not occur.",
  ["util.py"], [("epsilon_noise, cummax_strict, one_hot, normalize", "mlpaper/util.py")])

open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
