"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""
P = []


def p(id, title, statement, over, text, why, files, mech, note, technique=None, observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, technique=technique, observe=list(observe), na=na))


TRAIN = "The repository's own training tests run one fixed dataset and compare one or two numbers; "

p("C01", "Loss values equal their definitions",
  "The reported true loss is the sum over all cells of the squared residual divided by the squared uncertainty; the robust "
  "loss replaces the contribution s^2 of every cell whose absolute scaled residual s exceeds the robust limit by limit*s, and "
  "therefore never exceeds the true loss for a limit of at least 1. Losses do not depend on the order of samples, features or "
  "factors nor on the measuring unit, per-factor losses and the estimated-error helpers agree with the same definitions, and "
  "no input matrix is modified.",
  ["inputs"], "every non-empty data/uncertainty/contribution/profile matrix (also with negative data), float32 or float64, "
  "and every robust limit > 0",
  "The tests contain no test of the loss functions themselves; a handful of trained losses on one dataset cannot separate a wrong "
  "branch for outliers from a right one.",
  ["esat/metrics.py"], [("q_loss", "esat/metrics.py"), ("qr_loss", "esat/metrics.py"), ("q_factor", "esat/metrics.py"),
                        ("calculate_Q", "esat/metrics.py")],
  "Random matrices against an independent double-precision definition plus permutation/unit relations; rounding-level "
  "differences and cells within 0.1% of the robust limit are not judged.",
  "property-based differential testing against a reference definition + metamorphic relations")

p("C02", "Least-squares NMF: non-negative factors and a loss that never increases",
  "With the least-squares algorithm on non-negative data, one update applies the weighted multiplicative rule to the profiles and "
  "then to the contributions computed with the updated profiles, the factors stay finite and non-negative, and the weighted loss "
  "never increases from one iteration to the next. An exact factorisation is a fixed point, and reordering samples, features or "
  "factors or changing the measuring unit changes the result only accordingly.",
  ["inputs", "histories"], "every non-negative data matrix (including all-zero samples or features), positive uncertainty, "
  "non-negative start and iteration count",
  TRAIN + "monotonicity is a statement about every iteration of every run.",
  ["esat/model/ls_nmf.py", "esat/model/sa.py"], [("LSNMF.update", "esat/model/ls_nmf.py"), ("SA.train loop", "esat/model/sa.py")],
  "Random problems against an independent statement of the update, and over whole runs for the loss history; increases "
  "within float32 rounding are not judged.",
  "property-based testing: reference step, invariant over training histories, metamorphic relations")

p("C03", "Weighted semi-NMF: optimal contributions, non-negative profiles, negative data",
  "With the weighted semi-NMF algorithm the contributions of every sample are the exact uncertainty-weighted least-squares fit to the "
  "current profiles, and the profiles are updated by the signed multiplicative rule so that they never become negative or undefined. "
  "Data containing negative values is always factorised this way, contributions may then be negative, and training such data "
  "succeeds with finite results while the profiles stay linearly independent in single precision.",
  ["inputs", "histories"], "every data matrix with or without negative values, positive uncertainty, positive profiles of full rank",
  TRAIN + "no passing test runs the semi-NMF algorithm at all.",
  ["esat/model/ws_nmf.py", "esat/model/sa.py"], [("WSNMF.update", "esat/model/ws_nmf.py"), ("algorithm choice", "esat/model/sa.py")],
  "Least-squares optimality is checked against an independent QR solution within a tolerance scaled by the conditioning; "
  "nearly rank-deficient profiles are not judged.",
  "property-based differential testing against an independent weighted least-squares solver")

p("C04", "What a trained model reports is what it did",
  "After training, the estimate equals the product of the reported factors, the reported true and robust losses and the last entry of the "
  "loss history belong to exactly those factors, and the recorded settings are those of the latest run. Training stops at the first "
  "iteration (after more than the window length) at which the loss fell by less than the limit over the window and then reports "
  "convergence, otherwise it runs the full iteration limit and reports no convergence. Training again continues from the current factors, "
  "so a run of a+b iterations equals a run of a followed by a run of b.",
  ["inputs", "configurations", "histories"], "every valid problem, algorithm, limit, window, robust limit and number of training calls",
  TRAIN + "they never compare the reported losses with the reported factors or look at the stopping rule.",
  ["esat/model/sa.py"], [("SA.train", "esat/model/sa.py")],
  "Every run is re-evaluated from its reported factors and loss history; the reported step count may be the iteration index or "
  "the number of iterations; decisions within 1e-5 of the limit are not judged.",
  "property-based testing: invariants over training histories + split/whole metamorphic relation")

p("C05", "A model is a pure function of data, settings and seed",
  "Training twice with equal data values, settings and seed gives identical factors, losses and loss history, regardless of the memory "
  "layout or precision the data is passed in, of the global random state and of other models trained in between; different seeds give "
  "different random starts. The caller's arrays are never modified.",
  ["inputs", "configurations", "histories"], "every problem, both algorithms, both initialisations, user-given starts, any memory layout",
  TRAIN + "none trains twice or passes anything but C-ordered arrays.",
  ["esat/model/sa.py"], [("seeded generator", "esat/model/sa.py"), ("copying of inputs", "esat/model/sa.py")],
  "Equal layouts must agree bitwise; other layouts up to rounding, since the linear-algebra library may sum in another order.",
  "property-based metamorphic testing (same values, other representation / history)")

p("C06", "Initialisation honours shapes, positivity and user-given factors",
  "Initialising gives contributions and profiles of the requested shape, finite and with strictly positive profiles (and positive random "
  "contributions for the least-squares algorithm), for data with negative values or all-zero rows and columns too. Complete user-given "
  "profiles or contributions are used as given, with non-positive profile entries raised to a tiny positive value; a partial set of profiles "
  "is completed with random ones and the set is scaled per feature, keeping the given composition. Random starts follow the square root of "
  "the data, are reproducible from the seed, and the caller's matrices are not modified.",
  ["inputs", "configurations"], "every problem, factor count, algorithm, k-means or column-mean start, and user-given factors",
  "The tests initialise one dataset per route and only check that training then runs.",
  ["esat/model/sa.py"], [("SA.initialize", "esat/model/sa.py")],
  "All routes over random data; k-means starts only on data whose covariance is not singular.",
  "property-based testing with invariants and metamorphic relations")

p("C07", "Held profiles stay fixed exactly as long as requested",
  "When profiles are held, they are bitwise unchanged for the whole run or for the requested number of iterations after the first, while "
  "the contributions are still fitted; afterwards the run continues exactly as an ordinary one from that point. Without the request "
  "profiles are updated from the first iteration, and held least-squares runs never increase the loss.",
  ["inputs", "configurations", "histories"], "every problem, algorithm, start and delay",
  "No passing test holds profiles.",
  ["esat/model/sa.py", "esat/model/ls_nmf.py", "esat/model/ws_nmf.py"], [("hold_h / delay_h", "esat/model/sa.py")],
  "Held, delayed and free runs from one start are compared with each other bitwise.",
  "property-based testing over run histories (held run then free run as the oracle)")

p("C08", "Invalid input is refused and leaves no results",
  "Data or uncertainty or user-given factors with missing values or with shapes that do not fit are refused, by an error or by the "
  "documented failure value, before any training: the model holds no estimate, losses or convergence and its factors are unchanged. "
  "Valid input is accepted, and uncertainties that are zero or below the floor are raised to a positive floor so that all weights are "
  "the finite inverse squares of the uncertainty.",
  ["inputs", "fault_sequences"], "every single fault (position, matrix, kind) injected in a valid problem",
  "The tests inject no fault.",
  ["esat/model/sa.py"], [("SA.validate", "esat/model/sa.py"), ("uncertainty floor", "esat/model/sa.py")],
  "One fault per case; either form of refusal is accepted.",
  "property-based fault injection")

p("C09", "A batch is its models trained alone, and the best one is the best",
  "Batch training returns exactly the requested number of models in order, each reproducible on its own: the same data, settings and the "
  "model's recorded seed give the same factors and losses when trained alone, in a parallel batch, in a sequential batch, or in a larger "
  "batch with the same batch seed. The reported best model is the one with the smallest robust (or, if so requested, true) loss. "
  "Success is reported exactly when some model has a valid loss, and data that cannot be factorised is refused. A sequential batch given a "
  "limit of minutes ends without success once the training of a model took longer, and never otherwise; a progress callback changes no result.",
  ["inputs", "configurations", "schedules"], "every problem, algorithm, batch size, seed, user start, and sequential or parallel execution on 1-4 processes",
  "The tests train one or two small batches and only compare one loss value.",
  ["esat/model/batch_sa.py"], [("BatchSA.train", "esat/model/batch_sa.py"), ("best model selection", "esat/model/batch_sa.py")],
  "Parallel schedules are those the operating system produces; agreement is bitwise.",
  "property-based differential testing (sequential vs parallel vs stand-alone vs larger batch)")

p("C10", "Saved results load back unchanged; failures are reported, not raised",
  "A model, batch, bootstrap, displacement, BS-DISP, constrained model or simulation saved as a binary file is reported at the path where it "
  "was written and loads back as an equal object, from which training continues identically. Text output holds the same factors, estimates, "
  "residuals, tables and metadata, with the given feature labels, and reports the output directory. Saving to a relative or missing "
  "directory and loading a missing, relative, truncated or damaged file return nothing, never raise, and write no file.",
  ["inputs", "fault_sequences"], "every object kind, trained on every small problem, with or without labels, and every truncation point",
  "The tests save one model per kind and check only that a file exists.",
  ["esat/model/sa.py", "esat/model/batch_sa.py", "esat/error/bootstrap.py", "esat/error/displacement.py", "esat/error/bs_disp.py",
   "esat/rotational/constrained.py", "eval/simulator.py"],
  [("save/load", "esat/model/sa.py"), ("save/load", "esat/error/bootstrap.py"), ("save/load", "esat/error/displacement.py"),
   ("save/load", "esat/rotational/constrained.py")],
  "Damaged files are truncations, empty or plain-text files; arbitrary bytes are never unpickled.",
  "property-based round-trip testing with injected file damage")

p("C17", "Bootstrap datasets are consecutive blocks of the original samples",
  "Every bootstrap run is trained on exactly as many samples as the original data, each taken together with its own uncertainty from the original "
  "data at the recorded index. With block resampling the index list is a sequence of blocks of consecutive samples (at block boundaries, or "
  "anywhere when blocks may overlap) of the requested size, reduced to half the samples if larger, cut only at the end of the data or of the "
  "new dataset; every block, or single sample without block resampling, can be drawn, and runs draw independently. The base model is not "
  "modified.",
  ["inputs", "configurations", "histories"], "every data length, block size, resampling mode, seed and number of runs",
  "The tests run one block size on one dataset and look at no index.",
  ["esat/error/bootstrap.py"], [("_block_resample", "esat/error/bootstrap.py"), ("_resample", "esat/error/bootstrap.py")],
  "Coverage of blocks is statistical with a miss probability below 1e-11 per check.",
  "property-based testing: invariant parser over index histories + coverage of all blocks")

p("C18", "Bootstrap factors are mapped to the best correlated base factor and counted",
  "Every factor of every bootstrap run is mapped to the base factor with the highest squared correlation between the factors' feature "
  "concentrations (profile times summed contributions), and counts as mapped exactly if that correlation reaches the threshold. In the mapping "
  "table every bootstrap factor's mapped and unmapped runs add up to the number of runs, and the loss, profile, percentage and contribution tables list "
  "the values of the runs' own models in run order, which compiling the tables leaves unchanged.",
  ["inputs", "histories"], "every base model, number of runs, threshold and resampling; every pair of factor sets",
  "The tests look at no mapping.",
  ["esat/error/bootstrap.py"], [("map_contributions", "esat/error/bootstrap.py"), ("_build_table", "esat/error/bootstrap.py"),
                                ("_calculate_factors", "esat/error/bootstrap.py")],
  "Ties within 1e-4 in correlation, constant profiles and contributions that cancel are not judged.",
  "property-based differential testing against an independent mapping and table")

p("C19", "Bootstrap results are a function of base model, settings and seed",
  "Running the same bootstrap again, in parallel or sequentially, gives identical samples, models, mappings and tables; more runs extend the "
  "earlier ones without changing them; another bootstrap seed draws other samples and no seed means the base model's. Each run equals a model "
  "trained alone on its samples with the base model's training settings, starting from the base profiles if they are kept and from random ones otherwise, "
  "with the base model's seed if it is reused and with a seed of its own otherwise.",
  ["inputs", "configurations", "schedules"], "every base model, mode, seed, number of runs and schedule of the worker processes",
  "The tests run one configuration once.",
  ["esat/error/bootstrap.py"], [("run/_train", "esat/error/bootstrap.py"), ("_p_train", "esat/error/bootstrap.py")],
  "Bitwise agreement; schedules are those of the operating system.",
  "property-based differential testing (sequential vs parallel vs stand-alone vs longer run)")

p("C20", "Displacement bounds bracket the base profile at the loss change they claim",
  "For every factor, displaced feature and dQ level the recorded upper profile value is not below and the recorded lower value not above the base "
  "profile, the recorded loss change is that of replacing this one profile value while everything else stays fixed, and it lies within the "
  "threshold below the level whenever that level can be reached (otherwise the lower value is zero). Percentages and concentrations are those of the displaced "
  "value, the result table has one row per level, factor and feature holding exactly these bounds and the base values, features that were not displaced have "
  "no range, results do not depend on parallelism or on which other features are displaced, and the base model is not modified.",
  ["inputs", "configurations", "schedules"], "every trained base model, feature subset, threshold and search limit, sequential or parallel",
  "The tests run one displacement and check no bound.",
  ["esat/error/displacement.py"], [("increase / decrease search", "esat/error/displacement.py"), ("_compile_results", "esat/error/displacement.py")],
  "Loss changes are judged to float32 rounding; levels whose window is narrower than 20 times that are not judged; zero profile "
  "values are lifted to 1e-12 before displacing, as the code documents nowhere but does.",
  "property-based testing: every displacement re-evaluated independently; sequential vs parallel vs subset")

p("C21", "Factor swaps and loss drops come from the retrained displaced models",
  "The loss change recorded for a displacement is the loss of a model trained with the base model's settings from the displaced profiles minus "
  "the base loss, negative if the loss drops; the reported drop of an element is the largest drop of its two displacements, zero if neither drops. A swap is recorded exactly if some factor of that model correlates better with another base factor than with its "
  "own. The swap table counts these per dQ level and factor over both directions, the count table is the number of displacements, also when it is run again, and "
  "reports label each row with its own dQ level.",
  ["inputs", "configurations"], "every trained base model and feature subset",
  "The tests look at no swap.",
  ["esat/error/displacement.py", "esat/utils.py"], [("swap tables", "esat/error/displacement.py"), ("compare_all_factors", "esat/utils.py")],
  "Correlation ties within 1e-6 and constant profiles are not judged.",
  "property-based differential testing: each displaced model retrained independently")

p("C22", "BS-DISP is the envelope of the displacements of all bootstrap models",
  "BS-DISP runs the displacement of every bootstrap model, with its own dQ levels 4, 2, 1 and 0.5, and reports per row the largest upper and the smallest lower "
  "bound, the mean percentage and concentration, and the largest loss drop over all runs; swap tables are summed, and the numbers of runs with a loss drop, "
  "with a swap, and of factors not always mapped to themselves are counted, running it again repeats them. The result does not depend on how it is parallelised or on whether the "
  "bootstrap was run before or by BS-DISP itself.",
  ["inputs", "configurations", "schedules"], "every base model, bootstrap, feature subset and parallelisation",
  "No test runs BS-DISP.",
  ["esat/error/bs_disp.py"], [("run", "esat/error/bs_disp.py"), ("compile", "esat/error/bs_disp.py")],
  "Small models and up to four bootstrap runs.",
  "property-based differential testing (each run displaced alone, both parallelisations)")

DATA = "The repository's data tests load one fixed dataset and check its shape; "

p("C11", "Processed data are exactly the kept samples and features of the input",
  "The processed data and uncertainty handed to a model hold, in the original order, exactly the samples without a missing value in a kept feature (all samples "
  "if dropping is switched off) and the features that are neither dropped, nor location columns, nor categorised bad, as 32-bit values equal to the "
  "input, with the uncertainty of weak features tripled and zeros replaced by a tiny positive value. Categories can be changed at any time and only for known features; "
  "asking for the data again gives the same data, setting a feature back to strong restores it, and the loaded data are never modified.",
  ["inputs", "configurations", "histories"], "every data/uncertainty table with zeros and missing values, every sequence of category changes, dropped columns",
  DATA + "none sets a category, drops a column or has zeros or missing values.",
  ["esat/data/datahandler.py"], [("_set_dataset", "esat/data/datahandler.py"), ("set_category", "esat/data/datahandler.py")],
  "Tables up to 24 x 6 against an independent model of the processing; 'tiny' means at most 1e-12.",
  "property-based model-based testing over sequences of category changes")

p("C12", "Signal-to-noise, summary metrics and input plots describe the input data",
  "The signal-to-noise value of a feature is the sum of (data - uncertainty) / uncertainty over the samples whose value exceeds its uncertainty, divided by the number of "
  "samples, whatever the measuring unit; the summary metrics are the minimum, quartiles and maximum of the feature, and every feature starts as strong. The "
  "data/uncertainty, feature/feature, time series, correlation and histogram plots show exactly the input values of the selected features, the regression line is the "
  "least-squares line, ridgelines are the densities of the features having one, and unknown feature indices are refused. Time series leave out samples with a missing value.",
  ["inputs"], "every data/uncertainty table, also with missing values, and every pair of features",
  DATA + "no test looks at the metrics or a plot.",
  ["esat/data/datahandler.py"], [("_load_data metrics", "esat/data/datahandler.py"), ("plot methods", "esat/data/datahandler.py")],
  "Quartiles by linear interpolation; plots are intercepted instead of rendered.",
  "property-based testing against independently computed statistics")

p("C13", "Data loaded from files equal the same data loaded from DataFrames",
  "Loading comma- or tab-separated files, with the index column given by name or position or left to its default (the first column), gives the same features, sample labels, "
  "metrics, suggested block size, processed data and plotting data as loading the same tables as DataFrames. Missing files end the program with an error instead of "
  "a partial handler, and the files are not changed. With more samples than the plotting limit, the plotting data are for every feature the means of "
  "its quantile bins, at most as many as the limit, with the uncertainties averaged over the same bins.",
  ["inputs", "configurations"], "every table, delimiter, extension, index column and plotting limit",
  DATA + "both loading routes are tested only for the shape of one dataset.",
  ["esat/data/datahandler.py"], [("_read_data", "esat/data/datahandler.py"), ("load_dataframe", "esat/data/datahandler.py"), ("_aggregate_data", "esat/data/datahandler.py")],
  "Spreadsheet files are not covered (no reader installed); bin means are compared only for features without repeated values or values on a bin edge.",
  "property-based differential testing (file route vs DataFrame route)")

p("C14", "Splitting by location and merging keep every sample exactly once",
  "Splitting returns one handler per distinct location (latitude/longitude compared to five decimals, any other column by value, a missing location being one of its own), in order of first appearance, holding exactly that "
  "location's samples, recording the location, and treating neither location nor dropped columns as features, whether they hold numbers or names; data without location columns are not split. Merging "
  "appends this handler's samples to those of the others in the given order, labels each sample with its source, keeps the features and categories, and updates the metrics; "
  "handlers whose features or labels do not fit are refused and nothing changes. The merged data can be processed like any other.",
  ["inputs", "configurations"], "every table with location columns of any kind, every list of handlers",
  "No test splits or merges.",
  ["esat/data/datahandler.py"], [("split_locations", "esat/data/datahandler.py"), ("merge", "esat/data/datahandler.py")],
  "Up to four locations and three merged handlers.",
  "property-based testing against a group-by / concatenation model")

p("C15", "Imputation keeps observed values and fills missing ones by the chosen rule",
  "Imputing changes no observed value and leaves none missing: a missing value becomes the mean, median or most frequent value of its feature, or the (distance-weighted) mean of "
  "the requested number of nearest samples having that feature, or the result of a seeded iterative regression. Data and uncertainty are imputed separately, labels are kept, the mask marks "
  "exactly the cells missing in either, a marker value is treated like a missing value, unknown strategies are refused, the handler is not modified, and repeating gives the same result.",
  ["inputs", "configurations"], "every pair of tables with missing cells, every strategy, neighbour count, weighting and missing marker",
  "The repository's imputation tests do not pass (and check only the absence of missing values).",
  ["esat/data/impute.py"], [("DataImputer.impute", "esat/data/impute.py")],
  "Every feature keeps at least three observed values; ambiguous nearest neighbours are not judged; iterative results are judged by the invariants.",
  "property-based testing against independently computed imputations")

p("C16", "The suggested block size is the Politis-White optimal block length",
  "The suggested bootstrap block size is the mean over the features in use of the Politis-White (2004, corrected 2007) optimal circular block length, rounded down, at least one, and no longer than the "
  "smaller of three times the square root of and a third of the number of samples; it follows changes of the features in use, does not depend on the measuring unit, and each feature's length does not depend "
  "on the other features. Where it cannot be determined (a constant feature) it is a fifth of the number of samples.",
  ["inputs"], "every set of independent, autocorrelated, seasonal or skewed series and constant features",
  "No test looks at the block size.",
  ["esat/model/recombinator.py", "esat/data/datahandler.py"], [("optimal_block_length", "esat/model/recombinator.py"), ("_determine_optimal_block", "esat/data/datahandler.py")],
  "20 to 160 samples; the reference follows the published algorithm with the cut-off lag convention of the original Matlab port.",
  "property-based differential testing against an independent implementation of the published rule")

CON = "The repository has no test of constrained models; "
CM = "esat/rotational/constrained.py"

p("C23", "Constraints and expressions are registered, refused, listed and saved exactly",
  "A constraint is accepted exactly if its type and target are known, its index lies within the target matrix (profiles: factor x feature, contributions: sample x factor) and its element has no other "
  "constraint; it keeps its type, index, target and values under the label factor:I|feature:J or factor:I|sample:J. Expressions keep their order; removing removes exactly the "
  "named constraint or the expression at that index (an index out of range removes nothing). Listing and the saved metadata name exactly the registered ones. None of this touches the "
  "base model, and training without any produces no model.",
  ["histories"], "every sequence of additions (valid or not), removals, listings and saves, on models of every size",
  CON + "the registry's state is a property of histories.",
  [CM], [("add_constraint", CM), ("remove_expression", CM), ("save", CM)],
  "Sequences of up to 14 operations on models up to 5 x 5 with three factors.",
  "stateful property-based testing against a dictionary model")

p("C24", "Every constraint moves its element as documented, within its dQ limit",
  "Before every update of a constrained run, an element set to zero is zero, one set to its base value has the base model's value, one with limits has the nearest value within them; pulling to a value moves "
  "the element to its target if the loss Q(true) then changes by less than dQ, otherwise towards the target by as much as the limit allows; pulling down lowers and pulling up raises the element as far as the limit allows. No pull "
  "changes the loss by more than its limit, and no element without a constraint is touched. With the least-squares algorithm an element set to zero stays zero in the solution.",
  ["inputs", "histories"], "every base model, constraint type, element, value and limit, at every iteration",
  CON + "whether a pull keeps to its limit depends on data, element and limit.",
  [CM], [("_apply_constraints", CM), ("_pull_down_value", CM), ("_pull_up_value", CM), ("_pull_to_value", CM)],
  "Models up to 9 x 5 with three factors, one to three constraints, up to five iterations; 'as far as the limit allows' is judged to the documented search accuracy (0.01 in Q) and float32 rounding.",
  "property-based testing: the matrices handed to every update are intercepted and judged by the loss definition")

p("C25", "Expressions pull exactly the named elements within their loss budget",
  "An expression pulls only the elements it names, to non-negative values which solve all expressions together in the least-squares sense, and the loss after the pull exceeds the "
  "base model's by no more than the sum of the limits (otherwise nothing is pulled). A constraint on the same element takes precedence. The evaluation tables show, for every element, its index, target, "
  "base and solution value and, for every expression, its terms, limit and its value in the base model and in the solution.",
  ["inputs", "configurations"], "every set of expressions over profile and contribution elements, shared between expressions or not, with every coefficient and limit",
  CON + "the interplay of several expressions cannot be sampled by one example.",
  [CM], [("_map_expressions", CM), ("_apply_expressions", CM), ("evaluate_expressions", CM)],
  "One to three expressions of two to four terms. What value the sum of an expression is solved for is a known finding (C25-expression-total), any other deviation is reported.",
  "property-based testing against an independent parse and least-squares solution, plus invariants of every pull")

p("C26", "A constrained run reports exactly what it did and plots both models",
  "The reported true and robust losses and the estimate are those of the reported factors, the auxiliary loss is the squared distance of the factors from the pulled base factors divided by the squared softness, and the "
  "histories have one entry per iteration. Training stops at the first iteration at which Q(true)+Q(aux) changed by no more than converge_delta over the last converge_n iterations, which it reports as converged, or at the iteration "
  "limit. Settings are recorded, the base model is unchanged, and repeating the run repeats the result. Tables and plots show base and constrained values of the selected factors and "
  "features at the samples' times, without dropped samples and excluded features; contributions labelled avg=1 average to 1; unknown factors or features are not plotted.",
  ["inputs", "configurations"], "every base model, set of constraints, softness, convergence setting and iteration limit",
  CON + "the report and the stopping rule are statements about every run.",
  [CM], [("ConstrainedModel.train", CM), ("_Qaux_loss", CM), ("plot methods", CM)],
  "Up to 120 iterations on models up to 9 x 5; plots are intercepted instead of rendered.",
  "property-based testing: recomputation of the report from observed updates; plots compared with the factors")

SIM = "eval/simulator.py"

p("C27", "Synthetic datasets are what their description says",
  "The simulator's factors have the sizes asked for, contributions in [0, contribution_max] and profiles in (0, 1] (given profiles are used as given, and not modified); every cell of the data is the product of the factors, "
  "changed by noise within the range given per feature, in both directions, and, with probability outlier_p when outliers are enabled, multiplied or divided by outlier_mag alike; uncertainties are the given share of the data. Samples are one minute apart. "
  "Contribution curves (increasing, decreasing, logistic, periodic, uniform) change only their factor and run between minimum and maximum; later data follow them. The synthetic model holds these data, "
  "factors and their losses. The same seed gives the same datasets, and saved simulators and datasets load as saved.",
  ["inputs", "configurations"], "every seed, size, noise, outlier and uncertainty setting, every sequence of contribution curves",
  "The simulator has no test in the suite.",
  [SIM], [("generate_profiles", SIM), ("generate_data", SIM), ("update_contribution", SIM), ("save/load", SIM)],
  "Up to five factors, nine features and 60 samples; random shares are judged by binomial limits with error probability 1e-8.",
  "property-based testing: inverse reconstruction of the noise of every cell, statistical limits")

FCP = "eval/factor_comparison.py"
p("C28", "The factor comparison finds the mapping with the highest correlation",
  "Comparing a batch with known factors considers every one-to-one mapping between the known and the modelled factors (all of the smaller side) and reports, for every model with a result, the mapping with the highest average "
  "squared correlation of profiles (H), contributions (W), their products (WH) or the mean of the three averages (all), with the values of every pair, and as best model the one with the highest average. Models without a result are "
  "left out and the others keep their index. The report names the losses of both, PMF5 text files hold the same as tables, and the simulator's comparison (of a batch or its saved file) and plots show the mapped factors. Nothing compared is modified.",
  ["inputs", "configurations"], "every pair of factor sets, equal in number or not, every batch with or without gaps, every method",
  "The factor comparison has no test in the suite.",
  [FCP, SIM], [("FactorCompare.compare", FCP), ("FactorCompare.load_pmf_output", FCP), ("Simulator.compare", SIM)],
  "Up to four factors on either side and four models; constant factors (without correlation) are not generated.",
  "property-based testing against exhaustive enumeration of mappings")

p("C29", "Factors are mapped to a base model one to one, as closely as possible overall",
  "Against a base model, each model's factors are rated by squared correlation of contributions (corr), relative average absolute error of contributions (raae) and squared correlation of profiles (emc), per pair of "
  "base and model factor. The mapping for a measure assigns every base factor another model factor so that the sum of the measure is optimal (smallest for raae, largest otherwise), also when several base factors have the same closest factor, and reports the value of every mapped pair.",
  ["inputs"], "every base model and list of models, also with resembling or identical factors",
  "The mapping has no test in the suite.",
  [FCP], [("FactorCompareV2.determine_map", FCP), ("calculate_correlation_matrix", FCP)],
  "Up to five factors and three models.",
  "property-based testing against exhaustive enumeration of assignments")

FCA = "eval/factor_catalog.py"
p("C30", "The factor catalog groups factors by similarity and counts them",
  "A factor added to the catalog joins the cataloged factor it is closest to, on average over its members, if that similarity meets the threshold (raae: at most, corr and emc: at least), otherwise it starts a new one; by profiles only "
  "if asked. Every member is kept with its model and similarity. A batch is cataloged model by model, without missing and, if asked, outlying models. The table and summary count members and their share of the models seen. "
  "Queries return the closest cataloged factor and change nothing.",
  ["histories"], "every sequence of batches, models and single factors, every measure and threshold",
  "The catalog has no test in the suite.",
  [FCA], [("FactorCatalog.add_factor", FCA), ("FactorCatalog.add_batch", FCA), ("Factor.check", FCA)],
  "Up to four steps of up to four models with three factors.",
  "stateful property-based testing against a reference grouping")

PER = "eval/perturbation.py"
p("C31", "Perturbed models are trained on the stated perturbation and summarised as mapped",
  "A perturbation multiplies the uncertainty of the given share of every feature's cells by log-normal multipliers with median 1 and the given sigma and leaves the other cells; it follows from its seed and modifies nothing. Every perturbed model is "
  "trained from the base factors with the base method, its perturbed uncertainty and the convergence settings. After comparison the normalised factors, similarities, percentiles, table and plots are those of the "
  "factors mapped to each base factor.",
  ["inputs", "configurations"], "every dataset, base model, share, sigma (per feature or overall), comparison measure and seed",
  "Perturbation has no test in the suite.",
  [PER], [("Perturbation.perturb", PER), ("Perturbation.compare", PER)],
  "Up to four perturbed models of three factors; multipliers are judged on up to 200 samples with error probability below 1e-8.",
  "property-based testing: statistical limits, differential retraining, recomputation of the summaries")

p("C32", "The factor estimate rests on held-out cells and the stated scores",
  "Estimating the number of factors trains one model per sample, its number of factors drawn from the whole requested range, with the requested settings and only on the cells not held out; about test_percent of the cells are held out, anew for "
  "every sample. The table has one row per number of factors with the mean test and train error, Q(true) and Q(robust) of its models, empty if none was drawn, and the documented Delta MSE, Delta Ratio and K Estimate; the estimate is the "
  "number with the highest K Estimate, -1 without any, and the plot shows table and estimate. The seed determines the result; the data are not modified.",
  ["inputs", "configurations"], "every dataset, range of factors, number of samples, share, coefficient, convergence setting and seed",
  "The estimator has no test in the suite.",
  ["esat/estimator.py"], [("FactorEstimator.run", "esat/estimator.py"), ("FactorEstimator.plot", "esat/estimator.py")],
  "Up to four numbers of factors and 60 samples; the held-out cells are inferred from the errors, within the share's binomial limits (1e-9); that they are not trained on is judged by the errors on pure noise.",
  "property-based testing: recomputation from the trained models, binomial limits, metamorphic overfitting test")

p("C33", "Utilities: sampling interval, factor swaps, number encoding, memory estimate",
  "The sampling interval is the smallest positive step between successive times of a sorted index, expressed exactly in pandas frequency terms. The factor correlation is the squared correlation, and a swap is reported exactly if some factor correlates better "
  "with another factor than with its own. numpy numbers, arrays of which and booleans keep value and kind when written as JSON. The memory estimate covers the matrices, grows with every dimension, and the number of "
  "processes is the largest within cores and available memory, which are reported in the units printed.",
  ["inputs"], "every time index, pair of factor matrices, number, problem size, memory and core count",
  "No test looks at the utilities.",
  ["esat/utils.py"], [("min_timestep", "esat/utils.py"), ("compare_all_factors", "esat/utils.py"), ("np_encoder", "esat/utils.py"), ("memory_estimate", "esat/utils.py")],
  "The available memory is simulated.",
  "property-based testing against independently computed results")

ANA = "esat/data/analysis.py"
p("C34", "Model statistics and plots show what the model holds",
  "Feature metrics and residual statistics are those of the observed data in use, their uncertainty (weak features tripled) and the model's estimate. Every plot shows observations, estimates, residuals, profiles, contributions, fingerprints "
  "and shares of the factor, feature and samples it names, at their times (averaged over samples of the same time in lines over time), dropped samples and excluded features left out; the same in the returned and the shown figure. Factors are numbered from one, what does not exist is not plotted. "
  "Aggregated estimates are means over the samples of each bin of the data. Batch plots show every model with a result under its own number, the best one first visible. No plot changes the model.",
  ["inputs", "configurations"], "every dataset with missing samples, weak or excluded features and any order of samples, every model and plot",
  "No test looks at the analysis of models.",
  [ANA, "esat/data/datahandler.py"], [("ModelAnalysis", ANA), ("BatchAnalysis", ANA), ("aggregate_output", "esat/data/datahandler.py")],
  "Up to 40 samples, six features and four factors; figures are intercepted instead of rendered.",
  "property-based testing: intercepted figures and tables compared with the factors")

CLI = "esat/cli/esat_cli.py"
p("C35", "Every command of the command line does what the project's configuration says",
  "From setup to analysis, every command reads and writes the given project directory, relative or not and whatever characters its paths and values contain, and does what its configuration files say, values converted to their type (false is false, the index column is a name or a position, -1 selects "
  "the best model, base run setting, or determined block size and seed). run, run-constrained, run-error and the simulator commands save exactly what the library computes from the configured data, settings, constraints and features, constrained model or "
  "existing bootstrap; a simulator project trains on the saved data. Analysis commands show exactly what the library shows for the saved result of the selected model, feature, factor and method.",
  ["inputs", "configurations"], "every dataset and configuration, every command and option",
  "The command line has no test.",
  [CLI, "esat/configs.py"], [("run", CLI), ("run_error", CLI), ("run_constrained", CLI), ("get_sim", CLI), ("analysis commands", CLI)],
  "Projects of up to 24 samples, six features, three factors and models; commands run in process; figures are intercepted and pools inlined.",
  "property-based differential testing: command line against library calls")

p("C36", "Tables and plots of the error estimates show the results they name",
  "Every table and plot of a bootstrap, displacement or BS-DISP result, and the summary plot of any of them together, shows the values of the factor, feature and loss change it names: bootstrap shares, concentrations, losses and quantiles of all "
  "runs next to the base model, mapping counts, displacement ranges from lower to upper bound, swap percentages, the largest loss drop. Concentrations below 1e-4 are shown as 1e-4. An invalid loss change means the default one, a factor that does not exist "
  "is not shown, the summary needs a bootstrap or a displacement, and nothing shown changes the results.",
  ["inputs", "configurations"], "every base model, bootstrap, displacement and BS-DISP result, factor and loss change",
  "No test looks at the plots of the error estimates.",
  ["esat/error/bootstrap.py", "esat/error/displacement.py", "esat/error/bs_disp.py", "esat/error/error.py"],
  [("Bootstrap.plot_*", "esat/error/bootstrap.py"), ("Displacement.plot_*", "esat/error/displacement.py"), ("BSDISP.plot_*", "esat/error/bs_disp.py"), ("Error.plot_summary", "esat/error/error.py")],
  "Small models, up to five bootstrap runs; figures are intercepted instead of rendered.",
  "property-based testing: intercepted figures and tables compared with the results and models")

p("C37", "Arguments left out mean their published defaults",
  "Leaving out any optional argument gives exactly what passing its published default gives, whatever the other arguments: seed 42, column-mean initialisation, ls-nmf, at most 20000 iterations, convergence 0.1 over 100 (SA, batch of 20, best by robust loss); "
  "robust limit 4; bootstraps of 20 runs, blocks of 10, threshold 0.6, H kept, seed reused, blocks not overlapping; displacement of all features, 50 steps, 0.1; estimator 200 samples, 2 to 15 factors, 10% tested; 5 neighbours, 10 rounds, 1e-3, seed 42 "
  "in imputation; signal-to-noise 2; softness 1; pickles on for error estimates and batches, off for models; simulator, catalog, perturbation and plot settings as in their signatures.",
  ["inputs", "configurations"], "every subset of arguments left out, every value of the others, every dataset",
  "The tests pass nearly every argument, so a changed default goes unnoticed.",
  ["esat/model/sa.py", "esat/model/batch_sa.py", "esat/error/bootstrap.py", "esat/error/displacement.py", "esat/error/bs_disp.py", "esat/estimator.py", "esat/data/impute.py", "esat/data/datahandler.py", "eval/simulator.py", "eval/perturbation.py", "eval/factor_catalog.py"],
  [("SA.train", "esat/model/sa.py"), ("BatchSA", "esat/model/batch_sa.py"), ("Bootstrap.run", "esat/error/bootstrap.py"), ("FactorEstimator.run", "esat/estimator.py"), ("Simulator", "eval/simulator.py")],
  "Small datasets; the constrained training defaults and the catalog's Factor threshold are left out, as their documentation and signature disagree.",
  "property-based differential testing: omitted against explicit arguments")

p("C38", "The comparison with PMF5 output shows the given solutions",
  "For any number of factors, features and samples, every comparison figure shows, per solution (PMF5, LS-NMF, WS-NMF), the quantity it names of the given profiles and contributions: each factor's share in a feature, the fingerprints in percent and the "
  "normalised profiles with every factor placed at the PMF5 factor it is mapped to, the time series of a factor's estimate of a feature and the input at their times, daily means of estimate and data, and residuals with their minimum, mean, maximum and number of "
  "samples at or above the threshold. A feature that does not exist means the one at the given index; the given tables are not changed.",
  ["inputs", "configurations"], "every triple of solutions, mapping, feature, factor and threshold",
  "No test looks at the comparison.",
  ["esat/data/test_tools.py"], [("CompareAnalyzer", "esat/data/test_tools.py")],
  "Up to 30 samples, six features and nine factors; figures are intercepted instead of rendered.",
  "property-based testing: intercepted figures compared with the tables")
