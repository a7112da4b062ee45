T = "TLA+ (TLC): "
prop("C01", "structure command: every file accounted for, failures isolated",
     """A `beep structure` batch records, for every input file in order, whether it was valid and whether it was structured,
     writes one loadable structured file per success and none for a failure, and what it records and writes for a file
     does not depend on the other files of the batch. Without --halt-on-error a failing file never stops or alters the
     others; with it, or on an interrupt, the command stops there with a failure exit code, having kept what was finished
     before and touched nothing after. A command that cannot be carried out (missing input, wrong number of output names,
     outputs that would overwrite each other) is refused before any file is processed.""",
     ["fault_sequences", "configurations", "histories", "crash_points"],
     """Every sequence of good, invalid, unparsable, unstructurable, unwritable, unknown-format, interrupted and missing
     files, under every combination of --validation-only, --no-raw, --halt-on-error, --output-dir,
     --output-filenames and --output-status-json.""",
     "The tests run a handful of batches; which files fail, where in the batch and under which options is a combinatorial space.",
     ["beep/cmd.py", "beep/structure/cli.py", "beep/structure/base.py", "beep/structure/validate.py"],
     [("per-file loop, status accumulation, exit code", "beep/cmd.py:structure"),
      ("datapath auto-loading", "beep/structure/cli.py:auto_load")],
     "exit code, --output-status-json, files on disk before and after",
     T + "StructureBatch.tla is the batch machine; TLC checks isolation, prefix and refusal invariants over all batches up to a length, emits the batches, which are run through the real command, and StructureBatchTrace.tla judges exit code, status file and outputs of each run",
     "Exhaustive over batches of up to 3 files (4 thorough) and the option space; real runs sampled from it, plus random batches of up to 6.")
prop("C02", "featurize command: every pair accounted for, matrix holds the successes",
     """A `beep featurize` batch applies every requested featurizer to every structured file and records for each pair whether
     it was valid and whether it succeeded; one file or featurizer that fails does not affect the other pairs unless
     --halt-on-error asks to stop, in which case the exit code signals failure. The feature matrix written contains exactly
     the values of the successful pairs, and no matrix file exists when there is none. With --save-intermediates every
     successful featurizer is saved in its own file, and all outputs go where the options say.""",
     ["fault_sequences", "configurations", "inputs"],
     """Every assignment of outcomes (success, invalid inputs, exception) to files x featurizers, unloadable structured files,
     repeated featurizers, with and without --halt-on-error, --save-intermediates and the output options.""",
     "Tests run a few all-success batches; the outcome table of a batch is exponential in its size.",
     ["beep/cmd.py", "beep/features/base.py"],
     [("double loop, status accumulation", "beep/cmd.py:featurize"),
      ("join of the successful featurizers", "beep/features/base.py:BEEPFeatureMatrix")],
     "exit code, --output-status-json, matrix and intermediate files on disk",
     T + "FeaturizeBatch.tla is the batch machine; TLC checks accounting and isolation over all outcome tables, emits them, and FeaturizeBatchTrace.tla judges the real command's exit code, status file and outputs for each",
     "Exhaustive over 2 files x 2 featurizers (3 x 2 thorough); the real command is run on a sample of several hundred, all option combinations.")
prop("C06", "Maccor-to-BioLogic conversion preserves execution and cycle numbers",
     """For every accepted Maccor procedure, the BioLogic settings file executes the same measurement steps in the same
     order (loops unrolled, nested loops as looping techniques) with the same control mode, direction, set points, end
     conditions, GOTO targets and reporting conditions, end conditions outside the configured safety limits removed and the
     safety limits and technique count in the header. Numbering the instrument's rows with the emitted rule files gives
     exactly the cycle number the Maccor AdvCycle steps give. A GOTO that leaves its loop or technique, or more than three
     end conditions, is refused, and a representable procedure is never refused.""",
     ["programs", "inputs"],
     """Every Maccor procedure over charge/discharge/rest steps with optional limits, AdvCycle, two levels of loops,
     up to three end and report conditions, fractional times; every safety-limit setting.""",
     "Tests convert two fixed procedures and a few hand-made fragments; loop nests, AdvCycle placements and GOTO targets are unbounded.",
     ["beep/protocol/maccor_to_biologic_mb.py"],
     [("MaccorToBiologicMb.convert", "beep/protocol/maccor_to_biologic_mb.py"),
      ("cycle advancement rules", "beep/protocol/maccor_to_biologic_mb.py:_create_cycle_advancement_rules"),
      ("row numbering", "beep/protocol/maccor_to_biologic_mb.py:add_cycle_nums_to_csvs")],
     "the .mps settings file and rule files written by convert(); cycle_index written by add_cycle_nums_to_csvs",
     T + "two abstract machines (Maccor, BioLogic) in CyclerPrograms.tla run in lockstep; TLC enumerates all programs up to a length, emits them for conversion by the real code, and MaccorBiologicTrace.tla validates the real output step by step",
     "Exhaustive over program skeletons up to 6 steps (8 thorough); plus random programs of up to 16 (30) steps.")
prop("C14", "Feature matrix: one row per cell, no feature lost, mixed or overwritten",
     """Joining featurizers yields one row per structured file and one column per feature, featurizer class and hyperparameter
     set, each value in the row and column it was computed for and nothing else, whatever the number and order of the
     featurizers; the featurizers themselves are left unchanged. Inputs that cannot be joined without ambiguity (the same
     feature of the same featurizer and hyperparameters twice for a file, no structured file, no or more than one row of
     features) are refused with a feature-matrix error. Writing a matrix to JSON and reading it back gives an equal matrix.""",
     ["inputs", "histories"],
     """Every multiset and order of featurizer results over files, classes, hyperparameter sets (including equal ones in a
     different key order) and feature sets.""",
     "Tests join a few fixed featurizers; collisions and misplacement depend on which ones are joined and in which order.",
     ["beep/features/base.py"],
     [("BEEPFeatureMatrix.__init__", "beep/features/base.py"), ("as_dict / from_dict", "beep/features/base.py")],
     "BEEPFeatureMatrix.matrix, raised errors, reloaded JSON",
     T + "FeatureMatrix.tla defines the joined matrix as a set of cells; TLC checks confluence over all join orders and emits result sequences; FeatureMatrixTrace.tla judges the matrix the real code builds and reloads, cell by cell",
     "Exhaustive over up to 3 (4 thorough) results; real joins of all sequences of 2 and random ones of up to 10.")
BASE = "beep/structure/base.py"
prop("C11", "Datapath life cycle: results always match raw data, parameters and diagnostics",
     """Whatever sequence of setting a diagnostic, structuring, unstructuring, saving and loading a datapath goes through, its
     structured tables are exactly those its raw data give with the parameters and diagnostic recorded with them, or there
     are none; a structuring that fails changes nothing and raw data and metadata are never altered. A saved file, plain or
     gzipped, loads back to the same tables, parameters, diagnostic and metadata, and to the same raw data when saved with
     them. A datapath loaded without raw data is readable but refuses to be structured, unstructured, validated or saved,
     and queries that need structured data are refused before structuring.""",
     ["histories", "configurations"],
     """Every sequence of operations over several parameter sets, diagnostics and files, including failed structurings and
     loading through the class or through generic JSON decoding.""",
     "Tests exercise single save/load and structure calls; stale or mixed results only appear after particular sequences.",
     [BASE, "beep/structure/diagnostic.py"],
     [("structure / unstructure", BASE), ("as_dict / from_dict / to_json_file / from_json_file", BASE),
      ("must_be_structured, must_not_be_legacy", BASE)],
     "is_structured, the four structured tables, structuring_parameters, diagnostic, raw_data, errors raised",
     T + "DatapathLife.tla is the life-cycle machine; TLC checks it exhaustively to depth 7 (10 thorough), emits all histories of length 3 and simulated long ones, and DatapathLifeTrace.tla judges every step of each history run on the real class",
     "Several hundred histories (thousands thorough); content is compared with freshly computed references for every parameter/diagnostic pair.")
prop("C12", "Diagnostic cycles are separated, labelled and interpolated step run by step run",
     """Every cycle of a run is either regular or of exactly one diagnostic type, as given by the configuration or matched
     exactly/by containment from step numbers, with ambiguous, empty or ill-typed configurations refused and the HPPC, RPT and
     reset sets, types and parameters surviving serialization. Diagnostic cycles never appear among the regular results and
     regular ones never among the diagnostic. Each contiguous run of a step with at least two points in a diagnostic cycle is
     interpolated separately, in order, on voltage (time if the voltage does not move) over its own range at the requested
     resolution, with correct step number, run counter, step order, cycle type and dQ/dV.""",
     ["inputs", "configurations"],
     """Every run (cycles, repeated and non-contiguous step numbers, single points, rests), every assignment of cycles to
     diagnostic types including cycles not reached yet, every set of matching rules.""",
     "Tests use a few real files; how steps repeat inside a cycle and which cycles are diagnostic varies with every protocol.",
     [BASE, "beep/structure/diagnostic.py"],
     [("DiagnosticConfig", "beep/structure/diagnostic.py"), ("interpolate_diagnostic_cycles", BASE)],
     "diagnostic_data, structured_data/summary cycle sets, DiagnosticConfig attributes and JSON",
     T + "CellRun.tla defines runs, step order and interpolation, DiagConfig.tla the partition; TLC proves them consistent with a streaming cycler on all small runs, emits runs and configurations, and CellDiagTrace.tla / DiagConfigTrace.tla judge the real results point by point",
     "Exhaustive runs of up to 2 cycles x 2 steps or 1 x 4; random runs of up to 5 cycles; thousands of configurations.")
prop("C17", "Cycle life and capacity tables answer the threshold question exactly",
     """The cycle life is the index of the first cycle whose discharge capacity reached the given fraction of the reference
     capacity (median of the first cycles, nominal in shorter runs) if the run ends at or below it, and one more than the
     number of cycles otherwise. The table of capacities has one column per requested cycle with that cycle's capacity or
     zero beyond the run, and the table of cycles has one column per requested threshold with that threshold's cycle life.
     The answers are the same before and after saving the datapath, and refused before structuring.""",
     ["inputs", "histories"],
     "Every capacity history (fading, noisy, recovering, ending exactly on a threshold), numbering, cutoff, threshold grid and cycle grid.",
     "Tests query one cell with default grids.",
     [BASE], [("get_cycle_life", BASE), ("cycles_to_capacities / capacities_to_cycles", BASE)],
     "return values of the three queries before and after a save/load",
     T + "CycleLife.tla defines life and tables; TLC checks it against an online detector and emits all short capacity histories; CycleLifeTrace.tla judges the real answers before and after reload",
     "Exhaustive histories of up to 4 cycles (6 thorough, model only) over four capacities; random ones of up to 90 cycles.")
prop("C18", "Regular cycles: every step interpolated once, with the right type and values",
     """Every step with at least two points of every regular, not excluded cycle appears exactly once in the interpolated data,
     labelled with its cycle, step number and charge or discharge type as its capacities show (the configured default when
     neither moves), and nothing else appears. Its points form the uniform grid of the requested resolution over the axis
     range (given voltage range, capacity range of the run, or time span of the step, which is also used when a waveform step
     is present). Every quantity at a grid point lies on the straight line between the neighbouring measurements of that
     step, and outside the measured range it is missing or held at the boundary, never extrapolated.""",
     ["inputs", "configurations"],
     """Every run (numbering, gaps, repeated steps, rests, two-point steps, raw-data index), every choice of axes, range,
     resolution, exclusions and diagnostic cycles.""",
     "Tests check shapes and a few values on fixed files; which cycle, step and neighbour a value comes from is unbounded.",
     [BASE], [("interpolate_cycles / interpolate_step / interpolate_df", BASE), ("step_is_chg_state", BASE)],
     "structured_data",
     T + "CellRun.tla defines step typing and the admissible value at every grid point; TLC checks it on all small runs and emits them; CellInterpTrace.tla judges every interpolated value of the real result in integer arithmetic",
     "1200 runs per quick check (20000 thorough), every point and column of each.")
prop("C23", "Cycle summaries: one correct row per cycle",
     """The summary of a structured run has exactly one row per regular cycle in order, the diagnostic summary one per
     diagnostic cycle with its type, and the last regular cycle is left out exactly when it is incomplete and not the only
     one. Each row's capacities, energies, resistance, temperatures, start date, efficiencies, throughputs, charge duration,
     time-temperature integral, longest pause and constant-voltage statistics are those of that cycle's own rows, wherever
     the cycle numbering starts and whatever gaps it has.""",
     ["inputs", "configurations"],
     """Every run: cycle numbering with offsets and gaps, pauses, missing charge or discharge, erroneous energies,
     constant-voltage phases anywhere, diagnostic cycles anywhere including at the end.""",
     "Tests compare a few columns on fixed files with contiguous numbering.",
     [BASE], [("summarize_cycles", BASE), ("summarize_diagnostic", BASE), ("get_CV_segment_from_charge", BASE)],
     "structured_summary and diagnostic_summary",
     T + "CellRun.tla defines every summary quantity declaratively; TLC proves it equal to a streaming summarizer on all small runs and emits them; CellSummaryTrace.tla judges every column of every row of the real summaries",
     "1200 runs per quick check (20000 thorough).")
prop("C15", "Linear models: clean training data, right predictions, faithful reload",
     """A linear model experiment trains on exactly the features and samples that meet its thresholds of present (not missing
     or infinite) values, imputed as asked and matched to their targets by file, refusing what cannot be trained on.
     Predicting, any number of times and on any matrix that has the model's features in any order, gives for every sample
     with enough of them the value of the trained model, names exactly the samples dropped, ignores other columns, changes
     neither matrices nor later predictions, and is refused when untrained or when features are missing. A saved and
     reloaded experiment has the same settings, data and predictions.""",
     ["inputs", "configurations", "histories"],
     """Every matrix with missing and infinite values, every threshold, imputation, model type and target order, and every
     history of training, scoring, predicting, saving and loading.""",
     "Tests train on one complete matrix and predict on it once; missing values, thresholds and histories are not explored.",
     ["beep/model.py", "beep/features/base.py"],
     [("cleaning", "beep/model.py:BEEPLinearModelExperiment.__init__"), ("train, predict", "beep/model.py"),
      ("as_dict / from_dict", "beep/model.py")],
     "X, y, feature_labels of the experiment; returned predictions, dropped samples and errors; reloaded experiment",
     T + "LinearModel.tla defines cleaning, imputation and prediction over integers; TLC checks exactness and order independence over all small matrices and histories; LinearModelTrace.tla judges real experiments on noise-free linear data, where the right prediction is an integer",
     "Exhaustive over 3x2 matrices; about 2000 (25000) real experiments with up to 7 operations on up to 8x4 matrices; values decided for ridge, consistency for lasso and elastic net.")
prop("C24", "train and predict commands do what their options say",
     """`beep train` writes a model trained with exactly the options given and the defaults for the others, and `beep predict`
     writes exactly the predictions of the saved model on the given matrix, with the sample threshold given overriding the
     model's. The status file tells whether a model or predictions were created and where, with a traceback when not; a
     command that fails creates and changes no output and, with --halt-on-error, exits with a failure code. Options that
     contradict each other and files that do not exist are refused.""",
     ["configurations", "fault_sequences", "histories"],
     """Every combination of training and prediction options (thresholds including zero, alpha range, l1 ratios, imputation,
     folds, iterations, homogenization), of failures and of successive commands on one model file.""",
     "The tests of these commands need data files that are missing, and use one option set each.",
     ["beep/cmd.py", "beep/model.py"],
     [("option handling, status", "beep/cmd.py:train"), ("threshold override, status", "beep/cmd.py:predict")],
     "exit code, --output-status-json, model and prediction files on disk",
     T + "TrainPredict.tla is the session machine (model file = settings of the last successful training); TLC checks it over sessions of 3 commands and emits sessions, TrainPredictTrace.tla judges exit code, status and files after every real command",
     "Exhaustive over sessions of 3 commands with single-option deviations; 540 (6000+) real sessions, with random option combinations.")
prop("C16", "Train/test splits never leak samples or groups and lose none",
     """A data splitter keeps exactly the features and samples that meet its thresholds of present values, imputed as asked,
     leaves out every sample an exclusion column excludes (or does not answer for), every group of which too few samples
     are left, and every sample without its targets, and refuses data nothing usable is left of. It splits what is left
     into the number of folds asked, each sample tested exactly once and otherwise trained on, the samples of a group
     never on both sides, folds balanced, values unaltered. Splitting again and saving and loading give the same splits
     and settings.""",
     ["inputs", "configurations", "histories"],
     """Every matrix of features, targets, split and exclusion columns with missing and infinite values, every threshold,
     fold count and random state.""",
     "Tests split one matrix of six cells; leakage depends on which groups, exclusions and missing values meet.",
     ["beep/prediction/beep_data_splitter.py"],
     [("cleaning and exclusion", "beep/prediction/beep_data_splitter.py:BEEPDataSplitter.__init__"),
      ("folds", "beep/prediction/beep_data_splitter.py:BEEPDataSplitter.split"), ("as_dict / from_dict", "beep/prediction/beep_data_splitter.py")],
     "X, y, datasets of the splitter, reloaded splitter",
     T + "DataSplit.tla defines the usable samples and what a split must satisfy; TLC deals groups to folds in every order over all small matrices; DataSplitTrace.tla judges the splits the real code makes and reloads",
     "Exhaustive over matrices of 3 samples (4 thorough, 3 folds); 2000 (26000) real splitters of up to 8 samples. Split columns are complete.")
prop("C13", "Validation accepts exactly the data that satisfy their schema",
     """Cycler data are valid if and only if every column the schema names is there, has the required type (integer columns hold
     only whole numbers and nothing missing), has no value beyond its minimum or maximum, reaches the required levels and never
     decreases where it has to increase; a refusal names a column that fails, with limit and value, and validating changes
     nothing and never depends on row labels, column order, letter case or unrelated columns. A file is held to the limits of its cycler and project (the default of the cycler otherwise), also after the datapath was saved and loaded.""",
     ["inputs", "configurations"],
     """Every combination of rules, column types, missing values, values at, inside and just beyond each limit, absent columns
     and empty data; every shipped schema, cycler and project name.""",
     "Validity is a conjunction over unboundedly many values and rules; tests try a handful of files.",
     ["beep/structure/validate.py", "beep/structure/base.py", "beep/structure/arbin.py", "beep/structure/maccor.py", "beep/validation_schemas"],
     [("the rules", "beep/structure/validate.py:SimpleValidator"),
      ("schema of a datapath", "beep/structure/base.py:BEEPDatapath.validate"),
      ("schema by project", "beep/structure/maccor.py:MaccorDatapath.from_file")],
     "verdict and reason of SimpleValidator.validate and datapath.validate, data before and after",
     T + "Validate.tla defines validity and the shipped limits; TLC checks column-wise decision, order independence, persistence and explanation over all small data sets and schemas, emits them, and ValidateTrace.tla judges the verdicts of the real validator on them, on random data, and on raw files and saved datapaths",
     "Model: columns of up to 2 rows (3 thorough) over 6 values under 194 schemas; 2700 real validations per quick run, 60 000 thorough. Text in a column that has limits but no type rule is not covered.")
prop("C03", "protocol command: one correct file per row, failing rows isolated",
     """For every row of a parameter csv, `beep protocol` (and generate_protocol_files_from_csv) either writes the one protocol
     file of that row and lists it in the result and the names file, in row order, or reports the row as failed with a reason
     and leaves what is on disk alone; the files of a row depend on that row and its position only. No row replaces the
     protocol or the waveform file of another row of the batch. Without --halt-on-error the command writes its status file and exits 0
     whatever rows failed; with it, on an interrupt, or when csv or output directory is missing, it exits with a failure code.""",
     ["fault_sequences", "inputs", "configurations"],
     """Every sequence of rows that are generated, cannot be generated (unknown template, parameter set or format, missing or unusable
     values, unwritable output), ask for the same file or the same waveform file, or are interrupted; API and command line.""",
     "Tests generate fixed csv files in which no row fails; which rows fail or collide, where, and with which neighbours is combinatorial.",
     ["beep/protocol/generate_protocol.py", "beep/cmd.py", "beep/protocol/maccor.py"],
     [("row loop, failures, names file", "beep/protocol/generate_protocol.py:generate_protocol_files_from_csv"),
      ("status file and exit code", "beep/cmd.py:protocol")],
     "returned lists and messages, exit code, --output-status-json, every file below the output directory",
     T + "ProtocolBatch.tla is the batch machine; TLC checks isolation, accounting and first-come invariants over all batches up to a length, emits them, and ProtocolBatchTrace.tla judges files, results and status of the real runs; the content of each file is compared with the file the same row gives when all others are skipped",
     "Exhaustive over batches of up to 3 rows (abstract kinds); real runs sampled from it plus random batches of up to 12 rows.")
prop("C21", "Generated protocols contain exactly the requested parameters",
     """In every protocol generated from a parameter row (Maccor diagnostic V2 to V5 and EXP, BioLogic formation, Arbin fast charge)
     each set point, limit, time and loop count is the requested value in the unit of its field (C rates times nominal capacity, times
     from quotients, the initial rest from the row's position), and every other field is that of the template. Editing a given procedure
     (EXP rates, skip-to-end limits, waveform steps) changes exactly the fields it is about in every step they apply to.
     A request that cannot be run (charge limit not above the discharge limit, and the like) is refused.""",
     ["inputs", "programs"],
     """Every value of the parameters (days-long rests, rates from C/30 to 3 C, any capacity, loop counts), every diagnostic parameter
     set, row positions beyond one rest period, and procedures derived from the templates by deleting, repeating and swapping steps.""",
     "Tests compare a few fields of a few rows; the mapping has about 150 fields per protocol and any value in each.",
     ["beep/protocol/maccor.py", "beep/protocol/biologic.py", "beep/protocol/arbin.py", "beep/protocol/generate_protocol.py"],
     [("insert_* and generate_procedure_*", "beep/protocol/maccor.py:Procedure"),
      ("formation_protocol_bcs", "beep/protocol/biologic.py:Settings"), ("from_fast_charge", "beep/protocol/arbin.py:Schedule")],
     "the generated .000, .mps and .sdu files, read by independent parsers",
     T + "ProtocolParams.tla gives the table field -> value as a function of the parameters (and of the edit) ; TLC checks the table is single-valued and its blocks agree, and ProtocolParamsTrace.tla judges every field of every generated file",
     "Random parameters over wide ranges (several thousand files thorough); times from quotients to the nearest second, currents to the written digits.")
prop("C04", "Maccor files: capacities accumulate over the steps of their own cycle",
     """Reading a Maccor file, the charge and discharge capacity and energy of every row are what was charged or discharged in its
     cycle up to that row: the quantities of the ended steps of the same cycle plus that of the step so far (from the waveform
     columns where filled in), never decreasing within a cycle, starting at zero with a new one, unaffected by suspended rows or
     end codes inside a step. Every other column is that of the file, times are those of the Pacific clock, date-only stamps
     midnight, and the metadata, channel and validation schema are those of the header line and the file name.""",
     ["histories", "inputs"],
     """Every sequence of charge, discharge, rest, suspended and waveform rows with any end codes, over any steps and cycles,
     repeated step numbers included; every metadata line, extension and project name.""",
     "The sample files with accumulated quantities are missing and hold single patterns of steps; how steps, end codes, suspensions and cycles interleave is unbounded.",
     ["beep/structure/maccor.py", "beep/conversion_schemas/maccor_conversion.yaml"],
     [("quantity_sum", "beep/structure/maccor.py:MaccorDatapath.quantity_sum"),
      ("metadata, time stamps", "beep/structure/maccor.py:MaccorDatapath.from_file")],
     "raw_data, metadata and schema of MaccorDatapath.from_file",
     T + "Ingest.tla gives the meter of a direction as a machine over rows (base, step so far); TLC checks on all programs of up to 3 segments that it reads what the segments passed, and emits them; IngestTrace.tla runs the machine along every real file the real reader read",
     "Exhaustive over programs of 3 segments of 4 kinds (99147 states); 900 real files quick, 9000 thorough.")
prop("C05", "BioLogic files: cycle numbers follow the conversion rules, units are right",
     """Reading a BioLogic file, comma or tab format, every row has the cycle number that its own cycle column gives, else the one
     that the rules of the converted protocol give (starting and looping advances, advances at sequence transitions, each counted
     once), else the instrument's cycle count, whatever the order of the columns and the length of the header.
     All other columns are those of the file in volt, ampere, ampere and watt hours, with UTC times, and channel, comment and
     a fingerprint of the cycle definition are those of the header.""",
     ["histories", "inputs"],
     """Every sequence of sequence numbers and loop counts, every set of rules, column order and header; with and without rules,
     loop column and cycle column.""",
     "The tests read one shortened file without rules and number one hand-made frame.",
     ["beep/structure/biologic.py", "beep/conversion_schemas/biologic_conversion.yaml"],
     [("get_cycle_index", "beep/structure/biologic.py:get_cycle_index"),
      ("parsing", "beep/structure/biologic.py:BiologicDatapath.from_file")],
     "raw_data and metadata of BiologicDatapath.from_file",
     T + "the numbering machine of Ingest.tla (CycleStep) is run by IngestTrace.tla along every real file; the runs are TLC's programs plus random longer ones rendered in both formats with random rules",
     "900 real files quick, 9000 thorough; programs of up to 3 segments exhaustive in the model.")
prop("C09", "Arbin, Neware, Indigo, Novonix and Battery Archive files are read faithfully",
     """Reading a file of these cyclers gives one row per record, in order, every quantity in its standard column and unit, with the
     instant it was recorded, and metadata and schema as file and name say; the files are left unchanged.
     What the file does not hold is derived: the running time from step times and the last known resistance (Neware), steps and
     step times from the sign of the current (Battery Archive), charge and discharge from half cycles (Indigo) and from a counter
     that counts down while discharging (Novonix).
     Files with more than one cell (Indigo) or unknown step types (Novonix) are refused.""",
     ["histories", "inputs"],
     """Every sequence of charge, discharge and rest segments over any cycles and steps, column orders, block layouts, header
     lengths, missing resistances, optional columns and metadata files.""",
     "Most sample files are missing; those there hold one short run each.",
     ["beep/structure/arbin.py", "beep/structure/neware.py", "beep/structure/indigo.py", "beep/structure/novonix.py",
      "beep/structure/battery_archive.py"],
     [("from_file of each datapath", "beep/structure")],
     "raw_data, metadata and schema of each from_file",
     T + "one machine per format in Ingest.tla (clock, step start, half cycles, down counter); TLC checks the clock against the true time for all programs of up to 3 segments; IngestTrace.tla runs them along every real file",
     "260 real files per format quick, 2600 thorough.")
prop("C10", "Every file goes to the reader of its format and saved runs come back",
     """A raw file is read by the reader its name says, by the first format whose pattern the whole file name (not its
     directory) matches, and refused if there is none. A run of any cycler can be structured, saved (plain or gzipped, with or without raw
     data) and loaded again without naming its class: it comes back as the same class with the same tables, identification
     and parameters and knows where it was loaded from; older files without a class come back as Arbin runs, anything else is refused.""",
     ["inputs", "configurations"],
     """Every name over the tokens of all patterns (endings, digits, markers), in any directory; every format, save option
     and kind of processed file.""",
     "Tests load a few well-named files; names that match several patterns or nearly match, and saving for each cycler, are not covered.",
     ["beep/structure/cli.py", "beep/structure/base.py", "beep/conversion_schemas"],
     [("auto_load, auto_load_processed", "beep/structure/cli.py"),
      ("as_dict, from_dict", "beep/structure/base.py:BEEPDatapath")],
     "class, tables and paths of the objects returned; ValueError/TypeError",
     T + "Dispatch.tla defines the formats of a name over its characters; TLC checks disjointness and prefix invariance over all names of up to 4 tokens and emits those of 3, real files of the expected format are written under them and auto-loaded; DispatchTrace.tla judges the class, and saved runs against their state before",
     "Exhaustive over names of 4 of 18 tokens in the model, several hundred real files quick, all classes x save options.")
prop("C19", "Splicing the files of an interrupted Maccor run gives the file of one run",
     """Joining two Maccor files gives the rows of the first and then those of the second, with the columns and the header line of
     the first file, and the readers read it. Record, cycle, time and loop counters that were started again in the second file
     (its first value is smaller than the last of the first file) go on from the last value of the first; all other values, counters that
     were not restarted, and both input files stay as they are. Joining any number of files one after the other gives the run as it would
     have been recorded without the interruptions, with counters that never decrease.""",
     ["histories", "inputs"],
     "Every run, interrupted at any rows any number of times, each counter restarted or not and at any value.",
     "Tests compare the record numbers of one pair of files.",
     ["beep/utils/splice.py"],
     [("MaccorSplice.run_splice", "beep/utils/splice.py:MaccorSplice")],
     "the file written; MaccorDatapath.from_file of it",
     T + "Splice.tla; SpliceMC.tla interrupts a counting test at every point and TLC checks that joining gives back the uninterrupted counter; the files of every emitted history are written and joined by run_splice, and SpliceTrace.tla judges every column",
     "Up to 3 files of up to 4 rows exhaustively; about 120 real runs quick, all 7 counters with their own history.")
prop("C20", "Waveforms make the cycler do, second by second, what the profile says",
     """Going through the lines of a waveform file gives the profile it was made of second by second: its values scaled so that the largest
     is the configured one (to 5 decimals), charging above zero and otherwise discharging, with the limits and ends of that direction, in
     no more lines than needed, and without changing the profile. Drive cycle power follows from velocity by the vehicle model, and the waveforms
     of driving and charging parameters are the repeated drive cycle or the charge with the limits of those parameters.
     A rapid charge passes each window of state of charge at its rate, delivers the same charge smoothly as stepwise in the same time
     within the rate limits, and refuses windows that do not increase.""",
     ["inputs", "configurations"],
     "Every profile, scale and configuration; velocities in any unit and on uneven times; any windows and rates.",
     "Tests compare two drive cycles with reference files and one set of windows by aggregate numbers.",
     ["beep/protocol/maccor.py", "beep/utils/waveform.py"],
     [("generate_maccor_waveform_file, insert_driving_parametersv1, insert_charging_parametersv1", "beep/protocol/maccor.py"),
      ("convert_velocity_to_power_waveform, RapidChargeWave", "beep/utils/waveform.py")],
     "lines of the .MWF files; power and currents returned",
     T + "Waveform.tla: run-length machine, vehicle power and windows; TLC checks over all profiles of up to 6 samples that expanding the lines gives the profile back and that no shorter file does; every profile of up to 4 samples, random ones, velocity files and parameter rows run through the code, WaveformTrace.tla judges the files written",
     "About 1000 real waveforms quick; vehicle power within a few watts, charge within 1.5 % of the window range.")

prop("C22", "Procedures, schedules and settings survive editing, writing and reading back",
     """A Maccor procedure, Arbin schedule or BioLogic settings file read, edited and written holds exactly the fields of the source, in their
     order, with exactly the edits applied: set, unset and merge by path, values of steps and stop limits by label (first or all), step
     values by number only when the type matches. Reading the written file gives the edited document back whatever the values contain
     (delimiters, brackets, markup, other words of the format), and writing neither changes the document nor any other line of the file.
     A file that is not edited is written as it was.""",
     ["inputs", "histories"],
     "Every document of the three formats with any values, every sequence of edits with saves in between.",
     "Tests write the shipped templates back and set one or two known steps.",
     ["beep/protocol/arbin.py", "beep/protocol/biologic.py", "beep/protocol/maccor.py", "beep/utils/__init__.py"],
     [("Schedule.from_file, to_file, set_labelled_steps, set_labelled_limits", "beep/protocol/arbin.py"),
      ("Settings.from_file, to_file", "beep/protocol/biologic.py"),
      ("Procedure.from_file, to_file, modify_step_value", "beep/protocol/maccor.py"),
      ("DashOrderedDict set, unset, merge, get_path", "beep/utils/__init__.py")],
     "the document object and the bytes of the files written",
     T + "DocEdit.tla: documents as ordered fields and the edit operations; TLC checks over all small schedules and operation sequences that edits touch nothing else and are idempotent; every one is rendered as a file and replayed, with random documents and the shipped templates of the three formats; DocEditTrace.tla judges the object, the bytes written (read by own parsers) and what is read back",
     "About 850 documents quick. Values with outer blanks, BioLogic values of 20 or more characters and procedures of one step are not covered.")
prop("C07", "A Maccor procedure becomes an Arbin schedule that does the same",
     """The Arbin schedule made of a Maccor procedure passes through the same steps in the same order with the same cycle numbers, whichever
     end condition is met first and however often loops of any of the four levels are repeated or left. Every step keeps its mode,
     set point with the sign of its direction, voltage or current limit, all its end conditions and all its reports with their values,
     times in seconds. What an Arbin schedule cannot express is refused without leaving a file; converting leaves the procedure as it was.""",
     ["inputs", "histories"],
     "Every procedure of measuring, rest, loop (nested, four levels), advance and end steps, any end conditions, reports and time notation.",
     "Tests compare single converted steps and one whole procedure field by field.",
     ["beep/protocol/maccor_to_arbin.py", "beep/protocol/arbin.py"],
     [("ProcedureToSchedule.create_sdu, create_metadata, compile_to_arbin", "beep/protocol/maccor_to_arbin.py:ProcedureToSchedule"),
      ("convert_to_seconds, end and report conversion", "beep/protocol/maccor_to_arbin.py")],
     "the .sdu file written",
     T + "ProcSchedule.tla: the Maccor machine and the Arbin machine in lockstep over all choices of the end met; TLC checks the conversion bisimilar for all programs of up to 7 steps; emitted and random programs are dressed with values and converted by the code, ProcScheduleTrace.tla runs its schedule in lockstep with the procedure and judges every field",
     "Up to 7 steps exhaustively (8 thorough); random programs with nested loops longer. Rates in C and steps without end conditions are not covered.")
prop("C08", "BioLogic Modulo Bat programs become Maccor procedures that do the same",
     """The Maccor procedure made of a BioLogic Modulo Bat program passes through the same sequences in the same order, whichever limit is
     met first, repeats each loop as often, advances the cycle where the program does, and ends where it ends. Each sequence keeps its
     mode, set point, limits and records, with values converted to the units of the cycler exactly.
     A program that cannot be expressed so (overlapping loops, unsupported control or limit types) is refused and nothing is written.""",
     ["inputs", "histories"],
     "Every Modulo Bat program of measuring and loop sequences with gotos, any units, limits and records.",
     "Tests convert one program and compare with a stored file, and single sequences by field.",
     ["beep/protocol/biologic_mb_to_maccor.py"],
     [("convert, biologic_mb_text_to_maccor_xml", "beep/protocol/biologic_mb_to_maccor.py:BiologicMbToMaccorProcedure"),
      ("_create_steps, _create_loop_step, _convert_time, _convert_current", "beep/protocol/biologic_mb_to_maccor.py")],
     "the procedure text returned",
     T + "MbMaccor.tla: the BioLogic machine and the Maccor machine in lockstep over all choices of the limit met; TLC checks the conversion bisimilar for all programs of up to 4 sequences and loops that cannot be expressed refused; emitted and random programs are rendered as settings text and converted by the code, MbMaccorTrace.tla judges the run and every field of the procedure",
     "Up to 4 sequences exhaustively (5 thorough), random to about 10. Two findings the existing tests pin are listed as known.")
prop("C25", "Statistical features are those of the cycles, steps, quantities they name",
     """Each feature of a structured run has the value its name says: the statistic, of the point by point difference between the two cycles asked for,
     of that quantity over that step, missing points left out, whichever statistics are asked for in whatever order. Diagnostic cycles are counted among
     those of their type, rows recorded late with an early cycle number left out. Initial, middle and final cycles and the number of nominal
     cycles are those asked for. A run lacking a cycle needed is refused; featurizing leaves the run as it was, so that the order in which features are made does not matter.""",
     ["inputs", "histories"],
     "Every structured run (regular and diagnostic cycles, missing points, steps in any order of rows), every hyperparameter setting and order of featurizers.",
     "Tests compare the shapes and a few stored values of one or two runs with default hyperparameters.",
     ["beep/features/core.py", "beep/features/featurizer_helpers.py"],
     [("CycleSummaryStats, DiagnosticSummaryStats, DeltaQFastCharge", "beep/features/core.py"),
      ("RawInterpolatedData / imputation of channels", "beep/features/core.py")],
     "the features table and the tables of the run before and after",
     T + "RunFeatures.tla: exact rational statistics, selection of cycles, steps and rows; TLC checks identities of the statistics and of the fills over all small columns; random runs with all of these are featurized by the code in random order with random hyperparameters and RunFeaturesTrace.tla judges every named value to four decimals, the validity and the unchanged run",
     "Columns of up to 6 points of small integers (exact in 1/64); statistics that are not defined (all equal, too few) are left open.")
prop("C26", "Degradation targets and exclusion verdicts are those of the cell's history",
     """The fraction of a quantity left at each diagnostic cycle of a type, with the regular and diagnostic throughput before it in units of that of the first block
     of regular cycles, are those of the summaries. The target is where the fraction of the metric and type asked for crosses the threshold, or would on the line
     of the last two; where it is not crossed and is not to be extrapolated there is an error instead of a number. A cell is included if and only if
     every criterion holds of its history. Parameters are those of the project and number in the name of the run, never of another.""",
     ["inputs", "histories"],
     "Every history of diagnostics and regular cycles with missing values, every threshold, axes, type and metric, every set of parameter tables.",
     "Tests compare the shape of the target table of one run and a few numbers of two or three others.",
     ["beep/features/core.py", "beep/features/featurizer_helpers.py", "beep/deprecated/parameters_lookup.py"],
     [("DiagnosticProperties.get_threshold_targets, ExclusionCriteria, ChargingProtocol", "beep/features/core.py"),
      ("get_fractional_quantity_remaining, get_fractional_quantity_remaining_nx", "beep/features/featurizer_helpers.py"),
      ("get_protocol_parameters", "beep/deprecated/parameters_lookup.py")],
     "the tables returned and the features made",
     T + "LifeTarget.tla: a cell cycled step by step; TLC checks over all histories of up to 7 cycles that throughputs counted as they happen are those of the summaries and that crossings are where they must be; these and random histories are given to the featurizers and helpers and LifeTargetTrace.tla judges rows, targets (within one step of the grid), verdicts and parameters",
     "Cells below the threshold from the start, recovering ones that never cross it, and runs with one set of diagnostics are not specified.")
prop("C27", "Pulse test features are those of the pulses, rests and discharges they name",
     """Of a run with pulse test diagnostics, the resistance in a window is the change of voltage over that of current between the last point before
     a pulse and the moment of it asked for; a diffusion slope is the regression of the relaxation after the pulse on the difference of
     roots of time; variances and differences of voltage compare the same window at the same capacities or points in the first and the later
     test, wherever either has its steps; the rated capacity is that of the cell in the parameters path given. A run without the test asked for,
     or without enough tests or windows, is refused with an error rather than answered from another cycle; the run is not changed.""",
     ["inputs", "configurations"],
     "Every number of tests, windows, points and step numbers, durations of pulses, positions and windows asked for, and every parameters table.",
     "Tests compare aggregates of two runs with stored numbers, and only if large files are present; other step numbers, windows and positions never occur.",
     ["beep/features/core.py", "beep/features/featurizer_helpers.py"],
     [("HPPCResistanceVoltageFeatures", "beep/features/core.py"),
      ("get_resistance_soc_duration_hppc, get_dr_df, get_diffusion_coeff, get_diffusion_features, get_v_diff, get_hppc_ocv, get_step_index",
       "beep/features/featurizer_helpers.py")],
     "the features made, errors raised, the tables of the run afterwards",
     T + "HppcFeatures.tla gives roles to steps by current and duration and defines every feature as a rational of the points; TLC checks over all small tests that roles do not depend on step numbers and that windows pair up; enumerated and random runs are featurized and HppcFeaturesTrace.tla judges each number against the specification",
     "Rests whose last ten points are not level, pulses left out in the middle of a test and cells of 8 Ah and more in the first test are not specified.")
prop("C28", "Files structured from an S3 bucket are those asked for, each as itself",
     """The structure command with a bucket works, in the order given, on the local file of each path if there is one, and otherwise on the object of that key, or on all
     objects whose whole key matches the pattern. Exactly those objects are fetched, to the working directory or the cache, under their own name. Each output is
     made of its own input, output filenames going to the inputs in order, and is the same as for a local file; local files asked for are never
     replaced. Inputs that would lie at the same local path or be written to the same output, paths that are neither local nor in the
     bucket, and a wrong number of output filenames are refused without writing any output.""",
     ["inputs", "configurations"],
     "Every bucket, set of local files and list of keys, patterns and local paths; automatic or given outputs, with and without cache, stale copies in the cache.",
     "The only test needs the network and a bucket, and fetches one object.",
     ["beep/cmd.py", "beep/utils/s3.py"],
     [("structure", "beep/cmd.py"), ("list_s3_objects, download_s3_object", "beep/utils/s3.py")],
     "objects fetched, files in the working directory, cache and output folder, content of the outputs, status file, exit code",
     T + "S3Inputs.tla: paths are expanded, fetched and read one by one over a store of local paths; TLC checks for all buckets of 4 keys, local files and 2 or 3 paths that every output is made of its own input and local files survive; emitted and random worlds are run through the command with a stand-in for boto3 and S3InputsTrace.tla judges them",
     "Patterns with brackets, folder keys and patterns of local files are left open.")
prop("C29", "Principal components and their outliers are those of the table of runs",
     """The table made of a list of structured runs has one row for each discharge of a cycle asked for, run by run in the order listed, its columns the points, nothing where a cycle has none.
     For any training table the number of components needed is the smallest that explains more than the share asked for; the embedding of a sample,
     what the components kept stand for, the mean error of that and the distance from the middle of the training set are those of the components of the
     training set. A sample is an outlier if and only if it lies outside of the percentiles asked for in a component, or its error above
     the multiple asked for of the largest of the training set. Neither table changes.""",
     ["inputs", "configurations"],
     "Every list of runs, cycles, quantities; every training table, number of components, thresholds and percentiles, every sample.",
     "The tests of principal components need files that are missing here and compare shapes and a few numbers of one data set.",
     ["beep/features/principal_components.py"],
     [("PrincipalComponents", "beep/features/principal_components.py"), ("pivot_data", "beep/features/principal_components.py")],
     "the tables, embeddings, reconstructions, distances, errors and verdicts returned",
     T + "Components.tla defines training tables whose features move in groups along balanced uncorrelated patterns, so that the components are known exactly; TLC checks their balance, shares of the percentiles, that a reconstruction is its own reconstruction and that signs of components do not matter; emitted and random training sets, samples and lists of runs are given to the code and ComponentsTrace.tla judges every number in 1/24 of a standard deviation",
     "Training sets with equal weights of two components, constant columns, thresholds that the components kept cannot explain and serialization are not specified.")
prop("C30", "Files of a project are moved to another one whole, under their new names",
     """Transferring files of a bucket to another project lists exactly the files lying in the folder given (not below it) whose name begins with the project's, without those
     holding a string to leave out. Each file named arrives once, in its folder, under its name with the project's replaced by the other's; in its first line the
     project's name is replaced wherever it occurs and every other byte is as it was, whatever encoding, line ends and size. A dry run writes
     to the test bucket only; otherwise files go to the same bucket, whose other objects stay as they are. A refused upload does not keep the others
     from arriving, and nothing is left in the working directory.""",
     ["inputs", "histories"],
     "Every bucket, list of files and strings to leave out, every content, every pattern of refused uploads, dry or not.",
     "There are no tests of transfers; they need a bucket.",
     ["beep/utils/project_transfer.py"],
     [("ProjectTransfer", "beep/utils/project_transfer.py")],
     "names listed, objects in both buckets afterwards, working directory",
     T + "Transfer.tla: files are fetched, rewritten and sent one by one through one local folder while uploads may be refused; TLC checks for all buckets of 2 or 3 objects that everything sent is a listed file whole under its new name, that originals are kept and the order does not matter; emitted and random buckets are given to the real class with a stand-in for boto3 and TransferTrace.tla judges what was listed and what lies in the buckets afterwards",
     "Projects whose name begins with the whole name of another, strings to leave out that occur in the folder's name, failing downloads and files getting the same new name are left open.")

prop("C31", "The impedance spectra of a run are its own, whole, and as last recorded",
     """Loading the impedance spectra of a Maccor run gives one spectrum for every file named, in that order, or, when none is named, one for every file beside the run's
     that carries its name and extension (name.anything.extension) and no other file; each holds every column, row and value of the file as it is now, and its
     sweep, method, file name, start and settings. The run remembers where they lie. Loading again replaces them all; a file that cannot
     be read is an error which leaves what was loaded before. Everything else of the run stays as it was, a run saved after
     loading can be read back and still knows where its spectra lie, and a spectrum written out as a dictionary comes back the same.""",
     ["inputs", "histories"],
     "Every folder of files, every content of spectra, every history of recording, removing, loading, saving and reading back.",
     "No test loads a spectrum.",
     ["beep/structure/maccor.py", "beep/structure/base_eis.py", "beep/structure/base.py"],
     [("load_eis", "beep/structure/maccor.py"), ("EIS", "beep/structure/base_eis.py")],
     "spectra, paths and data of the run after every operation; spectra after a round trip",
     T + "Spectra.tla: files of several kinds beside a run are written again, removed, loaded by name or found, and the run saved and read back; TLC checks over all histories that spectra and paths stay paired, loads are complete, failed loads change nothing and reading back restores the paths; emitted and random histories are replayed on real files and SpectraTrace.tla compares, after every operation, every value of every spectrum with what was written",
     "Order in which files are found, brackets in folder names, files of the pattern that are no spectra, relative paths and the file name with a line end are left open.")
