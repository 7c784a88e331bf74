"""Writes /verif/properties.jsonl (kept as a script so wording stays reviewable)."""
import json, os
W = 'weatherbenchX/'
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
  d = {'id': id, 'title': title, 'statement': statement,
       'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
       'anchors': {'files': [W + f if not f.startswith('public_benchmark') else f for f in files],
                   'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
  if state:
    d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
  if observe:
    d['anchors']['observe_at'] = observe
  d['anchors']['hook_needed'] = None
  P.append(d)

prop('C01', 'Chunked aggregation gives the same result as aggregating all data at once',
     'Adding up partial aggregation results, in any grouping and order and with empty results among them, yields the total weighted sums and total weights over all the data, a label present in only some parts counting as zero in the others. '
     'Means are total weighted sum divided by total weight, formed only after adding up. '
     'Later reductions of a partial result (summing over dimensions, dot products, element-wise maps) act identically on the sums and on the weights and never skip missing values.',
     ['inputs', 'histories'], 'every partition of the data into chunks, every order of merging them, every set of bin labels per chunk',
     'Tests merge a few states with equal coordinates; the property quantifies over all partitions, merge orders and label sets.',
     ['aggregation.py', 'xarray_tree.py'],
     [('sum of states, outer-join zero-fill', 'aggregation.py: combining_sum, AggregationState.sum/zero/__add__'),
      ('ratio of sums', 'aggregation.py: AggregationState.mean_statistics'),
      ('later reductions', 'aggregation.py: AggregationState.sum_along_dims/dot/map/map_multi'),
      ('leafwise map', 'xarray_tree.py: map_structure')],
     [('partial result', 'pair (sum of weighted statistics, sum of weights), both None when empty', 'aggregation.py: AggregationState')])

prop('C02', 'A weighted sum and its total weight always cover exactly the same cells',
     'For every combination of masking, missing-value skipping, weighting and binning, the total weight reported with a weighted sum is what the same weights, bins and reduced dimensions give for the 0/1 indicator of the cells that entered the sum. '
     'Masked-out cells, and missing cells when skipping is on, contribute exactly zero to both; every other cell contributes in full to both, a missing one making the sum missing when skipping is off. '
     'Each configured weighting and each configured bin enters exactly once, and a statistic lacking a reduced or binned dimension is left out entirely.',
     ['inputs', 'configurations'], 'all statistics fields, masks, NaN patterns and aggregator configurations',
     'Tests check a handful of mask/skipna/bin settings on small arrays; the four mask x skipna modes times arbitrary weights and bins are never crossed.',
     ['aggregation.py'],
     [('mask handling', 'aggregation.py: Aggregator.aggregate_stat_var'), ('weighted, binned reduction', 'aggregation.py: Aggregator.aggregation_fn'),
      ('dropping inapplicable statistics', 'aggregation.py: Aggregator.aggregate_stat_vars/aggregate_statistics')])

prop('C03', 'Missing values stay visible unless the caller asked to skip them',
     'A forecast or observation cell that is missing makes every statistic cell computed from it missing, so that averages over it are missing or masked, and never a plausible number. '
     'This holds for every statistic, including indicator, category, ensemble, ranking and neighbourhood statistics, and for reductions inside statistics and resampled sums. '
     'Values are skipped only where the caller set an explicit skip option.',
     ['inputs', 'configurations'], 'every position of a missing value in forecasts or observations, every statistic and its options',
     'Existing tests place NaNs in a few statistics only; comparisons, casts and library reductions that default to skipping NaN erase missing values silently.',
     ['metrics/deterministic.py', 'metrics/categorical.py', 'metrics/probabilistic.py', 'metrics/spatial.py', 'metrics/wrappers.py', 'statistical_inference/bootstrap.py'],
     [('per-statistic NaN handling', 'metrics/*.py: Statistic._compute_per_variable'), ('skip options', 'metrics/probabilistic.py: skipna_ensemble; aggregation.py: skipna')])

prop('C04', 'Every averaged statistic is a real-valued field',
     'Every statistic handed to aggregation is floating point (indicators are 0.0/1.0), so that its aggregate is a weighted average such as a hit rate, and never a logical or integer-truncated combination of the cells. '
     'This holds for every statistic and every wrapper option.',
     ['inputs', 'configurations'], 'all statistics, all data values',
     'Tests look at statistics before aggregation or at single cells, where False/True and 0.0/1.0 compare equal.',
     ['metrics/deterministic.py', 'metrics/categorical.py', 'metrics/probabilistic.py', 'metrics/spatial.py', 'metrics/wrappers.py', 'aggregation.py'],
     [('cast of indicators', 'metrics/*.py: Statistic._compute_per_variable, wrappers'), ('aggregation by weighted sum', 'aggregation.py: Aggregator.aggregation_fn')])

prop('C05', 'Differently configured statistics never share an identity',
     'Statistics are computed once per identity and shared between metrics; two statistics (or wrapped statistics) that differ in any option which can change their values have different identities. '
     'Statistics with the same configuration have the same identity, so sharing still happens.',
     ['configurations'], 'all sets of metrics evaluated together, all option values',
     'Tests evaluate metrics one at a time or with one configuration each, where a collision cannot show.',
     ['metrics/base.py', 'metrics/deterministic.py', 'metrics/categorical.py', 'metrics/probabilistic.py', 'metrics/spatial.py', 'metrics/wrappers.py'],
     [('identity', 'metrics/*.py: Statistic.unique_name, InputTransform.unique_name_suffix'), ('sharing', 'metrics/base.py: compute_unique_statistics_for_all_metrics')],
     [('statistics by identity', 'dictionary of computed statistics keyed by identity', 'metrics/base.py: compute_unique_statistics_for_all_metrics')])

prop('C06', 'Metrics use exactly the statistics they declare',
     'Every metric computes its value only from mean statistics it declares, reading each under the name it declared, and every statistic it declares is used. '
     'Looking up shared statistics and regrouping them per metric and variable never mixes up metrics, statistics or variables, and only variables for which all needed statistics exist produce a value.',
     ['configurations', 'inputs'], 'all metrics, wrapper nestings and sets of variables',
     'Tests run each metric with one configuration and mostly one variable; a mixed-up key shows only in particular combinations.',
     ['metrics/base.py', 'metrics/deterministic.py', 'metrics/categorical.py', 'metrics/probabilistic.py', 'metrics/spatial.py', 'metrics/wrappers.py'],
     [('declaration and use of statistics', 'metrics/*.py: Metric.statistics / values_from_mean_statistics'), ('regrouping', 'metrics/base.py: compute_metric_from_statistics, PerVariableMetric, PerVariableStatistic')])

prop('C07', "Evaluation never modifies the caller's data",
     'Computing statistics, metrics, transforms, bins, weights, interpolations, aggregations, resampling and loading leaves every array, dataset, mapping, coordinate and option object that was passed in unchanged. '
     'Results therefore do not depend on the order or number of evaluations performed on the same inputs.',
     ['inputs', 'histories'], 'all inputs and all sequences of calls on shared inputs',
     'Tests rarely reuse or re-compare inputs after a call; an in-place update is only visible to a later user of the same object.',
     ['metrics/base.py', 'metrics/wrappers.py', 'metrics/probabilistic.py', 'metrics/spatial.py', 'aggregation.py', 'binning.py', 'weighting.py', 'interpolations.py', 'data_loaders/base.py', 'data_loaders/xarray_loaders.py', 'statistical_inference/bootstrap.py'],
     [('functional style everywhere', 'all modules: no stores into objects reachable from parameters')])

prop('C08', 'Time chunks cover every init/lead time pair exactly once, consistently',
     'Iterating over time chunks yields, in order, every combination of consecutive blocks of init times and of lead times, each time appearing in exactly one block and no block larger than the chunk size. '
     'Length, indexing and iteration agree for every index, out-of-range indices are rejected, and the reported offset of each chunk is the position of its first init time and lead time in the full arrays. '
     'A missing or zero chunk size means a single block, lead time intervals given as a slice form one block at offset zero, and negative sizes or incomplete slices are rejected.',
     ['inputs', 'configurations'], 'all array lengths, chunk sizes (dividing or not), exact lead times or intervals',
     'Tests use a few sizes; partial last chunks with several lead chunks and interval lead times with offsets are not crossed.',
     ['time_chunks.py'],
     [('block lists', 'time_chunks.py: TimeChunks.__init__'), ('product order', 'time_chunks.py: __iter__/__len__/__getitem__/iter_with_chunk_offsets')])

prop('C09', 'Output files appear complete or not at all',
     'A result file becomes visible under its final name only after all of its contents were written successfully; if writing fails at any point, whatever was under that name before is untouched, the partial temporary file is removed and the error is reported. '
     'Metric and aggregation-state outputs of the pipelines are all written this way, to the path that was requested.',
     ['crash_points', 'fault_sequences'], 'every point at which writing can fail',
     'No test injects failures into the write path; only successful writes are exercised.',
     ['beam_utils.py', 'beam_pipeline.py'],
     [('write to temporary then rename', 'beam_utils.py: atomic_write'), ('users', 'beam_pipeline.py: WriteMetrics, WriteAggregationState')])

prop('C10', 'The distributed pipeline computes what in-memory evaluation computes',
     'For every chunking, the pipeline loads targets first and hands them to the prediction loader as reference, applies all metrics and the same aggregation to each chunk, and combines chunks by adding up partial sums separately for weighted sums and for weights of each statistic and variable. '
     'Dimensions that are not reduced are placed at the chunk offset of exactly those time dimensions the result still has, sums and weights are put back into their own place under the right statistic and variable, and nothing is dropped or counted twice. '
     'Metric values are derived only from the fully combined state, and a pipeline with no requested output is rejected.',
     ['schedules', 'inputs', 'configurations'], 'all chunk sizes, all bundle orders chosen by the runner, all aggregation settings',
     'Tests run a direct runner on a few chunk sizes; fusion, order and key layouts chosen by other runners and other configurations are not covered.',
     ['beam_pipeline.py', 'aggregation.py'],
     [('load', 'beam_pipeline.py: LoadPredictionsAndTargets'), ('statistics', 'beam_pipeline.py: ComputeStatisticsAggregateAndPrepareForCombine / ComputeAndFormatStatistics'),
      ('combine', 'beam_pipeline.py: CombiningSum / ConcatPerStatisticPerVariable / ReconstructAggregationState'), ('metrics', 'beam_pipeline.py: ComputeMetrics'), ('entry', 'beam_pipeline.py: define_pipeline')],
     [('aggregation key', 'kind, statistic, variable and time offsets of a partial result', 'beam_pipeline.py: AggregationKey')])

prop('C11', 'Loaded chunks pass through every configured processing step, once, in order',
     'A loaded chunk is read for exactly the requested init and lead times, then transformed by the chunk function, interpolated (with the given reference), loaded into memory, given its missing-value mask and finally its value coordinates, each step applied exactly when configured and to the result of the previous one. '
     'Dataset preparation (preprocessing, renaming, variable selection, static selections) happens exactly once, in that order, before the first use, whatever the sequence of calls. '
     'The mask is true exactly where the final data is not missing, for each variable separately.',
     ['configurations', 'histories'], 'all option combinations and sequences of chunk requests',
     'Tests exercise options one at a time on the first chunk.',
     ['data_loaders/base.py', 'data_loaders/xarray_loaders.py', 'data_loaders/sparse_parquet.py'],
     [('stage order', 'data_loaders/base.py: DataLoader.load_chunk'), ('mask', 'data_loaders/base.py: add_nan_mask_to_data'), ('prepare once', 'data_loaders/xarray_loaders.py: maybe_prepare_dataset')])

prop('C12', 'Latency-aware loading never uses a forecast that was not yet available',
     'A latency-aware loader uses, for each requested init time, the most recent nominal forecast whose init time plus latency is not after the requested time (availability exactly at that time counts), shifts its lead times so that valid times are those requested, and labels the result with the requested init and lead times. '
     'Requests for which no forecast is available are rejected, and with several loaders the freshest available forecast is used. '
     'Nominal init times, latency and all options of the wrapped loader keep their meaning.',
     ['inputs', 'configurations'], 'all init times, latencies, nominal schedules and numbers of wrapped loaders',
     'Tests use one or two schedules, mostly with exact hits; boundary equality and ties are not enumerated.',
     ['data_loaders/latency_wrappers.py'],
     [('availability', 'latency_wrappers.py: ConstantLatencyWrapper'), ('freshest of several', 'latency_wrappers.py: MultipleConstantLatencyWrapper')])

prop('C13', 'Targets and climatologies are matched at valid time = init + lead time',
     'Every value compared with a forecast for init time t and lead time l is the one valid at t + l: targets loaded from analyses or climatologies, persistence forecasts taken at t, probabilistic climatologies for the right day and hour, and climatological statistics aligned with the forecast. '
     'Day-of-year and hour lookups are derived from that valid time. '
     'Results carry the requested init and lead times as labels.',
     ['inputs', 'configurations'], 'all init times, lead times (exact or interval) and year boundaries',
     'Tests use a few init/lead times inside one year.',
     ['data_loaders/xarray_loaders.py', 'metrics/base.py', 'metrics/probabilistic.py', 'metrics/categorical.py', 'metrics/wrappers.py'],
     [('valid time selection', 'xarray_loaders.py: TargetsFromXarray, PersistenceFromXarray, ClimatologyFromXarray, ProbabilisticClimatologyFromXarray'), ('climatology alignment', 'metrics/base.py: PerVariableStatisticWithClimatology')])

prop('C14', 'A bin contains exactly the points its label describes',
     'For every binning, a point is in a bin exactly when its coordinates satisfy the condition the bin is labelled with: region boxes including ones crossing the date line and any longitude convention, latitude and longitude bands, land/sea, exact values, time units and sets of them, half-open coordinate ranges, and named sets with their complement. '
     'Every configured bin appears once under its own label along its own bin dimension, in the order configured, a global bin contains every point, and missing or unknown values fall in no range.',
     ['inputs', 'configurations'], 'all coordinate values including boundaries and wrap-around, all bin configurations',
     'Tests check a few interior points per binning; boundary and wrap-around points, label order and missing coordinates are not enumerated.',
     ['binning.py'],
     [('masks', 'binning.py: Binning.create_bin_mask implementations'), ('shared helpers', 'binning.py: region/vectorised mask helpers')])

prop('C15', 'Categorical scores follow their contingency-table definitions',
     'True/false positives/negatives partition the non-missing cells by forecast event and observed event, so that the four rates sum to one, and every categorical score is its standard function of them: CSI, accuracy, recall, false alarm rate, precision, F1, frequency bias, HSS, ETS, SEDI, reliability. '
     'Categories used for SEEPS and ranked probability scores follow the same event definitions.',
     ['inputs'], 'all forecast/observation fields and thresholds',
     'Tests compare few scores on few tables; symmetric tables hide exchanged terms.',
     ['metrics/categorical.py'],
     [('table', 'metrics/categorical.py: TruePositives/TrueNegatives/FalsePositives/FalseNegatives'), ('scores', 'metrics/categorical.py: *.values_from_mean_statistics')])

prop('C16', 'Deterministic and spatial scores follow their definitions',
     'Bias is forecast minus observation; MAE, MSE, RMSE, wind-vector errors, anomaly correlation, PRMSE-type and activity scores, relative intensity and fractions skill score are their standard formulas, with roots, ratios and anomalies (value minus climatology) taken on means after averaging, never before. '
     'Neighbourhood fractions are averages over full windows centred on the point with the configured sizes and wrap-around option.',
     ['inputs', 'configurations'], 'all fields, climatologies and neighbourhood settings',
     'Tests compare some scores on constant or symmetric fields where exchanged operands or wrong order of root and mean do not show.',
     ['metrics/deterministic.py', 'metrics/spatial.py', 'metrics/wrappers.py'],
     [('statistics', 'metrics/deterministic.py: Error, AbsoluteError, SquaredError, ...'), ('scores', 'metrics/deterministic.py / metrics/spatial.py: values_from_mean_statistics')])

prop('C17', 'Probabilistic and ensemble scores follow their definitions',
     'CRPS is mean absolute error minus half the mean absolute ensemble spread, with the fair estimator dividing by M(M-1) when requested and M squared otherwise; unbiased spread-skill, ensemble-mean errors with or without bias correction, Brier-type, ranked probability, rank histogram, energy-type and relative economic value scores use their standard formulas with the ensemble size actually present. '
     'Sorting-based and pairwise spread estimators agree, and too small ensembles are rejected where an estimator is undefined.',
     ['inputs', 'configurations'], 'all ensembles, sizes, missing members and options',
     'Tests use a few ensemble sizes and mostly one estimator option.',
     ['metrics/probabilistic.py'],
     [('estimators', 'metrics/probabilistic.py: CRPSSkill, CRPSSpread, EnsembleVariance, UnbiasedEnsembleMeanSquaredError, RankHistogram, ...'), ('scores', 'metrics/probabilistic.py: values_from_mean_statistics')])

prop('C18', 'Failures and invalid configurations are reported, never silently absorbed',
     'An error raised while loading, computing, combining or writing reaches the caller (wrapped at most with added context and its cause), never replaced by a default, partial or empty result. '
     'Configurations and inputs the documentation declares invalid are rejected with an error before any result is produced, in every code path.',
     ['fault_sequences', 'configurations'], 'all points at which an operation can fail; all invalid configurations',
     'Tests check a few raised errors; swallowed errors by definition do not fail a test that does not inject them.',
     ['metrics/base.py', 'beam_pipeline.py', 'beam_utils.py', 'aggregation.py', 'time_chunks.py', 'data_loaders/sparse_parquet.py', 'data_loaders/xarray_loaders.py', 'data_loaders/latency_wrappers.py', 'interpolations.py', 'binning.py', 'statistical_inference/bootstrap.py', 'statistical_inference/t_test.py', 'xarray_tree.py'],
     [('exception handlers', 'all modules: try/except, suppress'), ('validation', 'all modules: raise ValueError/...')])

prop('C19', 'Saved aggregation states read back identical',
     'Writing a partial aggregation result to its tree or dataset form and reading it back gives the same statistics and variables, with sums as sums and weights as weights, each under its own name, for every name that does not contain the separator and for every nesting the format supports. '
     'The writer and the reader use the same separator, names and path layout, including through the pipelines that write states and the tools that combine them.',
     ['inputs', 'histories'], 'all statistic and variable names, nestings and separators',
     'Tests round-trip one or two states with simple names.',
     ['aggregation.py', 'beam_pipeline.py'],
     [('tree form', 'aggregation.py: to_data_tree/from_data_tree'), ('dataset form', 'aggregation.py: to_dataset/from_dataset')])

prop('C20', 'Baseline comparisons are always main minus baseline on the right data',
     'A baseline comparison computes the wrapped metric on the main forecasts and on the baseline forecasts, each from its own statistics, against the same targets, and reports main minus baseline (in relative form divided as documented). '
     'Main and baseline data, statistics and metric options never get exchanged or shared, for any wrapped metric.',
     ['configurations', 'inputs'], 'all wrapped metrics, variables and comparison functions',
     'Tests use one metric; exchanged or merged names show only for metrics with several statistics or equal data.',
     ['statistical_inference/baseline_comparison.py', 'statistical_inference/base.py'],
     [('name prefixing', 'baseline_comparison.py: statistics, metric wrappers'), ('difference', 'baseline_comparison.py')])

prop('C21', 'Statistical inference treats sums, weights and tails consistently',
     'Each resample or delta-method step applies the same resampling counts or indices, or the same linearisation, to the weighted sums and to the weights of every statistic and variable, so that paired quantities stay paired. '
     'Intervals are two-sided and symmetric in probability at the requested level, p-values are two-sided against the stated null value, a point is significant exactly when its p-value is at most the level, and interval, p-value and significance of one method agree with each other.',
     ['inputs', 'configurations'], 'all data, levels, block lengths and numbers of replicates',
     'Tests check calibration statistically with tolerances; wrong tails, off-by-one degrees of freedom or unpaired resampling pass within the tolerance.',
     ['statistical_inference/base.py', 'statistical_inference/bootstrap.py', 'statistical_inference/t_test.py', 'statistical_inference/autodiff.py', 'statistical_inference/utils.py'],
     [('resampling', 'bootstrap.py: IIDBootstrap, ClusterBootstrap, StationaryBootstrap'), ('delta method', 'autodiff.py, t_test.py'), ('shared interface', 'statistical_inference/base.py: StatisticalInferenceMethod')])

prop('C22', 'Area weights are proportional to cell area for every grid layout',
     'Latitude weights equal the spherical area of each cell: difference of sines of the bounding latitudes, which are midpoints between neighbouring latitudes and, at the ends, half a spacing beyond the last latitude but never beyond a pole, for ascending and descending latitudes alike, aligned with the data and normalised to mean one over latitude. '
     'Data without latitude gets weight one, and the bounds and the order of the input coordinate are respected.',
     ['inputs'], 'all latitude grids: ascending or descending, with or without pole points, regional or global',
     'Tests use one or two global ascending grids.',
     ['weighting.py'], [('cell areas', 'weighting.py: GridAreaWeighting and its helpers')])

prop('C23', 'Every documented option takes effect where it is promised to',
     'Each constructor option of a metric, statistic, transform, loader, binning, weighting, interpolation or inference method influences its results or identity, and options of a composite are forwarded to every component they apply to under the same meaning. '
     'Defaults of a composite and of the component agree with what the composite documents, an option that is not given keeps its documented or established default, and no option is silently ignored.',
     ['configurations'], 'all options and all nestings of wrappers',
     'Tests use default options for most classes; a dropped or crossed option leaves the default behaviour intact.',
     ['metrics/base.py', 'metrics/deterministic.py', 'metrics/categorical.py', 'metrics/probabilistic.py', 'metrics/spatial.py', 'metrics/wrappers.py', 'data_loaders/base.py', 'data_loaders/xarray_loaders.py', 'data_loaders/latency_wrappers.py', 'data_loaders/sparse_parquet.py', 'binning.py', 'weighting.py', 'interpolations.py', 'statistical_inference/bootstrap.py', 'statistical_inference/t_test.py', 'beam_pipeline.py'],
     [('constructors and forwarding', 'all classes with constructor options')])

prop('C24', 'Results depend only on inputs and configuration, not on history or process state',
     'Repeating a computation with the same inputs and configuration gives the same result regardless of what was computed before, in which process, order or thread: no result depends on wall-clock time, hash or listing order, mutable defaults, module-level caches or state left on shared objects, including by an earlier call that failed part of the way. '
     'Randomness is confined to bootstrap resampling, which draws from numpy\'s generator that the caller can seed; every other result is deterministic, and cached preparation steps are idempotent.',
     ['histories', 'schedules'], 'all sequences and interleavings of calls in one or several workers',
     'Tests run each computation once in one process.',
     ['metrics/base.py', 'aggregation.py', 'beam_pipeline.py', 'data_loaders/xarray_loaders.py', 'data_loaders/latency_wrappers.py', 'statistical_inference/bootstrap.py', 'binning.py', 'interpolations.py'],
     [('instance state', 'stores to self outside constructors'), ('globals', 'module-level mutable state')])

prop('C25', 'Sparse observations are selected, cleaned and labelled correctly',
     'Loading sparse observations returns, for each requested init time and lead time (or interval), exactly the observations whose time lies within the configured tolerance of init time plus lead time (or in the interval), once each, labelled with that init and lead time. '
     'Files read cover the whole time range needed, quality control turns exactly the flagged values into missing ones, longitudes and names follow the documented conventions, and undefined elevations become missing.',
     ['inputs', 'configurations'], 'all observation times, tolerances, partition layouts and quality flags',
     'Tests read one small file layout with observations well inside the window.',
     ['data_loaders/sparse_parquet.py'],
     [('time filter', 'sparse_parquet.py: file and row filters'), ('quality control', 'sparse_parquet.py: METARFromParquet and helpers')])

prop('C26', 'Wrappers change only the side and data they are asked to change',
     'A wrapped metric or statistic applies its transforms to predictions, targets or both exactly as requested, in the given order, passes everything else through unchanged, and otherwise behaves as the metric it wraps, with the wrapped identity distinguishing it. '
     'Transforms such as thresholding, bin membership, ensemble averaging, re-labelling, selection and regridding compute their documented result for each variable separately, keeping missing values missing.',
     ['configurations', 'inputs'], 'all transforms, sides and nestings',
     'Tests wrap one metric with one transform on both sides.',
     ['metrics/wrappers.py'],
     [('application', 'metrics/wrappers.py: WrappedStatistic, WrappedMetric, InputTransform'), ('transforms', 'metrics/wrappers.py: ContinuousToBinary, ContinuousToBins, EnsembleMean, ...')])

prop('C27', 'Interpolation lands on the target coordinates',
     'Interpolating to fixed coordinates, a reference or sparse points lands on exactly the target coordinates (clipped to the extent of the data where requested, for ascending and descending targets alike), closes the gap between the last and the first longitude of the data when wrapping is enabled, uses the configured method, and produces values outside the data only when extrapolation is enabled. An empty reference gives an empty result with the remaining dimensions kept. '
     'Sequences of interpolations are applied in order, each to the previous result, and neighbourhood averaging excludes or propagates missing values as documented.',
     ['inputs', 'configurations'], 'all grids, target points and option combinations',
     'Tests interpolate a few points away from the wrap-around and the edges.',
     ['interpolations.py'],
     [('interpolations', 'interpolations.py: InterpolateToReferenceCoords, InterpolateToFixedCoords, GridToSparseWithAltitudeAdjustment, NeighborhoodThresholdProbabilities, MultipleInterpolation')])

prop('C28', 'Benchmark tables and configurations refer only to things that exist',
     'Every name used by the benchmark runner, the result combiner and the dashboard configuration to refer to a region, variable, metric, model or colour resolves to an entry of the table that defines it, each table has no duplicate keys, and the values attached to a name agree wherever the name is defined.',
     ['configurations'], 'all entries of all tables',
     'The benchmark scripts have no tests.',
     ['public_benchmark/run_benchmark_evaluation.py', 'public_benchmark/combine_results.py', 'public_benchmark/public_configs.py'],
     [('tables', 'public_benchmark/*.py module-level dictionaries')])

prop('C29', 'Aggregates are accurate to floating-point precision for any data size',
     'The relative error of weighted sums, means and derived scores introduced by finite precision stays within a small bound for any number of cells and any order of chunks.',
     ['inputs', 'schedules'], 'all data magnitudes, sizes and summation orders',
     'Tests use small arrays with tolerances.',
     ['aggregation.py', 'metrics/probabilistic.py'], [('float32 reductions', 'aggregation.py: Aggregator.aggregation_fn')])

prop('C30', 'Confidence intervals have their nominal coverage',
     'For data satisfying the documented assumptions of an inference method, intervals cover the true value and tests reject with the nominal probability, asymptotically in the number of evaluation units.',
     ['inputs'], 'all data-generating processes satisfying the assumptions',
     'Simulation tests check coverage for a few processes with wide tolerances.',
     ['statistical_inference/bootstrap.py', 'statistical_inference/t_test.py'], [('methods', 'bootstrap.py, t_test.py')])

prop('C31', 'Chunked evaluation needs memory proportional to the chunk, not the data set',
     'Loading and evaluating a chunk touches only the data of that chunk; peak memory of a worker is bounded by a constant times the chunk size.',
     ['inputs', 'configurations'], 'all data-set sizes, chunk sizes and backends',
     'Tests use tiny data sets fully in memory.',
     ['beam_pipeline.py', 'data_loaders/xarray_loaders.py'], [('lazy loading', 'data_loaders/*.py')])

prop('C32', 'The benchmark and example programs run exactly the experiment they are asked for',
     'The example and benchmark programs hand the pipeline the loaders for the named prediction and target data, restricted to the variables both have and the configured levels, the init times (start inclusive, stop exclusive, at the given frequency), lead times and chunk sizes, the metrics for deterministic or probabilistic predictions, the regions, area weights and reduced dimensions, and the output path that the flags describe; half-specified time ranges are refused. The combiner labels each result file with its own model, year and resolution, collects the metrics of each variable under their published names, and writes all of them to the requested place.',
     ['configurations'], 'all flag values and configurations',
     'The programs have no tests.',
     ['evaluation_scripts/run_example_evaluation.py', 'public_benchmark/run_benchmark_evaluation.py', 'public_benchmark/combine_results.py', 'public_benchmark/public_configs.py'],
     [('programs', 'main() of the scripts, process_results, select_first_member')])

if __name__ == '__main__':
  out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
  with open(out, 'w') as f:
    for d in P:
      f.write(json.dumps(d) + '\n')
