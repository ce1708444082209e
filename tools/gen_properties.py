"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
DP='feedx/data_preparation.py'; EA='feedx/experiment_analysis.py'; ED='feedx/experiment_design.py'
ES='feedx/experiment_simulations.py'; PL='feedx/plotting.py'; ST='feedx/statistics.py'; RM='README.md'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

# ---- design
p('D01','Only valid experiment designs can exist',
 'Creating or loading an experiment design raises ValueError exactly when it is invalid: runtime weeks <= 0, pretest weeks < 0, any trim percentile negative, pre-trim percentiles summing to >= 1, post-trim percentile >= 0.5, pre-trimming with 0 pretest weeks, 50 or fewer items left after all trimming, or (crossover only) washout missing or negative, runtime <= 2 * washout, or odd runtime. Every other design is accepted and keeps the given parameter values, with the documented defaults (alpha 0.05, power 0.8, no washout, no salt).',
 ['inputs','configurations'],'all combinations of design parameters',
 'Tests sample about thirty invalid designs; the gate is a conjunction of conditions over unbounded numeric parameters.',
 [ED],[('ExperimentDesign.__post_init__',ED),('ExperimentDesign.load_from_yaml',ED)],['ExperimentDesign(...)'])
p('D02','Item counts of a design agree with what trimming actually removes',
 'A design with n items keeps n - floor(top * n) - floor(bottom * n) items after pre-trimming, and m - 2 * floor(post * m) of those m items after post-trimming. Trimming outliers removes exactly floor(top * n) of the highest and floor(bottom * n) of the lowest rows (ties broken at random by the given generator, other rows unchanged, ValueError for a negative percentile or a sum >= 1), and the trimmed statistics remove exactly floor(q * m) samples from each end (ValueError unless 0 <= q < 0.5).',
 ['inputs','configurations'],'all sample sizes and trim percentiles',
 'Whether three independent rounding computations agree depends on every (n, percentile) pair; tests use round numbers.',
 [ED,DP,ST],[('ExperimentDesign.__post_init__',ED),('trim_outliers',DP),('TrimmedArray.n_trim',ST),('TrimmedArray.values_trimmed',ST)])
p('D03','Designs survive being written to and loaded from yaml',
 'Writing a design to yaml stores every field of the design (including the coinflip salt and both derived item counts) as plain values, and loading it passes every stored field back unchanged to a newly validated design, so the loaded design equals the written one. Loading raises ValueError if either stored derived item count disagrees with the count recomputed from the other fields.',
 ['inputs','histories'],'all designs and all hand-edited yaml files with those fields',
 'Tests round-trip one or two designs built from python literals.',
 [ED],[('ExperimentDesign.write_to_yaml',ED),('ExperimentDesign.load_from_yaml',ED)])
p('D04','The design id identifies the whole design except the salt',
 'The design id is a deterministic function of every field of the design except the coinflip salt: designs that differ in any other field get different ids, designs that differ only in the salt get the same id, and computing it never changes the design.',
 ['inputs','configurations'],'all pairs of designs',
 'A pairwise statement over all designs; tests compare two.',
 [ED],[('ExperimentDesign.design_id',ED)])
p('D05','Treatment assignment is the parity of the salted md5 of the item id',
 'For a given salt the assignment of an item is always the parity (0 or 1) of the md5 digest of the salt followed by the item id as text, independent of call order, process, or any other state. An empty salt is rejected with ValueError, and a randomly generated salt is the hex text of freshly drawn, unseeded random bytes of the requested length (10 by default).',
 ['inputs','histories'],'all salts, item ids and call histories',
 'Tests check a handful of ids; determinism across processes and histories is a statement about all of them.',
 [ED],[('Coinflip.__call__',ED),('Coinflip.__init__',ED),('Coinflip.with_random_salt',ED)])
p('D06','Treatment assignment covers the pre-trimmed items and follows the salt',
 'Performing the treatment assignment returns one row per item: all items, or with pre-trimming the items left after trimming the design\'s top and bottom fractions by the total primary metric over exactly the last pretest weeks of the history. Each item is assigned by the coinflip with the design\'s salt, or with a new random salt that is then stored in the design, and the result is checked for a sample ratio mismatch before it is returned. Missing columns, a missing week column when pre-trimming, or an output column equal to the item column raise ValueError.',
 ['inputs','configurations','histories'],'all histories, designs and salts',
 'Tests run a few small frames; the week window, trim wiring and salt storage matter for all.',
 [DP],[('perform_treatment_assignment',DP)])
p('D07','The printed design describes the design that will be run',
 'The text of a design reports its id, experiment type (crossover; regular CUPED adjusted when it has pretest weeks; else regular), primary metric, pretest and runtime weeks, item counts, trim percentages in use, alpha, power and salt. For a crossover it reports the swap after half the runtime and lists exactly the washout weeks that the analysis excludes (the first washout weeks of each half of the runtime).',
 ['configurations'],'all designs','Tests compare a few full strings.',
 [ED],[('ExperimentDesign.__str__',ED)])
# ---- validation
p('V01','Validation runs every required check and only skips what was named',
 'Validating historical or experiment data runs every required check on the given data with the given columns and design (historical: nulls, item-date completeness, date spacing, consecutive week ids, primary metric finite and non-negative; experiment: also primary metric present, all metrics finite and non-negative unless allowed to be negative, item count, date range, unique assignment, coinflip match, sample ratio). A failing check raises ValueError unless exactly that check\'s name is in the skip list, and an unknown name in the skip list raises ValueError before any check runs.',
 ['inputs','configurations'],'all data sets, designs and skip lists',
 'Tests break one condition at a time on one small frame.',
 [DP],[('validate_historical_data',DP),('validate_experiment_data',DP),('ValidationChecks',DP)])
p('V02','Each validation check fails exactly when its documented condition is broken',
 'The individual checks fail exactly when: any value is null; some date lacks an item or has an item twice; unique dates are not all 1 or all 7 days apart; ordered week ids step by anything but 0 or 1; a metric has a non-finite or a negative value; the number of unique items differs from the design\'s post-pre-trim count; the first date is later than pretest weeks before the start or (when concluded) the last date is earlier than the start of the final runtime week; an item has more than one assignment; any assignment differs from the coinflip with the design\'s salt; the primary metric is not among the metrics. A date column that is not a datetime or a week id that is not an integer raises ValueError.',
 ['inputs'],'all data sets and designs','Each condition quantifies over all rows of all data sets.',
 [DP],[('validate_experiment_data',DP),('validate_historical_data',DP)])
p('V03','Sample ratio mismatch is a two-sided exact binomial test of unique items',
 'The sample ratio check fails exactly when the two-sided binomial p-value of the number of unique treatment items among all unique control and treatment items, against a 50/50 split, is below the threshold (0.001 by default). A group with no items counts as zero.',
 ['inputs'],'all assignments and thresholds','Tests use four hand-made splits.',
 [DP],[('validate_no_sample_ratio_mismatch',DP)])
p('V04','Prepared historical data is cleaned in the documented order and always validated',
 'Preparing historical data standardizes the named columns (the custom metric parsed as float when the primary metric is "other"), zero-fills missing item-date rows, adds week ids aligned to the first date, groups to complete weeks, downsamples items by the given fraction with the given generator, and returns that data only after validating it with the given skip list. A primary metric outside the allowed list raises ValueError.',
 ['inputs','configurations'],'all raw data sets and argument combinations',
 'Tests cover a few configurations end to end.',
 [DP],[('prepare_and_validate_historical_data',DP)])
p('V05','Prepared experiment data contains every assigned item and is always validated',
 'Preparing experiment data standardizes the named columns (other metrics parsed as float), adds every assigned item missing from the performance data, zero-fills missing item-date rows, adds week ids with week 0 starting at the experiment start date and the design\'s time periods, adds the requested at-least-one metrics, and keeps exactly the assigned items with their assignment (ids as text, assignment as integer). It is returned only after validation with the given design, start date, concluded flag, skip list and may-be-negative metrics.',
 ['inputs','configurations'],'all raw data sets and argument combinations',
 'Tests cover a few configurations end to end.',
 [DP],[('prepare_and_validate_experiment_data',DP)])
p('V06','Standardization keeps exactly the requested columns, renamed and typed',
 'Standardizing returns exactly the requested columns that were given, each under its standard or custom name and parsed to its type (item id as text, date as datetime, metrics as numeric floats, custom columns by their parse function or unchanged), taken from the matching input column. It raises ValueError for a custom column or parse function that clashes with a standard one, a parse function without its custom column, or a missing input column.',
 ['inputs','configurations'],'all subsets of columns, names and parse functions','Tests use a few name mappings.',
 [DP],[('standardize_column_names_and_types',DP)])
p('V07','Zero filling completes every item-date pair and changes nothing else',
 'Filling missing rows returns every combination of the items and dates in the data, with the original values where they exist, zeros for missing metrics, and each metric keeping its original type. Data without the item or date column raises ValueError.',
 ['inputs'],'all data sets','Tests use frames with two items.',
 [DP],[('fill_missing_rows_with_zeros',DP)])
p('V08','Week ids and complete weeks follow 7-day periods from the reference date',
 'A date\'s week id is the floor of its days since the reference date (the given start date, else the first date) divided by 7, so earlier dates get negative ids, and its week start is the reference date plus 7 days times the week id. Grouping sums all metrics per week, item and extra group column for daily data and keeps only weeks in which the item has 7 distinct dates, leaves weekly data ungrouped apart from dropping the date, and raises ValueError for any other spacing.',
 ['inputs'],'all date sets, including dates before the start','Tests use a few weeks of data.',
 [DP],[('add_week_id_and_week_start',DP),('group_data_to_complete_weeks',DP)])
p('V09','Downsampling and at-least-one metrics do exactly what they say',
 'Downsampling keeps all rows of a uniform random fraction of the unique items drawn without replacement with the given generator (everything when the fraction is 1; ValueError outside (0, 1] or without the item column). At-least-one metrics are 1 exactly where the original metric is greater than 0 and 0 elsewhere, for each requested pair of columns.',
 ['inputs'],'all data sets and fractions','Tests use one or two samples.',
 [DP],[('downsample_items',DP),('add_at_least_one_metrics',DP)])
# ---- orientation
p('O01','Treatment and control keep the same meaning everywhere',
 'Assignment 1 means treated (in a crossover: treated in the first period and control in the second), 0 means control (in a crossover: treated in the second period), and every effect is treatment minus control relative to control. The analysis, the synthetic effect used in simulations and the demo effects (including washout weeks) all agree on which observations are treated, and only those are changed by an effect.',
 ['inputs','configurations'],'all designs, assignments and effect sizes',
 'Agreement between independent code paths for regular and crossover designs; tests check each path on one example.',
 [EA,ES,DP],[('analyze_single_metric',EA),('apply_synthetic_treatment_effect',ES),('add_relative_effects_to_synthetic_data_for_demo',DP)])
p('O02','Time periods partition the weeks exactly as the design says',
 'With the experiment starting at week s, weeks s - pretest to s - 1 are pretest; in a regular design weeks s to s + runtime - 1 are test; in a crossover each half of the runtime starts with the washout weeks followed by that half\'s test weeks, and all other weeks have no period. Tagging data, pivoting data and the spans and limits drawn in the metric-over-time plot use the same boundaries.',
 ['inputs','configurations'],'all designs and start weeks','Tests check a few week ranges.',
 [EA,PL],[('add_time_period_column',EA),('pivot_time_assignment',EA),('plot_metric_over_time',PL)])
p('O03','Pivoted values are per-week averages of each period',
 'Pivoting returns one row per item (and assignment) holding, for every metric and time period, the total of the metric over that period (0 when there is no data) divided by that period\'s number of weeks: pretest weeks, runtime weeks, half of the non-washout runtime for each crossover test period, and washout weeks. Missing columns or an existing time period column raise ValueError.',
 ['inputs','configurations'],'all designs and data sets','Tests check a few designs.',
 [EA],[('pivot_time_assignment',EA)])
# ---- analysis
p('A01','The analysis is the one the design specifies',
 'Analysing a metric runs the paired trimmed test for a crossover design and otherwise the unequal-variance two-sample trimmed test (after CUPED adjustment by pretest values whenever they exist), always two-sided and at the design\'s alpha. The trimming quantile is the design\'s post-trim percentile unless an override (including 0) is given, it is used consistently in every step, crossover periods are aligned to the same mean only when it is 0, and missing required columns raise ValueError.',
 ['inputs','configurations'],'all designs, metrics, overrides and data sets',
 'Tests call it with default alpha and few overrides.',
 [EA],[('analyze_single_metric',EA)])
p('A02','An experiment analysis reports each metric in its own row',
 'Analysing an experiment pivots the data once with week 0 as the start and every needed numerator and denominator column, and returns one row per requested metric, named after it, holding exactly the results of analysing that metric\'s column, denominator and trimming override with the given design and column names.',
 ['inputs','configurations'],'all metric collections and column names','Tests use two metrics with default names.',
 [EA],[('analyze_experiment',EA)])
# ---- statistics
p('S01','All parts of a test result come from the same test',
 'In every test result the p-value, significance and both confidence intervals use the same alpha, alternative, standard errors and degrees of freedom; the result is significant exactly when the p-value is below alpha; and the reported alpha, difference, standard error, degrees of freedom, sample size after trimming and control average are the ones used. The relative difference and its bounds are given exactly when neither mean is negative, and are None otherwise.',
 ['inputs','configurations'],'all samples, alphas, alternatives and trimming quantiles','Tests compare against scipy for a few samples.',
 [ST],[('yuens_t_test_ind',ST),('yuens_t_test_paired',ST)])
p('S02','Alternatives are exhaustive and one-sided results point the right way',
 'Every function taking an alternative handles two-sided, greater and less and raises ValueError for anything else. Two-sided doubles the tail of the absolute statistic, greater uses the upper tail and less the lower tail of the t distribution; matching intervals are two-sided at alpha / 2, bounded only below for greater and bounded only above for less, with the critical value at alpha.',
 ['inputs','configurations'],'all alternatives, statistics, alphas and degrees of freedom','Tests check few points per alternative.',
 [ST],[('ttest_from_stats',ST),('absolute_difference_confidence_interval',ST),('relative_difference_confidence_interval',ST),('calculate_minimum_detectable_effect_from_stats',ST)])
p('S03','Relative intervals follow Fieller and respect their limits',
 'The relative confidence interval is Fieller\'s interval for the ratio of the means minus 1, never below -100%: completely unbounded ([-1, inf]) when the completeness statistic is within the critical value, unbounded above when the control mean is not significantly different from 0, inf above for greater and -1 below for less. A negative mean raises ValueError, and a zero variance makes the matching boundedness statistic infinite.',
 ['inputs'],'all means, standard errors, correlations, alphas','Tests check a few points of each regime.',
 [ST],[('relative_difference_confidence_interval',ST)])
p('S04','Trimmed statistics trim jointly and winsorize the ends',
 'Trimmed arrays drop the same samples from every row, chosen by the order of the first row; the mean is the mean of the kept samples, the winsorized mean replaces each trimmed value by the nearest kept extreme sample, and the covariance (variance, standard deviation) is the winsorized sum of residual products around the winsorized mean divided by the kept sample size minus ddof. One-dimensional input gives scalars, and more than two dimensions raise ValueError.',
 ['inputs'],'all arrays, quantiles and ddof','Tests use short arrays.',
 [ST],[('TrimmedArray',ST)])
p('S05','Two-sample and paired tests use the documented trimmed estimators',
 'The two-sample test compares trimmed means with variances from the winsorized variance (pooled when equal variances are assumed, otherwise Welch with Welch-Satterthwaite degrees of freedom); the paired test is a one-sample test of the differences trimmed by the difference, with n - 1 degrees of freedom and the correlation of the two samples in its intervals. Ratio metrics use the delta method on the joint winsorized covariance; giving only one denominator, or paired samples of different length, raises ValueError.',
 ['inputs','configurations'],'all samples, quantiles and denominators','Tests compare with scipy on some samples and with simulations.',
 [ST],[('yuens_t_test_ind',ST),('yuens_t_test_paired',ST)])
p('S06','CUPED keeps the trimmed mean and never makes the estimate worse',
 'The CUPED adjustment without trimming is metric - cov / var * (covariate - mean of covariate); with trimming, theta comes from the winsorized covariance after trimming by the adjusted metric, the trimmed mean of the metric is preserved, and the unadjusted metric is returned unless the winsorized variance strictly decreases. A constant covariate returns the metric unchanged, and the inputs are never modified.',
 ['inputs'],'all metric and covariate arrays and quantiles','Tests use a few random samples.',
 [ST],[('apply_cuped_adjustment',ST)])
p('S07','Minimum detectable effects match the tests they are for',
 'The minimum detectable effect is standard error * (t quantile of 1 - alpha/2, or 1 - alpha when one-sided, plus t quantile of power) at the test\'s degrees of freedom: for the two-sample test two groups of half the sample size each with the same standard deviation, for the paired test the standard error and degrees of freedom of one sample of differences. Defaults are power 0.8 and alpha 0.05.',
 ['inputs','configurations'],'all sample sizes, deviations, powers, alphas','Tests check few points.',
 [ST],[('calculate_minimum_detectable_effect_from_stats',ST),('yuens_t_test_ind_minimum_detectable_effect',ST),('yuens_t_test_paired_minimum_detectable_effect',ST)])
# ---- simulations
p('M01','Simulated start weeks always have enough history on both sides',
 'The minimum start week is the first historical week plus the largest candidate pretest weeks, and ValueError is raised when the weeks spanned by the history (inclusive) are fewer than the largest runtime plus the largest pretest. A simulation analysis uses exactly the start weeks from its minimum to the last week of the history minus the runtime plus 1, both inclusive.',
 ['inputs','configurations'],'all histories and candidates','Tests check a couple of ranges.',
 [ES],[('calculate_minimum_start_week_id',ES),('SimulationAnalysis.__post_init__',ES),('SimulationAnalysis.valid_start_week_ids',ES)])
p('M02','Generated designs are exactly the valid combinations of the candidates',
 'Generating designs returns one regular design (when allowed) and one crossover design (when allowed, runtime even and more than twice the washout) for every combination of the candidate runtime, pretest, top, bottom and post trim values, each value in its own field, skipping only combinations with pre-trimming and no pretest weeks. Allowing crossover without washout weeks raises ValueError.',
 ['inputs','configurations'],'all candidate collections','Tests use a few small products.',
 [ES],[('generate_all_valid_designs',ES)])
p('M03','The minimum detectable effect is estimated with the design\'s own analysis',
 'Estimating averages the mean and the variance (square root taken afterwards) of the primary metric over all valid start weeks, where each week\'s data is pivoted and pre-trimmed as in the design and summarised as the analysis would (regular: CUPED if pretest data exists then trimmed; crossover: trimmed differences, adding the squared period-mean difference / 4 when post-trimming), and combines them with the design\'s power and alpha into the absolute and relative effect. Item counts that differ from the design, or between weeks, raise RuntimeError.',
 ['inputs','configurations'],'all designs and histories','Tests use small synthetic histories.',
 [ES],[('SimulationAnalysis.estimate_minimum_detectable_effect',ES)])
p('M04','Simulations resample, trim, assign and analyse as a real experiment would',
 'Validating a design raises RuntimeError before the minimum detectable effect is estimated; otherwise it runs exactly the requested number of simulations, each at a random valid start week on data bootstrapped over items, then pre-trimmed, then randomly assigned per item, first analysed without any effect and then again after adding the minimum detectable effect to the treated observations, both with the design\'s primary metric. Both result tables are stored in simulation order.',
 ['inputs','configurations','histories'],'all designs, histories and numbers of simulations','Tests run 10s of simulations with mocks.',
 [ES],[('SimulationAnalysis.validate_design',ES),('apply_random_treatment_assignment',ES),('_bootstrap_sample_data',ES)])
p('M05','Robustness checks gate each design on the documented tests',
 'After validation: A/A p-values are tested for uniformity (Kolmogorov-Smirnov), the A/A false positive count against alpha (binomial, greater), the A/B detections against power (binomial, less), and the A/A and A/B estimates against 0 and the minimum detectable effect (one-sample t-test). Each check passes exactly when its p-value is at least the threshold (an undefined p-value fails), all checks pass exactly when all five do, and everything is None before validation.',
 ['inputs','histories'],'all simulation results, thresholds and call histories','Tests set a few result tables.',
 [ES],[('SimulationAnalysis',ES)])
p('M06','Summaries report each design\'s own parameters and results',
 'The summary of an analysis contains every design field except the salt, the design id, and the effect, relative effect, false positive rate, power and all check results each under its own name. The summary table has one row per analysis indexed by design id and sorted by the requested column, and formatting moves to the caption only design columns that are constant, drops only validation columns when asked, and colours passed checks green and failed ones red.',
 ['inputs'],'all collections of analyses','Tests use one or two analyses.',
 [ES],[('SimulationAnalysis.summary_dict',ES),('make_analysis_summary_dataframe',ES),('format_analysis_summary_dataframe',ES)])
# ---- cross-cutting
p('R01','Functions do not modify the data they are given',
 'No public function modifies a data frame, array, list, dictionary or set passed in by the caller, on success or failure, except the documented in-place ones: adding week ids, time periods and at-least-one metrics, applying a synthetic effect to pivoted data, and storing a generated salt in a design.',
 ['inputs','histories'],'all public functions, all inputs, on every path including errors',
 'Tests rarely compare inputs before and after, and never on error paths.',
 [DP,EA,ED,ES,PL,ST],[('all public functions','feedx/')])
p('R02','All randomness comes from the caller\'s generator',
 'Every random draw (synthetic data, downsampling, tie breaking, bootstrap, start weeks, random assignment) uses the generator passed by the caller, so results are reproducible from its seed and no global random state is read or changed. The only exception is generating a new random salt, which must not be seeded.',
 ['inputs','histories'],'all public functions and all seeds','Tests cannot see an unseeded draw whose effect is averaged out.',
 [DP,ES,ED],[('every use of randomness','feedx/')])
p('G01','Synthetic data has the documented shape and distributions',
 'Synthetic data has one row per item and day for weeks before and after the start date, with item-level expected impressions, cost per click and conversion value drawn from lognormal distributions with the given mean and standard deviation, click-through and conversion rates from beta distributions with the given mean, and daily poisson impressions, binomial clicks and conversions, cost = clicks * cost per click and value = conversions * average value. Parameters outside their allowed range raise ValueError.',
 ['inputs','configurations'],'all parameter values','Tests check default parameters.',
 [DP],[('generate_synthetic_data',DP)])
p('F01','Formatted results show the results they were given',
 'The formatted results show for every metric its own relative, absolute and projected (52 * sample size * absolute) difference and bounds with the requested decimals, a confidence level of 1 - alpha, the p-value with "(Significant)" exactly when it is below alpha, and only the original columns hidden. Insignificant rows are grey, significant increases green and significant decreases pink.',
 ['inputs','configurations'],'all result tables and display options','The only test checks that formatting runs.',
 [EA],[('format_experiment_analysis_results_dataframe',EA)])
p('P01','Time plots show group means, their difference and its interval',
 'The metric-over-time plot uses the columns named by the caller and shows for each date the mean of the (optionally per-date CUPED adjusted by each item\'s total pretest metric) metric per group, the treatment minus control difference, and its normal confidence interval at the design\'s alpha with standard errors combined over both groups. Without any pretest data the adjustment raises ValueError.',
 ['inputs','configurations'],'all data sets, designs and column names','Tests check titles and labels.',
 [PL],[('plot_metric_over_time',PL),('_add_cuped_adjusted_metric_per_date',PL)])
p('P02','Effect plots show every metric with its own interval',
 'The effects plot draws the primary metric alone on the first axis and every other metric on the second, each at its labelled position with its own estimate, lower and upper error and significance style; unknown estimates are drawn at 0 and infinite bounds are drawn as arrows reaching at least the furthest finite bound on that side. ValueError is raised unless exactly one row (ignoring case) is the primary metric.',
 ['inputs'],'all result tables, including infinite bounds','Tests check labels on one table.',
 [PL],[('plot_effects',PL)])
p('P03','History and deep-dive plots show the documented distributions',
 'The history plot shows the total metric per week, the fraction of items with at least each average weekly value, and the cumulative share of the metric captured by the top items. The deep-dive plot shows A/A and A/B estimates with their true effects (0 and the minimum detectable effect) and the A/A and A/B p-values, and raises ValueError before validation.',
 ['inputs'],'all data sets and simulation results','Tests check labels and titles.',
 [PL],[('plot_metric_history',PL),('plot_deep_dive',PL)])
p('U01','Documented usage matches the public API',
 'Every call of a library function in the README example and the notebooks uses an existing public function with arguments it accepts and all required arguments, reads only attributes that exist, and uses only names the example itself defines.',
 ['programs'],'all documented calls','No test runs the README or the notebooks.',
 [RM,'notebooks/'],[('README example',RM),('notebooks','notebooks/')])
# ---- not applicable
p('N01','False positive rates and power reach their targets',
 'On data that meets the assumptions, the fraction of significant A/A tests converges to alpha and that of A/B tests at the minimum detectable effect converges to the power.',
 ['inputs'],'all data-generating distributions','A limit over sampling distributions.',
 [ST,ES],[('yuens_t_test_ind',ST)])
p('N02','The coinflip splits any feed about evenly',
 'For any realistic set of item ids and a random salt, the share of treated items is statistically indistinguishable from 50%.',
 ['inputs'],'all id sets and salts','A statistical property of md5.',
 [ED],[('Coinflip.__call__',ED)])
p('N03','Results are numerically accurate',
 'Trimmed statistics, intervals and p-values are accurate to floating point tolerance for badly scaled data (huge means with small variances, near-constant arrays).',
 ['inputs'],'all floating point inputs','Rounding depends on values at run time.',
 [ST],[('TrimmedArray.cov',ST)])
p('N04','Validation simulations finish in acceptable time and memory',
 'Preparing, estimating and validating a design with realistic feeds (hundreds of thousands of items) completes within notebook memory and time limits.',
 ['inputs'],'all feed sizes','Resource use is a run-time quantity.',
 [ES],[('SimulationAnalysis.validate_design',ES)])
here=os.path.dirname(os.path.abspath(__file__))
for q in P:
    assert len(q['title'])<=80,(q['id'],len(q['title']))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+'\n')
print(len(P))
