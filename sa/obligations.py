"""Which facts about which functions decide which property.

One entry per property: (function, aspects).  Aspects:
  sig        parameter names, order and defaults
  raises     exception types and the exact condition of each
  ret        the returned value (ret:f,g only those attributes)
  effects    what is drawn, written or sent to collaborators (effects:a,b only
             those operations)
  final      the state of the parameters afterwards (final:p only those)
  cached     a property is recomputed when the object changes
Extra rules are named in EXTRA (see sa/extra.py).
"""

_ALL = ('sig', 'raises', 'ret', 'effects', 'final')
_ED = 'experiment_design.ExperimentDesign'
_DP = 'data_preparation.'
_EA = 'experiment_analysis.'
_ES = 'experiment_simulations.'
_SA = _ES + 'SimulationAnalysis'
_ST = 'statistics.'
_TA = _ST + 'TrimmedArray'
_PL = 'plotting.'

_DESIGN_FIELDS = ('n_items_before_trimming,runtime_weeks,primary_metric,'
                  'pretest_weeks,is_crossover,pre_trim_top_percentile,'
                  'pre_trim_bottom_percentile,post_trim_percentile,'
                  'crossover_washout_weeks,alpha,power,coinflip_salt')

_CHECKS = ('null_p_value', 'false_positive_rate', 'power',
           'aa_point_estimate', 'ab_point_estimate')

OBLIGATIONS = {
    'D01': [(_ED, ('sig', 'raises', 'ret:' + _DESIGN_FIELDS)),
            (_ED + '.load_from_yaml', _ALL)],
    'D02': [(_ED, ('ret:n_items_after_pre_trim,n_items_after_post_trim',
                   'raises')),
            (_DP + 'trim_outliers', _ALL),
            (_TA, ('sig', 'raises')),
            (_TA + '.n_trim', ('ret', 'raises')),
            (_TA + '.original_sample_size', ('ret',)),
            (_TA + '.values_trimmed', ('ret',))],
    'D03': [(_ED + '.write_to_yaml', _ALL), (_ED + '.load_from_yaml', _ALL),
            (_ED, ('sig', 'ret:' + _DESIGN_FIELDS))],
    'D04': [(_ED + '.design_id', _ALL + ('cached',))],
    'D05': [('experiment_design.Coinflip', _ALL),
            ('experiment_design.Coinflip.__call__', _ALL + ('cached',)),
            ('experiment_design.Coinflip.with_random_salt', _ALL)],
    'D06': [(_DP + 'perform_treatment_assignment', _ALL),
            (_DP + 'trim_outliers', _ALL),
            (_DP + 'validate_no_sample_ratio_mismatch', _ALL),
            ('experiment_design.Coinflip.__call__', ('ret', 'raises'))],
    'D07': [(_ED + '.__str__', _ALL)],
    'V01': [(_DP + 'validate_historical_data', _ALL),
            (_DP + 'validate_experiment_data', _ALL)],
    'V02': [(_DP + 'validate_historical_data', ('raises', 'effects')),
            (_DP + 'validate_experiment_data', ('raises', 'effects')),
            (_DP + 'validate_no_sample_ratio_mismatch', ('raises',)),
            ('experiment_design.Coinflip.__call__', ('ret',))],
    'V03': [(_DP + 'validate_no_sample_ratio_mismatch', _ALL)],
    'V04': [(_DP + 'prepare_and_validate_historical_data', _ALL)],
    'V05': [(_DP + 'prepare_and_validate_experiment_data', _ALL)],
    'V06': [(_DP + 'standardize_column_names_and_types', _ALL)],
    'V07': [(_DP + 'fill_missing_rows_with_zeros', _ALL)],
    'V08': [(_DP + 'add_week_id_and_week_start', _ALL),
            (_DP + 'group_data_to_complete_weeks', _ALL)],
    'V09': [(_DP + 'downsample_items', _ALL),
            (_DP + 'add_at_least_one_metrics', _ALL)],
    'O01': [(_EA + 'analyze_single_metric', ('ret',)),
            (_ES + 'apply_synthetic_treatment_effect', _ALL),
            (_DP + 'add_relative_effects_to_synthetic_data_for_demo', _ALL),
            (_ES + 'apply_random_treatment_assignment', _ALL)],
    'O02': [(_EA + 'add_time_period_column', _ALL),
            (_EA + 'get_weeks_between', _ALL),
            (_EA + 'pivot_time_assignment', ('ret', 'effects')),
            (_PL + 'plot_metric_over_time',
             ('effects:axvspan,axvline,set_xlim',))],
    'O03': [(_EA + 'pivot_time_assignment', _ALL)],
    'A01': [(_EA + 'analyze_single_metric', _ALL)],
    'A02': [(_EA + 'analyze_experiment', _ALL), (_EA + 'Metric', _ALL)],
    'S01': [(_ST + 'yuens_t_test_ind', _ALL),
            (_ST + 'yuens_t_test_paired', _ALL),
            (_ST + 'StatisticalTestResults', _ALL)],
    'S02': [(_ST + 'ttest_from_stats', _ALL),
            (_ST + 'absolute_difference_confidence_interval', _ALL),
            (_ST + 'relative_difference_confidence_interval',
             ('raises', 'ret')),
            (_ST + 'calculate_minimum_detectable_effect_from_stats', _ALL),
            (_ST + 'yuens_t_test_ind', ('raises', 'ret')),
            (_ST + 'yuens_t_test_paired', ('raises', 'ret')),
            (_ST + 'yuens_t_test_ind_minimum_detectable_effect',
             ('raises', 'ret')),
            (_ST + 'yuens_t_test_paired_minimum_detectable_effect',
             ('raises', 'ret'))],
    'S03': [(_ST + 'relative_difference_confidence_interval', _ALL)],
    'S04': [(_TA, _ALL)] + [
        (_TA + '.' + m, _ALL) for m in (
            'cov', 'max_values', 'mean', 'min_values', 'n_trim',
            'original_sample_size', 'std', 'values_trimmed', 'var',
            'winsorized_mean')],
    'S05': [(_ST + 'yuens_t_test_ind', _ALL),
            (_ST + 'yuens_t_test_paired', _ALL)],
    'S06': [(_ST + 'apply_cuped_adjustment', _ALL)],
    'S07': [(_ST + 'calculate_minimum_detectable_effect_from_stats', _ALL),
            (_ST + 'yuens_t_test_ind_minimum_detectable_effect', _ALL),
            (_ST + 'yuens_t_test_paired_minimum_detectable_effect', _ALL)],
    'M01': [(_ES + 'calculate_minimum_start_week_id', _ALL),
            (_SA, _ALL),
            (_SA + '.valid_start_week_ids', _ALL + ('cached',))],
    'M02': [(_ES + 'generate_all_valid_designs', _ALL)],
    'M03': [(_SA + '.estimate_minimum_detectable_effect', _ALL),
            (_SA + '.valid_start_week_ids', ('ret',)),
            (_SA, ('ret',))],
    'M04': [(_SA + '.validate_design', _ALL),
            (_ES + 'apply_random_treatment_assignment', _ALL),
            (_ES + 'apply_synthetic_treatment_effect', _ALL)],
    'M05': [(_SA + f'.{c}_robustness_check_pass', _ALL + ('cached',))
            for c in _CHECKS] + [
                (_SA + f'.{c}_robustness_p_value', _ALL + ('cached',))
                for c in _CHECKS] + [
                    (_SA + '.all_robustness_checks_pass', _ALL + ('cached',)),
                    (_SA + '.simulated_false_positive_rate',
                     _ALL + ('cached',)),
                    (_SA + '.simulated_power_at_minimum_detectable_effect',
                     _ALL + ('cached',)),
                    (_SA, _ALL)],
    'M06': [(_SA + '.summary_dict', _ALL + ('cached',)),
            (_ES + 'make_analysis_summary_dataframe', _ALL),
            (_ES + 'format_analysis_summary_dataframe', _ALL)],
    'R01': [],
    'R02': [],
    'G01': [(_DP + 'generate_synthetic_data', _ALL)],
    'F01': [(_EA + 'format_experiment_analysis_results_dataframe', _ALL)],
    'P01': [(_PL + 'plot_metric_over_time', _ALL)],
    'P02': [(_PL + 'plot_effects', _ALL)],
    'P03': [(_PL + 'plot_metric_history', _ALL),
            (_PL + 'plot_deep_dive', _ALL)],
    'U01': [],
}

EXTRA = {'R01': 'mutations', 'R02': 'randomness', 'U01': 'documentation'}

STRICT = {'M05'}          # an undefined p-value is not a passed check

ASSUMPTIONS = [
    'arithmetic is over the reals; floor of a nonnegative number is int()',
    'column name parameters are non-empty and pairwise distinct',
    'comparisons with undefined numbers follow the written form only for the '
    'robustness checks (M05)',
    'the library calls (pandas, numpy, scipy, matplotlib) behave as '
    'documented; the argument tables in sa/sigs.json match the installed '
    'versions',
    'parameters have their annotated types',
    'arguments that only change the look of a plot are not compared',
]
