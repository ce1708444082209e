"""Reference: time periods, pivoting, analysis and formatted results."""
from collections.abc import Collection
import dataclasses

import numpy as np
import pandas as pd
from pandas.io.formats import style

from feedx import experiment_design
from feedx import statistics

ExperimentDesign = experiment_design.ExperimentDesign


def get_weeks_between(
    week_id: pd.Series, start_id: int, end_id: int) -> pd.Series:
  return (week_id >= start_id) & (week_id <= end_id)


def _test_weeks(design: ExperimentDesign):
  """Weeks of one test period of a crossover, without its washout."""
  return (design.runtime_weeks - 2 * design.crossover_washout_weeks) // 2


def _tag(data: pd.DataFrame, design: ExperimentDesign, start, week_id_column,
         time_period_column):
  """Adds the time period of each row to data."""
  week = data[week_id_column]
  data[time_period_column] = None
  data.loc[(week >= start - design.pretest_weeks) & (week <= start - 1),
           time_period_column] = 'pretest'
  if design.is_crossover:
    washout = design.crossover_washout_weeks
    begin = start
    for half in ('1', '2'):
      first = begin + washout
      end = first + _test_weeks(design)
      data.loc[(week >= begin) & (week <= first - 1),
               time_period_column] = 'washout_' + half
      data.loc[(week >= first) & (week <= end - 1),
               time_period_column] = 'test_' + half
      begin = end
  else:
    data.loc[(week >= start) & (week <= start + design.runtime_weeks - 1),
             time_period_column] = 'test'


def add_time_period_column(
    data: pd.DataFrame, *, design: ExperimentDesign, start_week_id: int,
    week_id_column: str, time_period_column: str = 'time_period',
) -> pd.DataFrame:
  if time_period_column in data.columns:
    raise ValueError('exists')
  if week_id_column not in data.columns:
    raise ValueError('missing')
  _tag(data, design, start_week_id, week_id_column, time_period_column)
  return data


def pivot_time_assignment(
    data: pd.DataFrame, *, design: ExperimentDesign, start_week_id: int,
    metric_columns: list[str], item_id_column: str, week_id_column: str,
    treatment_column: str | None = None,
    time_period_column: str = 'time_period',
) -> pd.DataFrame:
  if time_period_column in data.columns:
    raise ValueError('exists')
  index = [item_id_column]
  if treatment_column:
    index.append(treatment_column)
  for column in index + [week_id_column] + metric_columns:
    if column not in data.columns:
      raise ValueError('missing')
  tagged = data.copy()
  _tag(tagged, design, start_week_id, week_id_column, time_period_column)
  if design.is_crossover:
    totals = pd.pivot_table(
        tagged, index=index, columns=time_period_column, values=metric_columns,
        aggfunc='sum', fill_value=0)
    weeks = {
        'pretest': design.pretest_weeks,
        'test_1': _test_weeks(design),
        'test_2': _test_weeks(design),
        'washout_1': design.crossover_washout_weeks,
        'washout_2': design.crossover_washout_weeks,
    }
    for period, n_weeks in weeks.items():
      if period in totals.columns.get_level_values(1):
        totals.loc[:, pd.IndexSlice[:, period]] /= n_weeks
  else:
    totals = pd.pivot_table(
        tagged, index=index, columns=time_period_column, values=metric_columns,
        aggfunc='sum', fill_value=0.0)
    if 'pretest' in totals.columns.get_level_values(1):
      totals.loc[:, pd.IndexSlice[:, 'pretest']] /= design.pretest_weeks
    totals.loc[:, pd.IndexSlice[:, 'test']] /= design.runtime_weeks
  return totals


def _regular(data: pd.DataFrame, treatment, quantile):
  """(treatment, control) values, CUPED adjusted when there is a pretest."""
  values = data['test'].values
  if 'pretest' in data.columns:
    values = statistics.apply_cuped_adjustment(
        values, data['pretest'].values, quantile)
  assignment = data[treatment].values
  return values[assignment == 1], values[assignment == 0]


def _crossover(data: pd.DataFrame, treatment, quantile):
  """(treatment, control) values of each item."""
  first, second = data['test_1'].values, data['test_2'].values
  treated_first = data[treatment].values == 1
  if quantile == 0.0:
    # align both periods, keeping the mean of the control values
    f, s = first - first.mean(), second - second.mean()
    aligned = np.where(treated_first, s, f)
    shift = np.where(treated_first, second, first).mean() - aligned.mean()
    return np.where(treated_first, f, s) + shift, aligned + shift
  return (np.where(treated_first, first, second),
          np.where(treated_first, second, first))


def analyze_single_metric(
    data: pd.DataFrame, *, design: ExperimentDesign, metric_name: str,
    denominator_metric_name: str | None = None,
    treatment_assignment_index_name: str = 'treatment_assignment',
    trimming_quantile_override: float | None = None,
) -> statistics.StatisticalTestResults:
  quantile = design.post_trim_percentile
  if trimming_quantile_override is not None:
    quantile = trimming_quantile_override
  required = [treatment_assignment_index_name]
  if design.is_crossover:
    required += ['test_1', 'test_2']
  else:
    required += ['test']
    if design.pretest_weeks > 0:
      required += ['pretest']
  values = data[metric_name].reset_index()
  for column in required:
    if column not in values.columns:
      raise ValueError('missing')
  if denominator_metric_name is not None:
    denominators = data[denominator_metric_name].reset_index()
    for column in required:
      if column not in denominators.columns:
        raise ValueError('missing')
  prepare = _crossover if design.is_crossover else _regular
  treated, control = prepare(values, treatment_assignment_index_name, quantile)
  denominator_treated = denominator_control = None
  if denominator_metric_name is not None:
    denominator_treated, denominator_control = prepare(
        denominators, treatment_assignment_index_name, quantile)
  if design.is_crossover:
    return statistics.yuens_t_test_paired(
        treated, control, trimming_quantile=quantile,
        denom_values1=denominator_treated, denom_values2=denominator_control,
        alternative='two-sided', alpha=design.alpha)
  return statistics.yuens_t_test_ind(
      treated, control, trimming_quantile=quantile,
      denom_values1=denominator_treated, denom_values2=denominator_control,
      equal_var=False, alternative='two-sided', alpha=design.alpha)


@dataclasses.dataclass
class Metric:
  name: str
  column: str
  denominator_column: str | None = None
  trimming_quantile_override: float | None = None


def analyze_experiment(
    data: pd.DataFrame, *, metrics: Collection[Metric],
    design: ExperimentDesign, week_id_column: str = 'week_id',
    item_id_column: str = 'item_id',
    treatment_assignment_column: str = 'treatment_assignment',
) -> pd.DataFrame:
  columns = [metric.column for metric in metrics]
  for metric in metrics:
    if metric.denominator_column is not None:
      columns.append(metric.denominator_column)
  pivoted = pivot_time_assignment(
      data, design=design, start_week_id=0, metric_columns=list(set(columns)),
      item_id_column=item_id_column, week_id_column=week_id_column,
      treatment_column=treatment_assignment_column)
  rows = []
  for metric in metrics:
    row = dataclasses.asdict(analyze_single_metric(
        pivoted, design=design, metric_name=metric.column,
        denominator_metric_name=metric.denominator_column,
        treatment_assignment_index_name=treatment_assignment_column,
        trimming_quantile_override=metric.trimming_quantile_override))
    row['metric'] = metric.name
    rows.append(row)
  return pd.DataFrame.from_records(rows).set_index('metric')


def _p_value(row):
  p = row['p_value']
  if p < 0.001:
    text = 'p<0.001'
  elif p < 0.01:
    text = f'p={p:.3f}'
  elif p <= 0.99:
    text = f'p={p:.2f}'
  else:
    text = 'p>0.99'
  return text + ' (Significant)' if p < row['alpha'] else text


def _colours(row):
  style_ = 'background-color:pink'
  if row['absolute_difference'].values[0] > 0.0:
    style_ = 'background-color:lightgreen'
  if not row['is_significant'].values[0]:
    style_ = 'color:grey'
  return [style_] * len(row.values)


def format_experiment_analysis_results_dataframe(
    experiment_results: pd.DataFrame, include_relative_effect: bool = True,
    include_absolute_effect: bool = True,
    include_yearly_projected_effect: bool = False,
    relative_effect_decimal_places: int = 2,
    absolute_effect_significant_figures: int = 3,
    yearly_projected_effect_decimal_places: int = 0,
) -> style.Styler:
  level = f"{1.0 - experiment_results['alpha'].values[0]:.0%} CI"
  shown = experiment_results.copy()
  if include_relative_effect:
    shown = shown.astype({
        'relative_difference': float,
        'relative_difference_lower_bound': float,
        'relative_difference_upper_bound': float})
    number = f'{{:+.{relative_effect_decimal_places}%}}'
    shown['Relative Effect Size', 'Point Estimate'] = shown[
        'relative_difference'].apply(number.format)
    shown['Relative Effect Size', level] = shown.apply(
        lambda row: f'{number} to {number}'.format(
            row['relative_difference_lower_bound'],
            row['relative_difference_upper_bound']), axis=1)
  if include_absolute_effect:
    number2 = f'{{:+,.{absolute_effect_significant_figures}g}}'
    shown['Absolute Effect Size (per item per week)', 'Point Estimate'] = (
        shown['absolute_difference'].apply(number2.format))
    shown['Absolute Effect Size (per item per week)', level] = shown.apply(
        lambda row: f'{number2} to {number2}'.format(
            row['absolute_difference_lower_bound'],
            row['absolute_difference_upper_bound']), axis=1)
  if include_yearly_projected_effect:
    number3 = f'{{:+,.{yearly_projected_effect_decimal_places}f}}'
    projected = 52 * shown['sample_size'] * shown['absolute_difference']
    shown['Projected Effect Size (whole feed, per year)', 'Point Estimate'] = (
        projected.apply(number3.format))
    shown['Projected Effect Size (whole feed, per year)', level] = shown.apply(
        lambda row: f'{number3} to {number3}'.format(
            52 * row['sample_size'] * row['absolute_difference_lower_bound'],
            52 * row['sample_size'] * row['absolute_difference_upper_bound']),
        axis=1)
  shown['P-value', ''] = shown.apply(_p_value, axis=1)
  shown.columns = pd.MultiIndex.from_tuples(
      [c if isinstance(c, tuple) else (c, '') for c in shown.columns],
      names=[' ', ' '])
  return shown.style.hide(
      [(c, '') for c in experiment_results.columns], axis='columns'
  ).set_table_styles([
      {'selector': 'td:hover', 'props': [('background-color', '#ffffb3')]},
      {'selector': '.index_name', 'props': (
          'font-style: italic; color: darkgrey; font-weight:normal; '
          'text-align: center;')},
      {'selector': 'th:not(.index_name)', 'props': (
          'background-color: #000066; color: white;')},
  ]).set_table_styles([
      {'selector': 'th.col_heading', 'props': 'text-align: center;'},
      {'selector': 'th.col_heading.level0', 'props': 'font-size: 1.2em;'},
      {'selector': 'td', 'props': 'text-align: right;'},
  ], overwrite=False).apply(_colours, axis=1)
