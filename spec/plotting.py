"""Reference: what the plots show."""
import datetime as dt

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from scipy import stats

from feedx import experiment_design
from feedx import experiment_simulations
from feedx import statistics


def plot_metric_history(
    data: pd.DataFrame, metric_column: str, item_id_column: str = 'item_id',
    week_start_column_name: str = 'week_start') -> np.ndarray:
  _, axs = plt.subplots(nrows=1, ncols=3)
  weekly = data.groupby(week_start_column_name)[[metric_column]].sum(
      ).reset_index()
  axs[0].plot(weekly[week_start_column_name], weekly[metric_column])
  per_item = data.groupby(item_id_column)[metric_column].mean().values
  n = len(per_item)
  ascending = np.sort(per_item)
  axs[1].plot(ascending, (n - np.arange(n)) / n, label='')
  axs[1].set_yscale('log')
  descending = ascending[::-1]
  axs[2].plot((np.arange(n) + 1) / n,
              np.cumsum(descending) / np.sum(per_item), label='')
  axs[2].set_xscale('log')
  return axs


def plot_deep_dive(
    design_results: experiment_simulations.SimulationAnalysis) -> np.ndarray:
  if design_results.simulated_false_positive_rate is None:
    raise ValueError('not validated')
  aa = design_results.aa_simulation_results
  ab = design_results.ab_simulation_results
  _, axs = plt.subplots(nrows=1, ncols=3)
  axs[0].hist(aa['absolute_difference'], bins='auto',
              label='A/A absolute difference')
  axs[0].axvline(x=0.0)
  axs[0].hist(ab['absolute_difference'], bins='auto',
              label='A/B absolute difference')
  axs[0].axvline(x=design_results.minimum_detectable_effect)
  axs[0].legend()
  axs[1].hist(aa['p_value'], bins='auto', label=None)
  axs[2].hist(ab['p_value'], bins='auto', label=None)
  return axs


def plot_metric_over_time(
    data: pd.DataFrame, *, metric_column: str, item_id_column: str,
    time_period_column: str, treatment_assignment_column: str,
    date_column: str, design: experiment_design.ExperimentDesign,
    apply_cuped_adjustment: bool = True,
) -> tuple[plt.Figure, plt.Axes]:
  data = data.sort_values(date_column)
  if apply_cuped_adjustment:
    data = data.copy()
    if 'pretest' not in data[time_period_column].values:
      raise ValueError('no pretest data')
    pretest = data[time_period_column] == 'pretest'
    totals = data.loc[pretest].groupby(item_id_column)[metric_column].sum()
    covariate = data[item_id_column].map(totals)
    metric = data[metric_column].copy()
    data[metric_column] = np.empty(len(data), dtype=np.float64)
    for date in data[date_column].drop_duplicates().values:
      on_date = data[date_column] == date
      data.loc[on_date, metric_column] = statistics.apply_cuped_adjustment(
          metric.loc[on_date].values, covariate.loc[on_date].values, 0.0)

  names = {1: 'Treatment', 0: 'Control'}
  means = pd.pivot_table(
      data=data, index=date_column, columns=treatment_assignment_column,
      values=metric_column, aggfunc='mean').rename(names, axis=1)
  errors = pd.pivot_table(
      data=data, index=date_column, columns=treatment_assignment_column,
      values=metric_column,
      aggfunc=lambda x: np.std(x) / np.sqrt(len(x))).rename(names, axis=1)
  delta = means['Treatment'] - means['Control']
  half_width = stats.norm.ppf(1.0 - design.alpha / 2) * np.sqrt(
      errors['Treatment'] ** 2 + errors['Control'] ** 2)

  in_first_period = data[time_period_column].isin(
      ['test', 'test_1', 'washout_1'])
  start = data.loc[in_first_period, date_column].min()
  first = start - dt.timedelta(weeks=design.pretest_weeks)
  last = start + dt.timedelta(weeks=design.runtime_weeks)

  fig, ax = plt.subplots(nrows=2, sharex=True)
  means.plot(ax=ax[0], label=metric_column.replace('_', ' '))
  ax[0].set_xlim(first, last)
  delta.plot(ax=ax[1], label='Treatment - Control')
  ax[1].fill_between(
      delta.index.values, delta - half_width, delta + half_width,
      label=f'{1.0 - design.alpha:.0%} Confidence Interval')
  ax[1].axhline(0.0)
  ax[1].set_xlim(first, last)
  for axes in (ax[0], ax[1]):
    if design.is_crossover:
      washout = dt.timedelta(weeks=design.crossover_washout_weeks)
      test_weeks = (
          design.runtime_weeks - 2 * design.crossover_washout_weeks) // 2
      crossover = start + washout + dt.timedelta(weeks=test_weeks)
      axes.axvspan(start, start + washout, label='Washout')
      axes.axvspan(crossover, crossover + washout)
      axes.axvline(start, label='Experiment Start')
      axes.axvline(crossover, label='Crossover')
    else:
      axes.axvline(start, label='Experiment Start')
  ax[0].legend()
  return fig, ax


def _draw(ax, position, value, lower, upper, style=None):
  """Horizontal error bars; arrows towards infinite bounds."""
  if len(position) == 0:
    return
  position = np.asarray(position)
  value = np.asarray(value, dtype=float)
  lower = np.asarray(lower, dtype=float)
  upper = np.asarray(upper, dtype=float)
  no_lower = ~np.isfinite(lower)
  no_upper = ~np.isfinite(upper)
  value = np.copy(value)
  value[~np.isfinite(value)] = 0.0
  below = value - lower
  below[no_lower] = 0.0
  above = upper - value
  above[no_upper] = 0.0
  smallest = np.min(np.append(lower[~no_lower], value))
  largest = np.max(np.append(upper[~no_upper], value))
  bars = ax.errorbar(y=position, x=value, xerr=[below, above])
  if style is not None:
    bars[-1][0].set_linestyle(style)
  if np.sum(no_lower) > 0:
    bars = ax.errorbar(y=position[no_lower], x=value[no_lower],
                       xerr=value[no_lower] - smallest, xuplims=True)
    if style is not None:
      bars[-1][0].set_linestyle(style)
  if np.sum(no_upper) > 0:
    bars = ax.errorbar(y=position[no_upper], x=value[no_upper],
                       xerr=largest - value[no_upper], xlolims=True)
    if style is not None:
      bars[-1][0].set_linestyle(style)


def plot_effects(
    data: pd.DataFrame, design: experiment_design.ExperimentDesign,
    relative_difference_column_name: str = 'relative_difference',
    relative_difference_lower_bound_column_name: str = (
        'relative_difference_lower_bound'),
    relative_difference_upper_bound_column_name: str = (
        'relative_difference_upper_bound'),
    is_significant_column_name: str = 'is_significant') -> np.ndarray:
  metrics = data.reset_index(names='metric_')['metric_']
  primary = (
      metrics.str.lower() == design.primary_metric.lower()).values
  if np.sum(primary) != 1:
    raise ValueError('primary metric')
  value = data[relative_difference_column_name]
  lower = data[relative_difference_lower_bound_column_name]
  upper = data[relative_difference_upper_bound_column_name]
  significant = data[is_significant_column_name]

  _, axs = plt.subplots(nrows=2, sharex=True)
  style = None if significant.loc[primary].values[0] else '--'
  _draw(axs[0], [0], value.loc[primary].values, lower.loc[primary].values,
        upper.loc[primary].values, style)
  axs[0].set_yticks([0], metrics.loc[primary])
  axs[0].axvline(0.0)

  category = metrics.loc[~primary].astype('category').cat
  position = category.codes.values
  shown = significant.loc[~primary].values
  for subset, style in ((shown, None), (~shown, '--')):
    _draw(axs[1], position[subset], value.loc[~primary].values[subset],
          lower.loc[~primary].values[subset],
          upper.loc[~primary].values[subset], style)
  labels = category.categories.values
  axs[1].set_yticks(np.arange(len(labels)), labels)
  axs[1].axvline(0.0)
  axs[0].legend()
  return axs
