"""Reference: synthetic data, preparation and validation of data."""
from collections.abc import Collection
import datetime as dt
import functools
from typing import Callable

import numpy as np
import pandas as pd
from scipy import stats

from feedx import experiment_analysis
from feedx import experiment_design

_METRICS = ('clicks', 'impressions', 'total_cost', 'conversions',
            'total_conversion_value')

_CHECK_NAMES = (
    'no_duplicate_items_per_date', 'no_nulls', 'dates_are_daily_or_weekly',
    'week_ids_are_consecutive_integers', 'all_metrics_are_finite',
    'all_metrics_are_non_negative', 'number_of_items_matches_design',
    'experiment_dates_match_design', 'treatment_assignment_is_unique',
    'coinflip_salt_validation', 'no_sample_ratio_mismatch',
    'primary_metric_in_metrics')


# ----------------------------------------------------------- synthetic data
def _lognormal(rng, mean, sd, size):
  if not np.all(mean > 0) or not np.all(sd > 0):
    raise ValueError('out of range')
  spread = np.log(1.0 + (sd / mean) ** 2)
  return rng.lognormal(
      mean=np.log(mean) - spread / 2, sigma=np.sqrt(spread), size=size)


def _beta(rng, mean, sd, size):
  if not (0 < mean < 1) or not (0 < sd < 1):
    raise ValueError('out of range')
  total = np.sqrt(mean * (1.0 - mean)) / sd
  return rng.beta(a=mean * total, b=(1.0 - mean) * total, size=size)


def generate_synthetic_data(
    rng: np.random.Generator,
    n_items: int = 7000,
    impressions_average: float = 50.0,
    impressions_standard_deviation: float = 100.0,
    ctr_average: float = 0.02,
    ctr_standard_deviation: float = 0.015,
    cpc_average: float = 0.5,
    cpc_item_level_standard_deviation: float = 0.5,
    cpc_daily_level_standard_deviation: float = 0.5,
    conversion_rate_average: float = 0.1,
    conversion_rate_standard_deviation: float = 0.075,
    conversion_value_average: float = 100.0,
    conversion_value_item_level_standard_deviation: float = 80.0,
    conversion_value_daily_level_standard_deviation: float = 10.0,
    weeks_before_start_date: int = 0,
    weeks_after_start_date: int = 13,
    start_date: str = '2023-01-01',
) -> pd.DataFrame:
  start = dt.datetime.strptime(start_date, '%Y-%m-%d')
  after = [(start + dt.timedelta(days=i)).strftime('%Y-%m-%d')
           for i in range(7 * weeks_after_start_date)]
  before = [(start - dt.timedelta(days=1 + i)).strftime('%Y-%m-%d')
            for i in range(7 * weeks_before_start_date)]
  dates, items = np.meshgrid(
      after + before, [f'item_{i}' for i in range(n_items)])
  per_item = (n_items, 1)
  mean_impressions = _lognormal(
      rng, impressions_average, impressions_standard_deviation, per_item)
  ctr = _beta(rng, ctr_average, ctr_standard_deviation, per_item)
  mean_cpc = _lognormal(
      rng, cpc_average, cpc_item_level_standard_deviation, per_item)
  conversion_rate = _beta(
      rng, conversion_rate_average, conversion_rate_standard_deviation,
      per_item)
  mean_value = _lognormal(
      rng, conversion_value_average,
      conversion_value_item_level_standard_deviation, per_item)
  impressions = rng.poisson(lam=mean_impressions, size=dates.shape)
  clicks = rng.binomial(n=impressions, p=ctr)
  cpc = _lognormal(
      rng, mean_cpc, cpc_daily_level_standard_deviation, dates.shape)
  conversions = rng.binomial(n=clicks, p=conversion_rate)
  value = _lognormal(
      rng, mean_value, conversion_value_daily_level_standard_deviation,
      dates.shape)
  return pd.DataFrame({
      'date': dates.flatten(),
      'item_id': items.flatten(),
      'impressions': impressions.flatten(),
      'clicks': clicks.flatten(),
      'conversions': conversions.flatten(),
      'total_cost': (clicks * cpc).flatten(),
      'total_conversion_value': (conversions * value).flatten(),
  })


def add_relative_effects_to_synthetic_data_for_demo(
    synthetic_data: pd.DataFrame,
    *,
    time_period_column: str,
    treatment_assignment_column: str,
    impressions_relative_effect: float = 0.1,
    clicks_relative_effect: float = 0.2,
    conversions_relative_effect: float = 0.2,
    total_conversion_value_relative_effect: float = 0.2,
    total_cost_relative_effect: float = 0.2,
) -> pd.DataFrame:
  period = synthetic_data[time_period_column]
  assigned = synthetic_data[treatment_assignment_column]
  if 'test_1' in period.values:
    treated = (
        period.isin(['test_1', 'washout_1']) & (assigned == 1)
        | period.isin(['test_2', 'washout_2']) & (assigned == 0))
  else:
    treated = (period == 'test') & (assigned == 1)
  output = synthetic_data.copy()
  output.loc[treated, 'impressions'] *= 1.0 + impressions_relative_effect
  output.loc[treated, 'clicks'] *= 1.0 + clicks_relative_effect
  output.loc[treated, 'conversions'] *= 1.0 + conversions_relative_effect
  output.loc[treated, 'total_conversion_value'] *= (
      1.0 + total_conversion_value_relative_effect)
  output.loc[treated, 'total_cost'] *= 1.0 + total_cost_relative_effect
  return output


# -------------------------------------------------------------- preparation
def standardize_column_names_and_types(
    data: pd.DataFrame,
    *,
    item_id_column: str,
    date_column: str,
    clicks_column: str | None = None,
    impressions_column: str | None = None,
    total_cost_column: str | None = None,
    conversions_column: str | None = None,
    total_conversion_value_column: str | None = None,
    custom_columns: dict[str, str] | None = None,
    custom_parse_functions: dict[
        str, Callable[[pd.Series], pd.Series]] | None = None,
) -> pd.DataFrame:
  custom = custom_columns or {}
  custom_parsers = custom_parse_functions or {}
  standard = {
      'item_id': item_id_column,
      'date': date_column,
      'clicks': clicks_column,
      'impressions': impressions_column,
      'total_cost': total_cost_column,
      'conversions': conversions_column,
      'total_conversion_value': total_conversion_value_column,
  }
  if any(name in standard for name in custom):
    raise ValueError('custom column is a standard column')
  if any(name in standard or name not in custom for name in custom_parsers):
    raise ValueError('bad custom parse function')
  sources = {name: source for name, source in (standard | custom).items()
             if source is not None}
  for source in sources.values():
    if source not in data.columns:
      raise ValueError('missing column')
  as_number = lambda x: pd.to_numeric(x).astype(float)
  parsers = {
      'item_id': lambda x: x.astype(str),
      'date': pd.to_datetime,
      'clicks': as_number,
      'impressions': as_number,
      'total_cost': as_number,
      'conversions': as_number,
      'total_conversion_value': as_number,
  } | custom_parsers
  parsers = {
      name: parse for name, parse in parsers.items() if name in sources}
  output = data[list(sources.values())].rename(
      columns={source: name for name, source in sources.items()})
  for name in output.columns:
    output[name] = parsers.get(name, lambda x: x)(output[name])
  return output


def fill_missing_rows_with_zeros(
    data: pd.DataFrame,
    item_id_column: str = 'item_id',
    date_column: str = 'date',
) -> pd.DataFrame:
  if item_id_column not in data.columns or date_column not in data.columns:
    raise ValueError('missing column')
  grid = data[[item_id_column]].drop_duplicates().merge(
      data[[date_column]].drop_duplicates(), how='cross')
  output = grid.merge(data, on=[item_id_column, date_column], how='left')
  for column in output.columns:
    if column not in (item_id_column, date_column):
      output[column] = output[column].fillna(0).astype(data[column].dtype)
  return output


def downsample_items(
    data: pd.DataFrame,
    downsample_fraction: float,
    item_id_column: str,
    rng: np.random.RandomState,
) -> pd.DataFrame:
  if not 0.0 < downsample_fraction <= 1.0:
    raise ValueError('fraction')
  if item_id_column not in data.columns:
    raise ValueError('missing column')
  if downsample_fraction == 1.0:
    return data
  kept = data[item_id_column].drop_duplicates().sample(
      frac=downsample_fraction, random_state=rng)
  return data[data[item_id_column].isin(kept)]


def add_week_id_and_week_start(
    data: pd.DataFrame,
    date_column: str,
    experiment_start_date: str | None = None,
    week_id_column: str = 'week_id',
    week_start_column: str = 'week_start',
) -> pd.DataFrame:
  if experiment_start_date is None:
    start = data[date_column].min()
  else:
    start = dt.datetime.strptime(experiment_start_date, '%Y-%m-%d')
  data[week_id_column] = (data[date_column] - start).dt.days // 7
  data[week_start_column] = data[week_id_column].apply(
      lambda week: start + dt.timedelta(days=7 * week))
  return data


def group_data_to_complete_weeks(
    data: pd.DataFrame,
    date_column: dt.datetime,
    item_id_column: str,
    week_id_column: str,
    week_start_column: str,
    extra_group_columns: list[str] | None = None,
) -> pd.DataFrame:
  extra = extra_group_columns or []
  dates = data[date_column].drop_duplicates().sort_values()
  spacing = (dates - dates.shift(1)).iloc[1:].dt.days.values
  if np.all(spacing == 1):
    keys = [week_id_column, week_start_column, item_id_column] + extra
    sums = {column: (column, 'sum') for column in data.columns.values
            if column not in keys + [date_column]}
    weekly = data.groupby(keys).agg(
        **sums, days_in_week=(date_column, 'nunique')).reset_index()
    return weekly[weekly['days_in_week'] == 7].drop(columns=['days_in_week'])
  if np.all(spacing == 7):
    return data.drop(columns=[date_column])
  raise ValueError('mixed frequency')


def add_at_least_one_metrics(
    data: pd.DataFrame, metrics: dict[str, str]) -> pd.DataFrame:
  for metric, flag in metrics.items():
    data[flag] = (data[metric] > 0).astype(int)
  return data


def trim_outliers(
    data: pd.DataFrame,
    order_by: str | tuple[str, ...],
    trim_percentile_top: float,
    trim_percentile_bottom: float,
    rng: np.random.Generator,
) -> pd.DataFrame:
  top, bottom = trim_percentile_top, trim_percentile_bottom
  if top < 0.0 or bottom < 0.0 or top + bottom >= 1.0:
    raise ValueError('percentiles')
  n = len(data)
  n_top = int(np.floor(top * n))
  n_bottom = int(np.floor(bottom * n))
  if n_top == 0 and n_bottom == 0:
    return data
  rank = data.sample(frac=1.0, random_state=rng)[order_by].rank(
      method='first', ascending=False)
  return data.loc[(rank > n_top) & (rank <= n - n_bottom)]


# --------------------------------------------------------------- validation
def _check(name):
  def wrap(is_broken):
    @functools.wraps(is_broken)
    def run(*args, skip_validation_checks=None, **kwargs) -> None:
      if is_broken(*args, **kwargs) and name not in (
          skip_validation_checks or []):
        raise ValueError(name)
    return run
  return wrap


@_check('no_nulls')
def _nulls(data):
  return np.any((data.isnull().sum() + data.isna().sum()).values > 0)


@_check('no_duplicate_items_per_date')
def _incomplete(data, item_id_column, date_column):
  per_date = data[[date_column, item_id_column]].groupby(date_column)
  rows = per_date.count()[item_id_column]
  unique = per_date.nunique()[item_id_column]
  return np.any(rows != unique) or np.any(
      rows.values != data[item_id_column].nunique())


@_check('dates_are_daily_or_weekly')
def _bad_spacing(data, date_column):
  if not pd.api.types.is_datetime64_any_dtype(data[date_column]):
    raise ValueError('not a datetime')
  dates = data.sort_values(date_column)[date_column].drop_duplicates()
  days = (dates - dates.shift(1)).iloc[1:].dt.days.values
  return not (np.all(days == 7) or np.all(days == 1))


@_check('week_ids_are_consecutive_integers')
def _week_gap(data, week_id_column, date_column):
  if not pd.api.types.is_integer_dtype(data[week_id_column]):
    raise ValueError('not an integer')
  weeks = data[[week_id_column, date_column]].drop_duplicates().sort_values(
      date_column)[week_id_column]
  steps = (weeks - weeks.shift(1)).iloc[1:].values
  return not np.all((steps == 0) | (steps == 1))


@_check('all_metrics_are_finite')
def _not_finite(data, metric_columns):
  return any((~np.isfinite(data[column].values)).sum()
             for column in metric_columns)


@_check('all_metrics_are_non_negative')
def _negative(data, metric_columns):
  return any((data[column] < 0).sum() for column in metric_columns)


@_check('number_of_items_matches_design')
def _wrong_item_count(data, design, item_id_column):
  return data[item_id_column].nunique() != design.n_items_after_pre_trim


@_check('experiment_dates_match_design')
def _wrong_dates(data, design, date_column, start_date, has_concluded):
  start = dt.datetime.strptime(start_date, '%Y-%m-%d')
  first = start - dt.timedelta(days=7 * design.pretest_weeks)
  last = start + dt.timedelta(days=7 * (design.runtime_weeks - 1))
  return (data[date_column].min() > first
          or has_concluded and data[date_column].max() < last)


@_check('treatment_assignment_is_unique')
def _ambiguous_assignment(data, item_id_column, treatment_assignment_column):
  return np.any(data.groupby(item_id_column)[
      treatment_assignment_column].nunique() != 1)


@_check('coinflip_salt_validation')
def _wrong_assignment(
    data, design, treatment_assignment_column, item_id_column):
  expected = data[item_id_column].apply(
      experiment_design.Coinflip(design.coinflip_salt)).values
  return not np.array_equal(
      data[treatment_assignment_column].values, expected)


@_check('primary_metric_in_metrics')
def _missing_primary(metric_columns, primary_metric):
  return primary_metric not in metric_columns


@_check('no_sample_ratio_mismatch')
def validate_no_sample_ratio_mismatch(
    experiment_data: pd.DataFrame,
    item_id_column: str,
    treatment_assignment_column: str,
    p_value_threshold: float = 0.001,
):
  items = experiment_data.groupby(treatment_assignment_column)[
      item_id_column].nunique()
  treated, control = items.get(1, 0), items.get(0, 0)
  p_value = stats.binomtest(
      treated, n=treated + control, p=0.5, alternative='two-sided').pvalue
  return p_value < p_value_threshold


def _known_names(names):
  for name in names or []:
    if name not in _CHECK_NAMES:
      raise ValueError('unknown check')


def validate_historical_data(
    historical_data: pd.DataFrame,
    item_id_column: str,
    date_column: str,
    week_id_column: str,
    primary_metric_column: str,
    skip_validation_checks: list[str] | None = None,
) -> None:
  skip = skip_validation_checks
  _known_names(skip)
  _nulls(historical_data, skip_validation_checks=skip)
  _incomplete(historical_data, item_id_column, date_column,
              skip_validation_checks=skip)
  _bad_spacing(historical_data, date_column, skip_validation_checks=skip)
  _week_gap(historical_data, week_id_column, date_column,
            skip_validation_checks=skip)
  _not_finite(historical_data, [primary_metric_column],
              skip_validation_checks=skip)
  _negative(historical_data, [primary_metric_column],
            skip_validation_checks=skip)


def validate_experiment_data(
    experiment_data: pd.DataFrame,
    *,
    design: experiment_design.ExperimentDesign,
    item_id_column: str,
    date_column: str,
    week_id_column: str,
    treatment_assignment_column: str,
    metric_columns: Collection[str],
    experiment_start_date: str,
    experiment_has_concluded: bool = True,
    can_be_negative_metric_columns: Collection[str] | None = None,
    skip_validation_checks: list[str] | None = None,
) -> None:
  skip = skip_validation_checks
  _known_names(skip)
  _missing_primary(metric_columns, design.primary_metric,
                   skip_validation_checks=skip)
  _nulls(experiment_data, skip_validation_checks=skip)
  _incomplete(experiment_data, item_id_column, date_column,
              skip_validation_checks=skip)
  _bad_spacing(experiment_data, date_column, skip_validation_checks=skip)
  _week_gap(experiment_data, week_id_column, date_column,
            skip_validation_checks=skip)
  _not_finite(experiment_data, metric_columns, skip_validation_checks=skip)
  _negative(
      experiment_data,
      [column for column in metric_columns
       if column not in (can_be_negative_metric_columns or [])],
      skip_validation_checks=skip)
  _wrong_item_count(experiment_data, design, item_id_column,
                    skip_validation_checks=skip)
  _wrong_dates(experiment_data, design, date_column, experiment_start_date,
               experiment_has_concluded, skip_validation_checks=skip)
  _ambiguous_assignment(
      experiment_data, item_id_column, treatment_assignment_column,
      skip_validation_checks=skip)
  _wrong_assignment(
      experiment_data, design, treatment_assignment_column, item_id_column,
      skip_validation_checks=skip)
  validate_no_sample_ratio_mismatch(
      experiment_data, item_id_column, treatment_assignment_column,
      skip_validation_checks=skip)


# ---------------------------------------------------------------- pipelines
def prepare_and_validate_historical_data(
    raw_data: pd.DataFrame,
    *,
    item_id_column: str,
    date_column: str,
    primary_metric: str,
    primary_metric_column: str,
    rng: np.random.RandomState,
    item_sample_fraction: float = 1.0,
    skip_validation_checks: list[str] | None = None,
) -> pd.DataFrame:
  if primary_metric not in _METRICS and primary_metric != 'other':
    raise ValueError('primary metric')
  columns = {'item_id_column': item_id_column, 'date_column': date_column}
  name = primary_metric
  if primary_metric == 'other':
    name = primary_metric_column
    columns['custom_columns'] = {name: name}
    columns['custom_parse_functions'] = {name: lambda x: x.astype(float)}
  else:
    columns[f'{primary_metric}_column'] = primary_metric_column
  data = standardize_column_names_and_types(raw_data, **columns)
  data = fill_missing_rows_with_zeros(data)
  data = add_week_id_and_week_start(data, 'date')
  data = group_data_to_complete_weeks(
      data, 'date', 'item_id', 'week_id', 'week_start')
  data = downsample_items(data, item_sample_fraction, 'item_id', rng)
  validate_historical_data(
      data, item_id_column='item_id', date_column='week_start',
      week_id_column='week_id', primary_metric_column=name,
      skip_validation_checks=skip_validation_checks)
  return data


def prepare_and_validate_experiment_data(
    *,
    daily_performance_data: pd.DataFrame,
    treatment_assignment_data: pd.DataFrame,
    design: experiment_design.ExperimentDesign,
    experiment_start_date: str,
    item_id_column: str,
    date_column: str,
    treatment_assignment_column: str,
    clicks_column: str | None = None,
    impressions_column: str | None = None,
    total_cost_column: str | None = None,
    conversions_column: str | None = None,
    total_conversion_value_column: str | None = None,
    other_metric_columns: list[str] | None = None,
    can_be_negative_metric_columns: list[str] | None = None,
    at_least_one_metrics: dict[str, str] | None = None,
    experiment_has_concluded: bool = True,
    skip_validation_checks: list[str] | None = None,
) -> pd.DataFrame:
  lookup = {
      'clicks': clicks_column,
      'impressions': impressions_column,
      'total_cost': total_cost_column,
      'conversions': conversions_column,
      'total_conversion_value': total_conversion_value_column,
  }
  metrics = [name for name, column in lookup.items() if column is not None]
  extra = {}
  if other_metric_columns:
    extra['custom_columns'] = {c: c for c in other_metric_columns}
    extra['custom_parse_functions'] = {
        c: lambda x: x.astype(float) for c in other_metric_columns}
    metrics = metrics + other_metric_columns
  assignment = treatment_assignment_data.rename(columns={
      item_id_column: 'item_id',
      treatment_assignment_column: 'treatment_assignment'})
  assignment['item_id'] = assignment['item_id'].astype(str)
  assignment['treatment_assignment'] = (
      assignment['treatment_assignment'].astype(int))
  seen = assignment['item_id'].isin(
      daily_performance_data[item_id_column].values.astype(str))
  missing = assignment.loc[~seen, ['item_id']].drop_duplicates()
  missing['date'] = daily_performance_data[date_column].values[0]
  missing = standardize_column_names_and_types(
      missing, item_id_column='item_id', date_column='date')
  data = standardize_column_names_and_types(
      daily_performance_data.copy(),
      item_id_column=item_id_column, date_column=date_column,
      clicks_column=clicks_column, impressions_column=impressions_column,
      total_cost_column=total_cost_column,
      conversions_column=conversions_column,
      total_conversion_value_column=total_conversion_value_column, **extra)
  data = data.merge(missing, on=['item_id', 'date'], how='outer')
  data = fill_missing_rows_with_zeros(data)
  data = add_week_id_and_week_start(data, 'date', experiment_start_date)
  data = experiment_analysis.add_time_period_column(
      data, design=design, start_week_id=0, week_id_column='week_id')
  data = add_at_least_one_metrics(data, at_least_one_metrics or {})
  data = data.merge(assignment, on='item_id')
  validate_experiment_data(
      data,
      design=design,
      item_id_column='item_id',
      date_column='date',
      week_id_column='week_id',
      treatment_assignment_column='treatment_assignment',
      metric_columns=metrics,
      experiment_start_date=experiment_start_date,
      experiment_has_concluded=experiment_has_concluded,
      can_be_negative_metric_columns=can_be_negative_metric_columns or [],
      skip_validation_checks=skip_validation_checks)
  return data


def perform_treatment_assignment(
    historical_data: pd.DataFrame,
    *,
    design: experiment_design.ExperimentDesign,
    rng: np.random.Generator,
    item_id_column: str,
    week_id_column: str | None = None,
    treatment_assignment_column: str = 'treatment_assignment',
) -> pd.DataFrame:
  trimmed = (design.pre_trim_top_percentile > 0.0
             or design.pre_trim_bottom_percentile > 0.0)
  if trimmed and week_id_column is None:
    raise ValueError('week id column needed')
  if item_id_column not in historical_data.columns or (
      trimmed and week_id_column not in historical_data.columns):
    raise ValueError('missing column')
  if item_id_column == treatment_assignment_column:
    raise ValueError('same column')
  if not design.coinflip_salt:
    design.coinflip_salt = experiment_design.Coinflip.with_random_salt().salt
  coinflip = experiment_design.Coinflip(design.coinflip_salt)
  if trimmed:
    weeks = historical_data[week_id_column]
    recent = historical_data.loc[weeks > weeks.max() - design.pretest_weeks]
    totals = recent.groupby(item_id_column)[
        design.primary_metric].sum().reset_index()
    items = trim_outliers(
        totals, design.primary_metric,
        trim_percentile_top=design.pre_trim_top_percentile,
        trim_percentile_bottom=design.pre_trim_bottom_percentile,
        rng=rng)[[item_id_column]]
  else:
    items = historical_data[[item_id_column]].drop_duplicates()
  items[treatment_assignment_column] = items[item_id_column].apply(coinflip)
  validate_no_sample_ratio_mismatch(
      items, item_id_column=item_id_column,
      treatment_assignment_column=treatment_assignment_column)
  return items
