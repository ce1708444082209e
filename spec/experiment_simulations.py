"""Reference: simulation of experiment designs."""
from collections.abc import Collection
import dataclasses
import itertools

import matplotlib as mpl
import numpy as np
import pandas as pd
from pandas.io.formats import style
from scipy import stats
import tqdm.autonotebook as tqdm

from feedx import data_preparation
from feedx import experiment_analysis
from feedx import experiment_design
from feedx import statistics

ExperimentDesign = experiment_design.ExperimentDesign


def generate_all_valid_designs(
    n_items_before_trimming: int,
    crossover_design_allowed: bool,
    traditional_design_allowed: bool,
    candidate_runtime_weeks: Collection[int],
    candidate_pretest_weeks: Collection[int],
    candidate_pre_trim_top_percentiles: Collection[float],
    candidate_pre_trim_bottom_percentiles: Collection[float],
    candidate_post_trim_percentiles: Collection[float],
    primary_metric: str,
    crossover_washout_weeks: int | None = None,
) -> list[ExperimentDesign]:
  if crossover_design_allowed and crossover_washout_weeks is None:
    raise ValueError('washout')
  designs = []
  for runtime, pretest, top, bottom, post in itertools.product(
      candidate_runtime_weeks, candidate_pretest_weeks,
      candidate_pre_trim_top_percentiles,
      candidate_pre_trim_bottom_percentiles,
      candidate_post_trim_percentiles):
    if pretest == 0 and top + bottom > 0:
      continue
    if traditional_design_allowed:
      designs.append(ExperimentDesign(
          n_items_before_trimming=n_items_before_trimming,
          runtime_weeks=runtime,
          primary_metric=primary_metric,
          pretest_weeks=pretest,
          is_crossover=False,
          pre_trim_top_percentile=top,
          pre_trim_bottom_percentile=bottom,
          post_trim_percentile=post))
    if (crossover_design_allowed and runtime % 2 == 0
        and runtime > 2 * crossover_washout_weeks):
      designs.append(ExperimentDesign(
          n_items_before_trimming=n_items_before_trimming,
          runtime_weeks=runtime,
          primary_metric=primary_metric,
          pretest_weeks=pretest,
          is_crossover=True,
          pre_trim_top_percentile=top,
          pre_trim_bottom_percentile=bottom,
          post_trim_percentile=post,
          crossover_washout_weeks=crossover_washout_weeks))
  return designs


def calculate_minimum_start_week_id(
    candidate_runtime_weeks: Collection[int],
    candidate_pretest_weeks: Collection[int],
    historical_week_ids: Collection[int],
) -> int:
  first, last = min(historical_week_ids), max(historical_week_ids)
  pretest = max(candidate_pretest_weeks)
  if last - first + 1 < pretest + max(candidate_runtime_weeks):
    raise ValueError('history too short')
  return first + pretest


def _bootstrap(data, rng, item_id):
  if 'n_samples_' in data.columns or 'dummy_list_' in data.columns:
    raise ValueError('protected columns')
  sample = data.sample(frac=1.0, replace=True, random_state=rng)
  ids = np.arange(len(sample))
  if isinstance(data.index, pd.MultiIndex):
    sample.index = pd.MultiIndex.from_arrays(
        [ids if name == item_id else sample.index.get_level_values(name)
         for name in sample.index.names],
        names=sample.index.names)
  else:
    sample.index = pd.Index(ids, name=item_id)
  return sample


def apply_random_treatment_assignment(
    data: pd.DataFrame,
    *,
    rng: np.random.Generator,
    item_id_column: str,
    treatment_column: str = 'treatment',
) -> pd.DataFrame:
  if treatment_column in data.columns:
    raise ValueError('treatment column exists')
  if item_id_column not in data.columns:
    raise ValueError('no item id column')
  names = {
      item_id_column if column[0] == item_id_column else '__'.join(column):
      column for column in data.columns.values}
  flat = data.copy()
  flat.columns = list(names)
  items = flat[[item_id_column]].drop_duplicates()
  items[treatment_column] = rng.choice(2, size=len(items))
  output = flat.merge(items, on=item_id_column).set_index(
      [item_id_column, treatment_column])
  output.columns = pd.MultiIndex.from_tuples(
      [names[column] for column in output.columns.values])
  return output


def apply_synthetic_treatment_effect(
    pivoted_data: pd.DataFrame,
    *,
    metric_name: str,
    design: ExperimentDesign,
    effect_size: float,
    treatment_assignment_index_name: str,
) -> pd.DataFrame:
  if treatment_assignment_index_name not in pivoted_data.index.names:
    raise ValueError('no assignment')
  periods = ['test_1', 'test_2'] if design.is_crossover else ['test']
  for period in periods:
    if (metric_name, period) not in pivoted_data.columns:
      raise ValueError('missing column')
  treated = pivoted_data.index.get_level_values(
      treatment_assignment_index_name) == 1
  if design.is_crossover:
    pivoted_data.loc[treated, (metric_name, 'test_1')] += effect_size
    pivoted_data.loc[~treated, (metric_name, 'test_2')] += effect_size
  else:
    pivoted_data.loc[treated, (metric_name, 'test')] += effect_size
  return pivoted_data


@dataclasses.dataclass
class SimulationAnalysis:
  design: ExperimentDesign = dataclasses.field(repr=False)
  historical_data: pd.DataFrame = dataclasses.field(repr=False)
  item_id_column: str = dataclasses.field(repr=False)
  week_id_column: str = dataclasses.field(repr=False)
  minimum_start_week_id: int = dataclasses.field(repr=False)
  maximum_start_week_id: int = dataclasses.field(repr=False, init=False)
  rng: np.random.Generator = dataclasses.field(repr=False)
  time_period_column: str = dataclasses.field(
      repr=False, default='time_period')
  treatment_column: str = dataclasses.field(repr=False, default='treatment')
  robustness_p_value_threshold: float = dataclasses.field(
      repr=False, default=0.0001)
  minimum_detectable_effect: float | None = dataclasses.field(
      default=None, init=False)
  relative_minimum_detectable_effect: float | None = dataclasses.field(
      default=None, init=False)
  primary_metric_average: float | None = dataclasses.field(
      default=None, init=False)
  primary_metric_standard_deviation: float | None = dataclasses.field(
      default=None, init=False)
  aa_simulation_results: pd.DataFrame | None = dataclasses.field(
      repr=False, default=None, init=False)
  ab_simulation_results: pd.DataFrame | None = dataclasses.field(
      repr=False, default=None, init=False)

  def __post_init__(self):
    self.maximum_start_week_id = (
        self.historical_data[self.week_id_column].max()
        - self.design.runtime_weeks + 1)

  @property
  def valid_start_week_ids(self) -> range:
    return range(self.minimum_start_week_id, self.maximum_start_week_id + 1)

  def _sample(self, start_week, bootstrap):
    design = self.design
    pivoted = experiment_analysis.pivot_time_assignment(
        self.historical_data, design=design, start_week_id=start_week,
        metric_columns=[design.primary_metric],
        item_id_column=self.item_id_column,
        week_id_column=self.week_id_column,
        time_period_column=self.time_period_column)
    if bootstrap:
      pivoted = _bootstrap(pivoted, self.rng, self.item_id_column)
    elif len(pivoted) != design.n_items_before_trimming:
      raise RuntimeError('items before trimming')
    if design.pretest_weeks > 0:
      pivoted = data_preparation.trim_outliers(
          pivoted, (design.primary_metric, 'pretest'),
          trim_percentile_top=design.pre_trim_top_percentile,
          trim_percentile_bottom=design.pre_trim_bottom_percentile,
          rng=self.rng)
    if not bootstrap and len(pivoted) != design.n_items_after_pre_trim:
      raise RuntimeError('items after trimming')
    return pivoted

  def _week_stats(self, start_week):
    design = self.design
    quantile = design.post_trim_percentile
    metric = self._sample(start_week, False)[design.primary_metric]
    if design.is_crossover:
      first, second = metric['test_1'].values, metric['test_2'].values
      trimmed = statistics.TrimmedArray(
          np.stack([first - second, first, second]), quantile)
      means = trimmed.mean()
      average = (means[1] + means[2]) / 2
      variance = trimmed.var(ddof=1)[0]
      if quantile > 0.0:
        variance = variance + (means[1] - means[2]) ** 2 / 4
    else:
      values = metric['test'].values
      if 'pretest' in metric.columns:
        values = statistics.apply_cuped_adjustment(
            values, metric['pretest'].values, quantile)
      trimmed = statistics.TrimmedArray(values, quantile)
      average = float(trimmed.mean())
      variance = float(trimmed.var(ddof=1))
    if len(trimmed) != design.n_items_after_post_trim:
      raise RuntimeError('items after post-trimming')
    return average, variance, len(trimmed)

  def estimate_minimum_detectable_effect(self) -> None:
    weeks = [self._week_stats(week) for week in self.valid_start_week_ids]
    averages, variances, sizes = zip(*weeks)
    average = np.mean(averages)
    deviation = np.sqrt(np.mean(variances))
    sizes = np.asarray(sizes)
    if np.any(sizes != sizes[0]):
      raise RuntimeError('sample sizes differ')
    if self.design.is_crossover:
      effect = statistics.yuens_t_test_paired_minimum_detectable_effect(
          difference_standard_deviation=deviation, sample_size=sizes[0],
          alternative='two-sided', power=self.design.power,
          alpha=self.design.alpha)
    else:
      effect = statistics.yuens_t_test_ind_minimum_detectable_effect(
          standard_deviation=deviation, sample_size=sizes[0],
          alternative='two-sided', power=self.design.power,
          alpha=self.design.alpha)
    self.primary_metric_average = average
    self.primary_metric_standard_deviation = deviation
    self.minimum_detectable_effect = float(effect)
    self.relative_minimum_detectable_effect = float(effect / average)

  def validate_design(
      self, n_simulations: int = 1000, progress_bar: bool = True) -> None:
    if self.minimum_detectable_effect is None:
      raise RuntimeError('estimate first')
    aa, ab = [], []
    for _ in range(n_simulations):
      start_week = self.rng.choice(self.valid_start_week_ids)
      data = apply_random_treatment_assignment(
          self._sample(start_week, True).reset_index(), rng=self.rng,
          item_id_column=self.item_id_column,
          treatment_column=self.treatment_column)
      aa.append(experiment_analysis.analyze_single_metric(
          data, design=self.design, metric_name=self.design.primary_metric,
          treatment_assignment_index_name=self.treatment_column))
      data = apply_synthetic_treatment_effect(
          data, metric_name=self.design.primary_metric, design=self.design,
          effect_size=self.minimum_detectable_effect,
          treatment_assignment_index_name=self.treatment_column)
      ab.append(experiment_analysis.analyze_single_metric(
          data, design=self.design, metric_name=self.design.primary_metric,
          treatment_assignment_index_name=self.treatment_column))
    self.aa_simulation_results = pd.DataFrame.from_records(
        [dataclasses.asdict(result) for result in aa])
    self.ab_simulation_results = pd.DataFrame.from_records(
        [dataclasses.asdict(result) for result in ab])

  def _significant(self, results):
    return (results['p_value'].values < self.design.alpha).astype(int)

  @property
  def null_p_value_robustness_p_value(self) -> float | None:
    if self.aa_simulation_results is None:
      return None
    return stats.kstest(
        self.aa_simulation_results['p_value'].values, stats.uniform.cdf
    ).pvalue

  @property
  def simulated_false_positive_rate(self) -> float | None:
    if self.aa_simulation_results is None:
      return None
    return np.mean(self._significant(self.aa_simulation_results))

  @property
  def false_positive_rate_robustness_p_value(self) -> float | None:
    if self.aa_simulation_results is None:
      return None
    hits = self._significant(self.aa_simulation_results)
    return stats.binomtest(
        k=np.sum(hits), n=len(hits), p=self.design.alpha,
        alternative='greater').pvalue

  @property
  def simulated_power_at_minimum_detectable_effect(self) -> float | None:
    if self.aa_simulation_results is None:
      return None
    return np.mean(self._significant(self.ab_simulation_results))

  @property
  def power_robustness_p_value(self) -> float | None:
    if self.aa_simulation_results is None:
      return None
    hits = self._significant(self.ab_simulation_results)
    return stats.binomtest(
        k=np.sum(hits), n=len(hits), p=self.design.power,
        alternative='less').pvalue

  @property
  def aa_point_estimate_robustness_p_value(self) -> float | None:
    if self.aa_simulation_results is None:
      return None
    return stats.ttest_1samp(
        self.aa_simulation_results['absolute_difference'].values, 0.0).pvalue

  @property
  def ab_point_estimate_robustness_p_value(self) -> float | None:
    if self.aa_simulation_results is None:
      return None
    return stats.ttest_1samp(
        self.ab_simulation_results['absolute_difference'].values,
        self.minimum_detectable_effect).pvalue

  def _passes(self, p_value):
    if p_value is None:
      return None
    return p_value >= self.robustness_p_value_threshold

  @property
  def null_p_value_robustness_check_pass(self) -> bool | None:
    return self._passes(self.null_p_value_robustness_p_value)

  @property
  def power_robustness_check_pass(self) -> bool | None:
    return self._passes(self.power_robustness_p_value)

  @property
  def aa_point_estimate_robustness_check_pass(self) -> bool | None:
    return self._passes(self.aa_point_estimate_robustness_p_value)

  @property
  def ab_point_estimate_robustness_check_pass(self) -> bool | None:
    return self._passes(self.ab_point_estimate_robustness_p_value)

  @property
  def false_positive_rate_robustness_check_pass(self) -> bool | None:
    return self._passes(self.false_positive_rate_robustness_p_value)

  @property
  def all_robustness_checks_pass(self) -> bool | None:
    checks = [
        self.null_p_value_robustness_check_pass,
        self.power_robustness_check_pass,
        self.false_positive_rate_robustness_check_pass,
        self.aa_point_estimate_robustness_check_pass,
        self.ab_point_estimate_robustness_check_pass,
    ]
    if any(check is None for check in checks):
      return None
    return all(checks)

  def summary_dict(self) -> dict[str, str | int | float | bool | None]:
    summary = dataclasses.asdict(self.design)
    del summary['coinflip_salt']
    summary['design_id'] = self.design.design_id
    summary['minimum_detectable_effect'] = self.minimum_detectable_effect
    summary['relative_minimum_detectable_effect'] = (
        self.relative_minimum_detectable_effect)
    summary['simulated_false_positive_rate'] = (
        self.simulated_false_positive_rate)
    summary['simulated_power_at_minimum_detectable_effect'] = (
        self.simulated_power_at_minimum_detectable_effect)
    summary['null_p_value_robustness_check_pass'] = (
        self.null_p_value_robustness_check_pass)
    summary['power_robustness_check_pass'] = self.power_robustness_check_pass
    summary['false_positive_rate_robustness_check_pass'] = (
        self.false_positive_rate_robustness_check_pass)
    summary['aa_point_estimate_robustness_check_pass'] = (
        self.aa_point_estimate_robustness_check_pass)
    summary['ab_point_estimate_robustness_check_pass'] = (
        self.ab_point_estimate_robustness_check_pass)
    summary['all_robustness_checks_pass'] = self.all_robustness_checks_pass
    return summary


def make_analysis_summary_dataframe(
    experiment_analyses: Collection[SimulationAnalysis],
    sort_by: str = 'relative_minimum_detectable_effect',
) -> pd.DataFrame:
  rows = [analysis.summary_dict() for analysis in experiment_analyses]
  return pd.DataFrame.from_records(rows).set_index('design_id').sort_values(
      sort_by)


_DESIGN_COLUMNS = (
    'primary_metric', 'alpha', 'power', 'n_items_before_trimming',
    'n_items_after_pre_trim', 'n_items_after_post_trim', 'runtime_weeks',
    'pretest_weeks', 'pre_trim_top_percentile', 'pre_trim_bottom_percentile',
    'post_trim_percentile', 'is_crossover')


def _check_colour(value):
  if value is None:
    return ''
  if value:
    return 'background-color:lightgreen'
  return 'background-color:darkred;color:white'


def format_analysis_summary_dataframe(
    summary_data: pd.DataFrame, with_validation_columns: bool = True,
) -> style.Styler:
  shown = summary_data.copy()
  if not with_validation_columns:
    shown = shown.drop(columns=[
        column for column in shown.columns
        if column.endswith('_pass') or column.startswith('simulated_')])
  constant = [column for column in _DESIGN_COLUMNS
              if shown[column].nunique(dropna=False) == 1]
  caption = ', '.join(
      f'{column} = {shown.iloc[0][column]}' for column in constant)
  shown = shown.drop(columns=constant)
  shown.columns = [
      column.replace('_', ' ').title() for column in shown.columns]

  def present(names):
    return [name for name in names if name in shown.columns.values]

  return shown.style.set_caption(
      'Analysis results of experiment designs where the following design '
      f'attributes are constant for all designs: {caption}'
  ).bar(
      subset=present(['Minimum Detectable Effect',
                      'Relative Minimum Detectable Effect']),
      cmap=mpl.colormaps['RdYlGn_r'],
  ).format(
      '{:.2%}',
      subset=present([
          'Relative Minimum Detectable Effect', 'Pre Trim Top Percentile',
          'Pre Trim Bottom Percentile', 'Post Trim Percentile',
          'Simulated False Positive Rate',
          'Simulated Power At Minimum Detectable Effect']),
  ).highlight_null(props='opacity:0%').applymap(
      _check_colour,
      subset=[column for column in shown.columns if column.endswith(' Pass')])
