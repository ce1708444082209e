"""Reference: trimmed statistics, tests and intervals.

Parsed and evaluated symbolically next to feedx/statistics.py. Never executed.
Public names mirror the library; everything else is local to the reference.
"""
import dataclasses

import numpy as np
from scipy import stats


def _critical(alternative: str, alpha: float, degrees_of_freedom: float):
  """t quantile of the matching confidence level."""
  if alternative == 'two-sided':
    return stats.t.ppf(1.0 - alpha / 2.0, degrees_of_freedom)
  if alternative == 'greater' or alternative == 'less':
    return stats.t.ppf(1.0 - alpha, degrees_of_freedom)
  raise ValueError('unknown alternative')


class TrimmedArray:

  def __init__(self, values: np.ndarray, quantile: float):
    if not 0.0 <= quantile < 0.5:
      raise ValueError('quantile')
    if len(values.shape) != 1 and len(values.shape) != 2:
      raise ValueError('dimensions')
    self._rows = np.atleast_2d(values)
    self.quantile = quantile

  def _many(self):
    return self._rows.shape[0] > 1

  @property
  def original_sample_size(self) -> int:
    return self._rows.shape[-1]

  @property
  def n_trim(self) -> int:
    return int(np.floor(self.quantile * self.original_sample_size))

  @property
  def values_trimmed(self) -> np.ndarray:
    k = self.n_trim
    if k == 0:
      return self._rows[:, np.arange(self.original_sample_size)]
    order = np.argsort(self._rows[0, :])
    return self._rows[:, np.sort(order[k:-k])]

  @property
  def min_values(self) -> np.ndarray:
    kept = self.values_trimmed
    return kept[:, np.argmin(kept[0, :])]

  @property
  def max_values(self) -> np.ndarray:
    kept = self.values_trimmed
    return kept[:, np.argmax(kept[0, :])]

  def __len__(self) -> int:
    return len(self.values_trimmed[0, :])

  def mean(self) -> np.ndarray | float:
    m = np.mean(self.values_trimmed, axis=1)
    return m if self._many() else float(m[0])

  def winsorized_mean(self) -> np.ndarray | float:
    total = np.sum(self.values_trimmed, axis=1)
    total = total + self.n_trim * self.min_values
    total = total + self.n_trim * self.max_values
    m = total / self.original_sample_size
    return m if self._many() else float(m[0])

  def cov(self, ddof: int = 0) -> np.ndarray | float:
    center = self.winsorized_mean()
    r = self.values_trimmed - np.reshape(center, (-1, 1))
    lo = (self.min_values - center).reshape(-1, 1)
    hi = (self.max_values - center).reshape(-1, 1)
    products = r @ r.T + self.n_trim * (lo @ lo.T) + self.n_trim * (hi @ hi.T)
    c = products / (len(self) - ddof)
    return c if self._many() else float(c.flatten()[0])

  def var(self, ddof: int = 0) -> np.ndarray | float:
    c = self.cov(ddof=ddof)
    return np.diag(c) if self._many() else c

  def std(self, ddof: int = 0) -> np.ndarray | float:
    return np.sqrt(self.var(ddof=ddof))


def apply_cuped_adjustment(
    metric: np.ndarray, covariate: np.ndarray, trimming_quantile: float
) -> np.ndarray:
  y = np.asarray(metric)
  x = np.asarray(covariate)
  c = np.cov(np.stack([y, x], axis=0))
  if c[1, 1] == 0.0:
    return y
  adjusted = y - c[0, 1] / c[1, 1] * (x - np.mean(x))
  joint = TrimmedArray(np.stack([adjusted, y, x], axis=0), trimming_quantile)
  if joint.n_trim == 0:
    return adjusted
  w = joint.cov()
  unshifted = y - w[1, 2] / w[2, 2] * x
  before = TrimmedArray(y, trimming_quantile)
  after = TrimmedArray(unshifted, trimming_quantile)
  if after.var() >= before.var():
    return y
  return unshifted + before.mean() - after.mean()


@dataclasses.dataclass
class StatisticalTestResults:
  is_significant: bool
  alpha: float
  p_value: float
  statistic: float
  absolute_difference: float
  absolute_difference_lower_bound: float
  absolute_difference_upper_bound: float
  relative_difference: float | None
  relative_difference_lower_bound: float | None
  relative_difference_upper_bound: float | None
  standard_error: float
  sample_size: int
  degrees_of_freedom: int | float
  control_average: float


def ttest_from_stats(
    point_estimate: float, standard_error: float,
    degrees_of_freedom: int | float, alternative: str,
) -> tuple[float, float]:
  t = point_estimate / standard_error
  if alternative == 'two-sided':
    return t, 2.0 * stats.t.cdf(-np.abs(t), df=degrees_of_freedom)
  if alternative == 'greater':
    return t, stats.t.cdf(-t, df=degrees_of_freedom)
  if alternative == 'less':
    return t, stats.t.cdf(t, df=degrees_of_freedom)
  raise ValueError('unknown alternative')


def absolute_difference_confidence_interval(
    *, mean_1: float, mean_2: float, standard_error_1: float,
    standard_error_2: float, corr: float, degrees_of_freedom: int | float,
    alternative: str, alpha: float = 0.05,
) -> tuple[float, float]:
  half_width = _critical(alternative, alpha, degrees_of_freedom) * np.sqrt(
      standard_error_1 ** 2 + standard_error_2 ** 2
      - 2 * corr * standard_error_1 * standard_error_2)
  d = mean_1 - mean_2
  low = -np.inf if alternative == 'less' else d - half_width
  high = np.inf if alternative == 'greater' else d + half_width
  return low, high


def relative_difference_confidence_interval(
    *, mean_1: float, mean_2: float, standard_error_1: float,
    standard_error_2: float, corr: float, degrees_of_freedom: int | float,
    alternative: str, alpha: float = 0.05,
) -> tuple[float, float]:
  if mean_1 < 0.0 or mean_2 < 0.0:
    raise ValueError('negative mean')
  t = _critical(alternative, alpha, degrees_of_freedom)
  v1 = standard_error_1 ** 2
  v2 = standard_error_2 ** 2
  v12 = corr * standard_error_1 * standard_error_2
  none_1, none_2 = np.isclose(v1, 0.0), np.isclose(v2, 0.0)
  exclusive = np.inf if none_2 else mean_2 ** 2 / v2
  complete = np.inf if none_1 or none_2 else (
      mean_1 ** 2 * v2 - 2 * mean_1 * mean_2 * v12 + mean_2 ** 2 * v1
  ) / (v1 * v2 - v12 ** 2)
  # Fieller: roots of a q^2 - 2 b q + c
  a = mean_2 ** 2 - t ** 2 * v2
  b = mean_1 * mean_2 - t ** 2 * v12
  c = mean_1 ** 2 - t ** 2 * v1
  root = np.sqrt(b ** 2 - c * a)
  if complete <= t ** 2:
    low, high = 0.0, np.inf
  else:
    low = np.clip((b - root) / a, a_min=0.0, a_max=None)
    high = np.inf if exclusive <= t ** 2 else (b + root) / a
  if alternative == 'greater':
    return low - 1.0, np.inf
  if alternative == 'less':
    return -1.0, high - 1.0
  return low - 1.0, high - 1.0


def _ratio(means, cov, i, j):
  """Delta method mean and variance of the ratio of columns i and j."""
  m = means[i] / means[j]
  v = m ** 2 * (cov[i, i] / means[i] ** 2 + cov[j, j] / means[j] ** 2
                - 2 * cov[i, j] / (means[i] * means[j]))
  return m, v


def _results(*, difference, standard_error, mean_1, mean_2, standard_error_1,
             standard_error_2, corr, degrees_of_freedom, sample_size,
             alternative, alpha):
  statistic, p_value = ttest_from_stats(
      point_estimate=difference, standard_error=standard_error,
      degrees_of_freedom=degrees_of_freedom, alternative=alternative)
  common = dict(
      mean_1=mean_1, mean_2=mean_2, standard_error_1=standard_error_1,
      standard_error_2=standard_error_2, corr=corr,
      degrees_of_freedom=degrees_of_freedom, alternative=alternative,
      alpha=alpha)
  low, high = absolute_difference_confidence_interval(**common)
  relative = relative_low = relative_high = None
  if mean_1 >= 0.0 and mean_2 >= 0.0:
    relative = mean_1 / mean_2 - 1.0
    relative_low, relative_high = relative_difference_confidence_interval(
        **common)
  return StatisticalTestResults(
      is_significant=p_value < alpha, alpha=alpha, p_value=p_value,
      statistic=statistic, absolute_difference=difference,
      absolute_difference_lower_bound=low,
      absolute_difference_upper_bound=high, relative_difference=relative,
      relative_difference_lower_bound=relative_low,
      relative_difference_upper_bound=relative_high,
      standard_error=standard_error, sample_size=sample_size,
      degrees_of_freedom=degrees_of_freedom, control_average=mean_2)


def _is_ratio(denom_1, denom_2):
  if (denom_1 is None) != (denom_2 is None):
    raise ValueError('one denominator')
  return denom_1 is not None


def yuens_t_test_paired(
    values1: np.ndarray, values2: np.ndarray, *, trimming_quantile: float,
    denom_values1: np.ndarray | None = None,
    denom_values2: np.ndarray | None = None,
    alternative: str = 'two-sided', alpha: float = 0.05,
) -> StatisticalTestResults:
  if len(values1) != len(values2):
    raise ValueError('lengths')
  difference = values1 - values2
  if _is_ratio(denom_values1, denom_values2):
    sample = TrimmedArray(
        np.stack([difference, values1, denom_values1, values2, denom_values2]),
        trimming_quantile)
    n = len(sample)
    m = sample.mean()
    c = sample.cov(ddof=1)
    mean_1, var_1 = _ratio(m, c, 1, 2)
    mean_2, var_2 = _ratio(m, c, 3, 4)
    gradient = np.array([
        1.0 / m[2], -m[1] / m[2] ** 2, -1.0 / m[4], m[3] / m[4] ** 2])
    var_difference = gradient.T @ c[1:, 1:] @ gradient
    return _results(
        difference=mean_1 - mean_2,
        standard_error=np.sqrt(var_difference) / np.sqrt(n),
        mean_1=mean_1, mean_2=mean_2,
        standard_error_1=np.sqrt(var_1) / np.sqrt(n),
        standard_error_2=np.sqrt(var_2) / np.sqrt(n),
        corr=(var_1 + var_2 - var_difference) / (2 * np.sqrt(var_1 * var_2)),
        degrees_of_freedom=n - 1, sample_size=n, alternative=alternative,
        alpha=alpha)
  sample = TrimmedArray(
      np.stack([difference, values1, values2]), trimming_quantile)
  n = len(sample)
  m = sample.mean()
  c = sample.cov(ddof=1)
  standard_errors = sample.std(ddof=1) / np.sqrt(n)
  return _results(
      difference=m[0], standard_error=standard_errors[0],
      mean_1=m[1], mean_2=m[2], standard_error_1=standard_errors[1],
      standard_error_2=standard_errors[2],
      corr=c[1, 2] / np.sqrt(c[1, 1] * c[2, 2]),
      degrees_of_freedom=n - 1, sample_size=n, alternative=alternative,
      alpha=alpha)


def _welch(var_1, var_2, n_1, n_2):
  s1, s2 = var_1 / n_1, var_2 / n_2
  return (s1 + s2) ** 2 / (s1 ** 2 / (n_1 - 1) + s2 ** 2 / (n_2 - 1))


def _pooled(var_1, var_2, n_1, n_2):
  return ((n_1 - 1) * var_1 + (n_2 - 1) * var_2) / (n_1 + n_2 - 2)


def yuens_t_test_ind(
    values1: np.ndarray, values2: np.ndarray, *, trimming_quantile: float,
    denom_values1: np.ndarray | None = None,
    denom_values2: np.ndarray | None = None, equal_var: bool = False,
    alternative: str = 'two-sided', alpha: float = 0.05,
) -> StatisticalTestResults:
  if _is_ratio(denom_values1, denom_values2):
    sample_1 = TrimmedArray(
        np.stack([values1, denom_values1]), trimming_quantile)
    sample_2 = TrimmedArray(
        np.stack([values2, denom_values2]), trimming_quantile)
    mean_1, var_1 = _ratio(sample_1.mean(), sample_1.cov(ddof=1), 0, 1)
    mean_2, var_2 = _ratio(sample_2.mean(), sample_2.cov(ddof=1), 0, 1)
  else:
    sample_1 = TrimmedArray(values1, trimming_quantile)
    sample_2 = TrimmedArray(values2, trimming_quantile)
    mean_1, var_1 = sample_1.mean(), sample_1.var(ddof=1)
    mean_2, var_2 = sample_2.mean(), sample_2.var(ddof=1)
  n_1, n_2 = len(sample_1), len(sample_2)
  if equal_var:
    pooled = _pooled(var_1, var_2, n_1, n_2)
    square_1, square_2 = pooled / n_1, pooled / n_2
    degrees_of_freedom = n_1 + n_2 - 2
  else:
    square_1, square_2 = var_1 / n_1, var_2 / n_2
    degrees_of_freedom = _welch(var_1, var_2, n_1, n_2)
  return _results(
      difference=mean_1 - mean_2, standard_error=np.sqrt(square_1 + square_2),
      mean_1=mean_1, mean_2=mean_2, standard_error_1=np.sqrt(square_1),
      standard_error_2=np.sqrt(square_2), corr=0.0,
      degrees_of_freedom=degrees_of_freedom, sample_size=n_1 + n_2,
      alternative=alternative, alpha=alpha)


def calculate_minimum_detectable_effect_from_stats(
    standard_error: float, degrees_of_freedom: int | float, alternative: str,
    power: float = 0.8, alpha: float = 0.05,
) -> float:
  return standard_error * (
      _critical(alternative, alpha, degrees_of_freedom)
      + stats.t.ppf(power, degrees_of_freedom))


def yuens_t_test_ind_minimum_detectable_effect(
    *, standard_deviation: np.ndarray, sample_size: np.ndarray,
    alternative: str = 'two-sided', power: float = 0.8, alpha: float = 0.05,
) -> np.ndarray:
  # two groups of half the sample each: pooled variance = standard_deviation^2
  n = 0.5 * sample_size
  return calculate_minimum_detectable_effect_from_stats(
      standard_error=np.sqrt(
          standard_deviation ** 2 / n + standard_deviation ** 2 / n),
      degrees_of_freedom=n + n - 2, alternative=alternative, power=power,
      alpha=alpha)


def yuens_t_test_paired_minimum_detectable_effect(
    *, difference_standard_deviation: np.ndarray, sample_size: np.ndarray,
    alternative: str = 'two-sided', power: float = 0.8, alpha: float = 0.05,
) -> np.ndarray:
  return calculate_minimum_detectable_effect_from_stats(
      standard_error=difference_standard_deviation / np.sqrt(sample_size),
      degrees_of_freedom=sample_size - 1, alternative=alternative,
      power=power, alpha=alpha)
