def _to_scalar_unless_2d(values, is_2d):
  if is_2d:
    return values
  return float(np.ravel(values)[0])


class TrimmedArray:
  def __init__(self, values: np.ndarray, quantile: float):
    if not 0.0 <= quantile < 0.5:
      raise ValueError("Must use 0 <= quantile < 0.5")
    if values.ndim != 1 and values.ndim != 2:
      raise ValueError(f"Must use 1 or 2 dimensional arrays, {values.shape = }")

    self.quantile = quantile
    self._values_untrimmed = np.atleast_2d(values)
    assert len(self) == self.original_sample_size - self.n_trim * 2

    if _any_array_is_constant(self._values_untrimmed):
      print(
          "WARNING: At least one of the arrays for trimming is constant. This"
          " is unlikely to work well for any statistical calculations. Check"
          " the data input."
      )
      return
    if _any_array_is_constant(self.values_trimmed):
      print(
          "WARNING: After trimming at least one of the arrays is constant. This"
          " is unlikely to work well for any statistical calculations. Try a"
          " smaller trimming quantile."
      )

  @functools.cached_property
  def _is_2d(self) -> bool:
    n_rows, _ = self._values_untrimmed.shape
    return n_rows > 1

  @functools.cached_property
  def original_sample_size(self) -> int:
    return self._values_untrimmed.shape[1]

  @functools.cached_property
  def n_trim(self) -> int:
    return int(self.quantile * self.original_sample_size)

  @functools.cached_property
  def values_trimmed(self) -> np.ndarray:
    n_trim = self.n_trim
    if not n_trim:
      return self._values_untrimmed[:, np.arange(self.original_sample_size)]
    order = np.argsort(self._values_untrimmed[0])
    kept = np.sort(order[n_trim:-n_trim])
    return self._values_untrimmed[:, kept]

  @functools.cached_property
  def min_values(self) -> np.ndarray:
    first_row = self.values_trimmed[0]
    return self.values_trimmed[:, first_row.argmin()]

  @functools.cached_property
  def max_values(self) -> np.ndarray:
    first_row = self.values_trimmed[0]
    return self.values_trimmed[:, first_row.argmax()]

  def __len__(self) -> int:
    return self.values_trimmed.shape[1]

  def mean(self) -> np.ndarray | float:
    mean = self.values_trimmed.mean(axis=1)
    return mean if self._is_2d else float(mean[0])

  def winsorized_mean(self) -> np.ndarray | float:
    total = self.values_trimmed.sum(axis=1)
    total = total + self.n_trim * self.min_values + self.n_trim * self.max_values
    return _to_scalar_unless_2d(total / self.original_sample_size, self._is_2d)

  def cov(self, ddof: int = 0) -> np.ndarray | float:
    winsorized_mean = self.winsorized_mean()
    residuals = self.values_trimmed - np.reshape(winsorized_mean, (-1, 1))

    def outer(extremes):
      residual = (extremes - winsorized_mean).reshape(-1, 1)
      return residual @ residual.T

    cov = (
        residuals @ residuals.T
        + self.n_trim * outer(self.min_values)
        + self.n_trim * outer(self.max_values)
    ) / (len(self) - ddof)
    if not self._is_2d:
      return float(cov.flatten()[0])
    return cov

  def var(self, ddof: int = 0) -> np.ndarray | float:
    cov = self.cov(ddof)
    return np.diag(cov) if self._is_2d else cov

  def std(self, ddof: int = 0) -> np.ndarray | float:
    return self.var(ddof) ** 0.5


def apply_cuped_adjustment(
    metric: np.ndarray, covariate: np.ndarray, trimming_quantile: float
) -> np.ndarray:
  metric, covariate = np.asarray(metric), np.asarray(covariate)

  covariance = np.cov(np.stack([metric, covariate]))
  covariate_variance = covariance[1, 1]
  if covariate_variance == 0.0:
    return metric

  theta = covariance[0, 1] / covariate_variance
  adjusted = metric - theta * (covariate - covariate.mean())

  trimmed = TrimmedArray(
      np.stack([adjusted, metric, covariate]), quantile=trimming_quantile
  )
  if not trimmed.n_trim:
    return adjusted

  trimmed_covariance = trimmed.cov()
  trimmed_theta = trimmed_covariance[1, 2] / trimmed_covariance[2, 2]
  no_offset = metric - trimmed_theta * covariate

  before = TrimmedArray(metric, trimming_quantile)
  after = TrimmedArray(no_offset, trimming_quantile)
  if not after.var() < before.var():
    return metric
  return no_offset + before.mean() - after.mean()


_ALTERNATIVE_ERROR = (
    "Alternative must be one of ['two-sided', 'greater', 'less']"
)


def _critical_t_value(alternative, alpha, degrees_of_freedom):
  if alternative == "two-sided":
    tail = alpha / 2.0
  elif alternative in ("greater", "less"):
    tail = alpha
  else:
    raise ValueError(_ALTERNATIVE_ERROR)
  return stats.t.ppf(1.0 - tail, degrees_of_freedom)


def ttest_from_stats(
    point_estimate: float,
    standard_error: float,
    degrees_of_freedom: int | float,
    alternative: str,
) -> tuple[float, float]:
  statistic = point_estimate / standard_error
  if alternative not in ("two-sided", "greater", "less"):
    raise ValueError(_ALTERNATIVE_ERROR)
  if alternative == "two-sided":
    return statistic, 2 * stats.t.sf(np.abs(statistic), degrees_of_freedom)
  if alternative == "greater":
    return statistic, stats.t.sf(statistic, df=degrees_of_freedom)
  return statistic, stats.t.cdf(statistic, df=degrees_of_freedom)


def absolute_difference_confidence_interval(
    *,
    mean_1: float,
    mean_2: float,
    standard_error_1: float,
    standard_error_2: float,
    corr: float,
    degrees_of_freedom: int | float,
    alternative: str,
    alpha: float = 0.05,
) -> tuple[float, float]:
  difference = mean_1 - mean_2
  standard_error = np.sqrt(
      standard_error_1**2
      + standard_error_2**2
      - 2 * corr * standard_error_1 * standard_error_2
  )
  margin = (
      _critical_t_value(alternative, alpha, degrees_of_freedom)
      * standard_error
  )
  lower = difference - margin if alternative != "less" else -np.inf
  upper = difference + margin if alternative != "greater" else np.inf
  return lower, upper


def relative_difference_confidence_interval(
    *,
    mean_1: float,
    mean_2: float,
    standard_error_1: float,
    standard_error_2: float,
    corr: float,
    degrees_of_freedom: int | float,
    alternative: str,
    alpha: float = 0.05,
) -> tuple[float, float]:
  if not (mean_1 >= 0.0 and mean_2 >= 0.0):
    raise ValueError(
        "Both mean_1 and mean_2 must be >= 0.0, "
        f"but got {mean_1 = } and {mean_2 = }."
    )

  var_1 = standard_error_1**2
  var_2 = standard_error_2**2
  var_12 = corr * standard_error_1 * standard_error_2

  no_variance_1 = np.isclose(var_1, 0.0)
  no_variance_2 = np.isclose(var_2, 0.0)
  t_exclusive_sq = np.inf if no_variance_2 else mean_2**2 / var_2
  t_complete_sq = np.inf
  if not (no_variance_1 or no_variance_2):
    t_complete_sq = (
        var_2 * mean_1**2 + var_1 * mean_2**2 - 2 * mean_1 * mean_2 * var_12
    ) / (var_1 * var_2 - var_12**2)

  t_sq = _critical_t_value(alternative, alpha, degrees_of_freedom) ** 2
  a_12 = mean_1 * mean_2 - t_sq * var_12
  a_1 = mean_1**2 - t_sq * var_1
  a_2 = mean_2**2 - t_sq * var_2
  lower_ratio, upper_ratio = 0.0, np.inf
  if t_complete_sq > t_sq:
    root = np.sqrt(a_12**2 - a_1 * a_2)
    lower_ratio = np.clip((a_12 - root) / a_2, 0.0, None)
    if t_exclusive_sq > t_sq:
      upper_ratio = (a_12 + root) / a_2

  lower_bound = -1.0 if alternative == "less" else lower_ratio - 1.0
  upper_bound = np.inf if alternative == "greater" else upper_ratio - 1.0
  return lower_bound, upper_bound


def _two_sample_standard_errors(
    standard_deviation_1: npt.ArrayLike,
    standard_deviation_2: npt.ArrayLike,
    sample_size_1: npt.ArrayLike,
    sample_size_2: npt.ArrayLike,
    equal_var: bool,
) -> tuple[npt.ArrayLike, npt.ArrayLike, npt.ArrayLike]:
  var_1 = standard_deviation_1**2
  var_2 = standard_deviation_2**2
  if equal_var:
    pooled = (var_1 * (sample_size_1 - 1) + var_2 * (sample_size_2 - 1)) / (
        sample_size_1 + sample_size_2 - 2
    )
    var_1 = pooled
    var_2 = pooled
  var_mean_1 = var_1 / sample_size_1
  var_mean_2 = var_2 / sample_size_2
  return (
      np.sqrt(var_mean_1 + var_mean_2),
      np.sqrt(var_mean_1),
      np.sqrt(var_mean_2),
  )


def _two_sample_degrees_of_freedom(
    standard_deviation_1: npt.ArrayLike,
    standard_deviation_2: npt.ArrayLike,
    sample_size_1: npt.ArrayLike,
    sample_size_2: npt.ArrayLike,
    equal_var: bool,
) -> npt.ArrayLike:
  dof_1 = _one_sample_degrees_of_freedom(sample_size_1)
  dof_2 = _one_sample_degrees_of_freedom(sample_size_2)
  if equal_var:
    return dof_1 + dof_2
  var_1 = standard_deviation_1**2 / sample_size_1
  var_2 = standard_deviation_2**2 / sample_size_2
  return (var_1 + var_2) ** 2 / (var_1**2 / dof_1 + var_2**2 / dof_2)


def _ratio_from_trimmed(trimmed):
  means = trimmed.mean()
  cov = trimmed.cov(ddof=1)
  return _ratio_mean_and_variance(
      means[0], means[1], cov[0, 0], cov[1, 1], cov[0, 1]
  )


def _check_denominators(denom_values1, denom_values2):
  n_denominators = sum(x is not None for x in (denom_values1, denom_values2))
  if n_denominators == 1:
    raise ValueError(
        "Must pass either both or neither denom_values1 and denom_values2."
    )
  return n_denominators == 2


def _summarize(
    *,
    absolute_difference,
    standard_error,
    mean_1,
    mean_2,
    standard_error_1,
    standard_error_2,
    corr,
    sample_size,
    degrees_of_freedom,
    alternative,
    alpha,
    relative_difference,
):
  statistic, p_value = ttest_from_stats(
      absolute_difference, standard_error, degrees_of_freedom, alternative
  )
  shared = dict(
      mean_1=mean_1,
      mean_2=mean_2,
      standard_error_1=standard_error_1,
      standard_error_2=standard_error_2,
      corr=corr,
      degrees_of_freedom=degrees_of_freedom,
      alpha=alpha,
      alternative=alternative,
  )
  absolute_bounds = absolute_difference_confidence_interval(**shared)
  relative_bounds = (None, None)
  if mean_1 >= 0.0 and mean_2 >= 0.0:
    relative_difference = relative_difference()
    relative_bounds = relative_difference_confidence_interval(**shared)
  else:
    relative_difference = None
  return StatisticalTestResults(
      statistic=statistic,
      p_value=p_value,
      alpha=alpha,
      is_significant=p_value < alpha,
      absolute_difference=absolute_difference,
      absolute_difference_lower_bound=absolute_bounds[0],
      absolute_difference_upper_bound=absolute_bounds[1],
      relative_difference=relative_difference,
      relative_difference_lower_bound=relative_bounds[0],
      relative_difference_upper_bound=relative_bounds[1],
      standard_error=standard_error,
      sample_size=sample_size,
      degrees_of_freedom=degrees_of_freedom,
      control_average=mean_2,
  )


def yuens_t_test_ind(
    values1: np.ndarray,
    values2: np.ndarray,
    *,
    trimming_quantile: float,
    denom_values1: np.ndarray | None = None,
    denom_values2: np.ndarray | None = None,
    equal_var: bool = False,
    alternative: str = "two-sided",
    alpha: float = 0.05,
) -> StatisticalTestResults:
  if _check_denominators(denom_values1, denom_values2):
    trimmed_1 = TrimmedArray(
        np.stack([values1, denom_values1]), trimming_quantile
    )
    trimmed_2 = TrimmedArray(
        np.stack([values2, denom_values2]), trimming_quantile
    )
    mean_1, var_1 = _ratio_from_trimmed(trimmed_1)
    mean_2, var_2 = _ratio_from_trimmed(trimmed_2)
  else:
    trimmed_1 = TrimmedArray(values1, trimming_quantile)
    trimmed_2 = TrimmedArray(values2, trimming_quantile)
    mean_1, var_1 = trimmed_1.mean(), trimmed_1.var(ddof=1)
    mean_2, var_2 = trimmed_2.mean(), trimmed_2.var(ddof=1)

  samples = dict(
      standard_deviation_1=np.sqrt(var_1),
      standard_deviation_2=np.sqrt(var_2),
      sample_size_1=len(trimmed_1),
      sample_size_2=len(trimmed_2),
      equal_var=equal_var,
  )
  standard_error, standard_error_1, standard_error_2 = (
      _two_sample_standard_errors(**samples)
  )
  return _summarize(
      absolute_difference=mean_1 - mean_2,
      standard_error=standard_error,
      mean_1=mean_1,
      mean_2=mean_2,
      standard_error_1=standard_error_1,
      standard_error_2=standard_error_2,
      corr=0.0,
      sample_size=len(trimmed_1) + len(trimmed_2),
      degrees_of_freedom=_two_sample_degrees_of_freedom(**samples),
      alternative=alternative,
      alpha=alpha,
      relative_difference=lambda: np.divide(mean_1, mean_2) - 1.0,
  )


def yuens_t_test_paired(
    values1: np.ndarray,
    values2: np.ndarray,
    *,
    trimming_quantile: float,
    denom_values1: np.ndarray | None = None,
    denom_values2: np.ndarray | None = None,
    alternative: str = "two-sided",
    alpha: float = 0.05,
) -> StatisticalTestResults:
  if len(values1) != len(values2):
    raise ValueError("Values1 and values2 must have the same lengths.")
  is_ratio = _check_denominators(denom_values1, denom_values2)

  rows = [values1 - values2]
  if is_ratio:
    rows += [values1, denom_values1, values2, denom_values2]
  else:
    rows += [values1, values2]
  trimmed = TrimmedArray(np.stack(rows), trimming_quantile)
  n = len(trimmed)
  means = trimmed.mean()
  cov = trimmed.cov(ddof=1)

  if is_ratio:
    difference, difference_var, mean_1, mean_2, var_1, var_2, corr = (
        _difference_of_ratios_mean_and_variance(means[1:], cov[1:, 1:])
    )
    standard_error = _one_sample_standard_error(np.sqrt(difference_var), n)
    standard_error_1 = _one_sample_standard_error(np.sqrt(var_1), n)
    standard_error_2 = _one_sample_standard_error(np.sqrt(var_2), n)
  else:
    standard_error, standard_error_1, standard_error_2 = (
        _one_sample_standard_error(trimmed.std(ddof=1), n)
    )
    difference, mean_1, mean_2 = means
    corr = cov[1, 2] / np.sqrt(cov[1, 1] * cov[2, 2])

  return _summarize(
      absolute_difference=difference,
      standard_error=standard_error,
      mean_1=mean_1,
      mean_2=mean_2,
      standard_error_1=standard_error_1,
      standard_error_2=standard_error_2,
      corr=corr,
      sample_size=n,
      degrees_of_freedom=_one_sample_degrees_of_freedom(n),
      alternative=alternative,
      alpha=alpha,
      relative_difference=lambda: mean_1 / mean_2 - 1.0,
  )


def calculate_minimum_detectable_effect_from_stats(
    standard_error: float,
    degrees_of_freedom: int | float,
    alternative: str,
    power: float = 0.8,
    alpha: float = 0.05,
) -> float:
  t_alpha = _critical_t_value(alternative, alpha, degrees_of_freedom)
  t_power = stats.t(degrees_of_freedom).ppf(power)
  return t_alpha * standard_error + t_power * standard_error


def yuens_t_test_ind_minimum_detectable_effect(
    *,
    standard_deviation: npt.ArrayLike,
    sample_size: npt.ArrayLike,
    alternative: str = "two-sided",
    power: float = 0.8,
    alpha: float = 0.05,
) -> npt.ArrayLike:
  per_variant = sample_size / 2
  variant = (standard_deviation, standard_deviation, per_variant, per_variant)
  return calculate_minimum_detectable_effect_from_stats(
      _two_sample_standard_errors(*variant, True)[0],
      _two_sample_degrees_of_freedom(*variant, equal_var=True),
      alternative,
      power,
      alpha,
  )
