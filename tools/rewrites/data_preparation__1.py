class ValidationChecks:
  @classmethod
  def add_check(cls, check_name: str) -> Callable:
    """Registers a check."""

    def decorator(check: Callable) -> Callable:
      cls._CHECKS.add(check_name)

      @functools.wraps(check)
      def wrapper(
          *args, skip_validation_checks: list[str] | None = None, **kwargs
      ) -> None:
        has_failed, details = check(*args, **kwargs)
        prefix = f"Validation check '{check_name}'"
        if has_failed:
          if skip_validation_checks and check_name in skip_validation_checks:
            print(f"WARNING: {prefix} failed, but was skipped. {details}")
          else:
            raise ValueError(f"{prefix} failed. {details}")
        else:
          print(f"{prefix} passed. {details}")

      return wrapper

    return decorator

  @classmethod
  def assert_check_exists(cls, check_name: str) -> None:
    available = cls._CHECKS
    if check_name in available:
      return
    raise ValueError(
        "The validation check '{}' not found. Available checks are {}.".format(
            check_name, available
        )
    )


def _log_normal_parameters(mean, standard_deviation):
  variance_ratio = np.square(standard_deviation) / np.square(mean)
  log_term = np.log(1 + variance_ratio)
  return np.log(mean) - log_term / 2, np.sqrt(log_term)


def _sample_from_lognormal(
    rng: np.random.Generator,
    mean: npt.ArrayLike,
    standard_deviation: npt.ArrayLike,
    size: int | tuple[int, int],
) -> np.ndarray:
  """Samples from a lognormal distribution."""
  for name, value in (
      ("mean", mean),
      ("standard_deviation", standard_deviation),
  ):
    if not (value > 0).all() if hasattr(value, "all") else not value > 0:
      raise ValueError(f"{name} must be greater than 0")
  mu, sigma = _log_normal_parameters(mean, standard_deviation)
  return rng.lognormal(mu, sigma, size)


def _sample_from_beta(
    rng: np.random.Generator,
    mean: npt.ArrayLike,
    standard_deviation: npt.ArrayLike,
    size: int | tuple[int, int],
) -> np.ndarray:
  if not (mean > 0 and mean < 1):
    raise ValueError("mean must be between 0 and 1")
  if standard_deviation <= 0 or standard_deviation >= 1:
    raise ValueError("standard_deviation must be between 0 and 1")
  total = np.sqrt((1.0 - mean) * mean) / standard_deviation
  a = total * mean
  b = total * (1.0 - mean)
  return rng.beta(a, b, size)


def _format_dates(start, offsets, date_fmt):
  return [
      (start + dt.timedelta(days=offset)).strftime(date_fmt)
      for offset in offsets
  ]


def generate_synthetic_data(
    rng: np.random.Generator,
    n_items: int = 7000,
    impressions_average: float = 50.0,
    impressions_standard_deviation: float = 100.0,
    ctr_average: float = 0.02,
    ctr_standard_deviation: float = 0.015,
    cpc_average: float = 0.5,
    cpc_item_level_standard_deviation: float = 0.5,
    cpc_daily_level_standard_deviation: float = 0.5,
    conversion_rate_average: float = 0.1,
    conversion_rate_standard_deviation: float = 0.075,
    conversion_value_average: float = 100.0,
    conversion_value_item_level_standard_deviation: float = 80.0,
    conversion_value_daily_level_standard_deviation: float = 10.0,
    weeks_before_start_date: int = 0,
    weeks_after_start_date: int = 13,
    start_date: str = "2023-01-01",
) -> pd.DataFrame:
  date_fmt = "%Y-%m-%d"
  start = dt.datetime.strptime(start_date, date_fmt)
  dates = _format_dates(start, range(7 * weeks_after_start_date), date_fmt)
  dates += _format_dates(
      start,
      [-(i + 1) for i in range(7 * weeks_before_start_date)],
      date_fmt,
  )
  item_ids = ["item_" + str(i) for i in range(n_items)]
  dates_matrix, item_ids_matrix = np.meshgrid(dates, item_ids)

  item_shape = (n_items, 1)
  full_shape = dates_matrix.shape

  expected_impressions = _sample_from_lognormal(
      rng, impressions_average, impressions_standard_deviation, item_shape
  )
  expected_ctr = _sample_from_beta(
      rng, ctr_average, ctr_standard_deviation, item_shape
  )
  expected_cpc = _sample_from_lognormal(
      rng, cpc_average, cpc_item_level_standard_deviation, item_shape
  )
  expected_conversion_rate = _sample_from_beta(
      rng,
      conversion_rate_average,
      conversion_rate_standard_deviation,
      item_shape,
  )
  expected_conversion_value = _sample_from_lognormal(
      rng,
      conversion_value_average,
      conversion_value_item_level_standard_deviation,
      item_shape,
  )

  impressions = rng.poisson(expected_impressions, full_shape)
  clicks = rng.binomial(impressions, expected_ctr)
  total_cost = clicks * _sample_from_lognormal(
      rng,
      mean=expected_cpc,
      standard_deviation=cpc_daily_level_standard_deviation,
      size=full_shape,
  )
  conversions = rng.binomial(clicks, expected_conversion_rate)
  total_conversion_value = conversions * _sample_from_lognormal(
      rng,
      mean=expected_conversion_value,
      standard_deviation=conversion_value_daily_level_standard_deviation,
      size=full_shape,
  )
  columns = dict(
      date=dates_matrix,
      item_id=item_ids_matrix,
      impressions=impressions,
      clicks=clicks,
      conversions=conversions,
      total_cost=total_cost,
      total_conversion_value=total_conversion_value,
  )
  return pd.DataFrame(
      {name: matrix.flatten() for name, matrix in columns.items()}
  )


def add_relative_effects_to_synthetic_data_for_demo(
    synthetic_data: pd.DataFrame,
    *,
    time_period_column: str,
    treatment_assignment_column: str,
    impressions_relative_effect: float = 0.1,
    clicks_relative_effect: float = 0.2,
    conversions_relative_effect: float = 0.2,
    total_conversion_value_relative_effect: float = 0.2,
    total_cost_relative_effect: float = 0.2,
) -> pd.DataFrame:
  output = synthetic_data.copy()
  periods = output[time_period_column]
  in_treatment = output[treatment_assignment_column] == 1
  in_control = output[treatment_assignment_column] == 0

  if "test_1" in periods.values:
    treated = (periods.isin(["washout_1", "test_1"]) & in_treatment) | (
        in_control & periods.isin(["test_2", "washout_2"])
    )
  else:
    treated = in_treatment & periods.eq("test")

  effects = {
      "impressions": impressions_relative_effect,
      "clicks": clicks_relative_effect,
      "conversions": conversions_relative_effect,
      "total_conversion_value": total_conversion_value_relative_effect,
      "total_cost": total_cost_relative_effect,
  }
  for column, effect in effects.items():
    output.loc[treated, column] *= 1.0 + effect
  return output


def _to_float(values):
  return pd.to_numeric(values).astype(float)


def standardize_column_names_and_types(
    data: pd.DataFrame,
    *,
    item_id_column: str,
    date_column: str,
    clicks_column: str | None = None,
    impressions_column: str | None = None,
    total_cost_column: str | None = None,
    conversions_column: str | None = None,
    total_conversion_value_column: str | None = None,
    custom_columns: dict[str, str] | None = None,
    custom_parse_functions: (
        dict[str, Callable[[pd.Series], pd.Series]] | None
    ) = None,
) -> pd.DataFrame:
  if not custom_columns:
    custom_columns = {}
  if not custom_parse_functions:
    custom_parse_functions = {}

  standard_parsers = {
      "item_id": lambda x: x.astype(str),
      "date": pd.to_datetime,
      "clicks": _to_float,
      "impressions": _to_float,
      "total_cost": _to_float,
      "conversions": _to_float,
      "total_conversion_value": _to_float,
  }
  standard_names = {
      "item_id": item_id_column,
      "date": date_column,
      "clicks": clicks_column,
      "impressions": impressions_column,
      "total_cost": total_cost_column,
      "conversions": conversions_column,
      "total_conversion_value": total_conversion_value_column,
  }

  for name in custom_columns:
    if name in standard_names:
      raise ValueError(
          f"The custom column {name} is one of the standard columns,"
          f" set it with the {name}_column argument."
      )
  for name in custom_parse_functions:
    if name in standard_parsers:
      raise ValueError(
          f"The custom parse function {name} is one of the"
          " standard parse functions, no need to set it."
      )
    if name not in custom_columns:
      raise ValueError(
          f"The custom parse function {name} must also be set"
          " in custom_columns."
      )

  all_parsers = {**standard_parsers, **custom_parse_functions}
  all_names = {**standard_names, **custom_columns}
  used_names = {k: v for k, v in all_names.items() if v is not None}

  for input_name in used_names.values():
    if input_name not in data.columns:
      raise ValueError(
          f"The input column {input_name} does not exist in the data."
      )

  renamer = dict((v, k) for k, v in used_names.items())
  output = data[list(used_names.values())].rename(columns=renamer)
  for column in output.columns:
    if column in all_parsers:
      output[column] = all_parsers[column](output[column])
  return output


def fill_missing_rows_with_zeros(
    data: pd.DataFrame,
    item_id_column: str = "item_id",
    date_column: str = "date",
) -> pd.DataFrame:
  missing_columns = {item_id_column, date_column}.difference(data.columns)
  if len(missing_columns) > 0:
    raise ValueError(
        "The data is missing the following required columns:"
        f" {missing_columns}."
    )

  keys = [item_id_column, date_column]
  combinations = pd.merge(
      data[[item_id_column]].drop_duplicates(),
      data[[date_column]].drop_duplicates(),
      how="cross",
  )
  filled = pd.merge(combinations, data, on=keys, how="left")
  for column in filled.columns:
    if column in keys:
      continue
    filled[column] = filled[column].fillna(0).astype(data[column].dtype)
  return filled


def _print_size(prefix, data, item_id_column):
  n_rows = len(data)
  n_items = data[item_id_column].nunique()
  print(f"{prefix} {n_rows} rows and {n_items} items.")


def downsample_items(
    data: pd.DataFrame,
    downsample_fraction: float,
    item_id_column: str,
    rng: np.random.RandomState,
) -> pd.DataFrame:
  if not 0.0 < downsample_fraction <= 1.0:
    raise ValueError("Downsample_fraction must be in the range of (0.0, 1.0].")
  if not item_id_column in data.columns:
    raise ValueError(f"The column {item_id_column} does not exist in the data.")

  _print_size("Data has", data, item_id_column)
  if downsample_fraction < 1.0:
    print(
        "Sampling {:.2%} of the items in the original data.".format(
            downsample_fraction
        )
    )
    items = data[item_id_column].drop_duplicates()
    kept = items.sample(frac=downsample_fraction, random_state=rng)
    data = data.loc[data[item_id_column].isin(kept)]
    _print_size("Downsampled data has", data, item_id_column)
  else:
    print("Not downsampling, since the downsample_fraction = 1.0")
  return data


def add_week_id_and_week_start(
    data: pd.DataFrame,
    date_column: str,
    experiment_start_date: str | None = None,
    week_id_column: str = "week_id",
    week_start_column: str = "week_start",
) -> pd.DataFrame:
  start = (
      dt.datetime.strptime(experiment_start_date, "%Y-%m-%d")
      if experiment_start_date is not None
      else data[date_column].min()
  )
  data[week_id_column] = (data[date_column] - start).dt.days // 7
  data[week_start_column] = data[week_id_column].apply(
      lambda week: start + dt.timedelta(weeks=week)
  )
  return data


def _days_between(dates):
  gaps = dates.diff().iloc[1:]
  return gaps.dt.days.values


def group_data_to_complete_weeks(
    data: pd.DataFrame,
    date_column: dt.datetime,
    item_id_column: str,
    week_id_column: str,
    week_start_column: str,
    extra_group_columns: list[str] | None = None,
) -> pd.DataFrame:
  extra = [] if extra_group_columns is None else extra_group_columns
  frequency = _days_between(data[date_column].drop_duplicates().sort_values())
  is_daily = (frequency == 1).all()
  is_weekly = (frequency == 7).all()

  if is_daily:
    print("The input data is daily, grouping to weekly.")
    group_columns = [week_id_column, week_start_column, item_id_column] + extra
    not_summed = set(group_columns) | {date_column}
    aggregations = {}
    for column in data.columns:
      if column not in not_summed:
        aggregations[column] = (column, "sum")
    aggregations["days_in_week"] = (date_column, "nunique")
    weekly = data.groupby(group_columns).agg(**aggregations).reset_index()
    complete = weekly["days_in_week"] == 7
    return weekly[complete].drop(columns="days_in_week")

  if is_weekly:
    print("The input data is already weekly, grouping not required.")
    return data.drop(date_column, axis=1)

  raise ValueError(
      "The data is not daily or weekly. Cannot proceed with mixed frequency"
  )


@ValidationChecks.add_check("no_duplicate_items_per_date")
def _validate_every_item_exists_exactly_once_for_every_date(
    data: pd.DataFrame,
    *,
    item_id_column: str,
    date_column: str,
) -> tuple[bool, str]:
  items_by_date = data.groupby(date_column)[item_id_column]
  counts = items_by_date.count()
  unique_counts = items_by_date.nunique()

  has_duplicates = counts != unique_counts
  if has_duplicates.any():
    bad_dates = counts[has_duplicates].index.values
    return True, (
        f"There are duplicate {item_id_column} when {date_column} in "
        f"{bad_dates}."
    )

  n_items = data[item_id_column].nunique()
  if (counts != n_items).any():
    return True, (
        f"Some {date_column} are missing {item_id_column}. Below are the number"
        f" of unique {item_id_column} per {date_column}, which should be equal"
        f" for all dates.\n{counts}\n"
    )
  return False, f"All {date_column} have {counts.iloc[0]:,} {item_id_column}."




@ValidationChecks.add_check("dates_are_daily_or_weekly")
def _validate_dates_are_either_daily_or_weekly(
    data: pd.DataFrame,
    date_column: str,
) -> tuple[bool, str]:
  dates = data[date_column]
  if not pd.api.types.is_datetime64_any_dtype(dates):
    raise ValueError(f"Date column must be datetime type, got {dates.dtype}.")

  gaps = _days_between(dates.sort_values().drop_duplicates())
  for n_days, name in ((7, "weekly"), (1, "daily")):
    if np.all(gaps == n_days):
      return False, f"Dates are {name}."
  return True, (
      "Dates are neither consistently weekly spaced or consistently daily"
      " spaced."
  )


@ValidationChecks.add_check("week_ids_are_consecutive_integers")
def _validate_week_ids_are_consecutive_integers(
    data: pd.DataFrame,
    week_id_column: str,
    date_column: str,
) -> tuple[bool, str]:
  week_ids = data[week_id_column]
  if not pd.api.types.is_integer_dtype(week_ids):
    raise ValueError(f"week_id column must be an integer, got {week_ids.dtype}.")

  ordered = data[[week_id_column, date_column]].drop_duplicates()
  ordered = ordered.sort_values(by=date_column)
  gaps = ordered[week_id_column].diff().values[1:]
  if np.isin(gaps, [0, 1]).all():
    return False, "Week ids are consecutive integers."
  return True, "Week ids are not consecituve, there is a gap."


@ValidationChecks.add_check("all_metrics_are_finite")
def _validate_all_metrics_are_finite(
    data: pd.DataFrame,
    metric_columns: Collection[str],
) -> tuple[bool, str]:
  for column in metric_columns:
    n_invalid = np.sum(~np.isfinite(data[column]))
    if n_invalid > 0:
      return True, f"There are {n_invalid} non-finite values in {column}. "
  return False, (
      f"The following metric values are all finite: {metric_columns}."
  )


@ValidationChecks.add_check("all_metrics_are_non_negative")
def _validate_all_metrics_are_non_negative(
    data: pd.DataFrame,
    metric_columns: Collection[str],
) -> tuple[bool, str]:
  for column in metric_columns:
    n_negative = (data[column] < 0).sum()
    if n_negative == 0:
      continue
    return True, (
        f"There are {n_negative} negative values in"
        f" {column}. This will make relative effect measurements "
        "difficult to interpret."
    )
  return False, (
      f"The following metric values are all non-negative: {metric_columns}."
  )


@ValidationChecks.add_check("number_of_items_matches_design")
def _validate_number_of_items_matches_design(
    experiment_data: pd.DataFrame,
    design: experiment_design.ExperimentDesign,
    item_id_column: str,
) -> tuple[bool, str]:
  n_items = len(experiment_data[item_id_column].unique())
  failed = n_items != design.n_items_after_pre_trim
  if failed:
    message = (
        f"The experiment data has {n_items} unique item_ids, but"
        f" {design.n_items_after_pre_trim = }."
    )
  else:
    message = "Number of items matches design, check passed."
  return failed, message


@ValidationChecks.add_check("experiment_dates_match_design")
def _validate_experiment_dates_match_design(
    experiment_data: pd.DataFrame,
    design: experiment_design.ExperimentDesign,
    date_column: str,
    experiment_start_date: str,
    experiment_has_concluded: bool,
) -> tuple[bool, str]:
  start = dt.datetime.strptime(experiment_start_date, "%Y-%m-%d")
  first_required = start - dt.timedelta(weeks=design.pretest_weeks)
  last_required = start + dt.timedelta(weeks=design.runtime_weeks - 1)
  dates = experiment_data[date_column]
  first, last = dates.min(), dates.max()

  if first > first_required:
    return True, (
        "Experiment data does not go back far enough. Design expects"
        f" {design.pretest_weeks} weeks of pretest data, and experiment starts"
        f" on {experiment_start_date}, so the first date must be"
        f" {first_required} or earlier, but the earliest date is"
        f" {first}"
    )
  if experiment_has_concluded and last < last_required:
    return True, (
        "The experiment has concluded but you are missing data from the end"
        f" of the experiment. Design expects {design.runtime_weeks} weeks of"
        f" runtime data, and experiment starts on {experiment_start_date}, so"
        f" the final week must be {last_required} or later, but latest"
        f" date is {last}."
    )
  return False, "Date range matches design, check passed."


@ValidationChecks.add_check("treatment_assignment_is_unique")
def _validate_treatment_assignment_is_unique_for_each_item_id(
    experiment_data: pd.DataFrame,
    item_id_column: str,
    treatment_assignment_column: str,
) -> tuple[bool, str]:
  counts = experiment_data.groupby(item_id_column)[
      treatment_assignment_column
  ].nunique()
  not_unique = counts[counts != 1]
  if len(not_unique):
    return True, (
        f"Some items have non-unique treatment assignments: {not_unique}"
    )
  return False, "Treatment assignment is unique for each item."
