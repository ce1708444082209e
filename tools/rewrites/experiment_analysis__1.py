def get_weeks_between(
    week_id: pd.Series, start_id: int, end_id: int
) -> pd.Series:
  return ~((week_id < start_id) | (week_id > end_id))


def _label_periods(data, periods, week_id_column, time_period_column):
  data[time_period_column] = None
  weeks = data[week_id_column]
  for label, first, last in periods:
    in_period = get_weeks_between(weeks, first, last)
    data.loc[in_period, time_period_column] = label
  return data


def _add_time_period_column_for_regular_experiment(
    data: pd.DataFrame,
    *,
    start_week_id: int,
    pretest_weeks: int,
    runtime_weeks: int,
    week_id_column: str,
    time_period_column: str = "time_period",
) -> pd.DataFrame:
  end = start_week_id + runtime_weeks
  periods = [
      ("pretest", start_week_id - pretest_weeks, start_week_id - 1),
      ("test", start_week_id, end - 1),
  ]
  return _label_periods(data, periods, week_id_column, time_period_column)


def _add_time_period_column_for_crossover_experiment(
    data: pd.DataFrame,
    *,
    start_week_id: int,
    pretest_weeks: int,
    runtime_weeks: int,
    crossover_washout_weeks: int,
    week_id_column: str,
    time_period_column: str = "time_period",
) -> pd.DataFrame:
  length = (runtime_weeks - crossover_washout_weeks * 2) // 2
  lengths = {
      "washout_1": crossover_washout_weeks,
      "test_1": length,
      "washout_2": crossover_washout_weeks,
      "test_2": length,
  }
  periods = [("pretest", start_week_id - pretest_weeks, start_week_id - 1)]
  first = start_week_id
  for label, n_weeks in lengths.items():
    periods.append((label, first, first + n_weeks - 1))
    first += n_weeks
  return _label_periods(data, periods, week_id_column, time_period_column)


def add_time_period_column(
    data: pd.DataFrame,
    *,
    design: ExperimentDesign,
    start_week_id: int,
    week_id_column: str,
    time_period_column: str = "time_period",
):
  if any(column == time_period_column for column in data.columns):
    raise ValueError(
        "time_period_column must not already be a column in the data."
    )
  if not week_id_column in list(data.columns):
    raise ValueError("week_id_column must be a column in the data.")

  kwargs = dict(
      start_week_id=start_week_id,
      pretest_weeks=design.pretest_weeks,
      runtime_weeks=design.runtime_weeks,
      week_id_column=week_id_column,
      time_period_column=time_period_column,
  )
  add = _add_time_period_column_for_regular_experiment
  if design.is_crossover:
    kwargs["crossover_washout_weeks"] = design.crossover_washout_weeks
    add = _add_time_period_column_for_crossover_experiment
  return add(data, **kwargs)


def _pivot_mean_per_week(
    data,
    weeks_per_period,
    optional_periods,
    *,
    metric_columns,
    item_id_column,
    treatment_column,
    time_period_column,
    fill_value,
):
  pivoted_data = pd.pivot_table(
      data,
      index=[item_id_column, treatment_column]
      if treatment_column
      else [item_id_column],
      columns=time_period_column,
      values=metric_columns,
      aggfunc="sum",
      fill_value=fill_value,
  )
  for period, n_weeks in weeks_per_period.items():
    if period in optional_periods:
      if period not in pivoted_data.columns.get_level_values(1):
        continue
    pivoted_data.loc[:, pd.IndexSlice[:, period]] /= n_weeks
  return pivoted_data


def _pivot_regular_time_assignment(
    data: pd.DataFrame,
    *,
    start_week_id: int,
    pretest_weeks: int,
    runtime_weeks: int,
    metric_columns: list[str],
    item_id_column: str,
    week_id_column: str,
    treatment_column: str | None = None,
    time_period_column: str = "time_period",
) -> pd.DataFrame:
  labelled = _add_time_period_column_for_regular_experiment(
      data.copy(deep=False),
      start_week_id=start_week_id,
      pretest_weeks=pretest_weeks,
      runtime_weeks=runtime_weeks,
      week_id_column=week_id_column,
      time_period_column=time_period_column,
  )
  return _pivot_mean_per_week(
      labelled,
      {"pretest": pretest_weeks, "test": runtime_weeks},
      {"pretest"},
      metric_columns=metric_columns,
      item_id_column=item_id_column,
      treatment_column=treatment_column,
      time_period_column=time_period_column,
      fill_value=0.0,
  )


def _pivot_crossover_time_assignment(
    data: pd.DataFrame,
    *,
    start_week_id: int,
    pretest_weeks: int,
    runtime_weeks: int,
    crossover_washout_weeks: int,
    metric_columns: list[str],
    item_id_column: str,
    week_id_column: str,
    treatment_column: str | None = None,
    time_period_column: str = "time_period",
) -> pd.DataFrame:
  labelled = _add_time_period_column_for_crossover_experiment(
      data.copy(deep=False),
      start_week_id=start_week_id,
      pretest_weeks=pretest_weeks,
      runtime_weeks=runtime_weeks,
      crossover_washout_weeks=crossover_washout_weeks,
      week_id_column=week_id_column,
      time_period_column=time_period_column,
  )
  test_weeks = (runtime_weeks - 2 * crossover_washout_weeks) // 2
  weeks = dict(pretest=pretest_weeks)
  weeks.update(test_1=test_weeks, test_2=test_weeks)
  weeks.update(
      {f"washout_{i}": crossover_washout_weeks for i in (1, 2)}
  )
  return _pivot_mean_per_week(
      labelled,
      weeks,
      set(weeks),
      metric_columns=metric_columns,
      item_id_column=item_id_column,
      treatment_column=treatment_column,
      time_period_column=time_period_column,
      fill_value=0,
  )


def pivot_time_assignment(
    data: pd.DataFrame,
    *,
    design: ExperimentDesign,
    start_week_id: int,
    metric_columns: list[str],
    item_id_column: str,
    week_id_column: str,
    treatment_column: str | None = None,
    time_period_column: str = "time_period",
) -> pd.DataFrame:
  if time_period_column in data.columns:
    raise ValueError(
        "time_period_column must not already be a column in the data."
    )

  required_columns = {item_id_column, week_id_column, *metric_columns}
  if treatment_column:
    required_columns |= {treatment_column}
  missing_columns = required_columns.difference(data.columns)
  if len(missing_columns) > 0:
    raise ValueError(
        f"The dataframe does not have the following columns: {missing_columns}"
    )

  shared = {
      "start_week_id": start_week_id,
      "pretest_weeks": design.pretest_weeks,
      "runtime_weeks": design.runtime_weeks,
      "metric_columns": metric_columns,
      "item_id_column": item_id_column,
      "week_id_column": week_id_column,
      "treatment_column": treatment_column,
      "time_period_column": time_period_column,
  }
  if not design.is_crossover:
    return _pivot_regular_time_assignment(data, **shared)
  return _pivot_crossover_time_assignment(
      data, crossover_washout_weeks=design.crossover_washout_weeks, **shared
  )


def _split_by_treatment(values, assignment):
  return tuple(values[assignment == group] for group in (1, 0))


def _prepare_metrics_for_regular_experiment(
    data: pd.DataFrame,
    treatment_assignment_column: str,
    post_trim_percentile: float,
) -> tuple[np.ndarray, np.ndarray]:
  y = data["test"].values
  if "pretest" in data.columns:
    y = statistics.apply_cuped_adjustment(
        y, data["pretest"].values, post_trim_percentile
    )
  return _split_by_treatment(y, data[treatment_assignment_column].values)


def _analyze_regular_experiment_single_metric(
    data: pd.DataFrame,
    *,
    denominator_data: pd.DataFrame | None,
    post_trim_percentile: float,
    treatment_assignment_column: str,
    alpha: float,
) -> statistics.StatisticalTestResults:
  def prepare(metric_data):
    if metric_data is None:
      return None, None
    return _prepare_metrics_for_regular_experiment(
        metric_data, treatment_assignment_column, post_trim_percentile
    )

  y_treatment, y_control = prepare(data)
  denom_treatment, denom_control = prepare(denominator_data)
  return statistics.yuens_t_test_ind(
      y_treatment,
      y_control,
      trimming_quantile=post_trim_percentile,
      denom_values1=denom_treatment,
      denom_values2=denom_control,
      alpha=alpha,
  )


def _prepare_metrics_for_crossover_experiment(
    data: pd.DataFrame, treatment_assignment_column: str, apply_demean: bool
) -> tuple[np.ndarray, np.ndarray]:
  treated_first = data[treatment_assignment_column].values == 1
  y_1, y_2 = data["test_1"].values, data["test_2"].values

  if not apply_demean:
    return (
        np.where(treated_first, y_1, y_2),
        np.where(treated_first, y_2, y_1),
    )

  y_1_demeaned = y_1 - y_1.mean()
  y_2_demeaned = y_2 - y_2.mean()
  treatment = np.where(treated_first, y_1_demeaned, y_2_demeaned)
  control = np.where(treated_first, y_2_demeaned, y_1_demeaned)
  shift = np.where(treated_first, y_2, y_1).mean() - control.mean()
  return treatment + shift, control + shift


def _analyze_crossover_experiment_single_metric(
    data: pd.DataFrame,
    *,
    denominator_data: pd.DataFrame | None,
    post_trim_percentile: float,
    treatment_assignment_column: str,
    alpha: float,
) -> statistics.StatisticalTestResults:
  frames = [data]
  if denominator_data is not None:
    frames.append(denominator_data)
  groups = []
  for frame in frames:
    groups += _prepare_metrics_for_crossover_experiment(
        frame,
        treatment_assignment_column,
        apply_demean=post_trim_percentile == 0.0,
    )
  if denominator_data is None:
    groups.extend([None, None])
  return statistics.yuens_t_test_paired(
      groups[0],
      groups[1],
      denom_values1=groups[2],
      denom_values2=groups[3],
      trimming_quantile=post_trim_percentile,
      alpha=alpha,
  )


def _required_periods(design):
  if design.is_crossover:
    return {"test_1", "test_2"}
  if design.pretest_weeks > 0:
    return {"test", "pretest"}
  return {"test"}


def analyze_single_metric(
    data: pd.DataFrame,
    *,
    design: ExperimentDesign,
    metric_name: str,
    denominator_metric_name: str | None = None,
    treatment_assignment_index_name: str = "treatment_assignment",
    trimming_quantile_override: float | None = None,
) -> statistics.StatisticalTestResults:
  required = _required_periods(design) | {treatment_assignment_index_name}

  metric_data = data[metric_name].reset_index()
  denominator_data = None
  missing = required - set(metric_data.columns)
  if denominator_metric_name is not None:
    denominator_data = data[denominator_metric_name].reset_index()
    missing |= required - set(denominator_data.columns)
  if missing:
    raise ValueError(
        "The dataframe is missing the following required columns:"
        f" {missing}"
    )

  analyze = (
      _analyze_crossover_experiment_single_metric
      if design.is_crossover
      else _analyze_regular_experiment_single_metric
  )
  return analyze(
      metric_data,
      denominator_data=denominator_data,
      post_trim_percentile=(
          trimming_quantile_override
          if trimming_quantile_override is not None
          else design.post_trim_percentile
      ),
      treatment_assignment_column=treatment_assignment_index_name,
      alpha=design.alpha,
  )


def _columns_of(metrics):
  columns = set()
  for metric in metrics:
    columns.add(metric.column)
  for metric in metrics:
    if metric.denominator_column is not None:
      columns.add(metric.denominator_column)
  return list(columns)


def analyze_experiment(
    data: pd.DataFrame,
    *,
    metrics: Collection[Metric],
    design: ExperimentDesign,
    week_id_column: str = "week_id",
    item_id_column: str = "item_id",
    treatment_assignment_column: str = "treatment_assignment",
) -> pd.DataFrame:
  pivoted_data = pivot_time_assignment(
      data,
      design=design,
      start_week_id=0,
      metric_columns=_columns_of(metrics),
      item_id_column=item_id_column,
      week_id_column=week_id_column,
      treatment_column=treatment_assignment_column,
  )

  def analyze(metric):
    print(f"Analysing {metric.name}")
    result = analyze_single_metric(
        pivoted_data,
        design=design,
        metric_name=metric.column,
        denominator_metric_name=metric.denominator_column,
        treatment_assignment_index_name=treatment_assignment_column,
        trimming_quantile_override=metric.trimming_quantile_override,
    )
    return {**dataclasses.asdict(result), "metric": metric.name}

  records = [analyze(metric) for metric in tqdm.tqdm(metrics)]
  return pd.DataFrame.from_records(records).set_index("metric")


def _interval(lower, upper, spec):
  return f"{lower:{spec}} to {upper:{spec}}"


def _format_relative_effect_ci_string(
    row: pd.Series, decimal_places: int = 2
) -> str:
  return _interval(
      row["relative_difference_lower_bound"],
      row["relative_difference_upper_bound"],
      f"+.{decimal_places}%",
  )


def _format_absolute_effect_ci_string(
    row: pd.Series, significant_figures: int = 3
) -> str:
  return _interval(
      row["absolute_difference_lower_bound"],
      row["absolute_difference_upper_bound"],
      f"+,.{significant_figures}g",
  )


def _format_yearly_projected_effect_ci_string(
    row: pd.Series, decimal_places: int = 0
) -> str:
  scale = 52 * row["sample_size"]
  return _interval(
      scale * row["absolute_difference_lower_bound"],
      scale * row["absolute_difference_upper_bound"],
      f"+,.{decimal_places}f",
  )


def _format_p_value(row: pd.Series) -> str:
  p_value = row["p_value"]
  suffix = " (Significant)" if p_value < row["alpha"] else ""
  if p_value < 0.001:
    return "p<0.001" + suffix
  if p_value < 0.01:
    return f"p={p_value:.3f}" + suffix
  if p_value <= 0.99:
    return f"p={p_value:.2f}" + suffix
  return "p>0.99" + suffix


def _highlight_significant(row: pd.Series, props: str = "") -> list[str]:
  if row["is_significant"].values[0]:
    positive = row["absolute_difference"].values[0] > 0.0
    colour = "background-color:" + ("lightgreen" if positive else "pink")
  else:
    colour = "color:grey"
  return [colour for _ in row.values]
