def _n_trimmed(fraction, n_items):
  return int(np.floor(n_items * fraction))


class ExperimentDesign:
  def _validate_design(self):
    for name in (
        "pre_trim_top_percentile",
        "pre_trim_bottom_percentile",
        "post_trim_percentile",
    ):
      if getattr(self, name) < 0.0:
        raise ValueError(f"{name.capitalize()} must be >= 0.0.")
    if not self.runtime_weeks > 0:
      raise ValueError("Runtime weeks must be > 0.")
    if self.pretest_weeks < 0:
      raise ValueError("Pretest weeks must be >= 0.")
    total_pre_trim = (
        self.pre_trim_bottom_percentile + self.pre_trim_top_percentile
    )
    if not total_pre_trim < 1.0:
      raise ValueError(
          "Pre_trim_top_percentile + pre_trim_bottom_percentile must be < 1.0."
      )
    if not self.post_trim_percentile < 0.5:
      raise ValueError("Post_trim_percentile must be < 0.5.")
    if self.pretest_weeks == 0 and (
        self.pre_trim_top_percentile > 0 or self.pre_trim_bottom_percentile > 0
    ):
      raise ValueError("Cannot do any pre-trimming if the pretest weeks are 0.")
    if self.is_crossover:
      self._validate_crossover()
    if self.n_items_after_post_trim < 51:
      raise ValueError(
          "There must be more than 50 items remaining after all trimming, only"
          f" have {self.n_items_after_post_trim}."
      )

  def _validate_crossover(self):
    washout = self.crossover_washout_weeks
    if washout is None:
      raise ValueError(
          "Must specify the crossover washout weeks for a crossover test."
      )
    if washout < 0:
      raise ValueError(
          "Crossover washout weeks must be >= 0 for a crossover test."
      )
    if not self.runtime_weeks > washout * 2:
      raise ValueError(
          "Runtime weeks must be > 2 * crossover washout weeks for a"
          " crossover test, otherwise there will be no data left after"
          " excluding the washout weeks."
      )
    if self.runtime_weeks % 2:
      raise ValueError(
          "Runtime weeks must be even for a crossover test, so that there is"
          " an equal number of weeks in each period of the crossover."
      )

  def __post_init__(self):
    n = self.n_items_before_trimming
    top = _n_trimmed(self.pre_trim_top_percentile, n)
    bottom = _n_trimmed(self.pre_trim_bottom_percentile, n)
    n_after_pre_trim = n - (top + bottom)
    each_side = _n_trimmed(self.post_trim_percentile, n_after_pre_trim)
    self.n_items_after_pre_trim = n_after_pre_trim
    self.n_items_after_post_trim = n_after_pre_trim - each_side - each_side
    self._validate_design()

  @property
  def design_id(self) -> str:
    unsalted = dataclasses.replace(self, coinflip_salt=None)
    digest = hashlib.md5()
    digest.update(repr(unsalted).encode())
    return digest.hexdigest()

  @classmethod
  def load_from_yaml(cls, file_path: str) -> "ExperimentDesign":
    with open(file_path) as file:
      values = yaml.safe_load(file)

    expected = {
        name: values.pop(name)
        for name in ("n_items_after_pre_trim", "n_items_after_post_trim")
    }
    design = cls(**values)
    for name, loaded in expected.items():
      calculated = getattr(design, name)
      if loaded != calculated:
        raise ValueError(
            f"{name} in the yaml file does not match what is"
            " calculated from the n_items_before_trimming and the trimming"
            f" percentiles. In the yaml file: {loaded},"
            f" expected: {calculated}."
        )
    return design

  def write_to_yaml(self, file_path: str) -> None:
    raw_values = {}
    for name, value in dataclasses.asdict(self).items():
      if isinstance(value, np.generic):
        value = value.item()
      raw_values[name] = value
    with open(file_path, mode="w") as file:
      yaml.dump(raw_values, stream=file)

  def _crossover_lines(self):
    half = self.runtime_weeks // 2
    washout = self.crossover_washout_weeks
    weeks = [i + 1 for i in range(washout)]
    weeks += [half + i + 1 for i in range(washout)]
    yield ""
    yield "Crossover Details:"
    yield ""
    yield (
        f"\tControl and treatment to be swapped {half} weeks after starting"
        " the experiment"
    )
    yield (
        "\tNumber of crossover washout weeks to ignore at start of"
        f" each period: {washout}"
    )
    yield (
        f"\tWeeks {weeks} are the washout weeks to be"
        " excluded from the analysis"
    )

  def __str__(self) -> str:
    experiment_type = "regular experiment"
    if self.is_crossover:
      experiment_type = "crossover experiment"
    elif self.pretest_weeks > 0:
      experiment_type += " (CUPED adjusted)"

    lines = []
    add = lines.append
    add(f"Design {self.design_id}")
    add("")
    add(f"\tExperiment type: {experiment_type}")
    add(f"\tPrimary metric: {self.primary_metric}")
    add(
        "\tNumber of weeks of data before start of experiment used for"
        f" analysis: {self.pretest_weeks}"
    )
    add(f"\tTotal experiment runtime weeks: {self.runtime_weeks}")
    if self.is_crossover:
      lines += list(self._crossover_lines())

    lines += ["", "Number of items for testing:", ""]
    before = self.n_items_before_trimming
    after_pre = self.n_items_after_pre_trim
    after_post = self.n_items_after_post_trim
    if after_post != before:
      add(
          "\tNumber of items eligible for experimentation (before trimming):"
          f" {before}"
      )
      if after_pre < before:
        add("")
        if self.pre_trim_top_percentile > 0:
          add(
              f"\tTop {self.pre_trim_top_percentile:.2%} of items with highest"
              f" {self.primary_metric} in pre-test period will not be included"
              " in experiment"
          )
        if self.pre_trim_bottom_percentile > 0:
          add(
              f"\tBottom {self.pre_trim_bottom_percentile:.2%} items with"
              f" lowest {self.primary_metric} in pre-test period will not be"
              " included in experiment"
          )
        add(
            "\tNumber of items remaining after trimming for the experiment:"
            f" {after_pre}"
        )
      if after_post < after_pre:
        add("")
        add(
            f"\tTop and bottom {self.post_trim_percentile:.2%} of items"
            f" with highest / lowest {self.primary_metric} during"
            " experiment runtime will be excluded from the analysis"
        )
        add(
            "\tNumber of items remaining after trimming for the"
            f" analysis: {after_post}"
        )
    else:
      add(f"\tNumber of items: {before}")
      add("\tNo hero / outlier trimming used")

    lines += [
        "",
        "Extra details:",
        "",
        f"\tAlpha threshold: {self.alpha}",
        f"\tPower: {self.power}",
        f"\tCoinflip salt: {self.coinflip_salt}",
    ]
    return "\n".join(lines)


class Coinflip:
  def __init__(self, salt: str):
    if salt is None or len(salt) == 0:
      raise ValueError("Salt must not be empty.")
    self.salt = salt

  @classmethod
  def with_random_salt(cls, salt_length: int = 10) -> "Coinflip":
    random_bytes = np.random.default_rng().bytes(salt_length)
    return cls(salt=random_bytes.hex())

  def __call__(self, item_id: str) -> int:
    digest = hashlib.md5(f"{self.salt}{item_id}".encode()).hexdigest()
    return int(digest, base=16) & 1
