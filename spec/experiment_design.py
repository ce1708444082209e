"""Reference: experiment designs and the treatment coinflip."""
import dataclasses
import hashlib

import numpy as np
import yaml


@dataclasses.dataclass
class ExperimentDesign:
  n_items_before_trimming: int
  runtime_weeks: int
  primary_metric: str
  pretest_weeks: int
  is_crossover: bool
  pre_trim_top_percentile: float
  pre_trim_bottom_percentile: float
  post_trim_percentile: float
  crossover_washout_weeks: int | None = None
  alpha: float = 0.05
  power: float = 0.8
  coinflip_salt: str | None = None
  n_items_after_pre_trim: int = dataclasses.field(init=False)
  n_items_after_post_trim: int = dataclasses.field(init=False)

  def __post_init__(self):
    n = self.n_items_before_trimming
    top, bottom = self.pre_trim_top_percentile, self.pre_trim_bottom_percentile
    m = n - int(np.floor(top * n)) - int(np.floor(bottom * n))
    kept = m - 2 * int(np.floor(self.post_trim_percentile * m))
    invalid = (
        self.runtime_weeks <= 0
        or self.pretest_weeks < 0
        or top < 0.0
        or bottom < 0.0
        or self.post_trim_percentile < 0.0
        or top + bottom >= 1.0
        or self.post_trim_percentile >= 0.5
        or ((top > 0.0 or bottom > 0.0) and self.pretest_weeks == 0)
        or kept <= 50)
    if self.is_crossover:
      washout = self.crossover_washout_weeks
      invalid = invalid or (
          washout is None or washout < 0 or self.runtime_weeks <= 2 * washout
          or self.runtime_weeks % 2 != 0)
    if invalid:
      raise ValueError('invalid design')
    self.n_items_after_pre_trim = m
    self.n_items_after_post_trim = kept

  @property
  def design_id(self) -> str:
    unsalted = dataclasses.replace(self, coinflip_salt=None)
    return hashlib.md5(repr(unsalted).encode('utf-8')).hexdigest()

  @classmethod
  def load_from_yaml(cls, file_path: str) -> 'ExperimentDesign':
    with open(file_path, 'r') as file:
      stored = yaml.safe_load(file)
    after_pre_trim = stored.pop('n_items_after_pre_trim')
    after_post_trim = stored.pop('n_items_after_post_trim')
    design = cls(**stored)
    if (design.n_items_after_pre_trim != after_pre_trim
        or design.n_items_after_post_trim != after_post_trim):
      raise ValueError('derived item counts')
    return design

  def write_to_yaml(self, file_path: str) -> None:
    plain = {}
    for name, value in dataclasses.asdict(self).items():
      plain[name] = value.item() if isinstance(value, np.generic) else value
    with open(file_path, 'w') as file:
      yaml.dump(plain, file)

  def __str__(self) -> str:
    half = self.runtime_weeks // 2
    washout = self.crossover_washout_weeks
    kind = 'regular experiment'
    if self.is_crossover:
      kind = 'crossover experiment'
    elif self.pretest_weeks > 0:
      kind = 'regular experiment (CUPED adjusted)'
    text = f'Design {self.design_id}\n\n'
    text += f'\tExperiment type: {kind}\n'
    text += f'\tPrimary metric: {self.primary_metric}\n'
    text += (
        '\tNumber of weeks of data before start of experiment used for '
        f'analysis: {self.pretest_weeks}\n')
    text += f'\tTotal experiment runtime weeks: {self.runtime_weeks}\n'
    if self.is_crossover:
      excluded = list(range(1, washout + 1)) + list(
          range(half + 1, half + washout + 1))
      text += '\nCrossover Details:\n\n'
      text += (
          f'\tControl and treatment to be swapped {half} weeks after starting '
          'the experiment\n')
      text += (
          '\tNumber of crossover washout weeks to ignore at start of each '
          f'period: {washout}\n')
      text += (
          f'\tWeeks {excluded} are the washout weeks to be excluded from the '
          'analysis\n')
    text += '\nNumber of items for testing:\n\n'
    if self.n_items_before_trimming == self.n_items_after_post_trim:
      text += f'\tNumber of items: {self.n_items_before_trimming}\n'
      text += '\tNo hero / outlier trimming used\n'
    else:
      text += (
          '\tNumber of items eligible for experimentation (before trimming): '
          f'{self.n_items_before_trimming}\n')
      if self.n_items_after_pre_trim < self.n_items_before_trimming:
        text += '\n'
        if self.pre_trim_top_percentile > 0:
          text += (
              f'\tTop {self.pre_trim_top_percentile:.2%} of items with highest '
              f'{self.primary_metric} in pre-test period will not be included '
              'in experiment\n')
        if self.pre_trim_bottom_percentile > 0:
          text += (
              f'\tBottom {self.pre_trim_bottom_percentile:.2%} items with '
              f'lowest {self.primary_metric} in pre-test period will not be '
              'included in experiment\n')
        text += (
            '\tNumber of items remaining after trimming for the experiment: '
            f'{self.n_items_after_pre_trim}\n')
      if self.n_items_after_post_trim < self.n_items_after_pre_trim:
        text += '\n'
        text += (
            f'\tTop and bottom {self.post_trim_percentile:.2%} of items with '
            f'highest / lowest {self.primary_metric} during experiment '
            'runtime will be excluded from the analysis\n')
        text += (
            '\tNumber of items remaining after trimming for the analysis: '
            f'{self.n_items_after_post_trim}\n')
    text += '\nExtra details:\n\n'
    text += f'\tAlpha threshold: {self.alpha}\n'
    text += f'\tPower: {self.power}\n'
    text += f'\tCoinflip salt: {self.coinflip_salt}'
    return text


class Coinflip:

  def __init__(self, salt: str):
    if not salt:
      raise ValueError('empty salt')
    self.salt = salt

  @classmethod
  def with_random_salt(cls, salt_length: int = 10) -> 'Coinflip':
    return cls(np.random.default_rng().bytes(salt_length).hex())

  def __call__(self, item_id: str) -> int:
    text = f'{self.salt}{item_id}'
    return int(hashlib.md5(text.encode('utf-8')).hexdigest(), 16) % 2
