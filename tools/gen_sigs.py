"""Regenerates sa/sigs.json: parameter lists of the library functions.

Run by hand when the installed libraries change; the analysis itself only
reads the committed table and never imports the analysed or library code.
"""
import datetime, functools, hashlib, inspect, itertools, json, math, re
import os, sys
import numpy as np, pandas as pd, scipy.stats as stats, yaml
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt, matplotlib.ticker as mtick
from matplotlib.axes import Axes
from matplotlib.figure import Figure
from matplotlib.lines import Line2D
from pandas.io.formats.style import Styler
from pandas.core.groupby import DataFrameGroupBy, SeriesGroupBy

OUT = {}


def enc(d):
  if d is inspect.Parameter.empty:
    return ['req']
  if d is None or isinstance(d, (bool, int, str)) or (
      isinstance(d, float) and d == d and abs(d) < 1e300):
    return ['c', d]
  if 'no_default' in repr(d) or 'NoValue' in repr(d):
    return ['absent']
  return ['other']


def from_doc(name, doc):
  m = re.search(r'(?:^|\n)\s*(?:\w+\.)?%s\(([^()]*(?:\([^()]*\)[^()]*)*)\)'
                % re.escape(name), doc or '')
  if not m:
    return None
  out = []
  for p in re.split(r',(?![^(]*\))', m.group(1)):
    p = p.strip()
    if not p or p in ('/', '*', '...'):
      continue
    p = p.replace('[', '').replace(']', '')
    if '=' in p:
      n, d = p.split('=', 1)
      try:
        v = eval(d, {'np': np, 'None': None})
        out.append([n.strip(), enc(v)])
      except Exception:
        out.append([n.strip(), ['other']])
    elif re.match(r'^\w+$', p):
      out.append([p, ['req']])
    else:
      return None
  return out


def sig(f, name, method):
  try:
    s = inspect.signature(f)
  except (ValueError, TypeError):
    return from_doc(name, getattr(f, '__doc__', ''))
  ps = []
  plist = list(s.parameters.values())
  if method and plist and plist[0].name in ('self', 'cls'):
    plist = plist[1:]
  for p in plist:
    if p.kind == p.VAR_POSITIONAL:
      ps.append(['*' + p.name, ['req']])
    elif p.kind == p.VAR_KEYWORD:
      ps.append(['**' + p.name, ['req']])
    else:
      ps.append([p.name, enc(p.default)])
  return ps


def module(prefix, mod):
  for n in dir(mod):
    if n.startswith('_'):
      continue
    f = getattr(mod, n)
    if callable(f) and not (inspect.isclass(f) and issubclass(
        f, BaseException)) and not isinstance(f, np.ufunc):
      s = sig(f, n, False)
      if s is not None:
        OUT[prefix + '.' + n] = s


def cls(prefix, c):
  for n in dir(c):
    if n.startswith('_'):
      continue
    f = inspect.getattr_static(c, n)
    f = getattr(f, '__func__', f)
    if callable(f) or inspect.ismethoddescriptor(f):
      s = sig(getattr(c, n), n, True)
      if s is not None:
        OUT[prefix + '.' + n] = s


module('np', np)
module('np.random', np.random)
module('np.linalg', np.linalg)
module('pd', pd)
module('stats', stats)
module('plt', plt)
module('mtick', mtick)
module('math', math)
module('itertools', itertools)
module('yaml', yaml)
for n in ('t', 'norm', 'binom', 'chi2', 'f', 'uniform', 'beta'):
  for m in ('cdf', 'sf', 'ppf', 'isf', 'pdf', 'logcdf', 'rvs', 'interval'):
    base = ['x'] if m in ('cdf', 'sf', 'pdf', 'logcdf') else \
        ['q'] if m in ('ppf', 'isf') else []
    shapes = {'t': ['df'], 'chi2': ['df'], 'binom': ['n', 'p'],
              'f': ['dfn', 'dfd'], 'beta': ['a', 'b']}.get(n, [])
    if m == 'interval':
      base = ['confidence']
    s = [[b, ['req']] for b in base + shapes] + [
        ['loc', ['c', 0]], ['scale', ['c', 1]]]
    OUT[f'stats.{n}.{m}'] = s
for p, c in (('frame', pd.DataFrame), ('series', pd.Series),
             ('index', pd.Index), ('array', np.ndarray),
             ('fgroupby', DataFrameGroupBy), ('sgroupby', SeriesGroupBy),
             ('rng', np.random.Generator), ('axes', Axes), ('figure', Figure),
             ('styler', Styler), ('str', str), ('bytes', bytes),
             ('multiindex', pd.MultiIndex)):
  cls(p, c)
OUT['str.encode'] = [['encoding', ['c', 'utf-8']], ['errors',
                                                    ['c', 'strict']]]
OUT['bytes.decode'] = OUT['str.encode']
OUT['mlines.Line2D'] = sig(Line2D, 'Line2D', True)
OUT['dt.datetime.strptime'] = [['date_string', ['req']], ['format', ['req']]]
OUT['dt.timedelta'] = [[n, ['c', 0]] for n in (
    'days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours',
    'weeks')]
here = os.path.dirname(os.path.abspath(__file__))
json.dump(OUT, open(os.path.join(here, '..', 'sa', 'sigs.json'), 'w'),
          sort_keys=True, separators=(',', ':'))
print(len(OUT))
