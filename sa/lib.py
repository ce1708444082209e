"""Meaning of the library calls used by feedx, as canonical terms."""
from __future__ import annotations

import ast
import json
import os
import re

from sa.terms import *   # noqa: F401,F403
from sa import terms as tm
from sa import interp as ip
from sa.interp import Ref, Unsupported, FUNS, Func, Cls, _set_kind

SIGS = json.load(open(os.path.join(os.path.dirname(__file__), 'sigs.json')))
METHODS: dict = {}
for _k, _v in SIGS.items():
  _c, _, _m = _k.rpartition('.')
  if _c in ('frame', 'series', 'index', 'array', 'fgroupby', 'sgroupby', 'rng',
            'axes', 'figure', 'styler', 'str', 'bytes', 'multiindex'):
    METHODS.setdefault(_m, {})[_c] = _v

DAY = tm.sym('DAY', 'num')

KINDCLASS = {
    'frame': ('frame',), 'series': ('series',), 'array': ('array', 'series'),
    'matrix': ('array',), 'index': ('index', 'multiindex'),
    'groupby': ('fgroupby', 'sgroupby'), 'rng': ('rng',), 'axes': ('axes',),
    'styler': ('styler',), 'str': ('str',), 'bytes': ('bytes',),
}

# drawing calls whose arguments are part of the documented behaviour
EFFECTS = {'plot', 'hist', 'errorbar', 'fill_between', 'fill_betweenx',
           'axvline', 'axhline', 'axvspan', 'axhspan', 'bar', 'barh',
           'scatter', 'set_yticks', 'set_xticks', 'set_xlim', 'set_ylim',
           'step', 'stairs', 'vlines', 'hlines', 'boxplot', 'text',
           'annotate', 'ecdf', 'stackplot', 'set_xticklabels',
           'set_yticklabels', 'set_linestyle', 'legend', 'set_xscale',
           'set_yscale', 'invert_yaxis', 'invert_xaxis', 'write',
           'writelines', 'savefig'}
COSMETIC = {'color', 'c', 'lw', 'ls', 'linewidth', 'linestyle', 'alpha',
            'edgecolor', 'ec', 'facecolor', 'histtype', 'figsize', 'loc',
            'bbox_to_anchor', 'capsize', 'markersize', 'ms', 'zorder',
            'elinewidth', 'capthick', 'title', 'constrained_layout', 'rotation',
            'fontsize', 'ncol', 'ncols_', 'frameon', 'dpi', 'tight_layout',
            'height_ratios', 'layout', 'rasterized', 'marker', 'rwidth',
            'antialiased', 'gridspec_kw', 'desc', 'fmt', 'xlabel', 'ylabel'}

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update',
            'setdefault', 'sort', 'reverse', 'add', 'discard', 'popitem',
            'fill', 'resize', 'put', 'partition', 'itemset', 'setflags',
            'difference_update', 'intersection_update',
            'symmetric_difference_update'}

DRAWS = set(m for m, c in METHODS.items() if 'rng' in c) - {'spawn',
                                                            'bit_generator'}

ALIASES = {
    'np.amin': 'np.min', 'np.amax': 'np.max', 'np.absolute': 'np.abs',
    'np.fabs': 'np.abs', 'math.fabs': 'np.abs', 'abs': 'np.abs',
    'np.nanmin_': 'np.min', 'np.multiply': '*', 'np.add': '+',
    'np.subtract': '-', 'np.divide': '/', 'np.true_divide': '/',
    'np.floor_divide': '//', 'np.mod': '%', 'np.remainder': '%',
    'np.power': '**', 'math.pow': '**', 'pow': '**', 'np.float_power': '**',
    'operator.add': '+', 'operator.sub': '-', 'operator.mul': '*',
    'operator.truediv': '/', 'operator.floordiv': '//', 'operator.mod': '%',
    'np.equal': '==', 'np.not_equal': '!=', 'np.less': '<',
    'np.less_equal': '<=', 'np.greater': '>', 'np.greater_equal': '>=',
    'operator.eq': '==', 'operator.ne': '!=', 'operator.lt': '<',
    'operator.le': '<=', 'operator.gt': '>', 'operator.ge': '>=',
    'np.logical_and': '&', 'np.logical_or': '|', 'np.bitwise_and': '&',
    'np.bitwise_or': '|', 'operator.and_': '&', 'operator.or_': '|',
    'pd.isna': 'isnan', 'pd.isnull': 'isnan', 'np.isnan': 'isnan',
    'math.isnan': 'isnan', 'math.isfinite': 'np.isfinite',
    'math.isinf': 'np.isinf', 'math.sqrt': 'np.sqrt', 'math.log': 'np.log',
    'math.exp': 'np.exp', 'math.floor': 'np.floor', 'math.ceil': 'np.ceil',
    'np.maximum': 'max2', 'np.fmax': 'max2', 'np.minimum': 'min2',
    'np.fmin': 'min2', 'yaml.safe_dump': 'yaml.dump_',
    'np.round': 'round', 'np.around': 'round', 'np.random.Generator_': '',
    'pd.core.common_': '', 'np.concatenate_': '', 'np.absolute_': '',
    'np.negative': 'neg', 'operator.neg': 'neg', 'operator.not_': 'not',
    'np.logical_not': '~', 'np.invert': '~', 'np.row_stack': 'np.vstack',
    'operator.invert': '~',
}
BINOPS = {'+': ast.Add(), '-': ast.Sub(), '*': ast.Mult(), '/': ast.Div(),
          '//': ast.FloorDiv(), '%': ast.Mod(), '**': ast.Pow(),
          '&': ast.BitAnd(), '|': ast.BitOr()}
CMPOPS = {'==': ast.Eq(), '!=': ast.NotEq(), '<': ast.Lt(), '<=': ast.LtE(),
          '>': ast.Gt(), '>=': ast.GtE()}
METHOD_BINOPS = {'add': '+', 'sub': '-', 'subtract': '-', 'mul': '*',
                 'multiply': '*', 'div': '/', 'divide': '/', 'truediv': '/',
                 'floordiv': '//', 'mod': '%', 'pow': '**', 'eq': '==',
                 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}
METHOD_RBINOPS = {'radd': '+', 'rsub': '-', 'rmul': '*', 'rdiv': '/',
                  'rtruediv': '/', 'rpow': '**', 'rfloordiv': '//'}
DISTRS = ('t', 'norm', 'chi2', 'f', 'binom', 'uniform', 'beta')
CONTENT = ('.values', '.to_numpy', 'np.asarray', '.array')

_K = tm._CALLKIND
for _n in ('np.array', 'np.append', 'np.sort', 'np.argsort', 'np.cumsum',
           'np.diff', '.cumsum', 'np.concatenate', 'np.ones', 'np.zeros',
           'np.full', 'np.linspace', 'np.unique', 'np.repeat', 'np.tile',
           'np.flip', 'np.diag', '.flatten', '.ravel', 'np.ones_like',
           'np.zeros_like', 'np.empty', 'np.logspace', 'np.geomspace',
           'np.bincount', 'np.digitize', 'np.searchsorted', '.argsort',
           'np.select', 'np.random.permutation', 'np.hstack'):
  _K[_n] = 'array'
for _n in ('np.stack', 'np.vstack', 'np.atleast_2d', 'np.cov', 'np.reshape',
           '.reshape', 'np.column_stack', 'np.meshgrid', 'np.corrcoef',
           'np.outer', 'np.eye', 'np.linalg.inv', 'np.diagflat'):
  _K[_n] = 'matrix'
for _n in ('pd.DataFrame', '.merge', '.drop', '.rename', '.reset_index',
           '.sort_values', '.set_index', '.sample', '.drop_duplicates',
           '.fillna', '.astype', '.copy', '.pivot_table', 'pd.pivot_table',
           '.pivot', '.melt', '.join', 'pd.concat', '.head', '.tail', '.iloc',
           '.query', '.stack', '.unstack', '.transform', '.apply', '.agg',
           '.dropna', '.sort_index', '.shift', '.rank', '.round', '.reindex',
           '.groupby.apply', '.nlargest', '.nsmallest', '.replace', '.isin',
           '.droplevel', '.swaplevel', '.ffill', '.bfill', 'emap', '.diff',
           '.infer_objects', '.convert_dtypes', '.T', '.transpose', '.xs',
           '.where', '.mask', '.select_dtypes', '.filter', '.pct_change'):
  _K[_n] = lambda t: tm.kind(t.a[0]) if t.a and tm.kind(t.a[0]) in (
      'frame', 'series', 'array', 'index', 'matrix') else 'frame' \
      if t.d[0].startswith('pd.') or t.d[0] in (
          '.merge', '.set_index', '.pivot_table', '.pivot', '.melt') else None
for _n in ('.value_counts', 'pd.Series', 'pd.to_datetime', 'pd.to_numeric',
           'pd.to_timedelta', 'pd.cut', 'pd.qcut', '.nunique_axis',
           '.groupby.size', '.duplicated'):
  _K[_n] = 'series'
_K['unique'] = 'array'
for _n in ('nunique', 'np.argmax', 'np.argmin', '.argmax', '.argmin', 'ncols',
           'len', '.find', '.index_of', '.ndim', '.toordinal', '.weekday'):
  _K[_n] = 'int'
for _n in ('min', 'max', 'abs', 'exp', 'log', 'round', 'tcdf', 'std', 'var',
           'median', 'prod', 'normcdf', '.total_seconds'):
  _K[_n] = lambda t: (tm.kind(t.a[0]) if t.d[0] in (
      'abs', 'exp', 'log', 'round', 'tcdf', 'normcdf') and t.a and tm.kind(
          t.a[0]) in ('series', 'array', 'matrix', 'frame') else
                      'series' if t.a and tm.kind(t.a[0]) == 'frame'
                      else 'num')
for _n in ('.lower', '.upper', '.strip', '.hexdigest', '.hex', '.strftime',
           '.replace_s', '.format', 'repr', '.isoformat', '.capitalize',
           '.title', '.lstrip', '.rstrip', '%', '.zfill', '.decode'):
  _K[_n] = 'str'
for _n in ('.startswith', '.endswith', 'np.isclose', 'np.array_equal',
           '.duplicated', 'np.allclose', '.isdigit', '.is_unique', 'callable',
           '.is_monotonic_increasing', 'hasattr', '.isnumeric',
           '.equals', '.issubset'):
  _K[_n] = 'bool'
for _n in ('.groupby', '.groupby.getitem', '.rolling', '.resample'):
  _K[_n] = 'groupby'
for _n in ('.index', 'pd.Index', 'pd.MultiIndex.from_product',
           'pd.MultiIndex.from_arrays', 'pd.MultiIndex.from_tuples',
           '.get_level_values', 'pd.date_range', 'pd.RangeIndex'):
  _K[_n] = 'index'
for _n in ('.split', '.tolist', '.to_list', '.splitlines'):
  _K[_n] = 'list'
_K['.encode'] = 'bytes'
_K['np.random.default_rng'] = 'rng'
_K['.style'] = 'styler'
_K['sum'] = 'num'
_K['asdict'] = 'dict'
_K['.to_dict'] = 'dict'
_K['yaml.safe_load'] = 'dict'
_K['plt.subplots'] = None
_K['.values'] = lambda t: 'matrix' if tm.kind(t.a[0]) == 'frame' else tm.kind(
    t.a[0])

ELEMENTWISE = ('series', 'array', 'matrix', 'index', 'frame')


def arrayish(t):
  return kind(t) in ELEMENTWISE or t.op in ('where', 'col', 'gagg')


def pick(c, a, b):
  """Selection: elementwise when any part is an array."""
  if arrayish(a) or arrayish(b) or not tm.scalar_bool(c) and (
      kind(a) is None or kind(b) is None):
    if not (tm.scalar_bool(c)):
      return where(c, a, b)
  return ite(c, a, b)


def max2(a, b):
  if a is b:
    return a
  return pick(lt(a, b), b, a)


def min2(a, b):
  if a is b:
    return a
  return pick(lt(b, a), b, a)


def call_t(name, args, kw=None):
  kw = kw or {}
  ks = tuple(sorted(kw))
  return raw('call', list(args) + [kw[k] for k in ks], (name, ks))


def values_of(t):
  if t.op == 'ite':
    return tm.ite(t.a[0], values_of(t.a[1]), values_of(t.a[2]))
  if tm.kind(t) in ('series', 'array', 'index', 'num', 'int', 'bool') or \
      t.op == 'columns' or t.op == 'call' and t.d[0] in CONTENT:
    return t
  return call_t('.values', [t])


def strip_content(t):
  """t without the calls that only change the container it is held in."""
  if t.op == 'ite':
    return tm.ite(t.a[0], strip_content(t.a[1]), strip_content(t.a[2]))
  while t.op == 'call' and t.d[0] in CONTENT and len(t.a) == 1:
    t = t.a[0]
  return t


def absval(x):
  if x.op == 'num':
    return num(abs(x.d))
  n = neg(x)
  return call_t('abs', [x if x.id < n.id else n])


def tcdf(name, x, rest):
  n = neg(x)
  if x.op == 'poly' and n.id < x.id or n.op != 'poly' and x.op == 'poly':
    return sub(ONE, raw('call', (n,) + rest, (name + 'cdf', ())))
  return raw('call', (x,) + rest, (name + 'cdf', ()))


def tppf(name, q, rest):
  c = sub(ONE, q)
  if q.op == 'ite':
    return tm.ite(q.a[0], tppf(name, q.a[1], rest), tppf(name, q.a[2], rest))
  if q.op == 'num' and q.d * 2 == 1:
    return ZERO
  if c.id < q.id:
    return neg(raw('call', (c,) + rest, (name + 'ppf', ())))
  return raw('call', (q,) + rest, (name + 'ppf', ()))


class Lib:
  mutators = MUTATORS

  # ------------------------------------------------------------ signatures
  def normalise(self, params, args, kw, skip=0):
    """(positional, kw) after naming and dropping defaults.

    Values are terms. Leading required parameters stay positional.
    """
    if params is None:
      return list(args), dict(kw)
    names = [p[0] for p in params]
    if any(n.startswith('*') and not n.startswith('**') for n in names) or any(
        isinstance(a, T) and a.op == 'spread' for a in args):
      vi = [i for i, n in enumerate(names) if n.startswith('*') and
            not n.startswith('**')]
      kw = {k: v for k, v in kw.items() if not self.is_default(
          params, k, v)}
      return list(args), kw
    out = dict(kw)
    extra = []
    for i, a in enumerate(args):
      if i < len(names) and not names[i].startswith('*'):
        out[names[i]] = a
      else:
        extra.append(a)
    out = {k: v for k, v in out.items()
           if not self.is_default(params, k, v)}
    pos = []
    for n, d in params:
      if d[0] == 'req' and n in out and not n.startswith('*'):
        pos.append(out.pop(n))
      else:
        break
    return pos + extra, out

  @staticmethod
  def is_default(params, k, v):
    for n, d in params:
      if n == k and d[0] == 'c':
        try:
          return const(d[1]) is v
        except Exception:
          return False
      if n == k and d[0] in ('absent', 'other') and v is NONE and \
          d[0] == 'other':
        return False
    return False

  def msig(self, name, k):
    cl = METHODS.get(name)
    if not cl:
      return None
    for c in KINDCLASS.get(k, ()):
      if c in cl:
        return cl[c]
    if k in KINDCLASS:
      return None
    cands = [v for c, v in cl.items() if c not in ('str', 'bytes')] or list(
        cl.values())
    if len(cands) == 1:
      return cands[0]
    out = []
    for ps in zip(*cands):
      ns = {p[0] for p in ps}
      if len(ns) > 1:
        break
      ds = {json.dumps(p[1]) for p in ps}
      out.append([ps[0][0], ps[0][1] if len(ds) == 1 else ['other']])
    names = {p[0] for p in out}
    # keyword defaults on which all classes that know the parameter agree
    rest = {}
    for c in cands:
      for p in c:
        if p[0] not in names:
          rest.setdefault(p[0], []).append(json.dumps(p[1]))
    tail = [[n, json.loads(ds[0])] for n, ds in sorted(rest.items())
            if len(set(ds)) == 1 and not n.startswith('*') and
            json.loads(ds[0])[0] != 'req']
    self._npos = len(out)
    return out + [['**|', ['req']]] + tail

  def terms(self, I, args, kw, st):
    a = []
    for x in args:
      if isinstance(x, T) and x.op == 'spread':
        a.append(x)
      else:
        a.append(I.as_arg(x, st))
    k = {}
    for n, v in kw.items():
      k[n] = I.as_arg(v, st) if not (isinstance(v, T) and v.op == 'optarg') \
          else v
    return a, k

  def iter_t(self, I, t):
    if t.op in ('items', 'zip', 'enumerate', 'product', 'reversedx'):
      return I.as_list(t)
    return t

  # ------------------------------------------------------------ functions
  def call(self, I, name, args, kw, st, fr, e=None):
    name = ALIASES.get(name, name)
    h = getattr(self, 'f_' + re.sub(r'\W', '_', name), None)
    if h is not None and (not re.search(r'\W', name) or True):
      r = h(I, args, kw, st, fr)
      if r is not NotImplemented:
        return r
    a, k = self.terms(I, args, kw, st)
    if name in BINOPS and len(a) == 2 and not k:
      return I.wrap(st, I.binop(BINOPS[name], a[0], a[1], st))
    if name in CMPOPS and len(a) == 2 and not k:
      return I.compare(CMPOPS[name], a[0], a[1])
    if name == 'neg':
      return I.wrap(st, neg(a[0]))
    if name in ('~', 'not'):
      return not_(a[0] if name == '~' else truth(a[0]))
    m = re.match(r'^stats\.(%s)\.(cdf|sf|ppf|isf)$' % '|'.join(DISTRS), name)
    if m:
      return I.wrap(st, self.distr(m.group(1), m.group(2), a, k, name))
    if name.startswith('np.random.') and name.split('.')[-1] not in (
        'default_rng', 'Generator', 'PCG64', 'SeedSequence', 'RandomState',
        'BitGenerator', 'MT19937'):
      return self.draw(I, raw('lib', (), 'np.random'), name.split('.')[-1], a,
                       k, st)
    if name.startswith('random.') or name in (
        'os.urandom', 'secrets.token_hex', 'secrets.token_bytes',
        'uuid.uuid4', 'time.time', 'dt.datetime.now', 'dt.date.today',
        'dt.datetime.today', 'dt.datetime.utcnow', 'pd.Timestamp.now',
        'pd.Timestamp.today', 'secrets.randbits', 'secrets.choice'):
      return self.draw(I, raw('lib', (), name.rpartition('.')[0]),
                       name.rpartition('.')[2], a, k, st)
    if name.startswith('warnings.') or name.startswith('logging.') or \
        name.startswith('typing.') or name in ('print',):
      return NONE
    if name.startswith('plt.') and name.split('.')[-1] in EFFECTS:
      return self.effect(I, raw('lib', (), 'plt'), name.split('.')[-1], a, k,
                         st)
    if name in ip.BUILTIN_EXC:
      return raw('excval', (), name)
    a, k = self.normalise(SIGS.get(name), a, k)
    if name.startswith('plt.') or name.startswith('mpl') or name.startswith(
        'mtick') or name.startswith('mlines'):
      k = {n: v for n, v in k.items() if n not in COSMETIC}
    if 'out' in k:
      for n, v in kw.items():
        if n == 'out' and isinstance(v, Ref):
          I.write(st, v, call_t(name, a, {}), 'it is used as out=')
    return I.wrap(st, call_t(name, a, k))

  def distr(self, dn, meth, a, k, name):
    p, kk = self.normalise(SIGS.get(f'stats.{dn}.{meth}'), a, k)
    if kk or len(p) < 1:
      ks = dict(kk)
      loc, sc = ks.pop('loc', ZERO), ks.pop('scale', ONE)
      if ks or len(p) < 1:
        return call_t(name, p, kk)
      if meth in ('cdf', 'sf'):
        p = [div(sub(p[0], loc), sc)] + p[1:]
        kk = {}
      else:
        return add(loc, mul(sc, self.distr(dn, meth, p, {}, name)))
    rest = tuple(p[1:])
    if dn in ('t', 'norm'):
      if meth == 'cdf':
        return tcdf(dn, p[0], rest)
      if meth == 'sf':
        return sub(ONE, tcdf(dn, p[0], rest))
      if meth == 'ppf':
        return tppf(dn, p[0], rest)
      return neg(tppf(dn, p[0], rest))
    if meth == 'sf':
      return sub(ONE, raw('call', tuple(p), (dn + 'cdf', ())))
    if meth == 'isf':
      return raw('call', (sub(ONE, p[0]),) + rest, (dn + 'ppf', ()))
    return raw('call', tuple(p), (dn + meth, ()))

  def draw(self, I, rng, meth, a, k, st):
    a, k = self.normalise(METHODS.get(meth, {}).get('rng'), a, k)
    # keep every parameter by name so that argument order does not matter
    ps = METHODS.get(meth, {}).get('rng') or []
    for (n, d), v in zip([p for p in ps if p[1][0] == 'req'], list(a)):
      pass
    # one way to write an integer drawn uniformly from low <= x < high
    if meth == 'choice' and len(a) == 1 and not set(k) - {'size'}:
      if a[0].op == 'range' and a[0].a[2] is ONE:
        meth, a = 'integers', [a[0].a[0], a[0].a[1]]
      elif a[0].op == 'num' and a[0].d > 0:
        meth, a = 'integers', [ZERO, a[0]]
    elif meth == 'integers' and len(a) == 1 and not set(k) - {
        'size', 'high', 'endpoint'} and k.get('endpoint', TRUE) is TRUE:
      hi = k.pop('high', None)
      a = [ZERO, a[0]] if hi is None or hi is tm.NONE else [a[0], hi]
      if k.pop('endpoint', None) is TRUE:
        a[1] = add(a[1], ONE)
    ks = tuple(sorted(k))
    key = (rng.id, meth, tuple(x.id for x in a),
           tuple((n, k[n].id) for n in ks))
    occ = I.draws.get(key, 0)
    I.draws[key] = occ + 1
    t = raw('draw', [rng] + list(a) + [k[n] for n in ks], (meth, ks, occ))
    I.draw_sites.append((st.pc, t, I.where()))
    return I.wrap(st, t)

  def effect(self, I, recv, meth, a, k, st):
    k = {n: v for n, v in k.items() if n not in COSMETIC}
    p = METHODS.get(meth, {}).get('axes')
    if p and not any(q[0].startswith('*') and not q[0].startswith('**')
                     for q in p):
      a, k = self.normalise(p, a, k)
    k = {n: v for n, v in k.items() if n not in COSMETIC}
    if meth == 'legend':
      k, a = {}, []
    if meth == 'plot' and a and (a[-1].op in ('str', 'concat')) and \
        len(a) > 1:
      a = a[:-1]           # the style of the line
    if k.get('label') in (NONE, tm.string('')):
      del k['label']
    ks = tuple(sorted(k))
    t = raw('eff', [recv] + list(a) + [k[n] for n in ks], (meth, ks))
    I.rec.effects.append((st.pc, t, I.where()))
    return I.wrap(st, raw('effval', (t,)))

  # builtins -------------------------------------------------------------
  def f_len(self, I, args, kw, st, fr):
    t = self.iter_t(I, I.rd(st, args[0]))
    if t.op == 'ite' and False:
      return NotImplemented
    return length(t)

  def f_range(self, I, args, kw, st, fr):
    a = [I.rd(st, x) for x in args]
    if any(x.op == 'spread' for x in a) or not a:
      return NotImplemented
    if len(a) == 1:
      a = [ZERO, a[0], ONE]
    elif len(a) == 2:
      a = a + [ONE]
    return raw('range', a)

  def f_np_arange(self, I, args, kw, st, fr):
    if kw:
      return NotImplemented
    r = self.f_range(I, args, kw, st, fr)
    if r is NotImplemented:
      return r
    return I.wrap(st, call_t('np.array', [r]))

  def f_print(self, I, args, kw, st, fr):
    return NONE

  def f_str(self, I, args, kw, st, fr):
    if not args:
      return string('')
    t = I.rd(st, args[0])
    cn = tm._cls_of(t)
    return fmt(t)

  def f_repr(self, I, args, kw, st, fr):
    t = I.rd(st, args[0])
    return self.repr_(I, t, st, fr)

  def repr_(self, I, t, st, fr):
    if t.op == 'str':
      return string(repr(t.d))
    cn = tm._cls_of(t)
    c = I.p.classes.get((I.side, cn)) or I.p.classes.get(('impl', cn)) \
        if cn else None
    if c is not None:
      m = ip.find_member(c, '__repr__')
      if isinstance(m, T) and m.op == 'fun':
        return I.rd(st, I.call_method(ip.FUNS[m.d], I.wrap(st, t), [], {}, st,
                                      fr))
      if c.dataclass and not c.norepr:
        return call_t('repr', [tm.string(c.name)],
                      {f[0]: attr(t, f[0]) for f in c.fields
                       if f[0] not in c.hidden})
    return call_t('repr', [t])

  def f_format(self, I, args, kw, st, fr):
    return fmt(*[I.rd(st, x) for x in args])

  def f_int(self, I, args, kw, st, fr):
    if len(args) + len(kw) == 2:
      a, k = self.terms(I, args, kw, st)
      b = a[1] if len(a) > 1 else k.get('base')
      t = call_t('int', [a[0], b])
      _set_kind(t, 'int')
      return t
    t = I.rd(st, args[0])
    k = kind(t)
    if k == 'bool':
      return ite(t, ONE, ZERO)
    if k == 'str':
      r = call_t('int', [t, num(10)])
      _set_kind(r, 'int')
      return r
    if t.op == 'num':
      return num(int(t.d))
    return floor(t)

  def f_float(self, I, args, kw, st, fr):
    if not args:
      return ZERO
    t = I.rd(st, args[0])
    if t.op == 'str':
      s = t.d.strip().lower()
      if s in ('inf', '+inf', 'infinity'):
        return tm.INF
      if s == '-inf':
        return neg(tm.INF)
      if s == 'nan':
        return tm.NAN
      try:
        return num(float(s))
      except ValueError:
        return call_t('float', [t])
    if kind(t) == 'bool':
      return ite(t, ONE, ZERO)
    if kind(t) == 'str':
      return call_t('float', [t])
    return t

  def f_bool(self, I, args, kw, st, fr):
    return truth(I.rd(st, args[0])) if args else FALSE

  def f_list(self, I, args, kw, st, fr):
    if not args:
      return I.new(st, lst())
    t = I.rd(st, args[0])
    return I.new(st, I.as_list(t))

  def f_tuple(self, I, args, kw, st, fr):
    if not args:
      return tup()
    l = I.as_list(I.rd(st, args[0]))
    if l.op == 'list':
      return raw('tuple', l.a)
    return tup(raw('spread', (l,)))

  def f_set(self, I, args, kw, st, fr):
    if not args:
      return I.new(st, mkset())
    t = self.iter_t(I, I.rd(st, args[0]))
    if kind(t) == 'set':
      return I.new(st, t)
    if t.op in ('list', 'tuple'):
      return I.new(st, mkset(*t.a))
    return I.new(st, mkset(raw('spread', (t,))))

  f_frozenset = f_set

  def f_dict(self, I, args, kw, st, fr):
    d = raw('dict')
    if args:
      t = I.rd(st, args[0])
      if kind(t) == 'dict':
        d = t
      elif t.op == 'items':
        d = t.a[0]
      else:
        d = I.pairs_to_dict(I.as_list(t))
    for k, v in kw.items():
      if k == '**':
        d = tm.dmerge(d, I.rd(st, v))
      elif isinstance(v, T) and v.op == 'optarg':
        d = dset(d, string(k), v.a[1], v.a[0])
      else:
        d = dset(d, string(k), I.rd(st, v))
    return I.new(st, d)

  def f_zip(self, I, args, kw, st, fr):
    ts = [I.rd(st, a) for a in args]
    if any(t.op == 'spread' for t in ts):
      if len(ts) == 1 and not kw:
        r = self.transposed(I.as_list(ts[0].a[0]))
        if r is not None:
          return r
      return NotImplemented
    return raw('zip', [self.iter_t(I, t) for t in ts])

  def transposed(self, t):
    """The columns of a list of tuples of the same length."""
    if t.op == 'list' and len(t.a) == 1 and t.a[0].op == 'spread':
      t = t.a[0].a[0]
    rows = t.a if t.op == 'list' else t.a[2].a if t.op == 'fmap' and \
        t.a[2].op == 'list' else ()
    if not rows or any(x.op != 'tuple' or len(x.a) != len(rows[0].a) or any(
        y.op == 'spread' for y in x.a) for x in rows):
      return None
    cols = []
    for i in range(len(rows[0].a)):
      b = lst(*[x.a[i] for x in rows])
      if t.op == 'fmap':
        v = fresh('z', 'int')
        n, g, c = t.a[0], *tm.open_(t.d, v, t.a[1], b)
        b = fmap(n, v, g, c)
      cols.append(b)
    return tup(*cols)

  def f_enumerate(self, I, args, kw, st, fr):
    t = self.iter_t(I, I.rd(st, args[0]))
    s = I.rd(st, args[1]) if len(args) > 1 else I.rd(
        st, kw.get('start', ZERO))
    return raw('enumerate', (t, s))

  def f_itertools_product(self, I, args, kw, st, fr):
    if kw:
      return NotImplemented
    ts = [I.rd(st, a) for a in args]
    if any(t.op == 'spread' for t in ts):
      return NotImplemented
    return raw('product', [self.iter_t(I, t) for t in ts])

  def f_itertools_chain(self, I, args, kw, st, fr):
    return I.new(st, lst(*[raw('spread', (I.as_list(I.rd(st, a)),))
                           for a in args]))

  def f_itertools_chain_from_iterable(self, I, args, kw, st, fr):
    t = I.rd(st, args[0])
    out = []
    for q in I.segments(t):
      if q[0] == 'elem':
        out.append(tm.gseg(q[1], I.as_list(q[2])))
      else:
        b, g = I.as_list(q[3]), q[2]
        for n, v in reversed(q[1]):
          b = fmap(n, v, g, b)
          g = TRUE
        out.append(raw('spread', (b,)))
    return I.new(st, lst(*out))

  def mapper(self, I, f, its, st, fr):
    src = its[0] if len(its) == 1 else raw('zip', its)
    out = []
    for q in I.segments(src):
      x = q[2] if q[0] == 'elem' else q[3]
      s2 = ip.St(dict(st.env), st.heap, st.pc, TRUE)
      mark = I.rec.mark()
      if q[0] == 'elem':
        s2.pc = and_(st.pc, q[1])
      else:
        s2.pc = q[2]
      xs = [I.wrap(s2, x)] if len(its) == 1 else [
          I.wrap(s2, getitem(x, num(i))) for i in range(len(its))]
      y = I.rd(s2, I.call_value(f, xs, {}, s2, fr))
      if q[0] == 'elem':
        out.append((TRUE, q[1], x, y, None))
      else:
        I.lift_events(mark, q[1], st.pc)
        out.append((FALSE, q[2], x, y, q[1]))
    return out

  def f_map(self, I, args, kw, st, fr):
    f = I.rd(st, args[0])
    its = [self.iter_t(I, I.rd(st, a)) for a in args[1:]]
    out = []
    for el, g, x, y, lv in self.mapper(I, f, its, st, fr):
      b = raw('list', (y,))
      if el is TRUE:
        out.append(tm.gseg(g, b))
      else:
        for n, v in reversed(lv):
          b = fmap(n, v, g, b)
          g = TRUE
        out.append(raw('spread', (b,)))
    return I.new(st, lst(*out))

  def f_filter(self, I, args, kw, st, fr):
    f = I.rd(st, args[0])
    it = self.iter_t(I, I.rd(st, args[1]))
    out = []
    if f is NONE:
      f = raw('lib', (), 'bool')
    for el, g, x, y, lv in self.mapper(I, f, [it], st, fr):
      b = raw('list', (x,))
      c = and_(g, truth(y))
      if el is TRUE:
        out.append(tm.gseg(c, b))
      else:
        for n, v in reversed(lv):
          b = fmap(n, v, c, b)
          c = TRUE
        out.append(raw('spread', (b,)))
    return I.new(st, lst(*out))

  def f_sorted(self, I, args, kw, st, fr):
    a, k = self.terms(I, [args[0]], kw, st)
    k = {n: v for n, v in k.items() if not (n == 'reverse' and v is FALSE)
         and not (n == 'key' and v is NONE)}
    x = self.iter_t(I, I.rd(st, args[0]))
    ks = tuple(sorted(k))
    t = raw('sorted', [x] + [k[n] for n in ks], ks)
    _set_kind(t, 'list')
    return I.new(st, t)

  def f_reversed(self, I, args, kw, st, fr):
    t = self.iter_t(I, I.rd(st, args[0]))
    e = tm.elements(t)
    if e is not None and all(g is TRUE for g, _ in e):
      return I.new(st, lst(*[x for _, x in reversed(e)]))
    r = raw('reversed', (t,))
    _set_kind(r, 'list')
    return I.new(st, r)

  def f_iter(self, I, args, kw, st, fr):
    return args[0]

  def f_next(self, I, args, kw, st, fr):
    t = self.iter_t(I, I.rd(st, args[0]))
    if len(args) == 1:
      e = tm.elements(t)
      if e and all(g is TRUE for g, _ in e):
        return I.wrap(st, e[0][1])
      return I.wrap(st, getitem(t, ZERO))
    d = I.rd(st, args[1])
    e = tm.elements(t)
    if e is not None:
      r = d
      for g, x in reversed(e):
        r = ite(g, x, r)
      return I.wrap(st, r)
    if t.op == 'fmap':
      return I.wrap(st, ite(nonempty(t), raw('getitem', (t, ZERO)), d))
    return I.wrap(st, ite(nonempty(t), getitem(t, ZERO), d))

  def f_isinstance(self, I, args, kw, st, fr):
    x, c = I.rd(st, args[0]), I.rd(st, args[1])
    cs = [y for _, y in (tm.elements(c) or [(TRUE, c)])] if c.op in (
        'tuple', 'list') else [c]
    out = []
    for y in cs:
      n = FUNS[y.d].name if y.op == 'cls' else y.d if y.op == 'lib' else '?'
      k = kind(x)
      opt = tm.is_opt(x) if k is not None else True
      known = {'int': ('int', 'np.integer'), 'str': ('str',),
               'float': ('float', 'np.floating'), 'bool': ('bool',),
               'list': ('list',), 'dict': ('dict',), 'tuple': ('tuple',),
               'set': ('set',), 'frame': ('pd.DataFrame',),
               'series': ('pd.Series',)}
      if k in ('str', 'list', 'dict', 'frame', 'tuple', 'set') and not opt \
          and n in [z for v in known.values() for z in v]:
        out.append(bconst(n in known[k]))
      elif k and k.startswith('obj:') and y.op == 'cls' and not opt:
        out.append(bconst(k[4:] == n))
      elif x.op == 'num' and n in ('str', 'list', 'dict'):
        out.append(FALSE)
      else:
        out.append(raw('isinstance', (x,), n))
    return or_(*out)

  def f_getattr(self, I, args, kw, st, fr):
    n = I.rd(st, args[1])
    if n.op == 'str':
      return I.get_attr(args[0], n.d, st, fr)
    o = I.rd(st, args[0])
    if n.op == 'ite' or n.op == 'getitem':
      pass
    return I.wrap(st, raw('getattr', (o, n)))

  def f_hasattr(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    return call_t('hasattr', a)

  def f_setattr(self, I, args, kw, st, fr):
    n = I.rd(st, args[1])
    if n.op == 'str':
      I.set_attr(args[0], n.d, args[2], st, fr)
      return NONE
    o = args[0]
    I.write(st, o, raw('setattrx', (I.rd(st, o), n, I.rd(st, args[2]))),
            'setattr', 'bind')
    return NONE

  f_object___setattr__ = f_setattr

  def f_type(self, I, args, kw, st, fr):
    t = I.rd(st, args[0])
    cn = tm._cls_of(t)
    c = I.p.classes.get((I.side, cn)) or I.p.classes.get(('impl', cn)) \
        if cn else None
    if c is not None:
      return raw('cls', (), ip._reg(c))
    return call_t('type', [t])

  def f_vars(self, I, args, kw, st, fr):
    return call_t('vars', [I.rd(st, x) for x in args])

  def f_open(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    k = {n: v for n, v in k.items() if n not in ('encoding',)}
    if 'mode' in k:
      a = a[:1] + [k.pop('mode')]
    if len(a) == 2 and a[1].op == 'str' and a[1].d in ('r', 'rt'):
      a = a[:1]
    return call_t('open', a, k)

  def f_divmod(self, I, args, kw, st, fr):
    a, b = [I.rd(st, x) for x in args]
    return tup(floordiv(a, b), mod(a, b))

  def f_slice(self, I, args, kw, st, fr):
    a = [I.rd(st, x) for x in args]
    if len(a) == 1:
      a = [NONE, a[0], NONE]
    while len(a) < 3:
      a.append(NONE)
    return raw('slice', a)

  # reductions -------------------------------------------------------------
  def reduce(self, I, name, t, a, k, st, np_=True):
    """Full reduction of t (no axis), or a generic call."""
    t = self.iter_t(I, t)
    kk = kind(t)
    if kk == 'frame' or a or k:
      return call_t('.' + name, [t] + list(a), k)
    t = strip_content(t)
    if name == 'any':
      return any_(t)
    if name == 'all':
      return all_(t)
    if name == 'sum':
      return total(t)
    if name == 'mean':
      return div(total(t), length(t))
    if name in ('min', 'max'):
      e = tm.elements(t)
      if e and all(g is TRUE for g, _ in e) and len(e) <= 6:
        r = e[0][1]
        for _, x in e[1:]:
          r = max2(r, x) if name == 'max' else min2(r, x)
        return r
      return call_t(name, [t])
    if name in ('argmin', 'argmax', 'median', 'prod', 'cumsum', 'cumprod',
                'ptp'):
      return call_t(('np.' if name.startswith('arg') or name.startswith('cum')
                     else '') + name, [t])
    return call_t('.' + name, [t])

  def _red(name):     # noqa: N805
    def f(self, I, args, kw, st, fr):
      a, k = self.terms(I, args, kw, st)
      a, k = self.normalise(SIGS.get('np.' + name), a, k)
      if len(a) != 1:
        if 'a' in k:
          a = [k.pop('a')] + a
        else:
          return NotImplemented
      return I.wrap(st, self.reduce(I, name, a[0], a[1:], k, st))
    return f
  f_np_sum = _red('sum')
  f_np_mean = _red('mean')
  f_np_min = _red('min')
  f_np_max = _red('max')
  f_np_any = _red('any')
  f_np_all = _red('all')
  f_np_argmin = _red('argmin')
  f_np_argmax = _red('argmax')
  f_np_median = _red('median')
  f_np_prod = _red('prod')
  f_np_cumsum = _red('cumsum')
  del _red

  def f_np_average(self, I, args, kw, st, fr):
    if len(args) == 1 and not kw:
      return self.f_np_mean(I, args, kw, st, fr)
    return NotImplemented

  def f_np_nanmean(self, I, args, kw, st, fr):
    return NotImplemented

  def f_any(self, I, args, kw, st, fr):
    return any_(self.iter_t(I, I.rd(st, args[0])))

  def f_all(self, I, args, kw, st, fr):
    return all_(self.iter_t(I, I.rd(st, args[0])))

  def f_sum(self, I, args, kw, st, fr):
    t = self.iter_t(I, I.rd(st, args[0]))
    r = total(t)
    start = args[1] if len(args) > 1 else kw.get('start')
    return add(I.rd(st, start), r) if start is not None else r

  def _minmax(self, name, I, args, kw, st):
    a, k = self.terms(I, args, kw, st)
    if len(a) == 1:
      t = self.iter_t(I, I.rd(st, args[0]))
      if k:
        return call_t(name, [t], k)
      return self.reduce(I, name, t, [], {}, st)
    if k or any(x.op == 'spread' for x in a):
      return call_t(name, [lst(*a)], k)
    r = a[0]
    for x in a[1:]:
      r = max2(r, x) if name == 'max' else min2(r, x)
    return r

  def f_max(self, I, args, kw, st, fr):
    return I.wrap(st, self._minmax('max', I, args, kw, st))

  def f_min(self, I, args, kw, st, fr):
    return I.wrap(st, self._minmax('min', I, args, kw, st))

  def f_max2(self, I, args, kw, st, fr):
    a = [I.rd(st, x) for x in args]
    return I.wrap(st, max2(*a)) if len(a) == 2 and not kw else NotImplemented

  def f_min2(self, I, args, kw, st, fr):
    a = [I.rd(st, x) for x in args]
    return I.wrap(st, min2(*a)) if len(a) == 2 and not kw else NotImplemented

  def _stdvar(self, I, x, a, k, ddof0, which, st):
    ddof = k.pop('ddof', None)
    if ddof is None:
      ddof = num(ddof0)
    if a or k or kind(x) == 'frame':
      t = call_t('var_', [x, ddof] + list(a), k)
    else:
      t = call_t('var', [x, ddof])
    return t if which == 'var' else sqrt(t)

  def _np_sv(self, I, args, kw, st, which):
    a, k = self.terms(I, args, kw, st)
    a, k = self.normalise(SIGS['np.' + which], a, k)
    d0 = 1 if kind(a[0]) == 'series' and False else 0
    return I.wrap(st, self._stdvar(I, a[0], a[1:], k, d0, which, st))

  def f_np_std(self, I, args, kw, st, fr):
    return self._np_sv(I, args, kw, st, 'std')

  def f_np_var(self, I, args, kw, st, fr):
    return self._np_sv(I, args, kw, st, 'var')

  # elementwise ------------------------------------------------------------
  def ufunc(self, t, f):
    """f of every element; t may be a list."""
    if t.op in ('list', 'tuple', 'fmap', 'tolist') or kind(t) in (
        'list', 'tuple'):
      t = self.nparray(t)
    if t.op == 'call' and t.d[0] == 'np.array' and len(t.a) == 1:
      x = t.a[0]
      if x.op == 'fmap' and x.a[2].op == 'list' and len(x.a[2].a) == 1 and \
          x.a[2].a[0].op not in ('gseg', 'spread'):
        v = tm.fresh('u', 'int')
        g, b = tm.open_(x.d, v, x.a[1], x.a[2].a[0])
        return call_t('np.array', [tm.fmap(x.a[0], v, g, tm.lst(f(b)))])
    return f(t)

  def f_np_sqrt(self, I, args, kw, st, fr):
    return I.wrap(st, self.ufunc(I.rd(st, args[0]), sqrt))

  def f_np_square(self, I, args, kw, st, fr):
    return I.wrap(st, self.ufunc(I.rd(st, args[0]), lambda x: mul(x, x)))

  def f_np_abs(self, I, args, kw, st, fr):
    return I.wrap(st, self.ufunc(I.rd(st, args[0]), absval))

  def f_np_floor(self, I, args, kw, st, fr):
    return I.wrap(st, self.ufunc(I.rd(st, args[0]), floor))

  def f_np_ceil(self, I, args, kw, st, fr):
    return I.wrap(st, self.ufunc(I.rd(st, args[0]),
                                 lambda x: neg(floor(neg(x)))))

  f_math_trunc = f_np_floor
  f_np_trunc = f_np_floor

  def _fn(name):   # noqa: N805
    def f(self, I, args, kw, st, fr):
      a, k = self.terms(I, args, kw, st)
      return I.wrap(st, call_t(name, a, k))
    return f
  f_np_exp = _fn('exp')
  f_np_log = _fn('log')
  f_round = _fn('round')
  del _fn

  def f_np_log1p(self, I, args, kw, st, fr):
    return I.wrap(st, call_t('log', [add(ONE, I.rd(st, args[0]))]))

  def f_np_expm1(self, I, args, kw, st, fr):
    return I.wrap(st, sub(call_t('exp', [I.rd(st, args[0])]), ONE))

  def f_np_where(self, I, args, kw, st, fr):
    if len(args) != 3:
      return NotImplemented
    c, a, b = [I.rd(st, x) for x in args]
    return I.wrap(st, where(c, a, b) if not tm.scalar_bool(c) else
                  ite(c, a, b))

  def f_np_clip(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    x = a[0]
    lo = a[1] if len(a) > 1 else k.get('a_min', k.get('min', NONE))
    hi = a[2] if len(a) > 2 else k.get('a_max', k.get('max', NONE))
    return I.wrap(st, self.clip(x, lo, hi))

  def clip(self, x, lo, hi):
    if lo is not NONE:
      x = max2(x, lo)
    if hi is not NONE:
      x = min2(x, hi)
    return x

  def f_isnan(self, I, args, kw, st, fr):
    return I.wrap(st, self.isnan(I.rd(st, args[0])))

  def isnan(self, x):
    if x is tm.NAN or x is NONE:
      return TRUE
    if tm.is_const(x) and x.op in ('num', 'str', 'inf'):
      return FALSE
    return raw('isnan', (x,))

  def f_pd_notna(self, I, args, kw, st, fr):
    return not_(self.isnan(I.rd(st, args[0])))

  f_pd_notnull = f_pd_notna

  def f_np_isfinite(self, I, args, kw, st, fr):
    x = I.rd(st, args[0])
    if x.op == 'num':
      return TRUE
    if x.op == 'neg' or x is tm.INF or x is tm.NAN or x is neg(tm.INF):
      return FALSE
    return I.wrap(st, raw('isfinite', (x,)))

  def f_np_isinf(self, I, args, kw, st, fr):
    x = I.rd(st, args[0])
    return I.wrap(st, or_(eq(x, tm.INF), eq(x, neg(tm.INF))))

  def f_np_asarray(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    t = a[0]
    extra = {n: v for n, v in k.items() if not (n == 'dtype' and v.op == 'lib'
                                                and v.d in ('float',
                                                            'np.float64'))}
    if extra or len(a) > 1:
      a, k = self.normalise(SIGS.get('np.asarray'), a, k)
      return I.wrap(st, call_t('np.asarray', a, k), I.org(args[0]))
    if t.op in ('list', 'tuple', 'fmap', 'range', 'set', 'tolist',
                'isum') or kind(t) in ('list', 'tuple'):
      return I.new(st, self.nparray(t))
    if 'dtype' in k:
      return I.new(st, t, I.org(args[0]))
    return args[0]

  def nparray(self, t):
    if t.op == 'tuple':
      t = raw('list', t.a)
    if t.op == 'call' and t.d[0] == 'np.array':
      return t
    if t.op == 'tolist':
      return t.a[0]
    if kind(t) in ('series', 'array', 'matrix', 'frame', 'index'):
      return t
    b = t
    while b.op in ('getitem', 'rows'):
      b = b.a[0]
      if b.op == 'call' and b.d[0] in CONTENT or kind(b) in (
          'series', 'array', 'index'):
        if t.op == 'rows' or kind(t.a[1]) not in ('int', 'str'):
          return t
    return call_t('np.array', [t])

  def f_np_array(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    a, k = self.normalise(SIGS.get('np.array'), a, k)
    if k.get('dtype') is not None and k['dtype'].op == 'lib' and \
        k['dtype'].d in ('float', 'np.float64'):
      k.pop('dtype')
    if k or len(a) != 1:
      return NotImplemented
    return I.new(st, self.nparray(a[0]))

  def f_np_copy(self, I, args, kw, st, fr):
    return I.new(st, self.nparray(I.rd(st, args[0])))

  def f_copy_copy(self, I, args, kw, st, fr):
    return I.new(st, I.rd(st, args[0]))

  def f_copy_deepcopy(self, I, args, kw, st, fr):
    return I.new(st, I.rd(st, args[0]))

  def f_np_unique(self, I, args, kw, st, fr):
    if len(args) != 1 or kw:
      return NotImplemented
    return I.wrap(st, call_t('np.sort', [self.unique(I.rd(st, args[0]))]))

  def unique(self, t):
    if t.op == 'call' and t.d[0] == 'unique':
      return t
    return call_t('unique', [strip_content(t)])

  def f_pd_unique(self, I, args, kw, st, fr):
    return I.wrap(st, self.unique(I.rd(st, args[0])))

  def f_np_isin(self, I, args, kw, st, fr):
    if kw or len(args) != 2:
      return NotImplemented
    return I.wrap(st, in_(*[self.iter_t(I, I.rd(st, x)) for x in args]))

  def f_pd_DataFrame(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    a, k = self.normalise(SIGS.get('pd.DataFrame'), a, k)
    if 'data' in k:
      a = [k.pop('data')] + a
    if len(a) == 1 and not k and kind(a[0]) == 'frame':
      return I.new(st, a[0], I.org(args[0]) if args else None)
    return I.new(st, call_t('pd.DataFrame', a, k))

  def f_pd_merge(self, I, args, kw, st, fr):
    return self.method(I, args[0], 'merge', args[1:], kw, st, fr, None)

  def f_pd_pivot_table(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    a, k = self.normalise(SIGS['pd.pivot_table'], a, k)
    if 'aggfunc' in k:
      k['aggfunc'] = self.aggname(k['aggfunc'])
    return I.wrap(st, call_t('pd.pivot_table', a, k))

  def aggname(self, t):
    if t.op == 'lib':
      n = ALIASES.get(t.d, t.d).split('.')[-1]
      if n in ('sum', 'mean', 'min', 'max', 'median', 'std', 'var', 'len'):
        return string(n)
    return t

  # dates ------------------------------------------------------------------
  def f_dt_timedelta(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    per = {'days': 1, 'seconds': F(1, 86400), 'microseconds': F(
        1, 86400000000), 'milliseconds': F(1, 86400000), 'minutes': F(1, 1440),
           'hours': F(1, 24), 'weeks': 7}
    for n, v in zip(per, a):
      k[n] = v
    if '**' in k:
      return NotImplemented
    r = ZERO
    for n, v in k.items():
      if n not in per:
        return NotImplemented
      r = add(r, mul(num(per[n]), v))
    return mul(r, DAY)

  def f_pd_Timedelta(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    u = None
    if len(a) == 2:
      u = a[1]
    u = k.pop('unit', u)
    val = a[0] if a else k.pop('value', None)
    if val is None and k:
      return self.f_dt_timedelta(I, [], k, st, fr)
    if u is not None and u.op == 'str' and not k:
      f = {'d': 1, 'D': 1, 'W': 7, 'h': F(1, 24), 'days': 1, 'day': 1,
           'weeks': 7, 's': F(1, 86400)}.get(u.d)
      if f:
        return I.wrap(st, mul(num(f), val, DAY))
    if val is not None and val.op == 'str' and u is None:
      m = re.match(r'^(\d+)\s*(d|days?|D|W|weeks?)$', val.d)
      if m:
        return mul(num(int(m.group(1)) * (7 if m.group(2)[0] in 'Ww' else 1)),
                   DAY)
    return NotImplemented

  f_pd_to_timedelta = f_pd_Timedelta
  f_np_timedelta64 = f_pd_Timedelta

  def f_pd_Timestamp(self, I, args, kw, st, fr):
    if len(args) == 1 and not kw:
      t = I.rd(st, args[0])
      if kind(t) == 'date':
        return t
      return call_t('pd.to_datetime', [t])
    return NotImplemented

  def f_pd_to_datetime(self, I, args, kw, st, fr):
    if len(args) == 1 and not kw:
      t = I.rd(st, args[0])
      if kind(t) == 'date' or t.op == 'call' and t.d[0] == 'pd.to_datetime':
        return args[0]
    return NotImplemented

  # functools, dataclasses ---------------------------------------------------
  def f_functools_wraps(self, I, args, kw, st, fr):
    return raw('deco', (I.rd(st, args[0]),), 'wraps')

  def f_functools_lru_cache(self, I, args, kw, st, fr):
    if args:
      f = I.rd(st, args[0])
      if f.op == 'fun':
        return f
    return raw('deco', (), 'lru_cache')

  f_functools_cache = f_functools_lru_cache

  def f_functools_partial(self, I, args, kw, st, fr):
    ts = [I.rd(st, a) for a in args]
    ks = tuple(sorted(kw))
    return raw('partial', ts + [I.rd(st, kw[k]) for k in ks], ks)

  def f_functools_reduce(self, I, args, kw, st, fr):
    f = I.rd(st, args[0])
    t = self.iter_t(I, I.rd(st, args[1]))
    segs = I.segments(t)
    if all(s[0] == 'elem' and s[1] is TRUE for s in segs):
      xs = [s[2] for s in segs]
      acc = I.rd(st, args[2]) if len(args) > 2 else None
      for x in xs:
        acc = x if acc is None else I.rd(st, I.call_value(
            f, [I.wrap(st, acc), I.wrap(st, x)], {}, st, fr))
      if acc is not None:
        return I.wrap(st, acc)
    return NotImplemented

  def f_dataclasses_dataclass(self, I, args, kw, st, fr):
    if args:
      return args[0]
    return raw('deco', (), 'dataclass')

  def f_dataclasses_field(self, I, args, kw, st, fr):
    return I.rd(st, kw.get('default', NONE))

  def fields_of(self, I, o):
    cn = tm._cls_of(o) if o.op != 'cls' else FUNS[o.d].name
    c = I.p.classes.get((I.side, cn)) or I.p.classes.get(('impl', cn)) \
        if cn else None
    return c

  def f_dataclasses_asdict(self, I, args, kw, st, fr):
    o = I.rd(st, args[0])
    c = self.fields_of(I, o)
    if c is None or not c.dataclass or kw:
      return NotImplemented
    d = raw('dict')
    for f in c.fields:
      d = dset(d, string(f[0]), attr(o, f[0]))
    return I.new(st, d)

  def f_dataclasses_fields(self, I, args, kw, st, fr):
    o = I.rd(st, args[0])
    c = self.fields_of(I, o)
    if c is None:
      return NotImplemented
    return tup(*[tm.obj('Field', {'name': string(f[0]), 'init': bconst(f[3])})
                 for f in c.fields])

  def f_dataclasses_replace(self, I, args, kw, st, fr):
    o = I.rd(st, args[0])
    if '**' in kw:
      return NotImplemented
    ks = tuple(sorted(kw))
    c = self.fields_of(I, o)
    t = raw('replace', [o] + [I.rd(st, kw[k]) for k in ks], ks)
    if c is not None:
      _set_kind(t, 'obj:' + c.name)
    return I.new(st, t)

  # misc ---------------------------------------------------------------------
  def f_tqdm_tqdm(self, I, args, kw, st, fr):
    return args[0] if args else kw.get('iterable', NotImplemented)

  f_tqdm = f_tqdm_tqdm

  def f_tqdm_trange(self, I, args, kw, st, fr):
    return self.f_range(I, args, {}, st, fr)

  def f_yaml_dump_(self, I, args, kw, st, fr):
    return self.f_yaml_dump(I, args, kw, st, fr, 'yaml.safe_dump')

  def f_yaml_dump(self, I, args, kw, st, fr, name='yaml.dump'):
    a, k = self.terms(I, args, kw, st)
    k = {n: v for n, v in k.items() if n not in (
        'sort_keys', 'default_flow_style', 'indent', 'allow_unicode')}
    if 'data' in k:
      a = [k.pop('data')] + a
    if 'stream' in k:
      a = a + [k.pop('stream')]
    if len(a) == 1:
      return call_t('yaml.dump', a, k)
    t = raw('eff', a + [k[n] for n in sorted(k)],
            ('yaml.dump', tuple(sorted(k))))
    I.rec.effects.append((st.pc, t, I.where()))
    return NONE

  def f_yaml_load(self, I, args, kw, st, fr):
    if len(args) == 1 and kw.get('Loader') is not None and 'Safe' in str(
        I.rd(st, kw['Loader']).d):
      return I.wrap(st, call_t('yaml.safe_load', [I.rd(st, args[0])]))
    return NotImplemented

  def f_hashlib_new(self, I, args, kw, st, fr):
    n = I.rd(st, args[0])
    if n.op == 'str':
      return I.new(st, call_t('hashlib.' + n.d, [I.rd(st, a)
                                                 for a in args[1:]]))
    return NotImplemented

  def f_hashlib_md5(self, I, args, kw, st, fr):
    return I.new(st, call_t('hashlib.md5', [I.rd(st, a) for a in args]))

  def f_int_from_bytes(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    o = a[1] if len(a) > 1 else k.get('byteorder', string('big'))
    x = a[0]
    if x.op == 'call' and x.d[0] == '.digest' and o.op == 'str' and \
        o.d == 'big':
      t = call_t('int', [call_t('.hexdigest', x.a), num(16)])
      _set_kind(t, 'int')
      return t
    t = call_t('int.from_bytes', [x, o])
    _set_kind(t, 'int')
    return t

  def f_np_append(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    return I.wrap(st, call_t('np.append', a, k))

  def f_np_stack(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    a, k = self.normalise(SIGS['np.stack'], a, k)
    if not k and len(a) == 1 and a[0].op in ('list', 'tuple'):
      return I.wrap(st, call_t('np.vstack_', [raw('list', a[0].a)]))
    return I.wrap(st, call_t('np.stack', a, k))

  def f_np_vstack(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    if not k and len(a) == 1 and a[0].op in ('list', 'tuple'):
      return I.wrap(st, call_t('np.vstack_', [raw('list', a[0].a)]))
    return NotImplemented

  def f_np_random_default_rng(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    a, k = self.normalise(SIGS.get('np.random.default_rng'), a, k)
    return I.new(st, call_t('np.random.default_rng', a, k))

  def f_np_copyto(self, I, args, kw, st, fr):
    I.write(st, args[0], I.rd(st, args[1]), 'np.copyto')
    return NONE

  def f_np_put(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    I.write(st, args[0], call_t('np.put', a, k), 'np.put')
    return NONE

  f_np_place = f_np_put
  f_np_putmask = f_np_put
  f_np_fill_diagonal = f_np_put

  def f_np_nan_to_num(self, I, args, kw, st, fr):
    return NotImplemented

  # ------------------------------------------------------------ attributes
  def attribute(self, I, o, t, name, st, fr):
    k = kind(t)
    if name in ('loc', 'iloc', 'at', 'iat'):
      which = {'at': 'loc', 'iat': 'iloc'}.get(name, name)
      r = I.new(st, raw('indexer', (t,), which))
      I._indexer_base[r.loc] = o
      return r
    if t.op == 'acc':
      return self.acc_attr(I, t, name, st)
    if k in ('frame', 'series', 'array', 'matrix', 'index', 'groupby', None,
             'num', 'int', 'bool'):
      if name == 'columns' and k in ('frame', None):
        return raw('columns', (t,))
      if name in ('values', 'array') and k != 'groupby':
        if t.op in ('call',) and t.d[0] in CONTENT:
          return o
        if k in ('series', 'array', 'index', 'num', 'int', 'bool') or \
            t.op == 'columns':
          v = I.wrap(st, t, I._view_org(o))
          I.link(v, o, lambda b: b, lambda b, y: y)
          return v
        v = I.wrap(st, values_of(t), I._view_org(o))
        return v
      if name == 'index' and k != 'groupby':
        return I.wrap(st, call_t('.index', [t]))
      if name == 'T':
        return I.wrap(st, call_t('.T', [t]), I._view_org(o))
      if name == 'shape':
        return raw('call', (t,), ('.shape', ()))
      if name == 'size' and k in ('series', 'index'):
        return length(t)
      if name == 'ndim':
        return length(raw('call', (t,), ('.shape', ())))
      if name in ('size', 'dtype', 'dtypes', 'is_unique', 'name',
                  'hasnans', 'is_monotonic_increasing', 'names', 'levels'):
        return call_t('.' + name, [t])
      if name == 'empty' and k in ('frame', 'series', 'index'):
        return eq0(length(t))
      if name in ('str', 'dt', 'cat'):
        return raw('acc', (t,), name)
      if name == 'days':
        return floor(div(t, DAY))
      if name == 'style' and k == 'frame':
        return I.wrap(st, call_t('.style', [t]))
    if k == 'frame' and name not in METHODS:
      return I.wrap(st, tm.col(t, string(name)), I._view_org(o))
    if k in KINDCLASS or k in ('list', 'dict', 'set', 'tuple'):
      cl = METHODS.get(name, {})
      if any(c in cl for c in KINDCLASS.get(k, ())) or k in (
          'list', 'dict', 'set', 'tuple'):
        return raw('bm', (t,), name)
    if t.op == 'call' and k is None and name in METHODS and name in (
        'append', 'format', 'join', 'startswith', 'endswith'):
      return raw('bm', (t,), name)
    if t.op == 'excval':
      return raw('unk', (), ('exc', name))
    return None

  def acc_attr(self, I, t, name, st):
    x = t.a[0]
    if t.d == 'dt' and name == 'days':
      return I.wrap(st, floor(div(x, DAY)))
    if name in ('len', 'lower', 'upper', 'strip', 'total_seconds', 'floor',
                'normalize', 'contains', 'startswith', 'strftime', 'replace',
                'split', 'endswith', 'cat', 'round', 'isocalendar', 'get'):
      return raw('bm', (t,), name)
    return I.wrap(st, call_t(f'.{t.d}.{name}', [x]))

  # ------------------------------------------------------------ loc
  def loc_get(self, df, which, k):
    if which == 'loc':
      if k.op == 'tuple' and len(k.a) == 2 and kind(df) in (
          'frame', None) and not any(x.op == 'spread' for x in k.a):
        r, c = k.a
        if self.full(r):
          return self.pick_cols(df, c)
        if kind(r) == 'bool':
          x = tm.rows(df, r)
          return self.pick_cols(x, c) if not self.full(c) else x
        if self.full(c):
          return locget(df, r)
        return locget(df, k)
      if kind(k) == 'bool':
        return tm.rows(df, k)
      if self.full(k):
        return df
      return locget(df, k)
    if k.op == 'tuple' and len(k.a) == 2:
      if self.full(k.a[1]):
        k = k.a[0]
    if k.op != 'tuple' and kind(df) in ('series', 'array'):
      return getitem(df, k) if k.op != 'slice' else raw('getitem', (df, k))
    if kind(k) == 'bool':
      return tm.rows(df, k)
    return raw('call', (df, k), ('.iloc', ()))

  @staticmethod
  def full(k):
    return k.op == 'slice' and all(x is NONE for x in k.a)

  def pick_cols(self, df, c):
    if kind(c) in ('list', 'index') or c.op == 'list':
      return tm.cols(df, c)
    if kind(c) == 'bool':
      return raw('call', (df, c), ('.boolcols', ()))
    if c.op == 'slice':
      return raw('call', (df, c), ('.slicecols', ()))
    return tm.col(df, c)

  def loc_set(self, df, which, k, val):
    """(new frame, column or None)."""
    if which == 'loc':
      if k.op == 'tuple' and len(k.a) == 2 and kind(df) in ('frame', None):
        r, c = k.a
        cs = None
        if kind(c) == 'list':
          e = tm.elements(c)
          if e is not None and all(g is TRUE for g, _ in e):
            cs = [x for _, x in e]
        elif c.op != 'slice' and kind(c) != 'bool':
          cs = [c]
        if cs is not None and (self.full(r) or kind(r) == 'bool'):
          out = df
          for i, x in enumerate(cs):
            v = val
            if val.op in ('cols',) or kind(val) == 'frame':
              v = tm.col(val, x)
            if self.full(r):
              out = setcol(out, x, v)
            else:
              if v.op == 'rows' and v.a[1] is r:
                v = v.a[0]
              out = setcol(out, x, where(r, v, tm.col(df, x)))
          return out, (cs[0] if len(cs) == 1 else None)
        if kind(r) == 'bool' or self.full(r):
          return raw('locset', (df, k, val)), None
      if kind(k) == 'bool' and kind(df) in ('series', 'array'):
        if val.op == 'rows' and val.a[1] is k:
          val = val.a[0]
        return where(k, val, df), None
      return locset(df, k, val), None
    return raw('call', (df, k, val), ('.ilocset', ())), None

  # ------------------------------------------------------------ methods
  def percent_format(self, a, b):
    return call_t('%', [a, b])

  def str_format(self, t, a, k):
    """template.format(...): template is a literal or a concatenation."""
    import string as _s
    holes = []
    if t.op == 'str':
      text = t.d
    elif t.op == 'concat':
      text = ''
      for x in t.a:
        if x.op == 'str':
          text += x.d
        else:
          text += chr(0xE000 + len(holes))
          holes.append(x)
    else:
      return None

    def back(s):
      out, cur = [], ''
      for c in s:
        i = ord(c) - 0xE000
        if 0 <= i < len(holes):
          if cur:
            out.append(string(cur))
          cur = ''
          out.append(holes[i])
        else:
          cur += c
      if cur:
        out.append(string(cur))
      return concat(*out)

    auto = [0]

    def field_value(field):
      import re
      m = re.fullmatch(r'(\w*)((?:\[\w+\]|\.\w+)*)', field)
      if not m:
        return None
      field = m.group(1)
      if field == '':
        x = a[auto[0]] if auto[0] < len(a) else None
        auto[0] += 1
      elif field.isdigit():
        x = a[int(field)] if int(field) < len(a) else None
      else:
        x = k.get(field)
      for part in re.findall(r'\[\w+\]|\.\w+', m.group(2)):
        if x is None:
          return None
        if part[0] == '.':
          return None
        key = part[1:-1]
        x = tm.getitem(x, num(int(key)) if key.isdigit() else string(key))
      return x

    def render(text, depth):
      out = []
      try:
        parts = list(_s.Formatter().parse(text))
      except ValueError:
        return None
      for lit, field, spec, conv in parts:
        if lit:
          out.append(back(lit))
        if field is None:
          continue
        x = field_value(field)
        if x is None or depth > 1:
          return None
        sp = render(spec or '', depth + 1) if spec else string('')
        if sp is None:
          return None
        out.append(fmt(x, sp, conv))
      return concat(*out)
    return render(text, 0)

  def method(self, I, o, name, args, kw, st, fr, e):
    t = I.rd(st, o)
    k = kind(t)
    if t.op == 'acc':
      return self.acc_method(I, t, name, args, kw, st)
    if t.op == 'ite' and k in ('list', 'dict', 'set') and name in MUTATORS:
      pass
    h = None
    if k in ('list', 'dict', 'set', 'str', 'tuple'):
      h = getattr(self, f'm_{k}_{name}', None)
    elif k == 'groupby' or t.op == 'call' and t.d[0] in ('.groupby',
                                                         '.groupby.getitem'):
      return self.groupby_method(I, o, t, name, args, kw, st, fr)
    elif k == 'rng' or (k is None and name in DRAWS and self.rngish(t)):
      if name == 'shuffle':
        a, kk = self.terms(I, args, kw, st)
        d = I.rd(st, self.draw(I, t, name, a, kk, st))
        I.write(st, args[0], call_t('shuffle', [a[0], d]), 'it is shuffled')
        return NONE
      a, kk = self.terms(I, args, kw, st)
      return self.draw(I, t, name, a, kk, st)
    elif t.op == 'call' and t.d[0].startswith('hashlib.'):
      if name == 'update':
        x = I.rd(st, args[0])
        I.write(st, o, call_t(t.d[0], [concat(*t.a, x) if t.a else x]),
                'update')
        return NONE
    if h is None and k is None:
      if name in ('append', 'extend', 'items', 'keys', 'setdefault',
                  'update') and (t.op in ('sym', 'attr', 'getitem', 'fresh',
                                          'bv', 'call') or True):
        kk = {'append': 'list', 'extend': 'list'}.get(name, 'dict')
        if not (name == 'append' and kw) and not (
            name in ('keys', 'items') and args):
          h = getattr(self, f'm_{kk}_{name}', None)
      elif name in ('format', 'join', 'lower', 'upper', 'startswith',
                    'endswith', 'split', 'strip', 'encode'):
        h = getattr(self, f'm_str_{name}', None)
    if h is None:
      h = getattr(self, 'm_' + name, None)
    if h is not None:
      r = h(I, o, t, args, kw, st, fr)
      if r is not NotImplemented:
        return r
    a, kk = self.terms(I, args, kw, st)
    if name in EFFECTS and k not in ('frame_', 'styler', 'dict', 'list',
                                     'str') and not (
        k in ('frame', 'series') and name not in ('plot', 'hist', 'boxplot')):
      return self.effect(I, t, name, a, kk, st)
    if name in METHOD_BINOPS and len(a) == 1 and not kk and k not in (
        'set', 'list', 'dict'):
      op = METHOD_BINOPS[name]
      if op in BINOPS:
        return I.wrap(st, I.binop(BINOPS[op], t, a[0], st))
      return I.compare(CMPOPS[op], t, a[0])
    if name in METHOD_RBINOPS and len(a) == 1 and not kk:
      return I.wrap(st, I.binop(BINOPS[METHOD_RBINOPS[name]], a[0], t, st))
    # a call of a function held in an attribute
    inplace = kk.pop('inplace', FALSE)
    p, kk2 = self.normalise(self.msig(name, k), a, kk)
    if k in ('axes', 'figure', 'styler') or name.startswith('set_') or name \
        in ('tick_params', 'grid', 'suptitle'):
      kk2 = {n: v for n, v in kk2.items() if n not in COSMETIC}
    if any(n in kk2 and kk2[n].op in ('sym', 'attr') and self.rngish(kk2[n])
           for n in ('random_state',)):
      I.draw_sites.append((st.pc, raw('draw', (kk2['random_state'], t),
                                      (name, (), 0)), I.where()))
    elif name == 'sample' and k in ('frame', 'series', 'groupby', None):
      I.draw_sites.append((st.pc, raw('draw', (
          kk2.get('random_state', raw('lib', (), 'np.random')), t),
                                      (name, (), 0)), I.where()))
    r = call_t('.' + name, [t] + p, kk2)
    if inplace is TRUE:
      I.write(st, o, r, f'.{name}(inplace=True)', 'meta' if name in (
          'rename', 'set_index', 'reset_index', 'drop', 'sort_values',
          'sort_index', 'rename_axis', 'drop_duplicates', 'dropna')
              else 'deep')
      _set_kind(r, k)
      return NONE
    if name in MUTATORS and k not in ('frame', 'series', 'index', 'groupby',
                                      'styler', 'axes'):
      I.write(st, o, call_t('mut.' + name, [t] + p, kk2),
              f'.{name}() modifies it')
    og = None
    if name in ('reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes',
                'to_numpy', 'diagonal'):
      og = I._view_org(o)
    return I.wrap(st, r, og)

  @staticmethod
  def rngish(t):
    if kind(t) == 'rng':
      return True
    if t.op == 'sym' and ('rng' in str(t.d[0]) or t.d[1] == 'rng'):
      return True
    if t.op == 'attr' and 'rng' in str(t.d):
      return True
    if t.op == 'lib' and t.d == 'np.random':
      return True
    return t.op == 'call' and t.d[0] == 'np.random.default_rng'

  def acc_method(self, I, t, name, args, kw, st):
    a, k = self.terms(I, args, kw, st)
    x = t.a[0]
    if t.d == 'dt' and name == 'total_seconds':
      return I.wrap(st, mul(num(86400), div(x, DAY)))
    return I.wrap(st, call_t(f'.{t.d}.{name}', [x] + a, k))

  # groupby ------------------------------------------------------------------
  def m_groupby(self, I, o, t, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    p, kk = self.normalise(SIGS['frame.groupby'], a, k)
    by = kk.pop('by', None)
    if by is None or p:
      return NotImplemented
    kk = {n: v for n, v in kk.items() if n not in ('observed',)}
    if by.op == 'tuple':
      by = raw('list', by.a)
    if by.op == 'list' and len(by.a) == 1 and by.a[0].op not in ('spread',
                                                                 'gseg'):
      by = by.a[0]
    ks = tuple(sorted(kk))
    r = raw('call', [t, by] + [kk[n] for n in ks], ('.groupby', ks))
    return I.wrap(st, r)

  def gb_parts(self, t):
    """(frame, keys, column or NONE, options)."""
    c = NONE
    if t.op in ('getitem', 'attr_') and t.a[0].op == 'call' and t.a[0].d[
        0] == '.groupby':
      c, t = t.a[1], t.a[0]
    elif t.op == 'call' and t.d[0] == '.groupby.getitem':
      c, t = t.a[1], t.a[0]
    if t.op != 'call' or t.d[0] != '.groupby':
      return None
    n = len(t.d[1])
    opts = dict(zip(t.d[1], t.a[2:]))
    return t.a[0], t.a[1], c, opts

  def groupby_method(self, I, o, t, name, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    gp = self.gb_parts(t)
    if gp is None:
      p, kk = self.normalise(self.msig(name, 'groupby'), a, k)
      return I.wrap(st, call_t('.groupby.' + name, [t] + p, kk))
    df, by, c, opts = gp
    p, kk = self.normalise(self.msig(name, 'groupby'), a, k)
    if name in ('agg', 'aggregate'):
      fn = None
      if 'func' in kk and len(kk) == 1 and not p:
        fn = kk['func']
      elif len(p) == 1 and not kk:
        fn = p[0]
      elif len(p) == 0 and kk and c is NONE:
        pass
      if fn is not None:
        fn = self.aggname(fn)
        if fn.op == 'str':
          return self.gb_result(I, df, by, c, opts, fn.d, st)
      name = 'agg'
    if name in ('sum', 'mean', 'min', 'max', 'median', 'count', 'nunique',
                'first', 'last', 'size', 'std', 'var', 'any', 'all',
                'prod') and not p and not (set(kk) - {'numeric_only'}):
      return self.gb_result(I, df, by, c, opts, name, st)
    ks = tuple(sorted(kk))
    r = raw('call', [df, by, c] + p + [kk[n] for n in ks] +
            [opts[n] for n in sorted(opts)],
            ('.groupby.' + name, ks + tuple(sorted(opts))))
    _set_kind(r, 'series' if c is not NONE and kind(c) != 'list' else
              'frame' if name in ('agg', 'transform') else None)
    return I.wrap(st, r)

  def gb_result(self, I, df, by, c, opts, fn, st):
    opts = dict(opts)
    asidx = opts.pop('as_index', TRUE)
    opts.pop('sort', None)
    opts.pop('group_keys', None)
    if opts:
      fn = fn + '|' + ','.join(f'{n}={show(v)}' for n, v in sorted(
          opts.items()))
    r = gagg(df, by, c, fn)
    if fn == 'size':
      _set_kind(r, 'series')
    if asidx is FALSE:
      r = call_t('.reset_index', [r])
      _set_kind(r, 'frame')
    return I.wrap(st, r)

  # list -----------------------------------------------------------------------
  def m_list_append(self, I, o, t, args, kw, st, fr):
    base = t if kind(t) == 'list' else t
    x = I.as_arg(args[0], st)
    I.write(st, o, lconcat(t if t.op in ('list', 'fmap', 'ite', 'tolist')
                           else raw('list', (raw('spread', (t,)),)),
                           raw('list', (x,))), '.append()')
    return NONE

  def m_list_extend(self, I, o, t, args, kw, st, fr):
    I.write(st, o, lconcat(t if t.op in ('list', 'fmap', 'ite', 'tolist')
                           else raw('list', (raw('spread', (t,)),)),
                           I.as_list(I.rd(st, args[0]))), '.extend()')
    return NONE

  def m_list_insert(self, I, o, t, args, kw, st, fr):
    i, x = I.rd(st, args[0]), I.as_arg(args[1], st)
    if i is ZERO:
      r = lconcat(raw('list', (x,)), t)
    elif t.op == 'list' and i.op == 'num' and all(
        s.op not in ('spread', 'gseg') for s in t.a):
      l = list(t.a)
      l.insert(int(i.d), x)
      r = raw('list', l)
    else:
      r = call_t('mut.insert', [t, i, x])
      _set_kind(r, 'list')
    I.write(st, o, r, '.insert()')
    return NONE

  def m_list_pop(self, I, o, t, args, kw, st, fr):
    i = I.rd(st, args[0]) if args else num(-1)
    x = getitem(t, i)
    if t.op == 'list' and i.op == 'num' and all(
        s.op not in ('spread', 'gseg') for s in t.a) and t.a:
      l = list(t.a)
      l.pop(int(i.d))
      r = raw('list', l)
    else:
      r = call_t('mut.pop', [t, i])
      _set_kind(r, 'list')
    I.write(st, o, r, '.pop()')
    return I.wrap(st, x)

  def m_list_remove(self, I, o, t, args, kw, st, fr):
    x = I.rd(st, args[0])
    e = tm.elements(t)
    if e is not None and all(g is TRUE for g, _ in e) and any(
        y is x for _, y in e):
      l = [y for _, y in e]
      l.remove(x)
      r = raw('list', l)
    else:
      r = call_t('mut.remove', [t, x])
      _set_kind(r, 'list')
    I.write(st, o, r, '.remove()')
    return NONE

  def m_list_sort(self, I, o, t, args, kw, st, fr):
    r = I.rd(st, self.f_sorted(I, [o], kw, st, fr))
    I.write(st, o, r, '.sort()')
    return NONE

  def m_list_copy(self, I, o, t, args, kw, st, fr):
    return I.new(st, t)

  m_dict_copy = m_list_copy
  m_set_copy = m_list_copy

  def m_list_clear(self, I, o, t, args, kw, st, fr):
    I.write(st, o, raw(kind(t)), '.clear()')
    return NONE

  m_dict_clear = m_list_clear
  m_set_clear = m_list_clear

  def m_list_index(self, I, o, t, args, kw, st, fr):
    x = I.rd(st, args[0])
    e = tm.elements(t)
    if e is not None and len(args) == 1 and all(g is TRUE for g, _ in e):
      for i, (g, y) in enumerate(e):
        if y is x:
          return num(i)
    r = call_t('.index_of', [t] + [I.rd(st, a) for a in args])
    return r

  m_tuple_index = m_list_index

  def m_list_count(self, I, o, t, args, kw, st, fr):
    return call_t('.count_of', [t, I.rd(st, args[0])])

  # dict -----------------------------------------------------------------------
  def m_dict_items(self, I, o, t, args, kw, st, fr):
    return raw('items', (t,))

  def m_dict_keys(self, I, o, t, args, kw, st, fr):
    if kind(t) == 'frame':
      return raw('columns', (t,))
    return keys(t)

  def m_dict_values(self, I, o, t, args, kw, st, fr):
    return values(t)

  def m_dict_get(self, I, o, t, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    return I.wrap(st, tm.dget(t, a[0], a[1] if len(a) > 1 else k.get(
        'default', NONE)))

  def m_dict_update(self, I, o, t, args, kw, st, fr):
    r = t
    if args:
      x = I.rd(st, args[0])
      if kind(x) != 'dict':
        x = I.pairs_to_dict(I.as_list(x)) if kind(x) in ('list', 'tuple') or \
            x.op in ('zip', 'items') else x
      r = tm.dmerge(r, x)
    for n, v in kw.items():
      if n == '**':
        r = tm.dmerge(r, I.rd(st, v))
      else:
        r = dset(r, string(n), I.rd(st, v))
    I.write(st, o, r, '.update()')
    return NONE

  def m_dict_pop(self, I, o, t, args, kw, st, fr):
    a = [I.rd(st, x) for x in args]
    x = tm.dget(t, a[0], a[1] if len(a) > 1 else None)
    I.write(st, o, tm.ddel(t, a[0]), '.pop()')
    return I.wrap(st, x)

  def m_dict_setdefault(self, I, o, t, args, kw, st, fr):
    a = [I.rd(st, x) for x in args]
    d = a[1] if len(a) > 1 else NONE
    c = tm.din(a[0], t)
    x = tm.dget(t, a[0], d)
    I.write(st, o, dset(t, a[0], x), '.setdefault()')
    v = I.wrap(st, x)
    I.link(v, o, lambda b: getitem(b, a[0]), lambda b, y: dset(b, a[0], y))
    return v

  # set ------------------------------------------------------------------------
  def m_set_add(self, I, o, t, args, kw, st, fr):
    I.write(st, o, mkset(raw('spread', (t,)), I.rd(st, args[0])), '.add()')
    return NONE

  def m_set_update(self, I, o, t, args, kw, st, fr):
    I.write(st, o, mkset(raw('spread', (t,)), *[
        raw('spread', (I.as_list(I.rd(st, a)),)) for a in args]), '.update()')
    return NONE

  def as_set(self, I, t):
    if kind(t) == 'set':
      return t
    t = self.iter_t(I, t)
    if t.op in ('list', 'tuple'):
      return mkset(*t.a)
    return mkset(raw('spread', (t,)))

  def m_set_difference(self, I, o, t, args, kw, st, fr):
    r = t
    for a in args:
      r = setdiff(r, self.as_set(I, I.rd(st, a)))
    return I.new(st, r)

  def m_set_union(self, I, o, t, args, kw, st, fr):
    return I.new(st, mkset(raw('spread', (t,)), *[
        raw('spread', (self.iter_t(I, I.rd(st, a)),)) for a in args]))

  def m_set_intersection(self, I, o, t, args, kw, st, fr):
    r = t
    for a in args:
      b = self.as_set(I, I.rd(st, a))
      r = raw('inter', sorted((r, b), key=lambda x: x.id))
    return I.new(st, r)

  def m_set_issubset(self, I, o, t, args, kw, st, fr):
    return not_(nonempty(setdiff(t, self.as_set(I, I.rd(st, args[0])))))

  def m_set_issuperset(self, I, o, t, args, kw, st, fr):
    return not_(nonempty(setdiff(self.as_set(I, I.rd(st, args[0])), t)))

  def m_set_isdisjoint(self, I, o, t, args, kw, st, fr):
    return not_(nonempty(raw('inter', sorted(
        (t, self.as_set(I, I.rd(st, args[0]))), key=lambda x: x.id))))

  def m_set_discard(self, I, o, t, args, kw, st, fr):
    I.write(st, o, setdiff(t, mkset(I.rd(st, args[0]))), '.discard()')
    return NONE

  m_set_remove = m_set_discard

  # str ------------------------------------------------------------------------
  def m_str_format(self, I, o, t, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    if not any(x.op == 'spread' for x in a) and '**' not in k:
      r = self.str_format(t, a, k)
      if r is not None:
        return r
    return call_t('.format', [t] + a, k)

  def m_str_join(self, I, o, t, args, kw, st, fr):
    l = self.iter_t(I, I.rd(st, args[0]))
    return tm.join(t, l)

  def m_str_encode(self, I, o, t, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    if a and a[0].op == 'str' and a[0].d.lower().replace('_', '-') in (
        'utf-8', 'utf8'):
      a = []
    if 'encoding' in k and k['encoding'].op == 'str' and k[
        'encoding'].d.lower() in ('utf-8', 'utf8'):
      k.pop('encoding')
    return call_t('.encode', [t] + a, k)

  def _strfn(name, kind_='str'):   # noqa: N805
    def f(self, I, o, t, args, kw, st, fr):
      a = [I.rd(st, x) for x in args]
      if t.op == 'str' and all(x.op == 'str' for x in a) and not kw:
        return const(getattr(t.d, name)(*[x.d for x in a]))
      if name in ('startswith', 'endswith', 'removesuffix', 'removeprefix') \
          and t.op == 'concat' and len(a) == 1 and a[0].op == 'str':
        edge = t.a[0] if name.endswith('with') and name[0] == 's' or \
            'prefix' in name else t.a[-1]
        if edge.op == 'str' and len(edge.d) >= len(a[0].d) and \
            'with' in name:
          return bconst(getattr(edge.d, name)(a[0].d))
      r = call_t('.' + name, [t] + a)
      _set_kind(r, kind_)
      return r
    return f
  m_str_lower = _strfn('lower')
  m_str_upper = _strfn('upper')
  m_str_strip = _strfn('strip')
  m_str_lstrip = _strfn('lstrip')
  m_str_rstrip = _strfn('rstrip')
  m_str_title = _strfn('title')
  m_str_capitalize = _strfn('capitalize')
  m_str_replace = _strfn('replace')
  m_str_startswith = _strfn('startswith', 'bool')
  m_str_endswith = _strfn('endswith', 'bool')
  m_str_removesuffix = _strfn('removesuffix')
  m_str_removeprefix = _strfn('removeprefix')
  del _strfn

  def m_str_split(self, I, o, t, args, kw, st, fr):
    a = [I.rd(st, x) for x in args]
    r = call_t('.split', [t] + a, {n: I.rd(st, v) for n, v in kw.items()})
    return I.new(st, r)

  # arrays and frames ------------------------------------------------------------
  def _mred(name):   # noqa: N805
    def f(self, I, o, t, args, kw, st, fr):
      a, k = self.terms(I, args, kw, st)
      a, k = self.normalise(self.msig(name, kind(t)), a, k)
      if kind(t) not in ('frame',) and k.get('axis') in (ZERO, NONE) and \
          kind(t) in ('series', None) and name != 'any':
        k.pop('axis')
      if name in ('any', 'all') and k.get('axis') is NONE:
        k.pop('axis')
        return any_(t) if name == 'any' else all_(t)
      if kind(t) == 'bool' and name in ('any', 'all') and not a and not k:
        return any_(t) if name == 'any' else all_(t)
      return I.wrap(st, self.reduce(I, name, t, a, k, st))
    return f
  m_sum = _mred('sum')
  m_mean = _mred('mean')
  m_min = _mred('min')
  m_max = _mred('max')
  m_any = _mred('any')
  m_all = _mred('all')
  m_median = _mred('median')
  m_argmin = _mred('argmin')
  m_argmax = _mred('argmax')
  m_prod = _mred('prod')
  m_cumsum = _mred('cumsum')
  del _mred

  def m_std(self, I, o, t, args, kw, st, fr, which='std'):
    a, k = self.terms(I, args, kw, st)
    kk = kind(t)
    sg = self.msig(which, kk)
    d0 = 1 if kk in ('series', 'frame') else 0 if kk in ('array', 'matrix') \
        else None
    if sg:
      sg = [p for p in sg if p[0] != 'ddof'] if False else [
          [p[0], p[1] if p[0] != 'ddof' else ['other']] for p in sg]
    a, k = self.normalise(sg, a, k)
    if d0 is None and 'ddof' not in k:
      if t.op in ('getitem', 'rows', 'col'):
        d0 = 1 if t.op == 'col' else 0
      else:
        r = call_t('var_unk', [t] + a, k)
        return I.wrap(st, r if which == 'var' else sqrt(r))
    return I.wrap(st, self._stdvar(I, t, a, k, d0, which, st))

  def m_var(self, I, o, t, args, kw, st, fr):
    return self.m_std(I, o, t, args, kw, st, fr, 'var')

  def m_copy(self, I, o, t, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    d = a[0] if a else k.get('deep', TRUE)
    if d is FALSE and kind(t) in ('frame', 'series', None):
      og = I.org(o)
      return I.new(st, t, {(p, 'shallow') for p, m in og} if og else None)
    if d is TRUE or d.op == 'str':
      return I.new(st, t)
    og = I.org(o)
    return I.new(st, t, {(p, 'shallow') for p, m in og} if og else None)

  def m_to_numpy(self, I, o, t, args, kw, st, fr):
    if args or kw:
      return NotImplemented
    return self.attribute(I, o, t, 'values', st, fr)

  def m_tolist(self, I, o, t, args, kw, st, fr):
    return I.new(st, tolist(t))

  m_to_list = m_tolist

  def m_unique(self, I, o, t, args, kw, st, fr):
    if args or kw:
      return NotImplemented
    return I.wrap(st, self.unique(t))

  def m_nunique(self, I, o, t, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    a, k = self.normalise(self.msig('nunique', kind(t)), a, k)
    if kind(t) == 'frame' or a:
      return NotImplemented
    k.pop('dropna', None)
    if k:
      return NotImplemented
    return length(self.unique(t))

  def m_isna(self, I, o, t, args, kw, st, fr):
    return I.wrap(st, self.isnan(t))

  m_isnull = m_isna

  def m_notna(self, I, o, t, args, kw, st, fr):
    return I.wrap(st, not_(self.isnan(t)))

  m_notnull = m_notna

  def m_isin(self, I, o, t, args, kw, st, fr):
    x = I.rd(st, args[0] if args else kw['values'])
    return I.wrap(st, in_(t, self.iter_t(I, x)))

  def m_between(self, I, o, t, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    p, kk = self.normalise(SIGS['series.between'], a, k)
    if len(p) != 2:
      return NotImplemented
    inc = kk.get('inclusive', string('both'))
    if inc.op != 'str':
      return NotImplemented
    lo = le(p[0], t) if inc.d in ('both', 'left') else lt(p[0], t)
    hi = le(t, p[1]) if inc.d in ('both', 'right') else lt(t, p[1])
    return I.wrap(st, and_(lo, hi))

  def m_where(self, I, o, t, args, kw, st, fr, flip=False):
    a, k = self.terms(I, args, kw, st)
    a, k = self.normalise(SIGS['series.where'], a, k)
    if len(a) != 1 or set(k) - {'other'} or kind(a[0]) != 'bool':
      return NotImplemented
    c, other = a[0], k.get('other', tm.NAN)
    return I.wrap(st, where(c, other, t) if flip else where(c, t, other))

  def m_mask(self, I, o, t, args, kw, st, fr):
    return self.m_where(I, o, t, args, kw, st, fr, True)

  def m_clip(self, I, o, t, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    if set(k) - {'lower', 'upper', 'min', 'max'}:
      return NotImplemented
    lo = a[0] if a else k.get('lower', k.get('min', NONE))
    hi = a[1] if len(a) > 1 else k.get('upper', k.get('max', NONE))
    return I.wrap(st, self.clip(t, lo, hi))

  def m_abs(self, I, o, t, args, kw, st, fr):
    return I.wrap(st, absval(t))

  def m_item(self, I, o, t, args, kw, st, fr):
    if args or kw:
      return NotImplemented
    if t.op in ('tolist', 'fmap') or kind(t) in ('array', 'series'):
      return I.wrap(st, call_t('.item', [t]))
    return o

  def m_pipe(self, I, o, t, args, kw, st, fr):
    f = I.rd(st, args[0])
    return I.call_value(f, [o] + list(args[1:]), kw, st, fr)

  def m_assign(self, I, o, t, args, kw, st, fr):
    if args:
      return NotImplemented
    cur = I.new(st, t)
    for n, v in kw.items():
      x = I.rd(st, v)
      if n == '**':
        for q in I.segments(raw('items', (x,))):
          if q[0] != 'elem' or q[1] is not TRUE:
            return I.wrap(st, call_t('.assign', [t, x]))
          y = getitem(q[2], ONE)
          if kind(y) == 'fun':
            y = I.rd(st, I.call_value(y, [cur], {}, st, fr))
          st.heap[cur.loc] = setcol(st.heap[cur.loc], getitem(q[2], ZERO), y)
        continue
      if kind(x) == 'fun' or x.op in ('partial', 'apiref'):
        x = I.rd(st, I.call_value(x, [cur], {}, st, fr))
      st.heap[cur.loc] = setcol(st.heap[cur.loc], string(n), x)
    return cur

  def m_insert(self, I, o, t, args, kw, st, fr):
    if kind(t) != 'frame':
      return NotImplemented
    a, k = self.terms(I, args, kw, st)
    a, k = self.normalise(SIGS['frame.insert'], a, k)
    if len(a) < 3:
      return NotImplemented
    I.write(st, o, setcol(t, a[1], a[2]), '.insert()', 'bind', a[1])
    return NONE

  def m_pop(self, I, o, t, args, kw, st, fr):
    if kind(t) != 'frame':
      return NotImplemented
    c = I.rd(st, args[0])
    r = call_t('.drop', [t], {'columns': raw('list', (c,))})
    I.write(st, o, r, '.pop()', 'meta')
    return I.wrap(st, tm.col(t, c))

  def m_drop(self, I, o, t, args, kw, st, fr):
    if kind(t) not in ('frame', None):
      return NotImplemented
    a, k = self.terms(I, args, kw, st)
    a, k = self.normalise(SIGS['frame.drop'], a, k)
    if a:
      return NotImplemented
    if k.get('axis') is not None and k['axis'] in (ONE, string('columns')) \
        and 'labels' in k:
      k['columns'] = k.pop('labels')
      k.pop('axis')
    if 'columns' in k and kind(k['columns']) not in ('list', 'index', 'set') \
        and k['columns'].op != 'list':
      if kind(k['columns']) == 'str' or k['columns'].op in ('sym', 'str',
                                                            'attr'):
        k['columns'] = raw('list', (k['columns'],))
    inplace = k.pop('inplace', FALSE)
    r = call_t('.drop', [t], k)
    if inplace is TRUE:
      I.write(st, o, r, '.drop(inplace=True)', 'meta')
      return NONE
    return I.wrap(st, r)

  def m_head(self, I, o, t, args, kw, st, fr):
    n = I.rd(st, args[0] if args else kw.get('n', num(5)))
    return I.wrap(st, self.loc_get(t, 'iloc', raw('slice', (NONE, n, NONE))))

  def m_agg(self, I, o, t, args, kw, st, fr):
    if len(args) == 1 and not kw:
      f = self.aggname(I.rd(st, args[0]))
      if f.op == 'str' and f.d in ('sum', 'mean', 'min', 'max', 'median',
                                   'std', 'var', 'count', 'nunique'):
        return self.method(I, o, f.d, [], {}, st, fr, None)
    return NotImplemented

  m_aggregate = m_agg

  def m_apply(self, I, o, t, args, kw, st, fr, name='apply'):
    if len(args) != 1 or kw or kind(t) not in ('series', 'array', 'index'):
      return NotImplemented
    f0 = I.rd(st, args[0])
    if f0.op == 'lib':
      n = ALIASES.get(f0.d, f0.d)
      if n in ('str', 'float', 'int', 'np.sqrt', 'np.log', 'np.exp', 'np.abs',
               'np.floor', 'isnan', 'np.isfinite'):
        return I.wrap(st, call_t('emap', [t, raw('lib', (), n)]))
    f = I.as_arg(args[0], st)
    return I.wrap(st, call_t('emap', [t, f]))

  def m_map(self, I, o, t, args, kw, st, fr):
    return self.m_apply(I, o, t, args, kw, st, fr)

  def m_applymap(self, I, o, t, args, kw, st, fr):
    if kind(t) == 'styler':
      return self.method(I, o, 'map', args, kw, st, fr, None)
    return NotImplemented

  def m_total_seconds(self, I, o, t, args, kw, st, fr):
    return mul(num(86400), div(t, DAY))

  def m_round(self, I, o, t, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    d = a[0] if a else k.get('decimals')
    return I.wrap(st, call_t('round', [t] + ([d] if d is not None and
                                             d is not ZERO else [])))

  def m_sort(self, I, o, t, args, kw, st, fr):
    if kind(t) in ('array', 'series', 'matrix', None) and not kw:
      I.write(st, o, call_t('np.sort', [t]), '.sort()')
      return NONE
    return NotImplemented

  def m_fill(self, I, o, t, args, kw, st, fr):
    I.write(st, o, call_t('mut.fill', [t, I.rd(st, args[0])]), '.fill()')
    return NONE

  def m_astype(self, I, o, t, args, kw, st, fr):
    x = I.rd(st, args[0] if args else kw.get('dtype'))
    if x.op == 'str':
      x = raw('lib', (), {'float64': 'float', 'int64': 'int'}.get(x.d, x.d))
    if x.op == 'lib':
      n = {'np.float64': 'float', 'np.int64': 'int', 'np.bool_': 'bool',
           'float64': 'float', 'int64': 'int'}.get(x.d, x.d)
      x = raw('lib', (), n)
      if kind(t) == 'bool' and n in ('int', 'float'):
        return I.wrap(st, where(t, ONE, ZERO))
      if n == 'bool' and kind(t) == 'bool':
        return o
    r = call_t('.astype', [t, x])
    return I.wrap(st, r)

  def f_np_ravel(self, I, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    if len(a) != 1 or k:
      return NotImplemented
    if tm.rank(a[0]) == 1:
      return a[0]
    return I.wrap(st, call_t('.flatten', a))

  def _frozen(meth):     # noqa: N805
    """A frozen distribution: stats.t(df).ppf(p)."""
    def f(self, I, o, t, args, kw, st, fr):
      if t.op == 'call' and t.d[0].startswith('stats.') and \
          t.d[0][6:] in DISTRS and not t.d[1]:
        a, k = self.terms(I, args, kw, st)
        if len(a) == 1 and not k:
          return I.wrap(st, self.distr(t.d[0][6:], meth, a + list(t.a), {},
                                       'stats.' + t.d[0][6:] + '.' + meth))
      return NotImplemented
    return f
  m_ppf = _frozen('ppf')
  m_cdf = _frozen('cdf')
  m_sf = _frozen('sf')
  m_isf = _frozen('isf')
  del _frozen

  def m_flatten(self, I, o, t, args, kw, st, fr):
    if tm.rank(t) == 1:
      return I.wrap(st, t)
    return I.wrap(st, call_t('.flatten', [t]))

  m_ravel = None

  def m_mark_as_parsed(self, I, o, t, args, kw, st, fr):
    return NotImplemented

  def m_rename(self, I, o, t, args, kw, st, fr):
    a, k = self.terms(I, args, kw, st)
    a, k = self.normalise(SIGS['frame.rename'], a, k)
    if k.get('axis') is not None and k['axis'] in (ONE, string('columns')) \
        and 'mapper' in k and not a:
      k['columns'] = k.pop('mapper')
      k.pop('axis')
      inplace = k.pop('inplace', FALSE)
      r = call_t('.rename', [t] + a, k)
      if inplace is TRUE:
        I.write(st, o, r, '.rename(inplace=True)', 'meta')
        return NONE
      return I.wrap(st, r)
    return NotImplemented

  m_ravel = m_flatten
  del m_ravel
