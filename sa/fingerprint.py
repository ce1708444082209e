"""Fingerprints of value-graph terms (random interpretation).

A pair of canonical terms that the structural comparison cannot decide is
mapped to a generic point of the value domain: every independent input gets a
random value of its kind, arithmetic, boolean, string and container operations
keep their meaning, and every other operation is a random but congruent
function of its arguments.  Nothing of the analysed code is run; the terms are
what the abstract interpreter has computed from the source.

Equal fingerprints prove nothing here.  Different fingerprints select the
branch on which two terms differ, and the difference counts only if every
operation that takes part in it keeps its meaning (see `Point.exact`).
"""
from __future__ import annotations

from decimal import Decimal as D, localcontext, getcontext
import decimal
import hashlib
import random
import time

from sa.terms import *   # noqa: F401,F403
from sa import terms as tm

getcontext().prec = 50
EPS = D(10) ** -30
CAP = 9

BINDERS = {'existsx', 'fmap', 'dmap', 'isum', 'sumx', 'first', 'foreach',
           'mapcols', 'maskfill'}


class Undef(Exception):
  """No value at this point (an error, or outside the domain)."""


class Op:
  """A value of its own; `c` names the column that it is an element of."""
  __slots__ = ('h', 'c')

  def __init__(self, h, c=None):
    self.h, self.c = h, c

  def __repr__(self):
    return f'Op({self.h[:6]})'


class Seq:
  __slots__ = ('k', 'v')

  def __init__(self, k, v):
    self.k, self.v = k, tuple(v)

  def __repr__(self):
    return f'{self.k}{list(self.v)}'


class Dct:
  __slots__ = ('v',)

  def __init__(self, v):
    self.v = tuple(v)

  def __repr__(self):
    return f'D{dict(enumerate(self.v))}'


class Vec:
  __slots__ = ('dom', 'sel', 'v')

  def __init__(self, dom, sel, v):
    self.dom, self.sel, self.v = dom, tuple(sel), tuple(v)

  def __repr__(self):
    return f'V{list(self.v)}'


class Frame:
  """A table: `dom` and `sel` are its row labels, `src` the rows of the
  table h (None: no such row), `ov` the columns with their own values and
  `names` its columns if they are not those of h."""
  __slots__ = ('h', 'dom', 'sel', 'ov', 'src', 'names')

  def __init__(self, h, dom, sel, ov=(), src=None, names=None):
    self.h, self.dom, self.sel, self.ov = h, dom, tuple(sel), tuple(ov)
    self.src = self.sel if src is None else tuple(src)
    self.names = names

  def __repr__(self):
    return f'F({self.h[:6]},{self.sel},{self.ov})'


class Mat:
  """A two-dimensional array."""
  __slots__ = ('n', 'v')

  def __init__(self, n, rows):
    self.n, self.v = n, tuple(map(tuple, rows))

  def __repr__(self):
    return f'M{list(self.v)}'


POS = 'pos'       # rows are identified by their position only


def pos(vs):
  vs = tuple(vs)
  return Vec(POS, range(len(vs)), vs)


class Grp:
  """A grouped table (or one of its columns)."""
  __slots__ = ('h', 'dom', 'frame', 'keys', 'col')

  def __init__(self, h, dom, frame=None, keys=(), col=None):
    self.h, self.dom = h, dom
    self.frame, self.keys, self.col = frame, keys, col


class Obj:
  __slots__ = ('cls', 'h', 'ov')

  def __init__(self, cls, h, ov=()):
    self.cls, self.h, self.ov = cls, h, dict(ov)


def dig(*xs):
  return hashlib.blake2b('|'.join(map(str, xs)).encode(),
                         digest_size=12).hexdigest()


def H(v):
  """Canonical hash of a value."""
  if isinstance(v, bool):
    return 'b%d' % v
  if isinstance(v, D):
    if v.is_nan():
      return 'nan'
    if v.is_infinite():
      return 'inf' if v > 0 else '-inf'
    if abs(v) < EPS:
      return 'n0'
    with localcontext() as c:
      c.prec = 26
      return 'n' + str((+v).normalize())
  if v is None:
    return 'None'
  if isinstance(v, str):
    return 's' + v
  if isinstance(v, Op):
    return 'o' + v.h
  if isinstance(v, Grp):
    return 'g' + v.h
  if isinstance(v, Seq):
    if v.k == 'set':
      return dig('set', *sorted(set(map(H, v.v))))
    return dig(v.k, *map(H, v.v))
  if isinstance(v, Dct):
    return dig('dict', *[H(k) + ':' + H(x) for k, x in v.v])
  if isinstance(v, Vec):
    return dig('vec', v.dom, v.sel, *map(H, v.v))
  if isinstance(v, Mat):
    return dig('mat', v.n, len(v.v), *[H(x) for r in v.v for x in r])
  if isinstance(v, Frame):
    if v.names is not None and {k for k, _, _ in v.ov} >= set(
        map(H, v.names)):
      d = {k: x for k, _, x in v.ov}
      return dig('table', v.dom, v.sel, *sorted(
          k + ':' + H(d[k]) for k in map(H, v.names)))
    return dig('frame', v.h, v.dom, v.sel, v.src,
               *sorted(map(H, v.names or ())),
               *sorted(k + ':' + H(x) for k, _, x in v.ov))
  if isinstance(v, Obj):
    return dig('obj', v.cls, v.h, *sorted(k + ':' + H(x)
                                          for k, x in v.ov.items()))
  raise TypeError(type(v))


def unlabelled(P, v):
  """The value without the labels of its rows."""
  if isinstance(v, Vec):
    return Vec(POS, range(len(v.v)), v.v)
  if isinstance(v, Frame):
    names = P.names(v)
    if len({H(k) for k in names}) < len(names):
      return v
    cs = [(H(k), k, Vec(POS, range(len(v.sel)), P.column(v, k).v))
          for k in names]
    return Frame('', POS, range(len(v.sel)), cs, names=tuple(names))
  return v


def same(x, y):
  return H(x) == H(y)


# operations with their meaning; the others are congruent only
EXACT = {
    'sym', 'attr', 'num', 'str', 'bool', 'none', 'inf', 'bv', 'fresh', 'poly',
    'surd', 'pow', 'floor', 'mod', 'and', 'or', 'not', 'lt0', 'eq0', 'le0',
    'eq', 'isnone', 'truthy', 'ite', 'where', 'list', 'tuple', 'set', 'dict',
    'kv', 'gkv', 'spread', 'gseg', 'fmap', 'existsx', 'isum', 'sumx',
    'concat', 'join', 'getitem', 'len', 'in', 'any', 'keys', 'range', 'dmap',
    'tolist', 'sum', 'rows', 'col', 'setcol', 'slice', 'foldv', 'nth',
    'first', 'maskfill', 'obj', 'setattr', 'replace', 'dspread', 'matmul',
    'isfinite', 'sorted',
}
EXACT_CALLS = {
    '.values', '.to_numpy', 'np.abs', 'abs', 'log', '.get', 'min', 'max',
    '.strip', '.lower', '.upper', '.startswith', '.endswith', 'round',
    '.casefold', '.title', '.capitalize', '.removeprefix', '.removesuffix',
    '.split', '.rsplit', '.isdigit', '.swapcase', '.isspace',
    '.lstrip', '.rstrip', 'nunique', '.sample', '.rank', '.sort_values',
    'np.sort', '.astype', '.str.lower', '.str.upper', '.str.strip',
    '.str.lstrip', '.str.rstrip', '.cumsum', 'np.cumsum', 'np.atleast_2d',
    'np.vstack_', 'np.vstack', '.shape', '.T', 'np.diag', '.flatten',
    '.ravel', 'np.ravel', 'np.array', 'np.asarray', 'np.cov', 'np.reshape',
    '.reshape', 'np.argsort', 'np.argmin', 'np.argmax', '.sum', '.mean',
    '.min', '.max',
}
REDUCTIONS = {'nunique', 'min', 'max', 'mean', 'median', 'std', 'var',
              '.first', '.last', '.count', 'any', 'all', '.agg', '.size',
              '.transform', '.cumsum', '.mean', '.sum', '.nunique'}
TYPES = {'int', 'float', 'str', 'bool'}
SAME_ROWS = {'.shift', '.rank', '.fillna', '.astype', 'emap', '.cumsum',
             '.apply', '.map', 'np.cumsum', '.values', '.sort_values',
             '.diff', 'np.sort', '.str.lower', '.str.strip', '.clip'}
NONNULL = {'int', 'num', 'bool', 'str', 'date'}


class Point:
  """One generic point: values for the independent inputs."""

  def __init__(self, seed, consts, strs, eqconsts):
    self.seed = seed
    self.rng = random.Random(seed)
    self.consts, self.strs, self.eqconsts = consts, strs, eqconsts
    self.leaf = {}        # hash -> value
    self.kinds = {}
    self.pool = []
    self.memo = {}
    self.fresh = {}
    self.rec = None
    self.nundef = 0
    self.approx = set()   # exact operations that fell back on a hash
    self.touched = None
    self.deadline = None
    self.n = 0
    self.ctype = {}       # columns of numbers and of text
    self.keys = ()        # names of columns with several levels
    self.numeric = ()     # columns that are calculated with
    self.labels = {}      # row labels of grouped tables
    # are the operations on whole tables followed?
    self.tables = self.rng.random() < .6
    self.nulls = self.rng.random() < .2
    self.inputs = set()     # tables that are given
    # are there few different values in a column?
    self.few = self.rng.random() < .35
    # how many of the known names are columns of a table
    self.density = self.rng.choice((.15, .5, .96, .98))

  # ------------------------------------------------------------ leaves
  def number(self, kind):
    r = self.rng
    k = r.random()
    if kind == 'date':
      return D(86400) * r.randint(0, 60)
    if kind == 'int':
      if k < .15 and self.pool:
        x = r.choice(self.pool)
        if x.is_finite() and x == x.to_integral_value():
          return x + r.choice((0, 0, 1, -1))
      if k < .3 and self.consts:
        x = r.choice(self.consts)
        if x == x.to_integral_value():
          return x + r.choice((0, 0, 1, -1))
      if k < .8:
        return D(r.randint(0, 5))
      if k < .9:
        return D(r.randint(-3, 12))
      return D(r.randint(0, 60))
    if tm.STRICT_NAN[0] and r.random() < .15:
      return D('NaN')
    if k < .12 and self.pool:
      return r.choice(self.pool)
    if k < .3 and self.consts:
      return r.choice(self.consts)
    if k < .55:
      return D(r.randint(1, 9999)) / D(10007)
    if k < .75:
      return D(r.randint(1, 99999)) / D(1009)
    if k < .85:
      return -D(r.randint(1, 99999)) / D(1009)
    return D(r.randint(0, 5))

  def draw(self, h, kind, opt=False):
    v = self.leaf.get(h)
    if v is None and h not in self.leaf:
      v = self.fresh_value(h, kind, opt)
      self.leaf[h] = v
      self.kinds[h] = (kind, opt)
      if isinstance(v, D) and len(self.pool) < 40:
        self.pool.append(v)
    if self.touched is not None:
      self.touched.add(h)
    return v

  def reset(self):
    self.memo.clear()
    self.approx.clear()

  def redraw(self, h):
    kind, opt = self.kinds[h]
    v = self.leaf[h]
    if isinstance(v, bool) and self.rng.random() < .7:
      self.leaf[h] = not v
    else:
      new = None
      if isinstance(v, str) and self.rng.random() < .3:
        new = self.same_text(h)
      self.leaf[h] = self.fresh_value(h, kind, opt) if new is None else new
    self.reset()

  def same_text(self, h):
    """A text that occurs elsewhere, perhaps in other letters."""
    ts = sorted({x for g, x in self.leaf.items() if g != h and
                 isinstance(x, str)})
    if not ts:
      return None
    t = self.rng.choice(ts)
    k = self.rng.random()
    return t.upper() if k < .2 else t.lower() if k < .4 else t

  def fresh_value(self, h, kind, opt):
    r = self.rng
    if opt and r.random() < .35:
      return None
    if kind in ('num', 'int', 'date'):
      return self.number(kind)
    if kind == 'bool':
      return r.random() < .5
    if kind == 'str':
      k = r.random()
      cs = self.eqconsts
      if cs and k < .5:
        return r.choice(cs)
      if opt and k > .88:
        return ''
      if k > .97 and self.strs:
        return 'ab' + r.choice(self.strs) + 'cd'
      if k > .93:
        # white space only, a number, a long text
        return r.choice((' ', '12.0', '7', ' Tok.0 ' + h * 2, h * 2))
      return r.choice(('Tok', ' tok ', 'tok_')) + h[:6]
    if kind == 'len':
      if r.random() < .08:
        return D(r.randint(4, 9))
      return D(r.choice((0, 1, 1, 2, 2, 3)))
    if kind == 'member':
      return r.random() < .6
    if kind == 'column':
      return r.random() < self.density
    if kind == 'elem':
      # the numeric face of an element of unknown kind
      return self.number(r.choice(('int', 'int', 'num', 'num')))
    if kind == 'few':
      return D(r.randint(0, 1))
    if kind == 'dup':
      return r.choice('ab') if self.few else r.choice(('a', 'a', 'b', 'c'))
    if kind == 'null':
      return r.random() < .1
    if kind == 'text':
      if self.strs and r.random() < .6:
        return r.choice(self.strs)
      if self.strs and r.random() < .2:
        return 'ab' + r.choice(self.strs) + h[:3]
      return r.choice(('tok', ' Tok ')) + h[:5]
    raise KeyError(kind)

  def adapt(self, h, kind, opt=False):
    """The opaque value h as a value of the given kind."""
    if opt:
      if self.draw(dig(h, 'opt'), 'bool') and self.draw(
          dig(h, 'opt2'), 'bool'):
        return None
    if kind in ('num', 'int', 'bool', 'str', 'date'):
      return self.draw(h, kind)
    if kind == 'none':
      return None
    if kind in ('list', 'index') or kind and kind.startswith('list['):
      el = kind[5:-1] if '[' in kind else None
      if el == 'str' and len(self.eqconsts) >= 6 and self.draw(
          dig(h, 'set'), 'bool'):
        # some of the names that it is searched for
        return Seq('list', [c for c in self.eqconsts if self.draw(
            dig(h, 'has', c), 'member')])
      n = int(self.draw(dig(h, 'n'), 'len'))
      # an element may be there twice
      same = n > 1 and self.few and self.draw(dig(h, 'twice'), 'bool')
      return Seq('list', [self.adapt(dig(h, i and i - same), el or None)
                          for i in range(n)])
    if kind == 'dict' or kind and kind.startswith('dict['):
      n = int(self.draw(dig(h, 'n'), 'len'))
      return Dct([(Op(dig(h, 'k', i)), Op(dig(h, 'v', i)))
                  for i in range(n)])
    if kind in ('series', 'array'):
      return self.vec(h, dig(h, 'dom'))
    if kind == 'frame':
      n = self.nrows(h)
      return Frame(h, dig(h, 'dom'), range(n))
    if kind and kind.startswith('obj:'):
      return Obj(kind[4:], h)
    return Op(h)

  def nrows(self, dom):
    return int(self.draw(dig(dom, 'rows'), 'len'))

  def vec(self, h, dom, sel=None):
    if sel is None:
      sel = range(self.nrows(dom))
    return Vec(dom, sel, [self.cell(h, i) for i in sel])

  def cell(self, h, i):
    if i is None or self.nulls and self.draw(dig(h, 'null', i), 'null'):
      return D('NaN')
    return Op(dig(h, 'e', i), h)

  def face(self, v):
    """An element as a number or as text."""
    if isinstance(v, Op) and v.c:
      k = self.ctype.get(v.c)
      if k is None:
        k = self.ctype[v.c] = self.rng.choice('nt')
      return self.num(v) if k == 'n' else self.text(v)
    if isinstance(v, Op):
      return v
    if v is None:
      return D('NaN')
    if isinstance(v, bool):
      return D(int(v))
    return v

  # ------------------------------------------------------------ faces
  def num(self, v):
    if isinstance(v, D):
      return v
    if isinstance(v, bool):
      return D(int(v))
    if isinstance(v, Op):
      if v.c:
        if self.ctype.setdefault(v.c, 'n') != 'n':
          raise Undef('text')
        return self.draw(dig(v.h, '#'), 'few' if self.few and self.draw(
            dig(v.c, 'few'), 'member') else 'int' if self.draw(
                dig(v.c, 'int'), 'bool') else 'num')
      return self.draw(dig(v.h, '#'), 'elem')
    if v is None or isinstance(v, (str, Seq, Dct)):
      raise Undef('number')
    return self.draw(dig(H(v), '#'), 'elem')

  def text(self, v):
    if isinstance(v, str):
      return v
    if isinstance(v, Op):
      if v.c:
        k = self.ctype.get(v.c)
        if k is None:
          k = self.ctype[v.c] = self.rng.choice('nttt')
        if k == 'n':
          return self.text(self.num(v))
        return self.draw(dig(v.h, '$'), 'dup' if self.draw(
            dig(v.c, 'dup'), 'bool') else 'text')
      return self.draw(dig(v.h, '$'), 'text')
    if isinstance(v, D):
      if v.is_finite() and v == v.to_integral_value():
        return str(int(v))
      return str(v)
    if isinstance(v, bool) or v is None:
      return str(v)
    return '<' + H(v) + '>'

  def boolean(self, v):
    if isinstance(v, bool):
      return v
    if v is None:
      return False
    if isinstance(v, D):
      if v.is_nan() and not tm.STRICT_NAN[0]:
        raise Undef('truth of nan')
      return v != 0
    if isinstance(v, str):
      return v != ''
    if isinstance(v, (Seq, Dct)):
      return bool(v.v)
    if isinstance(v, Vec):
      if len(v.v) == 1:
        return self.boolean(v.v[0])
      return self.draw(dig(H(v), '?'), 'bool')
    if isinstance(v, Frame):
      return self.draw(dig(H(v), '?'), 'bool')
    if isinstance(v, Obj):
      return True
    return self.draw(dig(v.h, '?'), 'bool')

  def veq(self, x, y):
    if isinstance(x, Op) and isinstance(y, Op):
      if x.h == y.h:
        return True
      if x.c and y.c:
        x, y = self.face(x), self.face(y)
        if isinstance(x, D) is not isinstance(y, D):
          return False
        return self.veq(x, y)
      return self.text(x) == self.text(y)
    if isinstance(y, Op):
      x, y = y, x
    if isinstance(x, Op):
      if isinstance(y, (D, bool)):
        if x.c and self.ctype.setdefault(x.c, 'n') != 'n':
          return False
        return self.num(x) == self.num(y)
      if isinstance(y, str):
        if x.c and self.ctype.setdefault(x.c, 't') != 't':
          return False
        return self.text(x) == y
      if y is None:
        return False
      return self.draw(dig('eq', x.h, H(y)), 'bool')
    if isinstance(x, (D, bool)) and isinstance(y, (D, bool)):
      return abs(self.num(x) - self.num(y)) < EPS
    return H(x) == H(y)

  def spread(self, f, vs):
    """Element by element with the broadcasting of arrays."""
    if any(isinstance(v, Frame) or isinstance(v, Vec) and v.dom != POS
           for v in vs):
      raise Mix()
    m = n = 1
    for v in vs:
      if isinstance(v, Vec):
        a, b = 1, len(v.v)
      elif isinstance(v, Mat):
        a, b = len(v.v), v.n
      else:
        continue
      if a != m and 1 not in (a, m) or b != n and 1 not in (b, n):
        raise Undef('shapes')
      m = a if m == 1 else m
      n = b if n == 1 else n

    def at(v, i, j):
      if isinstance(v, Vec):
        return v.v[j if len(v.v) > 1 else 0]
      if isinstance(v, Mat):
        return v.v[i if len(v.v) > 1 else 0][j if v.n > 1 else 0]
      return v
    return Mat(n, [[f(*[at(v, i, j) for v in vs]) for j in range(n)]
                   for i in range(m)])

  def align(self, vs):
    """Vectors with the same labels (missing where one has no value)."""
    rows = [v for v in vs if isinstance(v, Vec) and v.dom != POS]
    if not rows:
      raise Undef('shapes')
    d = rows[0].dom
    s = max((v.sel for v in rows), key=len)
    if any(v.dom != d or len(set(v.sel)) < len(v.sel) for v in rows):
      raise Mix()
    out = []
    for v in vs:
      if not isinstance(v, Vec):
        out.append(v)
      elif v.dom == POS:
        if any(r.sel != s for r in rows):
          raise Mix()
        if len(v.v) != len(s):
          raise Undef('shapes')
        out.append(Vec(d, s, v.v))
      elif v.sel == s:
        out.append(v)
      else:
        if not self.tables or not set(v.sel) <= set(s):
          raise Mix()
        m = dict(zip(v.sel, v.v))
        out.append(Vec(d, s, [m.get(i, D('NaN')) for i in s]))
    return out

  def lift(self, f, *vs):
    if any(isinstance(v, Mat) for v in vs):
      return self.spread(f, vs)
    vecs = [v for v in vs if isinstance(v, Vec)]
    if not vecs:
      if any(isinstance(v, Frame) for v in vs):
        raise Mix()
      return f(*vs)
    if any(isinstance(v, Frame) for v in vs):
      raise Mix()
    d, s = vecs[0].dom, vecs[0].sel
    if any(v.dom != d or v.sel != s for v in vecs):
      vs = self.align(vs)
      d, s = next((v.dom, v.sel) for v in vs if isinstance(v, Vec))
    return Vec(d, s, [f(*[v.v[i] if isinstance(v, Vec) else v for v in vs])
                      for i in range(len(s))])

  # ------------------------------------------------------------ evaluation
  def value(self, t):
    return self.ev(t, {}, self.memo)

  def ev(self, t, env, memo):
    if env and (t.bvmax or 'own' in env and owning(t)):
      m = memo
    else:
      m = self.memo
    v = m.get(t.id, m)
    if v is not m:
      if v.__class__ is Undef:
        raise v
      return v
    self.n += 1
    if self.n & 255 == 0:
      tm.check_time()
      if self.deadline and time.process_time() > self.deadline:
        raise Late()
    try:
      v = self.ev_(t, env, memo)
    except Undef as e:
      m[t.id] = e
      raise
    except (decimal.DecimalException, OverflowError, ZeroDivisionError):
      e = Undef('arithmetic')
      m[t.id] = e
      raise e from None
    m[t.id] = v
    return v

  def record(self, t):
    """Operations that are congruent only, met when evaluating t.

    The first set has those that are not arguments of others, the second has
    all of them; None if the value depends on something else.
    """
    self.rec = [set(), set(), 0, {}, True]
    known, self.memo = self.memo, {}
    try:
      self.ev(t, {}, {})
      return self.rec[:2] if self.rec[4] else None
    except (Undef, Mix):
      return None
    finally:
      self.rec, self.memo = None, known

  def opaque(self, t, env, memo, note=True):
    rec = self.rec
    if rec is None:
      return self.opaque_(t, env, memo, note)
    outer = not rec[2]
    rec[2] += 1
    # what is known from inside other arguments is kept apart
    known = self.memo
    if outer:
      memo = rec[3].setdefault(id(memo), (memo, {}))[1]
      self.memo = rec[3].setdefault(0, (None, {}))[1]
    try:
      return self.opaque_(t, env, memo, note, outer)
    finally:
      rec[2] -= 1
      self.memo = known

  def opaque_(self, t, env, memo, note=True, outer=False):
    if note and (t.op in EXACT or t.op == 'call' and t.d[0] in EXACT_CALLS):
      self.approx.add(t.id)
    h = self.key(t, env, memo)
    if self.rec is not None:
      self.rec[1].add(h)
      if outer:
        self.rec[0].add(h)
    k = tm.kind(t)
    if k == 'groupby':
      return tb.grouped(self, t, env, memo, h) or Grp(h, dig('groups', *[H(self.ev(x, env, memo))
                                    for x in t.a[:2]]))
    if t.op == 'gagg':
      h = dig(t.op, t.d, h)
      return self.vec(h, dig('groups', *[H(self.ev(x, env, memo))
                                         for x in t.a[:2]]))
    if t.a and t.op in ('call', 'col', 'getitem', 'sum', 'len', 'red') and \
        t.a[0].op not in BINDERS:
      try:
        x = self.ev(t.a[0], env, memo)
      except Undef:
        x = None
      if isinstance(x, Grp):
        if t.op in ('col', 'getitem'):
          try:
            c = self.ev(t.a[1], env, memo)
          except Undef:
            c = None
          return Grp(h, x.dom, x.frame if isinstance(
              c, (str, Op)) else None, x.keys, (c,))
        if t.op in ('sum', 'len', 'red') or t.d[0] in REDUCTIONS:
          return self.vec(h, x.dom)
    if k in ('series', 'array') and t.a:
      # rows of the first vector argument
      try:
        x = self.ev(t.a[0], env, memo)
      except Undef:
        x = None
      if isinstance(x, Vec) and (t.op == 'call' and t.d[0] in SAME_ROWS or
                                 t.op in ('poly',)):
        return self.vec(h, x.dom, x.sel)
    if k is None and t.op == 'call' and t.d[0] in SAME_ROWS:
      x = self.ev(t.a[0], env, memo)
      if isinstance(x, Vec):
        return self.vec(h, x.dom, x.sel)
    return self.signed(t, h, self.adapt(h, k))

  def signed(self, t, h, v):
    """Counts, variances and probabilities are not negative."""
    if tm._nonneg(t):
      if isinstance(v, Op):
        v = self.draw(h, 'num')
      if isinstance(v, D) and not v.is_nan():
        v = abs(v)
        if t.op == 'attr' and t.d == 'pvalue' and v > 1:
          v = v - v.to_integral_value(decimal.ROUND_FLOOR)
    return v

  def key(self, t, env, memo):
    """What a congruent operation depends on."""
    hs = []
    if t.op in BINDERS or t.op == 'foldv':
      n = t.d[1] + t.d[2] if t.op == 'foldv' else 1
      k = t.d[0] if t.op == 'foldv' else t.d
      times = 2
      if t.op != 'foldv':
        try:
          c = self.ev(t.a[1 if t.op in ('mapcols', 'maskfill') else 0], env,
                      memo)
          if isinstance(c, D) and c.is_finite():
            times = min(10, max(2, int(c)))
        except Undef:
          pass
      for r in range(times):
        e = dict(env)
        for i in range(n):
          e[k + i] = D(r) if t.op != 'foldv' else Op(dig('fold', r, i))
        e.setdefault('own', Op(dig('own', r)))
        m = {}
        for x in t.a:
          try:
            hs.append(H(self.ev(x, e, m)))
          except Undef:
            self.undefined()
            hs.append('undef')
      return dig(t.op, len(t.a), *hs)
    for x in t.a:
      try:
        hs.append(H(self.ev(x, env, memo)))
      except Undef:
        self.undefined()
        hs.append('undef')
    return dig(t.op, t.d, *hs)

  def undefined(self):
    self.nundef += 1
    if self.rec is not None:
      self.rec[4] = False

  def ev_(self, t, env, memo):
    f = getattr(self, 'o_' + t.op, None)
    if f is None:
      return self.opaque(t, env, memo)
    try:
      return f(t, env, memo)
    except Mix:
      return self.opaque(t, env, memo)

  # constants and inputs
  def o_num(self, t, env, memo):
    return D(t.d.numerator) / D(t.d.denominator)

  def o_str(self, t, env, memo):
    return t.d

  def o_bool(self, t, env, memo):
    return t.d

  def o_none(self, t, env, memo):
    return None

  def o_inf(self, t, env, memo):
    return D('Infinity')

  def o_nan(self, t, env, memo):
    return D('NaN')

  def o_sym(self, t, env, memo):
    if t.d[0] == 'DAY':
      return D(86400)
    k = tm.kind(t)
    h = dig('sym', t.d[0])
    if k == 'array' and t.d[0] == 'self.values' or t.d[0] == 'self.quantile':
      return self.trimmed(dig('sym', 'self'))[t.d[0][5:]]
    if k == 'array':
      # arrays of one call have the same length as often as not
      d = 'arrays' if self.draw(dig('arrays'), 'bool') else dig(h, 'dom')
      return pos(Op(dig(h, 'e', i)) for i in range(self.nrows(d)))
    if k == 'series':
      return self.vec(h, dig(h, 'dom'))
    if k == 'str' and t.d[0].endswith('_column'):
      return 'col_' + t.d[0]
    if k == 'frame':
      self.inputs.add(h)
    return self.adapt(h, k, tm.is_opt(t) and k is not None)

  def trimmed(self, h):
    """An object of the trimmed statistics, as its constructor makes it."""
    m = 1 + int(self.draw(dig(h, 'm'), 'len')) % 3
    k = int(self.draw(dig(h, 'k'), 'len')) % 3
    n = 1 + int(self.draw(dig(h, 'n'), 'len')) % 5
    size = n + 2 * k
    u = abs(self.draw(dig(h, 'q'), 'num'))
    if not u.is_finite():
      u = D(0)
    u -= u.to_integral_value(decimal.ROUND_FLOOR)
    rows = [[Op(dig(h, 'e', i, j)) for j in range(size)] for i in range(m)]
    mat = Mat(size, rows)
    r = {'original_sample_size': D(size), 'n_trim': D(k),
         'quantile': (k + u * min(D(1), D(n) / 2)) / size,
         'values': pos(rows[0]) if m == 1 and self.draw(
             dig(h, 'flat'), 'bool') else mat}
    keep = range(size)
    if k:
      keep = sorted(_order(self, rows[0], True)[k:-k])
    r['values_trimmed'] = Mat(n, [[x[j] for j in keep] for x in rows])
    first = [self.num(rows[0][j]) for j in keep]
    for nm, f in (('min_values', min), ('max_values', max)):
      j = keep[first.index(f(first))]
      r[nm] = pos(x[j] for x in rows)
    return r

  def o_matmul(self, t, env, memo):
    a, b = [self.ev(x, env, memo) for x in t.a]
    if not isinstance(a, Mat) or not isinstance(b, Mat):
      raise Mix()
    if a.n != len(b.v):
      raise Undef('shapes')
    return Mat(b.n, [[sum((self.num(x) * self.num(b.v[k][j])
                           for k, x in enumerate(r)), D(0))
                      for j in range(b.n)] for r in a.v])

  def o_fresh(self, t, env, memo):
    v = self.fresh.get(t.id, self)
    if v is self:
      return self.adapt(dig('fresh', t.d), tm.kind(t))
    return v

  def o_bv(self, t, env, memo):
    if t.d not in env:
      raise Undef('free')
    return env[t.d]

  def o_attr(self, t, env, memo):
    o = self.ev(t.a[0], env, memo)
    if o is None:
      raise Undef('attribute of None')
    if isinstance(o, Obj):
      if t.d in o.ov:
        return o.ov[t.d]
      if o.cls == 'TrimmedArray' and o.h:
        r = self.trimmed(o.h)
        if t.d in r:
          return r[t.d]
      h = dig('attr', o.h, t.d)
      dom = dig('attrdom', o.h)
    else:
      h = dig('attr', H(o), t.d)
      dom = dig('attrdom', H(o))
    k = tm.kind(t)
    if k in ('series', 'array'):
      return self.vec(h, dom)
    if k == 'frame' and t.a[0].op == 'sym':
      self.inputs.add(h)
    return self.signed(t, h, self.adapt(h, k, tm.is_opt(t) and k is not None))

  def o_obj(self, t, env, memo):
    return Obj(t.d[0], '', {n: self.ev(x, env, memo)
                            for n, x in zip(t.d[1], t.a)})

  def o_setattr(self, t, env, memo):
    o = self.ev(t.a[0], env, memo)
    if not isinstance(o, Obj):
      raise Mix()
    return Obj(o.cls, o.h, {**o.ov, t.d: self.ev(t.a[1], env, memo)})

  def o_replace(self, t, env, memo):
    o = self.ev(t.a[0], env, memo)
    if not isinstance(o, Obj):
      raise Mix()
    return Obj(o.cls, o.h, {**o.ov, **{n: self.ev(x, env, memo)
                                       for n, x in zip(t.d, t.a[1:])}})

  def o_eff(self, t, env, memo):
    return Seq('eff', [self.ev(x, env, memo) for x in t.a])

  def o_api(self, t, env, memo):
    v = self.opaque(t, env, memo)
    if v is None and tm.kind(t) == 'none':
      # a call for its effects
      return Op(self.key(t, env, memo))
    return v

  # arithmetic
  def o_poly(self, t, env, memo):
    vals = {x.id: self.ev(x, env, memo) for x in t.a}

    def f(*vs):
      if any(v.__class__ is D and v.is_nan() for v in vs):
        return D('NaN')
      m = dict(zip(ids, vs))
      s = D(0)
      for mono, c in t.d:
        p = D(c.numerator) / D(c.denominator)
        for x, e in mono:
          p = p * self.pw(self.num(m[x.id]), e)
        s = s + p
      if s.is_nan() and not tm.STRICT_NAN[0]:
        raise Undef('nan')
      return s
    ids = list(vals)
    fs = [v for v in vals.values() if isinstance(v, Frame)]
    if fs:
      return tb.columnwise(self, lambda *vs: self.lift(f, *vs),
                           [vals[i] for i in ids])
    return self.lift(f, *[vals[i] for i in ids])

  def pw(self, b, e):
    if e == 1:
      return b
    if e.denominator == 1:
      if b == 0 and e < 0:
        raise Undef('division by zero')
      return b ** int(e)
    if b < 0 or b == 0 and e < 0:
      raise Undef('root')
    if b == 0:
      return D(0)
    return b ** (D(e.numerator) / D(e.denominator))

  def o_pow(self, t, env, memo):
    x, y = [self.ev(z, env, memo) for z in t.a[:2]]

    def f(x, y):
      x, y = self.num(x), self.num(y)
      if x < 0 and y != y.to_integral_value() or x == 0 and y <= 0:
        raise Undef('power')
      if abs(y) > 60:
        raise Undef('large')
      return x ** y
    return self.lift(f, x, y)

  def o_floor(self, t, env, memo):
    def f(x):
      x = self.num(x)
      if not x.is_finite():
        raise Undef('floor')
      # absorb the rounding of the representation
      n = x.to_integral_value()
      if abs(x - n) < EPS:
        return n
      return x.to_integral_value(decimal.ROUND_FLOOR)
    return self.lift(f, self.ev(t.a[0], env, memo))

  def o_mod(self, t, env, memo):
    def f(x, y):
      x, y = self.num(x), self.num(y)
      if not y or not x.is_finite():
        raise Undef('mod')
      r = x - y * (x / y).to_integral_value(decimal.ROUND_FLOOR)
      return D(0) if abs(r) < EPS else r
    return self.lift(f, *[self.ev(z, env, memo) for z in t.a])

  # truth values
  def sign(self, x):
    x = self.num(x)
    if x.is_nan():
      if not tm.STRICT_NAN[0]:
        raise Undef('order of nan')
      return None
    if abs(x) < EPS:
      return 0
    return -1 if x < 0 else 1

  def o_lt0(self, t, env, memo):
    return self.lift(lambda x: self.sign(x) == -1,
                     self.ev(t.a[0], env, memo))

  def o_le0(self, t, env, memo):
    return self.lift(lambda x: self.sign(x) in (0, -1),
                     self.ev(t.a[0], env, memo))

  def o_eq0(self, t, env, memo):
    p = t.a[0]
    if p.op == 'poly' and len(p.a) == 2 and sorted(
        c for m, c in p.d if len(m) == 1 and m[0][1] == 1) == [-1, 1] and \
        len(p.d) == 2 and not any(tm.kind(x) in tm.NUMERIC for x in p.a):
      # two values of unknown kind
      vs = [self.ev(x, env, memo) for x in p.a]
      if any(isinstance(v, (str, Op, bool, Seq)) or v is None for v in vs):
        return self.lift(self.veq, *vs)
    return self.lift(lambda x: self.sign(x) == 0,
                     self.ev(t.a[0], env, memo))

  def o_eq(self, t, env, memo):
    return self.lift(self.veq, *[self.ev(z, env, memo) for z in t.a])

  def o_not(self, t, env, memo):
    return self.lift(lambda x: not self.boolean(x),
                     self.ev(t.a[0], env, memo))

  def nary(self, t, env, memo, stop):
    vs = []
    bad = None
    for x in t.a:
      try:
        v = self.ev(x, env, memo)
      except Undef as e:
        bad = e
        continue
      if not isinstance(v, Vec):
        if self.boolean(v) is stop:
          return stop
      else:
        vs.append(v)
    if bad is not None:
      raise bad
    if not vs:
      return not stop
    if stop:
      return self.lift(lambda *xs: any(self.boolean(x) for x in xs), *vs)
    return self.lift(lambda *xs: all(self.boolean(x) for x in xs), *vs)

  def o_and(self, t, env, memo):
    return self.nary(t, env, memo, False)

  def o_or(self, t, env, memo):
    return self.nary(t, env, memo, True)

  def o_isnone(self, t, env, memo):
    return self.ev(t.a[0], env, memo) is None

  def o_truthy(self, t, env, memo):
    return self.boolean(self.ev(t.a[0], env, memo))

  def o_isnan(self, t, env, memo):
    v = self.ev(t.a[0], env, memo)
    if isinstance(v, D):
      return v.is_nan()
    if isinstance(v, Vec) and self.tables:
      return self.lift(lambda x: isinstance(x, D) and x.is_nan() or
                       x is None, v)
    raise Mix()

  def o_isfinite(self, t, env, memo):
    def f(x):
      if isinstance(x, D):
        return x.is_finite()
      return self.draw(dig('fin', H(x)), 'member')
    return self.lift(f, self.ev(t.a[0], env, memo))

  def o_any(self, t, env, memo):
    v = self.ev(t.a[0], env, memo)
    if isinstance(v, (Vec, Seq)):
      return any(self.boolean(x) for x in v.v)
    if isinstance(v, bool):
      return v
    raise Mix()

  def o_in(self, t, env, memo):
    x, c = [self.ev(z, env, memo) for z in t.a]
    if isinstance(x, Vec):
      return self.lift(lambda y: self.isin(y, c), x)
    return self.isin(x, c)

  def isin(self, x, c):
    if isinstance(c, (Seq, Vec)):
      return any(self.veq(x, y) for y in c.v)
    if isinstance(c, Dct):
      return any(self.veq(x, y) for y, _ in c.v)
    if isinstance(c, str) and isinstance(x, str):
      return x in c
    if c is None:
      raise Undef('in None')
    return self.draw(dig('in', H(x), H(c)), 'member')

  def o_ite(self, t, env, memo):
    c = self.ev(t.a[0], env, memo)
    if isinstance(c, Vec):
      return self.o_where(t, env, memo)
    return self.ev(t.a[1] if self.boolean(c) else t.a[2], env, memo)

  def o_where(self, t, env, memo):
    c = self.ev(t.a[0], env, memo)
    if not isinstance(c, Vec):
      if isinstance(c, (Frame, Op)):
        raise Mix()
      return self.ev(t.a[1] if self.boolean(c) else t.a[2], env, memo)
    x = self.total(t.a[1], env, memo)
    y = self.total(t.a[2], env, memo)

    def f(c, x, y):
      r = x if self.boolean(c) else y
      if r is BAD:
        raise Undef('where')
      return r
    return self.lift(f, c, x, y)

  def total(self, t, env, memo):
    try:
      return self.ev(t, env, memo)
    except Undef:
      return BAD

  # containers
  def items(self, t, env, memo):
    out = []
    for s in t.a:
      if s.op == 'spread':
        out += self.seq(self.ev(s.a[0], env, memo))
      elif s.op == 'gseg':
        if self.boolean(self.ev(s.a[0], env, memo)):
          out += self.seq(self.ev(s.a[1], env, memo))
      else:
        out.append(self.ev(s, env, memo))
    return out

  def seq(self, v):
    if isinstance(v, (Seq, Vec)):
      return list(v.v)
    if isinstance(v, Dct):
      return [k for k, _ in v.v]
    if v is None:
      raise Undef('iteration over None')
    if isinstance(v, str):
      return list(v)
    if isinstance(v, Frame):
      return [Op(dig(v.h, 'cols'))]
    return [Op(dig(H(v), 'items'))]

  def o_list(self, t, env, memo):
    return Seq('list', self.items(t, env, memo))

  def o_tuple(self, t, env, memo):
    return Seq('tuple', self.items(t, env, memo))

  def o_set(self, t, env, memo):
    out, seen = [], set()
    for x in self.items(t, env, memo):
      if H(x) not in seen:
        seen.add(H(x))
        out.append(x)
    return Seq('set', out)

  def o_sorted(self, t, env, memo):
    v = self.ev(t.a[0], env, memo)
    if not isinstance(v, (Seq, Vec)) or set(t.d or ()) - {'reverse'}:
      raise Mix()
    back = t.d and self.ev(t.a[1], env, memo)
    xs = [self.num(x) if isinstance(x, Op) and not x.c else self.face(x)
          for x in v.v]
    if any(xs[i] == xs[j] and H(v.v[i]) != H(v.v[j])
           for i in range(len(xs)) for j in range(i)):
      raise Mix()
    if back not in ((), None, True, False) or len(
        {isinstance(x, str) for x in xs}) > 1 or not all(
            isinstance(x, str) or isinstance(x, D) and not x.is_nan()
            for x in xs):
      raise Mix()
    o = sorted(range(len(xs)), key=lambda i: xs[i], reverse=back is True)
    return Seq('list', [v.v[i] for i in o])

  def o_tolist(self, t, env, memo):
    v = self.ev(t.a[0], env, memo)
    if isinstance(v, (Seq, Vec, Dct)):
      return Seq('list', self.seq(v))
    raise Mix()

  def o_keys(self, t, env, memo):
    v = self.ev(t.a[0], env, memo)
    if isinstance(v, Dct):
      return Seq('list', [k for k, _ in v.v])
    raise Mix()

  def o_dict(self, t, env, memo):
    out = {}
    for s in t.a:
      if s.op == 'kv':
        k = self.ev(s.a[0], env, memo)
        out[H(k)] = (k, self.ev(s.a[1], env, memo))
      elif s.op == 'gkv':
        if self.boolean(self.ev(s.a[0], env, memo)):
          k = self.ev(s.a[1], env, memo)
          out[H(k)] = (k, self.ev(s.a[2], env, memo))
      elif s.op == 'dspread':
        d = self.ev(s.a[0], env, memo)
        if d is None:
          raise Undef('** of None')
        if not isinstance(d, Dct):
          raise Mix()
        for k, v in d.v:
          out[H(k)] = (k, v)
      else:
        raise Mix()
    return Dct(out.values())

  def o_kv(self, t, env, memo):
    return Seq('kv', [self.ev(x, env, memo) for x in t.a])

  def o_ddel(self, t, env, memo):
    d, k = [self.ev(x, env, memo) for x in t.a]
    if not isinstance(d, Dct):
      raise Mix()
    return Dct([(a, b) for a, b in d.v if H(a) != H(k)])

  def o_slice(self, t, env, memo):
    return Seq('slice', [self.ev(x, env, memo) for x in t.a])

  def o_range(self, t, env, memo):
    a, b, s = [self.integer(self.ev(x, env, memo)) for x in t.a]
    if not s:
      raise Undef('range')
    r = range(a, b, s)
    if len(r) > 40:
      raise Mix()
    return Seq('list', [D(i) for i in r])

  def integer(self, v):
    v = self.num(v)
    if v.is_finite() and v == v.to_integral_value():
      return int(v)
    raise Undef('integer')

  def count(self, t, env, memo):
    n = self.integer(self.ev(t, env, memo))
    return max(n, 0)

  def bind(self, t, env, i):
    e = dict(env)
    e[t.d] = D(i)
    return e, {}

  def times(self, t, env, memo, cap=CAP):
    n = self.count(t.a[0], env, memo)
    return min(n, cap), n

  def inexact(self, t):
    """Part of the value at t is made up."""
    self.approx.add(t.id)
    if self.rec is not None:
      self.rec[4] = False

  def o_existsx(self, t, env, memo):
    n, full = self.times(t, env, memo, 12)
    for i in range(n):
      e, m = self.bind(t, env, i)
      if self.boolean(self.ev(t.a[1], e, m)):
        return True
    if full > n:
      raise Mix()
    return False

  def o_fmap(self, t, env, memo):
    n, full = self.times(t, env, memo)
    out = []
    for i in range(n):
      e, m = self.bind(t, env, i)
      if self.boolean(self.ev(t.a[1], e, m)):
        out += self.seq(self.ev(t.a[2], e, m))
    if full > n:
      self.inexact(t)
      out.append(Op(dig('tail', full)))
    return Seq('list', out)

  def o_dmap(self, t, env, memo):
    n, full = self.times(t, env, memo)
    out = {}
    for i in range(n):
      e, m = self.bind(t, env, i)
      if self.boolean(self.ev(t.a[1], e, m)):
        k = self.ev(t.a[2], e, m)
        out[H(k)] = (k, self.ev(t.a[3], e, m))
    if full > n:
      raise Mix()
    return Dct(out.values())

  def o_isum(self, t, env, memo):
    n, full = self.times(t, env, memo, 40)
    if full > n:
      raise Mix()
    s = 0
    for i in range(n):
      e, m = self.bind(t, env, i)
      s += self.boolean(self.ev(t.a[1], e, m))
    return D(s)

  def o_sumx(self, t, env, memo):
    n, full = self.times(t, env, memo, 40)
    if full > n:
      raise Mix()
    s = D(0)
    for i in range(n):
      e, m = self.bind(t, env, i)
      s += self.num(self.ev(t.a[1], e, m))
    return s

  def o_first(self, t, env, memo):
    n, full = self.times(t, env, memo, 12)
    for i in range(n):
      e, m = self.bind(t, env, i)
      if self.boolean(self.ev(t.a[1], e, m)):
        return self.ev(t.a[2], e, m)
    raise Undef('no such element')

  def o_foreach(self, t, env, memo):
    n, full = self.times(t, env, memo)
    out = []
    for i in range(n):
      e, m = self.bind(t, env, i)
      if self.boolean(self.ev(t.a[1], e, m)):
        out.append(self.ev(t.a[2], e, m))
    if full > n:
      self.inexact(t)
      out.append(Op(dig('tail', full)))
    return Seq('each', out)

  def o_foldv(self, t, env, memo):
    k, m, lv = t.d
    st = [self.ev(x, env, memo) for x in t.a[:m]]
    ns = t.a[m:m + lv]
    body = t.a[m + lv:m + lv + m]
    guard, brk = t.a[m + lv + m:]

    def go(lvl, idx):
      nonlocal st
      if lvl == lv:
        e = dict(env)
        for i, x in enumerate(st + idx):
          e[k + i] = x
        mm = {}
        if self.boolean(self.ev(guard, e, mm)):
          new = [self.ev(b, e, mm) for b in body]
          stop = self.boolean(self.ev(brk, e, mm))
          st = new
          return stop
        return False
      e = dict(env)
      for i, x in enumerate(st + idx):
        e[k + i] = x
      n = self.count(ns[lvl], e, {})
      if n > 12:
        raise Mix()
      for i in range(n):
        if go(lvl + 1, idx + [D(i)]) and lv == 1:
          return True
      return False
    go(0, [])
    return Seq('fold', st)

  def o_nth(self, t, env, memo):
    v = self.ev(t.a[0], env, memo)
    if isinstance(v, Seq) and t.d < len(v.v):
      return v.v[t.d]
    raise Mix()

  def o_len(self, t, env, memo):
    v = self.ev(t.a[0], env, memo)
    if isinstance(v, (Seq, Dct, Vec)):
      return D(len(v.v))
    if isinstance(v, Frame):
      return D(len(v.sel))
    if isinstance(v, (str, Mat)):
      return D(len(v if isinstance(v, str) else v.v))
    if isinstance(v, Obj) and v.cls == 'TrimmedArray' and v.h:
      return D(self.trimmed(v.h)['values_trimmed'].n)
    if v is None:
      raise Undef('len(None)')
    if isinstance(v, Grp):
      return tb.reduce(self, v, 'len')
    return self.draw(dig('len', H(v)), 'len')

  def o_sum(self, t, env, memo):
    v = self.ev(t.a[0], env, memo)
    if isinstance(v, (Seq, Vec)):
      s = D(0)
      for x in v.v:
        x = self.num(x)
        if x.is_nan() and not tm.STRICT_NAN[0]:
          if isinstance(v, Vec) and v.dom != POS:
            continue
          raise Undef('nan')
        s += x
      return s
    if isinstance(v, Grp):
      return tb.reduce(self, v, 'sum')
    if isinstance(v, Mat):
      return sum((self.num(x) for r in v.v for x in r), D(0))
    raise Mix()

  def axis(self, ix, n):
    """Positions that an index selects of n, and whether it is a range."""
    if isinstance(ix, Seq) and ix.k == 'slice':
      return list(range(n))[slice(*[
          None if y is None else self.integer(y) for y in ix.v])], True
    if isinstance(ix, (Vec, Seq)) and getattr(ix, 'dom', POS) == POS:
      vs = list(ix.v)
      if vs and all(isinstance(y, bool) for y in vs):
        if len(vs) != n:
          raise Undef('shapes')
        return [i for i, y in enumerate(vs) if y], True
      vs = [self.integer(y) for y in vs]
      if any(not -n <= i < n for i in vs):
        raise Undef('index')
      return vs, True
    if isinstance(ix, D):
      i = self.integer(ix)
      if not -n <= i < n:
        raise Undef('index')
      return [i], False
    raise Mix()

  def matitem(self, x, k):
    ks = list(k.v) if isinstance(k, Seq) and k.k == 'tuple' else [k]
    if len(ks) > 2 or len(ks) == 2 and all(
        isinstance(y, Vec) or isinstance(y, Seq) and y.k != 'slice'
        for y in ks):
      raise Mix()
    r, many = self.axis(ks[0], len(x.v))
    c, wide = self.axis(ks[1], x.n) if len(ks) == 2 else (range(x.n), True)
    out = [[x.v[i][j] for j in c] for i in r]
    if many and wide:
      return Mat(len(c), out)
    if wide:
      return pos(out[0])
    if many:
      return pos(y[0] for y in out)
    return out[0][0]

  def o_getitem(self, t, env, memo):
    x, k = [self.ev(z, env, memo) for z in t.a]
    kk = tm.kind(t)
    if x is None:
      raise Undef('item of None')
    if isinstance(x, Dct):
      for a, b in x.v:
        if self.veq(a, k):
          return b
      raise Undef('missing key')
    if isinstance(x, Mat):
      return self.matitem(x, k)
    if isinstance(x, Vec) and x.dom == POS and isinstance(k, Seq) and \
        k.k == 'tuple' and len(k.v) == 1:
      k = k.v[0]
    if isinstance(x, Vec) and x.dom == POS and (
        isinstance(k, Vec) or isinstance(k, Seq) and k.k != 'tuple'):
      return pos(x.v[i] for i in self.axis(k, len(x.v))[0])
    if isinstance(x, Vec) and x.dom in self.labels and \
        not isinstance(k, (Seq, Vec)):
      for i, y in zip(x.sel, x.v):
        lb = self.labels[x.dom][1][i]
        if len(lb) == 1 and self.veq(lb[0], k):
          return y
      raise Undef('missing label')
    if isinstance(x, (Seq, Vec, str)):
      vs = x if isinstance(x, str) else x.v
      if isinstance(k, D) and k == k.to_integral_value():
        if -len(vs) <= k < len(vs):
          return vs[int(k)]
        raise Undef('index')
      if isinstance(k, Seq) and k.k == 'slice':
        try:
          s = slice(*[None if y is None else self.integer(y) for y in k.v])
        except Undef:
          raise Mix() from None
        if isinstance(x, str):
          return x[s]
        if isinstance(x, Vec):
          return Vec(x.dom, x.sel[s], x.v[s])
        return Seq(x.k, vs[s])
      if isinstance(x, Vec) and isinstance(k, Vec) and all(
          isinstance(y, bool) for y in k.v) and (
              k.v or not x.v or tm.kind(t.a[1]) == 'bool'):
        return self.mask(x, k)
    if isinstance(x, Frame):
      if isinstance(k, (str, Op)):
        return self.column(x, k)
    if isinstance(x, Grp):
      return self.groupcol(x, k)
    h = dig('item', H(x), H(k))
    return self.adapt(h, kk)

  # tables
  def column(self, f, k):
    hk = H(k)
    for n, _, v in f.ov:
      if n == hk:
        return v
    if f.names is not None and hk not in map(H, f.names):
      if any(isinstance(n, Seq) for n in f.names):
        return tb.level(self, f, k)
      raise Undef('no such column')
    h = dig(f.h, 'col', hk)
    if h not in self.ctype:
      for x in self.numeric:
        try:
          if H(self.value(x)) == hk:
            self.ctype[h] = 'n'
        except Undef:
          pass
    return Vec(f.dom, f.sel, [self.cell(h, i) for i in f.src])

  def mask(self, x, m):
    if isinstance(m, Vec) and m.dom == POS and x.dom != POS:
      if len(m.v) != len(x.sel):
        raise Undef('length')
    elif not isinstance(m, Vec) or x.dom != m.dom or x.sel != m.sel:
      raise Mix()
    keep = [i for i, b in enumerate(m.v) if self.boolean(b)]
    sel = [x.sel[i] for i in keep]
    if isinstance(x, Vec):
      if x.dom == POS:
        return pos(x.v[i] for i in keep)
      return Vec(x.dom, sel, [x.v[i] for i in keep])
    return Frame(x.h, x.dom, sel, [
        (n, k, self.mask(v, m) if isinstance(v, Vec) else v)
        for n, k, v in x.ov], [x.src[i] for i in keep], x.names)

  def o_col(self, t, env, memo):
    f, k = [self.ev(z, env, memo) for z in t.a]
    if isinstance(f, Frame):
      if isinstance(k, Seq) and k.k == 'ixslice':
        return tb.part(self, f, k)
      return self.column(f, k)
    if isinstance(f, Dct):
      return self.o_getitem(t, env, memo)
    if isinstance(f, Grp):
      return self.groupcol(f, k)
    raise Mix()

  def groupcol(self, f, k):
    if f.frame is not None and isinstance(k, (str, Op)):
      return Grp(dig(f.h, 'col', H(k)), f.dom, f.frame, f.keys, (k,))
    raise Mix()

  def o_cols(self, t, env, memo):
    f, k = [self.ev(z, env, memo) for z in t.a]
    return tb.cols(self, f, k)

  def o_gagg(self, t, env, memo):
    f, k, c = [self.ev(z, env, memo) for z in t.a]
    return tb.gagg(self, f, k, c, t.d)

  def o_rows(self, t, env, memo):
    x, m = [self.ev(z, env, memo) for z in t.a]
    if isinstance(x, (Vec, Frame)):
      if isinstance(m, bool):
        raise Mix()
      return self.mask(x, m)
    raise Mix()

  def o_locget(self, t, env, memo):
    # rows of a table, by the labels that rows of it have
    k = t.a[1]
    if not self.tables or k.op != 'call' or k.d[0] != '.index' or \
        len(k.a) != 1:
      raise Mix()
    x, y = self.ev(t.a[0], env, memo), self.ev(k.a[0], env, memo)
    if not isinstance(x, (Vec, Frame)) or not isinstance(
        y, (Vec, Frame)) or x.dom != y.dom or x.dom == POS or \
          len(set(x.sel)) < len(x.sel):
      raise Mix()
    at = {s: i for i, s in enumerate(x.sel)}
    if not all(s in at for s in y.sel):
      raise Undef('no such label')
    return tb.take(self, x, [at[s] for s in y.sel])

  def o_setcol(self, t, env, memo):
    f, k, v = [self.ev(z, env, memo) for z in t.a]
    if not isinstance(f, Frame):
      raise Mix()
    if isinstance(k, Seq) and k.k == 'ixslice':
      return tb.setpart(self, f, k, v)
    return self.setcol(f, k, v)

  def o_ixslice(self, t, env, memo):
    x = t.a[0]
    if x.op != 'tuple' or not all(
        y.op != 'slice' or all(z is tm.NONE for z in y.a) for y in x.a):
      raise Mix()
    return Seq('ixslice', [None if y.op == 'slice' else self.ev(y, env, memo)
                           for y in x.a])

  def setcol(self, f, k, v):
    if isinstance(v, Vec) and v.dom == POS:
      if len(v.v) != len(f.sel):
        raise Undef('length')
      v = Vec(f.dom, f.sel, v.v)
    if isinstance(v, Vec) and (v.dom != f.dom or v.sel != f.sel):
      raise Mix()
    if not isinstance(v, Vec):
      if isinstance(v, Frame):
        raise Mix()
      v = Vec(f.dom, f.sel, [v] * len(f.sel))
    hk = H(k)
    names = f.names
    if names is not None and hk not in map(H, names):
      names += (k,)
    return Frame(f.h, f.dom, f.sel,
                 [x for x in f.ov if x[0] != hk] + [(hk, k, v)], f.src,
                 names)

  def names(self, f):
    if f.names is not None:
      return list(f.names)
    # some of the names that are in use, and some others
    h = dig(f.h, 'columns')
    out = [s for s in self.strs if self.draw(dig(h, s), 'column')]
    out += [Op(dig(h, i)) for i in range(2)]
    seen = set(map(H, out))
    for x in self.keys:
      try:
        v = self.value(x)
      except Undef:
        continue
      if isinstance(v, Seq) and H(v) not in seen and self.draw(
          dig(h, H(v)), 'column'):
        out.append(v)
        seen.add(H(v))
    for n, k, _ in f.ov:
      if n not in seen:
        out.append(k)
    return out

  def o_columns(self, t, env, memo):
    f = self.ev(t.a[0], env, memo)
    if isinstance(f, Frame):
      if f.names is None and f.h not in self.inputs:
        self.inexact(t)
      return Seq('list', self.names(f))
    raise Mix()

  def o_setdiff(self, t, env, memo):
    vs = [self.ev(x, env, memo) for x in t.a]
    if len(vs) != 2 or not all(isinstance(v, (Seq, Vec)) for v in vs):
      raise Mix()
    no = {H(x) for x in vs[1].v}
    return Seq('set', [x for x in vs[0].v if H(x) not in no])

  def o_mapcols(self, t, env, memo):
    f = self.ev(t.a[0], env, memo)
    if not isinstance(f, Frame):
      raise Mix()
    n = self.count(t.a[1], env, memo)
    if n > 40:
      raise Mix()
    for i in range(n):
      e, m = self.bind(t, env, i)
      if self.boolean(self.ev(t.a[2], e, m)):
        k = self.ev(t.a[3], e, m)
        e = dict(e)
        e['own'] = self.column(f, k)
        f = self.setcol(f, k, self.ev(t.a[4], e, {}))
    return f

  def o_owncol(self, t, env, memo):
    if 'own' not in env:
      raise Undef('owncol')
    return env['own']

  def o_maskfill(self, t, env, memo):
    v = self.ev(t.a[0], env, memo)
    n = self.count(t.a[1], env, memo)
    if n > 16 or not isinstance(v, Vec):
      raise Mix()
    for i in range(n):
      e, m = self.bind(t, env, i)
      if self.boolean(self.ev(t.a[2], e, m)):
        c = self.ev(t.a[3], e, m)
        x = self.ev(t.a[4], e, m)
        v = self.lift(lambda c, x, y: x if self.boolean(c) else y, c, x, v)
    return v

  # text
  def o_concat(self, t, env, memo):
    return ''.join(self.text(self.ev(x, env, memo)) for x in t.a)

  def o_join(self, t, env, memo):
    s, l = [self.ev(x, env, memo) for x in t.a]
    if isinstance(l, Seq) and isinstance(s, str):
      return s.join(self.text(x) for x in l.v)
    raise Mix()

  def o_fmt(self, t, env, memo):
    v, s = [self.ev(x, env, memo) for x in t.a]
    if s == '':
      if isinstance(v, (str, bool)) or v is None:
        return str(v)
      if isinstance(v, D) and v.is_finite() and v == v.to_integral_value() \
          and tm.kind(t.a[0]) == 'int':
        return str(int(v))
    if isinstance(v, D) and v.is_finite() and isinstance(s, str) and s:
      try:
        if s[-1] in 'eEfFgG%':
          return format(float(v), s)
        if s[-1] == 'd' or s == ',':
          return format(int(v), s)
      except (ValueError, OverflowError):
        pass
    return '{' + H(v) + ':' + self.text(s) + '}'

  # functions
  def o_lam(self, t, env, memo):
    k, n = t.d
    e = dict(env)
    for i in range(n):
      e[k + i] = Op(dig('lamarg', self.depth(env), i))
    e['lam'] = self.depth(env) + 1
    try:
      h = H(self.ev(t.a[0], e, {}))
    except Undef:
      h = 'undef'
    return Op(dig('lam', n, h))

  def depth(self, env):
    return env.get('lam', 0)

  def o_call(self, t, env, memo):
    n = t.d[0]
    f = CALLS.get(n)
    if f is None:
      return self.opaque(t, env, memo)
    kw = t.d[1] if len(t.d) > 1 else ()
    if n == '.astype' and self.tables and len(t.a) == 2 and not kw and \
        t.a[1].op == 'call' and t.a[1].d[0] == '.dtype':
      # back to the type that it had
      v = self.ev(t.a[0], env, memo)
      if isinstance(v, Vec):
        return v
    vs = [self.ev(x, env, memo) for x in t.a]
    pos, kws = vs[:len(vs) - len(kw)], dict(zip(kw, vs[len(vs) - len(kw):]))
    return f(self, t, pos, kws)

  o_red = o_call

  # ------------------------------------------------------------ exactness
  def exact(self, t):
    """Does the operation at t keep its meaning at this point?"""
    if t.id in self.approx:
      return False
    if t.op == 'call':
      return t.d[0] in EXACT_CALLS
    return t.op in EXACT or t.op == 'lib' and t.d in TYPES


class Mix(Exception):
  """The operation is only congruent for these arguments."""


class Late(Exception):
  """Out of time."""


BAD = Op('bad')


def _ident(P, t, a, k):
  if k or len(a) != 1:
    raise Mix()
  return a[0]


def _values(P, t, a, k):
  v = _ident(P, t, a, k)
  if isinstance(v, Vec) and P.tables:
    return pos(v.v)
  return v


def _abs(P, t, a, k):
  return P.lift(lambda x: abs(P.num(x)), a[0])


def _log(P, t, a, k):
  def f(x):
    x = P.num(x)
    if x <= 0:
      raise Undef('log')
    return x.ln()
  if k or len(a) != 1:
    raise Mix()
  return P.lift(f, a[0])


def _minmax(P, t, a, k):
  if k or len(a) < 1:
    raise Mix()
  f = min if t.d[0] == 'min' else max
  if len(a) == 1 and isinstance(a[0], (Vec, Seq)):
    vs = a[0].v
    if not vs:
      raise Undef('empty')
  elif len(a) > 1 and not any(isinstance(x, (Vec, Seq, Frame)) for x in a):
    vs = a
  else:
    raise Mix()
  return f(P.num(x) for x in vs)


def _nunique(P, t, a, k):
  if k or len(a) != 1 or not isinstance(a[0], (Vec, Seq)):
    raise Mix()
  vs = [x for x in a[0].v if not (isinstance(x, D) and x.is_nan())]
  if not (all(isinstance(x, Op) for x in vs) or
          all(isinstance(x, (D, bool)) for x in vs) or
          all(isinstance(x, (str, Op)) for x in vs)):
    raise Mix()
  out = []
  for x in vs:
    if not any(P.veq(x, y) for y in out):
      out.append(x)
  return D(len(out))


def _get(P, t, a, k):
  if isinstance(a[0], Vec) and a[0].dom in P.labels:
    lb = P.labels[a[0].dom][1]
    for i, x in zip(a[0].sel, a[0].v):
      if len(lb[i]) == 1 and P.veq(lb[i][0], a[1]):
        return x
    return a[2] if len(a) > 2 else k.get('default')
  if isinstance(a[0], Vec):
    # a labelled series
    for i, x in zip(a[0].sel, a[0].v):
      if P.veq(P.draw(dig(a[0].dom, 'label', i), 'len'), a[1]):
        return x
    return a[2] if len(a) > 2 else k.get('default')
  if isinstance(a[0], Dct):
    for x, y in a[0].v:
      if P.veq(x, a[1]):
        return y
    return a[2] if len(a) > 2 else k.get('default')
  raise Mix()


def _str(name):
  def f(P, t, a, k):
    if k or not all(isinstance(x, (str, Op)) or x is None and i for i, x in
                    enumerate(a)) or not a:
      raise Mix()
    s = [x if x is None else P.text(x) for x in a]
    if name in ('split', 'rsplit') and len(s) < 2:
      s.append(None)
    try:
      r = getattr(s[0], name)(*s[1:])
    except (ValueError, TypeError):
      raise Undef(name)
    return Seq('list', r) if isinstance(r, list) else r
  return f


def _round(P, t, a, k):
  if k or len(a) not in (1, 2) or not isinstance(a[0], (D, Op)):
    raise Mix()
  x = P.num(a[0])
  if not x.is_finite():
    raise Undef('round')
  if len(a) == 2:
    n = P.integer(a[1])
    if not -9 < n < 25:
      raise Mix()
    return x.quantize(D(1).scaleb(-n), decimal.ROUND_HALF_EVEN)
  return x.to_integral_value(decimal.ROUND_HALF_EVEN)


def _all(P, a, k):
  """Is this a permutation of all rows, which keep their labels?"""
  return len(a) == 1 and isinstance(a[0], (Frame, Vec)) and \
      isinstance(k.get('frac'), D) and k['frac'] == 1 and not (
          set(k) - {'frac', 'random_state'})


def _sample(P, t, a, k):
  # the permutations that change nothing and that reverse are two of them
  if _all(P, a, k):
    if P.tables and P.seed % 3 == 0:
      return tb.take(P, a[0], range(len(a[0].sel))[::-1])
    return a[0]
  if len(a) != 1 or set(k) - {'frac', 'n', 'random_state'} or \
      not P.tables or not isinstance(a[0], (Vec, Frame)):
    raise Mix()
  n = len(a[0].sel)
  if 'frac' in k:
    f = P.num(k['frac'])
    if not 0 <= f <= 1:
      raise Undef('fraction')
    m = int((f * n).to_integral_value(decimal.ROUND_HALF_EVEN))
  else:
    m = P.integer(k.get('n', D(1)))
    if not 0 <= m <= n:
      raise Undef('sample')
  return tb.take(P, a[0], range(m))


def _order(P, vs, ascending):
  """Positions in sorted order; only without ties."""
  xs = [P.face(x) for x in vs]
  if not all(isinstance(x, str) for x in xs):
    xs = [P.num(x) for x in vs]
    if any(x.is_nan() for x in xs):
      raise Mix()
  o = sorted(range(len(xs)), key=lambda i: xs[i], reverse=not ascending)
  if any(P.veq(xs[i], xs[j]) for i, j in zip(o, o[1:])):
    raise Mix()
  return o


def _rank(P, t, a, k):
  if len(a) != 1 or not isinstance(a[0], Vec) or \
      set(k) - {'ascending', 'method'}:
    raise Mix()
  up, how = k.get('ascending', True), k.get('method', 'average')
  if up not in (True, False) or how not in ('first', 'min', 'max', 'average'):
    raise Mix()
  xs = [P.face(x) for x in a[0].v]
  if not all(isinstance(x, str) for x in xs):
    xs = [P.num(x) for x in a[0].v]
    if any(x.is_nan() for x in xs):
      raise Mix()
  o = sorted(range(len(xs)), key=lambda i: xs[i])
  if not up:
    # stable in both directions
    o = sorted(o, key=lambda i: xs[i], reverse=True)
  r = [None] * len(o)
  for n, i in enumerate(o):
    r[i] = D(n + 1)
  if how != 'first':
    f = {'min': min, 'max': max, 'average': lambda v: sum(v) / len(v)}[how]
    r = [f([r[j] for j in range(len(xs)) if xs[j] == xs[i]])
         for i in range(len(xs))]
  return Vec(a[0].dom, a[0].sel, r)


def _sort_values(P, t, a, k):
  x = a[0]
  by = a[1:] or ([k['by']] if 'by' in k else [])
  up = k.get('ascending', True)
  if set(k) - {'by', 'ascending', 'kind'} or up not in (True, False):
    raise Mix()
  if isinstance(x, Vec) and not by:
    o = _order(P, x.v, up)
    return Vec(x.dom, [x.sel[i] for i in o], [x.v[i] for i in o])
  if not isinstance(x, Frame) or len(by) != 1:
    raise Mix()
  by = by[0]
  if isinstance(by, Seq) and len(by.v) == 1:
    by = by.v[0]
  if not isinstance(by, (str, Op)):
    raise Mix()
  key = P.column(x, by)
  o = _order(P, key.v, up)
  return tb.take(P, x, o)


def _np_sort(P, t, a, k):
  if k or len(a) != 1 or not isinstance(a[0], Vec):
    raise Mix()
  xs = sorted(P.num(x) for x in a[0].v)
  if any(x.is_nan() for x in xs):
    raise Mix()
  return Vec(dig('sorted', a[0].dom), range(len(xs)), xs)


def _astype(P, t, a, k):
  if k or len(a) != 2 or t.a[1].op != 'lib' or t.a[1].d not in (
      'int', 'float', 'str'):
    raise Mix()
  n = t.a[1].d

  def f(x):
    if n == 'str':
      if not isinstance(x, (str, Op)):
        raise Mix()
      return P.text(x)
    if isinstance(x, Op) and x.c and P.tables:
      x = P.face(x)
    if isinstance(x, (str, Op)) or x is None:
      raise Mix()
    x = P.num(x)
    if n == 'int':
      if not x.is_finite():
        raise Undef('int')
      y = x.to_integral_value(decimal.ROUND_HALF_EVEN)
      if abs(x - y) < EPS:
        return y
      return x.to_integral_value(decimal.ROUND_DOWN)
    return x
  return P.lift(f, a[0])


def _strs(name):
  def f(P, t, a, k):
    if k or len(a) != 1 or not isinstance(a[0], Vec) or not all(
        isinstance(x, (str, Op)) for x in a[0].v):
      raise Mix()
    return Vec(a[0].dom, a[0].sel, [getattr(P.text(x), name)()
                                    for x in a[0].v])
  return f


def _cumsum(P, t, a, k):
  if k or len(a) != 1 or not isinstance(a[0], Vec):
    raise Mix()
  n, out = D(0), []
  for x in a[0].v:
    n += P.num(x)
    out.append(n)
  return Vec(a[0].dom, a[0].sel, out)


def _matrix(P, x):
  if isinstance(x, Seq) and x.k in ('list', 'tuple') and x.v and all(
      isinstance(y, Vec) and y.dom == POS for y in x.v):
    if len({len(y.v) for y in x.v}) > 1:
      raise Undef('shapes')
    return Mat(len(x.v[0].v), [y.v for y in x.v])
  if isinstance(x, Vec) and x.dom == POS:
    return Mat(len(x.v), [x.v])
  if isinstance(x, Mat):
    return x
  raise Mix()


def _plain(f):
  """A function of one array and nothing else."""
  def g(P, t, a, k):
    if k or len(a) != 1:
      raise Mix()
    return f(P, a[0])
  return g


def _shape(P, x):
  if isinstance(x, Mat):
    return Seq('tuple', [D(len(x.v)), D(x.n)])
  if isinstance(x, Vec):
    return Seq('tuple', [D(len(x.v))])
  if isinstance(x, Frame):
    raise Mix()
  raise Mix()


def _T(P, x):
  if not isinstance(x, Mat):
    raise Mix()
  return Mat(len(x.v), [[r[j] for r in x.v] for j in range(x.n)])


def _diag(P, x):
  if not isinstance(x, Mat):
    raise Mix()
  return pos(x.v[i][i] for i in range(min(x.n, len(x.v))))


def _flat(P, x):
  if isinstance(x, Mat):
    return pos(y for r in x.v for y in r)
  if isinstance(x, Vec) and x.dom == POS:
    return x
  raise Mix()


def _array(P, x):
  if isinstance(x, (Mat, Vec)):
    return x
  if isinstance(x, Seq) and x.k in ('list', 'tuple'):
    if any(isinstance(y, (Vec, Seq)) for y in x.v):
      return _matrix(P, x)
    return pos(x.v)
  raise Mix()


def _cov(P, x):
  if not isinstance(x, Mat) or x.n < 2:
    raise Undef('cov') if isinstance(x, Mat) else Mix()
  rows = [[P.num(y) for y in r] for r in x.v]
  rows = [[y - sum(r) / len(r) for y in r] for r in rows]
  return Mat(len(rows), [[sum(y * z for y, z in zip(a, b)) / (x.n - 1)
                          for b in rows] for a in rows])


def _reshape(P, t, a, k):
  ds = list(a[1:]) + list(k.values())
  if len(ds) == 1 and isinstance(ds[0], Seq):
    ds = list(ds[0].v)
  if not all(isinstance(y, D) for y in ds):
    raise Mix()
  if isinstance(a[0], (D, Op)) and t.d[0] == 'np.reshape':
    vs = [a[0]]
  else:
    vs = _flat(P, a[0]).v
  ds = [int(y) for y in ds]
  if ds == [-1]:
    return pos(vs)
  if len(ds) != 2:
    raise Mix()
  m, n = ds
  if m == -1:
    m = len(vs) // n if n > 0 else 0
  if n == -1:
    n = len(vs) // m if m > 0 else 0
  if m * n != len(vs):
    raise Undef('shapes')
  return Mat(n, [vs[i * n:(i + 1) * n] for i in range(m)])


def _argsort(P, t, a, k):
  if k or len(a) != 1 or not isinstance(a[0], Vec) or a[0].dom != POS:
    raise Mix()
  return pos(D(i) for i in _order(P, a[0].v, True))


def _argext(P, t, a, k):
  if k or len(a) != 1 or not isinstance(a[0], Vec):
    raise Mix()
  xs = [P.num(x) for x in a[0].v]
  if not xs or any(x.is_nan() for x in xs):
    raise Undef('empty')
  return D(xs.index((min if t.d[0] == 'np.argmin' else max)(xs)))


def _along(name):
  """A reduction along one axis of an array."""
  def red(P, xs):
    xs = [P.num(x) for x in xs]
    if name == 'sum':
      return sum(xs, D(0))
    if not xs or any(x.is_nan() for x in xs):
      raise Undef('empty')
    if name == 'mean':
      return sum(xs, D(0)) / len(xs)
    return (min if name == 'min' else max)(xs)

  def f(P, t, a, k):
    if len(a) != 1 or set(k) - {'axis'}:
      raise Mix()
    ax = k.get('axis')
    x = a[0]
    if isinstance(x, Vec) and x.dom == POS and ax in (None, D(0), D(-1)):
      return red(P, x.v)
    if not isinstance(x, Mat):
      raise Mix()
    if ax is None:
      return red(P, [y for r in x.v for y in r])
    if ax in (D(1), D(-1)):
      return pos(red(P, r) for r in x.v)
    if ax == 0:
      return pos(red(P, [r[j] for r in x.v]) for j in range(x.n))
    raise Mix()
  return f


def _first(f, g):
  """The first model that applies."""
  def h(P, t, a, k):
    try:
      return f(P, t, a, k)
    except Mix:
      return g(P, t, a, k)
  return h


CALLS = {
    'np.atleast_2d': _plain(_matrix), 'np.vstack_': _plain(_matrix),
    'np.vstack': _plain(_matrix), '.shape': _plain(_shape), '.T': _plain(_T),
    'np.diag': _plain(_diag), '.flatten': _plain(_flat),
    '.ravel': _plain(_flat), 'np.ravel': _plain(_flat),
    'np.array': _plain(_array), 'np.asarray': _plain(_array),
    'np.cov': _plain(_cov), 'np.reshape': _reshape, '.reshape': _reshape,
    'np.argsort': _argsort, 'np.argmin': _argext, 'np.argmax': _argext,
    '.sum': _along('sum'), '.mean': _along('mean'), '.min': _along('min'),
    '.max': _along('max'),
    '.sample': _sample, '.rank': _rank, '.sort_values': _sort_values,
    'np.sort': _np_sort, '.astype': _astype, '.str.lower': _strs('lower'),
    '.str.upper': _strs('upper'), '.str.strip': _strs('strip'),
    '.str.lstrip': _strs('lstrip'), '.str.rstrip': _strs('rstrip'),
    '.cumsum': _cumsum, 'np.cumsum': _cumsum,
    '.values': _values, '.to_numpy': _values, 'np.abs': _abs, 'abs': _abs,
    'log': _log, 'min': _first(_minmax, _along('min')),
    'max': _first(_minmax, _along('max')), '.get': _get,
    '.title': _str('title'), '.capitalize': _str('capitalize'),
    '.removeprefix': _str('removeprefix'),
    '.removesuffix': _str('removesuffix'), '.replace': _str('replace'),
    '.split': _str('split'), '.rsplit': _str('rsplit'),
    '.isdigit': _str('isdigit'), '.swapcase': _str('swapcase'),
    '.isspace': _str('isspace'),
    '.casefold': _str('casefold'), '.strip': _str('strip'), '.lower': _str('lower'), '.upper': _str('upper'),
    '.startswith': _str('startswith'), '.endswith': _str('endswith'),
    '.lstrip': _str('lstrip'), '.rstrip': _str('rstrip'), 'round': _round,
    'nunique': _nunique,
}
from sa import tables as tb   # noqa: E402
CALLS.update({k: f if k not in CALLS else _first(CALLS[k], f)
              for k, f in tb.CALLS.items()})
EXACT_CALLS |= set(tb.CALLS)
EXACT |= {'ixslice', 'setdiff', 'cols', 'gagg', 'isnan', 'columns', 'mapcols', 'owncol'}


def _design(x):
  """What the constructor of a design guarantees."""
  def a(n):
    return tm.attr(x, n)
  top, bottom = a('pre_trim_top_percentile'), a('pre_trim_bottom_percentile')
  w, r = a('crossover_washout_weeks'), a('runtime_weeks')
  x2 = a('is_crossover')
  return [
      tm.lt(num(0), r), tm.lt(add(top, bottom), num(1)),
      tm.lt(a('post_trim_percentile'), num(tm.F(1, 2))),
      tm.lt(num(50), a('n_items_after_post_trim')),
      tm.or_(tm.lt(num(0), a('pretest_weeks')), eq0(top)),
      tm.or_(tm.lt(num(0), a('pretest_weeks')), eq0(bottom)),
      tm.or_(not_(x2), tm.not_(isnone(w))),
      tm.or_(not_(x2), tm.le(num(0), w)),
      tm.or_(not_(x2), tm.lt(mul(num(2), w), r)),
      tm.or_(not_(x2), eq0(mod(r, num(2)))),
      tm.le(a('n_items_after_post_trim'), a('n_items_after_pre_trim')),
      tm.le(a('n_items_after_pre_trim'), a('n_items_before_trimming')),
  ]


INVARIANTS = {'ExperimentDesign': _design}


def invariants(*ts):
  """What the constructors guarantee about the objects in the terms."""
  out, objs, attrs = [], [], set()
  for t in ts:
    for x in dag(t).values():
      if x.op in ('sym', 'attr') and not x.bvmax:
        k = tm.kind(x)
        if k and k.startswith('obj:') and k[4:] in INVARIANTS:
          objs.append(x)
      if x.op == 'attr':
        attrs.add(x.id)
  for x in dict.fromkeys(objs):
    for c in INVARIANTS[tm.kind(x)[4:]](x):
      # only between attributes that play a part
      if all(y.id in attrs or y.a[0] is not x
             for y in dag(c).values() if y.op == 'attr'):
        out.append(c)
  return [c for c in out if c is not tm.TRUE]


# ---------------------------------------------------------------- search
_OWN: dict = {}


def owning(t):
  """Does t refer to the column that is being replaced?"""
  r = _OWN.get(t.id)
  if r is None:
    r = _OWN[t.id] = t.op == 'owncol' or any(owning(x) for x in t.a)
  return r


def dag(t, out=None):
  out = {} if out is None else out
  st = [t]
  while st:
    x = st.pop()
    if x.id not in out:
      out[x.id] = x
      st.extend(x.a)
  return out


# how long points are searched for (a factor), and with which seed
EFFORT = [1, 1]


class Search:
  """Looks for a point at which two terms differ."""

  def __init__(self, a, b, ctx, assume, trials=24, hints=()):
    seconds, seed = 8.0 * EFFORT[0], EFFORT[1]
    self.a, self.b = a, b
    self.hints = list(hints)
    self.tried = 0
    self.cons = [(t, v) for t, v in ctx.lits] + [(t, True) for t in assume]
    self.trials, self.seconds, self.seed = trials, seconds, seed
    nodes = {}
    for t in [a, b] + [t for t, _ in self.cons]:
      dag(t, nodes)
    self.size = len(nodes)
    self.trials = max(60, min(240, 12000 // self.size)) * EFFORT[0]
    cs, strs, eqs = set(), {}, {}
    for x in nodes.values():
      if x.op == 'num' and abs(x.d) <= 1000:
        cs.add(x.d)
      if x.op in ('poly',):
        for m, c in x.d:
          if m == () and abs(c) <= 1000:
            cs.update((c, -c))
      if x.op == 'str' and len(x.d) < 40:
        strs[x.d] = 1
      if x.op == 'sym' and tm.kind(x) == 'str' and x.d[0].endswith('_column'):
        strs['col_' + x.d[0]] = 1
      if x.op == 'eq':
        for y, z in (x.a, x.a[::-1]):
          if y.op == 'str' and z.op in ('sym', 'attr', 'getitem'):
            eqs[y.d] = 1
    self.consts = [D(c.numerator) / D(c.denominator) for c in sorted(cs)]
    self.strs, self.eqs = sorted(strs), sorted(eqs)
    self.numeric, self.keys = {}, {}
    for x in nodes.values():
      if x.op in ('col', 'setcol', 'in'):
        y = x.a[0 if x.op == 'in' else 1]
        if y.op == 'tuple' and not y.bvmax:
          self.keys[y.id] = y
      if x.op in ('poly', 'lt0', 'le0', 'eq0', 'isfinite', 'floor') or \
          x.op == 'call' and x.d[0] in ('min', 'max'):
        for y in x.a:
          while y.op in ('rows', 'call') and y.a and (
              y.op == 'rows' or y.d[0] in tuple(SAME_ROWS)):
            y = y.a[0]
          if y.op in ('col', 'gagg') and not y.a[-1].bvmax:
            self.numeric[y.a[-1].id] = y.a[-1]
    # conditions on one side only: aim at their boundaries
    da, db = dag(a), dag(b)
    self.bounds = [x for k, x in sorted(nodes.items())
                   if x.op in ('lt0', 'le0', 'eq0') and not x.bvmax and
                   (k in da) != (k in db)]

    # conditions on rows
    self.rowwise = [x for k, x in sorted(nodes.items())
                    if x.op in ('lt0', 'le0', 'eq0') and not x.bvmax and
                    any(y.op in ('col', 'rows', 'where') for y in
                        dag(x.a[0]).values())]

  def focus(self):
    """What has to hold for the operands that differ to matter."""
    out = []
    a, b = self.a, self.b
    for _ in range(6):
      if a.op == b.op == 'not':
        a, b = a.a[0], b.a[0]
        continue
      if a.op != b.op or a.op not in ('and', 'or'):
        break
      both = {x.id for x in a.a} & {x.id for x in b.a}
      if not both:
        break
      out += [(x, a.op == 'and') for x in a.a if x.id in both]
      l = [x for x in a.a if x.id not in both]
      r = [x for x in b.a if x.id not in both]
      if len(l) != 1 or len(r) != 1:
        break
      a, b = l[0], r[0]
    return out

  def points(self):
    focus = self.focus()
    end = time.process_time() + self.seconds
    for i in range(self.trials):
      if time.process_time() > end or i >= 16 and not self.tried:
        return
      P = Point(self.seed * 1000 + i, self.consts, self.strs, self.eqs)
      P.deadline = end
      P.tables = i % 10 < 4 if i > 30 else i < 16
      P.keys = tuple(self.keys.values())
      P.numeric = tuple(self.numeric.values())
      try:
        if not self.repair(P, None):
          continue
        yield P
        if focus and self.repair(P, None, focus):
          yield P
        if self.hints and i % 2 == 0:
          # where the comparison of the terms themselves found no match
          h = self.hints[(i // 2) % len(self.hints)]
          if self.repair(P, None, h):
            yield P
        if i % 2 and tm.kind(self.a) == tm.kind(self.b) == 'bool':
          v = P.rng.random() < .5
          if self.repair(P, None, focus + [(self.a, v), (self.b, not v)]):
            yield P
        if self.rowwise and i % 3 == 2 and self.spread(P):
          yield P
        if self.bounds and i % 2:
          t = self.bounds[(i // 2) % len(self.bounds)]
          if self.aim(P, t) and self.repair(P, t):
            yield P
      except Late:
        return

  def spread(self, P):
    """Move some rows to where the conditions on them change."""
    for _ in range(3):
      t = P.rng.choice(self.rowwise)
      try:
        if not isinstance(P.value(t), Vec):
          continue
      except (Undef, Mix):
        continue
      self.aim(P, t, P.rng.choice((D(0), D(0), D(-1), D(1))))
    return self.repair(P, None)

  def holds(self, P, t, v):
    try:
      x = P.value(t)
      if isinstance(x, Vec):
        return all(P.boolean(y) is v for y in x.v)
      return P.boolean(x) is v
    except Undef:
      return False

  def repair(self, P, keep, more=()):
    """Change inputs until the assumptions hold."""
    cons = self.cons + list(more)
    kept = None
    if keep is not None:
      kept = P.touched_by = self.support(P, keep)
    for _ in range(14):
      bad = [(t, v) for t, v in cons if not self.holds(P, t, v)]
      if not bad:
        return True
      for t, v in bad:
        if not self.holds(P, t, v) and not self.make(P, t, v, kept or set(),
                                                     keep is None):
          return False
    return all(self.holds(P, t, v) for t, v in cons)

  def make(self, P, t, v, kept, aim):
    """Change inputs until t has the value v; False if nothing can."""
    if t.op == 'not':
      return self.make(P, t.a[0], not v, kept, aim)
    if t.op in ('and', 'or') and not t.bvmax:
      if (t.op == 'and') is v:
        for x in t.a:
          if not self.holds(P, x, v) and not self.make(P, x, v, kept, aim):
            return False
        return True
      xs = list(t.a)
      P.rng.shuffle(xs)
      r = False
      for x in xs[:3]:
        if self.make(P, x, v, kept, aim):
          r = True
          if self.holds(P, t, v):
            return True
      return r
    hs = sorted(self.support(P, t) - kept)
    if not hs:
      return False
    if aim and t.op in ('eq0', 'lt0', 'le0') and (v or t.op != 'eq0'):
      if t.op == 'eq0' or t.op == 'lt0' and not v and P.rng.random() < .2:
        goal = D(0)
      else:
        goal = P.rng.choice((D(1), D(1), D(3), D(20), D(1) / D(100), D(1000)))
        goal = -goal if v else goal
      if self.aim(P, t, goal, kept) and self.holds(P, t, v):
        return True
    if t.op in ('in', 'isnone', 'truthy', 'eq', 'sym', 'attr', 'existsx',
                'any', 'isinstance', 'eq0'):
      # one change of a flag may be enough
      fs = [h for h in hs if P.kinds[h][0] in ('bool', 'member', 'column')]
      P.rng.shuffle(fs)
      for h in fs[:12]:
        old = P.leaf[h]
        P.leaf[h] = not old
        P.reset()
        if self.holds(P, t, v):
          return True
        P.leaf[h] = old
        P.reset()
    for _k in range(10):
      h = P.rng.choice(hs)
      old = P.leaf[h]
      P.redraw(h)
      if self.holds(P, t, v):
        break
      if _k % 3 != 2:
        P.leaf[h] = old
        P.reset()
    return True

  def support(self, P, t):
    P.reset()
    P.touched = set()
    try:
      P.value(t)
    except Undef:
      pass
    r = P.touched
    P.touched = None
    return r

  def aim(self, P, t, goal=D(0), kept=()):
    """Move an input so that the argument of t becomes `goal`."""
    p = t.a[0]
    hs = [h for h in sorted(self.support(P, p))
          if isinstance(P.leaf.get(h), D) and h not in kept]
    P.rng.shuffle(hs)
    row = P.rng.random()

    def value():
      v = P.value(p)
      if isinstance(v, Vec) and v.v:
        v = v.v[int(row * len(v.v))]
      return P.num(v)
    for h in hs[:6]:
      old = P.leaf[h]
      try:
        P.reset()
        v0 = value()
        P.leaf[h] = old + 1
        P.reset()
        v1 = value()
        if v1 != v0:
          new = old + (goal - v0) / (v1 - v0)
          if goal and P.kinds[h][0] in ('int', 'len'):
            new = new.to_integral_value(
                decimal.ROUND_CEILING if (goal > 0) == (v1 > v0) else
                decimal.ROUND_FLOOR)
          if P.kinds[h][0] == 'len' and new > 40:
            P.leaf[h] = old
            continue
          if P.kinds[h][0] in ('int', 'len') and \
              new != new.to_integral_value():
            P.leaf[h] = old
            continue
          if P.kinds[h][0] == 'len' and new < 0:
            P.leaf[h] = old
            continue
          P.leaf[h] = new
          P.reset()
          if goal or abs(value()) < EPS:
            return True
      except (Undef, Mix, decimal.DecimalException):
        pass
      P.leaf[h] = old
      P.reset()
    return False

  def differing(self):
    """Points at which both are defined and the values differ."""
    self.tried = 0
    for P in self.points():
      try:
        x = P.value(self.a)
        y = P.value(self.b)
      except Undef:
        continue
      except Late:
        return
      self.tried += 1
      if not same(x, y):
        yield P, x, y
