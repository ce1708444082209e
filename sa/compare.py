"""Decides whether two canonical terms denote the same behaviour.

The comparison is a congruence closure style descent with case splitting on
the (syntactic) branch conditions.  It answers

  None                    the terms are equal,
  Diff(definite=True)     they differ, and the difference is attributable to a
                          construct whose meaning is fully modelled,
  Diff(definite=False)    not decided: never reported as a violation.
"""
from __future__ import annotations

from fractions import Fraction as F
import itertools

from sa.terms import *   # noqa: F401,F403
from sa import terms as tm
from sa import fingerprint as fg

BINDERS = {'existsx': 2, 'fmap': 3, 'dmap': 4, 'isum': 2, 'sumx': 2,
           'first': 3, 'foreach': 3, 'mapcols': 5, 'maskfill': 5}

# element-wise operations: a mask may be decided point by point below them
ELEMENTWISE = {'poly', 'where', 'and', 'or', 'not', 'lt0', 'eq0', 'le0', 'eq',
               'floor', 'pow', 'mod', 'isnan', 'isfinite', 'in', 'ite'}
EW_CALLS = {'np.abs', 'np.exp', 'np.log', '.astype', 'np.log1p', 'np.sign',
            'np.isclose'}

# operations that are never equal to one another on the same operand
DISTINCT_CALLS = [
    {'sum', 'nunique', 'median', 'min', 'max', 'std', 'var', 'len', 'mean',
     'np.median', '.median', 'np.min', 'np.max', '.min', '.max', '.first',
     '.last', '.count', 'count', '.prod', 'quantile', '.mode'},
    {'tcdf', 'tppf', 'tsf', 'ncdf', 'nppf', 'nsf'},
    {'any', 'all'},
    {'stats.t.cdf', 'stats.t.ppf', 'stats.t.sf', 'stats.norm.cdf',
     'stats.norm.ppf', 'stats.norm.sf'},
    {'stats.kstest', 'stats.ttest_1samp', 'stats.binomtest'},
    {'.cumsum', '.cumprod', '.cummax', '.cummin'},
    {'hashlib.md5', 'hashlib.sha1', 'hashlib.sha256', 'hashlib.sha512',
     'hashlib.blake2b', 'hash', 'zlib.crc32'},
    {'.head', '.tail'}, {'np.floor', 'np.ceil', 'np.round', 'round', 'floor'},
]
_GROUP: dict = {}
for _i, _g in enumerate(DISTINCT_CALLS):
  for _n in _g:
    _GROUP.setdefault(_n, set()).add(_i)

# library calls whose arguments commute
UNORDERED_SEQ = {'cols_keys'}


# made of independent parts
PRODUCTS = {'obj', 'dict', 'tuple', 'setattr', 'kv', 'api'}
SCALAR = {'int', 'num', 'str', 'bool', 'date'}


class Diff:
  __slots__ = ('definite', 'a', 'b', 'lits', 'why', 'under', 'calls')

  def __init__(self, definite, a, b, lits=(), why='', under=frozenset(),
               calls=()):
    self.definite, self.a, self.b = definite, a, b
    self.lits, self.why = lits, why
    self.under = under      # public functions the difference is an input of
    # the differing calls around it, innermost first, each with the value
    # made from its result
    self.calls = calls

  def at(self, why):
    return Diff(self.definite, self.a, self.b, self.lits, why, self.under,
                self.calls)

  def inside(self, a, b):
    return Diff(self.definite, self.a, self.b, self.lits, self.why,
                self.under | {a.d[0]}, self.calls + ((a, b, a, b),))

  def taken(self, a, b):
    return Diff(self.definite, self.a, self.b, self.lits, self.why,
                self.under, self.calls[:-1] + (
                    self.calls[-1][:2] + (a, b),))

  def __repr__(self):
    return (f'{"DEFINITE" if self.definite else "undecided"} {self.why}: '
            f'{show(self.a)[:300]}  ///  {show(self.b)[:300]} '
            f'under {[(show(t)[:60], v) for t, v in self.lits]}')


_SRC: dict = {}


def sources(t):
  """What in t nothing else in the library can tell: hashes, draws, tests
  of a distribution, results of public functions."""
  r = _SRC.get(t.id)
  if r is None:
    s = set()
    if t.op == 'draw' or t.op == 'call' and (
        t.d[0].startswith(('hashlib.', 'stats.')) or
        t.d[0] in ('.sample', '.hexdigest', '.digest')):
      s.add(t.d[0] if t.op == 'call' else 'draw')
    elif t.op in ('api', 'apiref'):
      s.add('api ' + (t.d[0] if t.op == 'api' else t.d))
    for x in t.a:
      s |= sources(x)
    r = _SRC[t.id] = frozenset(s)
  return r


_FB: dict = {}


def free_bvs(t):
  """Bound-variable indices that occur free in t."""
  if not t.bvmax:
    return frozenset()
  r = _FB.get(t.id)
  if r is not None:
    return r
  if t.op == 'bv':
    r = frozenset((t.d,))
  else:
    s = set()
    for x in t.a:
      s |= free_bvs(x)
    if t.op in BINDERS:
      s.discard(t.d)
    elif t.op == 'lam':
      k, n = t.d
      s -= set(range(k, k + n))
    elif t.op == 'foldv':
      k, n, m = t.d
      s -= set(range(k, k + n + m))
    r = frozenset(s)
  _FB[t.id] = r
  return r


_FR: dict = {}


def has_fresh(t):
  r = _FR.get(t.id)
  if r is None:
    r = t.op == 'fresh' or any(has_fresh(x) for x in t.a)
    _FR[t.id] = r
  return r


def repl(t, m, memo=None):
  """Replace whole sub-terms (ids in m)."""
  if memo is None:
    memo = {}
  r = m.get(t.id)
  if r is not None:
    return r
  r = memo.get(t.id)
  if r is not None:
    return r
  if not t.a:
    return t
  if t.op == 'poly':
    new = {x: repl(x, m, memo) for x in t.a}
    r = t if all(new[x] is x for x in new) else poly_map(t, new)
  else:
    args = tuple(repl(x, m, memo) for x in t.a)
    r = t if all(x is y for x, y in zip(args, t.a)) else rebuild(
        t.op, args, t.d, t)
  memo[t.id] = r
  return r


def bool_atoms(t, out=None):
  """Atoms of the boolean structure of t, in order."""
  if out is None:
    out = {}
  if t.op in ('and', 'or', 'not'):
    for x in t.a:
      bool_atoms(x, out)
  elif t.op in ('ite', 'where') and kind(t) == 'bool':
    for x in t.a:
      bool_atoms(x, out)
  elif t.op != 'bool':
    out[t.id] = t
  return out


_WT: dict = {}


def weight(t):
  """Size as a tree, large for values that are not inputs."""
  r = _WT.get(t.id)
  if r is None:
    r = 100 if t.op in ('api', 'call', 'draw') else 1
    r = min(r + sum(weight(x) for x in t.a), 1000)
    _WT[t.id] = r
  return r


_IC: dict = {}


def ite_conds(t):
  """Ids -> closed conditions of the ites below t (not under binders)."""
  r = _IC.get(t.id)
  if r is not None:
    return r
  out = {}
  if t.op == 'ite':
    for k, x in bool_atoms(t.a[0]).items():
      if not free_bvs(x):
        out[k] = x
  if t.op in ('gseg', 'gkv') and not free_bvs(t.a[0]):
    for k, x in bool_atoms(t.a[0]).items():
      out[k] = x
  for x in t.a:
    out.update(ite_conds(x))
  if len(out) > 200:
    out = dict(list(out.items())[:200])
  _IC[t.id] = out
  return out


def special(t, P, lits):
  """t at the point P: the branches that are not taken are dropped."""
  memo = {}

  def go(x):
    r = memo.get(x.id)
    if r is not None:
      return r
    r = x
    if x.op == 'ite' and not free_bvs(x.a[0]):
      try:
        c = P.value(x.a[0])
        if isinstance(c, (bool, fg.D, str, fg.Seq, fg.Dct)) or c is None:
          v = P.boolean(c)
          lits[x.a[0].id] = (x.a[0], v)
          r = go(x.a[1] if v else x.a[2])
          memo[x.id] = r
          return r
      except (fg.Undef, fg.Mix):
        pass
    if x.a:
      if x.op == 'poly':
        new = {y: go(y) for y in x.a}
        r = x if all(new[y] is y for y in new) else poly_map(x, new)
      else:
        args = tuple(go(y) for y in x.a)
        r = x if all(y is z for y, z in zip(args, x.a)) else rebuild(
            x.op, args, x.d, x)
    memo[x.id] = r
    return r
  return go(t)


def unrolled(t, P, lits, most=4):
  """special(t), with the loops that run a few times at P written out.

  Returns the term and the number of loops written out."""
  memo, count = {}, {}
  done = 0

  def decide(g):
    c = P.value(g)
    if not (isinstance(c, (bool, fg.D, str, fg.Seq, fg.Dct)) or c is None):
      raise fg.Mix()
    v = P.boolean(c)
    lits[g.id] = g, v
    return v

  def times(n):
    c = P.value(n)
    if not isinstance(c, fg.D) or not c.is_finite() or c != int(c) or \
        int(c) > most:
      raise fg.Mix()
    if not tm.is_const(n):
      count[n.id] = max(int(c), 0)
    return max(int(c), 0)

  def loop(x):
    nonlocal done
    r = None
    if x.op == 'fmap':
      r = tm.lst()
      for i in range(times(x.a[0])):
        g, b = tm.open_(x.d, tm.num(i), *x.a[1:])
        if decide(g):
          r = tm.lconcat(r, go(b))
    elif x.op == 'dmap':
      kvs, ks = [], []
      for i in range(times(x.a[0])):
        g, k, v = tm.open_(x.d, tm.num(i), *x.a[1:])
        if decide(g):
          if any(fg.same(P.value(k), y) for y in ks):
            return None
          ks.append(P.value(k))
          kvs.append(raw('kv', (go(k), go(v))))
      r = rebuild('dict', tuple(kvs), None, x)
    elif x.op == 'nth' and x.a[0].op == 'foldv':
      f = x.a[0]
      k, m, lv = f.d
      st = [go(y) for y in f.a[:m]]
      for ix in itertools.product(*[range(times(n)) for n in f.a[m:m + lv]]):
        body = list(f.a[m + lv:])
        for i, y in enumerate(st + [tm.num(j) for j in ix]):
          body = tm.open_(k + i, y, *body)
        if decide(body[m]):
          stop = decide(body[m + 1])
          st = [go(y) for y in body[:m]]
          if stop:
            if lv > 1:
              return None
            break
      r = st[x.d]
    if r is not None:
      done += 1
    return r

  def go(x):
    r = memo.get(x.id)
    if r is not None:
      return r
    r = x
    if not free_bvs(x):
      try:
        if x.op == 'ite':
          r = go(x.a[1] if decide(x.a[0]) else x.a[2])
          memo[x.id] = r
          return r
        if x.op in ('fmap', 'dmap', 'nth'):
          r = loop(x)
          if r is not None:
            memo[x.id] = r
            return r
          r = x
      except (fg.Undef, fg.Mix):
        pass
    r = children(x, go)
    memo[x.id] = r
    return r

  def fixed(x):
    """The numbers of repetitions are those at P."""
    r = seen.get(x.id)
    if r is None:
      n = count.get(x.id)
      r = seen[x.id] = tm.num(n) if n is not None else children(x, fixed)
    return r
  seen = {}
  t = go(t)
  return fixed(t), done


def children(x, go):
  if not x.a:
    return x
  if x.op == 'poly':
    new = {y: go(y) for y in x.a}
    return x if all(new[y] is y for y in new) else poly_map(x, new)
  args = tuple(go(y) for y in x.a)
  return x if all(y is z for y, z in zip(args, x.a)) else rebuild(
      x.op, args, x.d, x)


def is_scalar_atom(t):
  return tm.scalar_bool(t) or t.op in ('truthy', 'isnone', 'isinstance')


_NOWHERE: dict = {}


class Cmp:

  def __init__(self, budget=6000, first=700, point=None):
    self.steps = budget
    self.budget, self.first = budget, first
    self.memo = {}
    self.assume = []      # constraints (boolean terms known to be true)
    self.point = point    # a generic point at which the terms differ
    self.cones = {}
    self.skeleton = False     # take a single differing part for the whole
    self.outer = set()        # the functions applied last to make a result
    self.one = False
    self.root = None

  # ---------------------------------------------------------------- contexts
  def tick(self):
    self.steps -= 1
    if self.steps < 0:
      raise Budget()
    tm.check_time()

  def part(self, a, b, ctx):
    """One of several independent parts, with a share of what is left."""
    if a is b:
      return None
    all_ = self.steps
    self.steps = share = min(all_, max(150, all_ // 2))
    try:
      return self.eqv(a, b, ctx, Ctx.empty())
    except Budget:
      if tm.exhausted():
        raise
      d = self.exact(a, b, ctx) if self.point is not None else None
      return d or Diff(False, a, b, ctx.lits, 'too many cases')
    finally:
      self.steps = all_ - (share - max(self.steps, 0))

  def guarded_part(self, g, x, y, ctx, share=False):
    """Values that are only there under the condition g."""
    if x is y:
      return None
    known = len(self.assume)
    if g is not TRUE:
      ctx = ctx.assume_lit(g, True)
      if ctx is None:
        return None
      if g.op in ('or', 'and'):
        self.assume.append(g)
    try:
      if not self.feasible(ctx):
        return None
      return self.part(x, y, ctx) if share else \
          self.eqv(x, y, ctx, Ctx.empty())
    finally:
      del self.assume[known:]

  def feasible(self, ctx):
    for c in self.assume:
      if ctx.simp(c) is FALSE:
        return False
    return not linear_conflict(ctx.lits) and not self.nowhere(ctx)

  def nowhere(self, ctx):
    """Something that exists, but that no element can be."""
    pos = [t for t, v in ctx.lits if v is True and t.op == 'existsx']
    if not pos:
      return False
    for t in pos:
      negs = [u for u, v in ctx.lits if v is False and u.op == 'existsx' and
              u.a[0] is t.a[0]]
      if not negs and not any(x.op == 'in' for x, _ in ctx.lits):
        continue
      v = fresh('b', 'int')
      body = tm.open_(t.d, v, t.a[1])[0]
      key = t.id, tuple(sorted(u.id for u in negs)), tuple(sorted(
          x.id for x, val in ctx.lits if val is False and x.op == 'in'))
      r = _NOWHERE.get(key)
      if r is None:
        body = tm.and_(body, *[tm.not_(tm.open_(u.d, v, u.a[1])[0])
                               for u in negs])
        r = _NOWHERE[key] = not self.satisfiable(
            tm.and_(body, *self.elsewhere(body, v, ctx)), [200])
      if r:
        return True
    return False

  def elsewhere(self, body, v, ctx):
    """The element at v is none of those known not to be in the collection."""
    out = []
    for x in bool_atoms(body).values():
      if x.op == 'eq':
        for e, y in (x.a, x.a[::-1]):
          if e.op == 'getitem' and e.a[1] is v and any(
              val is False and t.op == 'in' and t.a[0] is y and
              t.a[1] is (e.a[0].a[0] if e.a[0].op == 'keys' else e.a[0])
              for t, val in ctx.lits):
            out.append(tm.not_(x))
    return out

  def satisfiable(self, f, left, ctx=None):
    """Can f hold? Atoms are taken as independent unless they exclude one
    another syntactically; True if in doubt."""
    ctx = ctx or Ctx.empty()
    f = ctx.simp(f)
    ats = bool_atoms(f)
    left[0] -= 1
    if not ats or left[0] < 0:
      return f is not FALSE
    at = next(iter(ats.values()))
    for val in (True, False):
      c = ctx.assume_lit(at, val)
      if c is not None and not linear_conflict(c.lits) and \
          self.satisfiable(repl(f, {at.id: bconst(val)}), left, c):
        return True
    return False

  # ---------------------------------------------------------------- entry
  def equal(self, a, b, ctx=None):
    """None, or a Diff."""
    ctx = ctx or Ctx.empty()
    if a is b:
      return None
    self.hints = {}
    self.outer, todo = set(), [a, b]
    while todo:
      x = todo.pop()
      if x.op == 'ite':
        todo += x.a[1:]
      else:
        self.outer.add(x.d)
    d = self.attempt(a, b, ctx, self.first)
    if d is None or d.definite or self.point is not None:
      return d
    if d.why.endswith('too many cases'):
      # the same but for one part: without deciding the conditions first
      self.skeleton = True
      e = self.attempt(a, b, ctx, self.first)
      self.skeleton = False
      if e is None or e.definite:
        return e
      self.leaves = 96
      r = self.eager(a, b, ctx)
      if r is None or r.definite:
        return r
    r = self.other_draw(a, b, ctx) or self.refute(a, b, ctx)
    if r is not None:
      return r
    if d.why.endswith('too many cases'):
      d = self.attempt(a, b, ctx, self.budget)
    return d

  def other_draw(self, a, b, ctx):
    """The same but for one draw, of another distribution."""
    x, y = [{t.id: t for t in fg.dag(z).values() if t.op == 'draw'}
            for z in (a, b)]
    ux = [t for k, t in x.items() if k not in y]
    uy = [t for k, t in y.items() if k not in x]
    if len(ux) != 1 or len(uy) != 1:
      return None
    d = self.attempt(ux[0], uy[0], Ctx.empty(), self.first)
    if d is None or not d.definite:
      return None
    a2 = repl(a, {ux[0].id: uy[0]})
    if a2 is b or self.attempt(a2, b, ctx, self.first) is None:
      return Diff(True, ux[0], uy[0], ctx.lits, d.why or 'another draw')
    return None

  def attempt(self, a, b, ctx, steps):
    self.steps = steps
    try:
      return self.eqv(a, b, ctx, Ctx.empty())
    except Budget:
      if tm.exhausted():
        raise
      d = self.exact(a, b, ctx) if self.point is not None else None
      return d or Diff(False, a, b, ctx.lits, 'too many cases')

  def eager(self, a, b, ctx):
    """Decide the conditions on the inputs first, then compare what is left."""
    a, b = ctx.simp(a), ctx.simp(b)
    if a is b or a.op == 'never' or b.op == 'never':
      return None
    ca, cb = ite_conds(a), ite_conds(b)
    best = None
    for k in {**ca, **cb}:
      at = ca.get(k) or cb.get(k)
      n = weight(at)
      if n > 14 or has_fresh(at) or ctx.eval_atom(at) is not None:
        continue
      key = (n - (4 if k in ca and k in cb else 0), k)
      if best is None or key < best[0]:
        best = key, at
    if best is None:
      self.leaves -= 1
      if self.leaves < 0:
        return Diff(False, a, b, ctx.lits, 'too many cases')
      if self.void(ctx):
        return None
      return self.attempt(a, b, ctx, self.first)
    und = None
    for val in (True, False):
      c = ctx.assume_lit(best[1], val)
      if c is None or linear_conflict(c.lits) or not self.feasible(c) or \
          self.void(c):
        continue
      d = self.eager(a, b, c)
      if d is not None:
        if d.definite:
          return d
        und = und or d
        if self.leaves < 0:
          break
    return und

  # ------------------------------------------------------- generic points
  def refute(self, a, b, ctx):
    """A definite difference at a generic point, or None."""
    a, b = ctx.simp(a), ctx.simp(b)
    s = fg.Search(a, b, ctx, self.assume + fg.invariants(a, b),
                  hints=list(self.hints.values())[:16])
    n = 0
    for P, x, y in s.differing():
      n += 1
      P.deadline = None
      for again in (False, True):
        lits = {}
        if again:
          (a2, n1), (b2, n2) = unrolled(a, P, lits), unrolled(b, P, lits)
          if not n1 and not n2:
            break
        else:
          a2, b2 = special(a, P, lits), special(b, P, lits)
        C = Cmp(first=1500, point=P)
        C.root = a2.id, b2.id
        C.assume = []
        d = C.equal(a2, b2)
        if d is not None and d.definite:
          return Diff(True, d.a, d.b, tuple(lits.values())[-6:], d.why,
                      d.under, d.calls)
      if n >= (48 if s.size < 400 else 5) * fg.EFFORT[0]:
        break
    return None

  def agree(self, a, b):
    """Equal at the point (so no part of the difference)."""
    try:
      x = self.point.value(a)
    except fg.Undef:
      x = None, None
    except fg.Mix:
      return False
    try:
      y = self.point.value(b)
    except fg.Undef:
      y = None, None
    except fg.Mix:
      return False
    if isinstance(x, tuple) or isinstance(y, tuple):
      return isinstance(x, tuple) and isinstance(y, tuple)
    return fg.same(x, y)

  def exact(self, a, b, ctx):
    """All operations that take part in the difference keep their meaning."""
    P = self.point
    try:
      x, y = P.value(a), P.value(b)
    except (fg.Undef, fg.Mix):
      return None
    if fg.same(x, y) or isinstance(x, fg.Dct) and isinstance(y, fg.Dct) and \
        sorted(map(str, x.v)) == sorted(map(str, y.v)):
      return None
    if self.root != (a.id, b.id) and isinstance(x, (fg.Vec, fg.Frame)) and \
        type(x) is type(y):
      # what it is used for may not depend on the labels of the rows
      try:
        if fg.same(fg.unlabelled(P, x), fg.unlabelled(P, y)):
          return None
      except (fg.Undef, fg.Mix):
        return None
    fa, fb = self.frontier(a), self.frontier(b)
    va, vb = self.values(a), self.values(b)
    if fa is not None and fb is not None and fa <= vb and fb <= va:
      return Diff(True, a, b, ctx.lits, 'value differs')
    if self.root == (a.id, b.id) and isinstance(x, fg.Frame) and \
        isinstance(y, fg.Frame) and x.names is not None and \
        y.names is not None:
      # columns that only one of the tables has
      n, m = [{fg.H(k): k for k in z.names} for z in (x, y)]
      n, m = (n, m) if len(n) < len(m) else (m, n)
      more = [k for h, k in m.items() if h not in n]
      if len(n) < len(m) and set(n) <= set(m) or set(P.strs) & {
          k for k in more if isinstance(k, str)} and {
              h for h, k in n.items() if not isinstance(k, str)} == {
                  h for h, k in m.items() if not isinstance(k, str)}:
        return Diff(True, a, b, ctx.lits, f'columns: {more[0]}')
    if self.root == (a.id, b.id) and isinstance(x, fg.Seq) and isinstance(
        y, fg.Seq) and len(x.v) != len(y.v) and x.k == y.k == 'list' and \
        self.countable(a) and self.countable(b):
      return Diff(True, a, b, ctx.lits,
                  f'number of elements ({len(x.v)} instead of {len(y.v)})')
    # what is evaluated, also inside loops
    ra, rb = P.record(a), P.record(b)
    if ra is None or rb is None:
      return None
    fa, fb = ra[0], rb[0]
    va, vb = va | ra[1], vb | rb[1]
    if fa <= vb and fb <= va:
      return Diff(True, a, b, ctx.lits, 'value differs')
    return None

  def countable(self, t):
    """Does the number of elements keep its meaning at the point?"""
    if t.op == 'fmap':
      return all(self.plain(z) for z in t.a[:-1]) and self.countable(t.a[-1])
    if t.op == 'ite':
      return self.plain(t.a[0]) and all(map(self.countable, t.a[1:]))
    if t.op == 'list':
      return all(self.plain(z.a[0]) and self.countable(z.a[1])
                 if z.op == 'gseg' else self.countable(z.a[0])
                 if z.op == 'spread' else True for z in t.a)
    return self.plain(t)

  def frontier(self, t):
    """Values of the outermost operations that are congruent only."""
    P = self.point
    out, seen, st = set(), set(), [t]
    while st:
      x = st.pop()
      if x.id in seen:
        continue
      seen.add(x.id)
      if P.exact(x):
        if x.op in ('and', 'or') and not free_bvs(x):
          # one operand decides
          try:
            v = P.value(x)
            if v is (x.op == 'or'):
              for y in x.a:
                if P.value(y) is v and self.plain(y):
                  break
              else:
                st.extend(x.a)
              continue
          except (fg.Undef, fg.Mix):
            pass
        st.extend(x.a)
        continue
      if free_bvs(x):
        return None
      n = P.nundef
      try:
        P.value(x)
        out.add(P.key(x, {}, P.memo))
      except (fg.Undef, fg.Mix):
        return None
      if P.nundef > n:
        return None
    return out

  def plain(self, t):
    return all(self.point.exact(x) for x in fg.dag(t).values())

  def values(self, t):
    r = self.cones.get(t.id)
    if r is None:
      r = set()
      for x in fg.dag(t).values():
        if not free_bvs(x) and not self.point.exact(x):
          n = self.point.nundef
          try:
            k = self.point.key(x, {}, self.point.memo)
            if self.point.nundef == n:
              r.add(k)
          except (fg.Undef, fg.Mix, TypeError):
            pass
      self.cones[t.id] = r
    return r

  def pw_simp(self, t, p):
    """Simplify with point-wise facts, only at element-wise positions."""
    if not p.truth:
      return t
    memo = {}

    def go(x):
      r = memo.get(x.id)
      if r is not None:
        return r
      if x.op in ('lt0', 'eq0', 'le0', 'eq', 'in', 'isnan', 'isfinite') or \
          kind(x) == 'bool' and x.op not in ELEMENTWISE:
        v = p.eval_atom(x)
        if v is not None:
          memo[x.id] = bconst(v)
          return memo[x.id]
      if not x.a or not (x.op in ELEMENTWISE or x.op == 'call' and
                         x.d[0] in EW_CALLS):
        memo[x.id] = x
        return x
      if x.op == 'poly':
        new = {y: go(y) for y in x.a}
        r = x if all(new[y] is y for y in new) else poly_map(x, new)
      else:
        args = tuple(go(y) for y in x.a)
        r = x if all(y is z for y, z in zip(args, x.a)) else rebuild(
            x.op, args, x.d, x)
      if r is not x and r.op in ('lt0', 'eq0', 'le0', 'eq'):
        v = p.eval_atom(r)
        if v is not None:
          r = bconst(v)
      memo[x.id] = r
      return r
    return go(t)

  def split(self, atom, val, ctx, p, scalar=False):
    if scalar or is_scalar_atom(atom):
      c = ctx.assume_lit(atom, val)
      if c is None or linear_conflict(c.lits):
        return None
      return c, p
    q = p.assume_lit(atom, val)
    if q is None:
      return None
    return ctx, q

  def eqv(self, a, b, ctx, p):
    if a is b:
      return None
    key = (a.id, b.id, id(ctx), id(p))
    if key in self.memo:
      return self.memo[key][0]
    self.tick()
    if self.point is not None and self.agree(a, b):
      r = None
    else:
      r = self._eqv(a, b, ctx, p)
      if r is not None and not r.definite and self.point is not None:
        r = self.exact(a, b, ctx) or r
    self.memo[key] = (r, ctx, p)
    return r

  def _eqv(self, a, b, ctx, p):
    a = self.pw_simp(ctx.simp(a), p)
    b = self.pw_simp(ctx.simp(b), p)
    if a is b:
      return None
    if a.op == 'never' or b.op == 'never':
      return None          # always raises: compared by the raise conditions
    ka, kb = kind(a), kind(b)
    if (ka == 'bool' or kb == 'bool') and (
        ka == kb or a.op in ('and', 'or', 'not') or
        b.op in ('and', 'or', 'not') or a.op == 'bool' or b.op == 'bool'):
      if ka == kb == 'bool':
        return self.bool_cmp(a, b, ctx, p)
    # top level branches
    for x in (a, b):
      if x.op in ('ite', 'where'):
        ats = bool_atoms(x.a[0])
        at = next(iter(ats.values()))
        if x.op == 'where':
          # only safe when the other side is element-wise as well
          pass
        return self.branch(at, a, b, ctx, p, x.op == 'ite')
    d = None
    if a.op == b.op and a.op not in ('poly',):
      self.one = False
      d = self.descend(a, b, ctx, p)
      if d is None or d.definite and a.op in PRODUCTS or \
          self.skeleton and self.one:
        self.one = True
        return d
    elif a.op == 'poly' or b.op == 'poly':
      r = self.poly_cmp(a, b, ctx, p)
      if r is None:
        return None
      d = r
    # inner conditions
    inner = dict(ite_conds(a))
    inner.update(ite_conds(b))
    for at in inner.values():
      if ctx.eval_atom(at) is None and not has_fresh(at):
        return self.branch(at, a, b, ctx, p, True)
    if d is None:
      d = self.leaf(a, b, ctx)
    return d

  def void(self, ctx):
    """Later assumptions can make an earlier one impossible."""
    lits = ctx.lits
    for _ in range(2):
      c = Ctx.empty()
      new = []
      for t, v in reversed(lits):
        u = c.simp(t)
        c = c.assume_lit(u, v)
        if c is None:
          return True
        new.append((u, v))
      lits = new
    return False

  def branch(self, at, a, b, ctx, p, scalar=False):
    # a condition of an ite is used as a truth value, so it is a scalar
    und = None
    for val in (True, False):
      s = self.split(at, val, ctx, p, scalar)
      if s is None or not self.feasible(s[0]):
        continue
      d = self.eqv(a, b, *s)
      if d is not None:
        if d.definite:
          if self.point is None and self.void(s[0]):
            continue
          return d
        if self.point is None and len(self.hints) < 40 and \
            d.lits == s[0].lits:
          self.hints.setdefault(tuple((t.id, v) for t, v in d.lits), d.lits)
        und = und or d
    return und

  def same(self, x, y):
    """Are the two equal, and not at this point only?"""
    k = 'same', x.id, y.id
    if k not in self.memo:
      c = Cmp()
      c.hints, c.root = {}, self.root
      self.memo[k] = c.attempt(x, y, Ctx.empty(), 200) is None
    return self.memo[k]

  # ---------------------------------------------------------------- booleans
  def bool_cmp(self, a, b, ctx, p):
    d = self.bool_paths(a, b, ctx, p)
    if d is None:
      return None
    # align atoms that are equal though not identical
    fa, fb = bool_atoms(a), bool_atoms(b)
    ua = [x for k, x in fa.items() if k not in fb]
    ub = [x for k, x in fb.items() if k not in fa]
    m = {}
    pairs = []
    usedb = set()
    loose = False
    for x in ua:
      for y in ub:
        if y.id in usedb or x.op != y.op:
          continue
        if x.op in ('and', 'or', 'not'):
          continue
        e = self.atom_cmp(x, y, ctx, p)
        if e is None and self.point is not None and not self.same(x, y):
          loose = True  # the same truth value is no reason to align the two
          continue
        if e is None:
          m[x.id] = y
          usedb.add(y.id)
          break
        pairs.append((x, y, e))
    if m:
      a2 = repl(a, m)
      if a2 is not a:
        return self.eqv(a2, b, ctx, p)
    if loose:
      return Diff(False, a, b, d.lits, 'conditions not comparable')
    dirs_a = {tm.direction(x.a[0])[0].id for x in fa.values()
              if x.op in ('lt0', 'eq0', 'le0')}
    dirs_b = {tm.direction(x.a[0])[0].id for x in fb.values()
              if x.op in ('lt0', 'eq0', 'le0')}
    def ndir(x):
      return tm.direction(neg(x.a[0]))[0].id
    def known(x, dirs):
      return x.op in ('lt0', 'eq0', 'le0') and (
          tm.direction(x.a[0])[0].id in dirs or ndir(x) in dirs)
    ua = [x for x in ua if not known(x, dirs_b)]
    ub = [x for x in ub if not known(x, dirs_a)]
    lits = d.lits
    if not ua and not ub:
      return Diff(not (a.unm or b.unm), a, b, lits, 'condition differs')
    if not ua or not ub:
      extra = ua or ub
      ok = all(understood(x) for x in extra) and not (a.unm or b.unm)
      which = 'extra' if ua else 'missing'
      if not ok and not (a.unm or b.unm):
        other = sources(b if ua else a)
        ok = all(sources(x) - other for x in extra) and all(
            not sources(t) & set().union(*map(sources, extra))
            for t, _ in ctx.lits)
      if not ok:
        return Diff(False, a, b, lits, f'{which} condition (not modelled)')
      return Diff(True, a if not ua else a, b, lits,
                  f'{which} condition {show(extra[0])[:200]}')
    # one definite pair explains the difference
    for x, y, e in pairs:
      if e.definite and x in ua and y in ub:
        a2 = repl(a, {x.id: y})
        r = self.eqv(a2, b, ctx, p)
        if r is None:
          return Diff(True, e.a, e.b, lits,
                      e.why or 'condition differs', e.under, e.calls)
        if r.definite:
          return r
    return Diff(False, a, b, lits, 'conditions not comparable')

  def bool_paths(self, a, b, ctx, p):
    """Cofactor both on their atoms until the leaves decide."""
    self.tick()
    a = self.pw_simp(ctx.simp(a), p)
    b = self.pw_simp(ctx.simp(b), p)
    if a is b:
      return None
    fa, fb = bool_atoms(a), bool_atoms(b)
    if not fa and not fb:
      if not self.feasible(ctx):
        return None
      return Diff(True, a, b, ctx.lits + p.lits, 'condition differs')
    shared = [x for k, x in fa.items() if k in fb]
    at = shared[0] if shared else next(iter((fa or fb).values()))
    for val in (True, False):
      s = self.split(at, val, ctx, p)
      if s is None or not self.feasible(s[0]):
        continue
      m = {at.id: bconst(val)}
      d = self.bool_paths(repl(a, m), repl(b, m), *s)
      if d is not None:
        return d
    return None

  def atom_cmp(self, x, y, ctx, p):
    if x.op in ('lt0', 'eq0', 'le0'):
      return self.eqv(x.a[0], y.a[0], ctx, p)
    return self.descend(x, y, ctx, p) if x.op == y.op else Diff(
        False, x, y, ctx.lits, '')

  # ---------------------------------------------------------------- descent
  def descend(self, a, b, ctx, p):
    """Compare the children of two terms with the same operator."""
    d = self.children(a, b, ctx, p)
    if d is not None and a.op == 'api' and a.d[0] == b.d[0]:
      d = d.inside(a, b)
    elif d is not None and d.calls and kind(d.calls[-1][2]) not in SCALAR:
      d = d.taken(a, b)
    return d

  def children(self, a, b, ctx, p):
    if a.op in BINDERS:
      return self.binder(a, b, ctx, p)
    if a.op == 'lam':
      if a.d[1] != b.d[1]:
        return Diff(False, a, b, ctx.lits, 'different functions')
      vs = [fresh('l') for _ in range(a.d[1])]
      x, y = tm.lam_apply(a, vs), tm.lam_apply(b, vs)
      self.one = True
      for f, g in ((x, y), (y, x)):
        if f.op == 'call' and f.d[0] in CHANGING and f.a[0] is g and \
            anything(g):
          return Diff(True, x, y, ctx.lits,
                      f'{f.d[0][1:]} on one side only')
      d = self.eqv(x, y, ctx, Ctx.empty())
      self.one = True
      return d
    if a.op == 'foldv':
      if a.d[1:] != b.d[1:] or len(a.a) != len(b.a):
        return Diff(False, a, b, ctx.lits, 'different loops')
      n = a.d[1] + a.d[2]
      vs = [fresh('f') for _ in range(n)]
      ma = {bv(a.d[0] + i): v for i, v in enumerate(vs)}
      mb = {bv(b.d[0] + i): v for i, v in enumerate(vs)}
      ds = []
      for x, y in zip(a.a, b.a):
        e = self.eqv(tm.subst(x, ma), tm.subst(y, mb), ctx, Ctx.empty())
        if e is not None:
          ds.append(e)
      self.one = len(ds) == 1
      return self.join(ds, a, b, ctx) if ds else None
    if a.op == 'obj':
      return self.obj_cmp(a, b, ctx, p)
    if a.op == 'dict':
      r = self.dict_cmp(a, b, ctx, p)
      if r != 'no':
        return r
    if a.op == 'setattr':
      return self.setattr_cmp(a, b, ctx, p)
    if a.op in ('setcol', 'locset'):
      r = self.update_cmp(a, b, ctx, p)
      self.one = False
      if r != 'no':
        return r
    if a.op in ('call', 'red', 'api', 'eff') and a.d != b.d:
      r = self.call_cmp(a, b, ctx, p)
      self.one = a.d[0] != b.d[0] or len(a.a) == len(b.a) or not any(
          x is not y for x, y in zip(a.a, b.a[:len(b.a) - len(b.d[1])]))
      return r
    if a.op in ('str', 'num', 'bool', 'sym', 'attr', 'draw') and \
        a.d != b.d and not (a.op == 'draw'):
      if a.op == 'attr' and a.a[0] is not b.a[0]:
        return Diff(False, a, b, ctx.lits, 'different attribute')
      return self.leaf(a, b, ctx)
    if a.d != b.d:
      return self.leaf(a, b, ctx)
    if len(a.a) != len(b.a):
      return self.seq_cmp(a, b, ctx, p)
    q = p if (a.op in ELEMENTWISE or a.op == 'call' and a.d[0] in EW_CALLS) \
        else Ctx.empty()
    ds = []
    if a.op in ('gseg', 'gkv') and not free_bvs(a.a[0]):
      d = self.eqv(a.a[0], b.a[0], ctx, q)
      if d is not None:
        ds.append(d)
      g = tm.and_(a.a[0], b.a[0])
      for x, y in zip(a.a[1:], b.a[1:]):
        d = self.guarded_part(g, x, y, ctx)
        if d is not None:
          ds.append(d)
    else:
      for x, y in zip(a.a, b.a):
        d = self.eqv(x, y, ctx, q)
        if d is not None:
          ds.append(d)
    if not ds:
      return None
    self.one = len(ds) == 1
    if a.op in ('list', 'set') and self.permuted(a, b):
      return Diff(False, a, b, ctx.lits, 'order differs')
    return self.join(ds, a, b, ctx)

  def permuted(self, a, b):
    return sorted(x.id for x in a.a) == sorted(x.id for x in b.a)

  def join(self, ds, a, b, ctx):
    bad = [d for d in ds if not d.definite]
    under = frozenset().union(*[d.under for d in ds])
    good = [d for d in ds if d.definite]
    if good and a.op == 'tuple':
      return min(good, key=lambda d: len(d.under))
    if bad:
      return Diff(False, a if len(ds) > 1 else bad[0].a,
                  b if len(ds) > 1 else bad[0].b, bad[0].lits, bad[0].why,
                  under)
    d = min(ds, key=lambda d: len(d.under))
    return d

  def seq_cmp(self, a, b, ctx, p):
    """Sequences with a different number of (plain) elements."""
    if a.op in ('list', 'tuple', 'set') and not any(
        x.op in ('spread', 'gseg') for x in a.a + b.a):
      ia = {x.id for x in a.a}
      ib = {x.id for x in b.a}
      if len(a.a) < len(b.a) and ia <= ib:
        x = next((x for x in b.a if x.id not in ia), b.a[-1])
        return Diff(True, a, b, ctx.lits, f'missing element {show(x)[:120]}')
      if len(a.a) > len(b.a) and ib <= ia:
        x = next((x for x in a.a if x.id not in ib), a.a[-1])
        return Diff(True, a, b, ctx.lits, f'extra element {show(x)[:120]}')
    if a.op in ('and', 'or'):
      return self.bool_cmp(a, b, ctx, p)
    return Diff(False, a, b, ctx.lits, 'different shape')

  def binder(self, a, b, ctx, p):
    d = self.eqv(a.a[0], b.a[0], ctx, Ctx.empty())
    ds = [d] if d is not None else []
    v = fresh('b', 'int')
    if self.point is not None:
      self.differing_index(a, b, v)
    xs = tm.open_(a.d, v, *a.a[1:])
    ys = tm.open_(b.d, v, *b.a[1:])
    if a.op == 'fmap' and any(t[1].op == 'ite' or t[1].op == 'list' and any(
        s.op == 'gseg' for s in t[1].a) for t in (xs, ys)):
      ga, gb = guarded(*xs), guarded(*ys)
      if len(ga) != len(gb) or len(ga) > 12:
        if a.a == b.a:
          return None
        return Diff(False, a, b, ctx.lits, 'different shape')
      else:
        # the guards of the items matter, not how they are nested
        xs, ys = [], []
        for (g, x), (h, y) in zip(ga, gb):
          xs += [g, x]
          ys += [h, y]
    # in the body the index is in range, and the guard holds for the values
    known = len(self.assume)
    for lit, val in ctx.lits:
      if lit.op == 'existsx' and val is False and lit.a[0] is a.a[0]:
        self.assume.append(tm.not_(tm.open_(lit.d, v, lit.a[1])[0]))
    if a.op != 'foldv':
      self.assume += self.elsewhere(tm.and_(*[
          x for x in list(xs) + list(ys) if kind(x) == 'bool']), v, ctx)
    try:
      for i, (x, y) in enumerate(zip(xs, ys)):
        j = i - 1 if a.op == 'fmap' else 0
        if (i % 2 if a.op == 'fmap' else i) and \
            a.op in ('fmap', 'dmap', 'first', 'mapcols', 'maskfill'):
          e = self.guarded_part(tm.and_(xs[j], ys[j]), x, y, ctx)
        else:
          e = self.eqv(x, y, ctx, Ctx.empty())
        if e is not None:
          ds.append(e)
    finally:
      del self.assume[known:]
    if not ds:
      return None
    self.one = len(ds) == 1
    return self.join(ds, a, b, ctx)

  def differing_index(self, a, b, v):
    """Let v be an index at which the bodies differ."""
    P = self.point
    for i in range(4):
      w = P.fresh[v.id] = fg.D(i)
      for x, y in zip(a.a[1:], b.a[1:]):
        try:
          if not fg.same(P.ev(x, {a.d: w}, {}), P.ev(y, {b.d: w}, {})):
            return
        except (fg.Undef, fg.Mix):
          pass

  def obj_cmp(self, a, b, ctx, p):
    if a.d[0] != b.d[0]:
      return Diff(True, a, b, ctx.lits, 'different class')
    na, nb = dict(zip(a.d[1], a.a)), dict(zip(b.d[1], b.a))
    ds = []
    if a.d[0] in tm.CONSTRUCTED:
      # private state is compared through what the methods make of it
      na = {n: x for n, x in na.items() if not n.startswith('_')}
      nb = {n: x for n, x in nb.items() if not n.startswith('_')}
    for n in nb:
      if n not in na:
        ds.append(Diff(False, a, b, ctx.lits, f'attribute {n} is not set'))
        continue
      d = self.part(na[n], nb[n], ctx)
      if d is not None:
        ds.append(d.at(f'{a.d[0]}.{n}: {d.why}'))
    dd = [d for d in ds if d.definite]
    if dd:
      return dd[0]
    return ds[0] if ds else None

  def setattr_cmp(self, a, b, ctx, p):
    fa, fb = {}, {}
    for t, f in ((a, fa), (b, fb)):
      x = t
      while x.op == 'setattr':
        f.setdefault(x.d, x.a[1])
        x = x.a[0]
      f[''] = x
    if fa[''] is not fb['']:
      d = self.eqv(fa[''], fb[''], ctx, Ctx.empty())
      if d is not None:
        return Diff(False, a, b, ctx.lits, 'different object')
    ds = []
    base = fb['']
    for n in list(fb) + [n for n in fa if n not in fb]:
      if n == '':
        continue
      x = fa.get(n, attr(base, n))
      y = fb.get(n, attr(base, n))
      if n not in fb and n.startswith('_'):
        continue         # private bookkeeping
      d = self.part(x, y, ctx)
      if d is not None:
        ds.append(d.at(f'attribute {n}: {d.why}'))
    dd = [d for d in ds if d.definite]
    return dd[0] if dd else ds[0] if ds else None

  def dict_cmp(self, a, b, ctx, p):
    def ents(t):
      out = []
      for s in t.a:
        if s.op == 'kv':
          out.append((TRUE, s.a[0], s.a[1]))
        elif s.op == 'gkv':
          out.append(s.a)
        else:
          return None
      return out
    ea, eb = ents(a), ents(b)
    if ea is None or eb is None:
      return 'no'
    da = {k.id: (g, k, v) for g, k, v in ea}
    db = {k.id: (g, k, v) for g, k, v in eb}
    ks = [k for _, k, _ in ea + eb]
    if not all(is_const(k) or k.op in ('sym', 'attr') for k in ks):
      return 'no'
    ds = []
    for kid, (g, k, v) in db.items():
      if kid not in da:
        ds.append(Diff(understood(k) and not a.unm, a, b, ctx.lits,
                       f'missing key {show(k)}'))
        continue
      g1, _, v1 = da[kid]
      d = self.eqv(g1, g, ctx, Ctx.empty())
      if d is not None:
        ds.append(d)
      d = self.guarded_part(tm.and_(g, g1), v1, v, ctx, True)
      if d is not None:
        ds.append(d.at(f'key {show(k)}: {d.why}'))
    for kid, (g, k, v) in da.items():
      if kid not in db:
        ds.append(Diff(understood(k) and not b.unm, a, b, ctx.lits,
                       f'extra key {show(k)}'))
    dd = [d for d in ds if d.definite]
    return dd[0] if dd else ds[0] if ds else None

  def update_cmp(self, a, b, ctx, p):
    """Chains of column assignments."""
    def chain(t):
      m = {}
      x = t
      while x.op == a.op:
        if x.a[1].id in m:
          return None, None
        m[x.a[1].id] = (x.a[1], x.a[2])
        x = x.a[0]
      return x, m
    xa, ma = chain(a)
    xb, mb = chain(b)
    if ma is None or mb is None:
      return 'no'
    ds = []
    if set(ma) != set(mb):
      d = self.eqv(xa, xb, ctx, Ctx.empty())
      miss = [mb[k][0] for k in mb if k not in ma]
      extra = [ma[k][0] for k in ma if k not in mb]
      if d is None and not (miss and extra):
        k = (miss or extra)[0]
        return Diff(understood(k) and not (a.unm or b.unm), a, b, ctx.lits,
                    f'{"missing" if miss else "extra"} assignment of '
                    f'{show(k)[:120]}')
      if d is None and len(miss) == 1 and len(extra) == 1:
        e = self.eqv(extra[0], miss[0], ctx, Ctx.empty())
        if e is not None:
          return e
      return Diff(False, a, b, ctx.lits, 'different columns')
    d = self.eqv(xa, xb, ctx, Ctx.empty())
    if d is not None:
      return d
    for k in mb:
      d = self.part(ma[k][1], mb[k][1], ctx)
      if d is not None:
        ds.append(d.at(f'column {show(mb[k][0])[:60]}: {d.why}'))
    dd = [d for d in ds if d.definite]
    return dd[0] if dd else ds[0] if ds else None

  def call_cmp(self, a, b, ctx, p):
    """Calls with different names or argument layouts."""
    na, nb = a.d[0], b.d[0]
    if a.op == 'eff' and na != nb:
      return Diff(False, a, b, ctx.lits, 'different effect')
    for f, g in ((a, b), (b, a)):
      # rows of a given table that are the same
      if f.op == 'call' and f.d[0] == '.drop_duplicates' and f.a[0] is g and \
          given_table(g) and f.d in self.outer:
        return Diff(True, a, b, ctx.lits, 'drop_duplicates on one side only')
    if na == nb and a.op == b.op:
      # same function, different keywords
      ka = a.d[1] if len(a.d) > 1 else ()
      kb = b.d[1] if len(b.d) > 1 else ()
      pa, pb = a.a[:len(a.a) - len(ka)], b.a[:len(b.a) - len(kb)]
      da = dict(zip(ka, a.a[len(pa):]))
      db = dict(zip(kb, b.a[len(pb):]))
      ds = []
      if len(pa) == len(pb):
        for x, y in zip(pa, pb):
          d = self.eqv(x, y, ctx, Ctx.empty())
          if d is not None:
            ds.append(d)
        for k in set(da) & set(db):
          d = self.eqv(da[k], db[k], ctx, Ctx.empty())
          if d is not None:
            ds.append(d)
        if ds:
          return self.join(ds + [Diff(False, a, b, ctx.lits, 'arguments')],
                           a, b, ctx) if set(da) != set(db) and not all(
                               d.definite for d in ds) else self.join(
                                   ds, a, b, ctx)
        diffk = sorted(set(da) ^ set(db))
        if na == 'repr':
          return Diff(True, a, b, ctx.lits, 'fields in the representation: '
                      + ', '.join(diffk))
        if len(diffk) == 1:
          v = da.get(diffk[0], db.get(diffk[0]))
          w = DEFAULT_KW.get((na, diffk[0]), DEFAULT_KW.get(diffk[0]))
          if w is not None and is_const(v) and v is not w:
            return Diff(True, a, b, ctx.lits,
                        f'argument {diffk[0]}={show(v)} of {na} '
                        f'{"missing" if diffk[0] in db else "added"}')
        if len(diffk) == 1 and diffk[0] in MEANINGFUL_KW:
          return Diff(True, a, b, ctx.lits,
                      f'argument {diffk[0]} of {na} '
                      f'{"missing" if diffk[0] in db else "added"}')
      return Diff(False, a, b, ctx.lits, f'arguments of {na}')
    if a.op in ('call', 'red') and len(a.a) == len(b.a) and \
        _GROUP.get(na, set()) & _GROUP.get(nb, set()):
      for x, y in zip(a.a, b.a):
        d = self.eqv(x, y, ctx, Ctx.empty())
        if d is not None:
          return Diff(False, a, b, ctx.lits, 'different calls')
      return Diff(True, a, b, ctx.lits, f'{na} instead of {nb}')
    if a.op == 'api':
      return Diff(False, a, b, ctx.lits, f'{na} instead of {nb}')
    return Diff(False, a, b, ctx.lits, f'{na} / {nb}')

  # ---------------------------------------------------------------- numbers
  def poly_cmp(self, a, b, ctx, p):
    pa, pb = tm.topoly(a), tm.topoly(b)
    aa = {x.id: x for m in pa for x, _ in m}
    ab = {x.id: x for m in pb for x, _ in m}
    ua = [x for k, x in aa.items() if k not in ab]
    ub = [x for k, x in ab.items() if k not in aa]
    m = {}
    pairs = []
    used = set()
    for x in ua:
      for y in ub:
        if y.id in used:
          continue
        e = self.eqv(x, y, ctx, p) if comparable(x, y) else Diff(
            False, x, y, ctx.lits, '')
        if e is None:
          m[x.id] = y
          used.add(y.id)
          break
        pairs.append((x, y, e))
    if m:
      a2 = repl(a, m)
      if a2 is not a:
        return self.eqv(a2, b, ctx, p)
    if a.unm or b.unm:
      return self.unmodelled(a, b, ctx)
    if not ua and not ub:
      if any(x.op in ('ite', 'where') for x in list(aa.values()) +
             list(ab.values())):
        return Diff(False, a, b, ctx.lits, '')
      return Diff(True, a, b, ctx.lits, 'value differs')
    if ua and ub:
      for x, y, e in pairs:
        if e.definite:
          a2 = repl(a, {x.id: y})
          r = self.eqv(a2, b, ctx, p)
          if r is None:
            return Diff(True, e.a, e.b, ctx.lits,
                        e.why or 'value differs', e.under, e.calls)
          if r.definite:
            return r
      if all(basic(x) for x in ua + ub):
        return Diff(True, a, b, ctx.lits, 'value differs')
      return Diff(False, a, b, ctx.lits, 'values not comparable')
    extra = ua or ub
    if all(understood(x) for x in extra):
      return Diff(True, a, b, ctx.lits,
                  f'{"extra" if ua else "missing"} term '
                  f'{show(extra[0])[:160]}')
    return Diff(False, a, b, ctx.lits, 'values not comparable')

  # ---------------------------------------------------------------- leaves
  def unmodelled(self, a, b, ctx):
    m = not_passed(a)
    if m is not None and not_passed(b) is None:
      return Diff(True, a, b, ctx.lits,
                  f'{m[1]} is called without its required argument {m[2]}')
    return Diff(False, a, b, ctx.lits, 'not modelled')

  def leaf(self, a, b, ctx):
    if a.unm or b.unm:
      return self.unmodelled(a, b, ctx)
    if is_const(a) and is_const(b):
      if a.op == b.op or {a.op, b.op} <= {'num', 'str', 'bool', 'none'}:
        return Diff(True, a, b, ctx.lits, 'different constants')
    for f, g in ((a, b), (b, a)):
      # a column that is given, and the same with some values changed
      if f.op == 'call' and f.d[0] in ALTERING and f.a[0] is g and \
          g.op == 'owncol' and all(is_const(x) or x.op in (
              'inf', 'nan', 'lib') for x in f.a[1:]):
        return Diff(True, a, b, ctx.lits, f'{f.d[0][1:]} on one side only')
    ba, bb = basic(a) or is_const(a), basic(b) or is_const(b)
    if ba and bb:
      return Diff(True, a, b, ctx.lits, 'different values')
    if (is_const(a) or a in (INF, NAN)) and understood(b) and \
        kind(b) in NUMERIC or (is_const(b) or b in (INF, NAN)) and \
        understood(a) and kind(a) in NUMERIC:
      return Diff(True, a, b, ctx.lits, 'different values')
    if a is NONE and kind(b) and not is_opt(b) or \
        b is NONE and kind(a) and not is_opt(a):
      return Diff(True, a, b, ctx.lits, 'None instead of a value')
    if {a.op, b.op} == {'lam', 'lib'} and (
        a if a.op == 'lam' else b).d[1] == 1:
      # a library function instead of a function of one argument
      v = fresh('l')
      x, y = [tm.lam_apply(t, [v]) if t.op == 'lam' else
              tm.raw('call', (v,), (t.d, ())) for t in (a, b)]
      if x.op == y.op == 'call' and x.d[0] == y.d[0]:
        return self.eqv(x, y, ctx, Ctx.empty())
    if a.op in ('call', 'red') and b.op in ('call', 'red'):
      return self.call_cmp(a, b, ctx, Ctx.empty())
    na = a.d[0] if a.op in ('call', 'red') else a.op
    nb = b.d[0] if b.op in ('call', 'red') else b.op
    if _GROUP.get(na, set()) & _GROUP.get(nb, set()) and len(a.a) == len(b.a):
      if all(x is y for x, y in zip(a.a, b.a)):
        return Diff(True, a, b, ctx.lits, f'{na} instead of {nb}')
    if a.op == b.op == 'draw' and {a.d[0], b.d[0]} == {
        'integers', 'permutation'}:
      return Diff(True, a, b, ctx.lits, f'{a.d[0]} instead of {b.d[0]}')
    if a.op == b.op == 'gagg' and all(
        self.eqv(x, y, ctx, Ctx.empty()) is None for x, y in zip(a.a, b.a)):
      return Diff(True, a, b, ctx.lits, f'{a.d} instead of {b.d}')
    return Diff(False, a, b, ctx.lits, 'different expressions')


MEANINGFUL_KW = {
    'ddof', 'how', 'on', 'axis', 'ascending', 'frac', 'n', 'random_state',
    'replace', 'size', 'alternative', 'p', 'index', 'columns', 'values',
    'aggfunc', 'fill_value', 'keep', 'method', 'subset', 'format', 'drop',
    'yerr', 'xerr', 'color', 'weights', 'q', 'bins', 'stat', 'density',
    'cumulative', 'by', 'level', 'dropna', 'loc', 'scale', 'lam', 'mean',
    'sigma', 'equal_var', 'precision', 'hide', 'label', 'key',
}


# what leaving a keyword out means
DEFAULT_KW = {
    'errors': tm.string('raise'), 'dayfirst': FALSE, 'yearfirst': FALSE,
    'skipna': TRUE, 'na_position': tm.string('last'),
    'numeric_only': FALSE, 'normalize': FALSE, 'sort': TRUE,
    'exact': TRUE, 'periods': tm.num(1), 'equal_nan': FALSE,
    'keepdims': FALSE, 'how': tm.string('inner'), 'right': FALSE,
    'inclusive': tm.string('both'), 'min_periods': tm.num(0),
    ('.dropna', 'how'): tm.string('any'), ('.groupby', 'as_index'): TRUE,
    ('.set_index', 'drop'): TRUE, ('.reset_index', 'drop'): FALSE,
    ('pd.cut', 'right'): TRUE, ('np.digitize', 'right'): FALSE,
}


def not_passed(t, seen=None):
  """The description of a required argument that a call leaves out."""
  seen = set() if seen is None else seen
  if t.id in seen or not t.unm:
    return None
  seen.add(t.id)
  if t.op == 'unk' and t.d and t.d[0] == 'missing':
    return t.d
  if t.op in ('ite', 'where', 'lam', 'and', 'or') or t.op in BINDERS:
    return None       # not evaluated in every case
  for x in t.a:
    r = not_passed(x, seen)
    if r is not None:
      return r
  return None


def guarded(g, t):
  """A list as items, each with the condition under which it is there."""
  if t.op == 'ite':
    c = t.a[0]
    x, y = guarded(TRUE, t.a[1]), guarded(TRUE, t.a[2])
    out, tail = [], []
    while x and y and x[0][1] is y[0][1]:
      out.append((ite(c, x[0][0], y[0][0]), x[0][1]))
      x, y = x[1:], y[1:]
    while x and y and x[-1][1] is y[-1][1]:
      tail.insert(0, (ite(c, x[-1][0], y[-1][0]), x[-1][1]))
      x, y = x[:-1], y[:-1]
    out += [(tm.and_(c, h), z) for h, z in x]
    out += [(tm.and_(tm.not_(c), h), z) for h, z in y]
    out += tail
  elif t.op == 'list':
    out = []
    for s in t.a:
      if s.op == 'gseg':
        out += guarded(s.a[0], s.a[1])
      elif s.op == 'spread' and s.a[0].op in ('ite', 'list'):
        out += guarded(TRUE, s.a[0])
      else:
        out.append((TRUE, s))
  else:
    out = [(TRUE, tm.raw('spread', (t,)))]
  if g is TRUE:
    return out
  return [(tm.and_(g, h), z) for h, z in out]


def comparable(x, y):
  if x.op == y.op:
    return True
  if x.op in ('ite', 'where') or y.op in ('ite', 'where'):
    return True
  if basic(x) and basic(y):
    return True
  return {x.op, y.op} <= {'call', 'red', 'sum', 'len', 'floor', 'gagg',
                          'sumx', 'isum'} or kind(x) == kind(y) == 'bool'


BASIC = {'sym', 'attr', 'num', 'str', 'bool', 'none', 'inf', 'nan'}


# what changes some value of the kind that it is applied to
CHANGING = {'.str.strip', '.str.lower', '.str.upper', '.str.lstrip',
            '.str.rstrip', '.str.title', '.str.capitalize', '.str.casefold',
            '.abs', '.round', '.fillna', '.dt.normalize', '.dt.floor',
            '.dropna', '.str.replace', '.clip', 'round', 'abs', 'floor'}


ALTERING = {'.replace', '.str.strip', '.str.lower', '.str.upper',
            '.str.replace', '.str.lstrip', '.str.rstrip'}


def given_table(t):
  """A table that is a parameter, or columns of one."""
  while t.op == 'cols' or t.op == 'call' and t.d[0] in ('.drop', '.copy'):
    t = t.a[0]
  return t.op == 'sym' and tm.kind(t) == 'frame'


def anything(t):
  """Can t be every value of its kind (the argument of a function)?"""
  while t.op == 'call' and t.d[0] in ('.astype', 'pd.to_numeric',
                                      'pandas.to_numeric',
                                      'pandas.to_datetime'):
    t = t.a[0]
  return t.op == 'fresh' and t.d[0] == 'l'


def basic(t):
  """An independent input: a parameter, or an attribute of one."""
  while t.op == 'attr' and t.a:
    t = t.a[0]
  if t.op == 'api' and tm._APIKIND.get(t.d[0], '') and str(
      tm._APIKIND.get(t.d[0])).startswith('obj:'):
    return True
  return t.op in BASIC


UNDERSTOOD = {'sym', 'attr', 'num', 'str', 'bool', 'none', 'inf', 'nan',
              'poly', 'floor', 'len', 'sum', 'col', 'cols', 'getitem', 'rows',
              'gagg', 'pow', 'and', 'or', 'not', 'lt0', 'eq0', 'le0', 'eq',
              'in', 'isnone', 'truthy', 'any', 'existsx', 'bv', 'fresh',
              'list', 'tuple', 'set', 'api', 'columns', 'isnan', 'isfinite',
              'surd', 'concat', 'mod', 'isinstance', 'sumx', 'isum', 'fmap',
              'spread', 'gseg', 'ite', 'setcol', 'locget', 'dict', 'kv',
              'setdiff', 'keys', 'tolist', 'range', 'lam', 'red', 'draw',
              'where', 'lib', 'fmt', 'slice', 'apiref', 'setattr', 'obj'}
UNDERSTOOD_CALLS = {
    'nunique', 'unique', 'min', 'max', 'np.abs', 'median', 'tcdf', 'tppf',
    'std', 'var', 'np.array_equal', 'pd.api.types.is_integer_dtype',
    'pd.api.types.is_datetime64_any_dtype', 'dt.datetime.strptime',
    '.drop_duplicates', '.sort_values', '.shift', '.values', '.groupby',
    '.get', 'stats.binomtest', 'pvalue', '.merge', '.astype', '.rename',
    '.rank', '.reset_index', '.cumsum', '.dtype', '.fillna', '.drop',
    'factory', 'yaml.safe_load', '.set_index', '.pivot_table', '.index',
    'abs', '.shape', '.dropna',
}
_UND: dict = {}


def understood(t):
  r = _UND.get(t.id)
  if r is None:
    if t.unm:
      r = False
    elif t.op == 'api':
      r = True
    elif t.op == 'call':
      r = t.d[0] in UNDERSTOOD_CALLS and all(understood(x) for x in t.a)
    else:
      r = t.op in UNDERSTOOD and all(understood(x) for x in t.a)
    _UND[t.id] = r
  return r


# ---------------------------------------------------------------- arithmetic
def linear_conflict(lits, limit=7):
  """Unsatisfiable linear constraints among the literals (Fourier-Motzkin
  over the rationals; non-linear monomials are treated as variables)."""
  cons = []
  for t, v in lits:
    if t.op not in ('lt0', 'eq0', 'le0'):
      continue
    d = tm.topoly(t.a[0])
    if not v and tm.STRICT_NAN[0]:
      continue
    if t.op == 'eq0':
      if v:
        cons.append((d, False))
        cons.append(({m: -c for m, c in d.items()}, False))
      continue
    if t.op == 'lt0':
      cons.append((d, True) if v else ({m: -c for m, c in d.items()}, False))
    elif t.op == 'le0':
      cons.append((d, False) if v else ({m: -c for m, c in d.items()}, True))
  if len(cons) < 2 or len(cons) > 24:
    return False
  inf = ((INF, F(1)),)
  if any(inf in d for d, _ in cons):
    return False
  # d < 0 (strict) or d <= 0
  for _ in range(limit):
    vs = {}
    for d, _s in cons:
      for m in d:
        if m != ():
          up, lo = vs.get(m, (0, 0))
          if d[m] > 0:
            vs[m] = (up + 1, lo)
          elif d[m] < 0:
            vs[m] = (up, lo + 1)
    if not vs:
      break
    m = min(vs, key=lambda k: (vs[k][0] * vs[k][1] - vs[k][0] - vs[k][1]))
    ups = [c for c in cons if c[0].get(m, 0) > 0]
    los = [c for c in cons if c[0].get(m, 0) < 0]
    rest = [c for c in cons if not c[0].get(m, 0)]
    if len(ups) * len(los) > 60:
      return False
    for du, su in ups:
      for dl, sl in los:
        ku, kl = du[m], -dl[m]
        nd = {}
        for x in set(du) | set(dl):
          c = du.get(x, F(0)) * kl + dl.get(x, F(0)) * ku
          if c and x != m:
            nd[x] = c
        rest.append((nd, su or sl))
    cons = rest
    for d, s in cons:
      if all(m == () for m in d):
        c = d.get((), F(0))
        if c > 0 or (s and c >= 0):
          return True
    if not cons:
      return False
  for d, s in cons:
    if all(m == () for m in d):
      c = d.get((), F(0))
      if c > 0 or (s and c >= 0):
        return True
  return False


def understood_eff(e):
  """All inputs of an effect are modelled."""
  return not e.unm
