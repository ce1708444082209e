"""Hash-consed canonical terms (the value graph).

Every Python value the analysed code computes is represented by a term.  Two
computations that agree by the rewriting rules below intern to the very same
object, so most comparisons are identity tests.  Nothing here runs code of the
analysed repository, and no solver is involved.
"""
from __future__ import annotations

from fractions import Fraction as F
import time
import random

_P = (1 << 127) - 1


class T:
  __slots__ = ('op', 'a', 'd', 'id', 'fv', 'bvmax', '_fp', '_kind', '_conds',
               'unm')

  def __repr__(self):
    return show(self)


_TAB: dict = {}
_FVSYM: frozenset = frozenset()


class Budget(Exception):
  """The analysis of one obligation has become too large."""


LIMIT = [1 << 60, 1e18]     # number of terms that may exist, and a deadline


def set_limit(terms=None, seconds=None):
  LIMIT[0] = len(_TAB) + terms if terms else 1 << 60
  LIMIT[1] = time.monotonic() + seconds if seconds else 1e18


def exhausted():
  return len(_TAB) >= LIMIT[0] or time.monotonic() > LIMIT[1]


def check_time():
  if time.monotonic() > LIMIT[1]:
    raise Budget()


def raw(op, a=(), d=None):
  a = tuple(a)
  key = (op, tuple(x.id for x in a), d)
  t = _TAB.get(key)
  if t is not None:
    return t
  if len(_TAB) >= LIMIT[0] or len(_TAB) & 4095 == 0 and \
      time.monotonic() > LIMIT[1]:
    raise Budget()
  t = T.__new__(T)
  t.op, t.a, t.d = op, a, d
  t.id = len(_TAB)
  fv = _FVSYM
  bm = 0
  unm = op in UNMODELLED
  for x in a:
    if x.fv:
      fv = fv | x.fv if fv else x.fv
    if x.bvmax > bm:
      bm = x.bvmax
    unm = unm or x.unm
  if op == 'bv':
    bm = max(bm, d)
    fv = fv | {t.id}
  elif op == 'fresh':
    fv = fv | {t.id}
  t.fv, t.bvmax, t.unm = fv, bm, unm
  t._fp = None
  t._kind = False
  t._conds = None
  _TAB[key] = t
  return t


UNMODELLED = {'unk', 'fold', 'while', 'trycatch', 'recur'}


# ---------------------------------------------------------------- constants
def num(x):
  if isinstance(x, F):
    return raw('num', (), x)
  if isinstance(x, bool):
    return TRUE if x else FALSE
  if isinstance(x, int):
    return raw('num', (), F(x))
  if isinstance(x, float):
    if x != x:
      return NAN
    if x in (float('inf'), float('-inf')):
      return INF if x > 0 else mul(num(-1), INF)
    return raw('num', (), F(repr(x)))
  raise TypeError(x)


def string(s):
  return raw('str', (), s)


TRUE = raw('bool', (), True)
FALSE = raw('bool', (), False)
NONE = raw('none')
INF = raw('inf')
NAN = raw('nan')
ZERO = raw('num', (), F(0))
ONE = raw('num', (), F(1))
ELLIPSIS = raw('ellipsis')


def const(v):
  if v is None:
    return NONE
  if isinstance(v, bool):
    return TRUE if v else FALSE
  if isinstance(v, (int, float, F)):
    return num(v)
  if isinstance(v, str):
    return string(v)
  if isinstance(v, bytes):
    return raw('bytes', (), v)
  if v is Ellipsis:
    return ELLIPSIS
  if isinstance(v, tuple):
    return tup(*[const(x) for x in v])
  raise TypeError(repr(v))


def is_const(t):
  return t.op in ('num', 'str', 'bool', 'none', 'inf', 'nan', 'bytes')


def bconst(b):
  return TRUE if b else FALSE


# ---------------------------------------------------------------- symbols
CONSTRUCTED: set = set()
CTOR_PARAM: dict = {}        # (class, attribute) -> constructor parameter
_SYMKIND: dict = {}
_OPT: set = set()


def sym(name, kind=None, opt=False):
  t = raw('sym', (), (name, kind, bool(opt)))
  if kind is not None:
    _SYMKIND[t.id] = kind
    t._kind = False
  if opt:
    _OPT.add(t.id)
  return t


_fresh_n = [0]


def fresh(hint='v', kind=None):
  _fresh_n[0] += 1
  t = raw('fresh', (), (hint, _fresh_n[0]))
  if kind is not None:
    _SYMKIND[t.id] = kind
  return t


def bv(k):
  return raw('bv', (), k)


# ---------------------------------------------------------------- kinds
# num, int, bool (scalar or elementwise truth), str, list, dict, set, tuple,
# frame, series, array, index, groupby, fun, none, obj:<Class>, date, None
_ATTRKIND: dict = {}     # (class, attr) -> (kind, opt)
_APIKIND: dict = {}      # api name -> kind

NUMERIC = ('num', 'int')


def kind(t):
  k = t._kind
  if k is False:
    t._kind = None   # guard against recursion
    k = t._kind = _kind(t)
  return k


def is_opt(t):
  if t.id in _OPT:
    return True
  if t.op == 'attr':
    return _ATTRKIND.get((_cls_of(t.a[0]), t.d), (None, False))[1]
  if t.op == 'ite':
    return is_opt(t.a[1]) or is_opt(t.a[2]) or NONE in t.a[1:]
  return t is NONE or kind(t) is None


def _cls_of(t):
  k = kind(t)
  if k and k.startswith('obj:'):
    return k[4:]
  return None


_CALLKIND = {}      # lib call name -> kind (filled by lib)


def _kind(t):
  op = t.op
  if t.id in _SYMKIND:
    return _SYMKIND[t.id]
  if op == 'num':
    return 'int' if t.d.denominator == 1 else 'num'
  if op in ('poly', 'inf', 'nan', 'sqrt', 'pow', 'surd'):
    if op == 'poly':
      for x in t.a:
        k = kind(x)
        if k in ('series', 'array', 'matrix', 'frame'):
          return k
      return 'int' if _poly_is_int(t) else 'num'
    return 'num'
  if op in ('lt0', 'eq0', 'eq', 'isnone', 'truthy', 'in', 'and', 'or', 'not',
            'any', 'bool', 'isfinite', 'isnan', 'isinstance', 'existsx',
            'lt', 'le0'):
    return 'bool'
  if op in ('floor', 'len', 'mod', 'floorpoly', 'isum'):
    return 'int'
  if op in ('str', 'concat', 'fmt', 'join'):
    return 'str'
  if op in ('list', 'fmap', 'tolist', 'lconcat', 'keys', 'splitlines'):
    return 'list'
  if op == 'range':
    return 'list'
  if op == 'tuple':
    return 'tuple'
  if op in ('set', 'setdiff', 'union', 'inter'):
    return 'set'
  if op in ('dict', 'dmap', 'ddel'):
    return 'dict'
  if op == 'none':
    return 'none'
  if op in ('fun', 'lib', 'lam', 'bm'):
    return 'fun'
  if op in ('ite', 'where'):
    k1, k2 = kind(t.a[1]), kind(t.a[2])
    if k1 == k2:
      return k1
    if k1 in NUMERIC and k2 in NUMERIC:
      return 'num'
    if k1 == 'none':
      return k2
    if k2 == 'none':
      return k1
    return None
  if op in ('obj', 'setattr', 'new'):
    if op == 'setattr':
      return kind(t.a[0])
    return 'obj:' + t.d if isinstance(t.d, str) else 'obj:' + t.d[0]
  if op == 'attr':
    return _ATTRKIND.get((_cls_of(t.a[0]), t.d), (None, False))[0] or \
        _CALLKIND.get('.' + t.d)
  if op == 'api':
    return _APIKIND.get(t.d[0])
  if op in ('setcol', 'cols', 'locset'):
    k = kind(t.a[0])
    return k if op == 'locset' else 'frame'
  if op == 'rows':
    return kind(t.a[0])
  if op == 'col':
    return 'series'
  if op == 'gagg':
    return 'series' if kind(t.a[2]) != 'list' else 'frame'
  if op == 'columns':
    return 'index'
  if op == 'call':
    k = _CALLKIND.get(t.d[0])
    if callable(k):
      return k(t)
    return k
  if op == 'getitem':
    k = kind(t.a[0])
    if k == 'str':
      return 'str'
    if k and '[' in k:
      return k[k.index('[') + 1:-1] or None
    return None
  if op == 'draw':
    return 'array'
  return None


# ---------------------------------------------------------------- polynomials
def topoly(t):
  """dict monomial -> Fraction; a monomial is a sorted tuple of (atom, exp)."""
  if t.op == 'num':
    return {(): t.d} if t.d else {}
  if t.op == 'poly':
    return dict(t.d)
  if t is TRUE:
    return {(): F(1)}
  if t is FALSE:
    return {}
  return {((t, F(1)),): F(1)}


def _mono_key(m):
  return tuple((x.id, e) for x, e in m)


def _poly_is_int(t):
  for m, c in t.d:
    if c.denominator != 1:
      return False
    for x, e in m:
      if e.denominator != 1 or e < 0 or kind(x) != 'int':
        return False
  return True


def is_int(t):
  if t.op == 'num':
    return t.d.denominator == 1
  return kind(t) == 'int'


def frompoly(d):
  d = {m: c for m, c in d.items() if c}
  if not d:
    return ZERO
  if len(d) == 1:
    (m, c), = d.items()
    if m == ():
      return raw('num', (), c)
    if c == 1 and len(m) == 1 and m[0][1] == 1:
      return m[0][0]
  # infinity absorbs finite summands
  im = ((INF, F(1)),)
  if im in d and len(d) > 1 and not any(
      any(x is INF for x, _ in m) for m in d if m != im):
    return frompoly({im: d[im]})
  if im in d and len(d) == 1 and abs(d[im]) != 1:
    return frompoly({im: F(1 if d[im] > 0 else -1)})
  items = tuple(sorted(d.items(), key=lambda kv: _mono_key(kv[0])))
  atoms = []
  seen = set()
  for m, _ in items:
    for x, _e in m:
      if x.id not in seen:
        seen.add(x.id)
        atoms.append(x)
  t = raw('poly', atoms, items)
  return _canon_rat(t)


_REP: dict = {}


def _canon_rat(t):
  """Equal rational functions share one representative."""
  f = fp(t)
  r = _REP.get(f)
  if r is None:
    _REP[f] = t
    return t
  return r


def fp(t):
  if t._fp is not None:
    return t._fp
  if t.op == 'num':
    v = t.d.numerator * pow(t.d.denominator, -1, _P) % _P
  elif t.op == 'poly':
    v = 0
    for m, c in t.d:
      w = c.numerator * pow(c.denominator, -1, _P) % _P
      for x, e in m:
        w = w * _fppow(x, e) % _P
      v = (v + w) % _P
  else:
    v = _fppow(t, F(1))
    _REP.setdefault(v, t)
  t._fp = v
  return v


def _fppow(x, e):
  if x.op == 'poly':
    if e.denominator == 1:
      return pow(fp(x), int(e), _P)
    r = random.Random(x.id * 7 + 3).randrange(2, _P)
    k = e * 60
    return pow(r, int(k), _P)
  r = random.Random(x.id * 7 + 5).randrange(2, _P)
  k = e * 60
  if k.denominator != 1:
    r = random.Random(x.id * 7 + 5 + hash(e)).randrange(2, _P)
    return r
  return pow(r, int(k), _P)


def add(*ts):
  d = {}
  for t in ts:
    for m, c in topoly(t).items():
      d[m] = d.get(m, 0) + c
  return frompoly(d)


def neg(t):
  return frompoly({m: -c for m, c in topoly(t).items()})


def sub(a, b):
  return add(a, neg(b))


def _mono_mul(m1, m2):
  """Product of two monomials -> (list of extra factors to expand, mono)."""
  e = {}
  for x, k in m1 + m2:
    e[x] = e.get(x, F(0)) + k
  out = []
  extra = []
  for x, k in e.items():
    if k == 0:
      continue
    if x.op == 'poly' and k >= 1:
      w = k.numerator // k.denominator
      extra.append((x, w))
      k -= w
      if k == 0:
        continue
    if x.op == 'surd' and (k >= 2 or k < 0):
      w = (k.numerator // (2 * k.denominator))
      extra.append((num(x.d ** w if w >= 0 else F(1) / x.d ** (-w)), 1))
      k -= 2 * w
      if k == 0:
        continue
    out.append((x, k))
  return extra, tuple(sorted(out, key=lambda p: p[0].id))


def _pmul(p, q):
  d = {}
  for m1, c1 in p.items():
    for m2, c2 in q.items():
      extra, m = _mono_mul(m1, m2)
      if extra:
        r = {m: c1 * c2}
        for x, w in extra:
          px = topoly(x)
          for _ in range(w):
            r = _pmul(r, px)
        for mm, cc in r.items():
          d[mm] = d.get(mm, 0) + cc
      else:
        d[m] = d.get(m, 0) + c1 * c2
  return {m: c for m, c in d.items() if c}


def mul(*ts):
  p = {(): F(1)}
  for t in ts:
    q = topoly(t)
    if len(p) * len(q) > 4000:
      # too big to expand: keep as an opaque product
      return raw('bigmul', sorted(ts, key=lambda t: t.id))
    p = _pmul(p, q)
  return frompoly(p)


def _content(p):
  """(coefficient, common monomial, primitive polynomial)."""
  ms = list(p)
  common = dict(ms[0])
  for m in ms[1:]:
    dm = dict(m)
    for x in list(common):
      common[x] = min(common[x], dm.get(x, F(0)))
    for x, e in dm.items():
      if x not in common and e < 0:
        common[x] = e
    for x in list(common):
      if x not in dm and common[x] > 0:
        common[x] = F(0)
  # atoms with negative exponents missing in the first monomial
  cm = {x: e for x, e in common.items() if e != 0}
  inv = tuple(sorted(((x, -e) for x, e in cm.items()), key=lambda q: q[0].id))
  prim = _pmul(p, {inv: F(1)}) if inv else dict(p)
  lead = max(prim, key=_mono_key)
  c = abs(prim[lead])
  prim = {m: k / c for m, k in prim.items()}
  mono = tuple(sorted(cm.items(), key=lambda q: q[0].id))
  return c, mono, prim


def _isqrt(n):
  import math
  r = math.isqrt(n)
  return r if r * r == n else None


def power(b, e):
  if e.op != 'num':
    if b is ONE:
      return ONE
    return raw('pow', (b, e))
  e = e.d
  if e == 0:
    return ONE
  if e == 1:
    return b
  if b.op == 'num':
    if b.d == 0:
      return ZERO if e > 0 else raw('pow', (b, raw('num', (), e)))
    if e.denominator == 1:
      return raw('num', (), b.d ** int(e))
    if e.denominator == 2:
      n, m = b.d.numerator, b.d.denominator
      if n > 0:
        rn, rm = _isqrt(n), _isqrt(m)
        if rn is not None and rm is not None:
          return power(raw('num', (), F(rn, rm)), raw('num', (), e * 2))
        # sqrt(n/m) = sqrt(n*m)/m with the square part taken out
        k = n * m
        sq = 1
        q = 2
        while q * q <= k and q < 1000:
          while k % (q * q) == 0:
            k //= q * q
            sq *= q
          q += 1
        s = raw('surd', (), F(k))
        base = mul(raw('num', (), F(sq, m)), s)
        n2 = int(e * 2)
        r = ONE
        for _ in range(abs(n2)):
          r = mul(r, base)
        return r if n2 > 0 else div(ONE, r)
    return raw('pow', (b, raw('num', (), e)))
  p = topoly(b)
  if len(p) == 1:
    (m, c), = p.items()
    coef = power(raw('num', (), c), raw('num', (), e)) if c != 1 else ONE
    if coef.op == 'pow':
      return raw('pow', (b, raw('num', (), e)))
    return mul(coef, frompoly_mono(m, e))
  if e.denominator == 1 and 0 < e <= 8:
    r = {(): F(1)}
    for _ in range(int(e)):
      r = _pmul(r, p)
    return frompoly(r)
  c, mono, prim = _content(p)
  if e.denominator != 1 and prim[max(prim, key=_mono_key)] < 0 and len(
      [1 for k in prim.values() if k > 0]) == 0:
    pass
  sign = 1
  if e.denominator == 1:
    lead = prim[max(prim, key=_mono_key)]
    if lead < 0:
      prim = {m: -k for m, k in prim.items()}
      sign = -1 if int(e) % 2 else 1
  atom = frompoly(prim)
  coef = power(raw('num', (), c), raw('num', (), e))
  if coef.op == 'pow':
    return raw('pow', (b, raw('num', (), e)))
  mm = frompoly_mono(mono, e) if mono else ONE
  if atom.op != 'poly':
    pw = power(atom, raw('num', (), e))
  else:
    w = e.numerator // e.denominator if e.denominator != 1 and e > 0 else 0
    fpart = e - w
    # negative fractional: P^-1/2 = P^-1 * P^1/2
    if e.denominator != 1 and e < 0:
      w = -((-e).numerator // (-e).denominator + 1)
      fpart = e - w
    if e.denominator == 1:
      w, fpart = e, F(0)
    pw = ONE
    if fpart:
      pw = frompoly_raw({((atom, fpart),): F(1)})
    if w:
      if w < 0:
        pw = mul(pw, frompoly_raw({((atom, F(w)),): F(1)}))
      else:
        for _ in range(int(w)):
          pw = mul(pw, atom)
  return mul(num(sign), coef, mm, pw)


def frompoly_raw(d):
  return frompoly(d)


def frompoly_mono(m, e):
  """m ** e for a monomial m."""
  out = ONE
  for x, k in m:
    k2 = k * e
    if e.denominator == 2 and k.denominator == 1 and k.numerator % 2 == 0:
      # sqrt(x**2) is abs(x)
      x = _positive(x)
      if x.op not in ('call', 'sym', 'attr') or x.op == 'call' and \
          x.d[0] == 'abs':
        out = mul(out, power(x, num(k2)))
        continue
    if x.op == 'poly':
      out = mul(out, _polyatom_pow(x, k2))
    elif x.op == 'surd':
      if k2.denominator == 1:
        r = ONE
        for _ in range(abs(int(k2))):
          r = mul(r, x)
        out = mul(out, r if k2 > 0 else _surd_inv(x, int(-k2)))
      else:
        out = mul(out, raw('pow', (x, raw('num', (), k2))))
    else:
      out = mul(out, frompoly({((x, k2),): F(1)}) if k2 != 1 else x)
  return out


def _positive(x):
  """abs(x); an input is taken to be positive already."""
  if x.op == 'ite':
    p, q = [_positive(y) for y in x.a[1:]]
    return x if (p, q) == x.a[1:] else ite(x.a[0], p, q)
  if x.op == 'call' and x.d[0] in ('tppf', 'normppf'):
    # of a probability below one half
    return neg(x)
  if x.op == 'poly' and not _nonneg(x):
    d = topoly(x)
    if len(d) == 1:
      (m, c), = d.items()
      out = num(abs(c))
      for y, k in m:
        out = mul(out, power(_positive(y), num(k)))
      return out
    n = neg(x)
    return raw('call', (x if x.id < n.id else n,), ('abs', ()))
  return x


def _surd_inv(x, n):
  r = ONE
  for _ in range(n):
    r = mul(r, x, raw('num', (), F(1) / x.d))
  return r


def _polyatom_pow(x, k):
  return power(x, raw('num', (), k)) if k.denominator != 1 or k > 0 else \
      frompoly({((x, k),): F(1)})


def div(a, b):
  if b.op == 'num':
    if b.d == 0:
      return raw('div0', (a,))
    return mul(a, raw('num', (), 1 / b.d))
  return mul(a, power(b, num(-1)))


def sqrt(a):
  return power(a, raw('num', (), F(1, 2)))


# ---------------------------------------------------------------- floor / mod
def floor(t):
  """floor of a real (also int() of a non-negative real, see DESIGN)."""
  if t.op == 'num':
    return raw('num', (), F(t.d.numerator // t.d.denominator))
  if is_int(t):
    return t
  if t.op in ('ite', 'where'):
    return (ite if t.op == 'ite' else where)(t.a[0], floor(t.a[1]),
                                             floor(t.a[2]))
  p = topoly(t)
  ip, rest = {}, {}
  for m, c in p.items():
    mono_int = all(e.denominator == 1 and e > 0 and kind(x) == 'int'
                   for x, e in m)
    if mono_int and c.denominator == 1:
      ip[m] = c
    elif m and mono_int and abs(c) > 1:
      w = F(c.numerator // c.denominator)
      ip[m] = w
      rest[m] = c - w
    elif m == ():
      w = F(c.numerator // c.denominator)
      if w:
        ip[m] = w
      if c - w:
        rest[m] = c - w
    else:
      rest[m] = c
  r = frompoly(rest)
  # floor(floor(x)/n) = floor(x/n) for positive integer n
  rp = topoly(r)
  if len(rp) == 1:
    (m, c), = rp.items()
    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'floor' and \
        c > 0 and c.numerator == 1:
      r = mul(m[0][0].a[0], raw('num', (), c))
      return add(frompoly(ip), floor(r))
  if r.op == 'num':
    fl = raw('num', (), F(r.d.numerator // r.d.denominator))
  else:
    fl = raw('floor', (r,))
  return add(frompoly(ip), fl)


def floordiv(a, b):
  if b is ONE and is_int(a):
    return a
  return floor(div(a, b))


def mod(a, b):
  if a.op == 'num' and b.op == 'num' and b.d:
    return raw('num', (), a.d - b.d * (a.d / b.d).__floor__())
  if b.op == 'num' and b.d.denominator == 1 and b.d > 0:
    n = b.d
    p = {}
    for m, c in topoly(a).items():
      mono_int = all(e.denominator == 1 and e > 0 and kind(x) == 'int'
                     for x, e in m)
      if mono_int and c.denominator == 1:
        c = c % n
      if c:
        p[m] = c
    a = frompoly(p)
    if a.op == 'num':
      return mod(a, b)
  return raw('mod', (a, b))


# ---------------------------------------------------------------- booleans
_NOT: dict = {}
_NARY: dict = {}


def not_(t):
  r = _NOT.get(t.id)
  if r is None:
    r = _NOT[t.id] = _not(t)
  return r


def _not(t):
  if t is TRUE:
    return FALSE
  if t is FALSE:
    return TRUE
  if t.op == 'not':
    return t.a[0]
  if t.op == 'and':
    return or_(*[not_(x) for x in t.a])
  if t.op == 'or':
    return and_(*[not_(x) for x in t.a])
  if t.op == 'ite':
    return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
  if t.op == 'where':
    return where(t.a[0], not_(t.a[1]), not_(t.a[2]))
  if t.op == 'rows':
    return rows(not_(t.a[0]), t.a[1])
  return raw('not', (t,))


def _flat(op, ts):
  out = []
  seen = set()
  stack = list(reversed(ts))
  while stack:
    t = stack.pop()
    if t.op == op:
      stack.extend(reversed(t.a))
    elif t.id not in seen:
      seen.add(t.id)
      out.append(t)
  return out


def _nary(op, ts):
  key = (op, STRICT_NAN[0], tuple(t.id for t in ts))
  r = _NARY.get(key)
  if r is None:
    r = _NARY[key] = _nary_(op, ts)
  return r


def _nary_(op, ts):
  unit, zero = (TRUE, FALSE) if op == 'and' else (FALSE, TRUE)
  other = 'or' if op == 'and' else 'and'
  ts = _flat(op, [asbool(t) for t in ts])
  changed = True
  while changed:
    changed = False
    ids = set()
    out = []
    for t in ts:
      if t is unit:
        continue
      if t is zero:
        return zero
      if t.id in ids:
        continue
      ids.add(t.id)
      out.append(t)
    for t in out:
      n = t.a[0] if t.op == 'not' else None
      if n is not None and n.id in ids:
        return zero
    # absorption: and(a, or(a,..)) -> a ; and(a, or(not a, b)) -> and(a, b)
    res = []
    for t in out:
      if t.op == other:
        if any(x.id in ids for x in t.a):
          changed = True
          continue
        keep = [x for x in t.a if not_(x).id not in ids]
        if len(keep) != len(t.a):
          changed = True
          t2 = (or_ if other == 'or' else and_)(*keep)
          res.extend(_flat(op, [t2]))
          continue
      res.append(t)
    ts = res
  if not ts:
    return unit
  if len(ts) == 1:
    return ts[0]
  r = _interval_merge(op, ts)
  if r is not None:
    return r
  r = _implied(op, ts)
  if r is not None:
    return r
  r = _eq_merge(op, ts)
  if r is not None:
    return r
  r = _exists_merge(op, ts)
  if r is not None:
    return r
  r = _exists_absorb(op, ts)
  if r is not None:
    return r
  return raw(op, sorted(ts, key=lambda t: t.id))


def _exists_merge(op, ts):
  """E(A) or E(not A and B) -> E(A) or E(B), and its dual."""
  groups = {}
  for t in ts:
    e = t if op == 'or' else t.a[0] if t.op == 'not' else None
    if e is not None and e.op == 'existsx':
      groups.setdefault(e.a[0].id, []).append((t, e))
  for g in groups.values():
    if len(g) < 2:
      continue
    v = fresh('e', 'int')
    bodies = [open_(e.d, v, e.a[1])[0] for _, e in g]
    for i, b in enumerate(bodies):
      if b.op != 'and':
        continue
      ids = {x.id for x in b.a}
      for j, c in enumerate(bodies):
        if i == j:
          continue
        if c.id in ids or c.op == 'and' and all(
            x.id in ids for x in c.a):
          new = FALSE
        elif not_(c).id in ids:
          n = not_(c)
          new = and_(*[x for x in b.a if x is not n])
        else:
          continue
        e2 = exists(g[i][1].a[0], v, new)
        t2 = e2 if op == 'or' else not_(e2)
        return _nary(op, [t2 if t is g[i][0] else t for t in ts])
  return None


def _holders(t):
  """Containers that are certainly non-empty (hence not None) when t holds."""
  if t.op == 'in':
    return (t.a[1],)
  if t.op == 'existsx':
    n = t.a[0]
    out = []
    if n.op == 'len':
      out.append(n.a[0])
    out.extend(x for y in (t.a[1].a if t.a[1].op == 'and' else (t.a[1],))
               for x in _holders(y) if not x.bvmax)
    return out
  if t.op in ('and',):
    return [x for y in t.a for x in _holders(y)]
  if t.op == 'or':
    hs = [set(_holders(x)) for x in t.a]
    return list(set.intersection(*hs)) if hs else ()
  return ()


def _eq_merge(op, ts):
  """x == 'a' decides every x == 'b' next to it."""
  by = {}
  for t in ts:
    lit, pos = (t.a[0], False) if t.op == 'not' else (t, True)
    if lit.op == 'eq':
      for x, y in (lit.a, lit.a[::-1]):
        if is_const(y) and not is_const(x):
          by.setdefault(x.id, []).append((t, y, pos))
  drop = set()
  for v in by.values():
    if len(v) < 2:
      continue
    for t, y, pos in v:
      if pos != (op == 'and'):
        continue
      for t2, y2, pos2 in v:
        if t2 is t:
          continue
        if y2 is not y:
          if pos2 == pos:
            return FALSE if op == 'and' else TRUE
          drop.add(t2.id)
  if drop:
    return _nary(op, [t for t in ts if t.id not in drop])
  return None


def _implied(op, ts):
  """`L is truthy` / `L is not None` next to something that implies it."""
  if op == 'and':
    weak = [t for t in ts if t.op == 'truthy' or
            t.op == 'not' and t.a[0].op == 'isnone' or
            t.op == 'not' and t.a[0].op == 'eq0' and t.a[0].a[0].op == 'len']
  else:
    weak = [t for t in ts if t.op == 'isnone' or t.op == 'eq0' and
            t.a[0].op == 'len' or
            t.op == 'not' and t.a[0].op == 'truthy']
  if not weak:
    return None
  drop = set()
  for w in weak:
    x = w
    while x.op in ('not', 'isnone', 'truthy', 'eq0', 'len'):
      x = x.a[0]
    for t in ts:
      if t is w or t.id in drop:
        continue
      h = t if op == 'and' else not_(t) if t.op in ('not', 'and') else None
      if h is not None and x in _holders(h):
        drop.add(w.id)
        break
  if drop:
    return _nary(op, [t for t in ts if t.id not in drop])
  return None


def _exists_absorb(op, ts):
  """`some x: P and Q' next to `some x: P'."""
  by = {}
  for t in ts:
    lit, pos = (t.a[0], False) if t.op == 'not' else (t, True)
    if lit.op == 'existsx':
      b = lit.a[1]
      cs = frozenset(x.id for x in (b.a if b.op == 'and' else (b,)))
      by.setdefault((lit.d, lit.a[0].id, pos), []).append((t, cs))
  drop = set()
  for (_, _, pos), v in by.items():
    for t, cs in v:
      for t2, cs2 in v:
        if t2 is not t and cs < cs2:      # t2 implies t
          drop.add(t.id if pos == (op == 'and') else t2.id)
  if drop:
    return _nary(op, [t for t in ts if t.id not in drop])
  return None


def _interval_merge(op, ts):
  """and/or of comparisons on one direction: drop implied ones."""
  by = {}
  for t in ts:
    lit, pos = (t.a[0], False) if t.op == 'not' else (t, True)
    if lit.op in ('lt0', 'eq0'):
      d, c = direction(lit.a[0])
      by.setdefault(d.id, []).append((t, lit, pos))
  if not any(len(v) > 1 for v in by.values()):
    return None
  drop = set()
  for v in by.values():
    if len(v) < 2:
      continue
    for t, lit, pos in v:
      if t.id in drop:
        continue
      for t2, lit2, pos2 in v:
        if t2 is t or t2.id in drop:
          continue
        # does t imply t2 ?
        iv = Ctx.empty().assume_lit(t, True)
        if iv is None:
          return FALSE if op == 'and' else None
        val = iv.eval_atom(lit2)
        if val is None:
          continue
        val = val if pos2 else not val
        if op == 'and':
          if val:
            drop.add(t2.id)
          else:
            return FALSE
        else:
          if val:
            drop.add(t.id)
            break
  if op == 'or':
    # exhaustive pairs  a or not-a style on the same direction
    for v in by.values():
      for t, lit, pos in v:
        iv = Ctx.empty().assume_lit(t, False)
        if iv is None:
          return TRUE
        for t2, lit2, pos2 in v:
          if t2 is t:
            continue
          val = iv.eval_atom(lit2)
          if val is not None and (val if pos2 else not val):
            return TRUE
  if drop:
    return _nary(op, [t for t in ts if t.id not in drop])
  return None


def and_(*ts):
  return _nary('and', ts)


def or_(*ts):
  return _nary('or', ts)


def asbool(t):
  """The truth value of t as a boolean term."""
  k = kind(t)
  if k == 'bool':
    return t
  if t.op == 'num':
    return bconst(t.d != 0)
  if t.op == 'str':
    return bconst(t.d != '')
  if t is NONE:
    return FALSE
  if t.op in ('fun', 'lib', 'lam', 'bm', 'mod', 'cls', 'obj'):
    return TRUE
  if t.op == 'ite':
    return ite(t.a[0], asbool(t.a[1]), asbool(t.a[2]))
  return t if k is None and t.op in ('getitem', 'attr', 'api', 'call', 'col',
                                     'rows', 'sym', 'fresh', 'bv') else t


def truth(t):
  """Python truth test (as in ``if t``)."""
  k = kind(t)
  if k == 'bool':
    return t
  if is_const(t) or t.op in ('fun', 'lib', 'lam', 'bm', 'obj', 'new'):
    return asbool(t)
  if t.op == 'ite':
    return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
  if t.op in ('list', 'tuple', 'set', 'dict', 'fmap', 'dmap', 'setdiff',
              'union', 'inter', 'lconcat', 'keys', 'tolist', 'range'):
    return nonempty(t)
  if k in NUMERIC and not is_opt(t):
    return not_(eq0(t))
  if t.op in ('sum', 'isum', 'len', 'sumx') or (
      t.op == 'call' and t.d[0] == 'nunique'):
    return not_(eq0(t))
  if k in ('list', 'dict', 'set', 'tuple') and not is_opt(t):
    return nonempty(t)
  if t.op == 'first' and t.a[2].op in ('bool', 'num', 'str', 'none'):
    return truth(t.a[2])
  if k == 'str' and t.op in ('sym', 'attr') and 'column' in str(t.d):
    # column names are not empty (documented assumption)
    return not_(isnone(t)) if is_opt(t) else TRUE
  if t.op == 'concat' and any(x.op == 'str' and x.d for x in t.a):
    return TRUE
  return raw('truthy', (t,))


def exists_member(c, pred):
  """Some element of container c satisfies pred."""
  e = elements(c)
  if e is not None:
    return or_(*[and_(g, pred(x)) for g, x in e])
  if c.op in ('set', 'list', 'tuple', 'lconcat'):
    out = []
    for s in c.a:
      if s.op == 'spread':
        out.append(exists_member(s.a[0], pred))
      elif s.op == 'gseg':
        out.append(and_(s.a[0], exists_member(s.a[1], pred)))
      else:
        out.append(pred(s))
    return or_(*out)
  if c.op == 'union':
    return or_(*[exists_member(x, pred) for x in c.a])
  if c.op == 'ite':
    return ite(c.a[0], exists_member(c.a[1], pred),
               exists_member(c.a[2], pred))
  d = domain(c)
  v = fresh('e')
  return exists(d[0], v, pred(d[1](v)))


def nonempty(t):
  """True when container t has an element."""
  op = t.op
  if op in ('list', 'tuple', 'set', 'lconcat'):
    out = []
    for s in t.a:
      if s.op == 'spread':
        out.append(nonempty(s.a[0]))
      elif s.op == 'gseg':
        out.append(and_(s.a[0], nonempty(s.a[1])))
      else:
        return TRUE
    return or_(*out)
  if op == 'dict':
    out = []
    for s in t.a:
      if s.op == 'dspread':
        out.append(nonempty(s.a[0]))
      elif s.op == 'gkv':
        out.append(s.a[0])
      else:
        return TRUE
    return or_(*out)
  if op in ('fmap', 'dmap'):
    n, g, body = t.a[0], t.a[1], t.a[2]
    inner = nonempty(body) if op == 'fmap' else TRUE
    return _exists_closed(t.d, n, and_(g, inner))
  if op in ('tolist', 'keys', 'unique', 'sorted'):
    return nonempty(t.a[0])
  if op == 'setdiff':
    a, b = t.a
    return exists_member(a, lambda x: not_(in_(x, b)))
  if op == 'inter':
    a, b = t.a
    for p, q in ((a, b), (b, a)):
      if elements(p) is not None:
        return exists_member(p, lambda x: in_(x, q))
    return exists_member(a, lambda x: in_(x, b))
  if op == 'union':
    return or_(*[nonempty(x) for x in t.a])
  if op == 'ite':
    return ite(t.a[0], nonempty(t.a[1]), nonempty(t.a[2]))
  return not_(eq0(length(t)))


def elements(t):
  """[(guard, element)] for a container with literal elements, else None."""
  if t.op in ('list', 'tuple', 'set'):
    out = []
    for s in t.a:
      if s.op == 'spread':
        e = elements(s.a[0])
        if e is None:
          return None
        out.extend(e)
      elif s.op == 'gseg':
        e = elements(s.a[1])
        if e is None:
          return None
        out.extend((and_(s.a[0], g), x) for g, x in e)
      else:
        out.append((TRUE, s))
    return out
  if t.op == 'dict':
    out = []
    for s in t.a:
      if s.op == 'kv':
        out.append((TRUE, s.a[0]))
      elif s.op == 'gkv':
        out.append((s.a[0], s.a[1]))
      else:
        e = elements(s.a[0])
        if e is None:
          return None
        out.extend(e)
    return out
  if t.op in ('tolist', 'keys', 'sorted'):
    return elements(t.a[0]) if t.op != 'sorted' else None
  if t.op == 'range' and all(x.op == 'num' for x in t.a):
    a, b, s = [int(x.d) for x in t.a]
    if s and len(range(a, b, s)) <= 64:
      return [(TRUE, num(i)) for i in range(a, b, s)]
  if t.op == 'str' and len(t.d) <= 16:
    return [(TRUE, string(c)) for c in t.d]
  if t.op == 'ite' and is_const(t.a[0]):
    return None
  return None


# ---------------------------------------------------------------- comparisons
STRICT_NAN = [False]


def direction(p):
  """p -> (direction polynomial, offset): p = direction + offset."""
  d = topoly(p)
  c = d.pop((), F(0))
  return frompoly(d), c


def _scale(p, sign=1):
  d = topoly(p)
  ms = [m for m in d if m != ()]
  if not ms:
    return p
  lead = max(ms, key=_mono_key)
  k = abs(d[lead])
  # integers keep integer coefficients: divide by the content instead
  if is_int(p):
    from math import gcd
    g = 0
    for m in ms:
      g = gcd(g, abs(int(d[m])))
    if g > 1:
      return None, g
    return p
  return frompoly({m: c / k for m, c in d.items()})


def _nonneg(t):
  """Sound syntactic non-negativity."""
  if t.op == 'num':
    return t.d >= 0
  if t.op in ('len', 'abs', 'isum'):
    return True
  if t.op == 'attr' and (_cls_of(t.a[0]), t.d) in NONNEG_ATTR:
    return True
  if t.op == 'poly':
    return all(c >= 0 and all(_nonneg(x) or e.denominator % 2 == 0 or
                              (e.denominator == 1 and int(e) % 2 == 0)
                              for x, e in m) for m, c in t.d)
  if t.op == 'floor':
    return _nonneg(t.a[0])
  if t.op == 'call' and t.d[0] in NONNEG_CALLS:
    return True
  if t.op == 'attr' and t.d == 'pvalue':
    return True
  return False


NONNEG_CALLS = {'np.sum_bool', 'nunique', 'std', 'var', 'np.std', 'np.var',
                '.std', '.var', 'abs', 'np.abs', 'np.sqrt', '.count'}
# what the constructor of the design guarantees
NONNEG_ATTR: set = {('ExperimentDesign', n) for n in (
    'runtime_weeks', 'pretest_weeks', 'pre_trim_top_percentile',
    'pre_trim_bottom_percentile', 'post_trim_percentile',
    'n_items_before_trimming', 'n_items_after_pre_trim',
    'n_items_after_post_trim')}


def _over_flags(p, f):
  """f(p) as a condition when p is arithmetic over few truth values only."""
  if p.op != 'poly':
    return None
  d = topoly(p)
  ats = {x.id: x for m in d for x, e in m}
  if not ats or len(ats) > 3 or any(kind(x) != 'bool' or e < 1
                                    for m in d for x, e in m):
    return None

  def go(d, left):
    if not left:
      return f(frompoly(d))
    x = left[0]
    one, nil = {}, {}
    for m, c in d.items():
      r = tuple((y, e) for y, e in m if y is not x)
      one[r] = one.get(r, F(0)) + c
      if len(r) == len(m):
        nil[r] = c
    one = {m: c for m, c in one.items() if c}
    return ite(x, go(one, left[1:]), go(nil, left[1:]))

  return go(dict(d), [ats[k] for k in sorted(ats)])


def lt0(p):
  if p.op == 'num':
    return bconst(p.d < 0)
  r = _over_flags(p, lt0)
  if r is not None:
    return r
  if p is INF:
    return FALSE
  d = topoly(p)
  if len(d) == 1 and ((INF, F(1)),) in d:
    return bconst(d[((INF, F(1)),)] < 0)
  if p is NAN:
    return FALSE
  if p.op in ('ite',):
    return ite(p.a[0], lt0(p.a[1]), lt0(p.a[2]))
  if is_int(p):
    from math import gcd
    g = 0
    for m, c in d.items():
      if m != ():
        g = gcd(g, abs(int(c)))
    c0 = d.get((), F(0))
    if g > 1:
      # g*q + c0 < 0  <=>  q < -c0/g  <=>  q < ceil(-c0/g)
      import math
      thr = math.ceil(-c0 / g)
      d = {m: c / g for m, c in d.items() if m != ()}
      if thr:
        d[()] = F(-thr)
      p = frompoly(d)
      d = topoly(p)
    lead = d[max((m for m in d if m != ()), key=_mono_key)]
    if lead < 0:
      # p < 0 <=> -p > 0 <=> not(-p < 1) <=> not(-p - 1 < 0)
      q = add(neg(p), num(-1))
      return not_(_lt0_atom(q))
    return _lt0_atom(p)
  q = _scale(p)
  return _lt0_atom(q)


def _lt0_atom(p):
  if p.op == 'num':
    return bconst(p.d < 0)
  if _nonneg(p):
    return FALSE
  d, c = direction(p)
  # n < 1  <=>  n == 0 for a non-negative integer n
  if is_int(p) and c == -1 and _nonneg(d):
    return eq0(d)
  # -s < 0 for a count of true values
  dp = topoly(neg(p))
  if c == 0 and len(dp) == 1:
    (m, k), = dp.items()
    if k > 0 and len(m) == 1 and m[0][1] == 1:
      s = m[0][0]
      if s.op == 'sum' and kind(s.a[0]) == 'bool':
        return any_(s.a[0])
      if s.op == 'isum':
        return _exists_closed(s.d, s.a[0], s.a[1])
      if _nonneg(s):
        return not_(eq0(s))
  # 1 - s <= ... : not(s < 1) handled through integers above
  return raw('lt0', (p,))


def eq0(p):
  if p.op == 'num':
    return bconst(p.d == 0)
  r = _over_flags(p, eq0)
  if r is not None:
    return r
  if p in (INF, NAN):
    return FALSE
  if p.op == 'ite':
    return ite(p.a[0], eq0(p.a[1]), eq0(p.a[2]))
  if p.op == 'poly' and len(p.d) == 2 and len(p.a) == 2 and any(
      x.op == 'str' for x in p.a):
    # a value of unknown kind that turned out to be text
    (m, c), (n, e) = p.d
    if len(m) == len(n) == 1 and m[0][1] == n[0][1] == 1 and c == -e:
      return eq(p.a[0], p.a[1])
  d = topoly(p)
  ms = [m for m in d if m != ()]
  lead = d[max(ms, key=_mono_key)]
  p = frompoly({m: c / lead for m, c in d.items()})
  if p.op == 'poly' and p.d and () in dict(p.d):
    # integer direction with non-integer offset can never vanish
    dd, c = direction(p)
    if is_int(dd) and c.denominator != 1:
      return FALSE
  dd, c = direction(p)
  if c > 0 and _nonneg(dd):
    return FALSE
  if c == 0:
    if p.op == 'sum' and kind(p.a[0]) == 'bool':
      return not_(any_(p.a[0]))
    if p.op == 'isum':
      return not_(_exists_closed(p.d, p.a[0], p.a[1]))
    if p.op == 'len':
      x = p.a[0]
      if kind(x) == 'str':
        r = not_(truth(x))
        return and_(not_(isnone(x)), r) if is_opt(x) else r
      if x.op in ('fmap', 'dmap', 'list', 'tuple', 'set', 'dict', 'setdiff',
                  'inter', 'union'):
        return not_(nonempty(x))
      if x.op == 'rows' and kind(x.a[1]) == 'bool':
        return not_(any_(x.a[1]))
    # product of atoms is zero... left alone
  return raw('eq0', (p,))


NONNUM = ('str', 'none', 'list', 'dict', 'set', 'tuple', 'fun', 'bool',
          'frame')


def _numlike(t):
  k = kind(t)
  if k in NUMERIC:
    return True
  if k in NONNUM or (k and k.startswith('obj:')):
    return False
  return True


def eq(a, b):
  if a is b:
    return TRUE
  if a is NONE or b is NONE:
    x = b if a is NONE else a
    return isnone(x)
  if a.op in ('bool',) or b.op in ('bool',):
    x, c = (b, a) if a.op == 'bool' else (a, b)
    if kind(x) == 'bool':
      return x if c is TRUE else not_(x)
    if x.op == 'num':
      return bconst(x.d == (1 if c is TRUE else 0))
  if is_const(a) and is_const(b):
    if a.op == b.op and a.op == 'num':
      return bconst(a.d == b.d)
    if a.op == b.op:
      return bconst(a.d == b.d)
    return FALSE
  if a.op == 'tuple' and b.op == 'tuple':
    if len(a.a) != len(b.a):
      return FALSE
    return and_(*[eq(x, y) for x, y in zip(a.a, b.a)])
  for x, y in ((a, b), (b, a)):
    if x.op == 'ite':
      return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
  for x, y in ((a, b), (b, a)):
    if x.op == 'where' and is_const(x.a[1]) and is_const(x.a[2]):
      return where(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
  if a.op == 'concat' or b.op == 'concat':
    r = _eq_concat(a, b)
    if r is not None:
      return r
  if is_const(a) or is_const(b):
    c, x = (a, b) if is_const(a) else (b, a)
    if c.op == 'str':
      k = kind(x)
      if k in NUMERIC or k == 'bool':
        return FALSE
      if c.d == '' and k in ('str',):
        return not_(truth(x))
      return raw('eq', sorted((a, b), key=lambda t: t.id))
  if kind(a) == 'bool' and kind(b) == 'bool':
    return or_(and_(a, b), and_(not_(a), not_(b)))
  if kind(a) in ('set',) and kind(b) in ('set',) or \
      kind(a) in ('list',) and kind(b) in ('list',):
    for x, y in ((a, b), (b, a)):
      if x.op in ('list', 'set') and not x.a:
        return not_(nonempty(y))
  if _numlike(a) and _numlike(b):
    return eq0(sub(a, b))
  return raw('eq', sorted((a, b), key=lambda t: t.id))


def _eq_concat(a, b):
  """Equality of concatenations: strip the common prefix and suffix."""
  pa = list(a.a) if a.op == 'concat' else [a]
  pb = list(b.a) if b.op == 'concat' else [b]
  if not all(x.op in ('str', 'fmt') or kind(x) == 'str' for x in pa + pb):
    return None
  changed = False
  for side in (0, -1):
    while pa and pb:
      x, y = pa[side], pb[side]
      if x is y:
        pa.pop(side)
        pb.pop(side)
        changed = True
        continue
      if x.op == 'str' and y.op == 'str':
        n = 0
        u, v = (x.d, y.d) if side == 0 else (x.d[::-1], y.d[::-1])
        while n < min(len(u), len(v)) and u[n] == v[n]:
          n += 1
        if n < len(u) and n < len(v):
          return FALSE
        for l, w in ((pa, u), (pb, v)):
          w = w[n:]
          if w:
            l[side] = string(w if side == 0 else w[::-1])
          else:
            l.pop(side)
        changed = True
        continue
      break
  if not changed:
    return None
  if not pa and not pb:
    return TRUE
  for l, o in ((pa, pb), (pb, pa)):
    if not l:
      if any(x.op == 'str' and x.d for x in o):
        return FALSE
      return and_(*[eq(string(''), x) for x in o])
  return eq(concat(*pa), concat(*pb))


def lt(a, b):
  for x, f in ((a, lambda v: lt(v, b)), (b, lambda v: lt(a, v))):
    if x.op == 'ite':
      return ite(x.a[0], f(x.a[1]), f(x.a[2]))
  if kind(a) == 'str' and kind(b) == 'str' or kind(a) in ('set', 'list'):
    return raw('lt', (a, b))
  if a.op == 'tuple' or b.op == 'tuple':
    return raw('lt', (a, b))
  return lt0(sub(a, b))


def le(a, b):
  if STRICT_NAN[0]:
    for x, f in ((a, lambda v: le(v, b)), (b, lambda v: le(a, v))):
      if x.op == 'ite':
        return ite(x.a[0], f(x.a[1]), f(x.a[2]))
    p = sub(a, b)
    if p.op == 'num':
      return bconst(p.d <= 0)
    if not is_int(p):
      return raw('le0', (_scale(p),))
  return not_(lt(b, a))


def isnone(t):
  if t is NONE:
    return TRUE
  if t.op == 'ite':
    return ite(t.a[0], isnone(t.a[1]), isnone(t.a[2]))
  if is_const(t) or t.op in ('list', 'dict', 'tuple', 'set', 'poly', 'fmap',
                             'concat', 'setcol', 'fun', 'lam', 'obj', 'new',
                             'and', 'or', 'not', 'lt0', 'eq0', 'eq', 'call',
                             'rows', 'cols', 'col', 'lib', 'cls', 'dmap',
                             'fmt', 'len', 'bm', 'where', 'floor'):
    if t.op == 'call' and t.d[0] in ('.get', 'getattr'):
      return raw('isnone', (t,))
    return FALSE
  k = kind(t)
  if k is not None and not is_opt(t):
    return FALSE
  return raw('isnone', (t,))


# ---------------------------------------------------------------- ite / where
def ite(c, a, b):
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is b:
    return a
  if c.op == 'not':
    return ite(c.a[0], b, a)
  if c.op == 'or' and all(x.op == 'not' for x in c.a):
    return ite(not_(c), b, a)
  if a.op == 'ite':
    if a.a[0] is c:
      return ite(c, a.a[1], b)
  if b.op == 'ite':
    if b.a[0] is c:
      return ite(c, a, b.a[2])
    if b.a[1] is a:
      return ite(or_(c, b.a[0]), a, b.a[2])
    if b.a[2] is a:
      return ite(or_(c, not_(b.a[0])), a, b.a[1])
  if a.op == 'ite':
    if a.a[1] is b:
      return ite(and_(c, not_(a.a[0])), a.a[2], b)
    if a.a[2] is b:
      return ite(and_(c, a.a[0]), a.a[1], b)
  ka, kb = kind(a), kind(b)
  if ka == 'bool' and kb == 'bool':
    return or_(and_(c, a), and_(not_(c), b))
  # x or {} : ite(truthy(x), x, <empty>)
  if c.op == 'truthy' and c.a[0] is a and b.op in ('list', 'dict', 'set',
                                                   'tuple') and not b.a:
    if kind(a) in (b.op, None) or kind(a) == 'list':
      return ite(isnone(a), b, a)
  if c.op == 'truthy' and c.a[0] is a and b is NONE and False:
    return a
  if c.op == 'isnone' and a is NONE and b is c.a[0]:
    return b
  # max / min normal form is left to lt0 conditions
  if (a.op == 'concat' or b.op == 'concat') and ka == 'str' and kb == 'str':
    p, x, y, s = _common(a, b)
    if p or s:
      return concat(*p, ite(c, x, y), *s)
  return raw('ite', (c, a, b))


def _common(a, b):
  """(common prefix, rest of a, rest of b, common suffix) of two texts."""
  pa = list(a.a) if a.op == 'concat' else [a]
  pb = list(b.a) if b.op == 'concat' else [b]
  pre, suf = [], []

  def strip(x, y, out, end):
    while x and y:
      i = -1 if end else 0
      u, v = x[i], y[i]
      if u is v:
        out.append(u)
        x.pop(i)
        y.pop(i)
        continue
      if u.op == 'str' and v.op == 'str':
        m = 0
        p, q = (u.d[::-1], v.d[::-1]) if end else (u.d, v.d)
        while m < len(p) and m < len(q) and p[m] == q[m]:
          m += 1
        if not m:
          break
        c = p[:m][::-1] if end else p[:m]
        out.append(string(c))
        for l, w in ((x, p), (y, q)):
          l.pop(i)
          r = w[m:][::-1] if end else w[m:]
          if r:
            l.insert(len(l) if end else 0, string(r))
        if len(p) > m and len(q) > m:
          break
        continue
      break
  strip(pa, pb, pre, False)
  strip(pa, pb, suf, True)
  return pre, concat(*pa), concat(*pb), suf[::-1]


def join(sep, l):
  """sep.join(l)."""
  e = elements(l)
  if e is None:
    return raw('join', (sep, l))
  if not e:
    return string('')
  j = next((i for i, (g, _) in enumerate(e) if g is TRUE), None)
  if j is None:
    return raw('join', (sep, l))
  out = []
  empty = string('')
  for i, (g, x) in enumerate(e):
    if i < j:
      out.append(ite(g, concat(x, sep), empty))
    elif i == j:
      out.append(x)
    else:
      out.append(ite(g, concat(sep, x), empty))
  return concat(*out)


def where(c, a, b):
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is b:
    return a
  if c.op == 'not':
    return where(c.a[0], b, a)
  # a[mask] = b[mask] selects the same positions on both sides
  a, b = _unmask(a, c), _unmask(b, not_(c))
  if a is b:
    return a
  if a.op == 'where' and a.a[0] is c:
    return where(c, a.a[1], b)
  if b.op == 'where' and b.a[0] is c:
    return where(c, a, b.a[2])
  if b.op == 'where' and b.a[1] is a:
    return where(or_(c, b.a[0]), a, b.a[2])
  if kind(a) == 'bool' and kind(b) == 'bool':
    return or_(and_(c, a), and_(not_(c), b))
  return raw('where', (c, a, b))


def _unmask(t, c):
  """t with x[c] replaced by x at element-wise positions."""
  if t.op in ('getitem', 'rows') and t.a[1] is c:
    return t.a[0]
  if t.op == 'poly':
    new = {x: _unmask(x, c) for x in t.a}
    return t if all(new[x] is x for x in new) else poly_map(t, new)
  return t


# ---------------------------------------------------------------- any / all
def any_(t):
  if t.op == 'bool':
    return t
  if t.op in ('any', 'existsx', 'isnone'):
    return t
  if t.op == 'or':
    return or_(*[any_(x) for x in t.a])
  if t.op == 'ite':
    return ite(t.a[0], any_(t.a[1]), any_(t.a[2]))
  e = elements(t)
  if e is not None:
    return or_(*[and_(g, truth(x)) for g, x in e])
  if t.op == 'fmap':
    body = t.a[2]
    e = elements(body)
    if e is not None:
      return _exists_closed(t.d, t.a[0], and_(
          t.a[1], or_(*[and_(g, truth(x)) for g, x in e])))
  if t.op == 'and' and any(scalar_bool(x) for x in t.a):
    sc = [x for x in t.a if scalar_bool(x)]
    el = [x for x in t.a if not scalar_bool(x)]
    return and_(*sc, any_(and_(*el))) if el else t
  if scalar_bool(t):
    return t
  if t.op == 'rows' and t.a[0].op == 'bool':
    return t
  return raw('any', (t,))


def all_(t):
  e = elements(t)
  if e is not None:
    return and_(*[or_(not_(g), truth(x)) for g, x in e])
  if t.op == 'fmap':
    body = t.a[2]
    e = elements(body)
    if e is not None:
      return not_(_exists_closed(t.d, t.a[0], and_(
          t.a[1], or_(*[and_(g, not_(truth(x))) for g, x in e]))))
  if kind(t) == 'bool':
    return not_(any_(not_(t)))
  return not_(any_(not_(t)))


def scalar_bool(t):
  """Definitely a single truth value."""
  if t.op in ('bool', 'isnone', 'truthy', 'any', 'existsx', 'isinstance'):
    return True
  if t.op in ('and', 'or', 'not'):
    return all(scalar_bool(x) for x in t.a)
  if t.op in ('lt0', 'eq0', 'le0'):
    return all(scalar_num(x) for x in (t.a[0].a if t.a[0].op == 'poly'
                                       else t.a))
  if t.op == 'eq':
    return all(kind(x) in ('str', 'int', 'none') or is_const(x) for x in t.a)
  if t.op == 'in':
    return kind(t.a[0]) in ('str', 'int', 'tuple')
  if t.op == 'attr':
    return kind(t) == 'bool'
  if t.op == 'sym':
    return kind(t) == 'bool'
  return False


def scalar_num(t):
  if t.op in ('num', 'inf', 'len', 'sum', 'isum'):
    return True
  if t.op == 'poly':
    return all(scalar_num(x) for x in t.a)
  if t.op in ('sym', 'attr'):
    return kind(t) in NUMERIC
  if t.op == 'floor':
    return scalar_num(t.a[0])
  if t.op == 'red':
    return True
  return False


# ---------------------------------------------------------------- binders
def close(v, *terms):
  """Replace the fresh variable v by the canonical bound variable."""
  k = 1 + max([t.bvmax for t in terms] or [0])
  m = {v: bv(k)}
  return k, [subst(t, m) for t in terms]


def open_(k, v, *terms):
  return [subst(t, {bv(k): v}) for t in terms]


def _exists_closed(k, n, g):
  if g is FALSE:
    return FALSE
  v = fresh('e', 'int')
  g, = open_(k, v, g)
  return exists(n, v, g)


def exists(n, v, g):
  """exists v in [0, n): g."""
  if g is FALSE or n is ZERO:
    return FALSE
  if n.op == 'num':
    if n.d <= 8:
      return or_(*[subst(g, {v: num(i)}) for i in range(int(n.d))])
  if v.id not in g.fv:
    return and_(g, lt0(neg(n)))
  if g.op == 'or':
    return or_(*[exists(n, v, x) for x in g.a])
  if g.op == 'and':
    out = [x for x in g.a if v.id not in x.fv]
    if out:
      inn = [x for x in g.a if v.id in x.fv]
      return and_(*out, exists(n, v, and_(*inn)))
  if g.op == 'eq':
    for x, y in (g.a, g.a[::-1]):
      if y.op == 'getitem' and y.a[1] is v and v.id not in y.a[0].fv and \
          v.id not in x.fv and n is length(y.a[0]):
        c = y.a[0].a[0] if y.a[0].op == 'keys' else y.a[0]
        return in_(x, c)
  k, (g2,) = close(v, g)
  return raw('existsx', (n, g2), k)


def fmap(n, v, guard, body):
  """Concatenation over v in [0, n) of (body if guard); body a list term."""
  if guard is FALSE or n is ZERO:
    return lst()
  if body.op == 'list' and not body.a:
    return lst()
  if n.op == 'num' and n.d <= 64:
    segs = []
    for i in range(int(n.d)):
      m = {v: num(i)}
      g, b = subst(guard, m), subst(body, m)
      segs.append(gseg(g, b))
    return lst(*segs)
  # identity map:  [x for x in xs]
  if guard is TRUE and body.op == 'list' and len(body.a) == 1:
    x = body.a[0]
    if x.op == 'getitem' and x.a[1] is v and v.id not in x.a[0].fv and \
        n is length(x.a[0]):
      return tolist(x.a[0])
  if body.op == 'list' and len(body.a) == 1 and body.a[0].op == 'gseg':
    guard = and_(guard, body.a[0].a[0])
    body = body.a[0].a[1]
  if body.op == 'list' and len(body.a) == 1 and body.a[0].op == 'spread':
    body = body.a[0].a[0]
  k, (g, b) = close(v, guard, body)
  return raw('fmap', (n, g, b), k)


def first(k, n, g, body):
  """body at the first index where g holds (k: bound index)."""
  if k not in _bvs(body):
    return body
  return raw('first', (n, g, body), k)


def _bvs(t, memo=None):
  """Indices of the bound variables occurring in t."""
  if t.op == 'bv':
    return {t.d}
  if not t.bvmax:
    return set()
  out = set()
  for x in t.a:
    out |= _bvs(x)
  return out


def gseg(g, l):
  if g is FALSE:
    return raw('spread', (lst(),))
  if g is TRUE:
    return raw('spread', (l,))
  return raw('gseg', (g, l))


def dmap(n, v, guard, k, val):
  if guard is FALSE:
    return raw('dict')
  if n.op == 'num' and n.d <= 64:
    d = raw('dict')
    for i in range(int(n.d)):
      m = {v: num(i)}
      d = dset(d, subst(k, m), subst(val, m), subst(guard, m))
    return d
  kk, (g, k, val) = close(v, guard, k, val)
  return raw('dmap', (n, g, k, val), kk)


def isum(n, v, body):
  if v.id not in body.fv:
    return mul(n, body)
  if kind(body) == 'bool':
    k, (b,) = close(v, body)
    return raw('isum', (n, b), k)
  k, (b,) = close(v, body)
  return raw('sumx', (n, b), k)


def lam(vs, body):
  ts = [body]
  k = 1 + body.bvmax
  m = {}
  for i, v in enumerate(vs):
    m[v] = bv(k + i)
  body = subst(body, m)
  return raw('lam', (body,), (k, len(vs)))


def lam_apply(f, args):
  k, n = f.d
  return subst(f.a[0], {bv(k + i): a for i, a in enumerate(args[:n])})


# ---------------------------------------------------------------- containers
def _norm_segs(items):
  out = []
  for s in items:
    if s.op == 'spread':
      x = s.a[0]
      if x.op in ('list', 'tuple', 'lconcat'):
        out.extend(x.a)
        continue
      if x.op == 'ite' and kind(x) == 'list':
        common = None
        if x.a[2].op == 'list' and not x.a[2].a:
          out.append(raw('gseg', (x.a[0], x.a[1])))
          continue
        if x.a[1].op == 'list' and not x.a[1].a:
          out.append(raw('gseg', (not_(x.a[0]), x.a[2])))
          continue
        del common
      if x.op == 'tolist':
        x = x.a[0]
      out.append(raw('spread', (x,)))
    elif s.op == 'gseg':
      g, l = s.a
      if g is TRUE:
        out.extend(_norm_segs([raw('spread', (l,))]))
      elif g is FALSE or (l.op == 'list' and not l.a):
        continue
      else:
        out.append(s)
    else:
      out.append(s)
  return out


def lst(*items):
  out = _norm_segs(items)
  if len(out) == 1 and out[0].op == 'spread':
    return tolist(out[0].a[0])
  return raw('list', out)


def tup(*items):
  return raw('tuple', _norm_segs(items))


def tolist(x):
  if x.op in ('list', 'fmap', 'tolist'):
    return x
  if x.op == 'tuple':
    return raw('list', x.a)
  if x.op == 'ite':
    return ite(x.a[0], tolist(x.a[1]), tolist(x.a[2]))
  e = elements(x) if x.op == 'range' else None
  if e is not None:
    return lst(*[y for _, y in e])
  if kind(x) == 'list':
    return x
  if x.op == 'dict':
    e = elements(x)
    if e is not None:
      return lst(*[gseg(g, raw('list', (y,))) if g is not TRUE else y
                   for g, y in e])
  if x.op == 'dmap':
    return keys(x)
  return raw('tolist', (x,))


def lconcat(a, b):
  """list + list."""
  for x, f in ((a, lambda v: lconcat(v, b)), (b, lambda v: lconcat(a, v))):
    if x.op == 'ite' and not (x.a[1].op == 'list' and not x.a[1].a) and not (
        x.a[2].op == 'list' and not x.a[2].a):
      pa, pb = x.a[1], x.a[2]
      if x is a and pa.op == pb.op == 'list':
        # common prefix:  ite(c, [p, q], [p]) -> [p] + ([q] if c)
        n = 0
        while n < min(len(pa.a), len(pb.a)) and pa.a[n] is pb.a[n]:
          n += 1
        if n and (n == len(pb.a) or n == len(pa.a)):
          pre = list(pa.a[:n])
          if n == len(pb.a):
            g, rest = x.a[0], pa.a[n:]
          else:
            g, rest = not_(x.a[0]), pb.a[n:]
          return lconcat(lst(*pre, gseg(g, raw('list', rest))), b)
  mk = tup if a.op == 'tuple' and b.op == 'tuple' else lst
  return mk(raw('spread', (a,)), raw('spread', (b,)))


def merge_lists(c, a, b):
  """ite(c, a, b) for lists sharing a prefix."""
  def pre(x):
    return x.a if x.op == 'list' else (raw('spread', (x,)),)
  pa, pb = pre(a), pre(b)
  n = 0
  while n < min(len(pa), len(pb)) and pa[n] is pb[n]:
    n += 1
  if n == 0 and pa and pb:
    return ite(c, a, b)
  ra, rb = pa[n:], pb[n:]
  if not ra and not rb:
    return a
  if ra and rb:
    mid = ite(c, raw('list', ra), raw('list', rb))
    return lst(*pa[:n], raw('spread', (mid,))) if n else ite(c, a, b)
  if ra:
    return lst(*pa[:n], gseg(c, raw('list', ra)))
  return lst(*pa[:n], gseg(not_(c), raw('list', rb)))


def mkset(*items):
  out = []
  seen = set()
  for s in _norm_segs(items):
    if s.op == 'spread' and s.a[0].op == 'set':
      for y in s.a[0].a:
        if y.id not in seen:
          seen.add(y.id)
          out.append(y)
      continue
    if s.op == 'spread':
      x = s.a[0]
      while x.op in ('tolist', 'keys', 'unique', 'sorted', 'columns_') or (
          x.op == 'call' and x.d[0] in ('unique', '.values')):
        x = x.a[0]
      if x.op == 'dict' and elements(x) is not None:
        for g, y in elements(x):
          z = y if g is TRUE else raw('gseg', (g, raw('list', (y,))))
          if z.id not in seen:
            seen.add(z.id)
            out.append(z)
        continue
      s = raw('spread', (x,))
    if s.id not in seen:
      seen.add(s.id)
      out.append(s)
  return raw('set', sorted(out, key=lambda t: t.id))


def keys(d):
  if d.op == 'dict':
    e = elements(d)
    if e is not None:
      return lst(*[y if g is TRUE else gseg(g, raw('list', (y,)))
                   for g, y in e])
    if merged(d):
      # the keys of the first part, and the others of what is merged into it
      out, seen = [], []
      for s in d.a:
        if s.op == 'kv':
          seen.append(s.a[0])
          out.append(s.a[0])
        else:
          g, x = optional(s.a[0])
          kk = keys(x)
          v = fresh('k', 'int')
          k = getitem(kk, v)
          b = fmap(length(kk), v, not_(or_(*[eq(k, y) for y in seen])),
                   raw('list', (k,)))
          out.append(gseg(g, b))
      return lst(*out)
  if d.op == 'dmap':
    v = fresh('k', 'int')
    g, k = open_(d.d, v, d.a[1], d.a[2])
    return fmap(d.a[0], v, g, raw('list', (k,)))
  if d.op == 'ite':
    return ite(d.a[0], keys(d.a[1]), keys(d.a[2]))
  return raw('keys', (novalues(d),))


def merged(d):
  """Constant keys, with one other dictionary merged into it."""
  return d.op == 'dict' and len(d.a) > 1 and d.a[-1].op == 'dspread' and \
      all(s.op == 'kv' and is_const(s.a[0]) for s in d.a[:-1])


def novalues(d):
  """The dictionary d with its values forgotten (only the keys matter)."""
  if d.op != 'dict':
    return d
  segs = []
  for s in d.a:
    if s.op == 'kv':
      s = raw('kv', (s.a[0], NONE))
    elif s.op == 'gkv':
      s = raw('gkv', (s.a[0], s.a[1], NONE))
    segs.append(s)
  return raw('dict', segs, d.d)


def values(d):
  if d.op == 'dict' and elements(d) is not None:
    out = []
    for s in d.a:
      if s.op == 'kv':
        out.append(s.a[1])
      elif s.op == 'gkv':
        out.append(gseg(s.a[0], raw('list', (s.a[2],))))
      else:
        return raw('values', (d,))
    return lst(*out)
  if d.op == 'dict' and len(d.a) > 1 and d.a[-1].op == 'dspread' and \
      d.a[-1].a[0].op == 'dmap':
    # keys that the last part does not set again
    m = d.a[-1].a[0]
    v = fresh('k', 'int')
    g, k, x = open_(m.d, v, *m.a[1:])
    known = set(g.a) if g.op == 'and' else {g}
    out = []
    for s in d.a[:-1]:
      if s.op not in ('kv', 'gkv') or not is_const(s.a[-2]) or \
          not_(eq(k, s.a[-2])) not in known:
        return raw('values', (d,))
      out.append(s.a[1] if s.op == 'kv' else
                 gseg(s.a[0], raw('list', (s.a[2],))))
    return lst(*out, raw('spread', (fmap(m.a[0], v, g, raw('list', (x,))),)))
  if d.op == 'dmap':
    v = fresh('k', 'int')
    g, k, x = open_(d.d, v, d.a[1], d.a[2], d.a[3])
    return fmap(d.a[0], v, g, raw('list', (x,)))
  return raw('values', (d,))


def distinct(a, b):
  """Definitely different keys / column names.

  Symbols naming different column parameters are assumed to hold different
  names (documented assumption).
  """
  if a is b:
    return False
  if is_const(a) and is_const(b):
    return True
  if a.op == 'tuple' and b.op == 'tuple':
    return len(a.a) != len(b.a) or any(distinct(x, y)
                                       for x, y in zip(a.a, b.a))
  if 'tuple' in (a.op, b.op):
    return True
  leaf = ('sym', 'str', 'attr', 'concat', 'num')
  if a.op in leaf and b.op in leaf:
    return True
  return False


def distinct_col(a, b):
  """Different columns: a name stands for all the columns (name, ...)."""
  if (a.op == 'tuple') != (b.op == 'tuple'):
    a, b = [x.a[0] if x.op == 'tuple' and x.a else x for x in (a, b)]
  return distinct(a, b)


def kv(k, v):
  return raw('kv', (k, v))


def dset(d, k, v, guard=TRUE):
  if guard is FALSE:
    return d
  if d.op == 'ite':
    return ite(d.a[0], dset(d.a[1], k, v, guard), dset(d.a[2], k, v, guard))
  ents = list(d.a) if d.op == 'dict' else [raw('dspread', (d,))]
  for i in range(len(ents) - 1, -1, -1):
    s = ents[i]
    if s.op == 'kv' and s.a[0] is k:
      ents[i] = kv(k, ite(guard, v, s.a[1]))
      return raw('dict', ents)
    if s.op == 'gkv' and s.a[1] is k:
      ents[i] = gkv(or_(s.a[0], guard), k, ite(guard, v, s.a[2]))
      return raw('dict', ents)
    if s.op == 'dspread':
      break
    kk = s.a[0] if s.op == 'kv' else s.a[1]
    if not distinct(kk, k):
      break
  ents.append(gkv(guard, k, v))
  return raw('dict', ents)


def gkv(g, k, v):
  if g is TRUE:
    return kv(k, v)
  return raw('gkv', (g, k, v))


def dmerge(a, b):
  if b.op == 'dict':
    d = a
    for s in b.a:
      if s.op == 'kv':
        d = dset(d, s.a[0], s.a[1])
      elif s.op == 'gkv':
        d = dset(d, s.a[1], s.a[2], s.a[0])
      else:
        d = _dspread(d, s.a[0])
    return d
  if b.op == 'ite':
    if a.op == 'dict' and a.a and optional(b)[0] is not TRUE:
      return _dspread(a, b)
    return ite(b.a[0], dmerge(a, b.a[1]), dmerge(a, b.a[2]))
  if a.op == 'ite':
    return ite(a.a[0], dmerge(a.a[1], b), dmerge(a.a[2], b))
  return _dspread(a, b)


def optional(x):
  """x as (condition, dictionary), where it is empty otherwise."""
  if x.op == 'ite':
    for c, p, q in ((x.a[0], x.a[1], x.a[2]), (not_(x.a[0]), x.a[2], x.a[1])):
      if q.op == 'dict' and not q.a:
        return c, p
  return TRUE, x


def _dspread(d, x):
  if d.op == 'dict' and not d.a:
    return x
  ents = list(d.a) if d.op == 'dict' else [raw('dspread', (d,))]
  return raw('dict', ents + [raw('dspread', (x,))])


def ddel(d, k):
  if d.op == 'dict':
    out = []
    for s in d.a:
      if s.op == 'kv' and s.a[0] is k or s.op == 'gkv' and s.a[1] is k:
        continue
      kk = s.a[0] if s.op == 'kv' else s.a[1] if s.op == 'gkv' else None
      if kk is None or not distinct(kk, k):
        return raw('ddel', (d, k))
      out.append(s)
    return raw('dict', out)
  if d.op == 'ite':
    return ite(d.a[0], ddel(d.a[1], k), ddel(d.a[2], k))
  if d.op == 'ddel' and is_const(k):
    # removals of constant keys commute
    ks, base = [k], d
    while base.op == 'ddel' and is_const(base.a[1]):
      if base.a[1] is not k:
        ks.append(base.a[1])
      base = base.a[0]
    for x in sorted(ks, key=lambda x: x.id):
      base = raw('ddel', (base, x))
    return base
  return raw('ddel', (d, k))


def dget(d, k, default=None):
  """d[k] (default None means KeyError is not modelled)."""
  if d.op == 'ite':
    return ite(d.a[0], dget(d.a[1], k, default), dget(d.a[2], k, default))
  if d.op == 'dict':
    ents = list(d.a)
    pend = []
    i = len(ents) - 1
    while i >= 0:
      s = ents[i]
      if s.op == 'dspread':
        if merged(d) and default is None:
          g, x = optional(s.a[0])
          if k.op == 'getitem' and k.a[0].op == 'keys' and \
              k.a[0].a[0] is novalues(x):
            return dget(x, k)
          rest = raw('dict', ents[:-1])
          if not is_const(k):
            return ite(and_(g, in_(k, x)), dget(x, k), dget(rest, k))
          return ite(and_(g, in_(k, x)), dget(x, k), dget(rest, k)) \
              if any(y.a[0] is k for y in rest.a) else dget(x, k)
        base = raw('dict', ents[:i + 1]) if i else s.a[0]
        # cannot look through: is k known to be absent from the spread?
        res = _dget_raw(base, k, default)
        break
      g, kk, v = (TRUE, s.a[0], s.a[1]) if s.op == 'kv' else s.a
      if kk is k:
        if g is TRUE:
          res = v
          break
        pend.append((g, v))
      elif not distinct(kk, k) or (not is_const(kk) or not is_const(k)):
        pend.append((and_(g, eq(kk, k)), v))
      i -= 1
    else:
      res = default if default is not None else raw('keyerror', (d, k))
    if res.op == 'keyerror' and pend and pend[-1][0] is not TRUE:
      res = pend.pop()[1]      # a missing key raises: any value will do
    for g, v in reversed(pend):
      res = ite(g, v, res)
    return res
  return _dget_raw(d, k, default)


def _dget_raw(d, k, default):
  while d.op == 'ddel' and distinct(d.a[1], k):
    d = d.a[0]
  if d.op == 'dmap':
    v = fresh('k', 'int')
    g, kk, val = open_(d.d, v, d.a[1], d.a[2], d.a[3])
    # { key(i): value } looked up at its own key expression
    if kk.op == 'getitem' and kk.a[1] is v and k.op == 'getitem' and \
        k.a[0] is kk.a[0] and v.id not in kk.a[0].fv:
      r = subst(val, {v: k.a[1]})
      if g is TRUE or default is None:
        return r
  if default is not None:
    return raw('call', (d, k, default), ('.get', ()))
  return raw('getitem', (d, k))


def din(k, d):
  """k in dict d."""
  if d.op == 'ite':
    return ite(d.a[0], din(k, d.a[1]), din(k, d.a[2]))
  if d.op == 'dict':
    out = []
    for s in d.a:
      if s.op == 'kv':
        out.append(eq(k, s.a[0]))
      elif s.op == 'gkv':
        out.append(and_(s.a[0], eq(k, s.a[1])))
      else:
        out.append(din(k, s.a[0]))
    return or_(*out)
  if d.op == 'dmap':
    v = fresh('k', 'int')
    g, kk = open_(d.d, v, d.a[1], d.a[2])
    return exists(d.a[0], v, and_(g, eq(k, kk)))
  if d.op == 'ddel':
    return and_(not_(eq(k, d.a[1])), din(k, d.a[0]))
  return raw('in', (k, d))


_STRIP = ('tolist', 'keys', 'unique', 'sorted')


def in_(x, c):
  """x in c (also element-wise isin)."""
  while True:
    if c.op in _STRIP:
      c = c.a[0]
      continue
    if c.op == 'call' and c.d[0] in ('unique', '.values', '.tolist',
                                     'drop_duplicates', '.to_list',
                                     '.dropna_') and len(c.a) == 1:
      c = c.a[0]
      continue
    if c.op == 'set' and len(c.a) == 1 and c.a[0].op == 'spread':
      c = c.a[0].a[0]
      continue
    break
  if x.op == 'ite':
    return ite(x.a[0], in_(x.a[1], c), in_(x.a[2], c))
  if c.op == 'ite':
    return ite(c.a[0], in_(x, c.a[1]), in_(x, c.a[2]))
  if c.op in ('list', 'tuple', 'set', 'lconcat'):
    out = []
    for s in c.a:
      if s.op == 'spread':
        out.append(in_(x, s.a[0]))
      elif s.op == 'gseg':
        out.append(and_(s.a[0], in_(x, s.a[1])))
      else:
        out.append(eq(x, s))
    return or_(*out)
  if c.op in ('dict', 'dmap', 'ddel'):
    return din(x, c)
  if c.op == 'fmap':
    v = fresh('e', 'int')
    g, b = open_(c.d, v, c.a[1], c.a[2])
    return exists(c.a[0], v, and_(g, in_(x, b)))
  if c.op == 'setdiff':
    return and_(in_(x, c.a[0]), not_(in_(x, c.a[1])))
  if c.op == 'inter':
    return and_(*[in_(x, y) for y in c.a])
  if c.op == 'union':
    return or_(*[in_(x, y) for y in c.a])
  if c.op == 'columns':
    return in_columns(x, c.a[0])
  if c.op == 'range':
    a, b, s = c.a
    if s is ONE:
      return and_(not_(lt(x, a)), lt(x, b))
  return raw('in', (x, c))


def in_columns(x, df):
  while df.op == 'rows':
    df = df.a[0]
  if df.op == 'setcol':
    c = df.a[1]
    if c.op == 'tuple' and x.op != 'tuple' and c.a:
      return or_(eq(x, c.a[0]), in_columns(x, df.a[0]))
    return or_(eq(x, df.a[1]) if not distinct(x, df.a[1]) or
               (is_const(x) and is_const(df.a[1])) else FALSE,
               in_columns(x, df.a[0]))
  if df.op == 'locset':
    return in_columns(x, df.a[0])
  if df.op == 'cols':
    return in_(x, df.a[1])
  if df.op == 'ite':
    return ite(df.a[0], in_columns(x, df.a[1]), in_columns(x, df.a[2]))
  return raw('in', (x, raw('columns', (df,))))


def length(t):
  while True:
    if t.op in ('tolist', 'keys', 'sorted', 'values', 'setcol', 'locset',
                'reversed'):
      t = t.a[0]
      continue
    if t.op == 'call' and t.d[0] in ('.values', '.index', '.tolist',
                                     'np.sort', 'np.argsort', '.copy',
                                     '.rank', '.reset_index', '.set_index',
                                     '.sort_values', '.to_numpy', '.astype',
                                     '.rename', 'shuffle', '.apply', '.map',
                                     '.fillna', '.sort_index') \
        and t.a:
      t = t.a[0]
      continue
    if t.op == 'cols' or t.op == 'col' or is_reversal(t):
      t = t.a[0]
      continue
    break
  if t.op == 'ite':
    return ite(t.a[0], length(t.a[1]), length(t.a[2]))
  if t.op in ('list', 'tuple', 'lconcat'):
    out = []
    for s in t.a:
      if s.op == 'spread':
        out.append(length(s.a[0]))
      elif s.op == 'gseg':
        out.append(ite(s.a[0], length(s.a[1]), ZERO))
      else:
        out.append(ONE)
    return add(*out)
  if t.op == 'str':
    return num(len(t.d))
  if t.op == 'dict' and all(s.op == 'kv' and is_const(s.a[0]) for s in t.a):
    return num(len(t.a))
  if t.op == 'fmap' and t.a[1] is TRUE:
    l = length(t.a[2])
    if l.op == 'num':
      return mul(t.a[0], l)
  if t.op == 'fmap' and length(t.a[2]) is ONE:
    return raw('isum', (t.a[0], t.a[1]), t.d)
  if t.op == 'range' and t.a[2] is ONE:
    n = sub(t.a[1], t.a[0])
    if _nonneg(n):
      return n
    return ite(lt0(n), ZERO, n)
  if t.op == 'set' and len(t.a) == 1 and t.a[0].op == 'spread':
    return raw('call', (t.a[0].a[0],), ('nunique', ()))
  if t.op == 'call' and t.d[0] == 'unique':
    return raw('call', (t.a[0],), ('nunique', ()))
  if t.op == 'rows' and kind(t.a[1]) == 'bool':
    return total(t.a[1])
  if t.op == 'call' and t.d[0] == '.shape':
    r = rank(t.a[0])
    if r is not None:
      return num(r)
  if t.op == 'getitem' and t.a[1].op == 'num' and rank(t.a[0]) == 2:
    return shape_item(t.a[0], ONE)
  return raw('len', (novalues(t),))


_RANK2_ATTRS = {('TrimmedArray', 'values_trimmed'),
                ('TrimmedArray', '_values_untrimmed')}
_RANK1_ATTRS = {('TrimmedArray', 'min_values'), ('TrimmedArray', 'max_values')}


def is_full_slice(t):
  return t.op == 'slice' and all(x is NONE for x in t.a)


def rank(t):
  """Number of dimensions of an array or frame, None when it is not known."""
  k = kind(t)
  if k in ('series', 'index'):
    return 1
  if k == 'frame':
    return 2
  if t.op == 'attr' and (_cls_of(t.a[0]), t.d) in _RANK2_ATTRS:
    return 2
  if t.op == 'attr' and (_cls_of(t.a[0]), t.d) in _RANK1_ATTRS:
    return 1
  if k in ('int', 'num') and t.op in ('num', 'len', 'attr'):
    return 0
  if t.op == 'poly':
    rs = [rank(x) for x in t.a]
    return None if None in rs else max(rs)
  if t.op == 'call':
    if t.d[0] in ('.sum', '.mean', 'min', 'max', '.min', '.max') and \
        t.d[1] == ('axis',) and t.a[-1].op == 'num':
      r = rank(t.a[0])
      return None if not r else r - 1
    if t.d[0] in ('np.atleast_2d', 'np.vstack_', 'np.vstack'):
      return 2
    if t.d[0] in ('np.argsort', '.flatten', '.ravel', 'np.arange'):
      return 1
    if t.d[0] == 'np.sort' and not t.d[1] and len(t.a) == 1:
      return rank(t.a[0])
  if t.op == 'range':
    return 1
  if t.op == 'getitem':
    r = rank(t.a[0])
    if r is None:
      return None
    ix = t.a[1].a if t.a[1].op == 'tuple' else (t.a[1],)
    out = r - len(ix)
    for i in ix:
      if i.op == 'slice':
        out += 1
      elif kind(i) in ('int', 'num'):
        pass
      elif rank(i) == 1:
        out += 1
      else:
        return None
    return out
  return None


def shape_item(x, k):
  """x.shape[k]"""
  if k is ZERO:
    return length(x)
  r = rank(x)
  if r is not None and k.op == 'num':
    i = int(k.d)
    if i == -r:
      return length(x)
    if i < 0:
      return shape_item(x, num(i + r))
  return raw('getitem', (raw('call', (x,), ('.shape', ())), k))


def is_reversal(t):
  return t.op == 'getitem' and t.a[1].op == 'slice' and \
      t.a[1].a[0] is NONE and t.a[1].a[1] is NONE and \
      t.a[1].a[2].op == 'num' and t.a[1].a[2].d == -1


def total(x):
  """sum of all elements of x."""
  while is_reversal(x) or x.op == 'call' and x.d[0] == 'np.sort':
    x = x.a[0]
  e = elements(x)
  if e is not None:
    return add(*[ite(g, y, ZERO) for g, y in e])
  if x.op == 'fmap' and length(x.a[2]) is ONE and x.a[2].op == 'list':
    v = fresh('s', 'int')
    g, b = open_(x.d, v, x.a[1], x.a[2])
    y = b.a[0]
    if kind(y) == 'bool':
      y = and_(g, y)
      g = TRUE
    return isum(x.a[0], v, ite(g, y, ZERO))
  if x.op == 'ite':
    return ite(x.a[0], total(x.a[1]), total(x.a[2]))
  return raw('sum', (x,))


# iteration domain of a container: (length, index -> element)
def domain(t):
  if t.op in ('tolist',):
    return domain(t.a[0])
  if t.op == 'range':
    a, b, s = t.a
    if s.op == 'num' and s.d == 1:
      n = length(t)
      return n, (lambda i: add(a, i))
    if s.op == 'num' and s.d == -1:
      n = sub(a, b)
      return ite(lt0(n), ZERO, n), (lambda i: sub(a, i))
    return raw('len', (t,)), (lambda i: add(a, mul(s, i)))
  if kind(t) == 'dict':
    kk = keys(t)
    return length(kk), (lambda i: getitem(kk, i))
  return length(t), (lambda i: getitem(t, i))


# ---------------------------------------------------------------- strings
def concat(*ts):
  out = []
  for t in ts:
    if t.op == 'concat':
      out.extend(t.a)
    elif t.op == 'ite' and len(ts) > 1 and t.a[1].op == 'str' and \
        t.a[2].op == 'str':
      p, x, y, s = _common(t.a[1], t.a[2])
      out.extend(p)
      out.append(raw('ite', (t.a[0], x, y)))
      out.extend(s)
    else:
      out.append(t)
  res = []
  for t in out:
    if t.op == 'str' and t.d == '':
      continue
    if t.op == 'str' and res and res[-1].op == 'str':
      res[-1] = string(res[-1].d + t.d)
    else:
      res.append(t)
  if not res:
    return string('')
  if len(res) == 1:
    return res[0]
  return raw('concat', res)


def fmt(v, spec='', conv=None):
  """format(v, spec)."""
  s = spec if isinstance(spec, T) else string(spec)
  if conv == 'r':
    v = raw('call', (v,), ('repr', ()))
    if v.a[0].op == 'str':
      v = string(repr(v.a[0].d))
  if s.op == 'str' and s.d == '':
    if kind(v) == 'str':
      return v
    if v.op == 'num' and v.d.denominator == 1:
      return string(str(int(v.d)))
    if v.op == 'ite' and False:
      return ite(v.a[0], fmt(v.a[1]), fmt(v.a[2]))
  return raw('fmt', (v, s))


# ---------------------------------------------------------------- frames
def getitem(x, k):
  op = x.op
  if op == 'call' and x.d[0] == '.shape':
    return shape_item(x.a[0], k)
  if k.op == 'tuple' and len(k.a) > 1 and is_full_slice(k.a[-1]) and \
      kind(x) not in ('frame', 'series', 'index', 'dict'):
    k = k.a[0] if len(k.a) == 2 else raw('tuple', k.a[:-1])
    if is_full_slice(k):
      return x
  if op == 'ite':
    return ite(x.a[0], getitem(x.a[1], k), getitem(x.a[2], k))
  if op == 'setitem' and k.op == 'str':
    if x.a[1] is k:
      return x.a[2]
    if x.a[1].op == 'str':
      return getitem(x.a[0], k)
  if op in ('dict', 'ddel'):
    return dget(x, k)
  if op == 'dmap':
    return dget(x, k)
  if k.op == 'ite' and op in ('list', 'tuple'):
    return ite(k.a[0], getitem(x, k.a[1]), getitem(x, k.a[2]))
  if op in ('list', 'tuple') and k.op == 'num':
    i = int(k.d)
    segs = x.a
    if all(s.op not in ('spread', 'gseg') for s in segs):
      if -len(segs) <= i < len(segs):
        return segs[i]
    elif i >= 0 and all(s.op not in ('spread', 'gseg')
                        for s in segs[:i + 1]) and i < len(segs):
      return segs[i]
    elif i < 0 and -i <= len(segs) and all(
        s.op not in ('spread', 'gseg') for s in segs[i:]):
      return segs[i]
  if op == 'list' and len(x.a) == 1 and x.a[0].op not in ('spread', 'gseg') \
      and k is ZERO:
    return x.a[0]
  if op == 'fmap' and x.a[1] is TRUE and x.a[2].op == 'list' and \
      len(x.a[2].a) == 1 and x.a[2].a[0].op not in ('gseg', 'spread'):
    if not (k.op == 'num' and k.d < 0):
      return open_(x.d, k, x.a[2].a[0])[0]
  if op == 'range' and (k.op != 'num' or k.d >= 0):
    return add(x.a[0], mul(k, x.a[2]))
  if op == 'first' and x.a[2].op in ('tuple', 'list', 'dict'):
    return first(x.d, x.a[0], x.a[1], getitem(x.a[2], k))
  if op == 'tolist':
    return getitem(x.a[0], k)
  if op == 'str' and k.op == 'num':
    try:
      return string(x.d[int(k.d)])
    except IndexError:
      pass
  if op == 'call' and x.d[0] in ('np.array',) and len(x.a) == 1 and \
      x.a[0].op in ('list', 'tuple') and k.op == 'num':
    return getitem(x.a[0], k)
  if op in ('list', 'tuple') and k.op == 'slice' and all(
      s.op not in ('spread', 'gseg') for s in x.a):
    p = [None if y is NONE else int(y.d) if y.op == 'num' else 'x'
         for y in k.a]
    if 'x' not in p:
      return raw(op, x.a[slice(*p)])
  # slices of slices with constant starts
  if op == 'getitem':
    s = x.a[1]
    if s.op == 'slice' and k.op == 'num' and k.d >= 0 and \
        s.a[2] in (NONE, ONE) and s.a[1] is NONE and s.a[0].op == 'num' and \
        s.a[0].d >= 0:
      return getitem(x.a[0], add(s.a[0], k))
    if s.op == 'tuple' and k.op == 'tuple' and len(s.a) == len(k.a) and all(
        u.op == 'slice' and u.a[2] is NONE and u.a[1] is NONE and
        (u.a[0] is NONE or u.a[0].op == 'num') for u in s.a) and all(
            v.op == 'num' and v.d >= 0 for v in k.a):
      return getitem(x.a[0], tup(*[
          v if u.a[0] is NONE else add(u.a[0], v)
          for u, v in zip(s.a, k.a)]))
  # x[i][j] on arrays is x[i, j]
  if op == 'getitem' and k.op == 'num' and x.a[1].op == 'num' and \
      kind(x.a[0]) == 'matrix':
    return getitem(x.a[0], tup(x.a[1], k))
  if kind(x) in ('frame', 'obj:Series') or op in ('setcol', 'cols'):
    kk = kind(k)
    if kk == 'bool':
      return rows(x, k)
    if kk in ('list', 'index'):
      return cols(x, k)
    if kk == 'str' or k.op in ('tuple', 'sym', 'attr') or k.op == 'str':
      return col(x, k)
    if k.op == 'getitem':
      return col(x, k)
  if kind(x) in ('series', 'array') and kind(k) == 'bool':
    return rows(x, k)
  return raw('getitem', (x, k))


def col(df, c):
  op = df.op
  if op == 'ite':
    return ite(df.a[0], col(df.a[1], c), col(df.a[2], c))
  if op == 'setcol':
    if df.a[1] is c:
      return df.a[2]
    if distinct_col(df.a[1], c):
      return col(df.a[0], c)
    k = df.a[1]
    if k.op == 'tuple' and len(k.a) == 2 and k.a[0] is c:
      return setcol(col(df.a[0], c), k.a[1], df.a[2])
  if op == 'rows':
    return rows(col(df.a[0], c), df.a[1])
  if op == 'cols':
    e = elements(df.a[1])
    if e is not None and any(x is c for _, x in e):
      return col(df.a[0], c)
  if op == 'gagg':
    if df.a[2] is NONE or kind(df.a[2]) == 'list':
      return raw('gagg', (df.a[0], df.a[1], c), df.d)
  return raw('col', (df, c))


def cols(df, l):
  if l.op == 'tolist':
    l = l.a[0]
  if df.op == 'cols':
    return cols(df.a[0], l)
  if df.op == 'rows':
    return rows(cols(df.a[0], l), df.a[1])
  if df.op == 'ite':
    return ite(df.a[0], cols(df.a[1], l), cols(df.a[2], l))
  if df.op == 'setcol':
    e = elements(l)
    if e is not None and all(distinct_col(x, df.a[1]) for _, x in e):
      return cols(df.a[0], l)
  return raw('cols', (df, l))


def rows(x, m):
  if m is TRUE:
    return x
  if x.op == 'num':
    return x
  if x.op == 'ite':
    return ite(x.a[0], rows(x.a[1], m), rows(x.a[2], m))
  if m.op == 'ite':
    return ite(m.a[0], rows(x, m.a[1]), rows(x, m.a[2]))
  if x.op == 'where' and x.a[0] is m:
    return rows(x.a[1], m)
  if x.op == 'where' and not_(x.a[0]) is m:
    return rows(x.a[2], m)
  if x.op == 'setcol':
    return setcol(rows(x.a[0], m), x.a[1], rows(x.a[2], m))
  return raw('rows', (x, m))


def setcol(df, c, v):
  if df.op == 'setcol':
    if df.a[1] is c:
      return setcol(df.a[0], c, v)
    if distinct_col(df.a[1], c) and df.a[1].id > c.id:
      return setcol(setcol(df.a[0], c, v), df.a[1], df.a[2])
  if v.op == 'col' and v.a[1] is c and v.a[0] is df:
    return df
  if df.op == 'ite':
    return ite(df.a[0], setcol(df.a[1], c, v), setcol(df.a[2], c, v))
  return raw('setcol', (df, c, v))


def locget(df, k):
  if df.op == 'locset':
    if df.a[1] is k:
      return df.a[2]
    if distinct_key(df.a[1], k):
      return locget(df.a[0], k)
  if df.op == 'ite':
    return ite(df.a[0], locget(df.a[1], k), locget(df.a[2], k))
  return raw('locget', (df, k))


def distinct_key(a, b):
  if a is b:
    return False
  if a.op == b.op and a.op in ('tuple', 'call', 'getitem', 'list') and \
      len(a.a) == len(b.a) and a.d == b.d:
    return any(distinct_key(x, y) or (is_const(x) and is_const(y) and
                                      x is not y)
               for x, y in zip(a.a, b.a))
  return is_const(a) and is_const(b)


def locset(df, k, v):
  if df.op == 'locset':
    if df.a[1] is k:
      return locset(df.a[0], k, v)
    if distinct_key(df.a[1], k) and df.a[1].id > k.id:
      return locset(locset(df.a[0], k, v), df.a[1], df.a[2])
  if df.op == 'ite':
    return ite(df.a[0], locset(df.a[1], k, v), locset(df.a[2], k, v))
  return raw('locset', (df, k, v))


def gagg(df, keys_, c, fn):
  """groupby(keys)[c].fn()."""
  if df.op == 'cols':
    df = df.a[0] if c is not NONE else df
  k = keys_
  if k.op == 'list' and len(k.a) == 1 and k.a[0].op not in ('spread', 'gseg'):
    k = k.a[0]
  return raw('gagg', (df, k, c), fn)


def setdiff(a, b):
  if a.op == 'ite':
    return ite(a.a[0], setdiff(a.a[1], b), setdiff(a.a[2], b))
  return raw('setdiff', (a, b))


# ---------------------------------------------------------------- objects
def attr(o, name):
  if o.op == 'setattr':
    if o.d == name:
      return o.a[1]
    return attr(o.a[0], name)
  if o.op == 'ite':
    return ite(o.a[0], attr(o.a[1], name), attr(o.a[2], name))
  if o.op == 'obj':
    names = o.d[1]
    if name in names:
      return o.a[names.index(name)]
  if o.op == 'replace':
    if name in o.d:
      return o.a[1 + o.d.index(name)]
  if o.op == 'api' and (o.d[0], name) in CTOR_PARAM:
    p = CTOR_PARAM[o.d[0], name]
    if p in o.d[1]:
      return o.a[o.d[1].index(p)]
  return raw('attr', (o,), name)


def setattr_(o, name, v):
  if o.op == 'obj':
    names = list(o.d[1])
    vals = list(o.a)
    if name in names:
      vals[names.index(name)] = v
    else:
      names.append(name)
      vals.append(v)
    order = sorted(range(len(names)), key=lambda i: names[i])
    return raw('obj', [vals[i] for i in order],
               (o.d[0], tuple(names[i] for i in order)))
  if o.op == 'ite':
    return ite(o.a[0], setattr_(o.a[1], name, v), setattr_(o.a[2], name, v))
  chain = {}
  b = o
  while b.op == 'setattr':
    chain.setdefault(b.d, b.a[1])
    b = b.a[0]
  chain[name] = v
  if v.op == 'attr' and v.a[0] is b and v.d == name:
    del chain[name]
  for n in sorted(chain):
    b = raw('setattr', (b, chain[n]), n)
  return b


def obj(cls, fields):
  names = tuple(sorted(fields))
  return raw('obj', [fields[n] for n in names], (cls, names))


# ---------------------------------------------------------------- rebuild
def rebuild(op, a, d, orig):
  f = _REBUILD.get(op)
  if f is None:
    h = CALL_REBUILD.get(d[0]) if op in ('call', 'red') and d else None
    if h is not None:
      return h(a, d)
    return raw(op, a, d)
  return f(a, d)


CALL_REBUILD: dict = {}


def _rb_exists(a, d):
  return _exists_closed(d, a[0], a[1])


def _rb_fmap(a, d):
  v = fresh('r', 'int')
  g, b = open_(d, v, a[1], a[2])
  return fmap(a[0], v, g, b)


def _rb_dmap(a, d):
  v = fresh('r', 'int')
  g, k, x = open_(d, v, a[1], a[2], a[3])
  return dmap(a[0], v, g, k, x)


def _rb_isum(a, d):
  v = fresh('r', 'int')
  b, = open_(d, v, a[1])
  return isum(a[0], v, b)


_REBUILD = {
    'floor': lambda a, d: floor(a[0]),
    'mod': lambda a, d: mod(*a),
    'pow': lambda a, d: power(*a),
    'bigmul': lambda a, d: mul(*a),
    'not': lambda a, d: not_(a[0]),
    'and': lambda a, d: and_(*a),
    'or': lambda a, d: or_(*a),
    'truthy': lambda a, d: truth(a[0]),
    'lt0': lambda a, d: lt0(a[0]),
    'le0': lambda a, d: le(a[0], ZERO),
    'lt': lambda a, d: lt(*a),
    'eq0': lambda a, d: eq0(a[0]),
    'eq': lambda a, d: eq(*a),
    'isnone': lambda a, d: isnone(a[0]),
    'in': lambda a, d: in_(*a),
    'ite': lambda a, d: ite(*a),
    'where': lambda a, d: where(*a),
    'any': lambda a, d: any_(a[0]),
    'existsx': _rb_exists,
    'ddel': lambda a, d: ddel(*a),
    'fmap': _rb_fmap,
    'dmap': _rb_dmap,
    'isum': _rb_isum,
    'sumx': _rb_isum,
    'list': lambda a, d: lst(*a),
    'tuple': lambda a, d: tup(*a),
    'set': lambda a, d: mkset(*a),
    'setdiff': lambda a, d: setdiff(*a),
    'tolist': lambda a, d: tolist(a[0]),
    'keys': lambda a, d: keys(a[0]),
    'join': lambda a, d: join(a[0], a[1]),
    'values': lambda a, d: values(a[0]),
    'dict': lambda a, d: _rb_dict(a),
    'len': lambda a, d: length(a[0]),
    'sum': lambda a, d: total(a[0]),
    'concat': lambda a, d: concat(*a),
    'fmt': lambda a, d: fmt(a[0], a[1]),
    'getitem': lambda a, d: getitem(*a),
    'col': lambda a, d: col(*a),
    'cols': lambda a, d: cols(*a),
    'rows': lambda a, d: rows(*a),
    'setcol': lambda a, d: setcol(*a),
    'locget': lambda a, d: locget(*a),
    'locset': lambda a, d: locset(*a),
    'gagg': lambda a, d: gagg(a[0], a[1], a[2], d),
    'attr': lambda a, d: attr(a[0], d),
    'setattr': lambda a, d: setattr_(a[0], d, a[1]),
    'gseg': lambda a, d: gseg(*a),
    'gkv': lambda a, d: gkv(*a),
    'div0': lambda a, d: raw('div0', a),
}


def _rb_dict(a):
  d = raw('dict')
  for s in a:
    if s.op == 'kv':
      d = dset(d, *s.a)
    elif s.op == 'gkv':
      d = dset(d, s.a[1], s.a[2], s.a[0])
    else:
      d = dmerge(d, s.a[0])
  return d


def subst(t, m, memo=None):
  """Capture-free replacement of fresh/bound variables (keys of m)."""
  if memo is None:
    memo = {}
  ids = frozenset(k.id for k in m)
  return _subst(t, m, ids, memo)


def _subst(t, m, ids, memo):
  if not (t.fv & ids):
    return t
  r = m.get(t)
  if r is not None:
    return r
  r = memo.get(t.id)
  if r is not None:
    return r
  if t.op == 'poly':
    new = {x: _subst(x, m, ids, memo) for x in t.a}
    r = poly_map(t, new)
  else:
    r = rebuild(t.op, tuple(_subst(x, m, ids, memo) for x in t.a), t.d, t)
  memo[t.id] = r
  return r


def poly_map(t, new):
  out = []
  for mo, c in t.d:
    f = [raw('num', (), c)]
    for x, e in mo:
      y = new[x]
      f.append(power(y, raw('num', (), e)) if e != 1 else y)
    out.append(mul(*f))
  return add(*out)


# ---------------------------------------------------------------- contexts
def _conjuncts(t):
  return frozenset(x.id for x in (t.a if t.op == 'and' else (t,)))


class Ctx:
  """A conjunction of assumed literals, with interval facts per direction."""

  def __init__(self):
    self.truth = {}      # atom id -> bool
    self.iv = {}         # direction id -> (lo, lo_strict, hi, hi_strict, ne)
    self.eqc = {}        # term id -> const term it equals
    self.nec = {}        # term id -> set of const ids it differs from
    self.lits = ()
    self.memo = {}

  _EMPTY = None

  @classmethod
  def empty(cls):
    if cls._EMPTY is None:
      cls._EMPTY = cls()
    return cls._EMPTY

  def _copy(self):
    c = Ctx()
    c.truth = dict(self.truth)
    c.iv = dict(self.iv)
    c.eqc = dict(self.eqc)
    c.nec = {k: set(v) for k, v in self.nec.items()}
    c.lits = self.lits
    return c

  # -- intervals: p = sign * dir + off, dir has positive leading coefficient
  @staticmethod
  def _norm(p):
    d, c = direction(p)
    dp = topoly(d)
    lead = dp[max(dp, key=_mono_key)]
    if lead < 0 or lead != 1:
      k = lead
      d = frompoly({m: v / k for m, v in dp.items()})
      return d, c / k, (1 if k > 0 else -1)
    return d, c, 1

  def eval_atom(self, t):
    v = self.truth.get(t.id)
    if v is not None:
      return v
    if t.op in ('lt0', 'eq0', 'le0'):
      p = t.a[0]
      d, c, s = self._norm(p)
      iv = self.iv.get(d.id)
      if iv is None:
        return None
      lo, ls, hi, hs, ne = iv
      # p ~ s*(d + c):   p < 0  <=>  d < -c (s>0)  or d > -c (s<0)
      x = -c
      if t.op == 'eq0':
        if lo is not None and (x < lo or (x == lo and ls)):
          return False
        if hi is not None and (x > hi or (x == hi and hs)):
          return False
        if x in ne:
          return False
        if lo is not None and lo == hi == x:
          return True
        return None
      strict = t.op == 'lt0'
      if s > 0:
        if strict:
          if hi is not None and (hi < x or (hi == x and hs)):
            return True
          if hi is not None and hi == x and x in ne:
            return True
          if lo is not None and lo >= x:
            return False
        else:
          if hi is not None and hi <= x:
            return True
          if lo is not None and (lo > x or (lo == x and ls)):
            return False
      else:
        if strict:
          if lo is not None and (lo > x or (lo == x and ls)):
            return True
          if lo is not None and lo == x and x in ne:
            return True
          if hi is not None and hi <= x:
            return False
        else:
          if lo is not None and lo >= x:
            return True
          if hi is not None and (hi < x or (hi == x and hs)):
            return False
      return None
    if t.op == 'eq':
      a, b = t.a
      for x, y in ((a, b), (b, a)):
        if is_const(y):
          c = self.eqc.get(x.id)
          if c is not None:
            return c is y
          if y.id in self.nec.get(x.id, ()):
            return False
      return None
    if t.op == 'truthy':
      v = self.truth.get(raw('isnone', t.a).id)
      if v is True:
        return False
      return None
    if t.op == 'isnone':
      v = self.truth.get(raw('truthy', t.a).id)
      if v is True:
        return False
      return None
    if t.op == 'existsx':
      # more conditions select fewer elements
      mine = _conjuncts(t.a[1])
      for x, v in self.lits:
        if x.op == 'existsx' and x.d == t.d and x.a[0] is t.a[0]:
          other = _conjuncts(x.a[1])
          if v and mine <= other:
            return True
          if not v and other <= mine:
            return False
      return None
    return None

  def assume_lit(self, t, val):
    """New context with literal t == val, or None if contradictory."""
    if t.op == 'not':
      return self.assume_lit(t.a[0], not val)
    if t.op == 'bool':
      return self if (t is TRUE) == val else None
    if (t.op == 'and' and val) or (t.op == 'or' and not val):
      c = self
      for x in t.a:
        c = c.assume_lit(x, val)
        if c is None:
          return None
      return c
    known = self.eval_atom(t)
    if known is not None:
      return self if known == val else None
    c = self._copy()
    c.lits = self.lits + ((t, val),)
    c.truth[t.id] = val
    if t.op in ('lt0', 'le0') and not val and STRICT_NAN[0] and \
        not is_int(t.a[0]):
      pass          # the opposite comparison may not hold either
    elif t.op in ('lt0', 'eq0', 'le0'):
      d, off, s = self._norm(t.a[0])
      lo, ls, hi, hs, ne = c.iv.get(d.id, (None, False, None, False,
                                           frozenset()))
      x = -off
      if t.op == 'eq0':
        if val:
          lo = hi = x
          ls = hs = False
        else:
          ne = ne | {x}
          if lo == x and not ls:
            ls = True
          if hi == x and not hs:
            hs = True
      else:
        strict = t.op == 'lt0'
        up = (s > 0) == val      # an upper bound on d
        st = strict if val else not strict
        if up:
          if hi is None or x < hi or (x == hi and st):
            hi, hs = x, st
        else:
          if lo is None or x > lo or (x == lo and st):
            lo, ls = x, st
      if is_int(d):
        if lo is not None:
          l2 = F(lo.__floor__() + 1) if (ls or lo.denominator != 1) else lo
          lo, ls = l2, False
          while lo in ne:
            lo += 1
        if hi is not None:
          h2 = F(hi.__ceil__() - 1) if (hs or hi.denominator != 1) else hi
          hi, hs = h2, False
          while hi in ne:
            hi -= 1
      if lo is not None and hi is not None and (
          lo > hi or (lo == hi and (ls or hs))):
        return None
      c.iv[d.id] = (lo, ls, hi, hs, ne)
    elif t.op == 'eq':
      a, b = t.a
      for x, y in ((a, b), (b, a)):
        if is_const(y):
          if val:
            c.eqc[x.id] = y
          else:
            c.nec.setdefault(x.id, set()).add(y.id)
    elif t.op == 'truthy' and val:
      c.truth[raw('isnone', t.a).id] = False
    elif t.op == 'isnone' and val:
      c.truth[raw('truthy', t.a).id] = False
    return c

  def simp(self, t):
    """t rewritten under the assumptions."""
    if not self.truth:
      return t
    r = self.memo.get(t.id)
    if r is not None:
      return r
    r = self._simp(t)
    self.memo[t.id] = r
    return r

  def _simp(self, t):
    if not t.a:
      v = self.truth.get(t.id)
      if v is not None:
        return bconst(v)
      return t
    if t.op in ('lt0', 'eq0', 'le0', 'eq', 'isnone', 'truthy', 'in', 'any',
                'existsx', 'attr', 'sym', 'call', 'api', 'lt', 'isinstance',
                'getitem'):
      v = self.eval_atom(t)
      if v is not None:
        return bconst(v)
    elif t.id in self.truth:
      return bconst(self.truth[t.id])
    if t.op == 'poly':
      new = {x: self.simp(x) for x in t.a}
      if all(new[x] is x for x in new):
        return t
      r = poly_map(t, new)
    else:
      args = tuple(self.simp(x) for x in t.a)
      if all(x is y for x, y in zip(args, t.a)):
        return t
      r = rebuild(t.op, args, t.d, t)
    if r is not t and r.op in ('lt0', 'eq0', 'le0', 'eq', 'isnone', 'truthy'):
      v = self.eval_atom(r)
      if v is not None:
        return bconst(v)
    return r


# ---------------------------------------------------------------- printing
def show(t, depth=0, limit=12):
  if depth > limit:
    return '…'
  s = lambda x: show(x, depth + 1, limit)
  op = t.op
  if op == 'num':
    return str(t.d) if t.d.denominator == 1 else repr(float(t.d))
  if op in ('str', 'bool'):
    return repr(t.d)
  if op == 'none':
    return 'None'
  if op == 'sym':
    return str(t.d[0])
  if op == 'fresh':
    return f'{t.d[0]}${t.d[1]}'
  if op == 'bv':
    return f'#{t.d}'
  if op == 'poly':
    parts = []
    for m, c in t.d:
      fs = []
      if c != 1 or not m:
        fs.append(str(c) if c.denominator == 1 else repr(float(c)))
      for x, e in m:
        b = s(x)
        if x.op == 'poly':
          b = '(' + b + ')'
        fs.append(b if e == 1 else f'{b}**{e}')
      parts.append('*'.join(fs))
    return '(' + ' + '.join(parts) + ')'
  if op == 'attr':
    return f'{s(t.a[0])}.{t.d}'
  if op == 'lt0':
    return f'({s(t.a[0])} < 0)'
  if op == 'eq0':
    return f'({s(t.a[0])} == 0)'
  if op == 'eq':
    return f'({s(t.a[0])} == {s(t.a[1])})'
  if op == 'not':
    return f'not {s(t.a[0])}'
  if op in ('and', 'or'):
    return '(' + f' {op} '.join(s(x) for x in t.a) + ')'
  if op == 'in':
    return f'({s(t.a[0])} in {s(t.a[1])})'
  if op in ('ite', 'where'):
    return f'{op}({", ".join(s(x) for x in t.a)})'
  if op in ('list', 'set'):
    return ('[' if op == 'list' else '{') + ', '.join(
        s(x) for x in t.a) + (']' if op == 'list' else '}')
  if op == 'tuple':
    return '(' + ', '.join(s(x) for x in t.a) + ')'
  if op == 'col' or op == 'getitem':
    return f'{s(t.a[0])}[{s(t.a[1])}]'
  if op in ('call', 'api', 'eff'):
    nm, kws = t.d[0], t.d[1] if len(t.d) > 1 else ()
    args = [s(x) for x in t.a]
    npos = len(args) - len(kws)
    args = args[:npos] + [f'{k}={v}' for k, v in zip(kws, args[npos:])]
    return f'{nm}({", ".join(args)})'
  dd = '' if t.d is None else f'<{t.d}>'
  return f'{op}{dd}({", ".join(s(x) for x in t.a)})'


def replace_terms(t, m, memo=None):
  """Replacement of arbitrary closed subterms (m: term id -> term)."""
  if memo is None:
    memo = {}
  r = m.get(t.id)
  if r is not None:
    return r
  if not t.a:
    return t
  r = memo.get(t.id)
  if r is not None:
    return r
  check_time()
  if t.op == 'poly':
    new = {x: replace_terms(x, m, memo) for x in t.a}
    r = t if all(x is y for x, y in new.items()) else poly_map(t, new)
  else:
    a = tuple(replace_terms(x, m, memo) for x in t.a)
    r = t if all(x is y for x, y in zip(a, t.a)) else rebuild(t.op, a, t.d, t)
  memo[t.id] = r
  return r
