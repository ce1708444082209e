"""Operations on whole tables at a generic point (see fingerprint.py).

Rows have labels (`dom` and `sel`) and columns have cells, so that grouping,
joining, pivoting and removing duplicates keep the meaning that they have in
pandas.  Whatever is not covered raises `Mix` and stays congruent only.
"""
from __future__ import annotations

import decimal
from decimal import Decimal as D

from sa import terms as tm
from sa import fingerprint as fg
from sa.fingerprint import (Dct, EPS, Frame, Grp, H, Mix, Op, POS, Seq, Undef,
                            Vec, dig, pos)

ROWS = 'rows'     # labelled by position


def on(P):
  if not P.tables:
    raise Mix()


def missing(x):
  return x is None or isinstance(x, D) and x.is_nan()


def column_names(P, k):
  """One name or a list of names."""
  if isinstance(k, (str, Op)):
    return [k]
  if isinstance(k, (Seq, Vec)) and all(isinstance(x, (str, Op)) for x in k.v):
    return list(k.v)
  raise Mix()


def take(P, x, o):
  """The rows at the positions o."""
  o = list(o)
  if isinstance(x, Vec):
    if x.dom == POS:
      return pos(x.v[i] for i in o)
    return Vec(x.dom, [x.sel[i] for i in o], [x.v[i] for i in o])
  sel = [x.sel[i] for i in o]
  return Frame(x.h, x.dom, sel, [
      (n, c, Vec(x.dom, sel, [v.v[i] for i in o])) for n, c, v in x.ov],
               [x.src[i] for i in o], x.names)


def table(P, dom, sel, columns):
  """A table of the given columns [(name, cells)]."""
  sel = list(sel)
  if len({H(k) for k, _ in columns}) < len(columns):
    raise Mix()
  return Frame('', dom, sel, [(H(k), k, Vec(dom, sel, v))
                              for k, v in columns], None,
               tuple(k for k, _ in columns))


def columnwise(P, f, vs):
  """An operation on tables with the same columns and rows."""
  on(P)
  fs = [v for v in vs if isinstance(v, Frame)]
  x = fs[0]
  if x.names is None or any(
      y.names is None or y.dom != x.dom or y.sel != x.sel or
      set(map(H, y.names)) != set(map(H, x.names)) for y in fs) or any(
          isinstance(v, (Vec, Seq, Dct, Grp)) for v in vs):
    raise Mix()
  return table(P, x.dom, x.sel, [
      (n, f(*[P.column(v, n) if isinstance(v, Frame) else v for v in vs]).v)
      for n in x.names])


def part_names(f, k):
  if f.names is None or not all(
      isinstance(n, Seq) and len(n.v) == len(k.v) for n in f.names):
    raise Mix()
  return [n for n in f.names if all(
      y is None or H(x) == H(y) for x, y in zip(n.v, k.v))]


def part(P, f, k):
  on(P)
  ns = part_names(f, k)
  if not ns:
    raise Undef('no such column')
  return table(P, f.dom, f.sel, [(n, P.column(f, n).v) for n in ns])


def setpart(P, f, k, v):
  on(P)
  ns = part_names(f, k)
  if not ns:
    raise Undef('no such column')
  if isinstance(v, Frame) and (v.names is None or
                               set(map(H, v.names)) != set(map(H, ns))):
    raise Mix()
  for n in ns:
    f = P.setcol(f, n, P.column(v, n) if isinstance(v, Frame) else v)
  return f


def cols(P, f, k):
  on(P)
  if not isinstance(f, Frame):
    raise Mix()
  ks = column_names(P, k)
  hs = list(map(H, ks))
  if len(set(hs)) < len(hs):
    raise Mix()
  if set(hs) == set(map(H, P.names(f))):
    return f
  return table(P, f.dom, f.sel, [(k, P.column(f, k).v) for k in ks])


def level(P, f, k):
  """The columns (k, ...) of a table with two levels of names."""
  out = [(n.v[1] if len(n.v) == 2 else Seq('tuple', n.v[1:]),
          P.column(f, n).v) for n in f.names
         if isinstance(n, Seq) and H(n.v[0]) == H(k)]
  if not out:
    raise Undef('no such column')
  return table(P, f.dom, f.sel, out)


def sort_key(P, t):
  t = [P.face(x) for x in t]
  if any(isinstance(x, Op) for x in t):
    raise Mix()
  return t


def ordered(P, rows):
  """Rows of key values in ascending order (positions)."""
  rows = [sort_key(P, r) for r in rows]
  for c in zip(*rows):
    if len({isinstance(x, str) for x in c}) > 1 or not all(
        isinstance(x, (str, D)) for x in c):
      raise Mix()
  return sorted(range(len(rows)), key=lambda i: rows[i])


def face_id(P, x):
  x = P.face(x)
  if isinstance(x, Op):
    raise Mix()
  return H(x)


def groups(P, f, keys):
  """(labels, positions of the rows) of every group, in order."""
  ks = [key.v if isinstance(key, Vec) else P.column(f, key).v
        for key in keys]
  out = {}
  for i, r in enumerate(zip(*ks)):
    if any(missing(x) for x in r):
      continue
    out.setdefault(tuple(face_id(P, x) for x in r), (r, []))[1].append(i)
  gs = list(out.values())
  gs = [gs[i] for i in ordered(P, [g[0] for g in gs])]
  return [(tuple(P.face(x) for x in g[0]), g[1]) for g in gs]


def labelled(P, keys, labels):
  h = dig('labels', *[H(x) for r in labels for x in r])
  P.labels[h] = (list(keys), list(labels))
  return h


def fold(P, fn, xs):
  """A reduction of the cells of one group."""
  ys = [x for x in xs if not missing(x)]
  if fn == 'size':
    return D(len(xs))
  if fn == 'count':
    return D(len(ys))
  if fn == 'len':
    if len(ys) < len(xs):
      raise Undef('count or size')
    return D(len(xs))
  if fn == 'nunique':
    return D(len({face_id(P, y) for y in ys}))
  if fn in ('first', 'last'):
    if not ys:
      return D('NaN')
    return ys[0 if fn == 'first' else -1]
  if fn == 'sum':
    return sum((P.num(y) for y in ys), D(0))
  if fn in ('any', 'all'):
    return (any if fn == 'any' else all)(P.boolean(y) for y in ys)
  if not ys:
    return D('NaN')
  if fn in ('min', 'max'):
    ys = [P.face(y) for y in ys]
    if not all(isinstance(y, D) for y in ys) and not all(
        isinstance(y, str) for y in ys):
      raise Mix()
    return (min if fn == 'min' else max)(ys)
  ys = [P.num(y) for y in ys]
  if any(not y.is_finite() for y in ys):
    raise Mix()
  n = len(ys)
  if fn == 'mean':
    return sum(ys, D(0)) / n
  if fn == 'median':
    ys.sort()
    return (ys[(n - 1) // 2] + ys[n // 2]) / 2
  if fn in ('std', 'var'):
    if n < 2:
      return D('NaN')
    m = sum(ys, D(0)) / n
    v = sum(((y - m) ** 2 for y in ys), D(0)) / (n - 1)
    return v if fn == 'var' else v.sqrt()
  raise Mix()


def grouped(P, t, env, memo, h):
  """The value of .groupby(table, keys)."""
  if t.op != 'call' or t.d[0] != '.groupby' or t.d[1] or not P.tables:
    return None
  try:
    f, k = [P.ev(x, env, memo) for x in t.a]
    if not isinstance(f, Frame):
      return None
    ks = column_names(P, k)
    gs = groups(P, f, ks)
  except (Undef, Mix):
    return None
  return Grp(h, labelled(P, ks, [g[0] for g in gs]), f, ks)


def reduce(P, g, fn):
  """g[column].fn()"""
  on(P)
  if g.frame is None or g.col is None:
    raise Mix()
  gs = groups(P, g.frame, g.keys)
  xs = P.column(g.frame, g.col[0])
  if not isinstance(xs, Vec):
    raise Mix()
  dom = labelled(P, g.keys, [x[0] for x in gs])
  return Vec(dom, range(len(gs)), [fold(P, fn, [xs.v[i] for i in x[1]])
                                   for x in gs])


def gagg(P, f, k, c, fn):
  on(P)
  if not isinstance(f, Frame) or fn not in (
      'sum', 'mean', 'min', 'max', 'median', 'count', 'nunique', 'first',
      'last', 'size', 'std', 'var', 'any', 'all'):
    raise Mix()
  ks = column_names(P, k)
  gs = groups(P, f, ks)
  dom = labelled(P, ks, [g[0] for g in gs])
  if fn == 'size':
    return Vec(dom, range(len(gs)), [D(len(g[1])) for g in gs])

  def of(name):
    xs = P.column(f, name)
    if not isinstance(xs, Vec):
      raise Mix()
    return [fold(P, fn, [xs.v[i] for i in g[1]]) for g in gs]
  if isinstance(c, (str, Op)):
    return Vec(dom, range(len(gs)), of(c))
  hs = set(map(H, ks))
  names = [n for n in P.names(f) if H(n) not in hs] if c is None else \
      column_names(P, c)
  return table(P, dom, range(len(gs)), [(n, of(n)) for n in names])


# ------------------------------------------------------------------ calls
def _drop_duplicates(P, t, a, k):
  on(P)
  x = a[0]
  if len(a) > 1 or set(k) - {'subset', 'keep'}:
    raise Mix()
  keep = k.get('keep', 'first')
  if isinstance(x, Seq):
    x = pos(x.v)
  if isinstance(x, Vec):
    rows = [(face_id(P, y),) for y in x.v]
  elif isinstance(x, Frame):
    ks = column_names(P, k['subset']) if k.get('subset') is not None else \
        P.names(x)
    rows = list(zip(*[[face_id(P, y) for y in P.column(x, n).v]
                      for n in ks])) if ks else [()] * len(x.sel)
  else:
    raise Mix()
  if keep is False:
    o = [i for i, r in enumerate(rows) if rows.count(r) == 1]
  elif keep == 'last':
    o = [i for i, r in enumerate(rows) if r not in rows[i + 1:]]
  elif keep == 'first':
    o = [i for i, r in enumerate(rows) if r not in rows[:i]]
  else:
    raise Mix()
  return take(P, x, o)


def row_keys(P, x, k, others=()):
  """What makes two rows of a table, or two cells, the same."""
  if set(k) - {'subset', 'keep', *others}:
    raise Mix()
  if isinstance(x, Vec):
    return [(face_id(P, y),) for y in x.v]
  if not isinstance(x, Frame):
    raise Mix()
  ks = column_names(P, k['subset']) if k.get('subset') is not None else \
      P.names(x)
  return list(zip(*[[face_id(P, y) for y in P.column(x, n).v] for n in ks])) \
      if ks else [()] * len(x.sel)


def _duplicated(P, t, a, k):
  on(P)
  x = a[0]
  if len(a) == 2 and 'subset' not in k and isinstance(x, Frame):
    k = dict(k, subset=a[1])
  elif len(a) != 1:
    raise Mix()
  rows, keep = row_keys(P, x, k), k.get('keep', 'first')
  if keep is False:
    v = [rows.count(r) > 1 for r in rows]
  elif keep == 'last':
    v = [r in rows[i + 1:] for i, r in enumerate(rows)]
  elif keep == 'first':
    v = [r in rows[:i] for i, r in enumerate(rows)]
  else:
    raise Mix()
  return Vec(x.dom, x.sel, v)


def _value_counts(P, t, a, k):
  on(P)
  x = a[0]
  if len(a) != 1 or set(k) - {'dropna', 'ascending'} or not isinstance(
      x, Vec) or k.get('dropna', True) is not True or k.get(
          'ascending', False) is not False:
    raise Mix()
  n = {}
  for y in x.v:
    if not missing(y):
      n.setdefault(face_id(P, y), [y, 0])[1] += 1
  vs = sorted(n.values(), key=lambda r: -r[1])
  dom = labelled(P, [Op(dig('value counts', H(x)))],
                 [(P.face(r[0]),) for r in vs])
  return Vec(dom, range(len(vs)), [D(r[1]) for r in vs])


def _largest(P, t, a, k):
  on(P)
  x = a[0]
  n = k.get('n', a[1] if len(a) > 1 else D(5))
  by = k.get('columns', a[2] if len(a) > 2 else None)
  if set(k) - {'n', 'columns'} or not isinstance(x, (Vec, Frame)):
    raise Mix()
  n = P.integer(n)
  if isinstance(x, Vec):
    xs = x.v
  else:
    ks = column_names(P, by)
    if len(ks) != 1:
      raise Mix()
    xs = P.column(x, ks[0]).v
  if any(missing(y) for y in xs):
    raise Mix()
  xs = [P.num(y) for y in xs]
  up = -1 if t.d[0] == '.nlargest' else 1
  return take(P, x, sorted(range(len(xs)), key=lambda i: up * xs[i])[
      :max(n, 0)])


def _replaced(P, t, a, k):
  """Cells of one value get another."""
  on(P)
  x, pair = a[0], list(a[1:])
  pair += [k[n] for n in ('to_replace', 'value')[len(pair):] if n in k]
  if not isinstance(x, Vec) or len(pair) != 2 or set(k) - {
      'to_replace', 'value'} or any(isinstance(p, (Dct, Vec, Frame)) or
                                    p is None for p in pair):
    raise Mix()
  old = pair[0].v if isinstance(pair[0], Seq) else (pair[0],)
  if isinstance(pair[1], Seq) or any(isinstance(o, Op) or missing(o)
                                     for o in old):
    raise Mix()
  return Vec(x.dom, x.sel, [
      pair[1] if not missing(y) and any(P.veq(y, o) for o in old) else y
      for y in x.v])


def _ffill(P, t, a, k):
  on(P)
  x = a[0]
  if k or len(a) != 1 or not isinstance(x, Vec) or x.dom == POS:
    raise Mix()
  v = list(x.v)[::-1] if t.d[0] == '.bfill' else list(x.v)
  for i in range(1, len(v)):
    if missing(v[i]):
      v[i] = v[i - 1]
  return Vec(x.dom, x.sel, v[::-1] if t.d[0] == '.bfill' else v)


def _merge(P, t, a, k):
  on(P)
  if len(a) != 2 or set(k) - {'how', 'on'} or not all(
      isinstance(x, Frame) for x in a):
    raise Mix()
  x, y = a
  how = k.get('how', 'inner')
  if how not in ('inner', 'left', 'outer', 'cross'):
    raise Mix()
  nx, ny = P.names(x), P.names(y)
  if how == 'cross':
    if k.get('on') is not None or set(map(H, nx)) & set(map(H, ny)):
      raise Mix()
    pairs = [(i, j) for i in range(len(x.sel)) for j in range(len(y.sel))]
    ks = []
  else:
    if 'on' in k:
      ks = column_names(P, k['on'])
    else:
      ks = [n for n in nx if H(n) in set(map(H, ny))]
      if not ks:
        raise Undef('nothing in common')
    kx = list(zip(*[P.column(x, n).v for n in ks]))
    ky = list(zip(*[P.column(y, n).v for n in ks]))
    fx = [tuple(face_id(P, z) for z in r) for r in kx]
    fy = [tuple(face_id(P, z) for z in r) for r in ky]
    pairs = []
    for i, r in enumerate(fx):
      js = [j for j, q in enumerate(fy) if q == r]
      pairs += [(i, j) for j in js]
      if not js and how != 'inner':
        pairs.append((i, None))
    if how == 'outer':
      pairs += [(None, j) for j, q in enumerate(fy) if q not in fx]
      o = ordered(P, [ky[j] if i is None else kx[i] for i, j in pairs])
      pairs = [pairs[i] for i in o]
  if len(pairs) > 40:
    raise Mix()
  hk = set(map(H, ks))
  if x.names is not None:
    # the other columns of the second table are looked up when needed
    if {H(n) for n in nx} & {H(n) for n, in zip(ny)} - hk:
      raise Mix()
    own = [(n, [(P.column(y, n) if i is None and H(n) in hk else
                 P.column(x, n)).v[j if i is None and H(n) in hk else i]
                if i is not None or H(n) in hk else D('NaN')
                for i, j in pairs]) for n in nx]
    if y.names is not None:
      return table(P, ROWS, range(len(pairs)), own + [
          (n, [D('NaN') if j is None else P.column(y, n).v[j]
               for i, j in pairs]) for n in ny if H(n) not in hk])
    sel = range(len(pairs))
    ov = [(H(n), n, Vec(ROWS, sel, v)) for n, v in own]
    ov += [(h, n, Vec(ROWS, sel, [D('NaN') if j is None else v.v[j]
                                  for i, j in pairs]))
           for h, n, v in y.ov if h not in {q[0] for q in ov}]
    return Frame(y.h, ROWS, sel, ov,
                 [None if j is None else y.src[j] for i, j in pairs])
  if y.names is None or {H(n) for n in nx} & {H(n) for n in ny} - hk or \
      how == 'outer':
    raise Mix()
  sel = range(len(pairs))
  ov = [(h, n, Vec(ROWS, sel, [v.v[i] for i, j in pairs]))
        for h, n, v in x.ov]
  ov += [(H(n), n, Vec(ROWS, sel, [
      D('NaN') if j is None else P.column(y, n).v[j] for i, j in pairs]))
         for n in ny if H(n) not in hk]
  return Frame(x.h, ROWS, sel, ov, [x.src[i] for i, j in pairs])


def _pivot(P, t, a, k):
  on(P)
  if len(a) != 1 or not isinstance(a[0], Frame) or set(k) - {
      'index', 'columns', 'values', 'aggfunc', 'fill_value'} or not {
          'index', 'columns', 'values'} <= set(k):
    raise Mix()
  f = a[0]
  idx, cs = column_names(P, k['index']), column_names(P, k['columns'])
  many = isinstance(k['values'], Seq)
  vs = column_names(P, k['values'])
  fn = k.get('aggfunc', 'mean')
  if fn not in ('sum', 'mean', 'min', 'max', 'first', 'last', 'count',
                'median', 'nunique', 'size', 'std', 'var') or len(cs) != 1 \
      or len({H(x) for x in vs}) < len(vs):
    raise Mix()
  gs = groups(P, f, idx + cs)
  if not gs:
    raise Undef('no rows')
  rows, cells, heads = [], {}, {}
  for lb, rs in gs:
    r, c = lb[:len(idx)], lb[len(idx):]
    if not rows or tuple(map(H, rows[-1])) != tuple(map(H, r)):
      rows.append(r)
    heads[H(c[0])] = c[0]
    cells[tuple(map(H, r)), H(c[0])] = rs
  heads = list(heads.values())
  heads = [heads[i] for i in ordered(P, [(c,) for c in heads])]
  # values that are not given in order are sorted
  if many and len(vs) > 1:
    if not all(isinstance(v, (str, Op)) for v in vs):
      raise Mix()
    vs = sorted(vs, key=H)    # the order of columns is not compared
  fill = k.get('fill_value')
  out = []
  for v in vs:
    col = P.column(f, v)
    for c in heads:
      xs, empty = [], True
      for r in rows:
        rs = cells.get((tuple(map(H, r)), H(c)))
        x = D('NaN') if rs is None else fold(P, fn, [col.v[i] for i in rs])
        empty = empty and missing(x)
        xs.append(x if fill is None or not missing(x) else fill)
      if empty:
        raise Mix()      # such columns are dropped
      out.append((Seq('tuple', (v, c)) if many else c, xs))
  dom = labelled(P, idx, rows)
  return table(P, dom, range(len(rows)), out)


def _fillna(P, t, a, k):
  on(P)
  v = k.get('value', a[1] if len(a) > 1 else None)
  if set(k) - {'value'} or not isinstance(v, (D, str, bool)):
    raise Mix()

  def f(x):
    return v if missing(x) else x
  x = a[0]
  if isinstance(x, Vec):
    return P.lift(f, x)
  if not isinstance(x, Frame) or x.names is None:
    raise Mix()
  return table(P, x.dom, x.sel, [(n, list(map(f, P.column(x, n).v)))
                                 for n in x.names])


def _shift(P, t, a, k):
  on(P)
  n = k.get('periods', a[1] if len(a) > 1 else D(1))
  if set(k) - {'periods'} or not isinstance(a[0], Vec) or a[0].dom == POS:
    raise Mix()
  n = P.integer(n)
  x = list(a[0].v)
  gap = [D('NaN')] * min(abs(n), len(x))
  x = gap + x[:len(x) - len(gap)] if n >= 0 else x[len(gap):] + gap
  return Vec(a[0].dom, a[0].sel, x)


def _diff(P, t, a, k):
  s = _shift(P, t, a, k)

  def f(x, y):
    x, y = P.num(x), P.num(y)
    return D('NaN') if x.is_nan() or y.is_nan() else x - y
  return P.lift(f, a[0], s)


def _reset_index(P, t, a, k):
  on(P)
  x = a[0]
  if len(a) > 1 or set(k) - {'drop', 'names'}:
    raise Mix()
  drop = k.get('drop', False)
  if 'names' in k and not drop:
    return named_labels(P, x, k['names'])
  if isinstance(x, Vec) and x.dom != POS:
    if not drop:
      raise Mix()
    return Vec(ROWS, range(len(x.v)), x.v)
  if not isinstance(x, Frame):
    raise Mix()
  sel = range(len(x.sel))
  if drop:
    return Frame(x.h, ROWS, sel, [(h, n, Vec(ROWS, sel, v.v))
                                  for h, n, v in x.ov], x.src, x.names)
  if x.dom not in P.labels or x.names is None:
    raise Mix()
  keys, lb = P.labels[x.dom]
  return table(P, ROWS, sel, [(n, [lb[i][j] for i in x.sel])
                              for j, n in enumerate(keys)] +
               [(n, P.column(x, n).v) for n in x.names])


def index_values(P, x):
  """The labels of the rows, of one level."""
  if x.dom == ROWS:
    return [D(i) for i in x.sel]
  if x.dom == POS or x.dom in P.labels:
    raise Mix()
  h = dig(x.dom, 'labels')
  return [Op(dig(h, 'e', i), h) for i in x.sel]


def named_labels(P, x, name):
  """The labels of the rows become a column."""
  if not isinstance(x, Frame) or isinstance(name, (Seq, Dct, Vec)):
    raise Mix()
  sel = range(len(x.sel))
  new = H(name), name, Vec(ROWS, sel, index_values(P, x))
  if x.names is not None:
    if new[0] in map(H, x.names):
      raise Undef('column exists')
    return Frame(x.h, ROWS, sel, [new] + [
        (h, n, Vec(ROWS, sel, v.v)) for h, n, v in x.ov], x.src,
                 (name,) + tuple(x.names))
  return Frame(x.h, ROWS, sel, [(h, n, Vec(ROWS, sel, v.v))
                                for h, n, v in x.ov] + [new], x.src, None)


def _index(P, t, a, k):
  on(P)
  if k or len(a) != 1 or not isinstance(a[0], (Frame, Vec)):
    raise Mix()
  return fg.pos(index_values(P, a[0]))


def _sort_index(P, t, a, k):
  on(P)
  if k or len(a) != 1 or not isinstance(a[0], (Frame, Vec)) or \
      a[0].dom == fg.POS or a[0].dom in P.labels or \
      len(set(a[0].sel)) < len(a[0].sel):
    raise Mix()
  return take(P, a[0], sorted(range(len(a[0].sel)),
                              key=lambda i: a[0].sel[i]))


def _category(P, t, a, k):
  """astype('category')"""
  on(P)
  if k or len(a) != 2 or t.a[1].op not in ('lib', 'str') or \
      t.a[1].d != 'category' or not isinstance(a[0], Vec):
    raise Mix()
  return a[0]


def categories(P, x):
  if not isinstance(x, Vec):
    raise Mix()
  vs = [P.face(v) for v in x.v]
  rows = [(v,) for v in vs if not missing(v)]
  o = ordered(P, rows)
  out = []
  for i in o:
    if not out or H(out[-1]) != H(rows[i][0]):
      out.append(rows[i][0])
  return vs, out


def _cat_codes(P, t, a, k):
  on(P)
  if k or len(a) != 1:
    raise Mix()
  vs, cs = categories(P, a[0])
  at = {H(c): D(i) for i, c in enumerate(cs)}
  return Vec(a[0].dom, a[0].sel, [at.get(H(v), D(-1)) for v in vs])


def _cat_categories(P, t, a, k):
  on(P)
  if k or len(a) != 1:
    raise Mix()
  return fg.pos(categories(P, a[0])[1])


def _np_unique(P, t, a, k):
  on(P)
  if k or len(a) != 1:
    raise Mix()
  vs, cs = categories(P, a[0])
  if any(missing(v) for v in vs):
    raise Mix()
  return fg.pos(cs)


def _set_index(P, t, a, k):
  on(P)
  ks = k.get('keys', a[1] if len(a) > 1 else None)
  if set(k) - {'keys'} or not isinstance(a[0], Frame):
    raise Mix()
  f = a[0]
  ks = column_names(P, ks)
  hs = set(map(H, ks))
  rows = list(zip(*[P.column(f, n).v for n in ks]))
  rows = [tuple(P.face(x) for x in r) for r in rows]
  if any(isinstance(x, Op) for r in rows for x in r):
    raise Mix()
  return table(P, labelled(P, ks, rows), range(len(rows)), [
      (n, P.column(f, n).v) for n in P.names(f) if H(n) not in hs])


def _drop(P, t, a, k):
  on(P)
  f = a[0]
  if not isinstance(f, Frame) or set(k) != {'columns'} or len(a) > 1:
    raise Mix()
  ks = column_names(P, k['columns'])
  have = set(map(H, P.names(f)))
  gone = set(map(H, ks))
  if f.names is not None and not gone <= have:
    raise Undef('no such column')
  if not gone:
    return f
  return table(P, f.dom, f.sel, [(n, P.column(f, n).v) for n in P.names(f)
                                 if H(n) not in gone])


def _rename(P, t, a, k):
  on(P)
  f = a[0]
  if not isinstance(f, Frame) or set(k) != {'columns'} or len(a) > 1 or \
      not isinstance(k['columns'], Dct):
    raise Mix()
  m = {H(x): y for x, y in k['columns'].v}
  if not m:
    return f
  if f.names is None and not all(
      x in set(map(H, P.names(f))) for x in m):
    raise Undef('renamed columns exist')
  return table(P, f.dom, f.sel, [(m.get(H(n), n), P.column(f, n).v)
                                 for n in P.names(f)])


def _head(P, t, a, k):
  on(P)
  n = k.get('n', a[1] if len(a) > 1 else D(5))
  if set(k) - {'n'} or not isinstance(a[0], (Vec, Frame)):
    raise Mix()
  n = P.integer(n)
  o = range(len(a[0].sel))
  if t.d[0] == '.head':
    o = o[:n]
  else:
    o = o[-n:] if n else o[:0]
  return take(P, a[0], o)


def _dropna(P, t, a, k):
  on(P)
  x = a[0]
  if len(a) > 1 or set(k) - {'subset'}:
    raise Mix()
  if isinstance(x, Vec):
    return take(P, x, [i for i, y in enumerate(x.v) if not missing(y)])
  if not isinstance(x, Frame):
    raise Mix()
  ns = column_names(P, k['subset']) if k.get('subset') is not None else \
      P.names(x)
  cs = [P.column(x, n).v for n in ns]
  return take(P, x, [i for i in range(len(x.sel))
                     if not any(missing(c[i]) for c in cs)])


def _median(P, t, a, k):
  on(P)
  x = a[0]
  if k or len(a) != 1:
    raise Mix()
  if isinstance(x, Grp):
    return reduce(P, x, t.d[0].strip('.').replace('np.', ''))
  if not isinstance(x, (Vec, Seq)) or isinstance(x, Vec) and \
      x.dom == POS and any(missing(y) for y in x.v):
    raise Mix()
  r = fold(P, t.d[0].strip('.').replace('np.', ''), x.v)
  if missing(r):
    raise Undef('empty')
  return r


def _level_values(P, t, a, k):
  on(P)
  x = t.a[0]
  if not k and len(a) == 2 and isinstance(a[0], Seq) and a[0].k == 'list' \
      and isinstance(a[1], D) and all(isinstance(n, Seq) and
                                      0 <= a[1] < len(n.v) for n in a[0].v):
    return pos(n.v[int(a[1])] for n in a[0].v)
  if k or len(a) != 2 or x.op != 'call' or x.d[0] != '.index' or \
      len(x.a) != 1 or x.bvmax:
    raise Mix()
  f = P.value(x.a[0])
  if not isinstance(f, (Frame, Vec)) or f.dom == POS:
    raise Mix()
  if f.dom in P.labels:
    keys, lb = P.labels[f.dom]
    js = [j for j, n in enumerate(keys) if H(n) == H(a[1])]
    if isinstance(a[1], D) and 0 <= a[1] < len(keys):
      js = [int(a[1])]
    if len(js) != 1:
      raise Undef('no such level')
    return pos(lb[i][js[0]] for i in f.sel)
  h = dig(f.dom, 'level', H(a[1]))
  return pos(P.cell(h, i) for i in f.sel)


def _to_numeric(P, t, a, k):
  on(P)
  if k or len(a) != 1 or not isinstance(a[0], Vec):
    raise Mix()

  def f(x):
    x = P.face(x)
    if not isinstance(x, D):
      raise Mix()
    return x
  return P.lift(f, a[0])


def _of_group(P, t, a, k):
  on(P)
  if k or len(a) != 1 or not isinstance(a[0], Grp):
    raise Mix()
  return reduce(P, a[0], t.d[0].strip('.'))


def _array_equal(P, t, a, k):
  on(P)
  if k or len(a) != 2 or not all(isinstance(x, Vec) for x in a):
    raise Mix()
  x, y = a[0].v, a[1].v
  if any(missing(z) for z in x + y):
    raise Mix()
  return len(x) == len(y) and all(P.veq(u, v) for u, v in zip(x, y))


def _np_sort(P, t, a, k):
  on(P)
  if set(k) - {'axis'} or len(a) != 1 or not isinstance(a[0], fg.Mat):
    raise Mix()
  ax = k.get('axis', D(-1))
  m = [[P.num(y) for y in r] for r in a[0].v]
  if any(missing(y) for r in m for y in r):
    raise Mix()
  if ax in (D(1), D(-1)):
    return fg.Mat(a[0].n, [sorted(r) for r in m])
  if ax == 0:
    return fg.Mat(a[0].n, zip(*[sorted(c) for c in zip(*m)]))
  raise Mix()


CALLS = {
    '.duplicated': _duplicated, '.value_counts': _value_counts,
    '.nlargest': _largest, '.nsmallest': _largest, '.ffill': _ffill,
    '.bfill': _ffill, '.replace': _replaced,
    '.drop_duplicates': _drop_duplicates, '.merge': _merge,
    'pd.pivot_table': _pivot, '.pivot_table': _pivot, '.fillna': _fillna,
    '.shift': _shift, '.diff': _diff, '.reset_index': _reset_index,
    '.set_index': _set_index, '.drop': _drop, '.rename': _rename,
    '.head': _head, '.tail': _head, '.dropna': _dropna, 'median': _median,
    '.median': _median, 'np.median': _median,
    'nunique': _of_group, 'min': _of_group, 'max': _of_group,
    '.first': _of_group, '.last': _of_group, '.count': _of_group,
    'pd.to_numeric': _to_numeric, '.get_level_values': _level_values,
    'np.array_equal': _array_equal, 'np.sort': _np_sort, '.index': _index,
    '.sort_index': _sort_index, '.astype': _category, '.cat.codes': _cat_codes,
    '.cat.categories': _cat_categories, 'np.unique': _np_unique,
}
