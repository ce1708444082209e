"""State that outlives a call: module-level objects, class attributes, names
rebound with `global`, and private attributes of the library's own objects.

A function whose result depends on such state depends on the history of calls.
Every cell that some public function writes is made an unknown; a read of a
memo table is resolved when the key stored with a value determines that value,
otherwise the dependence is reported.
"""
from __future__ import annotations

from sa.terms import *   # noqa: F401,F403
from sa import terms as tm
from sa import program as pr
from sa import interp as ip
from sa.interp import Ref


class Hidden:

  def __init__(self, impl, spec):
    self.impl, self.spec = impl, spec
    self.cells = {}             # cell -> symbol
    self.writes = {}            # symbol id -> [(key|None, value, cond, where)]
    self.syms = {}
    for _ in range(3):
      if not self.collect():
        break
    impl.hidden = self

  def summarise_all(self):
    for n in sorted(self.spec.api_funcs):
      kinds, names = pr.api_param_kinds(self.spec, n)
      tm.set_limit(1_500_000, 60)
      try:
        yield n, pr.summarise(self.impl, n, frozenset(), kinds, names)
      except tm.Budget:
        tm.set_limit()
      finally:
        tm.set_limit()

  def collect(self):
    """One pass over all functions; True if a new cell was found."""
    new = False
    self.writes = {}
    self.sums = {}
    for n, S in self.summarise_all():
      self.sums[n] = S
      for cell, pc, t, w in S.gwrites:
        if cell not in self.cells:
          new |= self.make_symbolic(cell)
        s = self.cells.get(cell)
        if s is not None:
          self.writes.setdefault(s.id, []).append((n, pc, t, w))
    return new

  def label(self, cell):
    if cell[0] == 'loc':
      for m in self.impl.modules.values():
        for n, v in m.env.items():
          if isinstance(v, Ref) and v.loc == cell[1]:
            return f'{m.short}.{n}'
      for c in set(self.impl.classes.values()):
        for n, v in c.members.items():
          if isinstance(v, Ref) and v.loc == cell[1]:
            return f'{c.name}.{n}'
      return f'object {cell[1]}'
    return f'{cell[1]}.{cell[2]}'

  def make_symbolic(self, cell):
    label = 'global:' + self.label(cell)
    if cell[0] == 'loc':
      old = self.impl.heap.get(cell[1])
      k = kind(old) if old is not None else None
      s = sym(label, k)
      self.impl.heap[cell[1]] = s
    else:
      s = sym(label, None, True)
      if cell[0] == 'cls':
        for (side, name), c in self.impl.classes.items():
          if name == cell[1] and side == 'impl':
            c.members[cell[2]] = s
      else:
        for m in self.impl.modules.values():
          if m.short == cell[1]:
            m.env[cell[2]] = s
            # names imported elsewhere keep their first value
    self.cells[cell] = s
    self.syms[s.id] = s
    return True

  # -------------------------------------------------------------- entries
  def entries(self, g):
    """(key, value, where) stored in the cell g; key None for plain values."""
    out = []
    for n, pc, t, w in self.writes.get(g.id, ()):
      es = dict_entries(t, g)
      if es is None:
        out.append((None, t, w))
      else:
        out += [(k, v, w) for k, v in es]
    return out

  # ---------------------------------------------------------------- reads
  def reads(self, t):
    """Cells read in t."""
    if not self.syms:
      return set()
    out, seen, stack = set(), set(), [t]
    while stack:
      x = stack.pop()
      if x.id in seen:
        continue
      seen.add(x.id)
      if x.id in self.syms:
        out.add(x)
      stack.extend(x.a)
    return out

  def resolve(self, S, fn):
    """Replace reads of memo tables in S; [(message, definite)] otherwise."""
    msgs = []
    cls = fn.split('.')[1] if fn.count('.') == 2 or fn.split('.')[
        -1][:1].isupper() else None
    is_ctor = cls is not None and fn.count('.') == 1
    private = {}
    terms = summary_terms(S)
    if cls and not is_ctor:
      private = self.private_reads(terms, cls)
    if not self.syms and not private:
      return msgs
    m = {}
    for t in terms:
      for x in subterms(t):
        g, k = memo_read(x)
        if g is None or g.id not in self.syms and g.id not in private:
          continue
        es = self.entries(g) if g.id in self.syms else private[g.id][1]
        es = [e for e in es if e[0] is not None]
        if not es:
          continue
        vals = []
        for k0, v, w in es:
          ok, what = determined(k0, v, self.immutable(cls))
          if ok is True:
            vals.append(apply_entry(k0, v, k))
          else:
            msgs.append((f'values stored in {self.name(g, private)} under '
                         f'{show(k0)[:80]} depend on {what} as well',
                         ok is False, w))
            vals.append(None)
        if vals and all(v is not None for v in vals) and all(
            v is vals[0] for v in vals):
          m[x.id] = vals[0]
          if x.op == 'call' and x.d[0] == '.get':
            m[x.id] = vals[0]
    # single values
    for t in terms:
      for x in subterms(t):
        if x.id in m:
          continue
        if x.id in self.syms:
          es = self.entries(x)
          others = [e[1] for c, gs in self.cells.items() if gs is not x
                    for e in self.entries(gs) if e[0] is None]
        elif x.id in private:
          es = private[x.id][1]
          others = []
        else:
          continue
        if any(e[0] is not None for e in es):
          continue
        vs = list({e[1].id: e[1] for e in es if not is_const(e[1])}.values())
        if len(vs) != 1 or x in set(subterms(vs[0])):
          continue
        v = vs[0]
        key = tup(*others) if others else TRUE
        ok, what = determined(key, v, self.immutable(cls))
        if ok is True:
          m[x.id] = v
        else:
          w = es[0][2]
          msgs.append((f'{self.name(x, private)} keeps a value that depends on '
                       f'{what}', ok is False, w))
    if m:
      memo = {}
      f = lambda t: tm.replace_terms(t, m, memo)   # noqa: E731
      if S.ret is not None:
        S.ret = f(S.ret)
      S.raises = {t: f(c) for t, c in S.raises.items()}
      S.effects = [(f(c), f(e), w) for c, e, w in S.effects]
      S.effects = [x for x in S.effects if x[0] is not FALSE]
      S.final = {n: f(t) for n, t in S.final.items()}
    # what is still read
    left = set()
    for t in observed(S):
      left |= {x for x in subterms(t) if x.id in self.syms or x.id in private}
    out = []
    for x in left:
      mine = [(a, d, w) for a, d, w in msgs if self.name(x, private) in a]
      definite = not mine or any(d for _, d, _ in mine)
      if x.id in private and not mine:
        definite = False
      out.append((f'the result depends on earlier calls through '
                  f'{self.name(x, private)}' + (
                      ': ' + mine[0][0] if mine else ''), definite,
                  mine[0][2] if mine else S.where))
    return out

  def name(self, g, private):
    if g.id in private:
      return show(g)
    return str(g.d[0])[len('global:'):]

  # ------------------------------------------------------- private attributes
  def immutable(self, cls):
    """Attributes of the class that never change after construction."""
    if cls is None:
      return None
    if cls == 'ExperimentDesign':
      return frozenset()
    c = next((x for (side, n), x in self.impl.classes.items()
              if side == 'impl' and n == cls), None)
    if c is None:
      return frozenset()
    changed, stored = set(), set()
    for n, S in self.sums.items():
      for cn, name, pc, val, w, base in S.awrites:
        if cn == cls:
          if n.split('.')[-1] == cls:
            stored.add(name)
          else:
            changed.add(name)
      for org, cond, w, what in S.muts:
        if org.startswith('self.') and n.split('.')[1] == cls:
          changed.add(org.split('.')[1])
    stored |= {f[0] for f in c.fields}
    return frozenset(stored - changed)

  def private_reads(self, terms, cls):
    """Private attributes of self that are read: id -> (name, entries)."""
    out = {}
    for t in terms:
      for x in subterms(t):
        if x.op == 'attr' and x.a[0].op == 'sym' and x.a[0].d[0] == 'self' \
            and x.d.startswith('_') and x.id not in out:
          out[x.id] = (x.d, self.private_entries(cls, x))
    return out

  def private_entries(self, cls, x):
    out = []
    for n, S in self.sums.items():
      for cn, name, pc, val, w, base in S.awrites:
        if cn != cls or name != x.d:
          continue
        if n.split('.')[-1] == cls:
          val = self.in_self(val, x.a[0], S)
          if is_const(val) or val.op == 'dict' and not val.a:
            continue
        es = dict_entries(val, x)
        out += [(None, val, w)] if es is None else [
            (k, v, w) for k, v in es]
      f = S.final.get('self')
      if f is not None and n.split('.')[1] == cls and n.count('.') == 2:
        v = attr(f, x.d)
        es = dict_entries(v, x) if v is not x else None
        if es:
          out += [(k, y, S.where) for k, y in es]
    return out

  def in_self(self, val, me, S):
    """A value of the constructor, in terms of the attributes it stored."""
    m = {}
    if S.ret is not None and S.ret.op == 'obj':
      for n, v in zip(S.ret.d[1], S.ret.a):
        if v.op == 'sym':
          m[v.id] = attr(me, n)
    return tm.replace_terms(val, m)

  # ------------------------------------------------------------ cached values
  def cached_notes(self, S):
    """Values cached on an object although what they depend on changes."""
    out = []
    for note in S.notes:
      if note[0] != 'cached':
        continue
      _, cls, name, t = note
      bad = self.stale(cls, t)
      if bad:
        out.append((f'{cls}.{name} is cached but depends on {bad}', True,
                    S.where))
    return out

  def stale(self, cls, t):
    if cls == 'TrimmedArray':
      return None
    imm = self.immutable(cls)
    for x in subterms(t):
      if x.op == 'attr' and x.a[0].op == 'sym' and x.a[0].d[0] == 'self':
        if x.d not in imm:
          return x.d
      if x.op == 'sym' and x.d[0] == 'self' and cls == 'ExperimentDesign':
        return 'the design'
    return None


def summary_terms(S):
  ts = [S.ret] if S.ret is not None else []
  ts += list(S.raises.values())
  ts += [x for c, e, _ in S.effects for x in (c, e)]
  ts += list(S.final.values())
  return ts


def observed(S):
  """What a caller can see: not the private attributes stored in self."""
  ts = [S.ret] if S.ret is not None else []
  ts += list(S.raises.values())
  ts += [x for c, e, _ in S.effects for x in (c, e)]
  for n, t in S.final.items():
    while t.op == 'setattr' and t.d.startswith('_'):
      t = t.a[0]
    if n != 'self' or t.op != 'ite':
      ts.append(t)
  return ts


def subterms(t):
  seen, stack = set(), [t]
  while stack:
    x = stack.pop()
    if x.id in seen:
      continue
    seen.add(x.id)
    yield x
    stack.extend(x.a)


def dict_entries(t, g):
  """Entries added to the table g by the term t, or None."""
  if t.op == 'ite':
    a, b = dict_entries(t.a[1], g), dict_entries(t.a[2], g)
    if a is None and t.a[1] is g:
      a = []
    if b is None and t.a[2] is g:
      b = []
    return None if a is None or b is None else a + b
  if t.op != 'dict':
    return None
  out = []
  for s in t.a:
    if s.op == 'kv':
      out.append((s.a[0], s.a[1]))
    elif s.op == 'gkv':
      out.append((s.a[1], s.a[2]))
    elif s.a and s.a[0] is not g:
      return None
  return out


def memo_read(x):
  if x.op == 'getitem':
    return x.a[0], x.a[1]
  if x.op == 'call' and x.d[0] == '.get' and len(x.a) >= 2:
    return x.a[0], x.a[1]
  if x.op == 'dget' and len(x.a) >= 2:
    return x.a[0], x.a[1]
  return None, None


LOSSY = {'id', 'len', 'type', 'hash', '.shape', '.name', 'dlen'}


def parts(k):
  if k.op in ('tuple', 'list'):
    out = []
    for x in k.a:
      out += parts(x)
    return out
  if k.op == 'concat' and len(k.a) == 1:
    return parts(k.a[0])
  if k.op in ('fmt',):
    return [k, k.a[0]]
  return [k]


def determined(k, v, immutable):
  """Is the stored value a function of its key?  (True|False|None, what)."""
  m = {}
  for i, p in enumerate(parts(k)):
    if not is_const(p):
      m[p.id] = sym(f'key:{i}', kind(p))
  w = tm.replace_terms(v, m)
  inkey = {x.id: x for x in subterms(k)}
  for x in subterms(w):
    if x.op == 'draw':
      return False, 'a random draw'
    if x.op == 'attr' and x.a[0].op == 'sym' and x.a[0].d[0] == 'self':
      if immutable is not None and x.d in immutable:
        continue
      if x.id in inkey:
        return None, show(x)
      return False, show(x)
    if x.op == 'sym' and x.d[0] != 'self' and not str(x.d[0]).startswith(
        ('key:', 'global:')):
      if x.id in inkey:
        users = [y for y in inkey.values() if x in y.a]
        if users and all(y.op == 'len' or y.op == 'call' and y.d[0] in LOSSY
                         or y.op == 'attr' for y in users):
          return False, f'the contents of {x.d[0]}'
        return None, str(x.d[0])
      return False, str(x.d[0])
  return True, None


def apply_entry(k0, v, k):
  """The stored value, at the key k."""
  a, b = parts(k0), parts(k)
  if len(a) != len(b):
    return v if k0 is k else None
  return tm.replace_terms(v, {x.id: y for x, y in zip(a, b)
                              if not is_const(x)})
