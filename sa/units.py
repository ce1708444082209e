"""Obligations: one public function of the library against its reference."""
from __future__ import annotations

import time
import traceback

from sa.terms import *   # noqa: F401,F403
from sa import terms as tm
from sa import program as pr
from sa import compare as cp
from sa import fingerprint as fg
from sa.compare import Cmp, Diff

TRACE = False
IGNORED_EXC = {'AssertionError'}


class Result:
  """Outcome of one aspect of one function."""

  def __init__(self, fn, aspect, status, detail='', where=None, diff=None):
    self.fn, self.aspect, self.status = fn, aspect, status
    self.detail, self.where, self.diff = detail, where, diff

  def key(self):
    return f'{self.fn}:{self.aspect}'


def apis(t, out=None, seen=None):
  """Names of the public functions called in t."""
  out = {} if out is None else out
  seen = set() if seen is None else seen
  stack = [t]
  while stack:
    x = stack.pop()
    if x.id in seen:
      continue
    seen.add(x.id)
    if x.op == 'api':
      out[x.d[0]] = out.get(x.d[0], 0) + 1
    elif x.op == 'apiref':
      out[x.d] = out.get(x.d, 0) + 1
    stack.extend(x.a)
  return out


def api_terms(t):
  """Outermost public calls in t."""
  out, seen, stack = set(), set(), [t]
  while stack:
    x = stack.pop()
    if x.id in seen:
      continue
    seen.add(x.id)
    if x.op in ('api', 'apiref'):
      out.add(x)
    else:
      stack.extend(x.a)
  return out


def summary_terms(S):
  ts = [S.ret] if S.ret is not None else []
  ts += [c for c in S.raises.values()]
  ts += [x for c, e, _ in S.effects for x in (c, e)]
  ts += list(S.final.values())
  return ts


def summary_apis(S):
  out, seen = {}, set()
  for t in summary_terms(S):
    apis(t, out, seen)
  return out


def find_src(S, t):
  """Source position of the construct that produced t."""
  seen = set()
  q = [t]
  while q:
    nq = []
    for x in q:
      if x.id in seen:
        continue
      seen.add(x.id)
      w = S.src.get(x.id)
      if w:
        return w
      nq.extend(x.a)
    q = nq
    if len(seen) > 4000:
      break
  return S.where


def cmp_sig(fn, A, B):
  out = []
  na = {n: (i, k, d) for i, (n, k, d) in enumerate(A.sig)}
  nb = {n: (i, k, d) for i, (n, k, d) in enumerate(B.sig)}
  star = any(k == '**' for _, k, _ in A.sig)
  stars = any(k == '*' for _, k, _ in A.sig)
  posb = [n for n, k, _ in B.sig if k == 'pos']
  posa = [n for n, k, _ in A.sig if k == 'pos']
  for n, k, d in B.sig:
    if k in ('*', '**'):
      continue
    if n not in na:
      if star:
        out.append(Result(fn, 'signature', 'undecided',
                          f'parameter {n} is taken through **kwargs', A.where))
      else:
        out.append(Result(fn, 'signature', 'violation',
                          f'parameter {n} is missing', A.where))
      continue
    d1 = na[n][2]
    if d is None and d1 is not None:
      continue
    if d is not None and d1 is None:
      out.append(Result(fn, 'signature', 'violation',
                        f'parameter {n} has lost its default {show(d)}',
                        A.where))
      continue
    if d is not None and d1 is not d:
      r = Cmp().equal(d1, d)
      if r is not None:
        out.append(Result(
            fn, 'signature', 'violation' if r.definite else 'undecided',
            f'default of {n} is {show(d1)}, must be {show(d)}', A.where))
  for n, k, d in A.sig:
    if n not in nb and d is None and k not in ('*', '**'):
      out.append(Result(fn, 'signature', 'violation',
                        f'new required parameter {n}', A.where))
  if not stars and not star and posa[:len(posb)] != posb and \
      all(n in na for n in posb):
    out.append(Result(fn, 'signature', 'violation',
                      f'positional parameters are {posa}, must be {posb}',
                      A.where))
  if not out:
    out.append(Result(fn, 'signature', 'equal', where=A.where))
  return out


def raise_cond(S):
  cs = [c for t, c in S.raises.items()]
  return or_(*cs) if cs else FALSE


def assume_ok(C, S, but=None):
  """Context in which S returns normally (or raises `but`)."""
  ctx = Ctx.empty()
  for t, c in S.raises.items():
    if t in IGNORED_EXC or t == but:
      continue
    for x in (c.a if c.op == 'or' else (c,)):
      n = ctx.assume_lit(x, False)
      if n is None:
        return None
      ctx = n
      if x.op == 'and':
        C.assume.append(not_(x))
  return ctx


def cmp_raises(fn, A, B):
  out = []
  types = [t for t in dict.fromkeys(list(B.raises) + list(A.raises))
           if t not in IGNORED_EXC]
  for t in types:
    a, b = A.raises.get(t, FALSE), B.raises.get(t, FALSE)
    d = Cmp().equal(a, b)
    asp = f'raises {t}'
    if d is not None and len(types) > 1:
      # where nothing else is raised
      C = Cmp()
      ctx = assume_ok(C, B, t)
      d = None if ctx is None else C.equal(ctx.simp(a), ctx.simp(b), ctx)
    if d is None:
      out.append(Result(fn, asp, 'equal'))
      continue
    sites = [w for typ, _, w in A.raise_sites if typ == t]
    where = locate_raise(A, t, d, sites)
    out.append(Result(fn, asp, 'violation' if d.definite else 'undecided',
                      why(d), where, d))
  if not types:
    out.append(Result(fn, 'raises nothing', 'equal'))
  return out


def locate_raise(S, t, d, sites):
  ids = set()
  stack = [d.a]
  while stack:
    x = stack.pop()
    if x.id not in ids and len(ids) < 2000:
      ids.add(x.id)
      stack.extend(x.a)
  for typ, c, w in S.raise_sites:
    if typ == t and (c is d.a or any(x.id == d.a.id for x in (
        c.a if c.op in ('and', 'or') else ()))):
      return w
  return sites[0] if sites else S.where


def why(d):
  s = d.why or 'differs'
  cond = ' and '.join(('' if v else 'not ') + show(t, 4)[:80]
                      for t, v in d.lits[-4:])
  r = f'{s}: found {show(d.a)[:260]}, expected {show(d.b)[:260]}'
  if cond:
    r += f' when {cond}'
  return r


def skel(e):
  """Pairing key of an effect."""
  n = 0
  while e.op == 'foreach':
    n += 1
    e = e.a[2]
  if e.op == 'eff':
    if e.d[0] == 'api':
      return ('api', e.a[0].d[0])
    return e.d[0]
  return e.op


def cmp_effects(fn, A, B, only=None):
  C = Cmp()
  ctx = assume_ok(C, B)
  if ctx is None:
    return [Result(fn, 'effects', 'equal')]
  ea = [(ctx.simp(c), ctx.simp(e), w) for c, e, w in A.effects]
  eb = [(ctx.simp(c), ctx.simp(e), w) for c, e, w in B.effects]
  ea = [x for x in ea if x[0] is not FALSE]
  eb = [x for x in eb if x[0] is not FALSE]
  if only is not None:
    ea = [x for x in ea if skel_name(x[1]) in only]
    eb = [x for x in eb if skel_name(x[1]) in only]
  n = len(eb)
  # identical ones
  rest = []
  used = set()
  for c, e, w in eb:
    for i, (c2, e2, _) in enumerate(ea):
      if i not in used and e2 is e and c2 is c:
        used.add(i)
        break
    else:
      rest.append((c, e, w))
  ra = [x for i, x in enumerate(ea) if i not in used]
  out = []
  rest2 = []
  # equal by comparison
  for c, e, w in rest:
    for i, (c2, e2, w2) in enumerate(ra):
      if skel(e) == skel(e2) and eff_cmp(C, c2, e2, c, e, ctx) is None:
        ra.pop(i)
        break
    else:
      rest2.append((c, e, w))
  # same effect under complementary conditions, split or merged
  if rest2 and ra:
    rest2, ra = merge_split(C, rest2, ra, ctx)
  # what is left does not match: compare the rest pair by pair, preferring
  # the same object and position; a difference counts as definite only if it
  # is one against every candidate of the same kind
  groups = {}
  for side, l in ((0, rest2), (1, ra)):
    for x in l:
      groups.setdefault(skel(x[1]), ([], []))[side].append(x)
  for k, (ws, fs) in groups.items():
    name = k[1] if isinstance(k, tuple) else k
    if ws and fs:
      diffs = {}
      for i, (c, e, w) in enumerate(ws):
        for j, (c2, e2, w2) in enumerate(fs):
          diffs[i, j] = eff_cmp(C, c2, e2, c, e, ctx) or Diff(
              False, e2, e, (), 'not comparable')
      order = sorted(diffs, key=lambda ij: (
          e_recv(ws[ij[0]][1]) is not e_recv(fs[ij[1]][1]),
          abs(ij[0] - ij[1])))
      used_i, used_j = set(), set()
      for i, j in order:
        if i in used_i or j in used_j:
          continue
        used_i.add(i)
        used_j.add(j)
        d = diffs[i, j]
        ok = all(diffs[i, q].definite for q in range(len(fs))) or all(
            diffs[q, j].definite for q in range(len(ws)))
        out.append(Result(fn, f'effect {name}',
                          'violation' if d.definite and ok else 'undecided',
                          why(d), fs[j][2], d))
      ws = [x for i, x in enumerate(ws) if i not in used_i]
      fs = [x for j, x in enumerate(fs) if j not in used_j]
    for l, what in ((ws, 'missing'), (fs, 'additional')):
      for c, e, w in l:
        definite = not e.unm and not any(
            r.status == 'undecided' for r in out) and cp.understood_eff(e) \
            and not any(r[1].unm for r in ws + fs)
        out.append(Result(
            fn, f'effect {name}', 'violation' if definite else 'undecided',
            f'{what} effect {show(e)[:300]}',
            A.where if what == 'missing' else w,
            Diff(definite, *((NONE, e) if what == 'missing' else (e, NONE)),
                 (), what)))
  good = n - len([r for r in out])
  for _ in range(max(good, 0)):
    out.append(Result(fn, 'effect', 'equal'))
  return out


def e_recv(e):
  while e.op == 'foreach':
    e = e.a[2]
  return e.a[0] if e.a else e


def skel_name(e):
  k = skel(e)
  return k[1] if isinstance(k, tuple) else k


def eff_cmp(C, c2, e2, c, e, ctx):
  d = C.equal(c2, c, ctx)
  if d is not None:
    return d
  n = ctx.assume_lit(c, True) if c is not TRUE else ctx
  if n is None:
    return None
  return C.equal(e2, e, n)


def merge_split(C, eb, ea, ctx):
  """Combine effects with the same skeleton whose conditions exclude each
  other: [c: e1, not c: e2] is one effect with argument ite(c, e1, e2)."""
  def combine(l):
    out = []
    for c, e, w in l:
      for j, (c2, e2, w2) in enumerate(out):
        if skel(e) == skel(e2) and e.op == e2.op and e.d == e2.d and len(
            e.a) == len(e2.a) and e.op == 'eff' and and_(
                ctx.simp(c), ctx.simp(c2)) is FALSE:
          m = raw('eff', [ite(c2, y, x) for x, y in zip(e.a, e2.a)], e.d)
          out[j] = (or_(c, c2), m, w2)
          break
      else:
        out.append((c, e, w))
    return out
  eb2, ea2 = combine(eb), combine(ea)
  rest = []
  for c, e, w in eb2:
    for i, (c2, e2, w2) in enumerate(ea2):
      if skel(e) == skel(e2) and eff_cmp(C, c2, e2, c, e, ctx) is None:
        ea2.pop(i)
        break
    else:
      rest.append((c, e, w))
  return rest, ea2


def cmp_ret(fn, A, B, fields=None):
  C = Cmp()
  ctx = assume_ok(C, B)
  if ctx is None:
    return [Result(fn, 'result', 'equal')]
  a, b = A.ret, B.ret
  if fields:
    out = []
    for f in fields:
      d = C.equal(attr(a, f), attr(b, f), ctx)
      out.append(mk(fn, f'result.{f}', d, A))
    return out
  return [mk(fn, 'result', C.equal(a, b, ctx), A)]


def mk(fn, asp, d, A):
  if d is None:
    return Result(fn, asp, 'equal')
  return Result(fn, asp, 'violation' if d.definite else 'undecided', why(d),
                find_src(A, d.a), d)


def cmp_final(fn, A, B, params=None):
  C = Cmp()
  ctx = assume_ok(C, B)
  if ctx is None:
    return []
  out = []
  for n, b in B.final.items():
    if params and n not in params:
      continue
    a = A.final.get(n)
    if a is None:
      continue
    if a is b:
      continue
    d = C.equal(a, b, ctx)
    out.append(mk(fn, f'parameter {n} afterwards', d, A))
  return out


class Checker:
  """Evaluates and compares functions, with caching."""

  def __init__(self, impl, spec, deadline=None, hidden=None):
    self.impl, self.spec = impl, spec
    self.deadline = deadline
    self.hidden = hidden
    self.history = {}
    self.cache = {}
    self.functions = set()
    self.callsites = 0
    self.refs = {}

  def summaries(self, fn, inline):
    key = (fn, inline)
    if key not in self.cache:
      kinds, names = pr.api_param_kinds(self.spec, fn)
      B = pr.summarise(self.spec, fn, inline, kinds, names)
      A = pr.summarise(self.impl, fn, inline, kinds, names)
      self.functions |= A.functions
      self.callsites += A.callsites
      if self.hidden is not None:
        h = self.hidden.resolve(A, fn) + self.hidden.cached_notes(A)
        self.history.setdefault(fn, []).extend(h)
      self.cache[key] = (A, B)
    return self.cache[key]

  def compare(self, fn, aspects, A, B):
    out = []
    if A.problem or B.problem:
      p = A.problem or 'reference: ' + B.problem
      return [Result(fn, 'analysis', 'missing' if A.problem == 'missing'
                     else 'undecided', p, A.where)]
    for asp in aspects:
      name, _, arg = asp.partition(':')
      arg = [x for x in arg.split(',') if x] or None
      if name == 'sig':
        out += cmp_sig(fn, A, B)
      elif name == 'raises':
        out += cmp_raises(fn, A, B)
      elif name == 'ret':
        out += cmp_ret(fn, A, B, arg)
      elif name == 'effects':
        out += cmp_effects(fn, A, B, arg)
      elif name == 'final':
        out += cmp_final(fn, A, B, arg)
      elif name == 'cached':
        if A.cached and not B.cached and (
            self.hidden is None or A.ret is None or
            self.hidden.stale(fn.split('.')[1], A.ret)):
          out.append(Result(fn, 'recomputed', 'violation',
                            'the value is cached although the object it is '
                            'computed from can change', A.where))
        else:
          out.append(Result(fn, 'recomputed', 'equal'))
    return out

  def left(self, most):
    if self.deadline is None:
      return most
    return max(min(most, self.deadline - time.time()), 2)

  def check(self, fn, aspects, thorough=False):
    """Results for one function, refining through public helpers."""
    res = self.check_(fn, aspects)
    seen = set()
    for msg, definite, where in self.history.get(fn, ()):
      if msg not in seen:
        seen.add(msg)
        res.append(Result(fn, 'history', 'violation' if definite else
                          'undecided', msg, where))
    if self.hidden is not None and not seen:
      res.append(Result(fn, 'no hidden state', 'equal'))
    return res

  def check_(self, fn, aspects):
    tm.set_limit(4_000_000, self.left(240))
    try:
      A, B = self.summaries(fn, frozenset())
      res = self.compare(fn, aspects, A, B)
    except tm.Budget:
      tm.set_limit()
      return [Result(fn, 'analysis', 'undecided', 'too large')]
    except RecursionError:
      return [Result(fn, 'analysis', 'undecided', 'nested too deeply')]
    except Exception as e:   # no judgement: never an alarm
      traceback.print_exc()
      return [Result(fn, 'analysis', 'undecided', f'internal error: {e!r}')]
    finally:
      tm.set_limit()
    if A.problem:
      return res
    inline = frozenset()
    for _ in range(4):
      more = set()
      for r in res:
        if r.status in ('violation', 'undecided') and r.diff is not None:
          more |= self.to_inline(r, A, B, inline)
      more.discard(fn)
      more = frozenset(more) - inline
      if not more:
        break
      inline = inline | more
      tm.set_limit(1_500_000, self.left(100))
      try:
        A, B = self.summaries(fn, inline)
        res2 = self.compare(fn, aspects, A, B)
      except (tm.Budget, RecursionError):
        tm.set_limit()
        for r in res:
          if r.status == 'violation' and self.to_inline(r, A, B, inline - more) \
              and not strong(r.diff) and not (
                  r.diff.calls and self.passed_on(r.diff)):
            r.status = 'undecided'
            r.detail += ' (too large to look into the functions called)'
        break
      finally:
        tm.set_limit()
      if any(r.aspect == 'analysis' for r in res2):
        break
      res = self.refine(res, res2)
    if 'raises' in aspects and any(r.status == 'undecided' for r in res) and \
        not any(r.status == 'violation' for r in res):
      # what one of the functions called raises
      for n in sorted(inline)[:4] if len(inline) > 1 else ():
        tm.set_limit(800_000, self.left(30))
        try:
          A, B = self.summaries(fn, frozenset([n]))
          v = [] if A.problem or B.problem else [
              x for x in cmp_raises(fn, A, B) if x.status == 'violation'
              and not self.to_inline(x, A, B, frozenset([n])) - {n}]
        except (tm.Budget, RecursionError):
          continue
        finally:
          tm.set_limit()
        if v:
          return [r for r in res if r.aspect != v[0].aspect] + v[:1]
    return res

  def to_inline(self, r, A, B, inline):
    """Public functions that have to be looked into to judge a difference."""
    fa, fb = apis(r.diff.a), apis(r.diff.b)
    ta, tb = api_terms(r.diff.a), api_terms(r.diff.b)
    more = set(r.diff.under)
    if r.aspect.startswith('effect '):
      more |= {n for n in set(fa) | set(fb) if fa.get(n, 0) != fb.get(n, 0)}
    if r.status == 'violation' and (ta <= tb or tb <= ta):
      return more
    new = {t.d[0] if t.op == 'api' else t.d for t in ta ^ tb}
    more |= new or set(fa) | set(fb)
    if r.status == 'undecided' and not more - inline:
      # reached through a call elsewhere
      ca, cb = summary_apis(A), summary_apis(B)
      more |= {n for n in set(ca) | set(cb) if ca.get(n, 0) != cb.get(n, 0)}
    return more

  def passed_on(self, d, done=frozenset(), depth=0):
    """Does every public function between a difference in an argument and
    the end of the chain of calls hand the difference on?"""
    if not d.definite or {c[0].d[0] for c in d.calls} != set(d.under):
      return False
    ctx = Ctx.empty()
    for t, v in d.lits:
      ctx = ctx.assume_lit(t, v) or ctx
    for ca, cb, a, b in d.calls:
      if ca.d[0] in done:
        continue
      B = self.reference(ca.d[0])
      if B is None or ca.d[0] != cb.d[0] or depth > 3:
        return False
      tm.set_limit(500_000, self.left(30))
      try:
        es = []
        if B.ret is NONE and a.op in ('api', 'eff'):
          # only the exceptions can tell
          pairs = [(r, r) for r in B.raises.values()]
        else:
          pairs = [(a, b)]
        for u, v in pairs:
          x, y = result_of(B, ca, u), result_of(B, cb, v)
          if x is not None and y is not None and x is not y:
            es.append(Cmp().equal(x, y, ctx))
      except (tm.Budget, RecursionError):
        return False
      finally:
        tm.set_limit()
      if TRACE:
        print('  ' * depth, ca.d[0], [e and (
            e.definite, e.why, tm.show(e.a)[:200]) for e in es],
              tm.show(a)[:TRACE], '=>', x and tm.show(x)[:TRACE])
      if not any(e is not None and self.passed_on(e, done, depth + 1)
                 for e in es):
        return False
      done = done | {ca.d[0]}
    return True

  def reference(self, fn):
    if fn not in self.refs:
      kinds, names = pr.api_param_kinds(self.spec, fn)
      tm.set_limit(500_000, self.left(30))
      try:
        B = pr.summarise(self.spec, fn, frozenset(), kinds, names)
        self.refs[fn] = None if B.problem else B
      except tm.Budget:
        self.refs[fn] = None
      finally:
        tm.set_limit()
    return self.refs[fn]

  def refine(self, old, new):
    """Combine the result at the call boundary with the inlined one."""
    bykey = {}
    for r in new:
      bykey.setdefault(r.aspect, []).append(r)
    out = []
    for r in old:
      ns = bykey.get(r.aspect)
      if r.status == 'equal':
        # what a function called raises shows only when it is looked into
        v = [x for x in ns or () if x.status == 'violation']
        out.append(v[0] if v and r.aspect.startswith('raises') else r)
        continue
      if ns is None:
        if r.aspect.startswith('effect '):
          # the effect may be inlined away
          bad = [x for x in new if x.aspect.startswith(('effect', 'raises'))
                 and x.status != 'equal']
          if not bad and r.diff is not None and api_effect(r):
            r = Result(r.fn, r.aspect, 'equal')
          elif r.status == 'undecided' and api_effect(r):
            v = [x for x in bad if x.status == 'violation']
            if v:
              r = Result(r.fn, v[0].aspect, 'violation', v[0].detail,
                         r.where or v[0].where, v[0].diff)
        out.append(r)
        continue
      if all(x.status == 'equal' for x in ns):
        out.append(Result(r.fn, r.aspect, 'equal', 'after inlining'))
      elif any(x.status == 'violation' for x in ns):
        v = next(x for x in ns if x.status == 'violation')
        if r.status == 'violation':
          v = r
        out.append(v)
      else:
        # undecided when inlined
        if r.status == 'violation' and strong(r.diff):
          out.append(r)
        else:
          u = next(x for x in ns if x.status != 'equal')
          out.append(u)
    return out


def result_of(S, call, t):
  """The term t with what a reference says about one call in it."""
  args = {n: d for n, _, d in S.sig if isinstance(d, T)}
  args.update(zip(call.d[1], call.a))
  names = {n for n, _, _ in S.sig} | {'self'}

  def bound(r):
    m = {}
    for x in fg.dag(r).values():
      if x.op == 'sym':
        if x.d[0] in args:
          m[x.id] = args[x.d[0]]
        elif x.d[0] in names:
          return None
    return tm.replace_terms(r, m)

  if not any(x is call for x in fg.dag(t).values()):
    return bound(t)
  m = {}
  for x in fg.dag(t).values():
    if x.op == 'mutated' and x.a[0] is call:
      r = S.final.get(x.d)
    elif x is call:
      r = S.ret
    else:
      continue
    r = bound(r) if r is not None else None
    if r is None:
      return None
    m[x.id] = r
  return tm.replace_terms(t, m)


def api_effect(r):
  return any(t.op == 'eff' and t.d[0] == 'api' for t in (r.diff.a, r.diff.b))


def strong(d):
  if d is None:
    return True
  a, b = d.a, d.b
  if is_const(a) and is_const(b) and a.op == b.op:
    return True
  if cp.basic(a) and cp.basic(b) and a is not NONE and b is not NONE:
    return True
  if kind(a) in ('int', 'num') and kind(b) in ('int', 'num'):
    return True
  if a.op in ('lt0', 'eq0', 'and', 'or', 'not', 'bool') and kind(b) == 'bool':
    return True
  return False
