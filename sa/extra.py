"""Rules that are not comparisons with the reference.

R01  nothing but the documented parameters is modified
R02  every draw comes from the caller's generator
"""
from __future__ import annotations

import ast

from sa.terms import *   # noqa: F401,F403
from sa import terms as tm
from sa import program as pr
from sa import interp as ip
from sa.units import Result

SALT_FUNCS = {'experiment_design.Coinflip.with_random_salt',
              'data_preparation.perform_treatment_assignment'}


def summaries(impl, spec):
  out = {}
  for n in sorted(spec.api_funcs):
    kinds, names = pr.api_param_kinds(spec, n)
    out[n] = pr.summarise(impl, n, frozenset(), kinds, names)
  return out


# ------------------------------------------------------------------- R01
def input_fields(spec, cname):
  """Attributes of an object that the caller handed over."""
  c = spec.api_funcs.get(cname)
  if c is None or not isinstance(c, ip.Cls):
    return set()
  init = ip.find_member(c, '__init__')
  if init is not None:
    a = ip.FUNS[init.d].node.args
    return {p.arg for p in a.args[1:] + a.kwonlyargs}
  return {f[0] for f in c.fields if f[3]}


def mutations(impl, spec, counts):
  S = summaries(impl, spec)
  alias = {}
  for n, s in S.items():
    ps = sorted({o.split('.')[0] for o, m in s.ret_org if m == 'deep' and
                 o.split('.')[0] != 'self'})
    if ps and n not in spec.api_returns:
      alias[n] = ps
  if alias:
    impl.api_may_alias = alias
    try:
      S = summaries(impl, spec)
    finally:
      impl.api_may_alias = {}
  counts['functions_analysed'] = len(S)
  counts['in_place_operations_on_parameters'] = 0
  counts['results_that_may_be_a_parameter'] = len(alias)
  out = []
  for n, s in S.items():
    if s.problem:
      out.append(Result(n, 'mutation', 'missing' if s.problem == 'missing'
                        else 'undecided', s.problem, s.where))
      continue
    allowed = {m.partition(':')[0] for m in spec.api_mutates.get(n, ())}
    cname = n.rsplit('.', 1)[0]
    fields = input_fields(spec, cname)
    seen = set()
    for org, cond, where, what in s.muts:
      counts['in_place_operations_on_parameters'] += 1
      base, _, rest = org.partition('.')
      if cond is FALSE or base in allowed and not rest:
        continue
      if base in allowed and base == 'design':
        pass
      if base == 'self':
        if not rest:
          a = what.split(' ')[0].lstrip('.')
          if not (what.startswith('.') and a in fields):
            continue
          rest = a
        elif rest.split('.')[0] not in fields:
          continue
      if (org, where) in seen:
        continue
      seen.add((org, where))
      who = org if base != 'self' else 'the caller\'s ' + rest
      out.append(Result(
          n, f'parameter {org}', 'violation',
          f'{who} is modified in place ({what})' + (
              '' if cond is TRUE else f' when {show(cond)[:120]}'), where))
    if not seen:
      out.append(Result(n, 'parameters', 'equal', where=s.where))
  return out


# ------------------------------------------------------------------- R02
RNG_DERIVING = {'spawn', 'bit_generator', '.spawn', 'integers', 'getitem'}

# names whose use reads or changes state outside the caller's generator
FOREIGN = ('random.', 'secrets.', 'uuid.uuid1', 'uuid.uuid4', 'os.urandom')
NP_OK = {'Generator', 'default_rng', 'BitGenerator', 'SeedSequence', 'PCG64'}


def roots(g, seen=None):
  """Where a generator comes from."""
  seen = set() if seen is None else seen
  if g.id in seen:
    return set()
  seen.add(g.id)
  if g.op == 'ite':
    return roots(g.a[1], seen) | roots(g.a[2], seen)
  if g.op == 'sym':
    return {('param', str(g.d[0]))}
  if g.op == 'attr':
    return {('param', show(g))}
  if g.op in ('draw', 'mutated', 'getitem', 'col', 'elem', 'loopvar') and g.a:
    return roots(g.a[0], seen)
  if g.op == 'call':
    n = g.d[0]
    if n.endswith('default_rng') or n.endswith('.Generator') or \
        n.endswith('RandomState') or n.endswith('SeedSequence') or \
        n.endswith('PCG64'):
      a = [x for x in g.a if x is not NONE]
      if not a:
        return {('fresh', n)}
      out = set()
      for x in a:
        out |= roots(x, seen)
      return out or {('const', show(g))}
    if g.a:
      return roots(g.a[0], seen)
    return {('call', n)}
  if g.op in ('num', 'str', 'bool'):
    return {('const', show(g))}
  if g.op == 'none':
    return {('global', 'no random_state')}
  if g.op in ('lib', 'mod'):
    return {('global', show(g))}
  if g.op == 'api':
    return {('call', g.d[0])}
  out = set()
  for x in g.a:
    out |= roots(x, seen)
  return out


def all_terms(S):
  ts = [S.ret] if S.ret is not None else []
  ts += list(S.raises.values())
  ts += [x for c, e, _ in S.effects for x in (c, e)]
  ts += [x for c, t, _ in S.draws for x in (c, t)]
  ts += list(S.final.values())
  return ts


def randomness(impl, spec, counts):
  S = summaries(impl, spec)
  out = []
  counts['functions_analysed'] = len(S)
  counts['draws'] = 0
  for n, s in S.items():
    if s.problem:
      out.append(Result(n, 'randomness', 'missing' if s.problem == 'missing'
                        else 'undecided', s.problem, s.where))
      continue
    bad = set()

    def report(where, msg):
      if (where, msg) not in bad:
        bad.add((where, msg))
        out.append(Result(n, 'randomness', 'violation', msg, where))
    for c, t, w in s.draws:
      if c is FALSE:
        continue
      counts['draws'] += 1
      g = t.a[0]
      for kind_, what in roots(g):
        if kind_ == 'param':
          if n == 'data_preparation.perform_treatment_assignment' and \
              t.d[0] == 'bytes':
            report(w, f'the salt is drawn from the seeded generator {what}')
          continue
        if kind_ == 'fresh':
          if n in SALT_FUNCS and t.d[0] == 'bytes':
            continue
          report(w, f'{t.d[0]} draws from a new unseeded generator')
        elif kind_ == 'const':
          report(w, f'{t.d[0]} draws with the fixed seed {what}')
        elif kind_ == 'global':
          report(w, f'{t.d[0]} draws from global random state ({what})')
        elif kind_ == 'call' and what in impl.api_funcs:
          continue
        else:
          out.append(Result(n, 'randomness', 'undecided',
                            f'generator of {t.d[0]} is {what}', w))
    # generators made here and handed to other functions
    seen = set()
    stack = [t for t in all_terms(s)]
    while stack:
      t = stack.pop()
      if t.id in seen:
        continue
      seen.add(t.id)
      if t.op == 'api':
        for p, x in zip(t.d[1], t.a):
          if p == 'rng' or kind(x) == 'rng':
            for kind_, what in roots(x):
              if kind_ in ('fresh', 'const', 'global') and x is not NONE:
                report(s.src.get(t.id, s.where),
                       f'{t.d[0]} is given a generator that is not the '
                       f'caller\'s ({what})')
      stack.extend(t.a)
    for note in s.notes:
      if note[0] == 'cached-draw':
        report(s.where, f'{note[1]} is cached although it draws at random')
    if not bad:
      out.append(Result(n, 'randomness', 'equal', where=s.where))
  out += foreign(impl, counts)
  return out


def foreign(impl, counts):
  """Resolved references to random state that is not a caller's generator."""
  out = []
  refs = 0
  for m in impl.modules.values():
    alias = {}
    for s in ast.walk(m.tree):
      if isinstance(s, ast.Import):
        for a in s.names:
          alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else \
              a.name.split('.')[0]
      elif isinstance(s, ast.ImportFrom) and s.module and not s.level:
        for a in s.names:
          alias[a.asname or a.name] = f'{s.module}.{a.name}'

    def dotted(e):
      if isinstance(e, ast.Name):
        return alias.get(e.id)
      if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return f'{b}.{e.attr}' if b else None
      return None
    owner = {}
    for f in ast.walk(m.tree):
      if isinstance(f, (ast.FunctionDef, ast.ClassDef)):
        for x in ast.walk(f):
          if isinstance(f, ast.FunctionDef):
            owner[id(x)] = f.name
    parents = {}
    for x in ast.walk(m.tree):
      for c in ast.iter_child_nodes(x):
        parents[id(c)] = x
    for e in ast.walk(m.tree):
      if not isinstance(e, (ast.Attribute, ast.Name)):
        continue
      if not isinstance(e.ctx, ast.Load):
        continue
      p = parents.get(id(e))
      if isinstance(p, ast.Attribute):
        continue               # judged with its full name
      d = dotted(e)
      if not d:
        continue
      if in_annotation(e, parents):
        continue
      refs += 1
      msg = None
      if d.startswith('numpy.random.'):
        last = d.split('.')[2]
        if last not in NP_OK:
          msg = f'{d} uses the global numpy random state'
      elif any(d == x or d.startswith(x) for x in FOREIGN):
        if not (d.startswith('secrets.') or d == 'os.urandom') or \
            'salt' not in owner.get(id(e), ''):
          msg = f'{d} does not use the caller\'s generator'
      if msg and not isinstance(p, ast.ImportFrom):
        out.append(Result(f'{m.short}.{owner.get(id(e), "module")}',
                          'randomness', 'violation', msg,
                          (m.path, e.lineno)))
  counts['library_references'] = refs
  return out


def in_annotation(e, parents):
  x = e
  while True:
    p = parents.get(id(x))
    if p is None or isinstance(p, (ast.stmt,)) and not isinstance(
        p, (ast.AnnAssign, ast.FunctionDef)):
      return False
    if isinstance(p, ast.AnnAssign):
      return p.annotation is x
    if isinstance(p, ast.arg):
      return p.annotation is x
    if isinstance(p, ast.FunctionDef):
      return p.returns is x
    x = p
