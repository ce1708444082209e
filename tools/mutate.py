"""Mutation survey of the checks (development tool, not a check).

  mutate.py OUT.jsonl [--only module] [--limit N] [--seed N] [--jobs 8]

Every mutant is one small change of one syntax node of the library. All
obligations are evaluated on the mutant's source; the outcome per mutant is
violation / undecided / silent / error.
"""
import argparse
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div],
       ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Pow: [ast.Mult],
       ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr],
       ast.BitOr: [ast.BitAnd]}


def in_docstring(parents, n):
  p = parents.get(id(n))
  return isinstance(p, ast.Expr)


def mutants(tree):
  """(description, line, function(tree copy node) -> None) by node index."""
  parents = {}
  nodes = list(ast.walk(tree))
  for n in nodes:
    for c in ast.iter_child_nodes(n):
      parents[id(c)] = n
  skip = set()
  for n in nodes:
    # annotations, messages of exceptions, docstrings
    if isinstance(n, (ast.FunctionDef,)):
      for a in n.args.args + n.args.kwonlyargs:
        if a.annotation:
          skip |= {id(x) for x in ast.walk(a.annotation)}
      if n.returns:
        skip |= {id(x) for x in ast.walk(n.returns)}
    if isinstance(n, ast.AnnAssign):
      skip |= {id(x) for x in ast.walk(n.annotation)}
    if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call):
      for a in n.exc.args:
        skip |= {id(x) for x in ast.walk(a)}
    if isinstance(n, (ast.Import, ast.ImportFrom)):
      skip.add(id(n))
  out = []
  for i, n in enumerate(nodes):
    if id(n) in skip or in_docstring(parents, n) and isinstance(
        n, ast.Constant):
      continue
    ln = getattr(n, 'lineno', 0)
    if isinstance(n, ast.Compare):
      for j, o in enumerate(n.ops):
        for r in CMP.get(type(o), ()):
          def f(m, j=j, r=r):
            m.ops[j] = r()
          out.append((f'{type(o).__name__}->{r.__name__}', ln, i, f))
    if isinstance(n, (ast.BinOp, ast.AugAssign)):
      for r in BIN.get(type(n.op), ()):
        def f(m, r=r):
          m.op = r()
        out.append((f'{type(n.op).__name__}->{r.__name__}', ln, i, f))
      if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.Div)):
        def f(m):
          m.left, m.right = m.right, m.left
        out.append(('swap operands', ln, i, f))
    if isinstance(n, ast.BoolOp):
      def f(m):
        m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
      out.append(('and/or', ln, i, f))
      for j in range(len(n.values)):
        def f(m, j=j):
          m.values.pop(j)
          if len(m.values) == 1:
            m.values.append(copy.deepcopy(m.values[0]))
        out.append((f'drop operand {j}', ln, i, f))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      def f(m):
        m.operand = ast.UnaryOp(ast.Not(), m.operand)
      out.append(('drop not', ln, i, f))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
      def f(m):
        m.op = ast.UAdd()
      out.append(('drop minus', ln, i, f))
    if isinstance(n, ast.Constant):
      v = n.value
      if isinstance(v, bool):
        def f(m):
          m.value = not m.value
        out.append(('flip bool', ln, i, f))
      elif isinstance(v, (int, float)):
        for d in ((1, -1) if isinstance(v, int) else (0.01,)):
          def f(m, d=d):
            m.value = m.value + d
          out.append((f'{v}{d:+}', ln, i, f))
      elif isinstance(v, str) and v:
        def f(m):
          m.value = m.value + 'x'
        out.append((f'str {v[:20]!r}+x', ln, i, f))
    if isinstance(n, ast.Call):
      for j, k in enumerate(n.keywords):
        if k.arg:
          def f(m, j=j):
            m.keywords.pop(j)
          out.append((f'drop kw {k.arg}', ln, i, f))
      if len(n.args) >= 2:
        def f(m):
          m.args[0], m.args[1] = m.args[1], m.args[0]
        out.append(('swap args', ln, i, f))
      if isinstance(n.func, ast.Attribute) and n.func.attr in (
          'copy', 'dropna', 'abs', 'fillna', 'reset_index', 'drop_duplicates',
          'sort_values', 'sort_index', 'astype', 'unique'):
        def f(m):
          m.func, m.args, m.keywords = ast.Attribute(
              ast.Name('__drop__', ast.Load()), 'x', ast.Load()), [], []
        out.append((f'drop call {n.func.attr}', ln, i, 'unwrap'))
    if isinstance(n, ast.keyword) and isinstance(n.value, ast.Name):
      pass
    if isinstance(n, (ast.If, ast.IfExp)):
      def f(m):
        m.test = ast.UnaryOp(ast.Not(), m.test)
      out.append(('negate condition', ln, i, f))
      if isinstance(n, ast.If):
        def f(m):
          m.test = ast.Constant(False)
        out.append(('if False', ln, i, f))
        def f(m):
          m.test = ast.Constant(True)
        out.append(('if True', ln, i, f))
    if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and \
        not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
      p = parents.get(id(n))
      if isinstance(n, ast.Assign) and not isinstance(
          n.targets[0], (ast.Attribute, ast.Subscript)):
        # only rebinding of a name that exists before
        continue
      out.append((f'delete {type(n).__name__}', ln, i, 'delete'))
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
      # confusion with a sibling parameter
      f0 = n
      while f0 is not None and not isinstance(f0, ast.FunctionDef):
        f0 = parents.get(id(f0))
      if f0 is not None:
        ps = [a.arg for a in f0.args.args + f0.args.kwonlyargs
              if a.arg not in ('self', 'cls')]
        if n.id in ps and len(ps) > 1:
          anns = {a.arg: ast.unparse(a.annotation) if a.annotation else ''
                  for a in f0.args.args + f0.args.kwonlyargs}
          for q in ps:
            if q != n.id and anns[q] == anns[n.id]:
              def f(m, q=q):
                m.id = q
              out.append((f'{n.id}->{q}', ln, i, f))
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
      R = {'pre_trim_top_percentile': 'pre_trim_bottom_percentile',
           'pre_trim_bottom_percentile': 'pre_trim_top_percentile',
           'runtime_weeks': 'pretest_weeks', 'pretest_weeks': 'runtime_weeks',
           'mean': 'median', 'sum': 'mean', 'min': 'max', 'max': 'min',
           'n_items_after_pre_trim': 'n_items_after_post_trim',
           'n_items_after_post_trim': 'n_items_after_pre_trim',
           'alpha': 'power', 'power': 'alpha', 'cdf': 'sf', 'sf': 'cdf',
           'ppf': 'isf', 'isf': 'ppf', 'floor': 'ceil', 'nunique': 'count',
           'any': 'all', 'all': 'any', 'std': 'var', 'var': 'std',
           'aa_simulation_results': 'ab_simulation_results',
           'ab_simulation_results': 'aa_simulation_results',
           'argsort': 'sort', 'le': 'lt', 'isin': 'eq', 'loc': 'iloc',
           'crossover_washout_weeks': 'runtime_weeks'}
      if n.attr in R:
        def f(m, q=R[n.attr]):
          m.attr = q
        out.append((f'.{n.attr}->.{R[n.attr]}', ln, i, f))
  return out


def build(src, idx):
  """Source of mutant number idx."""
  tree = ast.parse(src)
  ms = mutants(tree)
  desc, ln, i, f = ms[idx]
  nodes = list(ast.walk(tree))
  n = nodes[i]
  if f == 'delete':
    for p in nodes:
      for fld in ('body', 'orelse', 'finalbody'):
        b = getattr(p, fld, None)
        if isinstance(b, list) and n in b:
          b[b.index(n)] = ast.Pass()
  elif f == 'unwrap':
    for p in nodes:
      for fld, v in ast.iter_fields(p):
        if v is n:
          setattr(p, fld, n.func.value)
        elif isinstance(v, list) and n in v:
          v[v.index(n)] = n.func.value
  else:
    f(n)
  return ast.unparse(ast.fix_missing_locations(tree)), desc, ln


def evaluate(repo, only=None):
  """{property: [results]} for the tree in repo."""
  from sa import obligations as ob, program as pr, units, extra, state, \
      docs_use, terms as tm
  impl, spec = pr.make_programs(repo, os.path.join(HERE, 'spec'))
  hidden = state.Hidden(impl, spec)
  ck = units.Checker(impl, spec, time.time() + 250, hidden)
  out = {}
  for p, obs in ob.OBLIGATIONS.items():
    if only and p not in only or p == 'U01':
      continue
    rs = []
    tm.STRICT_NAN[0] = p in ob.STRICT
    if p in ob.STRICT:
      c2 = units.Checker(impl, spec, time.time() + 100, hidden)
    else:
      c2 = ck
    for fn, asp in obs:
      rs += c2.check(fn, asp)
    tm.STRICT_NAN[0] = False
    k = ob.EXTRA.get(p)
    if k:
      rs += getattr(extra, k)(impl, spec, {})
    out[p] = rs
  if not only or 'U01' in only:
    bad, _, _ = docs_use.check(repo)
    out['U01'] = [units.Result('documentation', 'use', 'violation', m,
                               (w, l)) for w, l, m in bad]
  return out


def one(arg):
  f, idx, repo = arg
  sys.setrecursionlimit(20000)
  d = tempfile.mkdtemp(prefix='mut', dir='/dev/shm')
  t = time.time()
  r = {'file': f, 'idx': idx}
  try:
    for x in ('feedx', 'notebooks', 'README.md'):
      s = os.path.join(repo, x)
      if os.path.isdir(s):
        shutil.copytree(s, os.path.join(d, x), ignore=shutil.ignore_patterns(
            '__pycache__', '*_test.py'))
      else:
        shutil.copy(s, d)
    path = os.path.join(d, 'feedx', f)
    with open(path) as fh:
      src = fh.read()
    new, desc, ln = build(src, idx)
    with open(path, 'w') as fh:
      fh.write(new)
    r.update(desc=desc, line=ln, text=src.split('\n')[ln - 1].strip()[:120])
    res = evaluate(d)
    v = sorted(p for p, rs in res.items()
               if any(x.status == 'violation' for x in rs))
    u = sorted(p for p, rs in res.items()
               if any(x.status == 'undecided' for x in rs))
    r['violation'], r['undecided'] = v, u
    r['status'] = 'violation' if v else 'undecided' if u else 'silent'
    if u and not v:
      r['why'] = next(f'{x.fn} [{x.aspect}] {x.detail[:400]}'
                      for rs in res.values() for x in rs
                      if x.status == 'undecided')
    if any(x.status == 'missing' for rs in res.values() for x in rs):
      r['status'] = 'missing'
  except Exception as e:   # pylint: disable=broad-except
    r['status'] = 'error'
    import traceback
    r['why'] = traceback.format_exc()[-600:]
  finally:
    shutil.rmtree(d)
  r['s'] = round(time.time() - t, 1)
  return r


def main():
  p = argparse.ArgumentParser()
  p.add_argument('out')
  p.add_argument('--only')
  p.add_argument('--lines', help='FIRST-LAST')
  p.add_argument('--limit', type=int)
  p.add_argument('--seed', type=int, default=0)
  p.add_argument('--jobs', type=int, default=8)
  p.add_argument('--repo', default='/repo')
  a = p.parse_args()
  tasks = []
  for f in sorted(os.listdir(os.path.join(a.repo, 'feedx'))):
    if not f.endswith('.py') or f.endswith('_test.py') or f in (
        'conftest.py', '__init__.py') or a.only and a.only not in f:
      continue
    with open(os.path.join(a.repo, 'feedx', f)) as fh:
      ms = mutants(ast.parse(fh.read()))
    lo, hi = map(int, (a.lines or '0-99999').split('-'))
    tasks += [(f, i, a.repo) for i, m in enumerate(ms) if lo <= m[1] <= hi]
  print(len(tasks), 'mutants')
  random.Random(a.seed).shuffle(tasks)
  tasks = tasks[:a.limit]
  with mp.Pool(a.jobs, maxtasksperchild=3) as pool, open(a.out, 'w') as o:
    tot = {}
    for r in pool.imap_unordered(one, tasks):
      tot[r['status']] = tot.get(r['status'], 0) + 1
      o.write(json.dumps(r) + '\n')
      o.flush()
  print(tot)


if __name__ == '__main__':
  main()
