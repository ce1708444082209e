"""Behaviour-preserving rewrites of the library, to look for false alarms.

  refactor.py OUT.jsonl [--only KIND] [--file F] [--p P] [--seed N] [--jobs N]
              [--tests]

(development tool, not a check)

One variant applies one kind of rewrite to a random share of its sites in one
module. All obligations are evaluated on the variant; none may be violated.
With --tests the existing tests of the module are run on each variant that has
a violation, to see whether the rewrite is what it claims to be.
"""
import argparse
import ast
import builtins
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True

KINDS = {}


def kind(f):
  KINDS[f.__name__] = f
  return f


class Env:
  def __init__(self, rng, p):
    self.rng, self.p, self.n, self.k = rng, p, 0, 0

  def go(self):
    if self.rng.random() < self.p:
      self.n += 1
      return True
    return False

  def name(self, base='tmp'):
    self.k += 1
    return f'{base}_{self.k}'


def functions(tree):
  for n in ast.walk(tree):
    if isinstance(n, ast.FunctionDef):
      yield n


def own_nodes(fn):
  """Nodes of a function that are not in a nested function or class."""
  st = list(fn.body)
  while st:
    n = st.pop()
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    st.extend(ast.iter_child_nodes(n))


def blocks(fn):
  """Statement lists of a function (not of nested functions)."""
  st = [fn]
  while st:
    n = st.pop()
    for fld in ('body', 'orelse', 'finalbody'):
      b = getattr(n, fld, None)
      if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
        yield b
        for s in b:
          if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            st.append(s)
    for h in getattr(n, 'handlers', ()):
      st.append(h)


def names(n, ctx=ast.Load):
  return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and
          isinstance(x.ctx, ctx)}


def docskip(b):
  return 1 if b and isinstance(b[0], ast.Expr) and isinstance(
      b[0].value, ast.Constant) and isinstance(b[0].value.value, str) else 0


def rewrite_blocks(fn, f):
  """f(stmt) -> None or list of statements, for every statement."""
  for b in list(blocks(fn)):
    out = []
    for s in b:
      r = f(s)
      out += [s] if r is None else r
    b[:] = out


def params(fn):
  a = fn.args
  return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs +
          [y for y in (a.vararg, a.kwarg) if y]}


@kind
def rename_locals(tree, e):
  for fn in functions(tree):
    if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)):
      continue
    inner = {n.name for n in ast.walk(fn) if isinstance(n, ast.FunctionDef)}
    loc = names(fn, ast.Store) - params(fn) - inner
    # names of nested functions' parameters stay
    for n in ast.walk(fn):
      if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
        loc -= params(n)
    m = {x: x + '_value' for x in sorted(loc) if e.go()}
    for n in ast.walk(fn):
      if isinstance(n, ast.Name) and n.id in m:
        n.id = m[n.id]
      if isinstance(n, ast.ExceptHandler) and n.name in m:
        n.name = m[n.name]


@kind
def temp_value(tree, e):
  """return X -> t = X; return t (also assignments to attributes)"""
  for fn in functions(tree):
    def f(s):
      if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and s.value and \
          not isinstance(s.value, (ast.Constant, ast.Name, ast.Yield)):
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
          return None
        if e.go():
          t = e.name()
          a = ast.Assign([ast.Name(t, ast.Store())], s.value)
          s.value = ast.Name(t, ast.Load())
          return [a, s]
      return None
    rewrite_blocks(fn, f)


def chain(x):
  while isinstance(x, ast.Attribute):
    x = x.value
  return isinstance(x, ast.Name)


@kind
def hoist_args(tree, e):
  for fn in functions(tree):
    def f(s):
      if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(
          s.value, ast.Call) and chain(s.value.func):
        c = s.value
        if any(isinstance(a, ast.Starred) for a in c.args) or any(
            k.arg is None for k in c.keywords) or not e.go():
          return None
        out = []
        def h(x):
          if isinstance(x, (ast.Constant, ast.Lambda, ast.GeneratorExp)):
            return x
          t = e.name('arg')
          out.append(ast.Assign([ast.Name(t, ast.Store())], x))
          return ast.Name(t, ast.Load())
        c.args = [h(x) for x in c.args]
        for k in c.keywords:
          k.value = h(k.value)
        return out + [s]
      return None
    rewrite_blocks(fn, f)


@kind
def hoist_operands(tree, e):
  for fn in functions(tree):
    def f(s):
      if isinstance(s, (ast.Return, ast.Assign)) and isinstance(
          s.value, ast.BinOp) and e.go():
        out = []
        for side in ('left', 'right'):
          x = getattr(s.value, side)
          if isinstance(x, (ast.Constant, ast.Name)):
            continue
          t = e.name(side)
          out.append(ast.Assign([ast.Name(t, ast.Store())], x))
          setattr(s.value, side, ast.Name(t, ast.Load()))
        return out + [s]
      return None
    rewrite_blocks(fn, f)


@kind
def hoist_condition(tree, e):
  for fn in functions(tree):
    elifs = {id(n.orelse[0]) for n in ast.walk(fn) if isinstance(n, ast.If)
             and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)}
    def f(s):
      if isinstance(s, ast.If) and id(s) not in elifs and e.go():
        t = e.name('condition')
        a = ast.Assign([ast.Name(t, ast.Store())], s.test)
        s.test = ast.Name(t, ast.Load())
        return [a, s]
      return None
    rewrite_blocks(fn, f)


def negate(t):
  if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
    return t.operand
  if isinstance(t, ast.Compare) and len(t.ops) == 1:
    o = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
         ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(
             type(t.ops[0]))
    if o:
      return ast.Compare(t.left, [o()], t.comparators)
  return ast.UnaryOp(ast.Not(), t)


@kind
def invert_if(tree, e):
  for n in ast.walk(tree):
    if isinstance(n, ast.If) and n.orelse and e.go():
      n.test = negate(n.test)
      n.body, n.orelse = n.orelse, n.body
    elif isinstance(n, ast.IfExp) and e.go():
      n.test = negate(n.test)
      n.body, n.orelse = n.orelse, n.body


@kind
def ifexp_to_if(tree, e):
  for fn in functions(tree):
    def f(s):
      if isinstance(s, (ast.Return, ast.Assign)) and isinstance(
          s.value, ast.IfExp) and e.go():
        a, b = copy.deepcopy(s), copy.deepcopy(s)
        a.value, b.value = s.value.body, s.value.orelse
        return [ast.If(s.value.test, [a], [b])]
      return None
    rewrite_blocks(fn, f)


@kind
def if_to_ifexp(tree, e):
  for fn in functions(tree):
    def f(s):
      if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
        a, b = s.body[0], s.orelse[0]
        if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and \
            ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and \
            isinstance(a.targets[0], ast.Name) and e.go():
          return [ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))]
        if isinstance(a, ast.Return) and isinstance(b, ast.Return) and \
            a.value and b.value and e.go():
          return [ast.Return(ast.IfExp(s.test, a.value, b.value))]
      return None
    rewrite_blocks(fn, f)


@kind
def nest_and(tree, e):
  for n in ast.walk(tree):
    if isinstance(n, ast.If) and not n.orelse and isinstance(
        n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and e.go():
      vs = n.test.values
      rest = vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:])
      n.body = [ast.If(rest, n.body, [])]
      n.test = vs[0]


@kind
def split_or_raise(tree, e):
  """if a or b: raise -> if a: raise; if b: raise"""
  for fn in functions(tree):
    def f(s):
      if isinstance(s, ast.If) and not s.orelse and isinstance(
          s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and \
          isinstance(s.body[-1], (ast.Raise, ast.Return)) and e.go():
        return [ast.If(v, copy.deepcopy(s.body), []) for v in s.test.values]
      return None
    rewrite_blocks(fn, f)


def leaves(b):
  s = b[-1]
  if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
    return True
  return isinstance(s, ast.If) and s.orelse and leaves(s.body) and leaves(
      s.orelse)


@kind
def rest_to_else(tree, e):
  for fn in functions(tree):
    for b in list(blocks(fn)):
      for i, s in enumerate(b[:-1]):
        if isinstance(s, ast.If) and not s.orelse and leaves(s.body) and \
            e.go():
          s.orelse = b[i + 1:]
          del b[i + 1:]
          break


@kind
def drop_else(tree, e):
  for fn in functions(tree):
    for b in list(blocks(fn)):
      i = 0
      while i < len(b):
        s = b[i]
        if isinstance(s, ast.If) and s.orelse and leaves(s.body) and e.go():
          b[i + 1:i + 1] = s.orelse
          s.orelse = []
        i += 1


@kind
def flip_compare(tree, e):
  m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
       ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
  for n in ast.walk(tree):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(
        n.ops[0]) in m and e.go():
      n.left, n.comparators = n.comparators[0], [n.left]
      n.ops = [m[type(n.ops[0])]()]


class Demorgan(ast.NodeTransformer):
  def __init__(self, e):
    self.e = e

  def visit_If(self, n):
    self.generic_visit(n)
    if isinstance(n.test, ast.BoolOp) and self.e.go():
      o = ast.And() if isinstance(n.test.op, ast.Or) else ast.Or()
      n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(
          o, [negate(v) for v in n.test.values]))
    return n


@kind
def demorgan(tree, e):
  Demorgan(e).visit(tree)


@kind
def comp_to_loop(tree, e):
  for fn in functions(tree):
    def f(s):
      if isinstance(s, (ast.Return, ast.Assign)) and isinstance(
          s.value, (ast.ListComp, ast.DictComp)) and e.go():
        c = s.value
        t = e.name('collected')
        if isinstance(c, ast.ListComp):
          init = ast.List([], ast.Load())
          body = ast.Expr(ast.Call(ast.Attribute(
              ast.Name(t, ast.Load()), 'append', ast.Load()), [c.elt], []))
        else:
          init = ast.Dict([], [])
          body = ast.Assign([ast.Subscript(
              ast.Name(t, ast.Load()), c.key, ast.Store())], c.value)
        for g in reversed(c.generators):
          for x in reversed(g.ifs):
            body = ast.If(x, [body], [])
          body = ast.For(g.target, g.iter, [body], [])
        s.value = ast.Name(t, ast.Load())
        return [ast.Assign([ast.Name(t, ast.Store())], init), body, s]
      return None
    rewrite_blocks(fn, f)


@kind
def loop_to_comp(tree, e):
  for fn in functions(tree):
    for b in list(blocks(fn)):
      for i in range(len(b) - 1):
        a, l = b[i], b[i + 1]
        if isinstance(a, ast.Assign) and isinstance(
            a.targets[0], ast.Name) and isinstance(a.value, ast.List) and \
            not a.value.elts and isinstance(l, ast.For) and len(l.body) == 1:
          s, ifs = l.body[0], []
          if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1:
            ifs, s = [s.test], s.body[0]
          if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
              isinstance(s.value.func, ast.Attribute) and \
              s.value.func.attr == 'append' and isinstance(
                  s.value.func.value, ast.Name) and \
              s.value.func.value.id == a.targets[0].id and e.go():
            a.value = ast.ListComp(s.value.args[0], [
                ast.comprehension(l.target, l.iter, ifs, 0)])
            b[i + 1] = ast.Pass()


@kind
def guard_continue(tree, e):
  for n in ast.walk(tree):
    if isinstance(n, ast.For) and n.body and isinstance(
        n.body[-1], ast.If) and not n.body[-1].orelse and e.go():
      s = n.body.pop()
      n.body += [ast.If(negate(s.test), [ast.Continue()], [])] + s.body


@kind
def index_loop(tree, e):
  """for x in xs -> for i in range(len(xs)): x = xs[i] (lists only)"""
  for fn in functions(tree):
    lists = set()
    for a in fn.args.args + fn.args.kwonlyargs:
      if a.annotation and ast.unparse(a.annotation).startswith(
          ('list[', 'List[')):
        lists.add(a.arg)
    for n in own_nodes(fn):
      if isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and \
          n.iter.id in lists and n.iter.id not in names(fn, ast.Store) and \
          e.go():
        i = e.name('index')
        n.body.insert(0, ast.Assign([n.target], ast.Subscript(
            ast.Name(n.iter.id, ast.Load()), ast.Name(i, ast.Load()),
            ast.Load())))
        n.target = ast.Name(i, ast.Store())
        n.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(
            ast.Name('len', ast.Load()), [n.iter], [])], [])


@kind
def reverse_keywords(tree, e):
  for n in ast.walk(tree):
    if isinstance(n, ast.Call) and len(n.keywords) > 1 and not (
        isinstance(n.func, ast.Name) and n.func.id == 'dict' or
        isinstance(n.func, ast.Attribute) and n.func.attr in (
            'assign', 'agg', 'dict')) and all(
                k.arg for k in n.keywords) and e.go():
      n.keywords.reverse()


@kind
def positional_to_keyword(tree, e):
  sig = {f.name: [a.arg for a in f.args.args] for f in tree.body
         if isinstance(f, ast.FunctionDef)}
  for n in ast.walk(tree):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
        n.func.id in sig and n.args and not any(
            isinstance(a, ast.Starred) for a in n.args) and len(
                n.args) <= len(sig[n.func.id]) and e.go():
      n.keywords = [ast.keyword(p, a) for p, a in zip(
          sig[n.func.id], n.args)] + n.keywords
      n.args = []


@kind
def fstring_to_format(tree, e):
  class T(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
      self.generic_visit(n)
      if not e.go():
        return n
      s, args = '', []
      for v in n.values:
        if isinstance(v, ast.Constant):
          s += v.value.replace('{', '{{').replace('}', '}}')
        else:
          if v.format_spec and not all(isinstance(
              x, ast.Constant) for x in getattr(
                  v.format_spec, 'values', ())):
            return n
          s += '{'
          if v.conversion >= 0:
            s += '!' + chr(v.conversion)
          if v.format_spec:
            s += ':' + ''.join(x.value for x in v.format_spec.values)
          s += '}'
          args.append(v.value)
      return ast.Call(ast.Attribute(ast.Constant(s), 'format', ast.Load()),
                      args, [])

    def visit_FormattedValue(self, n):
      n.value = self.visit(n.value)
      return n
  T().visit(tree)


@kind
def expand_augassign(tree, e):
  for fn in functions(tree):
    def f(s):
      if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) \
          and not isinstance(s.value, (ast.List, ast.ListComp)) and e.go():
        return [ast.Assign([s.target], ast.BinOp(
            ast.Name(s.target.id, ast.Load()), s.op, s.value))]
      return None
    rewrite_blocks(fn, f)


@kind
def constants_to_module(tree, e):
  fs = [f for f in tree.body if isinstance(f, (ast.FunctionDef,
                                               ast.ClassDef))]
  defs = []

  class T(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
      n.body = [self.visit(s) for s in n.body]
      return n

    def visit_JoinedStr(self, n):
      return n

    def visit_match_case(self, n):
      n.body = [self.visit(s) for s in n.body]
      return n

    def visit_Expr(self, n):
      if isinstance(n.value, ast.Constant):
        return n
      return self.generic_visit(n)

    def visit_Constant(self, n):
      if isinstance(n.value, (int, float, str)) and not isinstance(
          n.value, bool) and e.go():
        k = e.name('_CONSTANT')
        defs.append(ast.Assign([ast.Name(k, ast.Store())], n))
        return ast.Name(k, ast.Load())
      return n
  for f in fs:
    for m in ([f] if isinstance(f, ast.FunctionDef) else
              [x for x in f.body if isinstance(x, ast.FunctionDef)]):
      T().visit(m)
  i = max(k for k, s in enumerate(tree.body) if isinstance(
      s, (ast.Import, ast.ImportFrom))) + 1
  tree.body[i:i] = defs


@kind
def stepwise_dict(tree, e):
  for fn in functions(tree):
    def f(s):
      if isinstance(s, (ast.Return, ast.Assign)) and isinstance(
          s.value, ast.Dict) and s.value.keys and all(
              k is not None for k in s.value.keys) and e.go():
        t = e.name('mapping')
        out = [ast.Assign([ast.Name(t, ast.Store())], ast.Dict([], []))]
        for k, v in zip(s.value.keys, s.value.values):
          out.append(ast.Assign([ast.Subscript(ast.Name(
              t, ast.Load()), k, ast.Store())], v))
        s.value = ast.Name(t, ast.Load())
        return out + [s]
      return None
    rewrite_blocks(fn, f)


@kind
def split_chain_compare(tree, e):
  class T(ast.NodeTransformer):
    def visit_Compare(self, n):
      self.generic_visit(n)
      if len(n.ops) > 1 and all(isinstance(
          c, (ast.Name, ast.Attribute, ast.Constant))
                                for c in n.comparators[:-1]) and e.go():
        xs = [n.left] + n.comparators
        return ast.BoolOp(ast.And(), [
            ast.Compare(copy.deepcopy(a), [o], [copy.deepcopy(b)])
            for a, o, b in zip(xs, n.ops, xs[1:])])
      return n
  T().visit(tree)


@kind
def in_to_or(tree, e):
  class T(ast.NodeTransformer):
    def visit_Compare(self, n):
      self.generic_visit(n)
      if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(
          n.comparators[0], (ast.Tuple, ast.List, ast.Set)) and len(
              n.comparators[0].elts) > 1 and isinstance(
                  n.left, (ast.Name, ast.Attribute)) and e.go():
        return ast.BoolOp(ast.Or(), [
            ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [x])
            for x in n.comparators[0].elts])
      return n
  T().visit(tree)


@kind
def split_method_chain(tree, e):
  for fn in functions(tree):
    def f(s):
      if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(
          s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
        x = s.value.func.value
        if isinstance(x, (ast.Call, ast.Subscript)) and e.go():
          out = []
          while isinstance(x, (ast.Call, ast.Subscript)):
            t = e.name('step')
            out.append((t, x))
            if isinstance(x, ast.Call) and isinstance(
                x.func, ast.Attribute):
              nxt = x.func.value
            elif isinstance(x, ast.Subscript):
              nxt = x.value
            else:
              break
            if not isinstance(nxt, (ast.Call, ast.Subscript)):
              break
            x = nxt
          # rebuild from the inside
          stmts = []
          prev = None
          for t, x in reversed(out):
            if prev:
              if isinstance(x, ast.Call):
                x.func.value = ast.Name(prev, ast.Load())
              else:
                x.value = ast.Name(prev, ast.Load())
            stmts.append(ast.Assign([ast.Name(t, ast.Store())], x))
            prev = t
          s.value.func.value = ast.Name(prev, ast.Load())
          return stmts + [s]
      return None
    rewrite_blocks(fn, f)


@kind
def mask_via_loc(tree, e):
  """df[mask] -> df.loc[mask] where the key is a comparison"""
  for n in ast.walk(tree):
    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and \
        isinstance(n.slice, (ast.Compare, ast.BinOp)) and not isinstance(
            n.value, ast.Attribute) and e.go():
      n.value = ast.Attribute(n.value, 'loc', ast.Load())


@kind
def sqrt_pow(tree, e):
  class T(ast.NodeTransformer):
    def visit_Call(self, n):
      self.generic_visit(n)
      if ast.unparse(n.func) == 'np.sqrt' and len(n.args) == 1 and e.go():
        return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
      return n

    def visit_BinOp(self, n):
      self.generic_visit(n)
      if isinstance(n.op, ast.Pow) and isinstance(
          n.right, ast.Constant) and n.right.value == 2 and e.go():
        return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
      return n
  T().visit(tree)


@kind
def commute(tree, e):
  """a * b -> b * a where neither side can be a sequence"""
  for n in ast.walk(tree):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and \
        isinstance(n.left, (ast.BinOp, ast.Attribute, ast.Name)) and e.go():
      n.left, n.right = n.right, n.left
    elif isinstance(n, ast.BinOp) and isinstance(n.op, (
        ast.BitAnd, ast.BitOr)) and e.go():
      n.left, n.right = n.right, n.left


@kind
def inline_temp(tree, e):
  """x = E; return f(x) -> return f(E) when x is used once, next"""
  for fn in functions(tree):
    for b in list(blocks(fn)):
      i = 0
      while i < len(b) - 1:
        a, s = b[i], b[i + 1]
        if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(
            a.targets[0], ast.Name) and isinstance(
                s, (ast.Return, ast.Assign)):
          x = a.targets[0].id
          uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and
                  n.id == x]
          here = [n for n in ast.walk(s) if isinstance(n, ast.Name) and
                  n.id == x]
          deep = any(isinstance(n, (ast.Lambda, ast.ListComp, ast.DictComp,
                                    ast.GeneratorExp, ast.IfExp, ast.BoolOp))
                     for n in ast.walk(s))
          calls = any(isinstance(n, ast.Call) for n in ast.walk(s))
          if len(uses) == 2 and len(here) == 1 and not deep and not (
              calls and any(isinstance(n, ast.Call)
                            for n in ast.walk(a.value)) and not
              self_first(s, here[0])) and e.go():
            class R(ast.NodeTransformer):
              def visit_Name(self, n):
                return a.value if n is here[0] else n
            b[i + 1] = R().visit(s)
            del b[i]
            continue
        i += 1


def self_first(s, n):
  """n is evaluated before any call in s: it is under the innermost first"""
  x = s.value
  while isinstance(x, (ast.Call, ast.Attribute, ast.Subscript)):
    x = x.func if isinstance(x, ast.Call) else x.value
  return x is n


@kind
def lambda_to_def(tree, e):
  for fn in functions(tree):
    def f(s):
      if isinstance(s, (ast.If, ast.For, ast.While, ast.With,
                        ast.FunctionDef, ast.Try)):
        return None
      out = []
      bound = set()
      for n in ast.walk(s):
        if isinstance(n, (ast.ListComp, ast.DictComp, ast.GeneratorExp)):
          bound |= names(n, ast.Store)

      class T(ast.NodeTransformer):
        def visit_Lambda(self, n):
          if names(n.body) & bound or not e.go():
            return n
          t = e.name('function')
          out.append(ast.FunctionDef(t, n.args, [ast.Return(n.body)], [],
                                     None, None))
          return ast.Name(t, ast.Load())
      T().visit(s)
      return out + [s] if out else None
    rewrite_blocks(fn, f)


@kind
def wrap_function(tree, e):
  """f(args) delegates to _f_impl(args)"""
  out = []
  for s in tree.body:
    if isinstance(s, ast.FunctionDef) and not s.decorator_list and \
        not s.args.vararg and not s.args.kwarg and e.go():
      impl = copy.deepcopy(s)
      impl.name = '_' + s.name.lstrip('_') + '_impl'
      k = docskip(impl.body)
      del impl.body[:k]
      a = s.args
      s.body = s.body[:k] + [ast.Return(ast.Call(
          ast.Name(impl.name, ast.Load()),
          [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args],
          [ast.keyword(x.arg, ast.Name(x.arg, ast.Load()))
           for x in a.kwonlyargs]))]
      out.append(impl)
    out.append(s)
  tree.body = out


def extractable(stmts):
  for s in stmts:
    for n in ast.walk(s):
      if isinstance(n, (ast.Return, ast.Yield, ast.Break, ast.Continue,
                        ast.FunctionDef, ast.Lambda, ast.Delete,
                        ast.Global, ast.Nonlocal)):
        return False
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
          n.func.id == 'super':
        return False
  return True


@kind
def extract_helper(tree, e):
  """A run of statements becomes a module function."""
  new = []
  tops = []
  for c in tree.body:
    if isinstance(c, ast.FunctionDef):
      tops.append(c)
    elif isinstance(c, ast.ClassDef):
      tops += [m for m in c.body if isinstance(m, ast.FunctionDef)]
  mod = set(dir(builtins)) | {
      a.asname or a.name.split('.')[0] for s in tree.body if isinstance(
          s, (ast.Import, ast.ImportFrom)) for a in s.names} | {
              s.name for s in tree.body if isinstance(
                  s, (ast.FunctionDef, ast.ClassDef))} | {
                      t.id for s in tree.body if isinstance(s, ast.Assign)
                      for t in s.targets if isinstance(t, ast.Name)}
  for fn in tops:
    if any(isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(fn)):
      continue
    b = fn.body
    k = docskip(b)
    n = len(b) - k
    if n < 3 or not e.go():
      continue
    i = e.rng.randrange(k, len(b) - 1)
    j = min(len(b) - 1, i + e.rng.randrange(1, 5))
    run = b[i:j]
    while run and not extractable(run):
      run = run[:-1]
    if not run:
      continue
    j = i + len(run)
    defined = params(fn)
    maybe = set()
    for s in b[k:i]:
      maybe |= names(s, ast.Store)
      if isinstance(s, (ast.Assign, ast.AnnAssign)):
        defined |= names(s, ast.Store)
    if any(isinstance(x, ast.FunctionDef) for s in b[k:i]
           for x in ast.walk(s)):
      continue
    reads = set()
    for s in run:
      reads |= names(s)
    for s in run:
      for x in ast.walk(s):
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
          reads.add(x.target.id)
    writes = set()
    for s in run:
      writes |= names(s, ast.Store)
    after = set()
    for s in b[j:]:
      after |= names(s)
    ins = sorted((reads | (writes & after)) & defined)
    if (reads - writes - mod) - defined:
      continue
    outs = sorted(writes & after)
    sure = set(ins)
    for s in run:
      if isinstance(s, ast.Assign):
        sure |= names(s, ast.Store)
      if isinstance(s, ast.If) and s.orelse:
        sure |= {x for x in names(s, ast.Store) if
                 any(isinstance(q, ast.Assign) and x in names(q, ast.Store)
                     for q in s.body) and
                 any(isinstance(q, ast.Assign) and x in names(q, ast.Store)
                     for q in s.orelse)}
    if set(outs) - sure or maybe - defined & reads:
      continue
    h = e.name('_helper')
    ret = []
    if len(outs) == 1:
      ret = [ast.Return(ast.Name(outs[0], ast.Load()))]
    elif outs:
      ret = [ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs],
                                  ast.Load()))]
    new.append((fn, ast.FunctionDef(h, ast.arguments(
        [], [ast.arg(x) for x in ins], None, [], [], None, []),
                                    run + ret, [], None, None)))
    call = ast.Call(ast.Name(h, ast.Load()),
                    [ast.Name(x, ast.Load()) for x in ins], [])
    if not outs:
      r = ast.Expr(call)
    elif len(outs) == 1:
      r = ast.Assign([ast.Name(outs[0], ast.Store())], call)
    else:
      r = ast.Assign([ast.Tuple([ast.Name(o, ast.Store()) for o in outs],
                                ast.Store())], call)
    b[i:j] = [r]
  last = max(k for k, s in enumerate(tree.body) if isinstance(
      s, (ast.Import, ast.ImportFrom))) + 1
  if e.rng.random() < .5:
    tree.body += [h for _, h in new]
  else:
    tree.body[last:last] = [h for _, h in new]


@kind
def expr_helper(tree, e):
  """An arithmetic expression over names becomes a function."""
  new = []
  for fn in functions(tree):
    for s in own_nodes(fn):
      if isinstance(s, ast.Assign) and isinstance(s.value, (
          ast.BinOp, ast.Compare, ast.BoolOp)):
        loc = sorted(x for x in names(s.value)
                     if x in params(fn) or x in names(fn, ast.Store))
        if any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp,
                              ast.NamedExpr))
               for n in ast.walk(s.value)) or not loc or not e.go():
          continue
        inner = {n.name for n in ast.walk(fn)
                 if isinstance(n, ast.FunctionDef) and n is not fn}
        if inner & names(s.value):
          continue
        h = e.name('_compute')
        new.append(ast.FunctionDef(h, ast.arguments(
            [], [], None, [ast.arg(x) for x in loc], [None] * len(loc), None,
            []), [ast.Return(s.value)], [], None, None))
        s.value = ast.Call(ast.Name(h, ast.Load()), [], [
            ast.keyword(x, ast.Name(x, ast.Load())) for x in loc])
  tree.body += new


@kind
def swap_statements(tree, e):
  """Adjacent assignments of unrelated names without calls change places."""
  for fn in functions(tree):
    for b in list(blocks(fn)):
      for i in range(len(b) - 1):
        x, y = b[i], b[i + 1]
        if all(isinstance(s, ast.Assign) and isinstance(
            s.targets[0], ast.Name) for s in (x, y)):
          if names(x, ast.Store) & (names(y) | names(y, ast.Store)) or \
              names(y, ast.Store) & names(x):
            continue
          if any('rng' in ast.unparse(s) or 'random' in ast.unparse(s)
                 for s in (x, y)):
            continue
          if any(isinstance(n, ast.Call) for n in ast.walk(x)) and any(
              isinstance(n, ast.Call) for n in ast.walk(y)) and \
              e.rng.random() < .5:
            continue
          if e.go():
            b[i], b[i + 1] = y, x


@kind
def noise(tree, e):
  for fn in functions(tree):
    for b in list(blocks(fn)):
      for i in range(len(b), docskip(b) - 1, -1):
        if e.go():
          b.insert(i, e.rng.choice([
              ast.Pass(), ast.Expr(ast.Constant(0)),
              ast.Assign([ast.Name(e.name('_unused'), ast.Store())],
                         ast.Constant(None)),
              ast.If(ast.Constant(False), [ast.Pass()], [])]))
          if i < len(b) - 1 and i > 0 and isinstance(
              b[i - 1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            pass


@kind
def any_to_loop(tree, e):
  for fn in functions(tree):
    def f(s):
      if isinstance(s, (ast.If, ast.Assign)):
        c = s.test if isinstance(s, ast.If) else s.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and \
            c.func.id in ('any', 'all') and isinstance(
                c.args[0], (ast.GeneratorExp, ast.ListComp)) and len(
                    c.args[0].generators) == 1 and e.go():
          g = c.args[0].generators[0]
          t = e.name('found')
          isany = c.func.id == 'any'
          test = c.args[0].elt if isany else negate(c.args[0].elt)
          body = ast.If(test, [ast.Assign([ast.Name(t, ast.Store())],
                                          ast.Constant(isany)),
                               ast.Break()], [])
          for x in reversed(g.ifs):
            body = ast.If(x, [body], [])
          pre = [ast.Assign([ast.Name(t, ast.Store())],
                            ast.Constant(not isany)),
                 ast.For(g.target, g.iter, [body], [])]
          if isinstance(s, ast.If):
            s.test = ast.Name(t, ast.Load())
          else:
            s.value = ast.Name(t, ast.Load())
          return pre + [s]
      return None
    rewrite_blocks(fn, f)


@kind
def join_nested_if(tree, e):
  for n in ast.walk(tree):
    if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and \
        isinstance(n.body[0], ast.If) and not n.body[0].orelse and e.go():
      n.test = ast.BoolOp(ast.And(), [n.test, n.body[0].test])
      n.body = n.body[0].body


@kind
def walrus_none(tree, e):
  """x or y stays; `x is None` -> `not (x is not None)`"""
  class T(ast.NodeTransformer):
    def visit_Compare(self, n):
      self.generic_visit(n)
      if len(n.ops) == 1 and isinstance(n.ops[0], ast.Is) and e.go():
        return ast.UnaryOp(ast.Not(), ast.Compare(
            n.left, [ast.IsNot()], n.comparators))
      return n
  T().visit(tree)


@kind
def attr_alias(tree, e):
  """self.design -> design = self.design at the start of a method"""
  for fn in functions(tree):
    if 'self' not in params(fn):
      continue
    cnt = {}
    for n in ast.walk(fn):
      if isinstance(n, ast.Attribute) and isinstance(
          n.value, ast.Name) and n.value.id == 'self':
        cnt.setdefault(n.attr, []).append(n)
    for a, ns in sorted(cnt.items()):
      if a not in ('design', 'item_id_column', 'week_id_column',
                   'primary_metric_column') or len(ns) < 2 or not all(
                       isinstance(n.ctx, ast.Load) for n in ns):
        continue
      if any(a in params(x) for x in ast.walk(fn)
             if isinstance(x, (ast.FunctionDef, ast.Lambda))) or \
          a in names(fn, ast.Store) or not e.go():
        continue

      class T(ast.NodeTransformer):
        def visit_Attribute(self, n, a=a):
          self.generic_visit(n)
          if n.attr == a and isinstance(n.value, ast.Name) and \
              n.value.id == 'self':
            return ast.Name(a, ast.Load())
          return n
      T().visit(fn)
      fn.body.insert(docskip(fn.body), ast.Assign(
          [ast.Name(a, ast.Store())], ast.Attribute(
              ast.Name('self', ast.Load()), a, ast.Load())))


@kind
def keyword_to_dict(tree, e):
  """f(a=x, b=y) -> kw = dict(a=x, b=y); f(**kw)"""
  for fn in functions(tree):
    def f(s):
      if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(
          s.value, ast.Call) and len(s.value.keywords) > 1 and all(
              k.arg for k in s.value.keywords) and not s.value.args and \
          chain(s.value.func) and e.go():
        t = e.name('kwargs')
        a = ast.Assign([ast.Name(t, ast.Store())], ast.Call(
            ast.Name('dict', ast.Load()), [], s.value.keywords))
        s.value.keywords = [ast.keyword(None, ast.Name(t, ast.Load()))]
        return [a, s]
      return None
    rewrite_blocks(fn, f)


@kind
def isna_isnull(tree, e):
  for n in ast.walk(tree):
    if isinstance(n, ast.Attribute) and n.attr in ('isna', 'notna') and \
        e.go():
      n.attr = {'isna': 'isnull', 'notna': 'notnull'}[n.attr]


@kind
def zip_to_index(tree, e):
  """enumerate with explicit counter"""
  for fn in functions(tree):
    def f(s):
      if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
          isinstance(s.iter.func, ast.Name) and \
          s.iter.func.id == 'enumerate' and len(s.iter.args) == 1 and \
          isinstance(s.target, ast.Tuple) and isinstance(
              s.target.elts[0], ast.Name) and not any(
                  isinstance(n, ast.Continue) for n in ast.walk(s)) and \
          e.go():
        i = s.target.elts[0].id
        t = e.name('counter')
        s.target, s.iter = s.target.elts[1], s.iter.args[0]
        s.body.insert(0, ast.Assign([ast.Name(i, ast.Store())],
                                    ast.Name(t, ast.Load())))
        s.body.append(ast.AugAssign(ast.Name(t, ast.Store()), ast.Add(),
                                    ast.Constant(1)))
        return [ast.Assign([ast.Name(t, ast.Store())], ast.Constant(0)), s]
      return None
    rewrite_blocks(fn, f)


@kind
def accessor_property(tree, e):
  """repeated module attribute calls through a local alias"""
  for fn in functions(tree):
    cnt = {}
    for n in own_nodes(fn):
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
          isinstance(n.func.value, ast.Name) and n.func.value.id in (
              'np', 'pd', 'stats', 'statistics', 'data_preparation'):
        cnt.setdefault(ast.unparse(n.func), []).append(n)
    for k, ns in sorted(cnt.items()):
      if e.go():
        t = k.replace('.', '_') + '_function'
        f = ns[0].func
        for n in ns:
          n.func = ast.Name(t, ast.Load())
        fn.body.insert(docskip(fn.body), ast.Assign(
            [ast.Name(t, ast.Store())], f))


@kind
def subtract_as_add(tree, e):
  """a - b < 0 for a < b; a / b -> a * (1 / b) is not exact, so only
  1 - x -> -x + 1"""
  class T(ast.NodeTransformer):
    def visit_BinOp(self, n):
      self.generic_visit(n)
      if isinstance(n.op, ast.Sub) and isinstance(
          n.left, ast.Constant) and e.go():
        return ast.BinOp(ast.UnaryOp(ast.USub(), n.right), ast.Add(), n.left)
      return n
  T().visit(tree)


def variant(src, k, seed, p):
  tree = ast.parse(src)
  e = Env(random.Random(f'{k}{seed}'), p)
  KINDS[k](tree, e)
  return ast.unparse(ast.fix_missing_locations(tree)), e.n


def one(arg):
  f, k, seed, p, repo, tests = arg
  import mutate
  sys.setrecursionlimit(20000)
  d = tempfile.mkdtemp(prefix='rf', dir='/dev/shm')
  t = time.time()
  r = {'file': f, 'kind': k, 'seed': seed}
  try:
    subprocess.run(['git', 'clone', '-q', repo, d + '/r'], check=True)
    path = os.path.join(d, 'r', 'feedx', f)
    with open(path) as fh:
      src = fh.read()
    new, r['sites'] = variant(src, k, seed, p)
    if not r['sites']:
      r['status'] = 'none'
      return r
    with open(path, 'w') as fh:
      fh.write(new)
    compile(new, f, 'exec')
    res = mutate.evaluate(d + '/r')
    for st in ('violation', 'undecided', 'missing'):
      r[st] = sorted({f'{x.fn} [{x.aspect}] {x.detail[:300]}'
                      for rs in res.values() for x in rs if x.status == st})
    r['status'] = 'violation' if r['violation'] else 'missing' if \
        r['missing'] else 'undecided' if r['undecided'] else 'equal'
    if tests:
      q = subprocess.run(
          ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
           'no:cacheprovider', '--timeout=300', 'feedx'], cwd=d + '/r',
          capture_output=True, text=True, env=dict(
              os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
              NPY_DISABLE_CPU_FEATURES='AVX512F AVX512CD AVX512_SKX '
              'AVX512_CLX AVX512_CNL AVX512_ICL AVX512_SPR'))
      r['tests'] = q.stdout.strip().split('\n')[-1][:200]
      r['tests_ok'] = q.returncode == 0
  except Exception:   # pylint: disable=broad-except
    import traceback
    r['status'], r['why'] = 'error', traceback.format_exc()[-800:]
  finally:
    shutil.rmtree(d)
  r['s'] = round(time.time() - t, 1)
  return r


def main():
  p = argparse.ArgumentParser()
  p.add_argument('out')
  p.add_argument('--only')
  p.add_argument('--file')
  p.add_argument('--p', type=float, default=.7)
  p.add_argument('--seed', type=int, default=0)
  p.add_argument('--jobs', type=int, default=8)
  p.add_argument('--repo', default='/repo')
  p.add_argument('--tests', action='store_true')
  a = p.parse_args()
  tasks = []
  for f in sorted(os.listdir(os.path.join(a.repo, 'feedx'))):
    if not f.endswith('.py') or f.endswith('_test.py') or f in (
        'conftest.py', '__init__.py') or a.file and a.file not in f:
      continue
    for k in KINDS:
      if not a.only or k in a.only.split(','):
        tasks.append((f, k, a.seed, a.p, a.repo, a.tests))
  random.Random(1).shuffle(tasks)
  print(len(tasks), 'variants', flush=True)
  tot = {}
  with mp.Pool(a.jobs, maxtasksperchild=2) as pool, open(a.out, 'w') as o:
    for r in pool.imap_unordered(one, tasks):
      tot[r['status']] = tot.get(r['status'], 0) + 1
      o.write(json.dumps(r) + '\n')
      o.flush()
      if r['status'] in ('violation', 'error', 'missing'):
        print(r['status'], r['kind'], r['file'], r.get('tests', ''),
              *[x[:400] for x in r.get('violation', [])[:2]],
              r.get('why', ''), flush=True)
  print(tot)


if __name__ == '__main__':
  main()
