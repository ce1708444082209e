"""U01: documented usage (README, notebooks) bound against the public API.

Only names, parameter lists and attributes are used; nothing is executed.
"""
from __future__ import annotations

import ast
import builtins
import json
import os
import re


class ClassInfo:

  def __init__(self, name, node, mod):
    self.name, self.node, self.mod = name, node, mod
    self.attrs = set()
    self.open = False           # attributes that cannot be enumerated
    self.methods = {}
    self.props = {}
    self.init = None            # ast.arguments or list of (field, has_default)
    self.fields = []


class Api:
  """Public surface of the library, from its syntax trees."""

  def __init__(self, repo):
    self.mods = {}
    pkg = os.path.join(repo, 'feedx')
    for f in sorted(os.listdir(pkg)):
      if not f.endswith('.py') or f.endswith('_test.py') or f == 'conftest.py':
        continue
      with open(os.path.join(pkg, f)) as fh:
        tree = ast.parse(fh.read(), f)
      self.mods[f[:-3]] = self.module(tree, f[:-3])
    self.pkg_names = set(self.mods) | set(self.mods.get('__init__', {}))

  def module(self, tree, mod):
    env = {}

    def visit(body):
      for s in body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
          env[s.name] = ('fun', s, None)
        elif isinstance(s, ast.ClassDef):
          env[s.name] = ('cls', self.klass(s, mod), None)
        elif isinstance(s, ast.Assign):
          for t in s.targets:
            for n in ast.walk(t):
              if isinstance(n, ast.Name):
                env[n.id] = ('alias', s.value.id) if isinstance(
                    s.value, ast.Name) else ('any',)
        elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
          if isinstance(s.target, ast.Name):
            env[s.target.id] = ('any',)
        elif isinstance(s, ast.ImportFrom):
          for a in s.names:
            n = a.asname or a.name
            m = (s.module or '').split('.')
            if m[0] == 'feedx' or s.level:
              src = m[-1] if len(m) > (0 if s.level else 1) and m[-1] else None
              env[n] = ('import', src, a.name)
            else:
              env[n] = ('any',)
        elif isinstance(s, ast.Import):
          for a in s.names:
            env[a.asname or a.name.split('.')[0]] = ('any',)
        else:
          for fld in ('body', 'orelse', 'finalbody'):
            visit(getattr(s, fld, []) or [])
          for h in getattr(s, 'handlers', []):
            visit(h.body)
    visit(tree.body)
    if '__getattr__' in env:
      env['*open*'] = ('any',)
    return env

  def klass(self, s, mod):
    c = ClassInfo(s.name, s, mod)
    decs = [ast.unparse(d) for d in s.decorator_list]
    c.dataclass = any('dataclass' in d for d in decs)
    for b in s.bases:
      bn = ast.unparse(b)
      if bn not in ('object',):
        c.open = True
    if s.keywords or any('dataclass' not in d for d in decs):
      c.open = True
    for b in s.body:
      if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
        c.attrs.add(b.name)
        ds = [ast.unparse(d).split('(')[0].split('.')[-1]
              for d in b.decorator_list]
        if any(d in ('property', 'cached_property') for d in ds):
          c.props[b.name] = b
        elif b.name == '__init__':
          c.init = b.args
        else:
          c.methods[b.name] = (b, 'classmethod' in ds, 'staticmethod' in ds,
                               [d for d in ds if d not in (
                                   'classmethod', 'staticmethod')])
        if b.name in ('__getattr__', '__getattribute__'):
          c.open = True
        for n in ast.walk(b):
          if isinstance(n, ast.Attribute) and isinstance(
              n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
              b.args.args and n.value.id == b.args.args[0].arg:
            c.attrs.add(n.attr)
          if isinstance(n, ast.Call) and isinstance(
              n.func, ast.Name) and n.func.id == 'setattr':
            c.open = True
      elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
        c.attrs.add(b.target.id)
        init, kw = True, False
        if isinstance(b.value, ast.Call):
          for k in b.value.keywords:
            if k.arg == 'init' and getattr(k.value, 'value', True) is False:
              init = False
            if k.arg == 'kw_only' and getattr(k.value, 'value', False) is True:
              kw = True
          default = any(k.arg in ('default', 'default_factory')
                        for k in b.value.keywords) if ast.unparse(
                            b.value.func).endswith('field') else True
        else:
          default = b.value is not None
        if init and 'ClassVar' not in ast.unparse(b.annotation):
          c.fields.append((b.target.id, default, kw))
      elif isinstance(b, ast.Assign):
        for t in b.targets:
          if isinstance(t, ast.Name):
            c.attrs.add(t.id)
    return c

  def lookup(self, mod, name, depth=0):
    """('fun', node, mod) | ('cls', info, mod) | ('any',) | None."""
    env = self.mods.get(mod)
    if env is None or depth > 8:
      return ('any',)
    v = env.get(name)
    if v is None:
      return ('any',) if '*open*' in env else None
    if v[0] == 'alias':
      return self.lookup(mod, v[1], depth + 1) or ('any',)
    if v[0] == 'import':
      if v[1] is None:
        return ('mod', v[2]) if v[2] in self.mods else ('any',)
      return self.lookup(v[1], v[2], depth + 1) or ('any',)
    if v[0] in ('fun', 'cls'):
      return (v[0], v[1], mod)
    return v


def bind(args, call, skip=0):
  """Problem with a call given the ast.arguments of the callee, or None."""
  pos = [a.arg for a in args.posonlyargs + args.args][skip:]
  npo = max(len(args.posonlyargs) - skip, 0)
  nd = len(args.defaults)
  req = pos[:len(pos) - nd] if nd else list(pos)
  kwo = [a.arg for a in args.kwonlyargs]
  kreq = [a.arg for a, d in zip(args.kwonlyargs, args.kw_defaults)
          if d is None]
  return bind_names(pos, req, kwo, kreq, args.vararg is not None,
                    args.kwarg is not None, call, npo)


def bind_names(pos, req, kwo, kreq, vararg, kwarg, call, npo=0):
  star = any(isinstance(a, ast.Starred) for a in call.args)
  kstar = any(k.arg is None for k in call.keywords)
  n = len([a for a in call.args if not isinstance(a, ast.Starred)])
  if n > len(pos) and not vararg:
    return f'takes {len(pos)} positional arguments, {n} given'
  given = set(pos[:n])
  for k in call.keywords:
    if k.arg is None:
      continue
    if k.arg in given:
      return f'argument {k.arg} is given twice'
    if k.arg not in pos[npo:] and k.arg not in kwo and not kwarg:
      return f'has no parameter {k.arg}'
    given.add(k.arg)
  if not star and not kstar:
    missing = [p for p in req + kreq if p not in given]
    if missing:
      return f'required argument {missing[0]} is missing'
  return None


KNOWN_BUILTINS = set(dir(builtins)) | {'display', 'get_ipython', '__name__',
                                       '__file__'}


class Doc(ast.NodeVisitor):
  """One documented program."""

  def __init__(self, api, where, out):
    self.api, self.where, self.out = api, where, out
    self.types = {}         # variable -> ('mod', m) | ('cls', ClassInfo) | ...
    self.calls = self.attrs = self.names = 0
    self.cell = ''

  def report(self, node, msg):
    self.out.append((f'{self.where}{self.cell}', getattr(node, 'lineno', 0),
                     msg))

  # types -----------------------------------------------------------------
  def ann(self, a, mod):
    """Class named by a return annotation of the library."""
    if a is None:
      return None
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
      try:
        a = ast.parse(a.value, mode='eval').body
      except SyntaxError:
        return None
    if isinstance(a, ast.Name):
      r = self.api.lookup(mod, a.id)
      if r and r[0] == 'cls':
        return ('obj', r[1])
    if isinstance(a, ast.Attribute):
      r = self.api.lookup(a.value.id, a.attr) if isinstance(
          a.value, ast.Name) and a.value.id in self.api.mods else None
      if r and r[0] == 'cls':
        return ('obj', r[1])
    if isinstance(a, ast.Subscript):
      h = ast.unparse(a.value).split('.')[-1].lower()
      if h in ('list', 'sequence', 'iterable', 'collection', 'iterator'):
        e = self.ann(a.slice, mod)
        return ('seq', e) if e else None
    return None

  def local_ann(self, a):
    if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name):
      t = self.types.get(a.value.id)
      if t and t[0] == 'mod':
        r = self.api.lookup(t[1], a.attr)
        if r and r[0] == 'cls':
          return ('obj', r[1])
    if isinstance(a, ast.Name):
      t = self.types.get(a.id)
      if t and t[0] == 'cls':
        return ('obj', t[1])
    return None

  def type_of(self, e):
    """Type of an expression; reports problems found on the way."""
    if isinstance(e, ast.Name):
      return self.types.get(e.id)
    if isinstance(e, ast.Attribute):
      b = self.type_of(e.value)
      return self.attr_type(b, e.attr, e, report=False)
    if isinstance(e, ast.Call):
      f = self.type_of(e.func)
      if f is None:
        if isinstance(e.func, ast.Name) and e.func.id in (
            'list', 'sorted', 'tuple', 'map', 'filter') and e.args:
          if e.func.id == 'map' and len(e.args) == 2:
            g = self.type_of(e.args[0])
            return ('seq', g[2]) if g and g[0] == 'local' and g[2] else None
          t = self.type_of(e.args[-1])
          return t if t and t[0] == 'seq' else None
        if isinstance(e.func, ast.Attribute):
          if e.func.attr in ('tqdm',) and e.args:
            return self.type_of(e.args[0])
          b = self.type_of(e.func.value)
          if b and b[0] == 'dict' and e.func.attr == 'values':
            return ('seq', b[1])
        return None
      if f[0] == 'cls':
        return ('obj', f[1])
      if f[0] == 'fun':
        return self.ann(f[1].returns, f[2])
      if f[0] == 'method':
        if f[2] is not None and ast.unparse(f[1].returns or ast.Constant(
            None)).strip('\'"') in ('Self', f[2].name):
          return ('obj', f[2])
        return self.ann(f[1].returns, f[2].mod)
      if f[0] == 'local':
        return f[2]
      return None
    if isinstance(e, ast.Subscript):
      b = self.type_of(e.value)
      if b and b[0] == 'dict':
        return b[1]
      if b and b[0] == 'seq' and not isinstance(e.slice, ast.Slice):
        return b[1]
      return b if b and b[0] == 'seq' else None
    if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp,
                      ast.DictComp)):
      saved = dict(self.types)
      for g in e.generators:
        self.bind_iter(g.target, g.iter)
      r = self.type_of(e.value if isinstance(e, ast.DictComp) else e.elt)
      self.types = saved
      if r is None:
        return None
      return ('dict', r) if isinstance(e, ast.DictComp) else ('seq', r)
    if isinstance(e, (ast.List, ast.Tuple)) and e.elts:
      ts = [self.type_of(x) for x in e.elts]
      return ('seq', ts[0]) if ts[0] and all(t == ts[0] for t in ts) else None
    return None

  def bind_iter(self, target, it):
    t = self.type_of(it)
    if isinstance(target, ast.Name):
      self.types[target.id] = t[1] if t and t[0] == 'seq' else None

  def attr_type(self, b, name, node, report=True):
    if b is None:
      return None
    if b[0] == 'pkg':
      if name in self.api.mods:
        return ('mod', name)
      if report and name not in self.api.pkg_names:
        self.report(node, f'feedx has no module {name}')
      return None
    if b[0] == 'mod':
      r = self.api.lookup(b[1], name)
      if r is None:
        if report:
          self.report(node, f'feedx.{b[1]} has no {name}')
        return None
      if r[0] in ('fun', 'cls', 'mod'):
        return r
      return None
    if b[0] in ('obj', 'cls'):
      c = b[1]
      if name in c.methods:
        m = c.methods[name]
        if m[3]:
          return None
        bound = b[0] == 'obj' or m[1]
        return ('method', m[0], c, 0 if m[2] or not bound else 1)
      if name in c.props and b[0] == 'obj':
        return self.ann(c.props[name].returns, c.mod)
      if name in c.attrs:
        for s in c.node.body:
          if isinstance(s, ast.AnnAssign) and isinstance(
              s.target, ast.Name) and s.target.id == name:
            return self.ann(s.annotation, c.mod)
        return self.init_attr(c, name)
      if report and not c.open and not (
          name.startswith('__') and name.endswith('__')):
        self.report(node, f'{c.name} has no attribute {name}')
    return None

  def init_attr(self, c, name):
    """self.name = parameter: the parameter's annotation."""
    for s in c.node.body:
      if isinstance(s, ast.FunctionDef) and s.name == '__init__':
        anns = {a.arg: a.annotation for a in s.args.args + s.args.kwonlyargs}
        for n in ast.walk(s):
          if isinstance(n, ast.Assign) and isinstance(
              n.targets[0], ast.Attribute) and n.targets[0].attr == name \
              and isinstance(n.value, ast.Name):
            return self.ann(anns.get(n.value.id), c.mod)
    return None

  # statements --------------------------------------------------------------
  def visit_Import(self, s):
    for a in s.names:
      n = a.asname or a.name.split('.')[0]
      parts = a.name.split('.')
      if parts[0] == 'feedx':
        for p in parts[1:2]:
          if p not in self.api.mods:
            self.report(s, f'feedx has no module {p}')
        self.types[n] = ('mod', parts[1]) if a.asname and len(parts) > 1 \
            else ('pkg',)
      else:
        self.types[n] = None

  def visit_ImportFrom(self, s):
    parts = (s.module or '').split('.')
    for a in s.names:
      n = a.asname or a.name
      self.types[n] = None
      if parts[0] != 'feedx':
        continue
      if len(parts) == 1:
        self.types[n] = self.attr_type(('pkg',), a.name, s)
      else:
        if parts[1] not in self.api.mods:
          self.report(s, f'feedx has no module {parts[1]}')
          continue
        self.types[n] = self.attr_type(('mod', parts[1]), a.name, s)

  def visit_Assign(self, s):
    self.visit(s.value)
    t = self.type_of(s.value)
    for x in s.targets:
      if isinstance(x, ast.Name):
        self.types[x.id] = t
      else:
        self.visit(x)
        for n in ast.walk(x):
          if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            self.types[n.id] = None

  def visit_For(self, s):
    self.visit(s.iter)
    self.bind_iter(s.target, s.iter)
    for b in s.body + s.orelse:
      self.visit(b)

  def comp(self, e):
    saved = dict(self.types)
    for g in e.generators:
      self.visit(g.iter)
      self.bind_iter(g.target, g.iter)
      for i in g.ifs:
        self.visit(i)
    if isinstance(e, ast.DictComp):
      self.visit(e.key)
      self.visit(e.value)
    else:
      self.visit(e.elt)
    self.types = saved

  visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

  def visit_FunctionDef(self, s):
    saved = dict(self.types)
    for a in s.args.args + s.args.kwonlyargs:
      self.types[a.arg] = self.local_ann(a.annotation)
    for b in s.body:
      self.visit(b)
    self.types = saved
    self.types[s.name] = ('local', s, self.local_ann(s.returns))

  def visit_Lambda(self, e):
    saved = dict(self.types)
    for a in e.args.args:
      self.types[a.arg] = None
    self.visit(e.body)
    self.types = saved

  def visit_Attribute(self, e):
    self.visit(e.value)
    b = self.type_of(e.value)
    if b and b[0] in ('pkg', 'mod', 'obj', 'cls') and isinstance(
        e.ctx, ast.Load):
      self.attrs += 1
      self.attr_type(b, e.attr, e)

  def visit_Call(self, e):
    self.visit(e.func)
    for a in e.args:
      self.visit(a)
    for k in e.keywords:
      self.visit(k.value)
    f = self.type_of(e.func)
    if f is None:
      return
    p = None
    name = ast.unparse(e.func)
    if f[0] == 'fun':
      if f[1].decorator_list:
        return
      p = bind(f[1].args, e)
    elif f[0] == 'local':
      p = bind(f[1].args, e)
    elif f[0] == 'method':
      p = bind(f[1].args, e, f[3])
    elif f[0] == 'cls':
      c = f[1]
      if c.init is not None:
        p = bind(c.init, e, 1)
      elif c.dataclass and not c.node.bases:
        pos = [n for n, _, kw in c.fields if not kw]
        p = bind_names(pos, [n for n, d, kw in c.fields if not d and not kw],
                       [n for n, _, kw in c.fields if kw],
                       [n for n, d, kw in c.fields if kw and not d],
                       False, False, e)
      else:
        return
    else:
      return
    self.calls += 1
    if p:
      self.report(e, f'{name} {p}')


class Names:
  """Names read before anything in the program defines them."""

  def __init__(self, doc):
    self.doc = doc

  def run(self, body, defined):
    for s in body:
      defined = self.stmt(s, defined)
    return defined

  def loads(self, node, defined):
    """Check the names read by an expression (with nested scopes)."""
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                         ast.DictComp)):
      d = set(defined)
      for g in node.generators:
        self.loads(g.iter, d)
        d |= stores(g.target)
        for i in g.ifs:
          self.loads(i, d)
      for x in ([node.key, node.value] if isinstance(node, ast.DictComp)
                else [node.elt]):
        self.loads(x, d)
      return
    if isinstance(node, ast.Lambda):
      a = node.args
      d = set(defined) | {x.arg for x in a.args + a.kwonlyargs +
                          a.posonlyargs} | {x.arg for x in (
                              a.vararg, a.kwarg) if x}
      self.loads(node.body, d)
      return
    if isinstance(node, ast.Name):
      if isinstance(node.ctx, ast.Load):
        self.doc.names += 1
        if node.id not in defined and node.id not in KNOWN_BUILTINS:
          self.doc.report(node, f'{node.id} is not defined')
          defined.add(node.id)
      return
    for c in ast.iter_child_nodes(node):
      self.loads(c, defined)

  def stmt(self, s, d):
    d = set(d)
    if isinstance(s, (ast.Import, ast.ImportFrom)):
      return d | {a.asname or a.name.split('.')[0] for a in s.names}
    if isinstance(s, ast.FunctionDef):
      for x in s.decorator_list + s.args.defaults:
        self.loads(x, d)
      return d | {s.name}
    if isinstance(s, ast.ClassDef):
      return d | {s.name}
    if isinstance(s, (ast.If, ast.While)):
      self.loads(s.test, d)
      a, b = self.run(s.body, d), self.run(s.orelse, d)
      return a | b          # either branch may define it
    if isinstance(s, ast.For):
      self.loads(s.iter, d)
      return self.run(s.orelse, self.run(s.body, d | stores(s.target)))
    if isinstance(s, ast.With):
      for i in s.items:
        self.loads(i.context_expr, d)
        if i.optional_vars is not None:
          d |= stores(i.optional_vars)
      return self.run(s.body, d)
    if isinstance(s, ast.Try):
      d2 = self.run(s.body, d)
      for h in s.handlers:
        d2 |= self.run(h.body, d2 | ({h.name} if h.name else set()))
      return self.run(s.finalbody, self.run(s.orelse, d2))
    for n in ast.iter_child_nodes(s):
      if isinstance(n, ast.expr):
        self.loads(n, d)
    return d | stores(s)


def stores(node):
  return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and
          isinstance(n.ctx, ast.Store)}


def programs(repo):
  """(where, [(cell, source)]) of every documented program."""
  out = []
  p = os.path.join(repo, 'README.md')
  if os.path.exists(p):
    with open(p) as f:
      text = f.read()
    cells = []
    for m in re.finditer(r'^```(?:python|py)\s*\n(.*?)^```', text,
                         re.M | re.S):
      cells.append((text[:m.start(1)].count('\n'), m.group(1)))
    if cells:
      out.append(('README.md', cells))
  nb = os.path.join(repo, 'notebooks')
  for f in sorted(os.listdir(nb)) if os.path.isdir(nb) else []:
    if not f.endswith('.ipynb'):
      continue
    with open(os.path.join(nb, f)) as fh:
      d = json.load(fh)
    cells = []
    for i, c in enumerate(d.get('cells', [])):
      if c.get('cell_type') != 'code':
        continue
      s = c['source'] if isinstance(c['source'], str) else ''.join(c['source'])
      if s.lstrip().startswith('%%'):
        continue
      s = '\n'.join('pass' if re.match(r'\s*[!%]', l) else l
                    for l in s.split('\n'))
      cells.append((f' cell {i}', s))
    out.append((f'notebooks/{f}', cells))
  return out


def yaml_designs(api, tree, doc):
  """Designs written out as yaml text: the keys are those of a design."""
  r = api.lookup('experiment_design', 'ExperimentDesign')
  if not r or r[0] != 'cls' or r[1].init is not None or not r[1].dataclass:
    return
  c = r[1]
  fields = {n for n, _, _ in c.fields}
  for n in ast.walk(tree):
    if not (isinstance(n, ast.Constant) and isinstance(n.value, str)):
      continue
    lines = [l.strip() for l in n.value.split('\n') if l.strip()]
    keys = [m.group(1) for m in (re.match(r'(\w+):(\s|$)', l) for l in lines)
            if m]
    if len(keys) < 5 or len(keys) != len(lines) or \
        'runtime_weeks' not in keys:
      continue
    for k in keys:
      doc.attrs += 1
      if k not in fields and k not in c.attrs:
        doc.report(n, f'ExperimentDesign has no field {k}')
    for f, default, _ in c.fields:
      if not default and f not in keys:
        doc.report(n, f'the stored design lacks the required field {f}')


def check(repo):
  """(violations, counts, undecided)."""
  api = Api(repo)
  out, und = [], []
  counts = {'programs': 0, 'cells': 0, 'calls': 0, 'attributes': 0,
            'names': 0}
  for where, cells in programs(repo):
    counts['programs'] += 1
    d = Doc(api, where, out)
    names = Names(d)
    defined = set()
    for cell, src in cells:
      try:
        tree = ast.parse(src)
      except SyntaxError as e:
        und.append(f'{where} {cell}: {e}')
        continue
      counts['cells'] += 1
      if isinstance(cell, int):
        ast.increment_lineno(tree, cell)
        d.cell = ''
      else:
        d.cell = cell
      defined = names.run(tree.body, defined)
      for s in tree.body:
        d.visit(s)
      yaml_designs(api, tree, d)
    # names used inside functions may be defined later; check at the end
    for cell, src in cells:
      try:
        tree = ast.parse(src)
      except SyntaxError:
        continue
      d.cell = cell if isinstance(cell, str) else ''
      if isinstance(cell, int):
        ast.increment_lineno(tree, cell)
      for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
          a = n.args
          local = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {
              x.arg for x in (a.vararg, a.kwarg) if x}
          for b in n.body:
            local |= stores(b)
            local |= {x.name for x in ast.walk(b) if isinstance(
                x, (ast.FunctionDef, ast.ClassDef))}
          for b in n.body:
            names.loads(b, set(defined) | local)
    counts['calls'] += d.calls
    counts['attributes'] += d.attrs
    counts['names'] += d.names
  return out, counts, und
