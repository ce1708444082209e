"""Modules of the analysed library and of the reference, parsed once."""
from __future__ import annotations

import ast
import glob
import json
import os

from sa.terms import *   # noqa: F401,F403
from sa import terms as tm
from sa import interp as ip
from sa.interp import Module, Interp, St, Frame, Ref, FUNS, Func, Cls
from sa.lib import Lib

KIND_NAMES = {
    'int': 'int', 'float': 'num', 'str': 'str', 'bool': 'bool',
    'list': 'list', 'dict': 'dict', 'set': 'set', 'tuple': 'tuple',
    'List': 'list', 'Dict': 'dict', 'Set': 'set', 'Tuple': 'tuple',
    'Collection': 'list', 'Sequence': 'list', 'Iterable': 'list',
    'Mapping': 'dict', 'Container': 'list', 'frozenset': 'set',
    'pd.DataFrame': 'frame', 'pd.Series': 'series', 'pd.Index': 'index',
    'np.ndarray': 'array', 'npt.NDArray': 'array', 'npt.ArrayLike': 'array',
    'np.random.Generator': 'rng', 'dt.date': 'date', 'dt.datetime': 'date',
    'pd.Timestamp': 'date', 'datetime.date': 'date', 'plt.Axes': 'axes',
    'datetime.datetime': 'date', 'mpl.axes.Axes': 'axes',
    'plt.axes.Axes': 'axes', 'mpl.axes._axes.Axes': 'axes',
    'style.Styler': 'styler', 'np.float64': 'num', 'np.int64': 'int',
    'mpl.axes._subplots.AxesSubplot': 'axes', 'Number': 'num',
    'plt.matplotlib.axes._axes.Axes': 'axes', 'Axes': 'axes',
}


class Generators(ast.NodeTransformer):
  """A generator function, read as one that returns the list of its values."""

  NAME = '__yielded'

  def visit_FunctionDef(self, n):
    self.generic_visit(n)
    own = [x for b in n.body for x in self.own(b)]
    if not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own) or \
        'contextmanager' in ''.join(ast.dump(d) for d in n.decorator_list):
      return n
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) and
           not getattr(x, 'statement', False) for x in own):
      return n
    t = _Yields(self.NAME)
    n.body = [y for b in n.body for y in t.one(b)]
    first = ast.copy_location(ast.Assign(
        [ast.Name(self.NAME, ast.Store())], ast.List([], ast.Load())),
        n.body[0])
    last = ast.copy_location(
        ast.Return(ast.Name(self.NAME, ast.Load())), n.body[-1])
    n.body = [first] + n.body + [last]
    ast.fix_missing_locations(n)
    return n

  def own(self, n):
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      return
    if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield,
                                                        ast.YieldFrom)):
      n.value.statement = True
    yield n
    for c in ast.iter_child_nodes(n):
      yield from self.own(c)


class _Yields(ast.NodeTransformer):

  def __init__(self, name):
    self.name = name

  def one(self, n):
    r = self.visit(n)
    return r if isinstance(r, list) else [r]

  def visit_FunctionDef(self, n):
    return n

  visit_Lambda = visit_ClassDef = visit_FunctionDef

  def visit_Return(self, n):
    return ast.copy_location(
        ast.Return(ast.Name(self.name, ast.Load())), n)

  def visit_Expr(self, n):
    v = n.value
    if isinstance(v, (ast.Yield, ast.YieldFrom)):
      f = 'append' if isinstance(v, ast.Yield) else 'extend'
      call = ast.Call(ast.Attribute(ast.Name(self.name, ast.Load()), f,
                                    ast.Load()),
                      [v.value or ast.Constant(None)], [])
      return ast.copy_location(ast.Expr(call), n)
    return n


class Program:
  """One side: 'impl' (the code under analysis) or 'spec' (the reference)."""

  def __init__(self, root, side, api=None):
    self.root, self.side = root, side
    self.modules = {}
    self.heap = {}
    self.nloc = [0]
    self.classes = {}
    self.api_funcs = {}
    self.api_set = api
    self.loading = []
    self.contracts = {}
    self.not_api = set()
    self.api_mutates, self.api_returns = {}, {}
    self.api_may_alias, self.api_effects = {}, set()
    self.transparent = set()
    self.lib = Lib()
    self.heap_base = 0        # locations below belong to module-level objects
    self.undo = []
    self.hidden = None
    self.constructed = set()
    self.inlined = set()
    self.ctor_cache = {}
    self.ctor_kinds = {}

  @property
  def heap_next(self):
    return self.nloc[0]

  def set_contracts(self, c):
    self.contracts = c
    self.api_mutates = c.get('mutates', {})
    self.api_returns = c.get('returns', {})
    self.api_may_alias = c.get('may_alias', {})
    self.api_effects = set(c.get('effects', []))
    self.transparent = set(c.get('transparent', []))
    self.not_api = set(c.get('not_api', []))
    self.constructed = set(c.get('constructed', []))
    self.inlined = set(c.get('inlined', []))
    for k, fields in c.get('ctor_params', {}).items():
      for a, p in fields.items():
        tm.CTOR_PARAM[k, a] = p
    tm.CONSTRUCTED |= {x.split('.')[-1] for x in self.constructed}

  def parse(self, files):
    for f in sorted(files):
      short = os.path.basename(f)[:-3]
      if short == '__init__':
        continue
      with open(f) as fh:
        tree = Generators().visit(ast.parse(fh.read(), f))
      self.modules['feedx.' + short] = Module(
          'feedx.' + short, os.path.relpath(f, self.root), tree, False)

  def load_all(self):
    for m in self.modules.values():
      self.load(m)
    self.undo = []
    self.heap_base = self.heap_next

  def load(self, m):
    if getattr(m, 'loaded', False):
      return
    m.loaded = True
    I = Interp(self, self.lib, self.side)
    I.nloc = self.nloc
    I.draw_sites = []
    st = St(m.env, self.heap, TRUE)
    fr = Frame(None, m, [])
    for s in m.tree.body:
      try:
        st = I.exec_stmt(s, st, fr) or st
        if st.env is not m.env:
          m.env.update(st.env)
          st.env = m.env
        if st.heap is not self.heap:
          self.heap.update(st.heap)
          st.heap = self.heap
      except ip.Unsupported as e:
        m.problem = str(e)
    for n, v in list(m.env.items()):
      if isinstance(v, T) and v.op == 'cls':
        c = FUNS[v.d]
        if c.module is m:
          self.classes[(self.side, c.name)] = c
          self.classes.setdefault(('impl', c.name), c)
    self.index(m)

  def index(self, m):
    for n, v in m.env.items():
      if not isinstance(v, T):
        continue
      if v.op == 'fun':
        f = FUNS[v.d]
        if f.api and f.api.startswith(m.short + '.'):
          self.api_funcs[f.api] = f
      elif v.op == 'cls' and FUNS[v.d].module is m:
        c = FUNS[v.d]
        q = f'{m.short}.{c.name}'
        if (self.api_set is None and q not in self.not_api) or (
            self.api_set is not None and q in self.api_set):
          self.api_funcs[q] = c
        for mn, mv in c.members.items():
          if isinstance(mv, T) and mv.op == 'fun':
            f = FUNS[mv.d]
            if f.api:
              self.api_funcs[f.api] = f

  # names --------------------------------------------------------------
  def api_name(self, module, qual):
    q = f'{module.short}.{qual}'
    last = qual.split('.')[-1]
    if self.api_set is not None:
      return q if q in self.api_set else None
    if any(q == x or q.startswith(x + '.') for x in self.not_api):
      return None
    if last.startswith('_') and last not in ('__call__', '__str__'):
      return None
    if any(p.startswith('_') for p in qual.split('.')[:-1]):
      return None
    if qual.count('.') > 1:
      return None
    return q

  def spec_name(self, module, n):
    return None

  def ann_kind(self, a, module):
    """(kind, optional) of an annotation."""
    if a is None:
      return None, True
    if isinstance(a, ast.Constant):
      if a.value is None:
        return 'none', True
      if isinstance(a.value, str):
        try:
          return self.ann_kind(ast.parse(a.value, mode='eval').body, module)
        except SyntaxError:
          return None, True
      return None, True
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
      l, r = self.ann_kind(a.left, module), self.ann_kind(a.right, module)
      if l[0] == 'none':
        return r[0], True
      if r[0] == 'none':
        return l[0], True
      if l[0] == r[0]:
        return l[0], l[1] or r[1]
      if {l[0], r[0]} == {'int', 'num'}:
        return 'num', l[1] or r[1]
      return None, True
    if isinstance(a, ast.Subscript):
      h = ast.unparse(a.value)
      if h.split('.')[-1] == 'Optional':
        return self.ann_kind(a.slice, module)[0], True
      if h.split('.')[-1] in ('Union',):
        return None, True
      if h.split('.')[-1] in ('Annotated', 'Final', 'ClassVar'):
        x = a.slice.elts[0] if isinstance(a.slice, ast.Tuple) else a.slice
        return self.ann_kind(x, module)
      return self.ann_kind(a.value, module)
    s = ast.unparse(a)
    if s in KIND_NAMES:
      return KIND_NAMES[s], False
    t = s.split('.')[-1]
    if t in ('Callable', 'Any', 'TypeVar', 'Self'):
      return None, True
    if t in KIND_NAMES and t in ('Collection', 'Sequence', 'Iterable',
                                 'Mapping', 'List', 'Dict', 'DataFrame',
                                 'Series', 'ndarray', 'Generator', 'Axes'):
      return KIND_NAMES[t], False
    if s.split('.')[0] in ('np', 'pd', 'plt', 'mpl', 'dt'):
      return None, False
    # type aliases of the module
    v = module.env.get(s) if module is not None else None
    if isinstance(v, T) and v.op == 'lib':
      k = KIND_NAMES.get(v.d) or KIND_NAMES.get(v.d.split('.')[-1])
      if k:
        return k, False
    if t and t[0].isupper() and t.isidentifier():
      return 'obj:' + t, False
    return None, True


class Summary:
  """Everything observable about one function."""

  def __init__(self):
    self.params = []
    self.sig = []
    self.ret = None
    self.raises = {}
    self.raise_sites = []
    self.effects = []
    self.final = {}
    self.muts = []
    self.draws = []
    self.gwrites = []
    self.awrites = []
    self.cached = False
    self.problem = None
    self.src = {}
    self.functions = set()
    self.callsites = 0
    self.where = None
    self.notes = []
    self.ret_org = set()


def signature(I, f, st, skip_first=False):
  a = f.node.args
  out = []
  pos = a.posonlyargs + a.args
  nd = len(f.defaults)
  for i, p in enumerate(pos):
    j = i - (len(pos) - nd)
    d = I.rd(st, I.adopt(f.defaults[j], st)) if j >= 0 else None
    out.append((p.arg, 'pos', d))
  if skip_first:
    out = out[1:]
  if a.vararg:
    out.append((a.vararg.arg, '*', None))
  for p, d in zip(a.kwonlyargs, f.kwdefaults):
    out.append((p.arg, 'kw', I.rd(st, I.adopt(d, st)) if d is not None
                else None))
  if a.kwarg:
    out.append((a.kwarg.arg, '**', None))
  return out


def param_kinds(f, prog):
  a = f.node.args
  ps = a.posonlyargs + a.args + a.kwonlyargs
  return {p.arg: prog.ann_kind(p.annotation, f.module) for p in ps}


def api_param_kinds(prog, name):
  """(kinds, names) of the parameters of a public function."""
  t = prog.api_funcs.get(name)
  if t is None:
    return None, None
  if isinstance(t, Cls):
    init = ip.find_member(t, '__init__')
    if init is not None:
      f = FUNS[init.d]
      ks = _opt_kinds(f, param_kinds(f, prog))
      names = [p.arg for p in f.node.args.args + f.node.args.kwonlyargs][1:]
    else:
      ks, names = {}, []
      for n, ann, d, i in t.fields:
        if i:
          k, o = prog.ann_kind(ann, t.module)
          ks[n] = (k, o or d is NONE)
          names.append(n)
    return ks, names
  I = Interp(prog, prog.lib, prog.side)
  ks = _opt_kinds(t, param_kinds(t, prog))
  g = I.api_sig(t)
  if g is not t:
    ks = {**_opt_kinds(g, param_kinds(g, prog)), **ks}
  return ks, list(ks)


def _opt_kinds(f, ks):
  a = f.node.args
  pos = a.posonlyargs + a.args
  nd = len(f.defaults)
  for p, d in list(zip(pos[len(pos) - nd:], f.defaults)) + list(
      zip(a.kwonlyargs, f.kwdefaults)):
    if d is NONE:
      ks[p.arg] = (ks[p.arg][0], True)
  return ks


def summarise(prog, name, inline=frozenset(), kinds=None, only=None):
  """Evaluate the public function `name` abstractly."""
  S = Summary()
  target = prog.api_funcs.get(name)
  if target is None:
    S.problem = 'missing'
    return S
  I = Interp(prog, prog.lib, prog.side, inline=inline, root=name)
  I.root_open = name
  I.root_node = target.node
  I.draw_sites = []
  I._varargs = {}
  I._indexer_base = {}
  st = St({}, dict(prog.heap), TRUE)
  try:
    if isinstance(target, Cls):
      _summ_class(prog, I, target, st, S, kinds, only)
    else:
      _summ_func(prog, I, target, st, S, kinds, only)
  except ip.Unsupported as e:
    S.problem = f'unsupported construct: {e}'
  except RecursionError:
    S.problem = 'expression too deep'
  S.src = I.src
  S.functions = I.functions
  S.callsites = I.callsites
  S.draws = I.draw_sites
  S.gwrites = I.gwrites
  S.awrites = I.awrites
  for d, n, v in reversed(prog.undo):
    if v is None:
      d.pop(n, None)
    else:
      d[n] = v
  prog.undo = []
  S.muts = I.rec.muts
  S.notes = I.notes
  return S


def _mk(I, st, name, k, o, mode='deep'):
  t = sym(name, k, o)
  if k in ('int', 'num', 'str', 'bool', 'date'):
    return t
  return I.new(st, t, {(name, mode)})


def _finish(I, S, st, ret):
  S.ret_org = set(I.org(ret) or ()) if ret is not None else set()
  S.ret = I.rd(st, ret) if ret is not None else NONE
  S.ret = I.reify(S.ret, st)
  rs = {}
  for typ, c, w in I.rec.raises:
    rs.setdefault(typ, []).append((c, w))
  S.raise_sites = I.rec.raises
  S.raises = {t: or_(*[c for c, _ in l]) for t, l in rs.items()}
  S.effects = I.rec.effects


def _summ_func(prog, I, f, st, S, kinds, only=None):
  S.where = (f.module.path, f.node.lineno)
  g = I.api_sig(f)
  ks = param_kinds(f, prog)
  if g is not f:
    ks = {**param_kinds(g, prog), **ks}
  if kinds:
    ks = {**ks, **kinds}
  sig = signature(I, f, st)
  if g is not f:
    gs = signature(I, g, st)
    sig = gs + [x for x in sig if x[1] == 'kw' and x[0] not in
                [y[0] for y in gs]]
  method = f.cls is not None and f.kind != 'staticmethod'
  args, kw = [], {}
  refs = {}
  first = True
  positional = True
  for n, k_, d in sig:
    if method and first:
      first = False
      if f.kind == 'classmethod':
        args.append(raw('cls', (), ip._reg(f.cls)))
      else:
        me = sym('self', 'obj:' + f.cls.name)
        v = I.new(st, me, {('self', 'deep')})
        if f.cls.api in prog.constructed:
          I.ctor_fields = {me.id: constructed_fields(prog, f.cls)}
        refs['self'] = v
        args.append(v)
      continue
    if k_ == '*':
      continue
    if k_ == '**':
      if only is None:
        v = I.new(st, sym('**' + n, 'dict'))
        kw['**'] = v
      continue
    if only is not None and n not in only and d is not None:
      positional = False        # an additional optional parameter
      continue
    kk, oo = ks.get(n, (None, True))
    if d is NONE and not (kinds and n in kinds):
      oo = True
    v = _mk(I, st, n, kk, oo)
    refs[n] = v
    if k_ == 'pos' and not (g is not f) and positional:
      args.append(v)
    else:
      kw[n] = v
  S.sig = sig[1:] if method else sig
  fr = Frame(None, f.module, [])
  if f.kind == 'property':
    S.cached = f.cached
  S.cached = f.cached
  r = I.call_func(f, args, kw, st, fr)
  _finish(I, S, st, r)
  for n, v in refs.items():
    if isinstance(v, Ref):
      S.final[n] = I.reify(st.heap[v.loc], st)


def constructed_fields(prog, c):
  """What the constructor stores, in terms of its parameters."""
  key = c.api
  if key not in prog.ctor_cache:
    I = Interp(prog, prog.lib, prog.side, root=c.api)
    I.root_open = c.api
    I.root_node = c.node
    I.draw_sites = []
    I._varargs, I._indexer_base = {}, {}
    st = St({}, dict(prog.heap), TRUE)
    S = Summary()
    ks, names = prog.ctor_kinds.get(key) or api_param_kinds(prog, key)
    _summ_class(prog, I, c, st, S, {'self.' + n: k for n, k in ks.items()},
                names, 'self.')
    r = S.ret
    prog.ctor_cache[key] = dict(zip(r.d[1], r.a)) if r.op == 'obj' else {}
  return prog.ctor_cache[key]


def _summ_class(prog, I, c, st, S, kinds, only=None, prefix=''):
  S.where = (c.module.path, c.node.lineno)
  init = ip.find_member(c, '__init__')
  fr = Frame(None, c.module, [])
  kw, refs = {}, {}
  if init is not None:
    f = FUNS[init.d]
    ks = {**param_kinds(f, prog), **(kinds or {})}
    S.sig = signature(I, f, st, True)
    for n, k_, d in S.sig:
      if k_ in ('*', '**'):
        continue
      if only is not None and n not in only and d is not None:
        continue
      kk, oo = ks.get(prefix + n, (None, True))
      if d is NONE and not (kinds and prefix + n in kinds):
        oo = True
      kw[n] = refs[n] = _mk(I, st, prefix + n, kk, oo)
  else:
    for n, ann, d, i in c.fields:
      if not i:
        continue
      dv = None
      if d is not None:
        dv = I.fdefault(d, st)
      S.sig.append((n, 'pos', dv))
      if only is not None and n not in only and d is not None:
        continue
      kk, oo = prog.ann_kind(ann, c.module)
      if kinds and prefix + n in kinds:
        kk, oo = kinds[prefix + n]
      if dv is NONE and not (kinds and prefix + n in kinds):
        oo = True
      kw[n] = refs[n] = _mk(I, st, prefix + n, kk, oo)
  o = I.construct(c, [], kw, st, fr)
  _finish(I, S, st, o)
  for n, v in refs.items():
    if isinstance(v, Ref):
      S.final[n] = st.heap[v.loc]


def make_programs(repo, specdir):
  spec = Program(specdir, 'spec')
  spec.parse(f for f in glob.glob(os.path.join(specdir, '*.py')))
  with open(os.path.join(specdir, 'contracts.json')) as f:
    contracts = json.load(f)
  spec.set_contracts(contracts)
  spec.load_all()
  api = set(spec.api_funcs)
  for n, f in spec.api_funcs.items():
    if isinstance(f, Cls):
      tm._APIKIND[n] = 'obj:' + f.name
    else:
      tm._APIKIND[n] = spec.ann_kind(f.node.returns, f.module)[0]
  impl = Program(repo, 'impl', api)
  for n in contracts.get('constructed', []):
    impl.ctor_kinds[n] = spec.ctor_kinds[n] = api_param_kinds(spec, n)
  impl.parse(f for f in glob.glob(os.path.join(repo, 'feedx', '*.py'))
             if not f.endswith('_test.py') and
             os.path.basename(f) != 'conftest.py')
  impl.set_contracts(contracts)
  impl.load_all()
  return impl, spec
