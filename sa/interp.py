"""Abstract interpreter: Python source (ast) -> canonical terms.

The analysed code is only parsed, never imported or executed.  Statements are
interpreted over symbolic parameters; branches are merged with `ite`, loops are
summarised by comprehension-like terms, calls to helpers are inlined and calls
to the public functions of the library are kept as opaque boundary calls.
"""
from __future__ import annotations

import ast
import os

from sa.terms import *   # noqa: F401,F403
from sa import terms as tm


class Unsupported(Exception):
  pass


class Ref:
  """A heap cell."""
  __slots__ = ('loc',)

  def __init__(self, loc):
    self.loc = loc


class Func:
  def __init__(self, node, module, qual, env=None, cls=None):
    self.node, self.module, self.qual = node, module, qual
    self.env = env            # enclosing frames (list of dicts) or None
    self.cls = cls
    self.kind = 'plain'       # plain, property, classmethod, staticmethod
    self.wrapped = None
    self.cached = False
    self.api = None           # boundary name, if it is one
    self.defaults = []
    self.kwdefaults = []
    self.bound = None

  def clone(self):
    f = Func(self.node, self.module, self.qual, self.env, self.cls)
    f.__dict__.update(self.__dict__)
    return f

  @property
  def args(self):
    return self.node.args


class Cls:
  def __init__(self, node, module, name):
    self.node, self.module, self.name = node, module, name
    self.members = {}         # name -> Val
    self.fields = []          # dataclass fields (name, ann, default expr|None, init)
    self.dataclass = False
    self.norepr = False
    self.hidden = set()       # fields that are not part of the repr
    self.api = None
    self.bases = []


class Module:
  def __init__(self, name, path, tree, spec=False):
    self.name, self.path, self.tree, self.spec = name, path, tree, spec
    self.env = {}
    self.short = name.split('.')[-1]


FUNS: list = []     # registry for fun / cls / module terms


def _reg(x):
  FUNS.append(x)
  return len(FUNS) - 1


def funval(f):
  return raw('fun', (), _reg(f))


LIBNAMES = {
    'numpy': 'np', 'pandas': 'pd', 'scipy': 'scipy', 'scipy.stats': 'stats',
    'datetime': 'dt', 'matplotlib.pyplot': 'plt', 'matplotlib': 'mpl',
    'matplotlib.ticker': 'mtick', 'matplotlib.lines': 'mlines',
    'numpy.typing': 'npt', 'tqdm.autonotebook': 'tqdm', 'tqdm.auto': 'tqdm',
    'tqdm': 'tqdm', 'tqdm.notebook': 'tqdm',
}


class St:
  """State of one path: environment of the current frame, heap, condition."""
  __slots__ = ('env', 'heap', 'pc', 'extra')

  def __init__(self, env, heap, pc, extra=TRUE):
    self.env, self.heap, self.pc, self.extra = env, heap, pc, extra

  def copy(self):
    return St(dict(self.env), dict(self.heap), self.pc, self.extra)


class Frame:
  def __init__(self, func, module, enclosing):
    self.func, self.module, self.enclosing = func, module, enclosing
    self.returns = []      # (rel guard, value T/Val, heap)
    self.loops = []        # loop control records
    self.globals_decl = set()
    self.nonlocals = set()


class Rec:
  """Recorder of raises, effects and mutations."""

  def __init__(self):
    self.raises = []    # (type, cond, (file, line))
    self.effects = []   # (cond, term, (file, line))
    self.muts = []      # (origin, cond, (file,line), what)

  def mark(self):
    return len(self.raises), len(self.effects), len(self.muts)


class Interp:
  MAXDEPTH = 40

  def __init__(self, program, lib, side, inline=frozenset(), root=None):
    self.p = program
    self.lib = lib
    self.side = side
    self.inline = inline
    self.root = root
    self.rec = Rec()
    self.src = {}
    self.nloc = [program.heap_next]
    self.origins = {}     # loc -> set of (param, mode)
    self.links = {}       # loc -> list of (Ref, projection)
    self.own = {}         # loc -> set of own column ids of a shallow copy
    self.depth = 0
    self.draws = {}
    self.cur = None
    self.calls = 0
    self.functions = set()
    self.callsites = 0
    self.gwrites = []         # writes to module-level state
    self.awrites = []         # writes to attributes
    self.notes = []
    self.draw_sites = []

  # ------------------------------------------------------------ cells
  def new(self, st, t, origins=None):
    loc = self.nloc[0]
    self.nloc[0] += 1
    st.heap[loc] = t
    if origins:
      self.origins[loc] = set(origins)
    return Ref(loc)

  def rd(self, st, v):
    if isinstance(v, Ref):
      return st.heap[v.loc]
    return v

  MUTABLE = ('list', 'dict', 'set', 'frame', 'series', 'array', 'index',
             'matrix', None)

  def wrap(self, st, v, origins=None):
    """Give a possibly mutable value its own cell."""
    if isinstance(v, Ref):
      return v
    k = kind(v)
    if k in self.MUTABLE or (k and k.startswith('obj:')) or origins:
      if v.op in ('fun', 'lib', 'cls', 'mod', 'lam', 'bool', 'num', 'str'):
        return v
      return self.new(st, v, origins)
    return v

  def org(self, v):
    if isinstance(v, Ref):
      return self.origins.get(v.loc)
    return None

  def write(self, st, ref, t, what, kind_='deep', col_=None):
    """In-place mutation of a cell."""
    if not isinstance(ref, Ref):
      return
    old = st.heap.get(ref.loc)
    if old is t:
      # still a write; contents equal
      pass
    st.heap[ref.loc] = t
    og = self.origins.get(ref.loc)
    if og and old is not t:
      for o, mode in og:
        if mode == 'shallow':
          if kind_ == 'bind':
            if col_ is not None:
              self.own.setdefault(ref.loc, set()).add(col_.id)
            continue
          if col_ is not None and col_.id in self.own.get(ref.loc, ()):
            continue
          if kind_ == 'meta':
            continue
        self.rec.muts.append((o, st.pc, self.where(), what))
    if ref.loc < self.p.heap_base and old is not t:
      self.gwrites.append((('loc', ref.loc), st.pc, t, self.where()))
    for base, get, put in self.links.get(ref.loc, ()):
      b = st.heap.get(base.loc)
      if b is None:
        continue
      if get(b) is old and old is not t:
        self.write(st, base, put(b, t), what)

  def link(self, ref, base, get, put):
    if isinstance(ref, Ref) and isinstance(base, Ref):
      self.links.setdefault(ref.loc, []).append((base, get, put))

  def where(self):
    fr = self.cur
    f = fr[0].module.path if fr else '?'
    return (f, fr[1] if fr else 0)

  # ------------------------------------------------------------ merging
  def merge_val(self, c, a, b):
    if a is b:
      return a
    if c is TRUE:
      return a
    if c is FALSE:
      return b
    ka, kb = a.op, b.op
    if ka in ('list', 'fmap', 'tolist') and kb in ('list', 'fmap', 'tolist') \
        or (ka == 'list' and kind(b) == 'list') or (
            kb == 'list' and kind(a) == 'list'):
      return tm.merge_lists(c, a, b)
    if ka == 'dict' and kb == 'dict' or (ka == 'dict' and a.a and
                                         a.a[0].op == 'dspread') or (
        kb == 'dict' and b.a and b.a[0].op == 'dspread'):
      r = self._merge_dict(c, a, b)
      if r is not None:
        return r
    if ka == 'set' and kb == 'set':
      sa, sb = set(x.id for x in a.a), set(x.id for x in b.a)
      common = [x for x in a.a if x.id in sb]
      ra = [x for x in a.a if x.id not in sb]
      rb = [x for x in b.a if x.id not in sa]
      segs = list(common)
      if ra:
        segs.append(tm.gseg(c, raw('list', ra)))
      if rb:
        segs.append(tm.gseg(not_(c), raw('list', rb)))
      return mkset(*segs)
    if ka == 'obj' and kb == 'obj' and a.d == b.d:
      return raw('obj', [self.merge_val(c, x, y) for x, y in zip(a.a, b.a)],
                 a.d)
    if ka == 'setattr' or kb == 'setattr':
      def base(x):
        while x.op == 'setattr':
          x = x.a[0]
        return x
      ba, bb = base(a), base(b)
      if ba is bb:
        names = set()
        for x in (a, b):
          while x.op == 'setattr':
            names.add(x.d)
            x = x.a[0]
        r = ba
        for n in sorted(names):
          r = tm.setattr_(r, n, self.merge_val(c, attr(a, n), attr(b, n)))
        return r
    if ka == 'tuple' and kb == 'tuple' and len(a.a) == len(b.a) and all(
        s.op not in ('spread', 'gseg') for s in a.a + b.a):
      return raw('tuple', [self.merge_val(c, x, y) for x, y in zip(a.a, b.a)])
    return ite(c, a, b)

  def _merge_dict(self, c, a, b):
    def ents(x):
      return list(x.a) if x.op == 'dict' else [raw('dspread', (x,))]
    ea, eb = ents(a), ents(b)
    n = 0
    while n < min(len(ea), len(eb)) and ea[n] is eb[n]:
      n += 1
    ra, rb = ea[n:], eb[n:]
    if n == 0 and ea and eb and (ea[0].op == 'dspread' or
                                 eb[0].op == 'dspread'):
      return None
    if any(s.op == 'dspread' for s in ra + rb):
      return None
    def trip(s):
      return (TRUE, s.a[0], s.a[1]) if s.op == 'kv' else s.a
    da = {s[1].id: s for s in map(trip, ra)}
    db = {s[1].id: s for s in map(trip, rb)}
    if len(da) != len(ra) or len(db) != len(rb):
      return None
    d = raw('dict', ea[:n])
    order = [trip(s)[1] for s in ra] + [trip(s)[1] for s in rb
                                        if trip(s)[1].id not in da]
    out = list(d.a)
    for k in order:
      sa_, sb_ = da.get(k.id), db.get(k.id)
      if sa_ and sb_:
        g = ite(c, sa_[0], sb_[0])
        v = self.merge_val(c, sa_[2], sb_[2])
      elif sa_:
        g, v = and_(c, sa_[0]), sa_[2]
      else:
        g, v = and_(not_(c), sb_[0]), sb_[2]
      out.append(tm.gkv(g, k, v))
    return raw('dict', out)

  def merge_states(self, c, s1, s2, extra_before, pc_before):
    env = {}
    heap = dict(s1.heap)
    for l, t2 in s2.heap.items():
      t1 = s1.heap.get(l)
      if t1 is None:
        heap[l] = t2
      elif t1 is not t2:
        heap[l] = self.merge_val(c, t1, t2)
    out = St(env, heap, pc_before, extra_before)
    for n in list(s1.env) + [n for n in s2.env if n not in s1.env]:
      v1, v2 = s1.env.get(n), s2.env.get(n)
      if v1 is None:
        env[n] = v2
      elif v2 is None:
        env[n] = v1
      elif v1 is v2 or (isinstance(v1, Ref) and isinstance(v2, Ref) and
                        v1.loc == v2.loc):
        env[n] = v1
      else:
        env[n] = self.merge_vals(c, v1, v2, s1, s2, out)
    return out

  def merge_vals(self, c, v1, v2, s1, s2, out):
    t1, t2 = self.rd(s1, v1), self.rd(s2, v2)
    t = self.merge_val(c, t1, t2)
    og = set(self.org(v1) or ()) | set(self.org(v2) or ())
    if isinstance(v1, Ref) or isinstance(v2, Ref):
      r = self.new(out, t, og)
      for v in (v1, v2):
        if isinstance(v, Ref) and v.loc in self.own:
          self.own.setdefault(r.loc, set()).update(self.own[v.loc])
      # in-place updates of the merged value reach the originals
      for v, g in ((v1, c), (v2, not_(c))):
        if isinstance(v, Ref):
          self._alias(r, v, g)
      return r
    return t

  def _alias(self, r, v, g):
    """r is v when g holds."""
    self.links.setdefault(r.loc, []).append(
        (v, lambda b: _Any, None) if False else
        (v, _alias_get(g), _alias_put(g)))

  # ------------------------------------------------------------ statements
  def exec_block(self, stmts, st, fr):
    for s in stmts:
      if st is None:
        return None
      st = self.exec_stmt(s, st, fr)
    return st

  def exec_stmt(self, s, st, fr):
    self.cur = (fr, getattr(s, 'lineno', 0))
    m = getattr(self, 'x_' + type(s).__name__, None)
    if m is None:
      raise Unsupported(type(s).__name__)
    return m(s, st, fr)

  def x_Pass(self, s, st, fr):
    return st

  def x_Import(self, s, st, fr):
    for a in s.names:
      if a.asname:
        st.env[a.asname] = self.import_module(a.name)
      else:
        st.env[a.name.split('.')[0]] = self.import_module(
            a.name.split('.')[0])
    return st

  def x_ImportFrom(self, s, st, fr):
    for a in s.names:
      n = a.asname or a.name
      mod = s.module or ''
      if s.level:
        mod = 'feedx' + ('.' + mod if mod else '')
      if mod == 'feedx' or mod.startswith('feedx.') or mod.startswith('spec'):
        full = mod + '.' + a.name
        if full in self.p.modules or mod == 'feedx':
          st.env[n] = raw('mod', (), 'feedx.' + a.name)
        else:
          st.env[n] = self.module_attr(mod, a.name, st)
      else:
        full = mod + '.' + a.name
        st.env[n] = raw('lib', (), canon_lib(full))
    return st

  def import_module(self, name):
    if name == 'feedx' or name.startswith('feedx.'):
      return raw('mod', (), name)
    return raw('lib', (), canon_lib(name))

  def module_attr(self, mod, name, st=None):
    if mod == 'feedx' and 'feedx.' + name in self.p.modules:
      return raw('mod', (), 'feedx.' + name)
    m = self.p.modules.get(mod)
    if m is None:
      return raw('unk', (), ('module', mod, name))
    self.p.load(m)
    v = m.env.get(name)
    if v is None:
      if 'feedx.' + name in self.p.modules:
        return raw('mod', (), 'feedx.' + name)
      return raw('unk', (), ('name', mod, name))
    return v

  def x_FunctionDef(self, s, st, fr):
    v = self.make_func(s, st, fr, s.name)
    st.env[s.name] = v
    return st

  def make_func(self, s, st, fr, name, cls=None):
    qual = (fr.func.qual + '.' + name) if fr.func else (
        (cls.name + '.' + name) if cls else name)
    f = Func(s, fr.module, qual, [st.env] + fr.enclosing if fr.func else None,
             cls)
    if fr.func:
      f.env = [EnvLink(self, st.env)] + fr.enclosing
    a = s.args
    f.defaults = [self.ev(d, st, fr) for d in a.defaults]
    f.kwdefaults = [self.ev(d, st, fr) if d is not None else None
                    for d in a.kw_defaults]
    if not fr.func:
      f.api = self.p.api_name(fr.module, qual)
    v = funval(f)
    for d in reversed(getattr(s, 'decorator_list', [])):
      v = self.decorate(d, v, st, fr)
    return v

  def decorate(self, d, v, st, fr):
    f = FUNS[v.d] if v.op == 'fun' else None
    dt = self.ev(d, st, fr)
    dt = self.rd(st, dt)
    if dt.op == 'lib' and f is not None:
      n = dt.d
      if n in ('property', 'classmethod', 'staticmethod'):
        f = f.clone()
        f.kind = n
        return funval(f)
      if n in ('functools.cached_property', 'cached_property'):
        f = f.clone()
        f.kind = 'property'
        f.cached = True
        return funval(f)
      if n in ('functools.lru_cache', 'functools.cache'):
        f = f.clone()
        f.cached = True
        return funval(f)
      if n in ('abc.abstractmethod', 'typing.override', 'np.vectorize_',
               'typing.no_type_check'):
        return v
    if dt.op == 'deco':
      kind_ = dt.d
      if kind_ == 'lru_cache':
        f = f.clone()
        f.cached = True
        return funval(f)
      if kind_ == 'wraps':
        g = f.clone()
        w = dt.a[0]
        if w.op == 'fun':
          g.wrapped = FUNS[w.d]
        return funval(g)
    r = self.call_value(dt, [v], {}, st, fr, d)
    r = self.rd(st, r)
    if r.op == 'fun':
      g = FUNS[r.d]
      if f is not None and f.api and g.api is None:
        g = g.clone()
        g.api = f.api
        if g.wrapped is None:
          g.wrapped = f
        r = funval(g)
    return r

  x_AsyncFunctionDef = x_FunctionDef

  def x_ClassDef(self, s, st, fr):
    c = Cls(s, fr.module, s.name)
    if not fr.func:
      c.api = self.p.api_name(fr.module, s.name)
    for b in s.bases:
      bt = self.rd(st, self.ev(b, st, fr))
      if bt.op == 'cls':
        c.bases.append(FUNS[bt.d])
    for b in c.bases:
      c.fields.extend(b.fields)
      c.dataclass = c.dataclass or b.dataclass
      c.hidden |= b.hidden
    frozen = False
    for d in s.decorator_list:
      dn = ast.unparse(d)
      if 'dataclass' in dn:
        c.dataclass = True
        c.norepr = isinstance(d, ast.Call) and any(
            k.arg == 'repr' and getattr(k.value, 'value', True) is False
            for k in d.keywords)
    v = raw('cls', (), _reg(c))
    st.env[s.name] = v
    sub = St(dict(st.env), st.heap, st.pc)
    cfr = Frame(None, fr.module, fr.enclosing)
    for b in s.body:
      if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
        c.members[b.name] = self.make_func(b, sub, cfr, b.name, c)
        f = c.members[b.name]
        if f.op == 'fun':
          FUNS[f.d].cls = c
        sub.env[b.name] = c.members[b.name]
      elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
        init = True
        default = None
        kw_only = False
        if b.value is not None:
          if isinstance(b.value, ast.Call) and ast.unparse(
              b.value.func).split('.')[-1] == 'field':
            for k in b.value.keywords:
              if k.arg == 'init':
                init = bool(getattr(k.value, 'value', True))
              elif k.arg == 'repr' and getattr(
                  k.value, 'value', True) is False:
                c.hidden.add(b.target.id)
              elif k.arg == 'default':
                default = self.ev(k.value, sub, cfr)
              elif k.arg == 'default_factory':
                default = ('factory', self.ev(k.value, sub, cfr))
          else:
            default = self.ev(b.value, sub, cfr)
        c.fields = [f for f in c.fields if f[0] != b.target.id]
        c.fields.append((b.target.id, b.annotation, default, init))
        if default is not None and not isinstance(default, tuple):
          c.members[b.target.id] = default
        k, o = self.p.ann_kind(b.annotation, fr.module)
        self.attr_kind(c.name, b.target.id, (k, o))
      elif isinstance(b, ast.Assign):
        val = self.ev(b.value, sub, cfr)
        for t in b.targets:
          if isinstance(t, ast.Name):
            c.members[t.id] = val
            sub.env[t.id] = val
      elif isinstance(b, ast.Expr):
        pass
      elif isinstance(b, (ast.Pass,)):
        pass
    for n, mv in c.members.items():
      if isinstance(mv, T) and mv.op == 'fun':
        f = FUNS[mv.d]
        if f.kind == 'property' and f.node.returns is not None:
          self.attr_kind(c.name, n, self.p.ann_kind(f.node.returns,
                                                    fr.module))
    return st

  def attr_kind(self, cls, name, k):
    """Declared type of an attribute; the reference's declaration wins."""
    if self.side == 'spec':
      tm._ATTRKIND[(cls, name)] = k
    else:
      tm._ATTRKIND.setdefault((cls, name), k)

  def x_Expr(self, s, st, fr):
    if isinstance(s.value, ast.Constant):
      return st
    self.stmt_expr = s.value
    self.ev(s.value, st, fr)
    return st

  def x_Assign(self, s, st, fr):
    v = self.ev(s.value, st, fr)
    for t in s.targets:
      self.assign(t, v, st, fr)
    return st

  def x_AnnAssign(self, s, st, fr):
    if s.value is not None:
      self.assign(s.target, self.ev(s.value, st, fr), st, fr)
    return st

  def assign(self, t, v, st, fr):
    if isinstance(t, ast.Name):
      if t.id in fr.nonlocals or t.id in fr.globals_decl:
        self.set_outer(t.id, v, st, fr)
        return
      st.env[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
      c = self.rd(st, v)
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      n = len(t.elts)
      for i, e in enumerate(t.elts):
        if isinstance(e, ast.Starred):
          hi = i - n + 1
          x = getitem(c, raw('slice', (num(i), num(hi) if hi else NONE,
                                       NONE)))
          self.assign(e.value, self.wrap(st, x), st, fr)
          continue
        j = i if not star or i < star[0] else i - n
        x = self.unpack_item(c, j, n)
        self.assign(e, self.wrap(st, x, self.org(v)), st, fr)
    elif isinstance(t, ast.Attribute):
      o = self.ev(t.value, st, fr)
      self.set_attr(o, t.attr, v, st, fr)
    elif isinstance(t, ast.Subscript):
      o = self.ev(t.value, st, fr)
      self.set_item(o, t, v, st, fr)
    else:
      raise Unsupported('assign target')

  def unpack_item(self, c, j, n):
    if kind(c) == 'dict':
      return getitem(keys(c), num(j))
    return getitem(c, num(j))

  def set_outer(self, name, v, st, fr):
    for e in fr.enclosing:
      if isinstance(e, EnvLink):
        if name in e.env:
          e.env[name] = v
          return
    cell = ('name', fr.module.short, name)
    self.gwrites.append((cell, st.pc, self.rd(st, v), self.where()))
    self.p.undo.append((fr.module.env, name, fr.module.env.get(name)))
    fr.module.env[name] = v

  def x_AugAssign(self, s, st, fr):
    t = s.target
    rhs = self.ev(s.value, st, fr)
    if isinstance(t, ast.Name):
      cur = self.ev(ast.Name(id=t.id, ctx=ast.Load(), lineno=s.lineno,
                             col_offset=0), st, fr)
      c = self.rd(st, cur)
      r = self.binop(s.op, c, self.rd(st, rhs), st)
      k = kind(c)
      if isinstance(cur, Ref) and (k in ('list', 'dict', 'set', 'array',
                                         'series', 'frame', 'matrix', 'index')
                                   or (k is None and self.org(cur))):
        if k == 'list' and isinstance(s.op, ast.Add):
          r = lconcat(c, tolist(self.rd(st, rhs)))
        self.write(st, cur, r, f'{t.id} is updated in place')
      else:
        self.assign(t, self.wrap(st, r) if k in self.MUTABLE else r, st, fr)
    elif isinstance(t, ast.Attribute):
      o = self.ev(t.value, st, fr)
      cur = self.get_attr(o, t.attr, st, fr)
      r = self.binop(s.op, self.rd(st, cur), self.rd(st, rhs), st)
      self.set_attr(o, t.attr, r, st, fr)
    elif isinstance(t, ast.Subscript):
      o = self.ev(t.value, st, fr)
      cur = self.subscript(o, t, st, fr)
      r = self.binop(s.op, self.rd(st, cur), self.rd(st, rhs), st)
      self.set_item(o, t, r, st, fr, aug=True)
    return st

  def x_Delete(self, s, st, fr):
    for t in s.targets:
      if isinstance(t, ast.Name):
        st.env.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        o = self.ev(t.value, st, fr)
        c = self.rd(st, o)
        k = self.rd(st, self.ev(t.slice, st, fr))
        if kind(c) == 'dict' or c.op == 'dict':
          self.write(st, o, tm.ddel(c, k), 'an entry is deleted')
        else:
          self.write(st, o, raw('call', (c, tm.lst(k)),
                                ('.drop', ('columns',))), 'deleted')
      elif isinstance(t, ast.Attribute):
        o = self.ev(t.value, st, fr)
        self.write(st, o, raw('delattr', (self.rd(st, o),), t.attr), 'del')
    return st

  def x_Return(self, s, st, fr):
    v = self.ev(s.value, st, fr) if s.value is not None else NONE
    fr.returns.append((st, v))
    return None

  def x_Raise(self, s, st, fr):
    typ = 'Exception'
    if s.exc is None:
      typ = 'reraise'
    else:
      e = s.exc
      f = e.func if isinstance(e, ast.Call) else e
      n = ast.unparse(f).split('.')[-1]
      v = None
      if not (isinstance(f, ast.Name) and f.id in BUILTIN_EXC):
        v = self.rd(st, self.ev(e, st, fr))
        if v.op == 'excval':
          n = v.d
        elif v.op in ('obj', 'new'):
          n = self.exc_base(kind(v)[4:])
      typ = n
    self.rec.raises.append((typ, st.pc, (fr.module.path, s.lineno)))
    return None

  def exc_base(self, n):
    """Built-in exception a class of the library derives from."""
    c = self.p.classes.get((self.side, n))
    seen = set()
    while c is not None and c.name not in seen:
      seen.add(c.name)
      for b in c.node.bases:
        bn = ast.unparse(b).split('.')[-1]
        if bn in BUILTIN_EXC:
          return bn
        c2 = self.p.classes.get((self.side, bn))
        if c2 is not None:
          c = c2
          break
      else:
        break
    return n

  def x_Assert(self, s, st, fr):
    c = self.cond(s.test, st, fr)
    self.rec.raises.append(('AssertionError', and_(st.pc, not_(c)),
                            (fr.module.path, s.lineno)))
    return st

  def x_Global(self, s, st, fr):
    fr.globals_decl.update(s.names)
    return st

  def x_Nonlocal(self, s, st, fr):
    fr.nonlocals.update(s.names)
    return st

  def cond(self, e, st, fr):
    return truth(self.rd(st, self.ev(e, st, fr)))

  def x_If(self, s, st, fr):
    c = self.cond(s.test, st, fr)
    return self.branch(c, lambda a: self.exec_block(s.body, a, fr),
                       lambda b: self.exec_block(s.orelse, b, fr), st, fr)

  def branch(self, c, then, els, st, fr):
    if c is TRUE:
      return then(st)
    if c is FALSE:
      return els(st)
    # conditions already decided by the path
    dec = path_decides(st.pc, c)
    if dec is not None:
      return then(st) if dec else els(st)
    s1, s2 = st.copy(), st.copy()
    s1.pc, s2.pc = and_(st.pc, c), and_(st.pc, not_(c))
    s1.extra = s2.extra = TRUE
    nr = self.exits(fr)
    r1 = then(s1)
    n1 = self.exits(fr)
    r2 = els(s2)
    n2 = self.exits(fr)
    ret1, ret2 = n1 > nr, n2 > n1
    if r1 is None and r2 is None:
      return None
    if r1 is None:
      x = r2.extra if not ret1 else and_(not_(c), r2.extra)
      out = r2
    elif r2 is None:
      x = r1.extra if not ret2 else and_(c, r1.extra)
      out = r1
    else:
      x = or_(and_(c, r1.extra), and_(not_(c), r2.extra)) if not (
          r1.extra is TRUE and r2.extra is TRUE) else TRUE
      out = self.merge_states(c, r1, r2, TRUE, TRUE)
    out.pc = and_(st.pc, x)
    out.extra = and_(st.extra, x)
    return out

  def exits(self, fr):
    return len(fr.returns) + sum(len(l['break']) + len(l['continue'])
                                 for l in fr.loops)

  def x_Match(self, s, st, fr):
    subj = self.ev(s.subject, st, fr)
    t = self.rd(st, subj)

    def pat(p, t, binds):
      if isinstance(p, ast.MatchValue):
        return eq(t, self.rd(st, self.ev(p.value, st, fr)))
      if isinstance(p, ast.MatchSingleton):
        return eq(t, const(p.value)) if p.value is not None else isnone(t)
      if isinstance(p, ast.MatchOr):
        return or_(*[pat(q, t, binds) for q in p.patterns])
      if isinstance(p, ast.MatchAs):
        if p.name:
          binds[p.name] = t
        return pat(p.pattern, t, binds) if p.pattern else TRUE
      if isinstance(p, ast.MatchSequence) and t.op in ('tuple', 'list') and \
          len(p.patterns) == len(t.a):
        return and_(*[pat(q, x, binds) for q, x in zip(p.patterns, t.a)])
      return raw('unk', (t,), ('match', ast.dump(p)))

    def run(cases, st):
      if not cases:
        return st
      cse = cases[0]
      binds = {}
      c = pat(cse.pattern, t, binds)
      for n, v in binds.items():
        st.env[n] = v
      if cse.guard is not None:
        c = and_(c, self.cond(cse.guard, st, fr))
      return self.branch(c, lambda a: self.exec_block(cse.body, a, fr),
                         lambda b: run(cases[1:], b), st, fr)
    return run(s.cases, st)

  def x_With(self, s, st, fr):
    for it in s.items:
      v = self.ev(it.context_expr, st, fr)
      if it.optional_vars is not None:
        self.assign(it.optional_vars, v, st, fr)
    return self.exec_block(s.body, st, fr)

  def x_Try(self, s, st, fr):
    if not s.handlers:
      out = self.exec_block(s.body, st, fr)
      if s.orelse and out is not None:
        out = self.exec_block(s.orelse, out, fr)
      # the finally block also runs on early exits; returned values were
      # computed before, so run it on every state that left the body
      if s.finalbody:
        if out is not None:
          out = self.exec_block(s.finalbody, out, fr)
        for rs, _v in fr.returns:
          if rs is not out:
            self.exec_block(s.finalbody, rs, fr)
      return out
    mark = len(self.rec.raises)
    pre = st.copy()
    out = self.exec_block(s.body, st, fr)
    raised = self.rec.raises[mark:]
    del self.rec.raises[mark:]
    rest = []
    caught = FALSE
    names = []
    for h in s.handlers:
      if h.type is None:
        names.append(None)
      else:
        els = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names.extend(ast.unparse(e).split('.')[-1] for e in els)
    unk_ = raw('trycatch', (), (fr.module.path, fr.func.qual if fr.func else
                                '', len(raised)))
    for typ, c, w in raised:
      if typ in names or None in names or 'Exception' in names:
        caught = or_(caught, c)
      else:
        rest.append((typ, c, w))
    self.rec.raises.extend(rest)
    can_implicit = True
    c = caught
    if can_implicit:
      c = or_(c, unk_) if not raised else c
    pre.pc = and_(pre.pc, c)
    pre.extra = TRUE
    h = s.handlers[0]
    if h.name:
      pre.env[h.name] = raw('excval', (), names[0])
    r2 = self.exec_block(h.body, pre, fr)
    if s.orelse and out is not None:
      out = self.exec_block(s.orelse, out, fr)
    if out is None:
      res = r2
    elif r2 is None:
      res = out
    else:
      res = self.merge_states(c, r2, out, out.extra, out.pc)
    if res is not None and s.finalbody:
      res = self.exec_block(s.finalbody, res, fr)
    return res

  # ------------------------------------------------------------ loops
  def segments(self, it):
    """Iteration plan: ('elem', guard, T) | ('dom', levels, guard, T)."""
    if it.op == 'items':
      d = it.a[0]
      if tm.merged(d):
        return [q[:-1] + (tup(q[-1], tm.dget(d, q[-1])),)
                for q in self.segments(keys(d))]
      if d.op == 'dict':
        out = []
        for s in d.a:
          if s.op == 'kv':
            out.append(('elem', TRUE, tup(*s.a)))
          elif s.op == 'gkv':
            out.append(('elem', s.a[0], tup(s.a[1], s.a[2])))
          else:
            out.extend(self.segments(raw('items', s.a)))
        return out
      if d.op == 'dmap':
        v = fresh('i', 'int')
        g, k, x = tm.open_(d.d, v, *d.a[1:])
        return [('dom', [(d.a[0], v)], g, tup(k, x))]
      if d.op == 'ite':
        pass
      v = fresh('i', 'int')
      kk = keys(d)
      k = getitem(kk, v)
      return [('dom', [(length(kk), v)], TRUE, tup(k, tm.dget(d, k)))]
    if it.op == 'enumerate':
      x, start = it.a
      segs = self.segments(x)
      if all(s[0] == 'elem' and s[1] is TRUE for s in segs):
        return [('elem', TRUE, tup(add(start, num(i)), s[2]))
                for i, s in enumerate(segs)]
      n, f = tm.domain(x)
      v = fresh('i', 'int')
      return [('dom', [(n, v)], TRUE, tup(add(start, v), f(v)))]
    if it.op == 'zip':
      ss = [self.segments(x) for x in it.a]
      if all(s[0] == 'elem' and s[1] is TRUE for q in ss for s in q):
        return [('elem', TRUE, tup(*[s[2] for s in row]))
                for row in zip(*ss)]
      doms = [tm.domain(x) for x in it.a]
      n = doms[0][0]
      for d in doms[1:]:
        if d[0] is not n:
          a, b = n, d[0]
          if b.op == 'inf':
            continue
          n = ite(lt(b, a), b, a)
      v = fresh('i', 'int')
      return [('dom', [(n, v)], TRUE, tup(*[d[1](v) for d in doms]))]
    if it.op == 'product':
      plans = [self.segments(x) for x in it.a]
      def go(i):
        if i == len(plans):
          return [([], TRUE, [])]
        out = []
        for s in plans[i]:
          if s[0] == 'elem':
            lv, g, e = [], s[1], s[2]
          else:
            lv, g, e = s[1], s[2], s[3]
          for lv2, g2, e2 in go(i + 1):
            out.append((lv + lv2, and_(g, g2), [e] + e2))
        return out
      res = []
      for lv, g, e in go(0):
        if lv:
          res.append(('dom', lv, g, tup(*e)))
        else:
          res.append(('elem', g, tup(*e)))
      return res
    if it.op in ('list', 'tuple', 'set'):
      out = []
      for s in it.a:
        if s.op == 'spread':
          out.extend(self.segments(s.a[0]))
        elif s.op == 'gseg':
          for q in self.segments(s.a[1]):
            if q[0] == 'elem':
              out.append(('elem', and_(s.a[0], q[1]), q[2]))
            else:
              out.append(('dom', q[1], and_(s.a[0], q[2]), q[3]))
        else:
          out.append(('elem', TRUE, s))
      return out
    if it.op == 'fmap':
      v = fresh('i', 'int')
      g, b = tm.open_(it.d, v, it.a[1], it.a[2])
      out = []
      for q in self.segments(b):
        if q[0] == 'elem':
          out.append(('dom', [(it.a[0], v)], and_(g, q[1]), q[2]))
        else:
          out.append(('dom', [(it.a[0], v)] + q[1], and_(g, q[2]), q[3]))
      if len(out) == 1:
        return out
      if out and len(b.a) > 1:
        n, f = tm.domain(it)
        v = fresh('i', 'int')
        return [('dom', [(n, v)], TRUE, raw('getitem', (it, v)))]
      return out
    if it.op == 'dmap' or (kind(it) == 'dict' and it.op != 'ite'):
      return self.segments(keys(it))
    if it.op == 'tolist':
      return self.segments(it.a[0])
    e = tm.elements(it)
    if e is not None:
      return [('elem', g, x) for g, x in e]
    if it.op == 'ite' and kind(it) in ('list', 'dict', 'set', 'tuple', None):
      out = []
      for g, x in ((it.a[0], it.a[1]), (not_(it.a[0]), it.a[2])):
        for q in self.segments(x):
          if q[0] == 'elem':
            out.append(('elem', and_(g, q[1]), q[2]))
          else:
            out.append(('dom', q[1], and_(g, q[2]), q[3]))
      return out
    n, f = tm.domain(it)
    v = fresh('i', 'int')
    return [('dom', [(n, v)], TRUE, f(v))]

  def x_For(self, s, st, fr):
    it = self.rd(st, self.ev(s.iter, st, fr))
    it_ref = None
    segs = self.segments(it)
    if len(segs) > 200:
      raise Unsupported('long unroll')
    return self.run_loop(segs, s, st, fr)

  def run_loop(self, segs, s, st, fr):
    loop = {'break': [], 'continue': []}
    fr.loops.append(loop)
    base_pc = st.pc
    breaks = []
    cur = st
    for q in segs:
      if cur is None:
        break
      if q[0] == 'elem':
        loop['break'], loop['continue'] = [], []

        def body(a):
          nc = len(loop['continue'])
          self.assign(s.target, self.wrap(a, q[2]), a, fr)
          r = self.exec_block(s.body, a, fr)
          for cs in loop['continue'][nc:]:
            r = self.join(r, cs, a)
          del loop['continue'][nc:]
          return r
        start_pc = cur.pc
        cur = self.branch(q[1], body, lambda b: b, cur, fr)
        for b in loop['break']:
          breaks.append(b)
        loop['break'] = []
      else:
        cur = self.sym_loop(q, s, cur, fr, loop, breaks)
    fr.loops.pop()
    if s.orelse and cur is not None:
      cur = self.exec_block(s.orelse, cur, fr)
    for b in reversed(breaks):
      cur = self.join(cur, b, None)
    if cur is not None:
      cur.pc = base_pc if not fr.returns or True else cur.pc
      if cur.extra is not TRUE and breaks:
        pass
    return cur

  def join(self, a, b, _):
    """Join two disjoint exits a, b of the same region."""
    if a is None:
      return b
    if b is None:
      return a
    c = b.pc
    out = self.merge_states(c, b, a, a.extra, or_(a.pc, b.pc))
    out.extra = or_(a.extra, b.extra)
    return out

  def x_Break(self, s, st, fr):
    fr.loops[-1]['break'].append(st)
    return None

  def x_Continue(self, s, st, fr):
    fr.loops[-1]['continue'].append(st)
    return None

  def assigned_names(self, body):
    out = set()
    for b in body:
      for n in ast.walk(b):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
          out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
          out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
          for a in n.names:
            out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Delete):
          pass
    return out

  def sym_loop(self, q, s, st, fr, loop, breaks):
    _, levels, guard, elem = q
    names = [n for n in self.assigned_names(s.body) if n in st.env]
    tgt = self.assigned_names([s.target]) if not isinstance(
        s.target, ast.Name) else {s.target.id}
    names = sorted(n for n in names if n not in tgt)

    def run(locs):
      a = st.copy()
      a.pc, a.extra = guard, TRUE
      lcs = {}
      for n in names:
        v = st.env[n]
        if isinstance(v, Ref) and v.loc in locs:
          continue
        t0 = self.rd(st, v)
        lc = fresh('lc_' + n, kind(t0))
        lcs[('env', n)] = (lc, t0)
        a.env[n] = lc if not isinstance(v, Ref) else self.new(a, lc,
                                                              self.org(v))
      for l in locs:
        t0 = st.heap[l]
        lc = fresh('lc', kind(t0))
        lcs[('loc', l)] = (lc, t0)
        a.heap[l] = lc
      mark = self.rec.mark()
      nret = len(fr.returns)
      loop['break'], loop['continue'] = [], []
      self.assign(s.target, self.wrap(a, elem), a, fr)
      r = self.exec_block(s.body, a, fr)
      for cs in loop['continue']:
        r = self.join(r, cs, None)
      brk = loop['break']
      loop['break'], loop['continue'] = [], []
      rs = self.rec.raises[mark[0]:]
      ef = self.rec.effects[mark[1]:]
      mu = self.rec.muts[mark[2]:]
      del self.rec.raises[mark[0]:]
      del self.rec.effects[mark[1]:]
      del self.rec.muts[mark[2]:]
      rets = fr.returns[nret:]
      del fr.returns[nret:]
      return a, r, lcs, rs, ef, mu, rets, brk

    locs = set()
    for _ in range(4):
      a, r, lcs, rs, ef, mu, rets, brk = run(sorted(locs))
      changed = set()
      for x in [r] + brk + [e[0] for e in rets]:
        if x is None:
          continue
        for l, t0 in st.heap.items():
          exp = lcs[('loc', l)][0] if ('loc', l) in lcs else t0
          if x.heap.get(l) is not exp:
            changed.add(l)
      if changed <= locs:
        break
      locs |= changed
    out = st.copy()
    lcids = frozenset(lc.id for lc, _ in lcs.values())
    vs = [v for _, v in levels]

    def lcfree(t):
      return not (t.fv & lcids)

    # values at the end of one iteration
    brk_c = FALSE
    end = r
    for b in brk:
      brk_c = or_(brk_c, b.pc)
      end = self.join(end, b, None)
    new = {}
    for key, (lc, t0) in lcs.items():
      if end is None:
        new[key] = lc
      elif key[0] == 'env':
        v = end.env.get(key[1])
        new[key] = self.rd(end, v) if v is not None else lc
      else:
        new[key] = end.heap.get(key[1], lc)
      # paths of one iteration that do not pass the guard leave lc unchanged
    res = {}
    hard = []
    for key, (lc, t0) in lcs.items():
      v1 = new[key]
      x = self.summarise(t0, lc, v1, levels, guard, lcfree, brk_c)
      if x is None:
        hard.append(key)
      else:
        res[key] = x
    if hard:
      hl = [lcs[k] for k in hard]
      # order canonical by content
      body = [ite(guard, new[k], lcs[k][0]) if guard is not TRUE else new[k]
              for k in hard]
      # other carried values appear inside: close over all of them
      extra = [k for k in lcs if k not in hard and any(
          lcs[k][0].id in b.fv for b in body)]
      allk = hard + extra
      body = [new[k] for k in allk] + [guard, brk_c]
      binders = [lcs[k][0] for k in allk] + vs
      kbase = 1 + max(b.bvmax for b in body)
      m = {}
      for i, b in enumerate(binders):
        m[b] = bv(kbase + i)
      nb = [tm.subst(b, m) for b in body]
      ns = [tm.subst(n, m) for n, _ in levels]
      inits = [lcs[k][1] for k in allk]
      f = raw('foldv', inits + ns + nb, (kbase, len(allk), len(levels)))
      for i, k in enumerate(hard):
        res[k] = raw('nth', (f,), i)
        _set_kind(res[k], kind(lcs[k][1]))
    for key, x in res.items():
      if key[0] == 'env':
        v = st.env[key[1]]
        if isinstance(v, Ref):
          out.env[key[1]] = self.new(out, x, self.org(v))
        else:
          out.env[key[1]] = x
      else:
        out.heap[key[1]] = x
    # names first bound inside the loop: last iteration's value
    if end is not None:
      for n, v in end.env.items():
        if n not in st.env:
          t = self.rd(end, v)
          if t.fv & (lcids | frozenset(x.id for x in vs)):
            m = {vv: sub(n_, ONE) for n_, vv in levels}
            t2 = tm.subst(t, m)
            t = t2 if lcfree(t2) else raw('unk', (), ('last', n))
          out.env[n] = self.wrap(out, t)

    def quant(g):
      for n, v in reversed(levels):
        g = exists(n, v, g)
      return g
    nobreak = brk_c is FALSE
    for typ, c, w in rs:
      if not lcfree(c):
        c = raw('unk', (), ('raise-in-loop', w))
        self.rec.raises.append((typ, and_(st.pc, c), w))
      else:
        self.rec.raises.append((typ, and_(st.pc, quant(c)), w))
    for c, e, w in ef:
      tms = [c, e]
      k = None
      n_l = []
      cc, ee = c, e
      for n, v in reversed(levels):
        k, (cc, ee) = tm.close(v, cc, ee)
        ee = raw('foreach', (n, cc, ee), k)
        cc = TRUE
      self.rec.effects.append((st.pc, ee, w))
    for o, c, w, what in mu:
      self.rec.muts.append((o, and_(st.pc, quant(c) if lcfree(c) else c), w,
                            what))
    if rets:
      g = or_(*[x[0].pc for x in rets])
      val = self.rd(rets[-1][0], rets[-1][1])
      for rs_, rv in reversed(rets[:-1]):
        val = ite(rs_.pc, self.rd(rs_, rv), val)
      if lcfree(g) and lcfree(val):
        ex = quant(g)
        if not (val.fv & frozenset(x.id for x in vs)):
          fv_ = val
        else:
          fv_ = val
          gg = g
          for n, v in reversed(levels):
            k, (gg2, vv) = tm.close(v, gg, fv_)
            fv_ = tm.first(k, n, gg2, vv)
            gg = exists(n, v, gg)
      else:
        ex = raw('unk', (), ('return-in-loop', s.lineno))
        fv_ = raw('unk', (), ('return-in-loop', s.lineno))
      rst = out.copy()
      rst.pc = and_(st.pc, ex)
      rst.extra = and_(st.extra, ex)
      fr.returns.append((rst, fv_))
      out.pc = and_(st.pc, not_(ex))
      out.extra = and_(st.extra, not_(ex))
    if brk and any(not lcfree(b.pc) for b in brk):
      self.notes.append(('break', s.lineno))
    return out

  def summarise(self, v0, lc, v1, levels, guard, lcfree, brk):
    """Closed form of a loop-carried value, or None."""
    if v1 is lc:
      return v0
    hasbrk = brk is not FALSE

    def quant(g):
      for n, v in reversed(levels):
        g = exists(n, v, g)
      return g

    def free(t):
      return lcfree(t) and not any(v.id in t.fv for _, v in levels)
    # flag:  x = K if c
    if v1.op == 'ite':
      c, a, b = v1.a
      for cc, x, y in ((c, a, b), (not_(c), b, a)):
        if y is lc and free(x) and lcfree(cc):
          if not hasbrk or True:
            return ite(quant(and_(guard, cc)), x, v0)
    if kind(v1) == 'bool':
      if v1.op == 'or' and lc in v1.a:
        rest = or_(*[x for x in v1.a if x is not lc])
        if lcfree(rest):
          return or_(v0, quant(and_(guard, rest)))
      if v1.op == 'and' and lc in v1.a:
        rest = and_(*[x for x in v1.a if x is not lc])
        if lcfree(rest):
          return and_(v0, not_(quant(and_(guard, not_(rest)))))
      if v1 in (TRUE, FALSE):
        return ite(quant(guard), v1, v0)
    if hasbrk:
      return None
    if free(v1):
      return ite(quant(guard), v1, v0)
    if v1.op in ('list', 'gseg') and v1.a and v1.a[0].op == 'spread' and \
        v1.a[0].a[0] is lc:
      rest = v1.a[1:]
      if all(lcfree(x) for x in rest):
        body = raw('list', rest)
        g = guard
        for n, v in reversed(levels):
          body = fmap(n, v, g, body)
          g = TRUE
        return lconcat(v0, body)
    if v1.op == 'dict' and v1.a and v1.a[0].op == 'dspread' and \
        v1.a[0].a[0] is lc:
      rest = v1.a[1:]
      if all(lcfree(x) for x in rest) and len(levels) == 1:
        d = v0
        n, v = levels[0]
        for e in rest:
          g, k, x = (TRUE, e.a[0], e.a[1]) if e.op == 'kv' else e.a \
              if e.op == 'gkv' else (None, None, None)
          if g is None:
            return None
          d = tm.dmerge(d, dmap(n, v, and_(guard, g), k, x))
        return d
    if v1.op == 'set':
      sp = [x for x in v1.a if x.op == 'spread' and x.a[0] is lc]
      rest = [x for x in v1.a if not (x.op == 'spread' and x.a[0] is lc)]
      if sp and all(lcfree(x) for x in rest):
        body = raw('list', rest)
        g = guard
        for n, v in reversed(levels):
          body = fmap(n, v, g, body)
          g = TRUE
        return mkset(raw('spread', (v0,)), raw('spread', (body,)))
    if v1.op == 'poly' or v1.op == 'ite':
      d = None
      if v1.op == 'poly':
        d = sub(v1, lc)
      elif v1.op == 'ite' and lc in v1.a[1:]:
        c, a, b = v1.a
        if b is lc:
          d = ite(c, sub(a, lc), ZERO)
        else:
          d = ite(c, ZERO, sub(b, lc))
      if d is not None and lcfree(d) and len(levels) == 1:
        n, v = levels[0]
        return add(v0, isum(n, v, ite(guard, d, ZERO)))
    # data frame columns rewritten one by one
    if v1.op == 'ite' and lc in v1.a[1:] and lcfree(v1.a[0]):
      c, a, b = v1.a
      if a is lc:
        c, a = not_(c), b
      if a.op == 'setcol':
        v1, guard = a, and_(guard, c)
    base, chain = v1, []
    while base.op == 'setcol':
      chain.append((base.a[1], base.a[2]))
      base = base.a[0]
    if base is lc and chain and len(levels) == 1:
      n, v = levels[0]
      if len(chain) == 1:
        k, x = chain[0]
        if v.id in k.fv:
          if x.op == 'ite' and lcfree(x.a[0]) and col(lc, k) in x.a[1:]:
            c, a, b = x.a
            guard, x = (and_(guard, c), a) if b is col(lc, k) else (
                and_(guard, not_(c)), b)
          own = fresh('own')
          x2 = replace_term(x, col(lc, k), own)
          if lcfree(x2):
            kk, (g2, k2, x3, o2) = tm.close(v, guard, k, x2, own)
            x3 = tm.subst(x3, {own: raw('owncol')})
            return raw('mapcols', (v0, n, g2, k2, x3), kk)
        elif x.op == 'where' and x.a[2] is col(lc, k) and lcfree(x.a[0]) \
            and lcfree(x.a[1]):
          kk, (g2, m2, x3) = tm.close(v, guard, x.a[0], x.a[1])
          return setcol(v0, k, raw('maskfill', (col(v0, k), n, g2, m2, x3),
                                   kk))
    return None

  def x_While(self, s, st, fr):
    # counter loops:  while i < n: ...; i += 1
    names = sorted(n for n in self.assigned_names(s.body) if n in st.env)
    test = s.test
    for n in names:
      v0 = self.rd(st, st.env[n])
      if kind(v0) not in ('int', 'num'):
        continue
      probe = st.copy()
      lc = fresh('w_' + n, 'int')
      probe.env[n] = lc
      for o in names:
        if o != n:
          probe.env[o] = fresh('wo_' + o, kind(self.rd(st, st.env[o])))
      mark = self.rec.mark()
      c = self.cond(test, probe, fr)
      # condition must be lc < B
      p = None
      lit, pos = (c.a[0], False) if c.op == 'not' else (c, True)
      if lit.op != 'lt0':
        continue
      p = lit.a[0]
      d = sub(p, lc)
      if lc.id not in d.fv and pos:
        bound = neg(d)              # lc + d < 0  => lc < -d
      else:
        d = add(p, lc)
        if lc.id in d.fv or pos:
          continue
        # not(d - lc < 0) => lc <= d
        bound = add(d, ONE)
      if any(x.id in bound.fv for x in
             [probe.env[o] for o in names if o != n]):
        continue
      # the increment must be the last statement and unconditional
      incs = [b for b in s.body if isinstance(b, ast.AugAssign) and
              isinstance(b.target, ast.Name) and b.target.id == n and
              isinstance(b.op, ast.Add) and
              isinstance(b.value, ast.Constant) and b.value.value == 1]
      incs += [b for b in s.body if isinstance(b, ast.Assign) and
               len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and
               b.targets[0].id == n and
               ast.unparse(b.value) in (f'{n} + 1', f'1 + {n}')]
      others = [x for b in s.body if b not in incs for x in ast.walk(b)
                if isinstance(x, ast.Name) and x.id == n and
                isinstance(x.ctx, ast.Store)]
      if len(incs) != 1 or others or any(
          isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)):
        continue
      if s.body[-1] is not incs[0]:
        # an earlier increment: later statements see i + 1
        k = s.body.index(incs[0])
        class Shift(ast.NodeTransformer):
          def visit_Name(self, x):
            if x.id == n and isinstance(x.ctx, ast.Load):
              return ast.copy_location(ast.BinOp(
                  left=x, op=ast.Add(), right=ast.Constant(value=1)), x)
            return x
        import copy
        tail = [ast.fix_missing_locations(Shift().visit(copy.deepcopy(b)))
                for b in s.body[k + 1:]]
        body = s.body[:k] + tail
      else:
        body = s.body[:-1]
      cnt = sub(bound, v0)
      if tm._nonneg(cnt) is False:
        cnt = ite(lt0(cnt), ZERO, cnt) if cnt.op != 'num' else (
            cnt if cnt.d > 0 else ZERO)
      fake = ast.For(target=ast.Name(id=n, ctx=ast.Store()),
                     iter=s.test, body=body, orelse=s.orelse)
      ast.copy_location(fake, s)
      rng = raw('range', (v0, bound, ONE))
      out = self.run_loop(self.segments(rng), fake, st, fr)
      if out is not None:
        out.env[n] = ite(lt(v0, bound), bound, v0)
      return out
    # unmodelled loop
    mark = self.rec.mark()
    a = st.copy()
    uid = ('while', s.lineno)
    for n in names:
      a.env[n] = raw('unk', (), uid + (n,))
    fr.loops.append({'break': [], 'continue': []})
    nret = len(fr.returns)
    self.exec_block(s.body, a, fr)
    fr.loops.pop()
    for l, t in a.heap.items():
      if l in st.heap and st.heap[l] is not t:
        st.heap[l] = raw('unk', (), uid + (l,))
    for n in names:
      st.env[n] = raw('unk', (), uid + (n,))
    for i in range(nret, len(fr.returns)):
      fr.returns[i] = (fr.returns[i][0], raw('unk', (), uid))
    for i in range(mark[0], len(self.rec.raises)):
      t, c, w = self.rec.raises[i]
      self.rec.raises[i] = (t, and_(c, raw('unk', (), uid + (i,))), w)
    return st

  # ------------------------------------------------------------ expressions
  def ev(self, e, st, fr):
    m = getattr(self, 'e_' + type(e).__name__, None)
    if m is None:
      raise Unsupported(type(e).__name__)
    v = m(e, st, fr)
    t = st.heap.get(v.loc) if isinstance(v, Ref) else v
    if t is not None and t.id not in self.src and hasattr(e, 'lineno'):
      self.src[t.id] = (fr.module.path, e.lineno)
    return v

  def evt(self, e, st, fr):
    return self.rd(st, self.ev(e, st, fr))

  def e_Constant(self, e, st, fr):
    if isinstance(e.value, complex):
      raise Unsupported('complex')
    return const(e.value)

  def e_Name(self, e, st, fr):
    n = e.id
    if n in st.env and n not in fr.globals_decl:
      return st.env[n]
    for env in fr.enclosing:
      v = env.get(n) if not isinstance(env, EnvLink) else env.env.get(n)
      if v is not None:
        return self.adopt(v, st)
    v = fr.module.env.get(n)
    if v is not None:
      return self.adopt(v, st)
    if fr.module.spec:
      v = self.p.spec_name(fr.module, n)
      if v is not None:
        return v
    if n in BUILTINS:
      return raw('lib', (), n)
    if n in BUILTIN_EXC:
      return raw('lib', (), n)
    return raw('unk', (), ('name', n))

  def adopt(self, v, st):
    if isinstance(v, Ref) and v.loc not in st.heap:
      st.heap[v.loc] = self.p.heap.get(v.loc) or raw('unk', (), 'cell')
    return v

  def e_NamedExpr(self, e, st, fr):
    v = self.ev(e.value, st, fr)
    self.assign(e.target, v, st, fr)
    return v

  def e_Tuple(self, e, st, fr):
    return tup(*self.items(e.elts, st, fr))

  def items(self, elts, st, fr):
    out = []
    for x in elts:
      if isinstance(x, ast.Starred):
        t = self.evt(x.value, st, fr)
        if t.op in ('zip', 'items', 'enumerate', 'product') or True:
          t = self.as_list(t)
        out.append(raw('spread', (t,)))
      else:
        out.append(self.evt(x, st, fr))
    return out

  def as_list(self, t):
    """Materialise an iterable term as a list term."""
    if t.op in ('items', 'zip', 'enumerate', 'product'):
      return self.segs_to_list(self.segments(t), lambda x: x)
    return tolist(t) if t.op != 'tuple' else raw('list', t.a)

  def segs_to_list(self, segs, f):
    out = []
    for q in segs:
      if q[0] == 'elem':
        out.append(tm.gseg(q[1], raw('list', (f(q[2]),))))
      else:
        body = raw('list', (f(q[3]),))
        g = q[2]
        for n, v in reversed(q[1]):
          body = fmap(n, v, g, body)
          g = TRUE
        out.append(raw('spread', (body,)))
    return lst(*out)

  def e_List(self, e, st, fr):
    return self.new(st, lst(*self.items(e.elts, st, fr)))

  def e_Set(self, e, st, fr):
    return self.new(st, mkset(*self.items(e.elts, st, fr)))

  def e_Dict(self, e, st, fr):
    d = raw('dict')
    for k, v in zip(e.keys, e.values):
      if k is None:
        d = tm.dmerge(d, self.evt(v, st, fr))
      else:
        kt = self.evt(k, st, fr)
        d = dset(d, kt, self.evt(v, st, fr))
    return self.new(st, d)

  def e_JoinedStr(self, e, st, fr):
    parts = []
    for v in e.values:
      if isinstance(v, ast.Constant):
        parts.append(string(v.value))
      else:
        t = self.evt(v.value, st, fr)
        spec = ''
        if v.format_spec is not None:
          spec = self.evt(v.format_spec, st, fr)
        conv = {114: 'r', 115: 's', 97: 'a'}.get(v.conversion)
        if conv == 'r' and tm._cls_of(t) is not None:
          parts.append(self.lib.repr_(self, t, st, fr))
          continue
        parts.append(fmt(t, spec, conv))
    return concat(*parts)

  e_FormattedValue = None

  def e_IfExp(self, e, st, fr):
    c = self.cond(e.test, st, fr)
    if c is TRUE:
      return self.ev(e.body, st, fr)
    if c is FALSE:
      return self.ev(e.orelse, st, fr)
    return self.choose(c, lambda s: self.ev(e.body, s, fr),
                       lambda s: self.ev(e.orelse, s, fr), st, fr)

  def choose(self, c, fa, fb, st, fr):
    dec = path_decides(st.pc, c)
    if dec is not None:
      return fa(st) if dec else fb(st)
    s1, s2 = st.copy(), st.copy()
    s1.pc, s2.pc = and_(st.pc, c), and_(st.pc, not_(c))
    v1, v2 = fa(s1), fb(s2)
    if isinstance(v1, Ref) and isinstance(v2, Ref) and v1.loc == v2.loc:
      out = v1
      m = self.merge_states(c, s1, s2, st.extra, st.pc)
      st.env, st.heap = m.env, m.heap
      return out
    m = self.merge_states(c, s1, s2, st.extra, st.pc)
    v = self.merge_vals(c, v1, v2, s1, s2, m)
    st.env, st.heap = m.env, m.heap
    return v

  def e_BoolOp(self, e, st, fr):
    isand = isinstance(e.op, ast.And)

    def go(i, st):
      v = self.ev(e.values[i], st, fr)
      if i == len(e.values) - 1:
        return v
      t = self.rd(st, v)
      c = truth(t)
      if c is TRUE:
        return go(i + 1, st) if isand else v
      if c is FALSE:
        return v if isand else go(i + 1, st)
      if isand:
        return self.choose(c, lambda s: go(i + 1, s), lambda s: v, st, fr)
      return self.choose(c, lambda s: v, lambda s: go(i + 1, s), st, fr)
    r = go(0, st)
    return r

  def e_UnaryOp(self, e, st, fr):
    t = self.evt(e.operand, st, fr)
    if isinstance(e.op, ast.Not):
      return not_(truth(t))
    if isinstance(e.op, ast.USub):
      return neg(t)
    if isinstance(e.op, ast.UAdd):
      return t
    if isinstance(e.op, ast.Invert):
      return not_(self.maskish(t))
    raise Unsupported('unary')

  def maskish(self, t):
    return t

  def e_BinOp(self, e, st, fr):
    a = self.ev(e.left, st, fr)
    ta = self.rd(st, a)
    b = self.evt(e.right, st, fr)
    ta = self.rd(st, a)
    r = self.binop(e.op, ta, b, st)
    return self.wrap(st, r)

  def binop(self, op, a, b, st):
    ka, kb = kind(a), kind(b)
    if isinstance(op, ast.Add):
      if ka == 'str' or kb == 'str':
        if a.op == 'ite' and kb == 'str' or b.op == 'ite' and ka == 'str':
          pass
        return concat(a, b)
      if ka in ('list', 'tuple') or kb in ('list', 'tuple'):
        return lconcat(a, b)
      return add(a, b)
    if isinstance(op, ast.Sub):
      if ka == 'set' or kb == 'set':
        return setdiff(a, b)
      return sub(a, b)
    if isinstance(op, ast.Mult):
      if ka in ('list', 'str', 'tuple') or kb in ('list', 'str'):
        x, n = (a, b) if ka in ('list', 'str', 'tuple') else (b, a)
        if n.op == 'num' and x.op in ('list', 'tuple') and n.d <= 64:
          return raw(x.op, x.a * int(n.d))
        if x.op == 'list':
          v = fresh('i', 'int')
          return fmap(n, v, TRUE, x)
        return raw('repeat', (x, n))
      return mul(a, b)
    if isinstance(op, ast.Div):
      return div(a, b)
    if isinstance(op, ast.FloorDiv):
      return floordiv(a, b)
    if isinstance(op, ast.Mod):
      if ka == 'str':
        return self.lib.percent_format(a, b)
      return mod(a, b)
    if isinstance(op, ast.Pow):
      return power(a, b)
    if isinstance(op, ast.MatMult):
      return raw('matmul', (a, b))
    if isinstance(op, ast.BitAnd):
      if ka == 'set' or kb == 'set':
        return raw('inter', sorted((a, b), key=lambda t: t.id))
      if kind(a) in NUMERIC and a.op == 'num' or b.op == 'num':
        if b.op == 'num' and b.d == 1 and is_int(a):
          return mod(a, num(2))
        return raw('bitand', (a, b))
      return and_(a, b)
    if isinstance(op, ast.BitOr):
      if ka == 'dict' or kb == 'dict':
        return tm.dmerge(a, b)
      if ka == 'set' or kb == 'set':
        return mkset(raw('spread', (a,)), raw('spread', (b,)))
      return or_(a, b)
    if isinstance(op, ast.BitXor):
      if ka == 'bool' and kb == 'bool':
        return or_(and_(a, not_(b)), and_(not_(a), b))
      return raw('xor', sorted((a, b), key=lambda t: t.id))
    return raw('binop', (a, b), type(op).__name__)

  def e_Compare(self, e, st, fr):
    left = self.evt(e.left, st, fr)
    out = []
    for op, r in zip(e.ops, e.comparators):
      right = self.evt(r, st, fr)
      out.append(self.compare(op, left, right))
      left = right
    return and_(*out)

  def compare(self, op, a, b):
    if isinstance(op, ast.Eq):
      return eq(a, b)
    if isinstance(op, ast.NotEq):
      return not_(eq(a, b))
    if isinstance(op, ast.Is):
      return isnone(a) if b is NONE else isnone(b) if a is NONE else eq(a, b)
    if isinstance(op, ast.IsNot):
      return not_(self.compare(ast.Is(), a, b))
    if isinstance(op, ast.Lt):
      if kind(a) == 'set':
        return raw('subset', (a, b), 'strict')
      return lt(a, b)
    if isinstance(op, ast.Gt):
      if kind(a) == 'set':
        return raw('subset', (b, a), 'strict')
      return lt(b, a)
    if isinstance(op, ast.LtE):
      if kind(a) == 'set' or kind(b) == 'set':
        return not_(nonempty(setdiff(a, b)))
      return le(a, b)
    if isinstance(op, ast.GtE):
      if kind(a) == 'set' or kind(b) == 'set':
        return not_(nonempty(setdiff(b, a)))
      return le(b, a)
    if isinstance(op, (ast.In, ast.NotIn)):
      if kind(b) == 'frame':
        r = tm.in_columns(a, b)
      elif kind(b) == 'str':
        if a.op == 'str' and b.op == 'str':
          r = bconst(a.d in b.d)
        else:
          r = raw('in', (a, b))
      else:
        if b.op in ('zip', 'items', 'enumerate'):
          b = self.as_list(b)
        r = in_(a, b)
      return r if isinstance(op, ast.In) else not_(r)
    raise Unsupported('compare')

  def e_Lambda(self, e, st, fr):
    f = Func(e, fr.module, (fr.func.qual if fr.func else '') + '.<lambda>',
             [EnvLink(self, st.env)] + fr.enclosing)
    f.defaults = [self.ev(d, st, fr) for d in e.args.defaults]
    f.kwdefaults = [self.ev(d, st, fr) if d is not None else None
                    for d in e.args.kw_defaults]
    return funval(f)

  # comprehensions
  def comp(self, e, st, fr, leaf, wrap):
    """Generic comprehension; leaf(state) -> list term of one iteration."""
    sub_ = St(dict(st.env), st.heap, st.pc, TRUE)

    def gen(i, s):
      if i == len(e.generators):
        return leaf(s)
      g = e.generators[i]
      it = self.evt(g.iter, s, fr)
      out = []
      for q in self.segments(it):
        if q[0] == 'elem':
          s2 = St(dict(s.env), s.heap, and_(s.pc, q[1]), TRUE)
          self.assign(g.target, self.wrap(s2, q[2]), s2, fr)
          c = q[1]
          for t in g.ifs:
            c = and_(c, self.cond(t, s2, fr))
          s2.pc = and_(s.pc, c)
          if c is FALSE:
            continue
          out.append(tm.gseg(c, gen(i + 1, s2)))
        else:
          s2 = St(dict(s.env), s.heap, and_(s.pc, q[2]), TRUE)
          mark = self.rec.mark()
          self.assign(g.target, self.wrap(s2, q[3]), s2, fr)
          c = q[2]
          for t in g.ifs:
            c = and_(c, self.cond(t, s2, fr))
          s2.pc = c
          body = gen(i + 1, s2)
          self.lift_events(mark, q[1], s.pc)
          for n, v in reversed(q[1]):
            body = fmap(n, v, c, body)
            c = TRUE
          out.append(raw('spread', (body,)))
      return lst(*out)
    r = gen(0, sub_)
    return r

  def lift_events(self, mark, levels, pc):
    rs = self.rec.raises[mark[0]:]
    del self.rec.raises[mark[0]:]
    for typ, c, w in rs:
      for n, v in reversed(levels):
        c = exists(n, v, c)
      self.rec.raises.append((typ, and_(pc, c), w))
    ef = self.rec.effects[mark[1]:]
    del self.rec.effects[mark[1]:]
    for c, x, w in ef:
      for n, v in reversed(levels):
        k, (c, x) = tm.close(v, c, x)
        x = raw('foreach', (n, c, x), k)
        c = TRUE
      self.rec.effects.append((pc, x, w))

  def e_ListComp(self, e, st, fr):
    return self.new(st, self.comp(
        e, st, fr, lambda s: raw('list', (self.evt(e.elt, s, fr),)), None))

  e_GeneratorExp = e_ListComp

  def e_SetComp(self, e, st, fr):
    l = self.comp(e, st, fr, lambda s: raw('list', (self.evt(e.elt, s, fr),)),
                  None)
    return self.new(st, mkset(raw('spread', (l,))))

  def e_DictComp(self, e, st, fr):
    l = self.comp(e, st, fr, lambda s: raw('list', (tup(
        self.evt(e.key, s, fr), self.evt(e.value, s, fr)),)), None)
    return self.new(st, self.pairs_to_dict(l))

  def pairs_to_dict(self, l):
    d = raw('dict')
    for s in self.segments(l):
      if s[0] == 'elem':
        p = s[2]
        d = dset(d, getitem(p, ZERO), getitem(p, ONE), s[1])
      else:
        lv = s[1]
        if len(lv) == 1:
          n, v = lv[0]
          d = tm.dmerge(d, dmap(n, v, s[2], getitem(s[3], ZERO),
                                getitem(s[3], ONE)))
        else:
          return raw('dict_of', (l,))
    return d

  def e_Starred(self, e, st, fr):
    return raw('spread', (self.as_list(self.evt(e.value, st, fr)),))

  def e_Slice(self, e, st, fr):
    return raw('slice', [self.evt(x, st, fr) if x is not None else NONE
                         for x in (e.lower, e.upper, e.step)])

  def e_Attribute(self, e, st, fr):
    o = self.ev(e.value, st, fr)
    return self.get_attr(o, e.attr, st, fr)

  def get_attr(self, o, name, st, fr):
    t = self.rd(st, o)
    if t.op == 'lib':
      full = canon_lib(t.d + '.' + name)
      if full in ('np.inf', 'math.inf', 'np.Inf', 'np.infty'):
        return tm.INF
      return raw('lib', (), full)
    if t.op == 'mod':
      return self.adopt(self.module_attr(t.d, name, st), st)
    if t.op == 'cls':
      c = FUNS[t.d]
      v = find_member(c, name)
      if v is not None:
        if isinstance(v, T) and v.op == 'fun':
          f = FUNS[v.d]
          if f.kind == 'classmethod':
            return raw('bm', (t, v), name)
        return self.adopt(v, st)
      if name in ('__name__', '__qualname__'):
        return string(c.name)
      return raw('unk', (), ('cls', c.name, name))
    if t.op == 'specobj':
      return raw('unk', (), ('specobj', name))
    if t.op == 'fun' and name == '__name__':
      return string(FUNS[t.d].qual.split('.')[-1])
    cn = tm._cls_of(t)
    c = self.p.classes.get((self.side, cn)) or self.p.classes.get(
        ('impl', cn)) if cn else None
    if c is not None:
      m = find_member(c, name)
      fieldnames = [f[0] for f in c.fields]
      if m is not None and name not in fieldnames:
        if isinstance(m, T) and m.op == 'fun':
          f = FUNS[m.d]
          if f.kind == 'property':
            v = self.call_method(f, o, [], {}, st, fr)
            if f.cached:
              self.notes.append(('cached', c.name, name, self.rd(st, v)))
            return v
          return raw('bm', (t, m) + self.loc_of(o), name)
        v = self.adopt(m, st)
        return v
      if name == '__class__':
        return raw('cls', (), _reg(c))
      if name == '__dict__':
        return raw('call', (t,), ('vars', ()))
      return self.obj_attr(o, t, name, st)
    r = self.lib.attribute(self, o, t, name, st, fr)
    if r is not None:
      if isinstance(r, T) and r.op == 'bm' and name in self.lib.mutators:
        r = raw('bm', (t, NONE) + self.loc_of(o), name)
      return r
    return self.obj_attr(o, t, name, st)

  def loc_of(self, o):
    """The cell a bound method works on."""
    return (raw('loc', (), o.loc),) if isinstance(o, Ref) else ()

  def receiver(self, f, st):
    if len(f.a) > 2 and f.a[2].d in st.heap:
      return Ref(f.a[2].d)
    return self.wrap(st, f.a[0])

  def obj_attr(self, o, t, name, st):
    x = attr(t, name)
    if x.op == 'attr' and x.d == name and x.a[0].op == 'sym':
      m = self.ctor_fields.get(x.a[0].id)
      if m is not None and name in m:
        x = m[name]
    og = self._view_org(o)
    if og and str(kind(t)).startswith('obj:'):
      og = {(p if '.' in p else f'{p}.{name}', m) for p, m in og}
    v = self.wrap(st, x, og)
    self.link(v, o, lambda b: attr(b, name),
              lambda b, y: tm.setattr_(b, name, y))
    return v

  def _view_org(self, o):
    og = self.org(o)
    if not og:
      return None
    return {(p, 'deep' if m == 'deep' else m) for p, m in og}

  def set_attr(self, o, name, v, st, fr):
    t = self.rd(st, o)
    val = self.rd(st, v)
    if t.op == 'cls':
      c = FUNS[t.d]
      self.gwrites.append((('cls', c.name, name), st.pc, val, self.where()))
      self.p.undo.append((c.members, name, c.members.get(name)))
      c.members[name] = v
      return
    if t.op in ('mod', 'lib'):
      self.notes.append(('module attribute written', name))
      self.rec.effects.append((st.pc, raw('setglobal', (t, val), name),
                               self.where()))
      return
    if not isinstance(o, Ref):
      return
    if kind(t) in ('frame', 'series', 'index', 'array') or (
        kind(t) is None and name in ('columns', 'index', 'name', 'names')):
      if name == 'columns':
        r = raw('setcolumns', (t, val))
      elif name == 'index':
        r = raw('setindex', (t, val))
      else:
        r = raw('setmeta', (t, val), name)
      self.write(st, o, r, f'.{name} is assigned', 'meta')
      return
    cn = tm._cls_of(t)
    if cn:
      self.awrites.append((cn, name, st.pc, val, self.where(), t))
    self.write(st, o, tm.setattr_(t, name, val), f'.{name} is assigned',
               'bind')

  def e_Subscript(self, e, st, fr):
    o = self.ev(e.value, st, fr)
    return self.subscript(o, e, st, fr)

  def key(self, e, st, fr):
    return self.evt(e, st, fr)

  def loc_parts(self, e, st, fr):
    """e is X.loc / X.iloc / X.at: (base Val, which)."""
    if isinstance(e, ast.Attribute) and e.attr in ('loc', 'iloc', 'at',
                                                   'iat'):
      o = self.ev(e.value, st, fr)
      t = self.rd(st, o)
      if t.op not in ('mod', 'lib', 'cls'):
        return o, e.attr
    return None

  def subscript(self, o, e, st, fr):
    t = self.rd(st, o)
    if t.op == 'lib':
      k = self.key(e.slice, st, fr)
      if t.d == 'pd.IndexSlice':
        return raw('ixslice', (k,))
      return raw('unk', (), ('libitem', t.d))
    if t.op in ('cls',):
      return t
    if t.op == 'indexer':
      base = o
      df, which = t.a[0], t.d
      k = self.key(e.slice, st, fr)
      og = None
      return self.wrap(st, self.lib.loc_get(df, which, k), og)
    k = self.key(e.slice, st, fr)
    x = getitem(t, k)
    og = None
    kk = kind(k)
    if self.org(o):
      # plain column access and basic slices are views of the base
      if x.op == 'col' or k.op == 'slice' or (
          k.op == 'tuple' and any(s.op == 'slice' for s in k.a)) or \
          kind(t) in ('list', 'dict', 'tuple', None):
        if not (kk in ('bool', 'list')):
          og = self._view_org(o)
    v = self.wrap(st, x, og)
    if isinstance(o, Ref) and isinstance(v, Ref):
      if kind(t) in ('dict', 'list') or t.op in ('dict', 'list'):
        self.link(v, o, lambda b, k=k: getitem(b, k),
                  lambda b, y, k=k: self.store(b, k, y))
      elif x.op == 'col':
        self.link(v, o, lambda b, k=k: tm.col(b, k),
                  lambda b, y, k=k: tm.setcol(b, k, y))
    return v

  def store(self, t, k, v):
    """Functional t[k] = v."""
    kt = kind(t)
    if kt == 'dict' or t.op == 'dict':
      return dset(t, k, v)
    if kt == 'list' and t.op == 'list' and k.op == 'num':
      i = int(k.d)
      if all(s.op not in ('spread', 'gseg') for s in t.a) and \
          -len(t.a) <= i < len(t.a):
        items = list(t.a)
        items[i] = v
        return raw('list', items)
    kk = kind(k)
    if kt in ('series', 'array', 'matrix') or kt is None or kt == 'num' or \
        t.op in ('poly', 'where'):
      if kk == 'bool':
        # the right-hand side selected by the same mask is pointwise
        if v.op == 'rows' and v.a[1] is k:
          v = v.a[0]
        return where(k, v, t)
      if kt in ('series', 'array', 'matrix'):
        return raw('setitem', (t, k, v))
    if kt == 'frame' or t.op in ('setcol', 'cols'):
      if kk == 'bool':
        return raw('setrows', (t, k, v))
      if kk == 'list':
        e = tm.elements(k)
        if e is not None and v.op not in ('cols',):
          for g, c in e:
            t = setcol(t, c, v)
          return t
        return raw('setcols', (t, k, v))
      return setcol(t, k, v)
    if kt is None and (k.op == 'str' or kk == 'str'):
      return setcol(t, k, v)
    if kk == 'bool' and t.op in ('getitem', 'rows') and k.op != 'bool':
      if v.op == 'rows' and v.a[1] is k:
        v = v.a[0]
      return where(k, v, t)
    return raw('setitem', (t, k, v))

  def set_item(self, o, tnode, v, st, fr, aug=False):
    t = self.rd(st, o)
    k = self.key(tnode.slice, st, fr)
    val = self.rd(st, v)
    if t.op == 'indexer':
      base = self._indexer_base.get(o.loc if isinstance(o, Ref) else t.id)
      which = t.d
      bt = self.rd(st, base)
      r, c = self.lib.loc_set(bt, which, k, val)
      self.write(st, base, r, 'values are assigned in place through .'
                 + which, 'deep', c)
      return
    r = self.store(t, k, val)
    if kind(t) == 'frame' or t.op == 'setcol':
      self.write(st, o, r, f'column is assigned', 'bind', k)
    else:
      self.write(st, o, r, 'an item is assigned')

  _indexer_base: dict = {}

  # ------------------------------------------------------------ calls
  def e_Call(self, e, st, fr):
    self.callsites += 1
    # method call?
    if isinstance(e.func, ast.Attribute):
      if isinstance(e.func.value, ast.Call) and isinstance(
          e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
        return raw('unk', (), 'super')
      o = self.ev(e.func.value, st, fr)
      t = self.rd(st, o)
      if t.op not in ('lib', 'mod', 'cls'):
        args, kw = self.call_args(e, st, fr)
        return self.method(o, e.func.attr, args, kw, st, fr, e)
    f = self.ev(e.func, st, fr)
    args, kw = self.call_args(e, st, fr)
    return self.call_value(self.rd(st, f), args, kw, st, fr, e)

  def call_args(self, e, st, fr):
    args = []
    for a in e.args:
      if isinstance(a, ast.Starred):
        t = self.as_list(self.evt(a.value, st, fr))
        el = tm.elements(t)
        if el is not None and all(g is TRUE for g, _ in el):
          args.extend(x for _, x in el)
        else:
          args.append(raw('spread', (t,)))
      else:
        args.append(self.ev(a, st, fr))
    kw = {}
    for k in e.keywords:
      if k.arg is None:
        d = self.evt(k.value, st, fr)
        self.spread_kwargs(d, kw)
      else:
        kw[k.arg] = self.ev(k.value, st, fr)
    return args, kw

  def spread_kwargs(self, d, kw):
    if d.op == 'dict' and all(
        s.op in ('kv', 'gkv') and s.a[0 if s.op == 'kv' else 1].op == 'str'
        for s in d.a):
      for s in d.a:
        if s.op == 'kv':
          kw[s.a[0].d] = s.a[1]
        else:
          kw[s.a[1].d] = raw('optarg', (s.a[0], s.a[2]))
    elif d.op == 'ite':
      k1, k2 = {}, {}
      self.spread_kwargs(d.a[1], k1)
      self.spread_kwargs(d.a[2], k2)
      for n in list(k1) + [n for n in k2 if n not in k1]:
        def split(x):
          if x is None:
            return FALSE, None
          if isinstance(x, T) and x.op == 'optarg':
            return x.a
          return TRUE, x
        g1, v1 = split(k1.get(n))
        g2, v2 = split(k2.get(n))
        g = ite(d.a[0], g1, g2)
        v = v1 if v2 is None else v2 if v1 is None else ite(d.a[0], v1, v2)
        if n in kw:
          og, ov = split(kw[n])
          v = ite(g, v, ov)
          g = or_(g, og)
        kw[n] = v if g is TRUE else raw('optarg', (g, v))
    else:
      if d.op == 'dict':
        segs = list(d.a)
        tail = {}
        while segs and segs[-1].op == 'kv' and segs[-1].a[0].op == 'str':
          e = segs.pop()
          tail[e.a[0].d] = e.a[1]
        kw.update(tail)
        d = segs[0].a[0] if len(segs) == 1 and segs[0].op == 'dspread' \
            else raw('dict', segs)
      kw['**'] = d if '**' not in kw else tm.dmerge(kw['**'], d)

  def method(self, o, name, args, kw, st, fr, e):
    t = self.rd(st, o)
    if t.op == 'ite' and kind(t) is None and False:
      pass
    cn = tm._cls_of(t)
    c = self.p.classes.get((self.side, cn)) or self.p.classes.get(
        ('impl', cn)) if cn else None
    if c is not None:
      m = find_member(c, name)
      if isinstance(m, T) and m.op == 'fun':
        f = FUNS[m.d]
        if f.kind == 'property':
          v = self.call_method(f, o, [], {}, st, fr)
          return self.call_value(self.rd(st, v), args, kw, st, fr, e)
        if f.kind == 'staticmethod':
          return self.call_func(f, args, kw, st, fr, e)
        if f.kind == 'classmethod':
          return self.call_func(f, [raw('cls', (), _reg(c))] + args, kw, st,
                                fr, e)
        return self.call_method(f, o, args, kw, st, fr, e)
    if t.op in ('obj', 'setattr', 'sym', 'attr') and c is not None:
      v = self.get_attr(o, name, st, fr)
      return self.call_value(self.rd(st, v), args, kw, st, fr, e)
    return self.lib.method(self, o, name, args, kw, st, fr, e)

  def call_value(self, f, args, kw, st, fr, e=None):
    if f.op == 'fun':
      return self.call_func(FUNS[f.d], args, kw, st, fr, e)
    if f.op == 'cls':
      return self.construct(FUNS[f.d], args, kw, st, fr, e)
    if f.op == 'bm':
      recv, m = f.a[0], f.a[1] if len(f.a) > 1 else None
      if m is not None and m.op == 'fun':
        fn = FUNS[m.d]
        if recv.op == 'cls':
          return self.call_func(fn, [recv] + args, kw, st, fr, e)
        return self.call_method(fn, self.receiver(f, st), args, kw, st, fr, e)
      return self.lib.method(self, self.receiver(f, st), f.d, args, kw, st,
                             fr, e)
    if f.op == 'lib':
      return self.lib.call(self, f.d, args, kw, st, fr, e)
    if f.op == 'ite':
      c = f.a[0]
      return self.choose(
          c, lambda s: self.call_value(f.a[1], args, kw, s, fr, e),
          lambda s: self.call_value(f.a[2], args, kw, s, fr, e), st, fr)
    if f.op == 'lam':
      return self.wrap(st, tm.lam_apply(f, [self.rd(st, a) for a in args]))
    if f.op == 'partial':
      names = f.d
      n = len(f.a) - 1 - len(names)
      pa = list(f.a[1:1 + n])
      pk = dict(zip(names, f.a[1 + n:]))
      pk.update(kw)
      return self.call_value(f.a[0], pa + args, pk, st, fr, e)
    if f.op == 'apiref':
      return self.api_call(f.d, args, kw, st, fr)
    if f.op == 'deco':
      return args[0]
    cn = tm._cls_of(f)
    if cn:
      c = self.p.classes.get((self.side, cn)) or self.p.classes.get(
          ('impl', cn))
      if c is not None:
        m = find_member(c, '__call__')
        if m is not None:
          return self.call_method(FUNS[m.d], self.wrap(st, f), args, kw, st,
                                  fr, e)
    ts = [self.as_arg(a, st) for a in args]
    ks = sorted(kw)
    return self.wrap(st, raw('apply', [f] + ts + [self.as_arg(kw[k], st)
                                                   for k in ks], tuple(ks)))

  def as_arg(self, v, st):
    """A value passed to opaque code: closures become lambda terms."""
    t = self.rd(st, v)
    return self.reify(t, st)

  def reify(self, t, st, depth=0):
    if t.op == 'fun':
      f = FUNS[t.d]
      if f.api and f.api not in self.inline:
        return raw('apiref', (), f.api)
      return self.fun_to_lam(f, st)
    if t.op == 'bm' and len(t.a) > 2:
      a0 = st.heap.get(t.a[2].d, t.a[0])
      t = raw('bm', (a0, t.a[1]) if t.a[1].op == 'fun' else (a0,), t.d)
    if t.op == 'bm' and len(t.a) > 1 and t.a[1].op == 'fun':
      f = FUNS[t.a[1].d]
      return self.fun_to_lam(f, st, t.a[0])
    if t.op == 'bm' and t.d == 'format' and tm.kind(t.a[0]) == 'str':
      v = fresh('p')
      r = self.lib.str_format(t.a[0], [v], {})
      if r is not None:
        return tm.lam([v], r)
    if t.op == 'cls':
      c = FUNS[t.d]
      return raw('clsref', (), c.name)
    if t.op != 'poly' and t.a and has_fun(t):
      return raw(t.op, [self.reify(x, st, depth + 1) for x in t.a], t.d)
    return t

  def fun_to_lam(self, f, st, recv=None):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    req = len(names) - len(f.defaults)
    if recv is not None:
      names = names[1:]
      req -= 1
    if f.wrapped is not None and a.vararg:
      names = ['x']
      req = 1
    n = max(req, 1) if (a.vararg and not names) else max(req, 0)
    if n == 0 and names:
      n = 1
    vs = [fresh('p') for _ in range(n)]
    for v, nm in zip(vs, names):
      arg = next((x for x in a.posonlyargs + a.args if x.arg == nm), None)
      if arg is not None and arg.annotation is not None:
        k, _o = self.p.ann_kind(arg.annotation, f.module)
        tm._SYMKIND[v.id] = k
        v._kind = False
    s = St({}, dict(st.heap), TRUE)
    mark = self.rec.mark()
    fr = Frame(None, f.module, [])
    args = ([recv] if recv is not None else []) + vs
    try:
      r = self.call_func(f, [self.wrap(s, x) for x in args], {}, s, fr, None,
                         reify=True)
      body = self.rd(s, r)
    except Unsupported:
      body = raw('unk', (), ('fun', f.qual))
    del self.rec.raises[mark[0]:]
    del self.rec.effects[mark[1]:]
    return tm.lam(vs, body)

  # binding ------------------------------------------------------------
  def bind(self, f, args, kw, st, fr):
    """Parameter -> Val for a call of f."""
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = {}
    rest = list(args)
    kw = dict(kw)
    for i, p in enumerate(pos):
      if rest:
        x = rest[0]
        if isinstance(x, T) and x.op == 'spread':
          v = self.wrap(st, getitem(x.a[0], num(i)))
          out[p.arg] = v
          continue
        out[p.arg] = rest.pop(0)
      elif p.arg in kw:
        out[p.arg] = kw.pop(p.arg)
    if a.vararg:
      out[a.vararg.arg] = tup(*[self.rd(st, x) for x in rest])
      f_rest = rest
      self._varargs[id(out)] = rest
    nd = len(f.defaults)
    for i, p in enumerate(pos):
      if p.arg not in out:
        j = i - (len(pos) - nd)
        if j >= 0:
          out[p.arg] = self.kw_or_default(
              kw, p.arg, self.default(f, f.defaults[j], st), st)
        elif '**' in kw:
          out[p.arg] = self.wrap(st, getitem(self.rd(st, kw['**']),
                                             string(p.arg)))
        else:
          out[p.arg] = raw('unk', (), ('missing', f.qual, p.arg))
      elif isinstance(out[p.arg], T) and out[p.arg].op == 'optarg':
        g, v = out[p.arg].a
        j = i - (len(pos) - nd)
        d = self.rd(st, f.defaults[j]) if j >= 0 else raw(
            'unk', (), ('missing', p.arg))
        out[p.arg] = self.wrap(st, ite(g, v, d))
    for p, d in zip(a.kwonlyargs, f.kwdefaults):
      if p.arg in kw:
        v = kw.pop(p.arg)
        if isinstance(v, T) and v.op == 'optarg':
          v = self.wrap(st, ite(v.a[0], v.a[1], self.rd(st, d) if d is not None
                                else raw('unk', (), ('missing', p.arg))))
        out[p.arg] = v
      elif d is not None:
        out[p.arg] = self.kw_or_default(kw, p.arg, self.default(f, d, st),
                                        st)
      elif '**' in kw:
        out[p.arg] = self.wrap(st, getitem(self.rd(st, kw['**']),
                                           string(p.arg)))
      else:
        out[p.arg] = raw('unk', (), ('missing', f.qual, p.arg))
    if a.kwarg:
      d = raw('dict')
      for k, v in kw.items():
        if k == '**':
          d = tm.dmerge(d, self.rd(st, v))
        elif isinstance(v, T) and v.op == 'optarg':
          d = dset(d, string(k), v.a[1], v.a[0])
        else:
          d = dset(d, string(k), self.rd(st, v))
      out[a.kwarg.arg] = self.new(st, d)
    elif [k for k in kw if k != '**']:
      self.notes.append(('unexpected keyword', f.qual, tuple(kw)))
      out['**unexpected'] = raw('unk', (), ('kw',) + tuple(sorted(kw)))
    return out

  _varargs: dict = {}

  def kw_or_default(self, kw, name, d, st):
    """A parameter not named in the call, which may have **mapping."""
    if '**' not in kw:
      return d
    m = self.rd(st, kw['**'])
    g = tm.din(string(name), m)
    if g is FALSE:
      return d
    return self.wrap(st, ite(g, tm.dget(m, string(name)), self.rd(st, d)))

  def default(self, f, d, st):
    if isinstance(d, Ref):
      self.adopt(d, st)
      self.origins.setdefault(d.loc, set()).add(('default of ' + f.qual,
                                                 'deep'))
    return d

  def call_method(self, f, o, args, kw, st, fr, e=None):
    return self.call_func(f, [o] + list(args), kw, st, fr, e)

  def call_func(self, f, args, kw, st, fr, e=None, reify=False):
    if f.api and f.api not in self.inline and f.api != self.root_open and \
        f.api not in self.p.inlined:
      return self.api_func(f, args, kw, st, fr)
    if f.api and f.api == self.root_open:
      if self.depth > 0 and (self.root_node is None or
                             f.node is self.root_node):
        return self.api_func(f, args, kw, st, fr)
    if self.depth > self.MAXDEPTH:
      return raw('recur', (), f.qual)
    self.functions.add((f.module.path, f.qual))
    if f.cached and f.kind != 'property':
      n = len(self.draw_sites)
      g = f.clone()
      g.cached = False
      v = self.call_func(g, args, kw, st, fr, e, reify)
      if len(self.draw_sites) > n:
        self.notes.append(('cached-draw', f.qual))
      if f.cls is not None and f.kind != 'staticmethod' and args:
        self.notes.append(('cached', f.cls.name, f.qual.split('.')[-1],
                           self.rd(st, v)))
      return v
    env = self.bind(f, args, kw, st, fr)
    env.pop('**unexpected', None)
    self.annotate_params(f, env, st)
    enclosing = list(f.env or [])
    nfr = Frame(f, f.module, enclosing)
    call_env, call_pc, call_extra = st.env, st.pc, st.extra
    sub_ = St(env, st.heap, st.pc, TRUE)
    saved = self.cur
    self.depth += 1
    if isinstance(f.node, ast.Lambda):
      self.cur = (nfr, f.node.lineno)
      v = self.ev(f.node.body, sub_, nfr)
      self.depth -= 1
      self.cur = saved
      st.heap = sub_.heap
      return v
    out = self.exec_block(f.node.body, sub_, nfr)
    self.depth -= 1
    self.cur = saved
    if any(isinstance(n, (ast.Yield, ast.YieldFrom))
           for n in own_nodes(f.node)):
      st.heap = out.heap if out is not None else st.heap
      y = self.yields(f, nfr)
      return self.wrap(st, y)
    rets = list(nfr.returns)
    if out is not None:
      rets.append((out, NONE))
    if not rets:
      # always raises
      return raw('never')
    res_st, val = rets[-1]
    if len(rets) == 1:
      st.heap = res_st.heap
      return val
    # merge from the last to the first
    acc_st = res_st
    acc_v = val
    for rs, rv in reversed(rets[:-1]):
      c = rel_guard(rs.pc, call_pc)
      m = self.merge_states(c, St({}, rs.heap, TRUE), St({}, acc_st.heap,
                                                         TRUE), TRUE, TRUE)
      if isinstance(rv, Ref) and isinstance(acc_v, Ref) and \
          rv.loc == acc_v.loc:
        nv = rv
      else:
        nv = self.merge_vals(c, rv, acc_v, rs, acc_st, m)
      acc_st, acc_v = m, nv
    st.heap = acc_st.heap
    return acc_v

  def annotate_params(self, f, env, st):
    """Use annotations to refine kinds of otherwise unknown terms."""
    a = f.node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
      if p.annotation is None or p.arg not in env:
        continue
      t = self.rd(st, env[p.arg])
      if t.op in ('fresh', 'getitem', 'call', 'api') and kind(t) is None:
        k, o = self.p.ann_kind(p.annotation, f.module)
        if k and not o and k not in ('num', 'int'):
          _set_kind(t, k)

  def yields(self, f, fr):
    return raw('unk', (), ('generator', f.qual))

  root_open = None
  root_node = None
  ctor_fields: dict = {}

  def api_sig(self, f):
    g = f
    while g.wrapped is not None and (g.node.args.vararg or
                                     g.node.args.kwarg):
      g = g.wrapped
    return g

  def api_func(self, f, args, kw, st, fr):
    g = self.api_sig(f)
    name = f.api
    if g is not f:
      extra = {}
      for p, d in zip(f.node.args.kwonlyargs, f.kwdefaults):
        if p.arg in kw:
          extra[p.arg] = kw.pop(p.arg) if False else kw[p.arg]
          kw = {k: v for k, v in kw.items() if k != p.arg}
        else:
          extra[p.arg] = d
      b = self.bind(g, args, kw, st, fr)
      b.update({k: v for k, v in extra.items() if v is not None})
    else:
      b = self.bind(g, args, kw, st, fr)
    names = [p.arg for p in g.node.args.posonlyargs + g.node.args.args +
             g.node.args.kwonlyargs]
    names += [n for n in b if n not in names]
    order = sorted(n for n in names if n in b)
    ts = [self.as_arg(b[n], st) for n in order]
    t = raw('api', ts, (name, tuple(order)))
    for muts in self.p.api_mutates.get(name, ()):
      muts, _, how = muts.partition(':')
      v = b.get(muts)
      if isinstance(v, Ref):
        self.write(st, v, raw('mutated', (t,), muts), f'passed to {name}, '
                   'which modifies it', how or 'deep')
        _set_kind(st.heap[v.loc], kind(self.rd(st, v)) or kind(
            ts[order.index(muts)]))
    alias = self.p.api_returns.get(name)
    if f.kind == 'property':
      cn = f.api.split('.')[-1]
      r = raw('attr', (ts[0],), cn)
      return self.wrap(st, r)
    if alias and isinstance(b.get(alias), Ref):
      v = b[alias]
      st.heap[v.loc] = t if name not in self.p.api_mutates else \
          st.heap[v.loc]
      return v
    og = None
    for ra in self.p.api_may_alias.get(name, ()):
      if isinstance(b.get(ra), Ref):
        og = (og or set()) | (self.org(b[ra]) or set())
    if name in self.p.api_effects or tm._APIKIND.get(name) == 'none':
      self.rec.effects.append((st.pc, raw('eff', (t,), ('api',)),
                               self.where()))
    return self.wrap(st, t, og)

  def api_call(self, name, args, kw, st, fr):
    f = self.p.api_funcs.get(name)
    if f is None:
      return raw('unk', (), ('api', name))
    if isinstance(f, Cls):
      return self.construct(f, args, kw, st, fr)
    return self.call_func(f, args, kw, st, fr)

  def construct(self, c, args, kw, st, fr, e=None):
    name = c.name
    if c.api and c.api not in self.inline and c.api not in \
        self.p.transparent and not (c.api == self.root_open and
                                    self.depth == 0):
      names, b = self.bind_ctor(c, args, kw, st, fr)
      order = sorted(b)
      t = raw('api', [self.as_arg(b[n], st) for n in order],
              (c.api, tuple(order)))
      _set_kind(t, 'obj:' + name)
      return self.new(st, t)
    init = find_member(c, '__init__')
    o = self.new(st, tm.obj(name, {}))
    if init is not None:
      self.call_method(FUNS[init.d], o, args, kw, st, fr, e)
      return o
    if c.dataclass:
      names, b = self.bind_ctor(c, args, kw, st, fr)
      st.heap[o.loc] = tm.obj(name, {n: self.rd(st, v)
                                     for n, v in b.items()})
      for n, v in b.items():
        if self.org(v):
          self.origins.setdefault(o.loc, set())
      post = find_member(c, '__post_init__')
      if post is not None:
        self.call_method(FUNS[post.d], o, [], {}, st, fr, e)
      return o
    return o

  def bind_ctor(self, c, args, kw, st, fr):
    init = find_member(c, '__init__')
    if init is not None:
      f = FUNS[init.d]
      b = self.bind(f, [NONE] + list(args), kw, st, fr)
      first = f.node.args.args[0].arg
      b.pop(first, None)
      return list(b), b
    out = {}
    fields = [f for f in c.fields if f[3]]
    rest = list(args)
    for n, ann, d, _i in fields:
      if rest and not (isinstance(rest[0], T) and rest[0].op == 'spread'):
        out[n] = rest.pop(0)
      elif n in kw:
        v = kw[n]
        if isinstance(v, T) and v.op == 'optarg':
          v = ite(v.a[0], v.a[1], self.fdefault(d, st))
        out[n] = v
      elif '**' in kw:
        src = self.rd(st, kw['**'])
        g = tm.din(string(n), src)
        out[n] = tm.dget(src, string(n)) if d is None else ite(
            g, tm.dget(src, string(n)), self.fdefault(d, st))
      elif d is not None:
        out[n] = self.fdefault(d, st)
      else:
        out[n] = raw('unk', (), ('missing', c.name, n))
    bad = [k for k in kw if k != '**' and k not in [f[0] for f in fields]]
    if bad:
      self.notes.append(('unexpected keyword', c.name, tuple(bad)))
      out['**'] = raw('unk', (), ('kw', tuple(bad)))
    for n, ann, d, i in c.fields:
      if not i and d is not None:
        out[n] = self.fdefault(d, st)
    return [f[0] for f in fields], out

  def fdefault(self, d, st):
    if isinstance(d, tuple):
      return raw('call', (self.rd(st, d[1]),), ('factory', ()))
    return self.rd(st, d) if not isinstance(d, Ref) else self.rd(
        st, self.adopt(d, st))


class EnvLink:
  """An enclosing scope (shared, late bound)."""

  def __init__(self, interp, env):
    self.env = env


def _set_kind(t, k):
  if k is not None:
    tm._SYMKIND[t.id] = k
    t._kind = False


_Any = object()


def _alias_get(g):
  return lambda b: _ALIAS


_ALIAS = object()


def _alias_put(g):
  return lambda b, y: ite(g, y, b)


_HASFUN: dict = {}


def has_fun(t):
  r = _HASFUN.get(t.id)
  if r is None:
    r = t.op in ('fun', 'bm', 'cls') or any(has_fun(x) for x in t.a)
    _HASFUN[t.id] = r
  return r


def find_member(c, name):
  if name in c.members:
    return c.members[name]
  for b in c.bases:
    v = find_member(b, name)
    if v is not None:
      return v
  return None


def own_nodes(fn):
  stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
  while stack:
    n = stack.pop()
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    stack.extend(ast.iter_child_nodes(n))


def rel_guard(pc, base):
  """pc relative to base (conjuncts of base removed)."""
  if base is TRUE or pc is TRUE:
    return pc
  b = set(x.id for x in (base.a if base.op == 'and' else (base,)))
  ps = pc.a if pc.op == 'and' else (pc,)
  return and_(*[x for x in ps if x.id not in b])


def path_decides(pc, c):
  if pc is TRUE:
    return None
  cs = pc.a if pc.op == 'and' else (pc,)
  ids = set(x.id for x in cs)
  if c.id in ids:
    return True
  n = not_(c)
  if n.id in ids:
    return False
  if c.op == 'and' and all(x.id in ids for x in c.a):
    return True
  if n.op == 'and' and all(x.id in ids for x in n.a):
    return False
  if n.op == 'or' and any(x.id in ids for x in n.a):
    return False
  if c.op == 'or' and any(x.id in ids for x in c.a):
    return True
  return None


def replace_term(t, old, new, memo=None):
  if t is old:
    return new
  memo = {} if memo is None else memo
  r = memo.get(t.id)
  if r is not None:
    return r
  if not t.a:
    return t
  if t.op == 'poly':
    m = {x: replace_term(x, old, new, memo) for x in t.a}
    r = t if all(m[x] is x for x in m) else tm.poly_map(t, m)
  else:
    a = tuple(replace_term(x, old, new, memo) for x in t.a)
    r = t if all(x is y for x, y in zip(a, t.a)) else tm.rebuild(
        t.op, a, t.d, t)
  memo[t.id] = r
  return r


def canon_lib(name):
  parts = name.split('.')
  for n in range(len(parts), 0, -1):
    p = '.'.join(parts[:n])
    if p in LIBNAMES:
      name = '.'.join([LIBNAMES[p]] + parts[n:])
      break
  if name == 'scipy.stats' or name.startswith('scipy.stats.'):
    name = 'stats' + name[len('scipy.stats'):]
  return name


BUILTIN_EXC = {
    'Exception', 'ValueError', 'TypeError', 'RuntimeError', 'KeyError',
    'IndexError', 'AssertionError', 'NotImplementedError', 'AttributeError',
    'ZeroDivisionError', 'ArithmeticError', 'LookupError', 'OSError',
    'StopIteration', 'UserWarning', 'RuntimeWarning', 'DeprecationWarning',
    'FileNotFoundError', 'IOError', 'OverflowError', 'FloatingPointError',
    'BaseException', 'FutureWarning', 'Warning',
}

BUILTINS = {
    'len', 'range', 'print', 'str', 'int', 'float', 'bool', 'list', 'dict',
    'set', 'tuple', 'zip', 'map', 'filter', 'enumerate', 'sorted', 'min',
    'max', 'sum', 'any', 'all', 'abs', 'round', 'isinstance', 'getattr',
    'hasattr', 'setattr', 'type', 'repr', 'open', 'iter', 'next', 'reversed',
    'frozenset', 'format', 'property', 'classmethod', 'staticmethod', 'super',
    'pow', 'divmod', 'vars', 'callable', 'id', 'hash', 'object', 'slice',
    'ord', 'chr', 'hex', 'bin', 'bytes', 'locals', 'globals', 'input',
    'issubclass', 'NotImplemented', 'complex', '__name__', '__file__',
    'Ellipsis', 'bytearray', 'exec', 'eval', 'memoryview', 'dir', 'delattr',
}
