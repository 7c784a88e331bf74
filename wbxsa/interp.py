"""Value-graph construction for functions of the analysed program.

This is a dataflow analysis, not an execution: every variable is mapped to a
term over the function's inputs (gated-SSA style: joins become `ite` nodes on
the branch condition, loops become comprehension/fold terms over the iterated
collection), calls to functions of the repository are inlined context
sensitively, calls to libraries are kept as (normalised) uninterpreted terms,
and writes are recorded as effects together with their path condition.
No solver is involved and no repository code is run.
"""

from __future__ import annotations

import ast
import contextlib
import copy
import dataclasses
import itertools

from . import terms as tm
from .terms import T, mk, const, NONE, TRUE, FALSE
from .program import Program, Func, Class, AnalysisError
from . import lib


@dataclasses.dataclass
class State:
  env: dict
  heap: dict
  pc: tuple
  frame: int
  # Conditions that hold because the opposite branch raised: facts, but not
  # branch conditions of the computed value.
  assumed: tuple = ()

  def copy(self):
    return State(dict(self.env), dict(self.heap), self.pc, self.frame,
                 self.assumed)


@dataclasses.dataclass
class Outcome:
  kind: str  # fall, return, break, continue
  st: State
  val: T | None = None


HARMLESS = ('os.path.', 'absl.', 'logging.', 'builtins.print', 'builtins.str',
            'builtins.repr', 'builtins.format', 'time.', 'posixpath.')


def harmless(t):
  """A call that is not what a try statement guards against."""
  return t.op == 'call' and t.args[0].op == 'ext' and (
      t.args[0].args[0].startswith(HARMLESS))


@dataclasses.dataclass
class Event:
  kind: str
  pc: tuple
  loops: tuple
  data: tuple
  node: ast.AST
  func: str
  assumed: tuple = ()
  regions: tuple = ()

  @property
  def cond(self):
    return tm.land(*self.pc)


@dataclasses.dataclass
class Closure:
  node: ast.AST
  module: object
  env: dict
  frame: int
  cls: str | None
  qual: str


@dataclasses.dataclass
class FrameInfo:
  func: str
  module: object
  cls: str | None  # lexically enclosing class (for super())
  self_term: T | None
  node: ast.AST
  is_gen: bool = False


class Result:
  """Analysis result of one function."""

  def __init__(self, value, st, events, base_pc=()):
    self.value = value
    self.st = st
    self.events = events
    self.given = ()  # what the constructor guarantees by rejecting the rest

  @property
  def raises(self):
    return [e for e in self.events if e.kind in ('raise', 'assert')]


MAX_DEPTH = 30


class Budget(Exception):
  """The analysis of one function exceeded its work bound."""


def collapses(x):
  """Whether entries of a dict or set built in a loop may coincide."""
  if x.op not in ('dict', 'set'):
    return False

  def injective(k, b):
    if k is b or k.op == 'pos' and k.args[0] is b:
      return True
    if k.op in ('tuple', 'item', 'fstr', 'concat', 'str'):
      return any(injective(y, b) for y in flat(k.args))
    return k.op == 'call' and k.args[0].op == 'ext' and (
        k.args[0].args[0] == 'builtins.str') and any(
            injective(y, b) for y in k.args[1])

  def flat(args):
    for y in args:
      if isinstance(y, T):
        yield y
      elif isinstance(y, tuple):
        yield from flat(y)

  def rec(segs, bs):
    for s in segs:
      if s.op == 'comp':
        if rec(s.args[2:], bs + [s.args[0]]):
          return True
      elif s.op == 'guard':
        if rec(s.args[1:], bs):
          return True
      elif s.op in ('kv', 'item') and not all(
          injective(s.args[0], b) for b in bs):
        return True
    return False
  return rec(x.args, [])


class Interp:

  def __init__(self, program: Program, opaque=(), max_steps=60000):
    self.steps = 0
    self.max_steps = max_steps
    self.p = program
    self.opaque = set(opaque)
    self.closures = {}
    self.frames = {}
    self.log = []
    self.loops = ()
    self.stack = []
    self._ids = itertools.count()
    self.types = {}  # T -> (annotation expr, module)
    self.binder_iter = {}
    self.acc_init = {}  # loop accumulator -> value before the loop
    self.ddefault = {}
    self.analysed = set()  # qualified names whose bodies were analysed
    self.inlined_calls = 0
    self.opaque_calls = 0
    self.regions = ()
    self._globals = {}
    self.snaps = None  # states after each write to a field, if asked for
    self.unknown = []
    self.trace = None  # list of (caller, callee, arguments, node)

  # -------------------------------------------------------------- utilities

  def fresh(self):
    return mk('fresh', next(self._ids))

  def lam_binders(self, n):
    """Placeholders for the parameters of a callback, named by nesting."""
    d = sum(1 for s in self.stack if s[0] in ('lam', 'reify'))
    bs = [mk('bv', -1 - d, i) for i in range(n)]
    for b in bs:
      self.types.pop(b, None)
    return bs

  def new_frame(self, info):
    i = next(self._ids)
    self.frames[i] = info
    return i

  def event(self, kind, st, data, node):
    info = self.frames.get(st.frame)
    self.log.append(Event(kind, st.pc, self.loops, tuple(data), node,
                          info.func if info else '?',
                          st.assumed, self.regions))

  @contextlib.contextmanager
  def region(self, *r):
    """Marks the events of a with body or of one part of a try statement."""
    self.regions = self.regions + (r,)
    try:
      yield
    finally:
      self.regions = self.regions[:-1]

  def alloc(self, st, content):
    i = next(self._ids)
    r = mk('ref', i)
    st.heap[i] = content
    return r

  def deref(self, t, st):
    """Content term of a ref (one level); other terms unchanged."""
    while t.op == 'ref' and t.args[0] in st.heap:
      t = st.heap[t.args[0]]
      if t.op in ('list', 'dict', 'set', 'new'):
        break
    return t

  def reify(self, t, st, depth=0):
    """Replace heap references by their current contents."""
    if not t.live:
      return t
    bnd = {u: mk('bound', self.visible(u.args[0], u.args[1], st), u.args[1])
           for u in tm.walk_live(t) if u.op == 'bound' and u.args[0].op in (
               'ref', 'new')}
    bnd = {k: v for k, v in bnd.items() if v is not k}
    if bnd:
      t = tm.subst(t, bnd)
    part = {}
    for u in tm.walk_live(t):
      if u.op == 'partial' and u.args[0].op == 'closure' and depth <= 12:
        lam = self.reify_closure(u.args[0], st, depth + 1, u.args[1],
                                 u.args[2])
        if lam is not None:
          part[u] = lam
    if part:
      t = tm.subst(t, part)
    refs = {u for u in tm.walk_live(t) if u.op == 'ref'}
    clos = {u for u in tm.walk_live(t) if u.op == 'closure'}
    if not refs and not clos:
      return t
    if depth > 12:
      return tm.subst(t, {r: mk('cyclic') for r in refs})
    m = {}
    for r in refs:
      if r.args[0] in st.heap:
        m[r] = self.reify(st.heap[r.args[0]], st, depth + 1)
    for c in clos:
      m[c] = self.reify_closure(c, st, depth + 1)
    return tm.subst(t, m)

  def visible(self, obj, qual, st):
    """The object as a method can see it: only the fields it may read."""
    c = self.deref(obj, st)
    f = self.p.funcs.get(qual)
    if c.op != 'new' or f is None or f.cls is None or f.kind != 'function':
      return obj
    reads = self.p.self_reads(c.args[0], f)
    if reads is None:
      return obj
    kept = tuple((k, v) for k, v in c.args[1] if k in reads)
    if len(kept) == len(c.args[1]):
      return obj
    return mk('new', c.args[0], kept)

  def reify_closure(self, c, st, depth=0, lead=(), named=()):
    cl = self.closures[c.args[0]]
    if lead or named:
      return self.reify_partial(c, st, depth, lead, named)
    key = (c, st.frame)
    args = cl.node.args
    if depth > 6 or ('reify', c) in self.stack:
      return mk('closure_of', cl.qual)
    star = args.vararg is not None and not args.args
    n = 1 if star else len(args.posonlyargs + args.args)
    kwonly = len(args.kwonlyargs)
    bs = self.lam_binders(n + kwonly)
    if not star:
      for p, b in zip(args.posonlyargs + args.args + args.kwonlyargs, bs):
        self.set_type(b, p.annotation, cl.module)
    st2 = st.copy()
    nlog = len(self.log)
    self.stack.append(('reify', c))
    try:
      if star:
        pos = [mk('splat', bs[0])]
        kw = []
      else:
        pos = bs[:n]
        kw = [(a.arg, b) for a, b in zip(args.kwonlyargs, bs[n:])]
      body = self.call_closure(c, pos, kw, st2, cl.node)
      body = self.reify(body, st2, depth + 1)
    finally:
      self.stack.pop()
    # Effects inside a callback are kept: they may run.
    del nlog, key
    return tm.mk_lam(bs, body, star)

  def reify_partial(self, c, st, depth, lead, named):
    """A closure with some arguments given, as a function of the others."""
    cl = self.closures[c.args[0]]
    a = cl.node.args
    params = (a.posonlyargs + a.args)[len(lead):]
    given = {k for k, _ in named}
    if a.vararg or a.kwarg or a.kwonlyargs or '**' in given or any(
        x.op == 'splat' for x in lead) or given - {p.arg for p in params} or (
            depth > 6 or ('reify', c) in self.stack):
      return None
    rest = [p for p in params if p.arg not in given]
    bs = self.lam_binders(len(rest))
    for p, b in zip(rest, bs):
      self.set_type(b, p.annotation, cl.module)
    st2 = st.copy()
    self.stack.append(('reify', c))
    try:
      body = self.call_closure(c, list(lead), list(named) + [
          (p.arg, b) for p, b in zip(rest, bs)], st2, cl.node)
      body = self.reify(body, st2, depth + 1)
    finally:
      self.stack.pop()
    return tm.mk_lam(bs, body)

  # ------------------------------------------------------------------ types

  def set_type(self, t, ann, module):
    if ann is not None and t not in self.types and not tm.is_const(t):
      self.types[t] = (ann, module)

  def _ann_parts(self, ann, module):
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
      try:
        ann = ast.parse(ann.value, mode='eval').body
      except SyntaxError:
        return None
    return ann

  def class_of(self, t, st):
    """Repo class qual of an instance-valued term, or None."""
    if t.op == 'ref':
      t = st.heap.get(t.args[0], t)
    if t.op == 'new':
      return t.args[0]
    if t in self.types:
      ann, module = self.types[t]
      return self._ann_class(ann, module)
    return None

  def _ann_class(self, ann, module):
    ann = self._ann_parts(ann, module)
    if ann is None:
      return None
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
      got = {self._ann_class(ann.left, module),
             self._ann_class(ann.right, module)} - {None}
      return got.pop() if len(got) == 1 else None
    if isinstance(ann, ast.Subscript):
      d = self.p.resolve_dotted_expr(module, ann.value)
      if d in ('typing.Optional',):
        return self._ann_class(ann.slice, module)
      return d if d in self.p.classes else None
    if isinstance(ann, (ast.Name, ast.Attribute)):
      d = self.p.resolve_dotted_expr(module, ann)
      return d if d in self.p.classes else None
    return None

  def elem_type(self, t, what):
    """Annotation of elements ('iter'), or of values ('index')."""
    if t not in self.types:
      return None
    ann, module = self.types[t]
    ann = self._ann_parts(ann, module)
    if isinstance(ann, ast.BinOp):
      for side in (ann.left, ann.right):
        if isinstance(side, ast.Subscript):
          ann = side
    if isinstance(ann, ast.Subscript):
      d = self.p.resolve_dotted_expr(module, ann.value) or ''
      base = d.rsplit('.', 1)[-1].lower()
      if base == 'optional':
        self.types[t] = (ann.slice, module)
        return self.elem_type(t, what)
      sl = ann.slice
      if base in ('mapping', 'dict', 'mutablemapping', 'defaultdict'):
        if isinstance(sl, ast.Tuple) and len(sl.elts) == 2:
          return (sl.elts[0] if what == 'iter' else sl.elts[1]), module
        return None
      if base in ('iterable', 'sequence', 'list', 'collection', 'iterator',
                  'set', 'tuple'):
        if isinstance(sl, ast.Tuple):
          sl = sl.elts[0]
        return sl, module
    return None

  # --------------------------------------------------------------- analysis

  def sym_args(self, func: Func, skip_self=True, prefix='', kind='in'):
    """Symbolic positional/keyword arguments for all parameters."""
    a = func.node.args
    params = a.posonlyargs + a.args
    if skip_self and func.cls is not None and func.kind != 'staticmethod':
      params = params[1:]
    pos = []
    for p in params:
      t = mk(kind, prefix + p.arg)
      self.set_type(t, p.annotation, func.module)
      pos.append(t)
    if a.vararg:
      t = mk(kind, prefix + '*' + a.vararg.arg)
      if a.vararg.annotation is not None:
        self.types[t] = (ast.Subscript(
            value=ast.Name(id='list', ctx=ast.Load()),
            slice=a.vararg.annotation, ctx=ast.Load()), func.module)
      pos.append(mk('splat', t))
    kw = []
    for p in a.kwonlyargs:
      t = mk(kind, prefix + p.arg)
      self.set_type(t, p.annotation, func.module)
      kw.append((p.arg, t))
    if a.kwarg:
      kw.append(('**', mk(kind, prefix + '**' + a.kwarg.arg)))
    return pos, kw

  def new_state(self, module):
    f = self.new_frame(FrameInfo('<root>', module, None, None, None))
    return State({}, {}, (), f)

  def instantiate_symbolic(self, cls_qual, st, overrides=None):
    """An instance built by the class's own constructor from symbolic params."""
    init, owner = self.p.lookup(cls_qual, '__init__')
    overrides = overrides or {}
    if isinstance(init, Func):
      pos, kw = self.sym_args(init, kind='param')
      a = init.node.args
      names = [p.arg for p in (a.posonlyargs + a.args)[1:]]
      kws = [(n, overrides.get(n, v)) for n, v in zip(names, pos)]
      rest = pos[len(names):]
      kws += [(k, overrides.get(k, v)) for k, v in kw]
      if rest:
        return self.construct(cls_qual, [v for _, v in kws[:len(names)]] + rest,
                              kws[len(names):], st, init.node)
      return self.construct(cls_qual, [], kws, st, init.node)
    if self.p.is_dataclass(cls_qual):
      kws = []
      for n, _, c in self.p.dataclass_fields(cls_qual):
        t = overrides.get(n, mk('param', n))
        if t.op == 'param':
          self.set_type(t, c.field_nodes[n].annotation, c.module)
        kws.append((n, t))
      return self.construct(cls_qual, [], kws, st, self.p.classes[cls_qual].node)
    return self.construct(cls_qual, [], [], st, self.p.classes[cls_qual].node)

  def analyse_method(self, cls_qual, name, overrides=None, args=None,
                     kwargs=None):
    """Analyse method `name` on an instance with symbolic ctor params."""
    self.log = []
    cls = self.p.classes[cls_qual]
    st = self.new_state(cls.module)
    self_ref = self.instantiate_symbolic(cls_qual, st, overrides)
    ctor_events = self.log
    self.log = []
    if self.snaps:
      self.snaps = []
    given = st.pc + st.assumed
    st.pc = ()
    f, owner = self.p.lookup(cls_qual, name)
    if f is None:
      raise AnalysisError(f'{cls_qual} has no {name}')
    if not isinstance(f, Func):
      v = self.eval_in_module(f, owner.module)
      return Result(v, st, [])
    if f.kind == 'property':
      v = self.call_func(f, [self_ref], [], st, f.node)
    else:
      pos, kw = self.sym_args(f)
      if args is not None:
        pos = args
      if kwargs is not None:
        kw = kwargs
      first = [] if f.kind == 'staticmethod' else (
          [mk('cls', cls_qual)] if f.kind == 'classmethod' else [self_ref])
      v = self.call_func(f, first + pos, kw, st, f.node)
    r = Result(self.reify(v, st), st, self.log)
    r.self_ref = self_ref
    r.self_term = self.reify(self_ref, st)
    r.ctor_events = ctor_events
    r.given = given
    return r

  def analyse_func(self, qual, overrides=None, self_opaque=True):
    """Analyse a module-level function or a method with an opaque self."""
    self.log = []
    f = self.p.funcs[qual]
    st = self.new_state(f.module)
    pos, kw = self.sym_args(f)
    if overrides:
      pos = [overrides.get(p.args[0], p) if p.op == 'in' else p for p in pos]
      kw = [(k, overrides.get(k, v)) for k, v in kw]
    if f.cls is not None and f.kind != 'staticmethod':
      if f.kind == 'classmethod':
        s = mk('cls', f.cls.qual)
      else:
        s = mk('in', 'self')
        self.types[s] = (ast.Name(id=f.cls.name, ctx=ast.Load()), f.module)
      pos = [s] + pos
    v = self.call_func(f, pos, kw, st, f.node)
    return Result(self.reify(v, st), st, self.log)

  # ------------------------------------------------------------------ names

  def eval_in_module(self, expr, module):
    key = (id(expr), module.name)
    if key in self._globals:
      return self._globals[key]
    self._globals[key] = mk('global', module.name, ast.unparse(expr)[:80])
    st = self.new_state(module)
    try:
      v = self.reify(self.eval(expr, st), st)
    except RecursionError:
      v = self._globals[key]
    self._globals[key] = v
    return v

  def resolve(self, name, st):
    if name in st.env:
      return st.env[name]
    info = self.frames[st.frame]
    return self.resolve_global(name, info.module)

  def resolve_global(self, name, module):
    if name in module.classes:
      return mk('cls', module.classes[name].qual)
    if name in module.funcs:
      return mk('func', module.funcs[name].qual)
    if name in module.imports:
      return self.dotted(self.p.canon(module.imports[name]))
    if name in module.globals:
      e = module.globals[name]
      if e is None:
        return mk('ext', f'{module.name}.{name}')
      return self.eval_in_module(e, module)
    if name == '__name__':
      return const(module.name)
    return mk('ext', 'builtins.' + name)

  def dotted(self, d):
    if d in self.p.classes:
      return mk('cls', d)
    if d in self.p.funcs:
      return mk('func', d)
    if d in self.p.modules:
      return mk('mod', d)
    if '.' in d:
      m, n = d.rsplit('.', 1)
      if m in self.p.modules and n in self.p.modules[m].globals:
        e = self.p.modules[m].globals[n]
        if e is not None:
          return self.eval_in_module(e, self.p.modules[m])
    return lib.ext(d)

  # ------------------------------------------------------------ expressions

  def eval(self, n, st) -> T:
    m = getattr(self, 'e_' + type(n).__name__, None)
    if m is None:
      self.unknown.append(n)
      return mk('unknown', type(n).__name__, next(self._ids))
    return m(n, st)

  def e_Constant(self, n, st):
    return const(n.value)

  def e_Name(self, n, st):
    return self.resolve(n.id, st)

  def e_NamedExpr(self, n, st):
    v = self.eval(n.value, st)
    st.env[n.target.id] = v
    return v

  def e_Attribute(self, n, st):
    return self.getattr(self.eval(n.value, st), n.attr, st, n)

  def e_Starred(self, n, st):
    return mk('splat', self.eval(n.value, st))

  def e_JoinedStr(self, n, st):
    return tm.fstr([self.eval(v, st) for v in n.values])

  def e_FormattedValue(self, n, st):
    v = self.reify(self.eval(n.value, st), st)
    spec = self.eval(n.format_spec, st) if n.format_spec else None
    if spec is None:
      if n.conversion == 114:  # !r
        return mk('repr', v)
      return lib.to_str(v)
    return mk('fmt', v, spec)

  def _seq(self, n, st, kind):
    segs = []
    for e in n.elts:
      v = self.eval(e, st)
      if v.op == 'splat':
        segs.extend(self.splat_segs(v.args[0], st))
      else:
        segs.append(mk('item', v))
    return tm.seq(kind, segs)

  def splat_segs(self, x, st):
    c = self.deref(x, st)
    if c.op in ('list', 'tuple', 'set'):
      return list(c.args)
    if c.op == 'ite':
      a, b = self.splat_segs(c.args[1], st), self.splat_segs(c.args[2], st)
      return tm.guard(c.args[0], a) + tm.guard(tm.lnot(c.args[0]), b)
    plan = self.iter_plan(x, st)
    return self.plan_segs(plan, st, lambda v, s: [mk('item', v)])

  def e_Tuple(self, n, st):
    return self._seq(n, st, 'tuple')

  def e_List(self, n, st):
    return self.alloc(st, self._seq(n, st, 'list'))

  def e_Set(self, n, st):
    return self.alloc(st, self._seq(n, st, 'set'))

  def e_Dict(self, n, st):
    segs = []
    for k, v in zip(n.keys, n.values):
      if k is None:
        d = self.deref(self.eval(v, st), st)
        segs.append(mk('dsplat', d))
      else:
        segs.append(mk('kv', self.reify(self.eval(k, st), st),
                       self.eval(v, st)))
    return self.alloc(st, tm.seq('dict', segs))

  def e_ListComp(self, n, st):
    return self.alloc(st, tm.seq('list', self.comp_segs(
        n.generators, 0, st, lambda s: [mk('item', self.eval(n.elt, s))])))

  def e_GeneratorExp(self, n, st):
    return self.e_ListComp(n, st)

  def e_SetComp(self, n, st):
    return self.alloc(st, tm.seq('set', self.comp_segs(
        n.generators, 0, st, lambda s: [mk('item', self.eval(n.elt, s))])))

  def e_DictComp(self, n, st):
    return self.alloc(st, tm.seq('dict', self.comp_segs(
        n.generators, 0, st, lambda s: [mk('kv', self.reify(
            self.eval(n.key, s), s), self.eval(n.value, s))])))

  def comp_segs(self, gens, i, st, leaf):
    if i == len(gens):
      segs = leaf(st)
      # Contents allocated inside a comprehension are per-iteration values.
      return [self._reify_seg(s, st) for s in segs]
    g = gens[i]
    it = self.eval(g.iter, st)

    def body(v, s):
      s2 = s.copy()
      s2.heap = s.heap
      self.assign(g.target, v, s2, g)
      conds = []
      for c in g.ifs:
        t = tm.truth(self.reify(self.eval_bool(c, s2), s2))
        conds.append(t)
        s2.pc = s2.pc + (t,)
      cond = tm.land(*conds)
      if cond is FALSE:
        return []
      return tm.guard(cond, self.comp_segs(gens, i + 1, s2, leaf))
    return self.plan_segs(self.iter_plan(it, st), st, body)

  def _reify_seg(self, s, st):
    # Keep instance refs shared (methods may be called on them), reify the rest.
    return self.reify(s, st) if any(
        u.op in ('ref',) for u in tm.walk(s)) else s

  def plan_segs(self, plan, st, body):
    out = []
    for node in plan:
      if node[0] == 'elem':
        out.extend(body(node[1], st))
      elif node[0] == 'guard':
        s = st.copy()
        s.heap = st.heap
        s.pc = st.pc + (node[1],)
        out.extend(tm.guard(node[1], self.plan_segs(node[2], s, body)))
      else:
        _, b, it, inner = node
        saved = self.loops
        self.loops = saved + ((b, it),)
        segs = self.plan_segs(inner, st, body)
        self.loops = saved
        segs = [self.reify(s, st) for s in segs]
        # [x for x in xs] is xs
        if len(segs) == 1 and segs[0].op == 'item' and segs[0].args[0] is b:
          out.append(mk('splat', it))
        else:
          out.extend(tm.comp(b, it, segs))
    return out

  def open_comp(self, c):
    """comp term -> fresh binder, iter, segs."""
    b = self.fresh()
    segs = [tm.subst(s, {c.args[0]: b}) for s in c.args[2:]]
    self.binder_iter[b] = c.args[1]
    return b, c.args[1], segs

  def segs_plan(self, segs, what):
    """Iteration plan over container segments. what: iter/items/values."""
    out = []
    for s in segs:
      if s.op == 'item':
        out.append(('elem', s.args[0]))
      elif s.op == 'kv':
        k, v = s.args
        out.append(('elem', k if what == 'iter' else
                    v if what == 'values' else tm.tup(k, v)))
      elif s.op in ('splat', 'dsplat'):
        out.extend(self.opaque_plan(s.args[0], what))
      elif s.op == 'guard':
        out.append(('guard', s.args[0], self.segs_plan(s.args[1:], what)))
      elif s.op == 'comp':
        b, it, inner = self.open_comp(s)
        out.append(('loop', b, it, self.segs_plan(inner, what)))
      else:
        b = self.fresh()
        out.append(('loop', b, s, [('elem', b)]))
    return out

  def opaque_plan(self, x, what='iter'):
    if x.op in ('list', 'tuple', 'set', 'dict') and not collapses(x):
      return self.segs_plan(x.args, what)
    b = self.fresh()
    self.binder_iter[b] = x
    et = self.elem_type(x, 'iter')
    if et:
      self.types[b] = et
    if what == 'iter':
      e = b
    else:
      v = lib.index(x, b)
      vt = self.elem_type(x, 'index')
      if vt:
        self.types.setdefault(v, vt)
      e = v if what == 'values' else tm.tup(b, v)
    return [('loop', b, x, [('elem', e)])]

  def iter_plan(self, it, st):
    t = self.deref(it, st)
    if t.op in ('list', 'tuple', 'set', 'dict'):
      return self.opaque_plan(t, 'iter')
    cls = self.class_of(it, st)
    if cls:
      f, _ = self.p.lookup(cls, '__iter__')
      if isinstance(f, Func) and not self.overridden(cls, '__iter__', it, st):
        r = self.call_func(f, [it], [], st, f.node)
        if not (r.op == 'call' and r.args[0].op == 'func'):
          return self.iter_plan(r, st)
    if t.op in ('dict_items', 'dict_values', 'dict_keys'):
      what = {'dict_items': 'items', 'dict_values': 'values',
              'dict_keys': 'iter'}[t.op]
      d = self.deref(t.args[0], st)
      if d.op == 'dict':
        return self.opaque_plan(d, what)
      if d.op == 'ite':
        return [('guard', d.args[0], self.iter_plan(mk(t.op, d.args[1]), st)),
                ('guard', tm.lnot(d.args[0]),
                 self.iter_plan(mk(t.op, d.args[2]), st))]
      return self.opaque_plan(d, what)
    if t.op == 'ite':
      return [('guard', t.args[0], self.iter_plan(t.args[1], st)),
              ('guard', tm.lnot(t.args[0]), self.iter_plan(t.args[2], st))]
    if t.op == 'enumerate':
      return self.enum_plan(self.iter_plan(t.args[0], st), t.args[1])
    if t.op == 'zip':
      return self.zip_plan([self.iter_plan(x, st) for x in t.args], t)
    if t.op == 'product':
      def rec(xs, acc):
        if not xs:
          return [('elem', tm.tup(*acc))]
        return self.map_plan(self.iter_plan(xs[0], st),
                             lambda v: rec(xs[1:], acc + [v]))
      return rec(list(t.args), [])
    if t.op == 'chain':
      return [n for x in t.args for n in self.iter_plan(x, st)]
    if t.op == 'range':
      a, b, c = t.args
      if all(x.op == 'num' for x in (a, b, c)):
        r = range(int(a.args[0]), int(b.args[0]), int(c.args[0]))
        if len(r) <= 64:
          return [('elem', const(i)) for i in r]
      cut = tm.sub(b, b.args[1][0][0]) if b.op == 'sum' and len(
          b.args[1]) == 1 and b.args[1][0][1] == 1 and (
              b.args[1][0][0].op == 'len') else None
      if a.op == 'num' and a.args[0] >= 0 and c is tm.ONE and (
          b.op == 'len' and a is not tm.ZERO or cut is not None
          and cut.op == 'num' and cut.args[0] < 0):
        # positions of x[a:len(x) - n]
        x = (b if b.op == 'len' else b.args[1][0][0]).args[0]
        if x.op not in ('list', 'tuple', 'set', 'dict', 'dict_items',
                        'dict_keys', 'dict_values'):
          y = lib.index(x, mk('slice', NONE if a is tm.ZERO else a,
                              NONE if cut is None else cut, NONE))
          plan = self.iter_plan(y, st)
          if len(plan) == 1 and plan[0][0] == 'loop' and plan[0][3] == [
              ('elem', plan[0][1])]:
            bnd = plan[0][1]
            return [('loop', bnd, plan[0][2], [
                ('elem', tm.add(a, mk('pos', bnd)))])]
      if a is tm.ZERO and c is tm.ONE and b.op == 'len':
        x = b.args[0]
        plan = self.iter_plan(x, st)
        if len(plan) == 1 and plan[0][0] == 'loop' and plan[0][3] == [
            ('elem', plan[0][1])]:
          bnd = plan[0][1]
          return [('loop', bnd, plan[0][2], [('elem', mk('pos', bnd))])]
    if t.op == 'fresh' or t.op == 'in' or True:
      return self.opaque_plan(t, 'iter')

  def is_generator_call(self, x):
    if x.op == 'call' and x.args[0].op == 'func':
      f = self.p.funcs.get(x.args[0].args[0])
      return f is not None and _is_generator(f.node)
    return False

  def under(self, plan, c):
    """The plan where c is known to hold."""
    no = tm.lnot(c)
    out = []
    for n in plan:
      if n[0] == 'guard' and n[1] is c:
        out += n[2]
      elif n[0] != 'guard' or n[1] is not no:
        out.append(n)
    return out

  def map_plan(self, plan, f):
    out = []
    for n in plan:
      if n[0] == 'elem':
        out.extend(f(n[1]))
      elif n[0] == 'guard':
        out.append(('guard', n[1], self.map_plan(n[2], f)))
      else:
        out.append(('loop', n[1], n[2], self.map_plan(n[3], f)))
    return out

  def enum_plan(self, plan, start):
    if all(n[0] == 'elem' for n in plan):
      return [('elem', tm.tup(tm.add(start, const(i)), n[1]))
              for i, n in enumerate(plan)]
    # single (possibly nested product) loop
    def rec(nodes, idx):
      if len(nodes) == 2 and all(n[0] == 'guard' for n in nodes) and (
          nodes[0][1] is tm.lnot(nodes[1][1])):
        rs = [rec(n[2], idx) for n in nodes]
        if None in rs:
          return None
        return [('guard', n[1], r) for n, r in zip(nodes, rs)]
      if not nodes:
        return []
      if len(nodes) == 1 and nodes[0][0] == 'guard' and idx is None:
        r = rec(nodes[0][2], idx)
        return None if r is None else [('guard', nodes[0][1], r)]
      if len(nodes) != 1:
        return None
      n = nodes[0]
      if n[0] == 'elem':
        return [('elem', tm.tup(tm.add(start, idx), n[1]))]
      if n[0] == 'loop':
        # flat index over a product of independent iterables
        p = mk('pos', n[1])
        inner_idx = p if idx is None else tm.add(
            tm.mul(idx, lib.length(n[2])), p)
        r = rec(n[3], inner_idx)
        return None if r is None else [('loop', n[1], n[2], r)]
      return None
    r = rec(plan, None)
    if r is not None:
      return r
    ctr = mk('counter', self.fresh())
    return self.map_plan(plan, lambda v: [('elem', tm.tup(
        tm.add(start, ctr), v))])

  def zip_plan(self, plans, t):
    conds = [n[1] for p in plans for n in p if n[0] == 'guard']
    if conds:
      # the sequences under each outcome of a condition that shapes them
      c = conds[0].args[0] if conds[0].op == 'not' else conds[0]
      out = []
      for g in (c, tm.lnot(c)):
        z = self.zip_plan([self.under(p, g) for p in plans], t)
        if z:
          out.append(('guard', g, z))
      return out
    if all(all(n[0] == 'elem' for n in p) for p in plans):
      return [('elem', tm.tup(*[n[1] for n in row])) for row in zip(*plans)]
    if all(len(p) == 1 and p[0][0] == 'loop' and len(p[0][3]) == 1
           and p[0][3][0][0] == 'elem' for p in plans):
      shifted = self.zip_shifted(plans, st=None)
      if shifted is not None:
        return shifted
      b0, it0 = plans[0][0][1], plans[0][0][2]
      elems = [plans[0][0][3][0][1]]
      for p in plans[1:]:
        _, b, it, inner = p[0]
        repl = b0 if it is it0 else lib.index(it, mk('pos', b0))
        elems.append(tm.subst(inner[0][1], {b: repl}))
      return [('loop', b0, it0, [('elem', tm.tup(*elems))])]
    return self.opaque_plan(t, 'iter')

  def zip_shifted(self, plans, st):
    """zip(x[:-1], x[1:]), zip(x, x[1:]): neighbours in one sequence."""
    bounds = []
    base = None
    for p in plans:
      it = p[0][2]
      lo = hi = tm.NONE
      x = it
      if it.op == 'index' and it.args[1].op == 'slice':
        x = it.args[0]
        lo, hi, step = it.args[1].args
        if step not in (NONE, tm.ONE):
          return None
      if base is not None and x is not base or p[0][3] != [('elem', p[0][1])]:
        return None
      base = x
      if any(v is not NONE and v.op != 'num' for v in (lo, hi)):
        return None
      lo = 0 if lo is NONE else int(lo.args[0])
      hi = 0 if hi is NONE else int(hi.args[0])
      if lo < 0 or hi > 0 or hi == 0 and it.op == 'index' and (
          it.args[1].op == 'slice' and it.args[1].args[1] is not NONE):
        return None
      bounds.append((lo, hi))
    if len(set(bounds)) == 1:
      return None
    n = max(lo - hi for lo, hi in bounds)
    y = lib.index(base, mk('slice', NONE, const(-n), NONE))
    plan = self.opaque_plan(y, 'iter')
    if len(plan) != 1 or plan[0][0] != 'loop':
      return None
    b = plan[0][1]
    elems = [b if lo == 0 else lib.index(base, tm.add(const(lo), mk('pos', b)))
             for lo, _ in bounds]
    return [('loop', b, plan[0][2], [('elem', tm.tup(*elems))])]

  def e_Lambda(self, n, st):
    i = next(self._ids)
    info = self.frames[st.frame]
    self.closures[i] = Closure(n, info.module, dict(st.env), st.frame,
                               info.cls, info.func + '.<lambda>')
    return mk('closure', i)

  def e_IfExp(self, n, st):
    c = tm.truth(self.reify(self.eval_bool(n.test, st), st))
    c = self.under_pc(c, st)
    if c is TRUE:
      return self.eval(n.body, st)
    if c is FALSE:
      return self.eval(n.orelse, st)
    s1, s2 = st.copy(), st.copy()
    s1.pc += (c,)
    s2.pc += (tm.lnot(c),)
    a = self.eval(n.body, s1)
    b = self.eval(n.orelse, s2)
    self.merge_heap(c, s1, s2, st)
    return self.mk_ite(c, a, b, st)

  def mk_ite(self, c, a, b, st):
    if a is b:
      return a
    if a.op == 'splat' or b.op == 'splat':
      return mk('ite', c, a, b)
    return tm.ite(c, a, b)

  def merge_heap(self, c, s1, s2, st):
    heap = dict(s1.heap)
    for k, v in s2.heap.items():
      if k not in heap:
        heap[k] = v
      elif heap[k] is not v:
        heap[k] = self.merge_content(c, heap[k], v)
    st.heap.clear()
    st.heap.update(heap)

  def merge_content(self, c, a, b):
    if a is b:
      return a
    if a.op == b.op and a.op in ('list', 'set', 'dict'):
      return tm.merge_seq(c, a, b)
    if a.op == b.op == 'new' and a.args[0] == b.args[0]:
      fa, fb = dict(a.args[1]), dict(b.args[1])
      out = {}
      for k in list(fa) + [k for k in fb if k not in fa]:
        x, y = fa.get(k, tm.UNDEF), fb.get(k, tm.UNDEF)
        out[k] = x if x is y else tm.ite(c, x, y)
      return mk('new', a.args[0], tuple(sorted(out.items())))
    return tm.ite(c, a, b)

  def eval_bool(self, n, st):
    """Evaluate in a boolean context."""
    if isinstance(n, ast.BoolOp):
      f = tm.land if isinstance(n.op, ast.And) else tm.lor
      out = []
      s = st.copy()
      s.heap = st.heap
      for v in n.values:
        t = tm.truth(self.reify(self.eval_bool(v, s), s))
        out.append(t)
        s.pc = s.pc + ((t,) if isinstance(n.op, ast.And) else (tm.lnot(t),))
      for k, v in s.env.items():
        st.env.setdefault(k, v)
      return f(*out)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      return tm.lnot(tm.truth(self.reify(self.eval_bool(n.operand, st), st)))
    return self.eval(n, st)

  def e_BoolOp(self, n, st):
    vals = [self.reify(self.eval(v, st), st) if not isinstance(
        v, ast.List) else self.eval(v, st) for v in n.values]
    if all(v.op in tm.BOOLISH or v in (TRUE, FALSE) for v in vals):
      f = tm.land if isinstance(n.op, ast.And) else tm.lor
      return f(*[tm.truth(v) for v in vals])
    r = vals[-1]
    for v in reversed(vals[:-1]):
      c = tm.truth(self.reify(v, st))
      r = tm.ite(c, r, v) if isinstance(n.op, ast.And) else tm.ite(c, v, r)
    return r

  def e_UnaryOp(self, n, st):
    v = self.eval(n.operand, st)
    if isinstance(n.op, ast.Not):
      return tm.lnot(tm.truth(self.reify(v, st)))
    if isinstance(n.op, ast.USub):
      return tm.neg(v)
    if isinstance(n.op, ast.UAdd):
      return v
    return tm.inv(v)

  BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
            ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitOr: '|',
            ast.BitAnd: '&', ast.BitXor: '^', ast.RShift: '>>',
            ast.LShift: '<<', ast.MatMult: '@'}

  def e_BinOp(self, n, st):
    return self.binop(self.BINOPS[type(n.op)], self.eval(n.left, st),
                      self.eval(n.right, st), st, n)

  def binop(self, op, a, b, st, n):
    cls = self.class_of(a, st)
    if cls:
      name = {'+': '__add__', '-': '__sub__', '*': '__mul__',
              '/': '__truediv__'}.get(op)
      f, _ = self.p.lookup(cls, name) if name else (None, None)
      if isinstance(f, Func):
        return self.call_func(f, [a, b], [], st, n)
    if op == '+':
      ca, cb = self.deref(a, st), self.deref(b, st)
      if ca.op in ('list', 'tuple') and cb.op in ('list', 'tuple'):
        r = tm.seq(ca.op, list(ca.args) + list(cb.args))
        return self.alloc(st, r) if ca.op == 'list' else r
      if tm.is_str(a) or tm.is_str(b):
        return tm.fstr([a, b])
      if ca.op in ('list', 'tuple') or cb.op in ('list', 'tuple'):
        sa = list(ca.args) if ca.op in ('list', 'tuple') else [mk('splat', ca)]
        sb = list(cb.args) if cb.op in ('list', 'tuple') else [mk('splat', cb)]
        kind = ca.op if ca.op in ('list', 'tuple') else cb.op
        return tm.seq(kind, sa + sb)
    if op == '*':
      ca, cb = self.deref(a, st), self.deref(b, st)
      if cb.op in ('list', 'tuple') and ca.op not in ('list', 'tuple'):
        ca, cb = cb, ca
      if ca.op in ('list', 'tuple') and cb.op not in ('list', 'tuple'):
        ca, n_ = self.reify(ca, st), self.reify(cb, st)
        r = None
        if n_.op == 'num' and n_.args[0].denominator == 1 and (
            0 <= n_.args[0] * len(ca.args) <= 64):
          r = tm.seq(ca.op, list(ca.args) * int(n_.args[0]))
        elif n_.op == 'len' and ca.args:
          b_ = self.fresh()
          r = tm.seq(ca.op, tm.comp(b_, n_.args[0], list(ca.args)))
        if r is None:
          return mk('repeat', ca, n_)
        return self.alloc(st, r) if r.op == 'list' else r
    if op in ('-', '|', '&'):
      ca, cb = self.deref(a, st), self.deref(b, st)
      if op == '&' and ({ca.op, cb.op} & {'set', 'dict_keys'}):
        x = lib.intersection(self, [self.reify(ca, st), self.reify(cb, st)])
        if x is not None:
          return self.alloc(st, x) if x.op == 'set' else x
      if ca.op == 'set' or cb.op == 'set' or (
          op == '|' and ca.op == 'dict' and cb.op == 'dict'):
        ca, cb = self.reify(ca, st), self.reify(cb, st)
        if op == '|' and ca.op == 'dict':
          return self.alloc(st, tm.seq('dict', list(ca.args) + list(cb.args)))
        if op == '|':
          return tm.seq('set', [
              s for x in (ca, cb) for s in (
                  x.args if x.op == 'set' else [mk('splat', x)])])
        return mk('setop', op, ca, cb)
      if op == '|' and 'dict' in (ca.op, cb.op):
        ca, cb = self.reify(ca, st), self.reify(cb, st)
        if ca is mk('dict') or cb is mk('dict'):
          return cb if ca is mk('dict') else ca
        return self.alloc(st, tm.seq('dict', [
            s for x in (ca, cb) for s in (
                x.args if x.op == 'dict' else [mk('dsplat', x)])]))
    a, b = self.reify(a, st), self.reify(b, st)
    if op == '>>' and tm.is_str(a):
      return b  # a label on a transform
    if op == '|' and self.is_transform(b):
      r = mk('pipe', a, b)
      self.event('call', st, (r,), n)
      return r
    return lib.arith(op, a, b)

  def is_transform(self, t):
    """A Beam transform: applied to a collection by '|', in order."""
    if t.op == 'call' and t.args[0].op == 'ext':
      return t.args[0].args[0].split('.')[0] in ('apache_beam', 'xarray_beam')
    if t.op == 'new':
      return any('PTransform' in b for b in self.p.external_bases(t.args[0]))
    return False

  CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
            ast.Gt: '>', ast.GtE: '>='}

  def e_Compare(self, n, st):
    left = self.reify(self.eval(n.left, st), st)
    out = []
    for op, c in zip(n.ops, n.comparators):
      right = self.reify(self.eval(c, st), st)
      if isinstance(op, ast.Is):
        r = tm.is_(left, right)
      elif isinstance(op, ast.IsNot):
        r = tm.lnot(tm.is_(left, right))
      elif isinstance(op, ast.In):
        r = lib.contains(left, right)
      elif isinstance(op, ast.NotIn):
        r = tm.lnot(lib.contains(left, right))
      else:
        r = tm.compare(self.CMPOPS[type(op)], left, right)
      out.append(r)
      left = right
    return out[0] if len(out) == 1 else tm.land(*out)

  def e_Slice(self, n, st):
    f = lambda x: NONE if x is None else self.reify(self.eval(x, st), st)
    return mk('slice', f(n.lower), f(n.upper), f(n.step))

  def e_Subscript(self, n, st):
    base = self.eval(n.value, st)
    k = self.reify(self.eval(n.slice, st), st)
    return self.getindex(base, k, st)

  def getindex(self, base, k, st):
    if base.op == 'ite':
      return self.mk_ite(base.args[0], self.getindex(base.args[1], k, st),
                         self.getindex(base.args[2], k, st), st)
    if base.op == 'pos_of':
      pass
    cls = self.class_of(base, st)
    if cls:
      f, _ = self.p.lookup(cls, '__getitem__')
      if isinstance(f, Func) and not self.overridden(cls, '__getitem__', base,
                                                    st):
        return self.call_func(f, [base, k], [], st, f.node)
    if base.op in ('dict_items', 'dict_values', 'dict_keys'):
      base = self.reify(base, st)
    c = self.deref(base, st)
    if c.op == 'dict':
      v = lib.table_lookup(c, k)
      if v is not None:
        return v
      if base.op == 'ref' and base.args[0] in self.ddefault:
        if all(s.op == 'kv' and tm.is_const(s.args[0]) for s in c.args
               ) and tm.is_const(k):
          r = self.call(self.ddefault[base.args[0]], [], [], st, None)
          st.heap[base.args[0]] = tm.seq('dict', list(
              st.heap[base.args[0]].args) + [mk('kv', k, r)])
          return r
        return mk('index', base, k)
      return mk('index', self.reify(c, st), k)
    if c.op in ('list', 'tuple'):
      v = lib.seq_index(c, k)
      if v is not None:
        return v
      return mk('index', self.reify(c, st), k)
    base = self.reify(base, st)
    o = lib.offset(k)
    if o is not None:
      it = self.binder_iter.get(o[0])
      if it is not None and o[1] == 0 and it is base:
        return o[0]
      r = lib.index(base, k)
      if it is not None and it.op == 'index' and it.args[1].op == 'slice' and (
          r.op == 'index' and r.args[0] is it.args[0]):
        lo, hi, step = it.args[1].args
        if step in (NONE, tm.ONE) and lib.offset(r.args[1]) == (
            o[0], 0 if lo is NONE else lo.args[0] if lo.op == 'num' else -1):
          return o[0]
    r = lib.index(base, k)
    et = self.elem_type(base, 'index')
    if et:
      self.types.setdefault(r, et)
    return r

  def e_Yield(self, n, st):
    v = self.reify(self.eval(n.value, st), st) if n.value else NONE
    r = st.env.get('__yield__')
    if r is not None:
      st.heap[r.args[0]] = tm.seq('list', list(
          st.heap[r.args[0]].args) + [mk('item', v)])
    self.event('yield', st, (v,), n)
    return NONE

  def e_YieldFrom(self, n, st):
    v = self.eval(n.value, st)
    segs = self.splat_segs(v, st)
    r = st.env.get('__yield__')
    if r is not None:
      st.heap[r.args[0]] = tm.seq('list', list(
          st.heap[r.args[0]].args) + segs)
    return NONE

  def e_Await(self, n, st):
    return self.eval(n.value, st)

  # -------------------------------------------------------------- attributes

  def overridden(self, cls, name, base, st):
    """Could a subclass override `name` for this (not exactly known) object?"""
    b = self.deref(base, st)
    if b.op == 'new':
      return False
    for s in self.p.subclasses(cls):
      c = self.p.classes[s]
      if name in c.methods or name in c.attrs:
        return True
    return False

  def getattr(self, base, name, st, node=None):
    if base.op == 'ite':
      a = self.getattr(base.args[1], name, st, node)
      b = self.getattr(base.args[2], name, st, node)
      return self.mk_ite(base.args[0], a, b, st)
    if base.op == 'mod' and isinstance(base.args[0], str):
      d = f'{base.args[0]}.{name}'
      m = self.p.modules[base.args[0]]
      if d in self.p.modules:
        return mk('mod', d)
      return self.resolve_global(name, m) if (
          name in m.classes or name in m.funcs or name in m.imports
          or name in m.globals) else mk('ext', d)
    if base.op == 'ext':
      return self.dotted(base.args[0] + '.' + name)
    if base.op == 'super':
      self_t, cls, after = base.args
      f, owner = self.p.lookup(cls, name, after=after)
      if isinstance(f, Func):
        if f.kind == 'property':
          return self.call_func(f, [self_t], [], st, node)
        return mk('bound', self_t, f.qual)
      return mk('attr', mk('superobj', self_t), name)
    if base.op == 'cls':
      if name == '__name__':
        return const(base.args[0].rsplit('.', 1)[-1])
      f, owner = self.p.lookup(base.args[0], name)
      if isinstance(f, Func):
        if f.kind == 'classmethod':
          return mk('bound', base, f.qual)
        return mk('func', f.qual)
      if f is not None:
        return self.eval_in_module(f, owner.module)
      return mk('attr', base, name)
    if base.op in ('ref', 'new') or base in self.types:
      c = self.deref(base, st)
      if c.op == 'new':
        for k, v in c.args[1]:
          if k == name:
            return v
      cls = self.class_of(base, st)
      if cls:
        if name == '__class__':
          return mk('cls', cls) if c.op == 'new' else mk('attr', base, name)
        f, owner = self.p.lookup(cls, name)
        if f is not None and not self.overridden(cls, name, base, st):
          if isinstance(f, Func):
            if f.kind == 'property':
              if f.is_abstract and c.op != 'new':
                return self.typed_attr(base, name, f, st)
              if (base, f.qual) in self.stack:
                return mk('attr', self.shallow(base, st), name)
              return self.call_func(f, [base], [], st, node)
            if f.kind == 'staticmethod':
              return mk('func', f.qual)
            if f.kind == 'classmethod':
              return mk('bound', mk('cls', cls), f.qual)
            if f.is_abstract and c.op != 'new':
              return mk('attr', base, name)
            return mk('bound', base, f.qual)
          if c.op == 'new' or not self.p.is_dataclass(cls):
            return self.eval_in_module(f, owner.module)
        r = mk('attr', self.shallow(base, st), name)
        if isinstance(f, Func):
          return self.typed_attr(base, name, f, st)
        if self.p.is_dataclass(cls):
          for n, _, oc in self.p.dataclass_fields(cls):
            if n == name:
              self.types.setdefault(r, (oc.field_nodes[n].annotation,
                                        oc.module))
        return r
    if base.op == 'bound' or base.op == 'func':
      return mk('attr', base, name)
    c = self.deref(base, st)
    return lib.attribute(self.reify(base, st) if c.op not in (
        'list', 'dict', 'set') else base, name)

  def typed_attr(self, base, name, f, st):
    r = mk('attr', self.shallow(base, st), name)
    if f.kind == 'property' and f.node.returns is not None:
      self.types.setdefault(r, (f.node.returns, f.module))
    return r

  def shallow(self, base, st):
    return self.reify(base, st)

  # ------------------------------------------------------------------- calls

  def e_Call(self, n, st):
    f = n.func
    info = self.frames[st.frame]
    if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in st.env:
      cls = info.cls
      self_t = st.env.get('__self__', info.self_term)
      if not n.args and cls and self_t is not None:
        actual = (self_t.args[0] if self_t.op == 'cls'
                  else self.class_of(self_t, st)) or cls
        return mk('super', self_t, actual, cls)
    fn = self.eval(f, st)
    pos, kw = [], []
    for a in n.args:
      v = self.eval(a, st)
      if v.op == 'splat':
        segs = self.splat_segs(v.args[0], st)
        for s in segs:
          pos.append(s.args[0] if s.op == 'item' else (
              mk('splat', s.args[0]) if s.op == 'splat' else
              mk('splat', tm.seq('list', [s]))))
      else:
        pos.append(v)
    for k in n.keywords:
      v = self.eval(k.value, st)
      if k.arg is None:
        d = self.deref(v, st)
        if d.op == 'ite':
          d = self.reify(d, st)
        if d.op == 'dict' and all(
            s.op == 'kv' and s.args[0].op == 'const' for s in d.args):
          kw.extend((s.args[0].args[1], s.args[1]) for s in d.args)
        elif d.op == 'dict':
          rest = []
          for s in d.args:
            if s.op == 'kv' and s.args[0].op == 'const':
              kw.append((s.args[0].args[1], s.args[1]))
            elif s.op == 'dsplat' and len(d.args) == 1:
              kw.append(('**', s.args[0]))
            else:
              rest.append(s)
          if rest:
            kw.append(('**', tm.seq('dict', rest)))
        else:
          kw.append(('**', d))
      else:
        kw.append((k.arg, v))
    return self.call(fn, pos, kw, st, n)

  def call(self, fn, pos, kw, st, node):
    if fn.op == 'ite':
      c = fn.args[0]
      s1, s2 = st.copy(), st.copy()
      s1.pc += (c,)
      s2.pc += (tm.lnot(c),)
      a = self.call(fn.args[1], pos, kw, s1, node)
      b = self.call(fn.args[2], pos, kw, s2, node)
      self.merge_heap(c, s1, s2, st)
      return self.mk_ite(c, a, b, st)
    if fn.op == 'func' and fn.args[0].endswith(
        'xarray_tree.map_structure') and not kw and len(pos) >= 2:
      return lib.tree_map(self, pos[0], pos[1:], st, node)
    if fn.op == 'func':
      return self.call_func(self.p.funcs[fn.args[0]], pos, kw, st, node)
    if fn.op == 'bound':
      return self.call_func(self.p.funcs[fn.args[1]], [fn.args[0]] + pos, kw,
                            st, node)
    if fn.op == 'cls':
      return self.construct(fn.args[0], pos, kw, st, node)
    if fn.op == 'closure':
      return self.call_closure(fn, pos, kw, st, node)
    if fn.op == 'partial':
      f, p2, k2 = fn.args
      names = {k for k, _ in kw}
      return self.call(f, list(p2) + pos,
                       [(k, v) for k, v in k2 if k not in names] + kw, st, node)
    if fn.op == 'lam':
      n, bs, body = fn.args
      if n == '*':
        arg = tm.seq('tuple', [
            p if p.op == 'splat' else mk('item', self.reify(p, st))
            for p in pos])
        return tm.subst(body, {bs[0]: arg})
      if n == len(pos) and not kw:
        return tm.subst(body, dict(zip(bs, [self.reify(p, st) for p in pos])))
    if fn.op in ('ext', 'attr'):
      self.note_writes(fn, pos, kw, st, node)
    r = lib.call_special(self, fn, pos, kw, st, node)
    if r is not None:
      return r
    if fn.op in ('ref', 'new') or fn in self.types:
      cls = self.class_of(fn, st)
      if cls:
        f, _ = self.p.lookup(cls, '__call__')
        if isinstance(f, Func) and not self.overridden(cls, '__call__', fn, st):
          return self.call_func(f, [fn] + pos, kw, st, node)
    self.opaque_calls += 1
    return self.opaque_call(fn, pos, kw, st, node)

  def note_writes(self, fn, pos, kw, st, node):
    """Keeps calls that write to an argument, which normal forms would drop."""
    kw = list(kw)
    if fn.op == 'ext' and not any(p.op == 'splat' for p in pos):
      n = lib.INPUTS.get(fn.args[0])
      if n is not None and len(pos) > n:
        kw.append(('out', pos[n]))
        pos = pos[:n]
    if any(k in ('out', 'inplace', 'copy') for k, _ in kw):
      self.event('writecall', st, (mk(
          'call', self.reify(fn, st),
          tuple(self.reify(x, st) for x in pos),
          tuple((k, self.reify(v, st)) for k, v in kw)),), node)

  def opaque_call(self, fn, pos, kw, st, node):
    if fn.op == 'func' and pos:
      pos = [self.visible(pos[0], fn.args[0], st)] + list(pos[1:])
    if fn.op == 'func' and fn.args[0] in self.p.funcs:
      pos, kw = self.as_declared(self.p.funcs[fn.args[0]], pos, kw)
    pos = [self.reify(self.as_lam(x, st, node), st) for x in pos]
    kw = [(k, self.reify(self.as_lam(v, st, node), st)) for k, v in kw]
    r = lib.call(self.reify(fn, st), pos, kw)
    if fn.op == 'ext' and fn.args[0] in lib.NONDET:
      # two readings of a clock are two different values
      r = mk('call', fn, tuple(pos), tuple(kw) + (
          ('reading', const(next(self._ids))),))
    self.event('call', st, (r,), node)
    return r

  def as_declared(self, f, pos, kw):
    """Arguments in the positions in which the function declares them."""
    a = f.node.args
    names = [p.arg for p in a.posonlyargs + a.args]
    given = dict(kw)
    if a.vararg or len(pos) > len(names) or '**' in given or any(
        p.op == 'splat' for p in pos) or set(names[:len(pos)]) & set(given):
      return pos, kw
    pos = list(pos)
    for n in names[len(pos):]:
      if n not in given:
        break
      pos.append(given.pop(n))
    defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    defaults.update((p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)
                    if d is not None)
    def usual(n, v):
      d = defaults.get(n)
      return isinstance(d, ast.Constant) and v.op in ('const', 'num') and (
          v is const(d.value))
    while len(pos) and usual(names[len(pos) - 1], pos[-1]):
      pos.pop()
    return pos, [(n, v) for n, v in given.items() if not usual(n, v)]

  def as_lam(self, t, st, node):
    """A callback given by name, as the function it computes."""
    f, lead, named, skip = t, [], [], 0
    if f.op == 'partial':
      f, lead, named = f.args[0], list(f.args[1]), list(f.args[2])
    if f.op == 'bound':
      lead = [f.args[0]] + lead
      f = mk('func', f.args[1])
    if f.op != 'func' or f.args[0] not in self.p.funcs:
      return t
    fn = self.p.funcs[f.args[0]]
    opaque = fn.qual in self.opaque or fn.node.name in self.opaque
    a = fn.node.args
    if opaque and t.op != 'partial' or a.vararg or a.kwarg or a.kwonlyargs or (
        fn.is_abstract or ('lam', fn.qual) in self.stack or any(
            s[0] == fn.qual for s in self.stack)) or any(
                k == '**' for k, _ in named) or any(
                    x.op == 'splat' for x in lead) or _is_generator(fn.node):
      return t
    names = {k for k, _ in named}
    rest = [p for p in (a.posonlyargs + a.args)[len(lead):]
            if p.arg not in names]
    bs = self.lam_binders(len(rest))
    st2 = st.copy()
    self.stack.append(('lam', fn.qual))
    try:
      body = self.call_func(fn, lead, named + [
          (p.arg, b) for p, b in zip(rest, bs)], st2, node)
      body = self.reify(body, st2)
    finally:
      self.stack.pop()
    return tm.mk_lam(bs, body)

  def construct(self, cls_qual, pos, kw, st, node):
    if ('ctor', cls_qual) in self.opaque or cls_qual in self.opaque:
      return self.opaque_call(mk('cls', cls_qual), pos, kw, st, node)
    # external base class constructors (Exceptions, enums, DoFn...): fields only
    content = mk('new', cls_qual, ())
    ref = self.alloc(st, content)
    new, _ = self.p.lookup(cls_qual, '__new__')
    init, owner = self.p.lookup(cls_qual, '__init__')
    if isinstance(init, Func):
      self.call_func(init, [ref] + pos, kw, st, node)
      return ref
    if self.p.is_dataclass(cls_qual):
      fields = self.p.dataclass_fields(cls_qual)
      vals = {}
      names = [f[0] for f in fields]
      for n, v in zip(names, pos):
        vals[n] = v
      for k, v in kw:
        vals[k] = v
      for n, d, c in fields:
        if n not in vals:
          if d is None:
            vals[n] = mk('missing', n)
          else:
            dv = d
            if isinstance(d, ast.Call) and ast.unparse(d.func).endswith(
                'field'):
              fac = [k.value for k in d.keywords if k.arg == 'default_factory']
              dfl = [k.value for k in d.keywords if k.arg == 'default']
              if fac:
                s0 = self.new_state(c.module)
                vals[n] = self.reify(self.call(self.eval(
                    fac[0], s0), [], [], s0, node), s0)
                continue
              dv = dfl[0] if dfl else ast.Constant(value=None)
            vals[n] = self.eval_in_module(dv, c.module)
      if self.trace is not None:
        self.trace.append((self.caller(),
                           cls_qual + '.__init__',
                           {k: self.reify(v, st) for k, v in vals.items()},
                           node))
      st.heap[ref.args[0]] = mk('new', cls_qual, tuple(sorted(vals.items())))
      post, _ = self.p.lookup(cls_qual, '__post_init__')
      if isinstance(post, Func):
        self.call_func(post, [ref], [], st, node)
      return ref
    if pos or kw:
      vals = {f'arg{i}': self.reify(v, st) for i, v in enumerate(pos)}
      vals.update({k: self.reify(v, st) for k, v in kw})
      st.heap[ref.args[0]] = mk('new', cls_qual, tuple(sorted(vals.items())))
    return ref

  def bind(self, fnode, module, pos, kw, st, closure_env=None):
    """Bind call arguments to parameters. None if impossible to resolve."""
    a = fnode.args
    params = a.posonlyargs + a.args
    env = {}
    kwd = dict(kw)
    star = kwd.pop('**', None)
    names = [p.arg for p in params]
    i = 0
    rest = []
    for v in pos:
      if v.op == 'splat':
        if i < len(names) and a.vararg is None:
          return None
        if i < len(names):
          # vararg present but fixed params would be fed from the splat
          return None
        rest.append(v)
      elif i < len(names) and not rest:
        env[names[i]] = v
        i += 1
      else:
        rest.append(mk('item', v))
    if rest:
      if a.vararg is None:
        return None
    if a.vararg is not None:
      env[a.vararg.arg] = tm.seq('tuple', rest)
    extra = []
    kwnames = names + [p.arg for p in a.kwonlyargs]
    for k, v in kwd.items():
      if k in kwnames:
        env[k] = v
      else:
        extra.append((k, v))
    if a.kwarg is not None:
      segs = [mk('kv', const(k), v) for k, v in extra]
      if star is not None:
        segs.append(mk('dsplat', star))
      env[a.kwarg.arg] = self.alloc(st, tm.seq('dict', segs))
    elif extra:
      return None
    defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
      if d is not None:
        defaults[p.arg] = d
    for nme in kwnames:
      if nme not in env:
        dv = None
        if nme in defaults:
          dv = self.eval_default(defaults[nme], module, closure_env)
        if star is not None:
          env[nme] = mk('kwget', star, nme, dv if dv is not None else tm.UNDEF)
        elif dv is not None:
          env[nme] = dv
        else:
          return None
    return env

  def eval_default(self, d, module, closure_env):
    if closure_env:
      st = self.new_state(module)
      st.env = dict(closure_env)
      return self.reify(self.eval(d, st), st)
    return self.eval_in_module(d, module)

  def call_func(self, f: Func, pos, kw, st, node):
    if self.stack and (f.qual in self.opaque or f.node.name in self.opaque) or (
        any('contextmanager' in d for d in f.decorators)):
      return self.opaque_call(mk('func', f.qual), pos, kw, st, node)
    depth = sum(1 for s in self.stack if s[0] == f.qual)
    if depth >= 1 and self._recursive(f, pos, st) or len(
        self.stack) > MAX_DEPTH:
      return self.opaque_call(mk('func', f.qual), pos, kw, st, node)
    self_t = None
    if f.cls is not None and f.kind != 'staticmethod' and pos:
      self_t = pos[0]
    if f.is_abstract and self_t is not None and f.kind != 'property' and (
        self_t.op != 'cls') and self.class_of(self_t, st) is not None:
      c = self.deref(self_t, st)
      if c.op != 'new':
        return self.opaque_call(
            mk('attr', self.reify(self_t, st), f.node.name), pos[1:], kw, st,
            node)
    env = self.bind(f.node, f.module, pos, kw, st)
    if env is None:
      return self.opaque_call(mk('func', f.qual), pos, kw, st, node)
    a = f.node.args
    if self.trace is not None:
      self.trace.append((self.caller(), f.qual, {
          p.arg: env[p.arg] if env[p.arg].live is False else
          self.reify(env[p.arg], st)
          for p in a.posonlyargs + a.args + a.kwonlyargs if p.arg in env
          and p.arg not in ('self', 'cls')}, node))
    for p in a.posonlyargs + a.args + a.kwonlyargs:
      v = env.get(p.arg)
      if v is not None and v.op in ('in', 'param', 'index', 'attr', 'call',
                                    'fresh', 'kwget'):
        self.set_type(v, p.annotation, f.module)
    self.analysed.add(f.qual)
    self.inlined_calls += 1
    return self.run_body(f.node, f.qual, f.module,
                         f.cls.qual if f.cls else None, self_t, env, st)

  def caller(self):
    return next((s[0] for s in self.stack[::-1]
                 if s[0] not in ('reify', 'lam', 'clo')), '')

  def _recursive(self, f, pos, st):
    """Recursion on the same receiver / in depth: cut."""
    n = sum(1 for s in self.stack if s[0] == f.qual)
    if n >= 3:
      return True
    recv = pos[0] if pos else None
    if recv is not None:
      recv = self.deref(recv, st)
      if recv.op == 'new':
        # distinct receivers of statically known class: allow delegation chains
        for s in self.stack:
          if s[0] == f.qual and len(s) > 1 and s[1] is pos[0]:
            return True
        return False
    # a helper reached again through a method of another object
    last = max(i for i, s in enumerate(self.stack) if s[0] == f.qual)
    before = [s[1] for s in self.stack[:last + 1] if len(s) > 1]
    return not any(len(s) > 1 and s[1] is not None and s[1].op == 'ref'
                   and not any(s[1] is b for b in before)
                   for s in self.stack[last + 1:])

  def call_closure(self, c, pos, kw, st, node):
    cl = self.closures[c.args[0]]
    if any(s == ('clo', c) for s in self.stack) or len(self.stack) > MAX_DEPTH:
      return self.opaque_call(mk('closure_of', cl.qual), pos, kw, st, node)
    base = dict(cl.env)
    if cl.frame == st.frame:
      base.update(st.env)
    env = self.bind(cl.node, cl.module, pos, kw, st, base)
    if env is None:
      return self.opaque_call(mk('closure_of', cl.qual), pos, kw, st, node)
    base.pop('__yield__', None)
    base.update(env)
    self.stack.append(('clo', c))
    try:
      info = self.frames.get(cl.frame)
      return self.run_body(cl.node, cl.qual, cl.module, cl.cls,
                           info.self_term if info else None, base, st)
    finally:
      self.stack.pop()

  def run_body(self, fnode, qual, module, cls, self_t, env, st):
    frame = self.new_frame(FrameInfo(qual, module, cls, self_t, fnode))
    s = State(env, dict(st.heap), st.pc, frame, st.assumed)
    self.stack.append((qual, self_t))
    try:
      if isinstance(fnode, ast.Lambda):
        v = self.eval(fnode.body, s)
        st.heap.clear()
        st.heap.update(s.heap)
        return v
      is_gen = _is_generator(fnode)
      if is_gen:
        s.env['__yield__'] = self.alloc(s, tm.seq('list', []))
      outs = self.block(fnode.body, s)
    finally:
      self.stack.pop()
    rets = []
    for o in outs:
      if o.kind in ('return', 'fall'):
        v = o.val if o.kind == 'return' else NONE
        if is_gen:
          v = s.env['__yield__']
        rets.append((o.st, v))
    n = len(st.pc)
    if not rets:
      # always raises
      st.pc = st.pc + (FALSE,)
      return mk('bottom')
    merged, val = rets[-1][0], rets[-1][1]
    mpc = tm.land(*merged.pc[n:])
    for s2, v in reversed(rets[:-1]):
      c = tm.land(*s2.pc[n:])
      tmp = State({}, {}, (), 0)
      self.merge_heap(c, s2, merged, tmp)
      merged = tmp
      val = self.mk_ite(c, v, val, st)
      mpc = tm.lor(c, mpc)
    st.heap.clear()
    st.heap.update(merged.heap)
    common = tuple(x for x in rets[0][0].assumed
                   if all(x in r[0].assumed for r in rets))
    st.assumed = st.assumed + tuple(
        x for x in common if x not in st.assumed)
    if mpc is not TRUE:
      # the complement raises
      st.assumed = st.assumed + (mpc,)
    return val

  # -------------------------------------------------------------- statements

  def block(self, stmts, st):
    """Returns outcomes; at most one 'fall' (always last)."""
    outs = []
    for i, s in enumerate(stmts):
      res = self.stmt(s, st)
      fall = None
      for o in res:
        if o.kind == 'fall':
          fall = o
        else:
          outs.append(o)
      if fall is None or FALSE in fall.st.pc:
        return outs
      st = fall.st
    outs.append(Outcome('fall', st))
    return outs

  def stmt(self, n, st):
    self.steps += 1
    if self.steps > self.max_steps:
      raise Budget(self.frames[st.frame].func)
    m = getattr(self, 's_' + type(n).__name__, None)
    if m is None:
      self.unknown.append(n)
      return [Outcome('fall', st)]
    r = m(n, st)
    return [Outcome('fall', st)] if r is None else r

  def s_Expr(self, n, st):
    if isinstance(n.value, ast.Constant):
      return
    self.eval(n.value, st)

  def s_Pass(self, n, st):
    pass

  def s_Assign(self, n, st):
    v = self.eval(n.value, st)
    for t in n.targets:
      self.assign(t, v, st, n)

  def s_AnnAssign(self, n, st):
    if n.value is not None:
      self.assign(n.target, self.eval(n.value, st), st, n)

  def assign(self, target, v, st, node):
    if isinstance(target, ast.Name):
      st.env[target.id] = v
    elif isinstance(target, (ast.Tuple, ast.List)):
      self.unpack(target.elts, v, st, node)
    elif isinstance(target, ast.Starred):
      self.assign(target.value, v, st, node)
    elif isinstance(target, ast.Attribute):
      base = self.eval(target.value, st)
      self.setattr(base, target.attr, v, st, node, target.value)
    elif isinstance(target, ast.Subscript):
      base = self.eval(target.value, st)
      k = self.reify(self.eval(target.slice, st), st)
      self.setitem(base, k, v, st, node, target.value)
    else:
      self.unknown.append(target)

  def unpack(self, elts, v, st, node):
    if v.op == 'ite':
      c = v.args[0]
      s1, s2 = st.copy(), st.copy()
      self.unpack(elts, v.args[1], s1, node)
      self.unpack(elts, v.args[2], s2, node)
      self.merge_env(c, s1, s2, st)
      return
    c = self.deref(v, st)
    star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
    its = tm.plain_items(c) if c.op in ('list', 'tuple') else None
    if its is not None and not star and len(its) == len(elts):
      for e, x in zip(elts, its):
        self.assign(e, x, st, node)
      return
    if its is not None and star:
      i = star[0]
      tail = len(elts) - i - 1
      for e, x in zip(elts[:i], its[:i]):
        self.assign(e, x, st, node)
      mid = its[i:len(its) - tail]
      self.assign(elts[i], self.alloc(st, tm.lst(*mid)), st, node)
      for e, x in zip(elts[i + 1:], its[len(its) - tail:]):
        self.assign(e, x, st, node)
      return
    c = self.reify(c, st)
    for i, e in enumerate(elts):
      if isinstance(e, ast.Starred):
        self.assign(e, mk('index', c, mk('slice', const(i), const(
            i + 1 - len(elts)) if i + 1 < len(elts) else NONE, NONE)), st, node)
      elif star and i > star[0]:
        self.assign(e, lib.index(c, const(i - len(elts))), st, node)
      else:
        x = lib.index(c, const(i))
        et = self.elem_type(c, 'index')
        self.assign(e, x, st, node)

  def merge_env(self, c, s1, s2, st):
    env = {}
    for k in list(s1.env) + [k for k in s2.env if k not in s1.env]:
      a, b = s1.env.get(k, tm.UNDEF), s2.env.get(k, tm.UNDEF)
      env[k] = a if a is b else (
          b if a is tm.UNDEF else a if b is tm.UNDEF else
          self.mk_ite(c, a, b, st))
    st.env.clear()
    st.env.update(env)
    self.merge_heap(c, s1, s2, st)

  def setattr(self, base, name, v, st, node, expr=None):
    new = self.with_attr(base, name, v, st, node)
    if new is not base:
      self.put_back(expr, base, new, st, node)

  def with_attr(self, base, name, v, st, node):
    """The object after `base.name = v` (the same one if it is in the heap)."""
    if base.op == 'ref':
      c = st.heap.get(base.args[0])
      if c is not None and c.op == 'new':
        setter = self.p.find_setter(c.args[0], name)
        if setter:
          self.call_func(setter, [base, v], [], st, node)
          return base
        fields = dict(c.args[1])
        fields[name] = v
        st.heap[base.args[0]] = mk('new', c.args[0],
                                   tuple(sorted(fields.items())))
        self.event('setfield', st, (base, mk('const', 'str', name),
                                    self.reify(v, st)), node)
        if self.snaps is not None:
          self.snaps.append((len(self.log), st.copy()))
        return base
    if base.op == 'ite':
      return self.each_branch(base, lambda x, s: self.with_attr(
          x, name, v, s, node), st)
    v = self.reify(v, st)
    base2 = self.reify(base, st)
    self.event('setattr', st, (base2, const(name), v), node)
    if base.op in NOT_STORED:
      return base
    return mk('withattr', base2, name, v)

  def each_branch(self, base, f, st):
    out = []
    for cnd, x in ((base.args[0], base.args[1]),
                   (tm.lnot(base.args[0]), base.args[2])):
      with self.only_if(cnd, st) as s:
        out.append(f(x, s))
    if out[0] is base.args[1] and out[1] is base.args[2]:
      return base
    return self.mk_ite(base.args[0], out[0], out[1], st)

  def put_back(self, expr, old, new, st, node):
    """The object held by the expression was changed in place."""
    self.rebind(old, new, st)
    if not isinstance(expr, (ast.Attribute, ast.Subscript)):
      return
    mark = len(self.log)
    obj = self.eval(expr.value, st)
    if isinstance(expr, ast.Attribute):
      if expr.attr == 'coords' and new.op == 'attr':
        del self.log[mark:]
        self.put_back(expr.value, obj, new.args[0], st, node)
        return
      obj2 = self.with_attr(obj, expr.attr, new, st, node)
    else:
      k = self.reify(self.eval(expr.slice, st), st)
      obj2 = self.with_item(obj, k, new, st, node)
    del self.log[mark:]
    if obj2 is not obj:
      self.put_back(expr.value, obj, obj2, st, node)

  @contextlib.contextmanager
  def only_if(self, cnd, st):
    """A state whose writes take effect in `st` when the condition holds."""
    before = dict(st.heap)
    s = st.copy()
    s.heap = st.heap
    s.pc = st.pc + (cnd,)
    yield s
    for r, c in list(st.heap.items()):
      if r in before and before[r] is not c:
        st.heap[r] = self.merge_content(cnd, c, before[r])

  def rebind(self, old, new, st):
    """All names currently holding the object `old` now see `new`."""
    for k, v in list(st.env.items()):
      if v is old:
        st.env[k] = new
    if old in self.types:
      self.types.setdefault(new, self.types[old])

  def setitem(self, base, k, v, st, node, expr=None):
    k = lib.part(k)
    new = self.with_item(base, k, v, st, node)
    if new is not base:
      self.put_back(expr, base, new, st, node)

  def with_item(self, base, k, v, st, node):
    """The object after `base[k] = v` (the same one if it is in the heap)."""
    if base.op == 'ite':
      return self.each_branch(base, lambda x, s: self.with_item(
          x, k, v, s, node), st)
    if base.op == 'ref':
      c = st.heap.get(base.args[0])
      if c is not None and c.op == 'dict':
        st.heap[base.args[0]] = tm.seq('dict', list(c.args) + [mk('kv', k, v)])
        self.event('localset', st, (base, k, self.reify(v, st)), node)
        return base
      if c is not None and c.op == 'list':
        its = tm.plain_items(c)
        if its is not None and k.op == 'num' and -len(its) <= int(
            k.args[0]) < len(its):
          its[int(k.args[0])] = v
          st.heap[base.args[0]] = tm.lst(*its)
        else:
          st.heap[base.args[0]] = mk('list', mk('splat', mk(
              'mutated', 'setitem', self.reify(c, st), k, self.reify(v, st))))
        return base
      cls = self.class_of(base, st)
      if cls:
        f, _ = self.p.lookup(cls, '__setitem__')
        if isinstance(f, Func):
          self.call_func(f, [base, k, v], [], st, node)
          return base
    if base.op == 'index' and base.args[0].op == 'ref':
      r = base.args[0]
      c = st.heap.get(r.args[0])
      if c is not None and c.op == 'dict':
        self.event('setpath', st, (self.reify(base, st), k,
                                   self.reify(v, st)), node)
        st.heap[r.args[0]] = mk('dict', *c.args, mk(
            'kvpath', base.args[1], k, self.reify(v, st)))
        return base
    v = self.reify(v, st)
    rb = self.reify(base, st)
    self.event('setitem', st, (rb, k, v), node)
    if base.op == 'attr' and base.args[1] == 'coords':
      return mk('attr', lib.assign_coords(base.args[0], k, v), 'coords')
    if base.op in NOT_STORED:
      return base
    return lib.with_item(rb, k, v)

  def s_AugAssign(self, n, st):
    t = n.target
    rhs = self.eval(n.value, st)
    op = self.BINOPS[type(n.op)]
    cur = self.eval(_as_load(t), st)
    if cur.op == 'ref' and op in ('+', '|'):
      c = st.heap.get(cur.args[0])
      if c is not None and c.op in ('list', 'set', 'dict'):
        if c.op == 'dict':
          st.heap[cur.args[0]] = tm.seq('dict', list(c.args) + [
              mk('dsplat', self.deref(rhs, st))])
        else:
          st.heap[cur.args[0]] = tm.seq(c.op, list(c.args) + self.splat_segs(
              rhs, st))
        return
    new = self.binop(op, cur, rhs, st, n)
    self.event('aug', st, (self.reify(cur, st), const(op),
                           self.reify(rhs, st)), n)
    self.assign(t, new, st, n)

  def s_Delete(self, n, st):
    for t in n.targets:
      if isinstance(t, ast.Name):
        st.env.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        base = self.eval(t.value, st)
        k = self.reify(self.eval(t.slice, st), st)
        if base.op == 'ref' and base.args[0] in st.heap:
          c = st.heap[base.args[0]]
          if c.op == 'dict':
            segs = [s for s in c.args if not (s.op == 'kv' and s.args[0] is k)]
            if len(segs) != len(c.args):
              st.heap[base.args[0]] = mk('dict', *segs)
            else:
              st.heap[base.args[0]] = mk('dict', mk('dsplat', mk(
                  'without', self.reify(c, st), k)))
            continue
        rb = self.reify(base, st)
        self.event('delitem', st, (rb, k), n)
        if base.op == 'attr' and base.args[1] == 'coords':
          self.rebind(base.args[0], mk('without', base.args[0], k), st)
        else:
          self.rebind(base, mk('without', base, k), st)
      elif isinstance(t, ast.Attribute):
        base = self.reify(self.eval(t.value, st), st)
        self.event('delattr', st, (base, const(t.attr)), n)

  def s_Return(self, n, st):
    v = NONE if n.value is None else self.eval(n.value, st)
    return [Outcome('return', st, v)]

  def s_Raise(self, n, st):
    exc = self.reify(self.eval(n.exc, st), st) if n.exc else mk('reraise')
    cause = self.reify(self.eval(n.cause, st), st) if n.cause else NONE
    self.event('raise', st, (exc, cause), n)
    return []

  def s_Assert(self, n, st):
    c = tm.truth(self.reify(self.eval_bool(n.test, st), st))
    if c is TRUE:
      return
    s2 = st.copy()
    s2.pc = st.pc + (tm.lnot(c),)
    self.event('assert', s2, (c,), n)
    st.assumed = st.assumed + (c,)

  def s_Global(self, n, st):
    pass

  def s_Nonlocal(self, n, st):
    self.event('nonlocal', st, tuple(const(x) for x in n.names), n)

  def s_Import(self, n, st):
    info = self.frames[st.frame]
    table = {}
    info.module.add_import(n, table)
    for k, d in table.items():
      st.env[k] = self.dotted(self.p.canon(d))

  s_ImportFrom = s_Import

  def s_FunctionDef(self, n, st):
    i = next(self._ids)
    info = self.frames[st.frame]
    env = dict(st.env)
    t = mk('closure', i)
    self.closures[i] = Closure(n, info.module, env, st.frame, info.cls,
                               f'{info.func}.{n.name}')
    env[n.name] = t
    st.env[n.name] = t

  def s_ClassDef(self, n, st):
    st.env[n.name] = mk('localclass', n.name, next(self._ids))

  def under_pc(self, c, st):
    """Simplify a condition using the path condition."""
    if c.op in ('const',):
      return c
    if not st.pc and not st.assumed:
      return c
    facts = set()
    for p in st.pc + st.assumed:
      facts.add(p)
      if p.op == 'and':
        facts.update(p.args)
    def simp(t):
      if t in facts:
        return TRUE
      if tm.lnot(t) in facts:
        return FALSE
      if t.op == 'and':
        return tm.land(*[simp(a) for a in t.args])
      if t.op == 'or':
        return tm.lor(*[simp(a) for a in t.args])
      return t
    return simp(c)

  def branch_taken(self, v, st):
    while v.op == 'ite':
      c = self.under_pc(v.args[0], st)
      if c is not TRUE and c is not FALSE:
        break
      v = v.args[1 if c is TRUE else 2]
    return v

  def s_If(self, n, st):
    c = tm.truth(self.reify(self.eval_bool(n.test, st), st))
    c = self.under_pc(c, st)
    if c is TRUE:
      return self.block(n.body, st)
    if c is FALSE:
      return self.block(n.orelse, st)
    s1, s2 = st.copy(), st.copy()
    s1.pc = st.pc + (c,)
    s2.pc = st.pc + (tm.lnot(c),)
    if self.raising(n.orelse) and not self.raising(n.body):
      o2 = self.block(n.orelse, s2)
      if not self._live(o2):
        # what the other branch does happens whenever this is passed at all
        s1.pc, s1.assumed = st.pc, s1.assumed + (c,)
        return self.block(n.body, s1)
      return self.join(c, self.block(n.body, s1), o2, st)
    o1 = self.block(n.body, s1)
    if self.raising(n.body) and n.orelse and not self._live(o1):
      s2.pc, s2.assumed = st.pc, s2.assumed + (tm.lnot(c),)
      return self.block(n.orelse, s2)
    return self.join(c, o1, self.block(n.orelse, s2), st)

  @staticmethod
  def raising(body):
    return bool(body) and isinstance(body[-1], ast.Raise)

  @staticmethod
  def _live(outs):
    return [o for o in outs if o.kind != 'fall' or FALSE not in o.st.pc]

  def join(self, c, o1, o2, st):
    n = len(st.pc)
    o1, o2 = self._live(o1), self._live(o2)
    if not o1 or not o2:
      # one branch always raises: the other branch's condition is a fact
      fact = tm.lnot(c) if not o1 else c
      for o in o1 or o2:
        if len(o.st.pc) > n and o.st.pc[n] is fact:
          o.st.pc = o.st.pc[:n] + o.st.pc[n + 1:]
          o.st.assumed = o.st.assumed + (fact,)
      return o1 or o2
    out = [o for o in o1 if o.kind != 'fall'] + [
        o for o in o2 if o.kind != 'fall']
    f1 = [o for o in o1 if o.kind == 'fall' and FALSE not in o.st.pc]
    f2 = [o for o in o2 if o.kind == 'fall' and FALSE not in o.st.pc]
    if f1 and f2:
      a, b = f1[0].st, f2[0].st
      n = len(st.pc)
      m = State({}, {}, st.pc, st.frame, tuple(
          x for x in a.assumed if x in b.assumed) + tuple(
              tm.lor(tm.lnot(c), x) for x in a.assumed
              if x not in b.assumed) + tuple(
                  tm.lor(c, x) for x in b.assumed if x not in a.assumed))
      self.merge_env(c, a, b, m)
      rest = tm.lor(tm.land(*a.pc[n:]), tm.land(*b.pc[n:]))
      if rest is not TRUE:
        m.pc = st.pc + (rest,)
      out.append(Outcome('fall', m))
    elif f1 or f2:
      out.append((f1 or f2)[0])
    return out

  def s_With(self, n, st):
    with contextlib.ExitStack() as stack:
      for item in n.items:
        v = self.reify(self.eval(item.context_expr, st), st)
        self.event('with', st, (v,), n)
        if item.optional_vars is not None:
          self.assign(item.optional_vars, mk('enter', v), st, n)
        stack.enter_context(self.region('with', id(n), v))
      return self.block(n.body, st)

  def s_Try(self, n, st):
    pre = st.copy()
    self.event('try', st, (), n)
    start = len(self.log)
    with self.region('try', id(n), 'body'):
      outs = self.block(n.body, st)
    tried = tuple(dict.fromkeys(
        self.reify(e.data[0], st) for e in self.log[start:]
        if e.kind == 'call' and not harmless(e.data[0])))
    falls = [o for o in outs if o.kind == 'fall']
    rest = [o for o in outs if o.kind != 'fall']
    cur = None
    if falls:
      with self.region('try', id(n), 'else'):
        res = self.block(n.orelse, falls[0].st)
      cur = [o for o in res if o.kind == 'fall']
      rest += [o for o in res if o.kind != 'fall']
      cur = cur[0] if cur else None
    base_n = len(pre.pc)
    for h in n.handlers:
      ty = self.eval(h.type, pre) if h.type is not None else mk(
          'ext', 'builtins.BaseException')
      tname = tm.show(self.reify(ty, pre))
      c = self.failed_lookup(n, tname, pre)
      if c is None:
        c = mk('exc', tried, tname)
      s = pre.copy()
      s.pc = pre.pc + (c,)
      if h.name:
        s.env[h.name] = mk('caught', c)
      with self.region('try', id(n), 'handler', tname, id(h)):
        res = self.block(h.body, s)
      hf = [o for o in res if o.kind == 'fall' and FALSE not in o.st.pc]
      hr = [o for o in res if o.kind != 'fall']
      if hf:
        # the body only left where the handler did not take over and fall out
        for o in rest:
          if o.kind != 'raise':
            o.st.pc += (tm.lnot(tm.land(c, *hf[0].st.pc[base_n + 1:])),)
      # handler returns come first (guarded by the exc condition)
      rest = hr + rest
      if hf:
        if cur is None:
          cur = hf[0]
        else:
          m = State({}, {}, (), st.frame)
          self.merge_env(c, hf[0].st, cur.st, m)
          r = tm.lor(tm.land(*hf[0].st.pc[base_n:]),
                     tm.land(*cur.st.pc[base_n:]))
          m.pc = pre.pc + ((r,) if r is not TRUE else ())
          cur = Outcome('fall', m)
    if n.finalbody:
      if cur is not None:
        with self.region('try', id(n), 'finally'):
          res = self.block(n.finalbody, cur.st)
        rest += [o for o in res if o.kind != 'fall']
        cur = next((o for o in res if o.kind == 'fall'), None)
      else:
        with self.region('try', id(n), 'finally'):
          self.block(n.finalbody, pre.copy())
    return rest + ([cur] if cur is not None else [])

  def failed_lookup(self, n, tname, pre):
    """try: x = d[k]  except KeyError  is a test whether k is in d."""
    kind = tname.rsplit('.', 1)[-1]
    if len(n.body) != 1 or kind not in ('KeyError', 'AttributeError'):
      return None
    inner = [x for x in ast.walk(n.body[0]) if isinstance(
        x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr))]
    want = ast.Subscript if kind == 'KeyError' else ast.Attribute
    hits = [x for x in ast.walk(n.body[0]) if isinstance(x, want)
            and isinstance(x.ctx, ast.Load)]
    if inner or len(hits) != 1:
      return None
    x = hits[0]
    s = pre.copy()
    mark = len(self.log)
    base = self.reify(self.eval(x.value, s), s)
    if kind == 'KeyError':
      if isinstance(x.slice, ast.Slice):
        return None
      c = lib.contains(self.reify(self.eval(x.slice, s), s), base)
    else:
      c = mk('hasattr', base, const(x.attr))
    del self.log[mark:]
    return tm.lnot(tm.truth(c))

  s_TryStar = s_Try

  def s_Break(self, n, st):
    return [Outcome('break', st)]

  def s_Continue(self, n, st):
    return [Outcome('continue', st)]

  # ------------------------------------------------------------------- loops

  def s_For(self, n, st):
    it = self.eval(n.iter, st)
    plan = self.iter_plan(it, st)

    def body(v, s):
      self.assign(n.target, v, s, n)
      return self.block(n.body, s)

    outs, st2, broke = self.exec_plan(plan, st, body, n)
    if st2 is None:
      return outs
    if n.orelse:
      res = self.block(n.orelse, st2)
      return outs + res
    return outs + [Outcome('fall', st2)]

  def s_While(self, n, st):
    f = _as_for(n)
    if f is not None:
      return self.s_For(f, st)
    cond = self.reify(self.eval_bool(n.test, st), st)
    b = self.fresh()
    plan = [('loop', b, mk('while', tm.truth(cond)), [('elem', b)])]

    def body(v, s):
      return self.block(n.body, s)

    outs, st2, broke = self.exec_plan(plan, st, body, n)
    if st2 is None:
      return outs
    return outs + [Outcome('fall', st2)]

  def exec_plan(self, plan, st, body, node):
    """-> (non-fall outcomes, state after or None, broke)."""
    outs = []
    base_n = len(st.pc)
    broke_states = []
    for p in plan:
      if p[0] == 'elem':
        res = body(p[1], st)
        nxt = None
        for o in res:
          if o.kind in ('fall', 'continue'):
            if nxt is None:
              nxt = o.st
            else:
              nxt = self.merge_two(nxt, o.st, base_n, st.frame)
          elif o.kind == 'break':
            broke_states.append(o.st)
          else:
            outs.append(o)
        if nxt is None:
          st = None
          break
        st = nxt
      elif p[0] == 'guard':
        c = self.under_pc(p[1], st)
        if c is FALSE:
          continue
        s1, s2 = st.copy(), st.copy()
        if c is not TRUE:
          s1.pc = st.pc + (c,)
          s2.pc = st.pc + (tm.lnot(c),)
        o, s1b, _ = self.exec_plan(p[2], s1, body, node)
        outs.extend(o)
        if c is TRUE:
          st = s1b
        elif s1b is None:
          st = s2
        else:
          m = State({}, {}, st.pc, st.frame, st.assumed)
          self.merge_env(c, s1b, s2, m)
          st = m
        if st is None:
          break
      else:
        o, st = self.summarise(p, st, body, node)
        outs.extend(o)
        if st is None:
          break
    for b in broke_states:
      st = b if st is None else self.merge_two(b, st, base_n, b.frame)
    return outs, st, bool(broke_states)

  def merge_two(self, a, b, base_n, frame):
    """a's path has priority: condition = a.pc beyond the base."""
    c = tm.land(*a.pc[base_n:])
    m = State({}, {}, a.pc[:base_n], frame,
              tuple(x for x in a.assumed if x in b.assumed))
    self.merge_env(c, a, b, m)
    r = tm.lor(c, tm.land(*b.pc[base_n:]))
    if r is not TRUE:
      m.pc = m.pc + (r,)
    return m

  def summarise(self, p, st, body, node):
    _, b, it, inner = p
    it = self.reify(it, st)
    saved_loops = self.loops
    self.loops = saved_loops + ((b, it),)
    loops_here = self.loops
    log_mark = len(self.log)
    assigned = _assigned_names(node)
    names = [x for x in assigned if x in st.env]

    def run(refs):
      s = st.copy()
      accs = {}
      for x in names:
        a = mk('acc', b.args[0], x)
        accs[x] = a
        self.acc_init[a] = self.reify(st.env[x], st)
        if st.env[x] in self.types:
          self.types.setdefault(a, self.types[st.env[x]])
        if st.env[x].op == 'ref' and x not in refs.get('names', ()):
          # a name bound to a container: keep the binding unless reassigned
          accs.pop(x)
          continue
        s.env[x] = a
      for r in refs.get('heap', ()):
        c = st.heap[r]
        self.acc_init[mk('accref', b.args[0], r)] = self.reify(c, st)
        if c.op == 'list' or c.op == 'set':
          s.heap[r] = mk(c.op, mk('splat', mk('accref', b.args[0], r)))
        elif c.op == 'dict':
          s.heap[r] = mk('dict', mk('dsplat', mk('accref', b.args[0], r)))
        elif c.op == 'new':
          s.heap[r] = mk('new', c.args[0], tuple(
              (k, mk('acc', b.args[0], f'{r}.{k}') if (r, k) in refs.get(
                  'fields', ()) else v) for k, v in c.args[1]))
      outs, after, _ = self.exec_plan(inner, s, body, node)
      return outs, after, accs

    # Pass 1: find mutated heap objects / rebound container names.
    mark_ids = self._ids
    outs, after, accs = run({})
    changed, fields, renames = set(), set(), set()
    cands = [o.st for o in outs] + ([after] if after is not None else [])
    for s in cands:
      for r, c in st.heap.items():
        c2 = s.heap.get(r, c)
        if c2 is not c:
          changed.add(r)
          if c.op == 'new' and c2.op == 'new':
            f1, f2 = dict(c.args[1]), dict(c2.args[1])
            for k in f1:
              if f2.get(k) is not f1[k]:
                fields.add((r, k))
      for x in names:
        if st.env[x].op == 'ref' and s.env.get(x) is not st.env[x]:
          renames.add(x)
    if changed or renames:
      del self.log[log_mark:]
      self.loops = loops_here
      outs, after, accs = run(
          {'heap': changed, 'fields': fields, 'names': renames})
    self.loops = saved_loops
    # Returns inside the loop.
    ret_outs = []
    exit_c = FALSE
    n = len(st.pc)
    rets = [o for o in outs if o.kind == 'return']
    if rets:
      segs = []
      cs = []
      for o in rets:
        c = tm.land(*o.st.pc[n:])
        cs.append(c)
        segs.extend(tm.guard(c, [mk('item', self.reify(o.val, o.st))]))
      anyc = mk('any', tm.mk_comp(b, it, [mk('item', tm.lor(*cs))]))
      val = mk('first', tm.mk_comp(b, it, segs))
      s = st.copy()
      s.pc = st.pc + (anyc,)
      ret_outs.append(Outcome('return', s, val))
      exit_c = anyc
    if after is None:
      if rets:
        # every iteration leaves the function: fall through only when empty
        s = st.copy()
        s.pc = st.pc + (tm.lnot(exit_c),)
        return ret_outs, s
      s = st.copy()
      s.pc = st.pc + (tm.lnot(mk('truth', it)),)
      return ret_outs, s
    # Build the post state.
    post = st.copy()
    extra = after.pc[n:]
    # every accumulator with its initial value and its value after one pass
    accset = {}
    for x, u in accs.items():
      if x in after.env:
        accset[u] = (st.env[x], after.env[x])
    for r in changed:
      accset[mk('accref', b.args[0], r)] = (st.heap[r], after.heap[r])
    for r, k in fields:
      accset[mk('acc', b.args[0], f'{r}.{k}')] = (
          dict(st.heap[r].args[1])[k],
          dict(after.heap[r].args[1]).get(k, tm.UNDEF))
    for x in after.env:
      v = after.env[x]
      if x in accs:
        post.env[x] = self.fold(st.env[x], accs[x], v, b, it, accset, after)
      elif x in st.env:
        post.env[x] = st.env[x] if v is st.env[x] else v
        if x in assigned and v is not st.env[x]:
          post.env[x] = self.fold(st.env[x], None, v, b, it, accset, after)
      else:
        post.env[x] = self.last(v, b, it, after)
    for r, c in list(after.heap.items()):
      if r not in st.heap:
        post.heap[r] = c
      elif r in changed:
        old = st.heap[r]
        if old.op in ('list', 'set', 'dict'):
          post.heap[r] = self.fold_seq(old, mk('accref', b.args[0], r), c, b,
                                       it, accset, after)
        elif old.op == 'new' and c.op == 'new':
          fo, fn_ = dict(old.args[1]), dict(c.args[1])
          out = {}
          for k in fn_:
            a = mk('acc', b.args[0], f'{r}.{k}')
            if (r, k) in fields:
              out[k] = self.fold(fo.get(k, tm.UNDEF), a, fn_[k], b, it, accset,
                                 after)
            elif k not in fo:
              out[k] = self.last(fn_[k], b, it, after)
            else:
              out[k] = fo[k]
          post.heap[r] = mk('new', old.args[0], tuple(sorted(out.items())))
    # values in heap cells allocated in the loop may mention the binder; they
    # are only reachable through reified terms.
    if exit_c is not FALSE:
      post.pc = post.pc + (tm.lnot(exit_c),)
    del extra, mark_ids
    return ret_outs, post

  def last(self, v, b, it, after):
    if v.op in ('closure', 'func', 'cls', 'ext', 'mod') or tm.is_const(v):
      return v
    v = self.reify(v, after)
    if not tm.contains(v, b):
      return v
    return mk('last', tm.mk_comp(b, it, [mk('item', v)]))

  def fold(self, init, acc, val, b, it, accset, after):
    if acc is not None and val is acc:
      return init
    val = self.reify(val, after)
    used = {u for u in tm.walk(val) if u in accset}
    if not used:
      if not tm.contains(val, b):
        # rebinding to a loop-invariant value: may stay init on empty loops
        return val if val is init else mk('last', tm.mk_comp(
            b, it, [mk('item', val)]), init)
      return mk('last', tm.mk_comp(b, it, [mk('item', val)]), init)
    if acc is not None and used == {acc}:
      segs = stores(val, acc)
      if segs:
        init = self.branch_taken(self.reify(init, after), after)
        # x[k] = f(x[k]) over distinct keys reads the original entries
        at = {mk('index', acc, b): lib.index(init, b)}
        if all(_keyed_by(s, b) for s in segs):
          segs = [tm.subst(s, at) for s in segs]
        if not any(tm.contains(s, acc) for s in segs):
          return lib.with_items(init, self._close(b, it, segs))
      if val.op == 'sum':
        d = dict(val.args[1])
        if d.get(acc) == 1:
          rest = tm.sub(val, acc)
          if not tm.contains(rest, acc):
            return tm.add(init, mk('bsum', tm.seq('list', tm.comp(
                b, it, [mk('item', rest)]))))
      if val.op == 'prod':
        d = dict(val.args[0])
        if d.get(acc) == 1:
          rest = tm.div(val, acc)
          if not tm.contains(rest, acc):
            return tm.mul(init, mk('bprod', tm.seq('list', tm.comp(
                b, it, [mk('item', rest)]))))
      for op in ('bor', 'band'):
        if val.op == op and acc in val.args:
          rest = [x for x in val.args if x is not acc]
          if not any(tm.contains(x, acc) for x in rest):
            f = tm.bor if op == 'bor' else tm.band
            if it.op == 'index' and it.args[1] is mk(
                'slice', const(1), NONE, NONE) and tm.subst(f(*rest), {
                    b: lib.index(it.args[0], tm.ZERO)}) is init:
              # x[0] and then all of x[1:]
              whole = it.args[0]
              return mk('fold_' + op, whole if f(*rest) is b else tm.seq(
                  'list', tm.comp(b, whole, [mk('item', f(*rest))])))
            return f(init, mk('fold_' + op, tm.seq('list', tm.comp(
                b, it, [mk('item', f(*rest))]))))
    return self.fold_sys(init, acc, val, b, it, accset, after)

  def fold_sys(self, init, acc, val, b, it, accset, after):
    """A recurrence: the target with every accumulator it depends on."""
    anon = mk('accv', '?')
    target = acc if acc is not None else NONE
    parts = {target: (self.reify(init, after), val)}
    todo = [val]
    while todo:
      t = todo.pop()
      for u in tm.walk(t):
        if u in accset and u not in parts:
          i, v = accset[u]
          i, v = self.reify(i, after), self.reify(v, after)
          parts[u] = (i, v)
          todo.append(v)
    every = {u: anon for u in parts}
    rest = sorted((u for u in parts if u is not target), key=lambda u: (
        tm.key(tm.subst(mk('pair', *parts[u]), every)), u.uid))
    order = [target] + rest
    sub = {u: mk('accv', i) for i, u in enumerate(order)}
    body = mk('foldbody', *[tm.subst(parts[u][1], sub) for u in order])
    return mk('fold', tuple(parts[u][0] for u in order),
              tm.mk_comp(b, it, [mk('item', body)]))

  def fold_seq(self, old, accref, new, b, it, accset, after):
    new = self.reify(new, after)
    kind = old.op
    sp = mk('dsplat' if kind == 'dict' else 'splat', accref)
    if new.op == kind and new.args and new.args[0] is sp:
      segs = new.args[1:]
      if not any(tm.contains_any(s, accset) for s in segs):
        return tm.seq(kind, list(old.args) + self._close(b, it, segs))
    if kind == 'dict' and new.op == kind and new.args and (
        new.args[0] is sp) and (_distinct(it) or any(
            x.op == 'dsplat' and x.args[0] is it for x in old.args)):
      # d[k] = f(d[k]) over distinct keys reads the original entries
      cur = mk('index', accref, b)
      base = tm.seq('dict', old.args)
      orig = lib.index(base, b)
      segs = [tm.subst(s, {cur: orig}) for s in new.args[1:]]
      if not any(tm.contains_any(s, accset) for s in segs) and all(
          _keyed_by(s, b) for s in segs):
        return tm.seq(kind, list(old.args) + self._close(b, it, segs))
    if new.op == kind == 'set' and sp in new.args:
      segs = [s for s in new.args if s is not sp]
      if not any(tm.contains_any(s, accset) for s in segs):
        return tm.seq(kind, list(old.args) + self._close(b, it, segs))
    inner = self.fold_sys(old, accref, new, b, it, accset, after)
    return mk(kind, mk('dsplat' if kind == 'dict' else 'splat', inner))

  def _close(self, b, it, segs):
    segs = list(segs)
    if len(segs) == 1 and segs[0].op == 'item' and segs[0].args[0] is b:
      return [mk('splat', it)]
    return tm.comp(b, it, segs)


# Values that cannot hold anything, or whose identity is not tracked.
NOT_STORED = {'const', 'num', 'func', 'cls', 'mod', 'ext', 'closure', 'ref',
              'undef', 'unknown'}


def stores(val, acc):
  """[] of dict segments if val is acc with further entries, else None."""
  if val is acc:
    return []
  if val.op in ('withitem', 'withitems'):
    rest = stores(val.args[0], acc)
    if rest is None:
      return None
    return rest + ([mk('kv', *val.args[1:])] if val.op == 'withitem' else list(
        val.args[1].args))
  if val.op == 'ite':
    a, b = stores(val.args[1], acc), stores(val.args[2], acc)
    if a is None or b is None:
      return None
    return tm.guard(val.args[0], a) + tm.guard(tm.lnot(val.args[0]), b)
  return None


def _distinct(it):
  """The elements of the iterable differ from each other."""
  if it.op in ('dict_keys', 'set', 'dict'):
    return True
  if it.op in ('in', 'param'):
    return False
  return it.op == 'call' and it.args[0].op == 'ext' and it.args[0].args[0] in (
      'builtins.range', 'builtins.set')


def _keyed_by(seg, b):
  if seg.op == 'kv':
    return seg.args[0] is b
  if seg.op == 'guard':
    return all(_keyed_by(s, b) for s in seg.args[1:])
  return False


def _is_generator(fnode):
  stack = list(fnode.body)
  while stack:
    n = stack.pop()
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
      return True
    stack.extend(ast.iter_child_nodes(n))
  return False


def _assigned_names(node):
  out = []

  def rec(n):
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and (
        n is not node):
      if not isinstance(n, ast.Lambda):
        out.append(n.name)
      return
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      out.append(n.id)
    # x[k] = v / x.a = v on opaque values rebinds the name functionally
    if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(
        n.ctx, (ast.Store, ast.Del)):
      r = n
      while isinstance(r, (ast.Subscript, ast.Attribute)):
        r = r.value
      if isinstance(r, ast.Name):
        out.append(r.id)
    if isinstance(n, ast.comprehension):
      rec(n.iter)
      for i in n.ifs:
        rec(i)
      return
    for c in ast.iter_child_nodes(n):
      rec(c)
  rec(node)
  return list(dict.fromkeys(out))


def _as_for(n):
  """while True: ..try: ..next(it).. except StopIteration: break.., as a for."""
  if not (isinstance(n.test, ast.Constant) and n.test.value) or n.orelse:
    return None
  tries = [x for x in n.body if isinstance(x, ast.Try)]
  if not tries:
    return None
  t = tries[0]
  i = n.body.index(t)
  if any(not isinstance(x, ast.Assign) for x in n.body[:i]):
    return None
  if len(t.handlers) != 1 or t.finalbody:
    return None
  h = t.handlers[0]
  if not (isinstance(h.type, ast.Name) and h.type.id == 'StopIteration'
          and len(h.body) == 1 and isinstance(h.body[0], ast.Break)):
    return None
  calls = [c for s in t.body for c in ast.walk(s) if isinstance(c, ast.Call)
           and isinstance(c.func, ast.Name) and c.func.id == 'next']
  if len(calls) != 1 or len(calls[0].args) != 1 or not isinstance(
      calls[0].args[0], ast.Name):
    return None
  call = calls[0]
  if not any(isinstance(s, ast.Assign) and s.value is call for s in t.body):
    return None
  name = f'__next_{n.lineno}'

  class R(ast.NodeTransformer):

    def visit_Call(self, c):
      if ast.dump(c) == ast.dump(call):
        return ast.copy_location(ast.Name(id=name, ctx=ast.Load()), c)
      return self.generic_visit(c)

  body = n.body[:i] + [
      ast.copy_location(R().visit(s), s) for s in copy.deepcopy(t.body)
  ] + t.orelse + n.body[i + 1:]
  out = ast.For(target=ast.Name(id=name, ctx=ast.Store()), iter=call.args[0],
                body=body, orelse=[])
  return ast.fix_missing_locations(ast.copy_location(out, n))


def _as_load(t):
  t2 = ast.parse(ast.unparse(t), mode='eval').body
  ast.copy_location(t2, t)
  return t2
