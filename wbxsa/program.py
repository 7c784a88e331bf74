"""Whole-program index of /repo: modules, imports, classes (MRO), functions."""

from __future__ import annotations

import ast
import os


class AnalysisError(Exception):
  """An anchor the rules need no longer exists / cannot be analysed."""


class Func:
  __slots__ = ('qual', 'node', 'module', 'cls', 'kind', 'decorators')

  def __init__(self, qual, node, module, cls):
    self.qual = qual
    self.node = node
    self.module = module
    self.cls = cls
    self.decorators = [ast.unparse(d) for d in node.decorator_list]
    self.kind = 'function'
    for d in self.decorators:
      if d in ('staticmethod', 'classmethod'):
        self.kind = d
      elif d in ('property', 'functools.cached_property', 'cached_property',
                 'abc.abstractproperty'):
        self.kind = 'property'
      elif d.endswith('.setter'):
        self.kind = 'setter'

  @property
  def is_abstract(self):
    if any('abstractmethod' in d or 'abstractproperty' in d
           for d in self.decorators):
      return True
    body = [s for s in self.node.body if not (
        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) == 1 and isinstance(body[0], ast.Raise):
      e = body[0].exc
      return e is not None and 'NotImplementedError' in ast.unparse(e)
    return False

  @property
  def loc(self):
    return f'{self.module.relpath}:{self.node.lineno} ({self.qual})'


class Class:
  __slots__ = ('qual', 'node', 'module', 'methods', 'attrs', 'base_exprs',
               'fields', 'is_dataclass', 'frozen', 'setters', 'bases', 'field_nodes')

  def __init__(self, qual, node, module):
    self.qual = qual
    self.node = node
    self.module = module
    self.methods = {}
    self.setters = {}
    self.attrs = {}
    self.fields = []  # (name, default expr or None), dataclass order
    self.field_nodes = {}
    self.base_exprs = node.bases
    self.bases = []
    decs = [ast.unparse(d) for d in node.decorator_list]
    self.is_dataclass = any('dataclass' in d for d in decs)
    self.frozen = any('frozen=True' in d for d in decs)
    for s in node.body:
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        f = Func(f'{qual}.{s.name}', s, module, self)
        if f.kind == 'setter':
          self.setters[s.name] = f
        else:
          self.methods[s.name] = f
      elif isinstance(s, ast.Assign):
        for t in s.targets:
          if isinstance(t, ast.Name):
            self.attrs[t.id] = s.value
      elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
        self.fields.append((s.target.id, s.value))
        self.field_nodes[s.target.id] = s
        if s.value is not None:
          self.attrs[s.target.id] = s.value

  @property
  def name(self):
    return self.node.name


class Module:
  __slots__ = ('name', 'path', 'relpath', 'tree', 'source', 'imports', 'funcs',
               'classes', 'globals', 'is_pkg')

  def __init__(self, name, path, relpath, is_pkg):
    self.name = name
    self.path = path
    self.relpath = relpath
    self.is_pkg = is_pkg
    with open(path, encoding='utf-8') as f:
      self.source = f.read()
    self.tree = ast.parse(self.source, filename=path)
    self.imports = {}
    self.funcs = {}
    self.classes = {}
    self.globals = {}
    self._index(self.tree.body)

  def _index(self, body):
    for s in body:
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        self.funcs[s.name] = Func(f'{self.name}.{s.name}', s, self, None)
      elif isinstance(s, ast.ClassDef):
        self.classes[s.name] = Class(f'{self.name}.{s.name}', s, self)
      elif isinstance(s, (ast.Import, ast.ImportFrom)):
        self.add_import(s, self.imports)
      elif isinstance(s, ast.Assign):
        for t in s.targets:
          if isinstance(t, ast.Name):
            self.globals[t.id] = s.value
          elif isinstance(t, ast.Tuple):
            for e in t.elts:
              if isinstance(e, ast.Name):
                self.globals[e.id] = None
      elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
        self.globals[s.target.id] = s.value
      elif isinstance(s, ast.If):
        self._index(s.body)
        self._index(s.orelse)
      elif isinstance(s, ast.Try):
        self._index(s.body)
        for h in s.handlers:
          self._index(h.body)

  def add_import(self, s, table):
    if isinstance(s, ast.Import):
      for a in s.names:
        if a.asname:
          table[a.asname] = a.name
        else:
          table[a.name.split('.')[0]] = a.name.split('.')[0]
    else:
      base = s.module or ''
      if s.level:
        parts = self.name.split('.')
        if not self.is_pkg:
          parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        base = '.'.join(parts + ([s.module] if s.module else []))
      for a in s.names:
        table[a.asname or a.name] = f'{base}.{a.name}' if base else a.name


EXCLUDE_DIRS = {'.git', '__pycache__', 'docs', 'build'}


def is_test_file(path):
  """Unit-test modules and their helpers (t_test.py is neither)."""
  if path.endswith('test_utils.py'):
    return True
  if not path.endswith('_test.py'):
    return False
  with open(path, encoding='utf-8') as f:
    text = f.read()
  return any(w in text for w in ('absltest', 'unittest', 'pytest',
                                 'parameterized', 'TestCase'))


class Program:

  def __init__(self, root='/repo', packages=('weatherbenchX', 'public_benchmark',
                                             'evaluation_scripts'),
               spec_dir=None):
    self.root = root
    self.modules = {}
    for pkg in packages:
      base = os.path.join(root, pkg)
      for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x not in EXCLUDE_DIRS)
        for f in sorted(files):
          if not f.endswith('.py'):
            continue
          path = os.path.join(d, f)
          if is_test_file(path):
            continue
          rel = os.path.relpath(path, root)
          is_pkg = f == '__init__.py'
          name = rel[:-3].replace(os.sep, '.')
          if is_pkg:
            name = name[:-len('.__init__')]
          try:
            self.modules[name] = Module(name, path, rel, is_pkg)
          except SyntaxError as e:
            raise AnalysisError(f'cannot parse {rel}: {e}') from e
    if not self.modules:
      raise AnalysisError(f'no modules found under {root}')
    if spec_dir and os.path.isdir(spec_dir):
      for f in sorted(os.listdir(spec_dir)):
        if f.endswith('.py'):
          name = 'wbxspec.' + f[:-3]
          self.modules[name] = Module(name, os.path.join(spec_dir, f), f, False)
    self.classes = {}
    self.funcs = {}
    for m in self.modules.values():
      for c in m.classes.values():
        self.classes[c.qual] = c
        for f in c.methods.values():
          self.funcs[f.qual] = f
      for f in m.funcs.values():
        self.funcs[f.qual] = f
    for c in self.classes.values():
      c.bases = [self.resolve_base(c, b) for b in c.base_exprs]
    self._mro = {}
    self._subs = None

  def resolve_base(self, c, expr):
    if isinstance(expr, ast.Subscript):
      expr = expr.value
    return self.resolve_dotted_expr(c.module, expr)

  def resolve_dotted_expr(self, module, expr):
    """Dotted name (repo-qualified or external) an expression refers to."""
    if isinstance(expr, ast.Constant) and isinstance(expr.value, str):
      try:
        expr = ast.parse(expr.value, mode='eval').body
      except SyntaxError:
        return None
    if isinstance(expr, ast.Name):
      return self.resolve_name(module, expr.id)
    if isinstance(expr, ast.Attribute):
      b = self.resolve_dotted_expr(module, expr.value)
      return None if b is None else self.canon(f'{b}.{expr.attr}')
    return None

  def resolve_name(self, module, name):
    if name in module.classes:
      return module.classes[name].qual
    if name in module.funcs:
      return module.funcs[name].qual
    if name in module.imports:
      return self.canon(module.imports[name])
    if name in module.globals:
      return f'{module.name}.{name}'
    return f'builtins.{name}'

  def canon(self, dotted, depth=0):
    """Follow re-exports inside the repo."""
    if depth > 8 or dotted in self.modules or dotted in self.classes or (
        dotted in self.funcs):
      return dotted
    if '.' in dotted:
      m, n = dotted.rsplit('.', 1)
      m2 = self.canon(m, depth + 1)
      if m2 in self.modules:
        mod = self.modules[m2]
        if n in mod.classes:
          return mod.classes[n].qual
        if n in mod.funcs:
          return mod.funcs[n].qual
        if n in mod.imports and f'{m2}.{n}' not in self.modules:
          return self.canon(mod.imports[n], depth + 1)
      return f'{m2}.{n}'
    return dotted

  def mro(self, qual):
    if qual in self._mro:
      return self._mro[qual]
    c = self.classes[qual]
    seqs = []
    for b in c.bases:
      if b in self.classes:
        seqs.append(list(self.mro(b)))
    seqs.append([b for b in c.bases if b in self.classes])
    out = [qual]
    seqs = [s for s in seqs if s]
    while seqs:
      for s in seqs:
        cand = s[0]
        if not any(cand in t[1:] for t in seqs):
          break
      else:
        raise AnalysisError(f'inconsistent MRO for {qual}')
      out.append(cand)
      seqs = [[x for x in s if x != cand] for s in seqs]
      seqs = [s for s in seqs if s]
    self._mro[qual] = out
    return out

  def lookup(self, cls_qual, name, after=None):
    """(Func or class-attr expr, owner class) by MRO; `after`: super()."""
    mro = self.mro(cls_qual)
    if after is not None:
      mro = mro[mro.index(after) + 1:] if after in mro else []
    for q in mro:
      c = self.classes[q]
      if name in c.methods:
        return c.methods[name], c
      if name in c.attrs:
        return c.attrs[name], c
    return None, None

  def find_setter(self, cls_qual, name):
    for q in self.mro(cls_qual):
      if name in self.classes[q].setters:
        return self.classes[q].setters[name]
    return None

  def external_bases(self, cls_qual):
    """Dotted names of the library classes a class derives from."""
    out = set()
    for q in self.mro(cls_qual):
      c = self.classes.get(q)
      if c is not None:
        out |= {b for b in c.bases if b and b not in self.classes}
    return out

  def self_reads(self, cls_qual, func):
    """Names a method may read from its object, or None if it may read all."""
    memo = self.__dict__.setdefault('_self_reads', {})
    k = (cls_qual, func.qual)
    if k in memo:
      return memo[k]
    reads, done, todo = set(), set(), [func]
    while todo:
      f = todo.pop()
      if f.qual in done:
        continue
      done.add(f.qual)
      params = f.node.args.posonlyargs + f.node.args.args
      if f.kind in ('staticmethod', 'classmethod'):
        continue
      if not params:
        memo[k] = None
        return None
      me = params[0].arg
      owned = set()
      for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and (
            n.value.id == me):
          owned.add(id(n.value))
          reads.add(n.attr)
          g, _ = self.lookup(cls_qual, n.attr)
          if isinstance(g, Func):
            todo.append(g)
        elif isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'super':
          memo[k] = None
          return None
      for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == me and id(n) not in owned:
          memo[k] = None
          return None
    memo[k] = reads
    return reads

  def subclasses(self, qual):
    return [q for q in self.classes if q != qual and qual in self.mro(q)]

  def isa(self, qual, base):
    return qual in self.classes and base in self.mro(qual)

  def dataclass_fields(self, qual):
    out = []
    for q in reversed(self.mro(qual)):
      c = self.classes[q]
      if c.is_dataclass:
        for n, d in c.fields:
          ann = ast.unparse(c.field_nodes[n].annotation)
          if 'ClassVar' in ann:
            continue
          out = [x for x in out if x[0] != n] + [(n, d, c)]
    return out

  def is_dataclass(self, qual):
    return any(self.classes[q].is_dataclass for q in self.mro(qual))

  def repo_classes(self, prefix='weatherbenchX.'):
    return [c for q, c in sorted(self.classes.items()) if q.startswith(prefix)]

  def repo_funcs(self, prefix='weatherbenchX.'):
    return [f for q, f in sorted(self.funcs.items()) if q.startswith(prefix)]

  def spec_funcs(self):
    return [f for q, f in self.funcs.items() if q.startswith('wbxspec.')]

  # Lookup helpers for rules: find by unqualified name anywhere in the tree.

  def cls(self, name, required=True):
    """Class by qualified or bare name."""
    if name in self.classes:
      return self.classes[name]
    hits = [c for c in self.classes.values()
            if c.qual.endswith('.' + name)
            and not c.qual.startswith('wbxspec.')]
    if len(hits) == 1:
      return hits[0]
    if not hits:
      if required:
        raise AnalysisError(f'class {name} not found')
      return None
    raise AnalysisError(f'class {name} is ambiguous: {[h.qual for h in hits]}')

  def func(self, name, required=True):
    if name in self.funcs:
      return self.funcs[name]
    hits = [f for f in self.funcs.values() if f.qual.endswith('.' + name)
            and not f.qual.startswith('wbxspec.')]
    if len(hits) == 1:
      return hits[0]
    if not hits:
      if required:
        raise AnalysisError(f'function {name} not found')
      return None
    raise AnalysisError(f'function {name} ambiguous: {[h.qual for h in hits]}')
