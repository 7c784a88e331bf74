"""Behaviour-preserving rewrites of the repository, to look for false alarms.

python3 tools/refactor.py list
python3 tools/refactor.py run [KIND ...] [--files a.py,b.py]   all checks on each
python3 tools/refactor.py apply KIND DEST                      whole tree copy

A rewrite KIND is applied to every eligible site of one file at a time.
"""
import ast
import concurrent.futures as cf
import copy
import glob
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = '/repo'


def sources():
  out = []
  for p in sorted(glob.glob(REPO + '/weatherbenchX/**/*.py', recursive=True) +
                  glob.glob(REPO + '/public_benchmark/*.py') +
                  glob.glob(REPO + '/evaluation_scripts/*.py')):
    b = os.path.basename(p)
    if b.endswith('_test.py') and b != 't_test.py' or 'test_utils' in b or (
        b == '__init__.py'):
      continue
    out.append(os.path.relpath(p, REPO))
  return out


def names_in(n, ctx=None):
  return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)
          and (ctx is None or isinstance(x.ctx, ctx))}


def functions(tree):
  return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def params(f):
  a = f.args
  out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
  if a.vararg:
    out.append(a.vararg.arg)
  if a.kwarg:
    out.append(a.kwarg.arg)
  return out


def simple(f):
  """No scoping surprises."""
  return not any(isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield,
                                ast.YieldFrom)) for x in ast.walk(f))


def blocks(f):
  """Every statement list inside the function (not nested functions)."""
  out = []

  def rec(body):
    out.append(body)
    for s in body:
      if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        continue
      for k in ('body', 'orelse', 'finalbody'):
        b = getattr(s, k, None)
        if b:
          rec(b)
      for h in getattr(s, 'handlers', []):
        rec(h.body)
  rec(f.body)
  return out


class Fresh:
  def __init__(self):
    self.n = 0

  def __call__(self, base='tmp'):
    self.n += 1
    return f'{base}_{self.n}'


def name(i, store=False):
  return ast.Name(id=i, ctx=ast.Store() if store else ast.Load())


def assign(i, v):
  return ast.Assign(targets=[name(i, True)], value=v)


# ------------------------------------------------------------------ rewrites


def roundtrip(tree):
  pass


def rename_locals(tree):
  for f in functions(tree):
    if not simple(f):
      continue
    inner = [n for n in ast.walk(f) if n is not f and isinstance(
        n, (ast.FunctionDef, ast.Lambda))]
    skip = set(params(f))
    for g in inner:
      skip |= set(params(g))
      if isinstance(g, ast.FunctionDef):
        skip.add(g.name)
        skip |= names_in(g, ast.Store)
    local = names_in(f, ast.Store) - skip
    for n in ast.walk(f):
      if isinstance(n, ast.Name) and n.id in local:
        n.id = n.id + '_value'
      if isinstance(n, ast.ExceptHandler) and n.name in local:
        n.name += '_value'


def return_temp(tree):
  fr = Fresh()
  for f in functions(tree):
    for b in blocks(f):
      i = 0
      while i < len(b):
        s = b[i]
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(
            s.value, (ast.Name, ast.Constant)):
          t = fr('result')
          b[i:i + 1] = [assign(t, s.value), ast.Return(value=name(t))]
          i += 1
        i += 1


def call_temps(tree):
  """x = f(g(y)) -> t = g(y); x = f(t) for the first evaluated argument."""
  fr = Fresh()
  for f in functions(tree):
    for b in blocks(f):
      i = 0
      while i < len(b):
        s = b[i]
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(
            s.value, ast.Call):
          c = s.value
          ok = isinstance(c.func, ast.Name) or (
              isinstance(c.func, ast.Attribute)
              and isinstance(c.func.value, ast.Name))
          if ok and c.args and isinstance(c.args[0], (
              ast.Call, ast.BinOp, ast.Compare, ast.ListComp)):
            t = fr('arg')
            b.insert(i, assign(t, c.args[0]))
            c.args[0] = name(t)
            i += 1
          elif isinstance(c.func, ast.Attribute) and isinstance(
              c.func.value, (ast.Call, ast.BinOp)):
            t = fr('base')
            b.insert(i, assign(t, c.func.value))
            c.func.value = name(t)
            i += 1
        i += 1


def binop_temps(tree):
  fr = Fresh()
  for f in functions(tree):
    for b in blocks(f):
      i = 0
      while i < len(b):
        s = b[i]
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(
            s.value, ast.BinOp):
          l, r = fr('left'), fr('right')
          b[i:i] = [assign(l, s.value.left), assign(r, s.value.right)]
          s.value.left, s.value.right = name(l), name(r)
          i += 2
        i += 1


def invert_if(tree):
  for n in ast.walk(tree):
    if isinstance(n, ast.If) and n.orelse and not (
        len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
      n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
      n.body, n.orelse = n.orelse, n.body
    elif isinstance(n, ast.IfExp):
      n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
      n.body, n.orelse = n.orelse, n.body


def ends(b):
  return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue))


def else_after_return(tree):
  """if c: return x; rest -> if c: return x else: rest."""
  for f in functions(tree):
    for b in blocks(f):
      for i, s in enumerate(b):
        if isinstance(s, ast.If) and not s.orelse and ends(s.body) and (
            b[i + 1:]) and not isinstance(s.body[-1], ast.Continue):
          s.orelse = b[i + 1:]
          del b[i + 1:]
          break


def flatten_else(tree):
  """if c: return x else: rest -> if c: return x; rest."""
  for f in functions(tree):
    for b in blocks(f):
      i = 0
      while i < len(b):
        s = b[i]
        if isinstance(s, ast.If) and s.orelse and ends(s.body):
          rest = s.orelse
          s.orelse = []
          b[i + 1:i + 1] = rest
        i += 1


def guard_return(tree):
  """f: ...; if c: A (last) -> if not c: return; A (value-less functions)."""
  for f in functions(tree):
    s = f.body[-1]
    if isinstance(s, ast.If) and not s.orelse and not any(isinstance(
        x, (ast.Return, ast.Yield)) for x in ast.walk(s)):
      f.body[-1:] = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test),
                            body=[ast.Return(value=None)], orelse=[])] + s.body


def comp_to_loop(tree):
  fr = Fresh()
  for f in functions(tree):
    for b in blocks(f):
      i = 0
      while i < len(b):
        s = b[i]
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(
            s.value, (ast.ListComp, ast.DictComp, ast.SetComp)):
          c = s.value
          t = fr('out')
          # Own names for the targets: comprehensions have their own scope.
          ren = {}
          for g in c.generators:
            for x in ast.walk(g.target):
              if isinstance(x, ast.Name):
                ren[x.id] = fr(x.id)
          for x in ast.walk(c):
            if isinstance(x, ast.Name) and x.id in ren and x is not c:
              x.id = ren[x.id]
          first = c.generators[0].iter
          for x in ast.walk(first):  # evaluated in the outer scope
            if isinstance(x, ast.Name) and x.id in ren.values():
              x.id = {v: k for k, v in ren.items()}[x.id]
          if isinstance(c, ast.ListComp):
            init = ast.List(elts=[], ctx=ast.Load())
            inner = ast.Expr(ast.Call(func=ast.Attribute(
                value=name(t), attr='append', ctx=ast.Load()), args=[c.elt],
                                      keywords=[]))
          elif isinstance(c, ast.SetComp):
            init = ast.Call(func=name('set'), args=[], keywords=[])
            inner = ast.Expr(ast.Call(func=ast.Attribute(
                value=name(t), attr='add', ctx=ast.Load()), args=[c.elt],
                                      keywords=[]))
          else:
            init = ast.Dict(keys=[], values=[])
            inner = ast.Assign(targets=[ast.Subscript(
                value=name(t), slice=c.key, ctx=ast.Store())], value=c.value)
          for g in reversed(c.generators):
            for cond in reversed(g.ifs):
              inner = ast.If(test=cond, body=[inner], orelse=[])
            inner = ast.For(target=g.target, iter=g.iter, body=[inner],
                            orelse=[])
          s.value = name(t)
          b[i:i] = [assign(t, init), inner]
          i += 2
        i += 1


def loop_to_comp(tree):
  for f in functions(tree):
    for b in blocks(f):
      i = 0
      while i + 1 < len(b):
        s, l = b[i], b[i + 1]
        if (isinstance(s, ast.Assign) and len(s.targets) == 1
            and isinstance(s.targets[0], ast.Name) and isinstance(l, ast.For)
            and len(l.body) == 1 and not l.orelse):
          t = s.targets[0].id
          x = l.body[0]
          ifs = []
          while isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
            ifs.append(x.test)
            x = x.body[0]
          used = names_in(l.iter) | set().union(*[names_in(c) for c in ifs])
          g = ast.comprehension(target=l.target, iter=l.iter, ifs=ifs,
                                is_async=0)
          later = set()
          for y in b[i + 2:]:
            later |= names_in(y, ast.Load)
          if t in used or names_in(l.target, ast.Store) & later:
            i += 1
            continue
          if (isinstance(s.value, ast.List) and not s.value.elts
              and isinstance(x, ast.Expr) and isinstance(x.value, ast.Call)
              and isinstance(x.value.func, ast.Attribute)
              and x.value.func.attr == 'append'
              and isinstance(x.value.func.value, ast.Name)
              and x.value.func.value.id == t
              and t not in names_in(x.value.args[0])):
            s.value = ast.ListComp(elt=x.value.args[0], generators=[g])
            del b[i + 1]
          elif (isinstance(s.value, ast.Dict) and not s.value.keys
                and isinstance(x, ast.Assign)
                and isinstance(x.targets[0], ast.Subscript)
                and isinstance(x.targets[0].value, ast.Name)
                and x.targets[0].value.id == t
                and t not in names_in(x.value)):
            s.value = ast.DictComp(key=x.targets[0].slice, value=x.value,
                                   generators=[g])
            del b[i + 1]
        i += 1


def lambda_to_def(tree):
  fr = Fresh()
  for f in functions(tree):
    for b in blocks(f):
      i = 0
      while i < len(b):
        s = b[i]
        if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and not any(
            isinstance(x, (ast.ListComp, ast.DictComp, ast.GeneratorExp,
                           ast.IfExp)) for x in ast.walk(s)):
          lams = [x for x in ast.walk(s) if isinstance(x, ast.Lambda)]
          if len(lams) == 1:
            t = fr('apply')
            lam = lams[0]
            d = ast.FunctionDef(name=t, args=lam.args, body=[
                ast.Return(value=lam.body)], decorator_list=[],
                                type_params=[])

            class Sub(ast.NodeTransformer):
              def visit_Lambda(self, n):
                return name(t)
            b[i] = Sub().visit(s)
            b.insert(i, d)
            i += 1
        i += 1


def flip_compare(tree):
  sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
        ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
  for n in ast.walk(tree):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in sw:
      n.left, n.comparators = n.comparators[0], [n.left]
      n.ops = [sw[type(n.ops[0])]()]


def not_is(tree):
  class V(ast.NodeTransformer):
    def visit_Compare(self, n):
      self.generic_visit(n)
      inv = {ast.IsNot: ast.Is, ast.NotIn: ast.In}
      if len(n.ops) == 1 and type(n.ops[0]) in inv:
        n.ops = [inv[type(n.ops[0])]()]
        return ast.UnaryOp(op=ast.Not(), operand=n)
      return n
  V().visit(tree)


def demorgan(tree):
  class V(ast.NodeTransformer):
    def visit_If(self, n):
      self.generic_visit(n)
      if isinstance(n.test, ast.BoolOp):
        op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
        n.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[
            ast.UnaryOp(op=ast.Not(), operand=v) for v in n.test.values]))
      return n
  V().visit(tree)


def aug_expand(tree):
  class V(ast.NodeTransformer):
    def visit_AugAssign(self, n):
      if isinstance(n.target, ast.Name):
        return ast.Assign(targets=[n.target], value=ast.BinOp(
            left=name(n.target.id), op=n.op, right=n.value))
      return n
  V().visit(tree)


def ternary_to_if(tree):
  for f in functions(tree):
    for b in blocks(f):
      i = 0
      while i < len(b):
        s = b[i]
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
            s.value, ast.IfExp):
          c = s.value
          x, y = copy.deepcopy(s), copy.deepcopy(s)
          x.value, y.value = c.body, c.orelse
          b[i] = ast.If(test=c.test, body=[x], orelse=[y])
        i += 1


def if_to_ternary(tree):
  for f in functions(tree):
    for b in blocks(f):
      i = 0
      while i < len(b):
        s = b[i]
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
          x, y = s.body[0], s.orelse[0]
          if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and (
              ast.dump(x.targets[0]) == ast.dump(y.targets[0])):
            b[i] = ast.Assign(targets=x.targets, value=ast.IfExp(
                test=s.test, body=x.value, orelse=y.value))
          elif isinstance(x, ast.Return) and isinstance(
              y, ast.Return) and x.value and y.value:
            b[i] = ast.Return(value=ast.IfExp(test=s.test, body=x.value,
                                              orelse=y.value))
        i += 1


def items_loop(tree):
  """for k, v in d.items() -> for k in d: v = d[k] (d a plain name)."""
  for n in ast.walk(tree):
    if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(
        n.iter.func, ast.Attribute) and n.iter.func.attr == 'items' and (
            isinstance(n.iter.func.value, ast.Name)) and isinstance(
                n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
      d = n.iter.func.value.id
      if d in names_in(n, ast.Store):
        continue
      k, v = n.target.elts
      n.iter = name(d)
      n.target = k
      n.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(
          value=name(d), slice=name(k.id), ctx=ast.Load())))


def enumerate_loop(tree):
  for n in ast.walk(tree):
    if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(
        n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and len(
            n.iter.args) == 1 and isinstance(n.iter.args[0], ast.Name):
      i, v = n.target.elts
      d = n.iter.args[0]
      n.iter = ast.Call(func=name('range'), args=[ast.Call(
          func=name('len'), args=[d], keywords=[])], keywords=[])
      n.target = i
      n.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(
          value=name(d.id), slice=name(i.id), ctx=ast.Load())))


def reorder_kwargs(tree):
  for n in ast.walk(tree):
    if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(
        k.arg for k in n.keywords):
      n.keywords = n.keywords[::-1]


def local_self(tree):
  """self._x read more than once -> local alias at the start (read-only)."""
  for c in ast.walk(tree):
    if not isinstance(c, ast.ClassDef):
      continue
    methods = [m for m in c.body if isinstance(m, ast.FunctionDef)]
    written = {}
    for m in methods:
      for x in ast.walk(m):
        if isinstance(x, ast.Attribute) and isinstance(
            x.ctx, ast.Store) and isinstance(x.value, ast.Name) and (
                x.value.id == 'self'):
          written.setdefault(x.attr, set()).add(m.name)
    for m in methods:
      if m.name == '__init__' or m.decorator_list or not simple(m):
        continue
      calls = any(isinstance(x, ast.Call) and isinstance(
          x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)
                  and x.func.value.id == 'self' for x in ast.walk(m))
      if calls:
        continue
      used = []
      for x in ast.walk(m):
        if isinstance(x, ast.Attribute) and isinstance(
            x.ctx, ast.Load) and isinstance(x.value, ast.Name) and (
                x.value.id == 'self') and written.get(x.attr) == {'__init__'}:
          if x.attr not in used:
            used.append(x.attr)
      taken = names_in(m) | set(params(m))
      for a in used:
        t = 'own' + a
        if t in taken:
          continue

        class Sub(ast.NodeTransformer):
          def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr == a and isinstance(n.value, ast.Name) and (
                n.value.id == 'self'):
              return name(t)
            return n
        doc = 1 if ast.get_docstring(m) else 0
        m.body[doc:] = [assign(t, ast.Attribute(
            value=name('self'), attr=a, ctx=ast.Load()))] + [
                Sub().visit(s) for s in m.body[doc:]]


def free_in(stmts):
  return set().union(*[names_in(s, ast.Load) for s in stmts]) if stmts else set()


def extract_tail(tree):
  """The second half of a function body becomes a module-level helper."""
  mod_names = {n.name for n in tree.body if hasattr(n, 'name')}
  for n in tree.body:
    mod_names |= names_in(n, ast.Store) if isinstance(n, (
        ast.Assign, ast.AnnAssign)) else set()
    if isinstance(n, (ast.Import, ast.ImportFrom)):
      mod_names |= {(a.asname or a.name).split('.')[0] for a in n.names}
  helpers = []
  for owner in [tree] + [c for c in tree.body if isinstance(c, ast.ClassDef)]:
    for f in owner.body:
      if not isinstance(f, ast.FunctionDef) or not simple(f) or len(f.body) < 3:
        continue
      if f.name == '__init__':
        continue
      cut = len(f.body) - max(1, len(f.body) // 2)
      tail = f.body[cut:]
      if not isinstance(tail[-1], ast.Return):
        continue
      if any(isinstance(x, ast.Name) and x.id == 'super' or isinstance(
          x, (ast.FunctionDef, ast.ClassDef)) for s in tail
             for x in ast.walk(s)):
        continue
      bound = set(params(f)) | set()
      for s in f.body[:cut]:
        bound |= names_in(s, ast.Store)
        bound |= {x.name for x in ast.walk(s) if isinstance(x, ast.FunctionDef)}
        for x in ast.walk(s):
          if isinstance(x, (ast.Import, ast.ImportFrom)):
            bound |= {(a.asname or a.name).split('.')[0] for a in x.names}
      args = sorted(free_in(tail) & bound)
      # A local possibly unbound at the cut is not passed on.
      h = f'_{f.name.strip("_")}_rest_{len(helpers)}'
      helpers.append(ast.FunctionDef(
          name=h, args=ast.arguments(
              posonlyargs=[], args=[ast.arg(arg=a) for a in args],
              kwonlyargs=[], kw_defaults=[], defaults=[]),
          body=tail, decorator_list=[], type_params=[]))
      f.body[cut:] = [ast.Return(value=ast.Call(
          func=name(h), args=[name(a) for a in args], keywords=[]))]
  tree.body.extend(helpers) if not any(
      isinstance(n, ast.If) and 'name' in ast.dump(n.test)
      for n in tree.body) else tree.body.__setitem__(
          slice(-1, -1), helpers)


def extract_method(tree):
  """The returned expression of a method becomes a new private method."""
  for c in ast.walk(tree):
    if not isinstance(c, ast.ClassDef):
      continue
    new = []
    for f in c.body:
      if not isinstance(f, ast.FunctionDef) or not simple(f) or not (
          f.args.args and f.args.args[0].arg == 'self'):
        continue
      r = f.body[-1]
      if not isinstance(r, ast.Return) or not isinstance(
          r.value, (ast.Call, ast.BinOp)):
        continue
      if any(isinstance(x, ast.Name) and x.id == 'super'
             for x in ast.walk(r)):
        continue
      local = set(params(f)) | set()
      for s in f.body[:-1]:
        local |= names_in(s, ast.Store)
        local |= {x.name for x in ast.walk(s) if isinstance(x, ast.FunctionDef)}
      args = sorted((names_in(r, ast.Load) & local) - {'self'})
      h = f'_{f.name.strip("_")}_result'
      new.append(ast.FunctionDef(
          name=h, args=ast.arguments(
              posonlyargs=[], args=[ast.arg(arg=a) for a in ['self'] + args],
              kwonlyargs=[], kw_defaults=[], defaults=[]),
          body=[ast.Return(value=r.value)], decorator_list=[], type_params=[]))
      r.value = ast.Call(func=ast.Attribute(value=name('self'), attr=h,
                                            ctx=ast.Load()),
                         args=[], keywords=[ast.keyword(arg=a, value=name(a))
                                            for a in args])
    # Inherited copies must not clash: qualify by class.
    for m in new:
      old = m.name
      m.name = f'{old}_of_{c.name.lower()}'
      for x in ast.walk(c):
        if isinstance(x, ast.Attribute) and x.attr == old and isinstance(
            x.value, ast.Name) and x.value.id == 'self':
          x.attr = m.name
    c.body.extend(new)


def swap_independent(tree):
  """Adjacent assignments of fresh names that do not use each other."""
  pure = (ast.Name, ast.Constant, ast.BinOp, ast.Attribute, ast.Load,
          ast.Compare, ast.operator, ast.cmpop, ast.Store, ast.Subscript,
          ast.Tuple, ast.List, ast.Call, ast.keyword)
  for f in functions(tree):
    for b in blocks(f):
      i = 0
      while i + 1 < len(b):
        x, y = b[i], b[i + 1]
        if all(isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name)
               and all(isinstance(z, pure) for z in ast.walk(s))
               for s in (x, y)):
          tx, ty = x.targets[0].id, y.targets[0].id
          if tx != ty and tx not in names_in(y.value) and (
              ty not in names_in(x.value)):
            b[i], b[i + 1] = y, x
            i += 1
        i += 1


def fstring_to_format(tree):
  class V(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
      self.generic_visit(n)
      fmt, args = '', []
      for v in n.values:
        if isinstance(v, ast.Constant):
          fmt += v.value.replace('{', '{{').replace('}', '}}')
        else:
          if v.conversion != -1 or v.format_spec is not None:
            return n
          fmt += '{}'
          args.append(v.value)
      return ast.Call(func=ast.Attribute(value=ast.Constant(value=fmt),
                                         attr='format', ctx=ast.Load()),
                      args=args, keywords=[])
  V().visit(tree)


def fstring_to_concat(tree):
  class V(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
      self.generic_visit(n)
      out = None
      for v in n.values:
        if isinstance(v, ast.Constant):
          e = ast.Constant(value=v.value)
        else:
          if v.conversion != -1 or v.format_spec is not None:
            return n
          e = ast.Call(func=name('str'), args=[v.value], keywords=[])
        out = e if out is None else ast.BinOp(left=out, op=ast.Add(), right=e)
      return out or ast.Constant(value='')
  V().visit(tree)


def noop(tree):
  for f in functions(tree):
    doc = 1 if ast.get_docstring(f) else 0
    f.body.insert(doc, ast.Assign(targets=[name('_unused', True)],
                                  value=ast.Constant(value=None)))


def log_lines(tree):
  """A logging statement at the start of every function."""
  if not any(isinstance(n, ast.ImportFrom) and n.module == 'absl'
             for n in tree.body):
    i = 0
    while i < len(tree.body) and (isinstance(tree.body[i], ast.Expr) or (
        isinstance(tree.body[i], ast.ImportFrom)
        and tree.body[i].module == '__future__')):
      i += 1
    tree.body.insert(i, ast.Import(names=[ast.alias(name='logging')]))
  for f in functions(tree):
    doc = 1 if ast.get_docstring(f) else 0
    f.body.insert(doc, ast.parse(
        f"logging.debug('entering %s', {f.name!r})").body[0])


def type_checks(tree):
  """Adds annotations to local assignments."""
  for f in functions(tree):
    for b in blocks(f):
      for i, s in enumerate(b):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
            s.targets[0], ast.Name) and simple(f):
          b[i] = ast.AnnAssign(target=s.targets[0],
                               annotation=ast.Constant(value='object'),
                               value=s.value, simple=1)


def swap_commutative(tree):
  """a * b -> b * a for arithmetic of names/attributes/numbers only."""
  for n in ast.walk(tree):
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult,)) and all(
        isinstance(x, (ast.Name, ast.Constant, ast.Attribute))
        for x in (n.left, n.right)) and not any(
            isinstance(x, ast.Constant) and isinstance(x.value, str)
            for x in (n.left, n.right)):
      n.left, n.right = n.right, n.left


def split_dict(tree):
  """return {k: v, ...} -> out = {}; out[k] = v; ...; return out."""
  fr = Fresh()
  for f in functions(tree):
    for b in blocks(f):
      i = 0
      while i < len(b):
        s = b[i]
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(
            s.value, ast.Dict) and s.value.keys and all(s.value.keys):
          t = fr('table')
          d = s.value
          b[i:i] = [assign(t, ast.Dict(keys=[], values=[]))] + [
              ast.Assign(targets=[ast.Subscript(
                  value=name(t), slice=k, ctx=ast.Store())], value=v)
              for k, v in zip(d.keys, d.values)]
          s.value = name(t)
          i += 1 + len(d.keys)
        i += 1


def dict_call(tree):
  """{'a': x} -> dict(a=x)."""
  class V(ast.NodeTransformer):
    def visit_Dict(self, n):
      self.generic_visit(n)
      if n.keys and all(isinstance(k, ast.Constant) and isinstance(
          k.value, str) and k.value.isidentifier() for k in n.keys):
        return ast.Call(func=name('dict'), args=[], keywords=[
            ast.keyword(arg=k.value, value=v)
            for k, v in zip(n.keys, n.values)])
      return n
  for f in functions(tree):
    V().visit(f)


def lists_to_tuples(tree):
  """Iterables of loops only: for x in [a, b] -> for x in (a, b)."""
  for n in ast.walk(tree):
    if isinstance(n, ast.For) and isinstance(n.iter, ast.List):
      n.iter = ast.Tuple(elts=n.iter.elts, ctx=ast.Load())


def wrap_helper_condition(tree):
  """if cond of a function on names only -> helper returning it."""
  helpers = []
  for f in functions(tree):
    if not simple(f):
      continue
    for b in blocks(f):
      for s in b:
        if isinstance(s, ast.If) and isinstance(
            s.test, (ast.BoolOp, ast.Compare)) and f in tree.body + [
                m for c in tree.body if isinstance(c, ast.ClassDef)
                for m in c.body]:
          local = set(params(f)) | names_in(f, ast.Store)
          args = sorted(names_in(s.test, ast.Load) & local)
          if any(isinstance(x, (ast.NamedExpr, ast.Lambda, ast.GeneratorExp,
                                ast.ListComp)) for x in ast.walk(s.test)):
            continue
          h = f'_condition_{len(helpers)}'
          helpers.append(ast.FunctionDef(
              name=h, args=ast.arguments(
                  posonlyargs=[], args=[ast.arg(arg=a) for a in args],
                  kwonlyargs=[], kw_defaults=[], defaults=[]),
              body=[ast.Return(value=s.test)], decorator_list=[],
              type_params=[]))
          s.test = ast.Call(func=name(h), args=[name(a) for a in args],
                            keywords=[])
  i = 0
  for k, n in enumerate(tree.body):
    if isinstance(n, (ast.Import, ast.ImportFrom)):
      i = k + 1
  tree.body[i:i] = helpers


KINDS = [roundtrip, rename_locals, return_temp, call_temps, binop_temps,
         invert_if, else_after_return, flatten_else, guard_return,
         comp_to_loop, loop_to_comp, lambda_to_def, flip_compare, not_is,
         demorgan, aug_expand, ternary_to_if, if_to_ternary, items_loop,
         enumerate_loop, reorder_kwargs, local_self, extract_tail,
         extract_method, swap_independent, fstring_to_format,
         fstring_to_concat, noop, log_lines, type_checks, swap_commutative,
         split_dict, dict_call, lists_to_tuples, wrap_helper_condition]
BY = {k.__name__: k for k in KINDS}


def transform(kind, text):
  tree = ast.parse(text)
  before = ast.dump(tree)
  for k in kind.split('+'):
    BY[k](tree)
  if ast.dump(tree) == before and kind != 'roundtrip':
    return None
  ast.fix_missing_locations(tree)
  out = ast.unparse(tree)
  compile(out, kind, 'exec')
  return out


def registered():
  return sorted(f[:-3].upper() for f in os.listdir(ROOT + '/wbxsa/rules')
                if f[0] == 'c' and f[1:3].isdigit())


def run(job):
  kind, path, vdir = job
  try:
    new = transform(kind, open(f'{REPO}/{path}').read())
  except Exception as e:  # pylint: disable=broad-except
    return kind, path, f'REWRITE FAILED {e!r}'
  if new is None:
    return kind, path, None
  tmp = tempfile.mkdtemp(prefix='wbxref')
  try:
    for d in ('weatherbenchX', 'public_benchmark', 'evaluation_scripts'):
      shutil.copytree(f'{REPO}/{d}', f'{tmp}/{d}',
                      ignore=shutil.ignore_patterns('__pycache__'))
    open(f'{tmp}/{path}', 'w').write(new)
    home = tmp + '/v'
    shutil.copytree(vdir, home)
    r = subprocess.run([sys.executable, 'check.py', '--all'], cwd=home,
                       env=dict(os.environ, WBXSA_REPO=tmp, WBXSA_HOME=home),
                       capture_output=True, text=True)
    lines = [l for l in r.stdout.split('\n')
             if '[' in l and ']' in l and not l.startswith('KNOWN')
             and 'undecided' not in l]
    und = sum(1 for l in r.stdout.split('\n') if l.startswith('  undecided'))
    if r.returncode not in (0, 1) or 'Traceback' in r.stderr:
      lines.append('rc=%d %s' % (r.returncode, r.stderr[-300:]))
    return kind, path, (lines, und, r.stdout)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def main():
  a = sys.argv[1:]
  if a[0] == 'list':
    print(*BY)
    return
  if a[0] == 'apply':
    kind, dest = a[1:3]
    for p in sources():
      new = transform(kind, open(f'{REPO}/{p}').read())
      if new is not None:
        open(f'{dest}/{p}', 'w').write(new)
    return
  files = sources()
  if '--files' in a:
    i = a.index('--files')
    files = [f for f in files if any(x in f for x in a[i + 1].split(','))]
    del a[i:i + 2]
  kinds = a[1:] or list(BY)
  vdir = tempfile.mkdtemp(prefix='wbxv') + '/v'
  shutil.copytree(ROOT, vdir, ignore=shutil.ignore_patterns(
      '.git', 'seeded', 'evidence', 'replay', '__pycache__'))
  jobs = [(k, f, vdir) for k in kinds for f in files]
  n = 0
  with cf.ThreadPoolExecutor(8) as ex:
    for kind, path, out in ex.map(run, jobs):
      if out is None:
        continue
      n += 1
      if isinstance(out, str):
        print(kind, path, out)
        continue
      lines, und, text = out
      if lines:
        print(f'== {kind} {path}: {len(lines)} alarms')
        for l in lines[:4]:
          print('     ', l[:int(os.environ.get('W', 330))])
      elif und:
        print(f'-- {kind} {path}: {und} undecided')
        if '-v' in os.environ.get('V', ''):
          print('\n'.join(l for l in text.split('\n') if 'undecided' in l))
      sys.stdout.flush()
  print(n, 'variants')


if __name__ == '__main__':
  main()
