"""C18: errors reach the caller and invalid inputs are refused."""

from __future__ import annotations

import ast

from . import generic
from .. import spec
from .. import terms as tm
from ..program import Func

EXPLANATION = (
    'Four static rules. (1) handlers: every except clause, suppress() block, '
    'finally block, __exit__ method and error-ignoring option of the non-test '
    'code is classified; a handler has to leave by raising on every path or '
    'be one of a short list of recoveries decided by the exception type '
    'together with everything the guarded block calls, helpers included. '
    '(2) definition: for each function that refuses input, the condition '
    'under which it raises, over all inputs and options, is extracted as a '
    'value-graph condition (helpers inlined, loops as existential '
    'quantifiers, order and exception type ignored) and compared with the '
    'condition stated in the reference definitions. (3) absorbs: every '
    'reference definition of the other properties is compared as well; a '
    'difference that hinges on a caught exception, on presence of a key, '
    'attribute or file, or on an error-ignoring option the definition does '
    'not have is a failure that is absorbed. (4) self_test: the zero-count '
    'patterns are run on an embedded positive example.')
ASSUMPTIONS = (
    'errors raised inside numpy, xarray, pandas, fsspec and Beam are reported '
    'by those libraries unless an option analysed here tells them not to',)

BROAD = {'Exception', 'BaseException', ''}
CLOCK = ('time.', 'logging.', 'absl.logging.', 'datetime.')
HARMLESS = set('debug info warning log vlog error print len str repr format'
               ' isinstance perf_counter monotonic dict list tuple'.split())
LOOKUPS = {'KeyError', 'IndexError', 'AttributeError', 'LookupError'}
REMOVERS = {'rm', 'rm_file', 'remove', 'unlink', 'delete', 'rmdir', '_rm',
            'rmtree'}
# keyword: values that tell a library to swallow errors
IGNORING = {
    'errors': {'ignore', 'coerce', 'replace'},
    'on_bad_lines': {'skip', 'warn'},
    'on_error': {'ignore', 'skip', 'warn'},
    'missing_dims': {'ignore', 'warn'},
    'ignore_errors': {True},
    'return_exceptions': {True},
    'error_bad_lines': {False},
    'invalid': set(),
}

SELF_TEST = '''
def load(path, ds):
  try:
    ds = read(path)
  except Exception:
    ds = None
  with contextlib.suppress(OSError):
    ds = read(path)
  try:
    return compute(ds)
  finally:
    return None

def soft(path):
  return pd.to_numeric(path, errors='coerce')

class Quiet:
  def __exit__(self, *args):
    return True
'''


# ------------------------------------------------------------------ handlers


def leaves_by_raising(body):
  """Every path through the statements ends in a raise."""
  for s in body:
    if isinstance(s, ast.Raise):
      return True
    if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
      return False
    if isinstance(s, ast.If) and s.orelse and leaves_by_raising(
        s.body) and leaves_by_raising(s.orelse):
      return True
    if isinstance(s, ast.With) and leaves_by_raising(s.body):
      return True
    if isinstance(s, ast.Try):
      if s.finalbody and leaves_by_raising(s.finalbody):
        return True
      if leaves_by_raising(s.body) and all(
          leaves_by_raising(h.body) for h in s.handlers):
        return True
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (
        ast.unparse(s.value.func) in ('sys.exit', 'os._exit', 'exit')):
      return True
    if any(isinstance(x, (ast.Return, ast.Break, ast.Continue))
           for x in walk_here([s])):
      return False
  return False


def walk_here(stmts):
  """Nodes of the statements, not descending into nested functions."""
  todo = list(stmts)
  while todo:
    n = todo.pop(0)
    yield n
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                      ast.ClassDef)):
      continue
    todo.extend(ast.iter_child_nodes(n))


class Scope:
  """What names mean inside one function."""

  def __init__(self, prog, module, cls):
    self.prog, self.module, self.cls = prog, module, cls

  def type_names(self, node):
    if node is None:
      return ['']
    if isinstance(node, ast.Tuple):
      return [n for e in node.elts for n in self.type_names(e)]
    return [(self.prog.resolve_dotted_expr(self.module, node)
             or ast.unparse(node)).rsplit('.', 1)[-1]]

  def callees(self, stmts, depth=0):
    """(name, node) of every call outside the repository that is reached."""
    out = []
    for n in walk_here(stmts):
      if not isinstance(n, ast.Call):
        continue
      f = None
      if isinstance(n.func, ast.Attribute) and isinstance(
          n.func.value, ast.Name) and n.func.value.id in ('self', 'cls') and (
              self.cls is not None):
        f, _ = self.prog.lookup(self.cls, n.func.attr)
      d = self.prog.resolve_dotted_expr(self.module, n.func)
      if f is None and d in self.prog.funcs:
        f = self.prog.funcs[d]
      if isinstance(f, Func) and depth < 4:
        sub = Scope(self.prog, f.module, f.cls.qual if f.cls else None)
        out += sub.callees(f.node.body, depth + 1)
      else:
        name = d if d and not d.startswith('builtins.') else None
        if name is None:
          name = ('.' + n.func.attr if isinstance(n.func, ast.Attribute)
                  else ast.unparse(n.func))
        elif isinstance(n.func, ast.Attribute) and not known_module(
            self, n.func):
          name = '.' + n.func.attr
        out.append((name, n))
    return out


def known_module(scope, node):
  while isinstance(node, ast.Attribute):
    node = node.value
  return isinstance(node, ast.Name) and node.id in scope.module.imports


def recovery(scope, types, body):
  """'ok' / 'lookup' / why the guarded block must not recover."""
  if any(t in BROAD for t in types):
    return 'catches every error'
  calls = [(n, c) for n, c in scope.callees(body)
           if not n.startswith(CLOCK) and n.lstrip('.') not in HARMLESS]
  names = {n.rsplit('.', 1)[-1] for n, _ in calls}
  imports = all(isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass))
                for s in body)
  for t in types:
    if t == 'StopIteration' and names <= {'next', '__next__'} and names:
      continue
    if t in ('ImportError', 'ModuleNotFoundError') and imports:
      continue
    if t in ('ValueError', 'MergeError', 'AlignmentError') and names == {
        'merge'} and all(exact_join(c) for n, c in calls):
      continue
    if t == 'ArrowTypeError' and names == {'read_parquet'}:
      continue
    if t in ('FileNotFoundError', 'NotADirectoryError') and names and (
        names <= REMOVERS):
      continue
    if t == 'FileNotFoundError' and not scope.module.name.startswith(
        'weatherbenchX.') and any(x.startswith('open') for x in names) and all(
            x.startswith(('open', 'load', 'read')) or x in (
                'compute', 'join', 'close', 'Open', 'GFile') for x in names):
      continue  # command line tools that report a missing result file
    if t in LOOKUPS and not calls:
      return 'lookup'
    return f'{t} raised by {", ".join(sorted(names)) or "the block"}'
  return 'ok'


def exact_join(call):
  return any(k.arg == 'join' and isinstance(k.value, ast.Constant)
             and k.value.value == 'exact' for k in call.keywords)


def raises_without_cause(body):
  return any(isinstance(x, ast.Raise) and isinstance(x.cause, ast.Constant)
             and x.cause.value is None for x in walk_here(body))


def saved_for_later(fn, handler):
  """err = e ... raise err"""
  if not handler.name:
    return False
  held = {handler.name}
  for x in walk_here(handler.body):
    if isinstance(x, ast.Assign) and isinstance(
        x.value, ast.Name) and x.value.id == handler.name:
      held |= {t.id for t in x.targets if isinstance(t, ast.Name)}
  held.discard(handler.name)
  return any(isinstance(x, ast.Raise) and isinstance(x.exc, ast.Name)
             and x.exc.id in held for x in ast.walk(fn))


def inspect(ctx, scope, qual, fn, out):
  """Appends (construct, verdict, why, line) for one function."""
  for n in walk_here(fn.body):
    if isinstance(n, ast.Try) or n.__class__.__name__ == 'TryStar':
      for h in n.handlers:
        types = scope.type_names(h.type)
        name = f'{qual}: except {"/".join(types) or "everything"}'
        if leaves_by_raising(h.body):
          if raises_without_cause(h.body) and scope.callees(n.body):
            out.append((name, 'bad', 'the error is replaced and its cause '
                        'dropped (raise ... from None)', h.lineno))
          else:
            out.append((name, 'ok', '', h.lineno))
          continue
        why = recovery(scope, types, n.body)
        if why == 'ok':
          out.append((name, 'ok', '', h.lineno))
        elif why == 'lookup':
          out.append((name, 'undecided', 'a failed lookup; decided by the '
                      'definitions', h.lineno))
        elif saved_for_later(fn, h):
          out.append((name, 'undecided', 'kept and raised later', h.lineno))
        else:
          out.append((name, 'bad', f'the error is absorbed: {why}', h.lineno))
      if n.finalbody:
        gone = [x for x in walk_here(n.finalbody) if isinstance(x, ast.Return)]
        gone += [x for x in walk_finally(n.finalbody)]
        name = f'{qual}: finally'
        if gone:
          out.append((name, 'bad', 'leaving a finally block discards the '
                      'error', n.finalbody[0].lineno))
        else:
          out.append((name, 'ok', '', n.finalbody[0].lineno))
    elif isinstance(n, (ast.With, ast.AsyncWith)):
      for i in n.items:
        c = i.context_expr
        if isinstance(c, ast.Call) and ast.unparse(c.func).rsplit('.', 1)[
            -1] == 'suppress':
          types = [t for a in c.args for t in scope.type_names(a)]
          name = f'{qual}: suppress {"/".join(types)}'
          why = recovery(scope, types, n.body)
          if why == 'ok':
            out.append((name, 'ok', '', n.lineno))
          elif why == 'lookup':
            out.append((name, 'undecided', 'a failed lookup', n.lineno))
          else:
            out.append((name, 'bad', f'the error is absorbed: {why}',
                        n.lineno))
    elif isinstance(n, ast.Call):
      last = (n.func.attr if isinstance(n.func, ast.Attribute) else
              n.func.id if isinstance(n.func, ast.Name) else '')
      if last == 'with_exception_handling':
        out.append((f'{qual}: with_exception_handling', 'bad',
                    'failing elements are set aside instead of failing the '
                    'pipeline', n.lineno))
      for k in n.keywords:
        if k.arg in IGNORING and isinstance(k.value, ast.Constant) and (
            hashable(k.value.value) in IGNORING[k.arg]):
          name = f'{qual}: {last}({k.arg}={k.value.value!r})'
          if last in ('drop_vars', 'drop', 'drop_dims', 'rename', 'makedirs',
                      'reset_coords', 'drop_sel', 'drop_isel', 'encode',
                      'decode') or k.arg == 'missing_dims' and last in (
                          'squeeze', 'transpose'):
            out.append((name, 'undecided', 'optional part', n.lineno))
          else:
            out.append((name, 'bad', 'the library is told to ignore errors',
                        n.lineno))
  if fn.name in ('__exit__', '__aexit__'):
    name = f'{qual}: exit'
    rets = [x.value for x in walk_here(fn.body) if isinstance(x, ast.Return)
            and x.value is not None]
    if any(isinstance(v, ast.Constant) and v.value for v in rets):
      out.append((name, 'bad', 'a true result of __exit__ discards the error',
                  fn.lineno))


def hashable(v):
  return v if isinstance(v, (str, bool, int, float, type(None))) else None


def walk_finally(stmts):
  """break/continue that leave the block."""
  for s in stmts:
    if isinstance(s, (ast.Break, ast.Continue)):
      yield s
    elif isinstance(s, (ast.If, ast.With, ast.Try)):
      yield from walk_finally([c for c in ast.iter_child_nodes(s)
                               if isinstance(c, ast.stmt)])


def functions_of(m):
  """(qualified name, class, node) of every function, nested ones included."""
  out = []

  def rec(body, q, cls):
    for n in body:
      if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        out.append((q + n.name, cls, n))
        rec([x for x in ast.walk(n) if x is not n and isinstance(
            x, (ast.FunctionDef, ast.ClassDef))], q + n.name + '.', cls)
      elif isinstance(n, ast.ClassDef):
        rec(n.body, q + n.name + '.', m.classes.get(n.name))
  rec(m.tree.body, '', None)
  return out


def inspect_module(ctx, m, out):
  seen = set()
  for q, cls, fn in functions_of(m):
    if fn in seen:
      continue
    seen.add(fn)
    scope = Scope(ctx.prog, m, cls.qual if cls is not None else None)
    inspect(ctx, scope, q, fn, out)
  top = ast.FunctionDef(name='<module>', body=[
      s for s in m.tree.body if not isinstance(
          s, (ast.FunctionDef, ast.ClassDef))], lineno=1)
  inspect(ctx, Scope(ctx.prog, m, None), '<module>', top, out)
  return len(seen)


def handlers(ctx):
  ctx.rule('handlers', 'an error that is caught is raised again, unless the '
           'guarded block can only fail in the way that is recovered from', 2)
  n = 0
  for name, m in sorted(ctx.prog.modules.items()):
    if name.startswith('wbxspec'):
      continue
    out = []
    with ctx.guard('handlers', name):
      n += inspect_module(ctx, m, out)
    for c, verdict, why, line in out:
      loc = f'{m.path}:{line}' if hasattr(m, 'path') else f'{name}:{line}'
      construct = f'{name}.{c}'
      {'ok': lambda: ctx.ok('handlers', construct, loc=loc),
       'bad': lambda: ctx.bad('handlers', construct, why, loc),
       'undecided': lambda: ctx.undecided('handlers', construct, why, loc)}[
           verdict]()
  ctx.rule('functions', 'functions searched for absorbed errors', 1)
  ctx.ok('functions', f'{n} functions')


def self_test(ctx):
  ctx.rule('self_test', 'the patterns that have no instance in the code are '
           'recognised in an example', 1)
  import types
  m = types.SimpleNamespace(tree=ast.parse(SELF_TEST), name='weatherbenchX.x',
                            classes={}, funcs={}, imports={}, globals={})
  out = []
  inspect_module(ctx, m, out)
  bad = {c for c, v, _, _ in out if v == 'bad'}
  want = {'load: except Exception', 'load: suppress OSError', 'load: finally',
          "soft: to_numeric(errors='coerce')", 'Quiet.__exit__: exit'}
  if want <= bad:
    ctx.ok('self_test', f'{len(want)} patterns')
  else:
    ctx.errors.append(f'self test: not recognised: {sorted(want - bad)}')


# ------------------------------------------------------------------- absorbs

PRESENCE = {'exc', 'memb', 'hasattr', 'hascoord', 'exists'}


def markers(t):
  """Tests for presence and error-ignoring options in a value."""
  out = set()
  for u in tm.walk(t):
    if u.op in PRESENCE:
      out.add(u if u.op != 'exc' else ('exc', u.args[-1]))
    elif u.op == 'call' and len(u.args) > 2:
      for k, v in u.args[2]:
        if k in IGNORING and v.op == 'const':
          out.add((k, v))
      f = u.args[0]
      if f.op == 'attr' and f.args[1] in ('fillna', 'nan_to_num'):
        out.add(f.args[1])
  return out


class Collector:
  """Verdicts of the definitions of the other properties."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.prog = ctx.prog
    self.prop = ctx.prop
    self.tier = ctx.tier
    self.analysed = ctx.analysed
    self.guard = ctx.guard
    self.interp = ctx.interp
    self.n = 0

  def rule(self, *a, **k):
    pass

  def ok(self, rule, construct, detail='', loc='', **k):
    self.ctx.ok('absorbs', construct, detail, loc)

  def bad(self, rule, construct, detail, loc='', diff=None):
    got = absorbed(diff)
    if got:
      self.ctx.bad('absorbs', construct, f'hinges on {got[0]}, which the '
                   f'definition does not have: {detail}', loc)

  def undecided(self, rule, construct, why, loc='', diff=None):
    got = [g for g in absorbed(diff) if g.startswith('exc(')
           and 'StopIteration' not in g]
    if got:
      self.ctx.bad('absorbs', construct, f'hinges on {got[0]}: {why}', loc)


def absorbed(diff):
  if diff is None:
    return []
  a, b, bad = diff
  new = markers(a) - markers(b)
  out = []
  for lits, ds in bad:
    here = set()
    for c, v in lits.items():
      here |= markers(c)
    for _, x, y in ds:
      here |= markers(x)
    for u in here & new:
      s = tm.show(u)[:120] if isinstance(u, tm.T) else (
          'exc(' + u[1] + ')' if isinstance(u, tuple) and u[0] == 'exc' else
          f'{u[0]}={tm.show(u[1])}' if isinstance(u, tuple) else u)
      if s not in out:
        out.append(s)
  return sorted(out)


def absorbs(ctx):
  fns = [s for s in spec.load(ctx.prog) if 'C18' not in s.props]
  metrics = spec.load_metric_specs(ctx.prog)
  ctx.rule('absorbs', 'no result is computed in the place of a failure the '
           'definition reports', generic.floor(len(fns) + len(metrics)))
  col = Collector(ctx)
  for s in metrics:
    spec.run_metric_spec(col, s, 'absorbs')
  for s in fns:
    spec.run_spec(col, s, 'absorbs')


def check(ctx):
  handlers(ctx)
  self_test(ctx)
  generic.formulas(ctx)
  absorbs(ctx)
