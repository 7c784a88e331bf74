#!/usr/bin/env python3
"""Measures what the checks detect: mutants of the analysed source.

mutate.py list [--files a,b]               number of mutants per file
mutate.py run OUT [--again OLD] [--n N] [--seed S] [--jobs J] [--files a,b]
mutate.py show FILE LINE OP                print one mutant

Every mutant is one small edit of a syntax tree. Survivors are written to OUT;
many are equivalent to the original and have to be read by hand. Nothing is
executed: mutants are only analysed.
"""

import argparse
import ast
import copy
import importlib
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TREES = ('weatherbenchX', 'public_benchmark', 'evaluation_scripts')
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Mod: ast.FloorDiv}
METHOD = {'mean': 'sum', 'sum': 'mean', 'min': 'max', 'max': 'min',
          'any': 'all', 'all': 'any', 'isel': 'sel', 'sel': 'isel',
          'floor': 'ceil', 'ceil': 'floor', 'minimum': 'maximum',
          'maximum': 'minimum', 'zeros_like': 'ones_like',
          'ones_like': 'zeros_like', 'sin': 'cos', 'cos': 'sin',
          'append': 'extend', 'union': 'intersection', 'std': 'var',
          'var': 'std', 'isnull': 'notnull', 'argmin': 'argmax',
          'sqrt': 'abs', 'keys': 'values', 'first': 'last', 'ffill': 'bfill',
          'searchsorted': 'digitize', 'update': 'setdefault'}
NAMES = {'predictions': 'targets', 'targets': 'predictions'}
CHAIN = set('''where sortby transpose expand_dims squeeze astype rename
assign_coords drop_vars sel isel fillna dropna compute abs copy broadcast_like
reindex clip round reset_coords reset_index drop_duplicates dt load chunk
persist'''.split())
SKIP_CALL = ('logging.', 'print', 'warnings.', 'flags.', 'typing.', 'dcc.',
             'html.', 'TypeVar', 'TypeError', 'dash')


class Finder(ast.NodeVisitor):
  """Collects (lineno, name, path-independent edit function)."""

  def __init__(self):
    self.out = []
    self.depth = 0

  def add(self, node, op, fn):
    if self.depth:
      self.out.append((node.lineno, op, node, fn))

  def visit_FunctionDef(self, n):
    self.depth += 1
    for s in n.body:
      if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
        self.visit(s)
    for i, d in enumerate(n.args.defaults):
      self.visit(d)
    self.stmts(n)
    self.depth -= 1

  def visit_ClassDef(self, n):
    for s in n.body:
      self.visit(s)

  def visit_AnnAssign(self, n):
    if n.value is not None:
      self.visit(n.value)

  def visit_Raise(self, n):
    pass

  def visit_JoinedStr(self, n):
    pass

  def visit_Assert(self, n):
    self.visit(n.test)

  def stmts(self, n):
    for field in ('body', 'orelse'):
      b = getattr(n, field, None)
      if not isinstance(b, list):
        continue
      for i, s in enumerate(b):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (
            not ast.unparse(s.value.func).startswith(SKIP_CALL)):
          self.add(s, 'delete', lambda m, s=s: replace_stmt(m, s, ast.Pass()))
        if isinstance(s, (ast.AugAssign, ast.Raise, ast.Continue, ast.Break)):
          self.add(s, 'delete', lambda m, s=s: replace_stmt(m, s, ast.Pass()))
        if isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name):
          self.add(s, 'delete', lambda m, s=s: replace_stmt(m, s, ast.Pass()))
        if isinstance(s, ast.Assign) and isinstance(
            s.targets[0], ast.Name) and any(
                isinstance(x, ast.Name) and x.id == s.targets[0].id
                for x in ast.walk(s.value)):
          self.add(s, 'delete', lambda m, s=s: replace_stmt(m, s, ast.Pass()))

  def visit_If(self, n):
    self.add(n, 'if_false', lambda m, n=n: setattr(
        m[n], 'test', ast.Constant(False)))
    self.add(n, 'if_true', lambda m, n=n: setattr(
        m[n], 'test', ast.Constant(True)))
    self.stmts(n)
    self.generic_visit(n)

  def visit_For(self, n):
    self.stmts(n)
    self.generic_visit(n)

  visit_While = visit_For
  visit_With = visit_For

  def visit_IfExp(self, n):
    self.add(n, 'ifexp_swap', lambda m, n=n: swap(m[n], 'body', 'orelse'))
    self.generic_visit(n)

  def visit_Compare(self, n):
    for i, o in enumerate(n.ops):
      if type(o) in CMP:
        self.add(n, f'cmp{i}', lambda m, n=n, i=i: m[n].ops.__setitem__(
            i, CMP[type(m[n].ops[i])]()))
    self.generic_visit(n)

  def visit_BinOp(self, n):
    if type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(
        n.left, ast.Constant)):
      self.add(n, 'binop', lambda m, n=n: setattr(
          m[n], 'op', BIN[type(m[n].op)]()))
    self.generic_visit(n)

  def visit_BoolOp(self, n):
    self.add(n, 'boolop', lambda m, n=n: setattr(
        m[n], 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
    if len(n.values) > 1:
      for i in range(len(n.values)):
        self.add(n, f'booldrop{i}', lambda m, n=n, i=i: m[n].values.pop(i))
    self.generic_visit(n)

  def visit_UnaryOp(self, n):
    if isinstance(n.op, (ast.Not, ast.Invert, ast.USub)) and not (
        isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant)):
      self.add(n, 'unary', lambda m, n=n: replace(m, n, m[n].operand))
    self.generic_visit(n)

  def visit_Constant(self, n):
    if n.value is True or n.value is False:
      self.add(n, 'bool', lambda m, n=n: setattr(m[n], 'value', not n.value))
    elif isinstance(n.value, (int, float)):
      self.add(n, 'const+1', lambda m, n=n: setattr(
          m[n], 'value', n.value + 1))
      if n.value not in (0, 1):
        self.add(n, 'const*', lambda m, n=n: setattr(
            m[n], 'value', n.value * 10))
    elif isinstance(n.value, str) and n.value:
      self.add(n, 'str', lambda m, n=n: setattr(m[n], 'value', n.value + '_'))

  def visit_Name(self, n):
    if n.id in NAMES and isinstance(n.ctx, ast.Load):
      self.add(n, 'side', lambda m, n=n: setattr(m[n], 'id', NAMES[n.id]))

  def visit_Subscript(self, n):
    s = n.slice
    if isinstance(s, ast.Constant) and s.value in (0, 1) and isinstance(
        n.ctx, ast.Load) and not isinstance(s.value, bool):
      self.add(n, 'index', lambda m, n=n: setattr(
          m[n], 'slice', ast.Constant(-1 if n.slice.value == 0 else 0)))
    if isinstance(s, ast.Slice):
      for part in ('lower', 'upper', 'step'):
        if getattr(s, part) is not None:
          self.add(n, f'slice_{part}', lambda m, n=n, part=part: setattr(
              m[n].slice, part, None))
    self.generic_visit(n)

  def visit_Call(self, n):
    f = ast.unparse(n.func)
    if f.startswith(SKIP_CALL):
      return
    for i, k in enumerate(n.keywords):
      self.add(n, f'kwdrop_{k.arg}', lambda m, n=n, i=i: m[n].keywords.pop(i))
    if len(n.args) >= 2 and not any(
        isinstance(a, ast.Starred) for a in n.args) and ast.dump(
            n.args[0]) != ast.dump(n.args[1]) and f not in (
                'isinstance', 'hasattr', 'getattr'):
      self.add(n, 'argswap', lambda m, n=n: m[n].args.__setitem__(
          slice(0, 2), m[n].args[1::-1]))
    if isinstance(n.func, ast.Attribute):
      if n.func.attr in METHOD:
        self.add(n, 'method', lambda m, n=n: setattr(
            m[n].func, 'attr', METHOD[n.func.attr]))
      if n.func.attr in CHAIN:
        self.add(n, 'chain', lambda m, n=n: replace(m, n, m[n].func.value))
    self.generic_visit(n)


def swap(n, a, b):
  x, y = getattr(n, a), getattr(n, b)
  setattr(n, a, y)
  setattr(n, b, x)


def replace(m, old, new):
  old = m[old]
  for p in ast.walk(m['tree']):
    for field, v in ast.iter_fields(p):
      if v is old:
        setattr(p, field, new)
        return
      if isinstance(v, list):
        for i, x in enumerate(v):
          if x is old:
            v[i] = new
            return


def replace_stmt(m, old, new):
  replace(m, old, new)


def mutants(path):
  tree = ast.parse(open(path).read())
  f = Finder()
  for s in tree.body:
    f.visit(s)
  return tree, f.out


def apply(tree, item):
  memo = {}
  copied = copy.deepcopy(tree, memo)
  nodes = {'tree': copied}
  for n in ast.walk(tree):
    nodes[n] = memo[id(n)]
  item[3](nodes)
  ast.fix_missing_locations(copied)
  return ast.unparse(copied)


def files(only):
  out = []
  for t in TREES:
    for d, _, fs in os.walk(f'{REPO}/{t}'):
      for f in sorted(fs):
        if f.endswith('.py') and 'test' not in f and '/apps' not in d:
          r = os.path.relpath(f'{d}/{f}', REPO)
          if not only or any(o in r for o in only):
            out.append(r)
  return sorted(out)


ORDER = ['c03', 'c05', 'c01', 'c02', 'c06', 'c08', 'c10', 'c11', 'c12', 'c13',
         'c14', 'c15', 'c16', 'c17', 'c19', 'c20', 'c21', 'c22', 'c25', 'c26',
         'c27', 'c28', 'c09', 'c04', 'c18', 'c07', 'c23', 'c24']


def analyse(job):
  rel, i, line, op, text, home = job
  pid = os.fork()
  if pid == 0:
    code = 3
    try:
      fd = os.open(f'{home}/log', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
      os.dup2(fd, 1)
      os.dup2(fd, 2)
      with open(f'{home}/{rel}', 'w') as f:
        f.write(text)
      os.environ.update(WBXSA_HOME=f'{home}/v', WBXSA_REPO=home)
      sys.setrecursionlimit(20000)
      sys.path.insert(0, f'{home}/v')
      import check
      code = 0
      for p in ORDER:
        r = check.run(p.upper(), 'quick')
        if r == 1:
          code = 1
          os.write(1, f'CAUGHT {p}\n'.encode())
          break
        if r:
          code = 2
    except BaseException as e:
      os.write(1, f'CRASH {e!r}\n'.encode())
      code = 4
    finally:
      os._exit(code)
  _, st = os.waitpid(pid, 0)
  shutil.copy(f'{REPO}/{rel}', f'{home}/{rel}')
  log = open(f'{home}/log', errors='replace').read().strip().splitlines()
  und = [l for l in log if 'undecided [' in l]
  return rel, line, op, os.waitstatus_to_exitcode(st), (
      und[:1] or log[-1:]), text


def worker(q, out, lock):
  home = tempfile.mkdtemp(prefix='wbxmut')
  for t in TREES:
    shutil.copytree(f'{REPO}/{t}', f'{home}/{t}')
  os.mkdir(f'{home}/v')
  for x in ('check.py', 'known_findings.txt'):
    shutil.copy(f'{HERE}/{x}', f'{home}/v/{x}')
  for x in ('wbxsa', 'spec'):
    shutil.copytree(f'{HERE}/{x}', f'{home}/v/{x}')
  while True:
    job = q.get()
    if job is None:
      break
    rel, line, op, code, log, text = analyse(job + (home,))
    with lock:
      with open(out, 'a') as f:
        f.write(f'{ {0: "SURVIVED", 1: "caught", 2: "undecided"}.get(code, "CRASH")}'
                f' {rel}:{line} {op} | {" ".join(log)[:200]}\n')
  shutil.rmtree(home)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('cmd')
  ap.add_argument('rest', nargs='*')
  ap.add_argument('--files', default='')
  ap.add_argument('--again', help='only the survivors listed in this file')
  ap.add_argument('--n', type=int, default=500)
  ap.add_argument('--seed', type=int, default=1)
  ap.add_argument('--jobs', type=int, default=6)
  a = ap.parse_args()
  only = [x for x in a.files.split(',') if x]
  if a.cmd == 'show':
    tree, items = mutants(f'{REPO}/{a.rest[0]}')
    for it in items:
      if it[0] == int(a.rest[1]) and it[1] == a.rest[2]:
        import difflib
        print('\n'.join(list(difflib.unified_diff(
            ast.unparse(tree).splitlines(), apply(tree, it).splitlines(),
            lineterm='', n=2))[2:]))
    return
  left = None
  if a.again:
    left = {l.split(' | ')[0].split(' ', 1)[1] for l in open(a.again)
            if l.startswith(('SURVIVED', 'undecided'))}
  jobs = []
  for rel in files(only):
    tree, items = mutants(f'{REPO}/{rel}')
    if a.cmd == 'list':
      print(rel, len(items))
    jobs += [(rel, tree, i, it) for i, it in enumerate(items)
             if left is None or f'{rel}:{it[0]} {it[1]}' in left]
  if a.cmd == 'list':
    print(len(jobs))
    return
  random.Random(a.seed).shuffle(jobs)
  q, lock = mp.Queue(), mp.Lock()
  ps = [mp.Process(target=worker, args=(q, a.rest[0], lock))
        for _ in range(a.jobs)]
  for p in ps:
    p.start()
  done = 0
  for rel, tree, i, it in jobs:
    if done >= a.n:
      break
    try:
      text = apply(tree, it)
      compile(text, rel, 'exec')
    except Exception:
      continue
    if text == ast.unparse(tree):
      continue
    q.put((rel, i, it[0], it[1], text))
    done += 1
  for _ in ps:
    q.put(None)
  for p in ps:
    p.join()


if __name__ == '__main__':
  main()
