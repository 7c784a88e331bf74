"""Constant folding of literal tables (module-level or local)."""

import ast


class Unknown(Exception):
  """Not a literal table."""


class Opaque:
  """A value that is not folded: a call, a lambda, an imported object."""

  def __init__(self, node):
    self.node = node

  def __repr__(self):
    return f'<{ast.unparse(self.node)[:40]}>'

  def __eq__(self, other):
    return isinstance(other, Opaque) and ast.dump(self.node) == ast.dump(
        other.node)

  def __hash__(self):
    return hash(ast.dump(self.node))


class Fold:
  """Folds literals, reporting keys written twice in one table."""

  def __init__(self, scope, on_duplicate=None):
    self.scope = scope  # name -> ast expression
    self.dup = on_duplicate or (lambda key, node: None)
    self.busy = set()

  def put(self, out, k, v, node):
    try:
      if k in out:
        self.dup(k, node)
    except TypeError as e:
      raise Unknown(str(e)) from e
    out[k] = v

  def __call__(self, n, env=None):
    env = env or {}
    if isinstance(n, ast.Constant):
      return n.value
    if isinstance(n, ast.Name):
      if n.id in env:
        return env[n.id]
      if n.id in self.scope and n.id not in self.busy:
        self.busy.add(n.id)
        try:
          return self(self.scope[n.id])
        finally:
          self.busy.discard(n.id)
      return Opaque(n)
    if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
      out = []
      for x in n.elts:
        if isinstance(x, ast.Starred):
          v = self(x.value, env)
          if isinstance(v, Opaque):
            raise Unknown('splat of an unknown value')
          out.extend(v)
        else:
          out.append(self(x, env))
      return out if isinstance(n, ast.List) else tuple(out)
    if isinstance(n, ast.Dict):
      out = {}
      for k, v in zip(n.keys, n.values):
        if k is None:
          w = self(v, env)
          if not isinstance(w, dict):
            raise Unknown('merge of an unknown table')
          for a, b in w.items():
            self.put(out, a, b, v)
        else:
          self.put(out, self(k, env), self(v, env), k)
      return out
    if isinstance(n, ast.BinOp):
      a, b = self(n.left, env), self(n.right, env)
      if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque(n)
      if isinstance(n.op, ast.BitOr) and isinstance(a, dict):
        return {**a, **b}
      ops = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
             ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
             ast.Mod: lambda: a % b}
      if type(n.op) in ops:
        try:
          return ops[type(n.op)]()
        except (TypeError, ValueError, ZeroDivisionError) as e:
          raise Unknown(str(e)) from e
      return Opaque(n)
    if isinstance(n, ast.UnaryOp):
      v = self(n.operand, env)
      if isinstance(v, (int, float)) and isinstance(n.op, ast.USub):
        return -v
      if isinstance(v, (int, float)) and isinstance(n.op, ast.UAdd):
        return v
      return Opaque(n)
    if isinstance(n, ast.JoinedStr):
      out = ''
      for x in n.values:
        v = x.value if isinstance(x, ast.Constant) else self(x.value, env)
        if isinstance(v, Opaque):
          return Opaque(n)
        out += str(v)
      return out
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                      ast.DictComp)) and len(n.generators) == 1:
      return self.comp(n, env)
    if isinstance(n, ast.Call):
      return self.call(n, env)
    if isinstance(n, ast.Subscript):
      v = self(n.value, env)
      i = self(n.slice, env)
      if isinstance(v, (dict, list, tuple, str)) and not isinstance(i, Opaque):
        try:
          return v[i]
        except (KeyError, IndexError, TypeError) as e:
          raise Unknown(f'{i!r} not found') from e
      return Opaque(n)
    return Opaque(n)

  def comp(self, n, env):
    g = n.generators[0]
    src = self(g.iter, env)
    if isinstance(src, Opaque):
      return Opaque(n)
    out = {} if isinstance(n, ast.DictComp) else []
    for x in src:
      e = dict(env)
      if isinstance(g.target, ast.Name):
        e[g.target.id] = x
      elif isinstance(g.target, ast.Tuple):
        for t, y in zip(g.target.elts, x):
          e[t.id] = y
      keep = [self.test(c, e) for c in g.ifs]
      if any(k is None for k in keep):
        return Opaque(n)
      if not all(keep):
        continue
      if isinstance(n, ast.DictComp):
        self.put(out, self(n.key, e), self(n.value, e), n)
      else:
        out.append(self(n.elt, e))
    return out

  def test(self, c, env):
    if isinstance(c, ast.Compare) and len(c.ops) == 1:
      a, b = self(c.left, env), self(c.comparators[0], env)
      if isinstance(a, Opaque) or isinstance(b, Opaque):
        return None
      f = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b,
           ast.In: lambda: a in b, ast.NotIn: lambda: a not in b}
      return f[type(c.ops[0])]() if type(c.ops[0]) in f else None
    return None

  def call(self, n, env):
    f = n.func
    name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
    if name == 'fromkeys' and isinstance(f.value, ast.Name) and (
        f.value.id == 'dict'):
      keys = self(n.args[0], env)
      v = self(n.args[1], env) if len(n.args) > 1 else None
      if isinstance(keys, Opaque):
        raise Unknown('keys')
      out = {}
      for k in keys:
        self.put(out, k, v, n)
      return out
    if name == 'dict' and not n.args and isinstance(f, ast.Name):
      out = {}
      for k in n.keywords:
        v = self(k.value, env)
        if k.arg is None:
          if not isinstance(v, dict):
            raise Unknown('merge')
          for a, b in v.items():
            self.put(out, a, b, n)
        else:
          self.put(out, k.arg, v, n)
      return out
    if isinstance(f, ast.Attribute) and name in ('items', 'keys', 'values'):
      v = self(f.value, env)
      if isinstance(v, dict):
        return list(getattr(v, name)())
    if isinstance(f, ast.Name) and name in ('list', 'tuple', 'sorted', 'set'
                                           ) and len(n.args) == 1:
      v = self(n.args[0], env)
      if not isinstance(v, Opaque):
        return list(v)
    return Opaque(n)


def scope_of(body):
  """Names bound exactly once by assignments in a list of statements."""
  out = {}
  many = set()
  for s in body:
    t = v = None
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
        s.targets[0], ast.Name):
      t, v = s.targets[0].id, s.value
    elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(
        s.target, ast.Name):
      t, v = s.target.id, s.value
    if t is None:
      continue
    if t in out:
      many.add(t)
    out[t] = v
  return {k: v for k, v in out.items() if k not in many}
