"""What an object may share with the caller: identity and buffer aliasing.

Three relations over value-graph terms, each giving the caller-owned roots:

  same(t)    t is the very object the caller passed in (or a member of it),
  data(t)    t's array data may share memory with the caller's array,
  coord(t,n) the data of t's coordinate n may share memory with the caller's.

Everything not listed as sharing is a new object: arithmetic, comparisons,
selections by arrays, reductions, concatenation, explicit copies. The relation
is therefore a may-analysis that is exact on the listed operations and
assumes freshness elsewhere.
"""

from __future__ import annotations

import ast

from . import terms as tm
from .terms import mk

VIEW_ATTRS = {'values', 'data', 'T', 'variable', 'flat', 'real', 'imag', 'dt'}
PART_ATTRS = {'coords', 'attrs', 'encoding', 'loc', 'iloc', 'at', 'iat',
              'indexes', 'data_vars', 'xindexes'}
VIEW_METHODS = {
    'transpose', 'isel', 'sel', 'rename', 'rename_vars', 'rename_dims',
    'assign_coords', 'assign_attrs', 'squeeze', 'expand_dims', 'drop_vars',
    'drop', 'swap_dims', 'reset_coords', 'set_coords', 'reset_index',
    'set_index', 'stack', 'unstack', 'reshape', 'ravel', 'view', 'swapaxes',
    'broadcast_like', 'to_dataset', 'to_dataarray', 'to_array', 'as_numpy',
    'compute', 'persist', 'head', 'tail', 'thin', 'to_numpy', 'get',
    'with_attrs', 'assign', 'chunk', 'drop_attrs', 'drop_indexes',
    'reset_encoding', 'item_view',
}
SELF_METHODS = {'load', '__enter__'}
VIEW_FUNCS = {
    'xarray.DataArray', 'xarray.Dataset', 'xarray.Variable', 'numpy.asarray',
    'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.atleast_1d',
    'numpy.atleast_2d', 'numpy.ravel', 'numpy.reshape', 'numpy.transpose',
    'numpy.squeeze', 'numpy.broadcast_to', 'numpy.moveaxis', 'numpy.swapaxes',
    'numpy.expand_dims', 'numpy.flip', 'numpy.split', 'xarray.broadcast',
    'xarray.align',
}
ARRAYISH = ('DataArray', 'Dataset', 'DataFrame', 'ndarray')
IMMUTABLE = {'str', 'int', 'float', 'bool', 'bytes', 'tuple', 'Hashable',
             'timedelta64', 'datetime64', 'frozenset', 'None', 'Tuple',
             'complex', 'Timedelta', 'Timestamp', 'slice', 'Callable'}


class Alias:

  def __init__(self, it):
    self.it = it
    self.memo = {}

  # ------------------------------------------------------------- annotations

  def ann_names(self, t):
    """The alternatives of the annotation of a term, as bare names."""
    got = self.it.types.get(t)
    if got is None:
      return None
    out = set()

    def rec(a):
      if isinstance(a, ast.Constant):
        if isinstance(a.value, str):
          try:
            rec(ast.parse(a.value, mode='eval').body)
          except SyntaxError:
            out.add('?')
        else:
          out.add(str(a.value))
      elif isinstance(a, ast.BinOp):
        rec(a.left)
        rec(a.right)
      elif isinstance(a, ast.Subscript):
        n = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(
            a.value, 'id', '?')
        if n in ('Optional', 'Union'):
          for e in (a.slice.elts if isinstance(a.slice, ast.Tuple) else
                    [a.slice]):
            rec(e)
        else:
          out.add(n)
      elif isinstance(a, ast.Attribute):
        out.add(a.attr)
      elif isinstance(a, ast.Name):
        out.add(a.id)
      else:
        out.add('?')
    rec(got[0])
    return out

  def immutable(self, t):
    n = self.ann_names(t)
    return n is not None and n <= IMMUTABLE

  def arrayish(self, t):
    n = self.ann_names(t)
    return n is not None and bool(n & set(ARRAYISH))

  def owned(self, t):
    """Frames are handed over to the preprocessing functions that edit them."""
    n = self.ann_names(t)
    return n is not None and 'DataFrame' in n

  # --------------------------------------------------------------- relations

  def same(self, t):
    return self._go('same', t, None)

  def data(self, t):
    return self._go('data', t, None)

  def coord(self, t, name):
    return self._go('coord', t, name)

  def _go(self, rel, t, name):
    k = (rel, t, name)
    if k in self.memo:
      return self.memo[k]
    self.memo[k] = frozenset()  # cycles add nothing
    r = frozenset(getattr(self, '_' + rel)(t, name) if rel == 'coord' else
                  getattr(self, '_' + rel)(t))
    self.memo[k] = r
    return r

  def _union(self, rel, ts, name=None):
    out = frozenset()
    for x in ts:
      out |= self._go(rel, x, name)
    return out

  def _through(self, rel, t, name=None):
    """Cases shared by all relations; None when not one of them."""
    op, a = t.op, t.args
    if op in ('in', 'param'):
      return {t}
    if op == 'bv':
      return {t} if a and a[0] == -1 else set()
    if op == 'fresh':
      src = self.it.binder_iter.get(t)
      return self._elements(rel, src, name) if src is not None else set()
    if op == 'ite':
      return self._union(rel, a[1:], name)
    if op == 'acc':
      i = self.it.acc_init.get(t)
      return self._go(rel, i, name) if i is not None else set()
    if op == 'withattr':
      return self._go(rel, a[0], name)
    if op in ('first', 'last', 'lastof'):
      return self._union(rel, [x for x in a if isinstance(x, tm.T)], name)
    if op == 'comp':
      return self._union(rel, a[2:], name)
    if op in ('item', 'guard'):
      return self._union(rel, a[-1:] if op == 'guard' else a, name)
    return None

  def _elements(self, rel, src, name):
    """Members of an iterable."""
    op, a = src.op, src.args
    if op == 'accref':
      i = self.it.acc_init.get(src)
      return self._elements(rel, i, name) if i is not None else frozenset()
    if op in ('dict_items', 'dict_values'):
      return self._elements(rel, a[0], name)
    if op in ('list', 'tuple', 'set', 'dict'):
      out = frozenset()
      for s in a:
        if s.op in ('item',):
          out |= self._go(rel, s.args[0], name)
        elif s.op in ('kv',):
          out |= self._go(rel, s.args[1], name)
        elif s.op in ('splat', 'dsplat'):
          out |= self._elements(rel, s.args[0], name)
        elif s.op in ('comp', 'guard'):
          out |= self._elements(rel, s, name)
      return out
    if op in ('comp', 'guard'):
      return self._union('' or rel, [], name) | frozenset().union(*[
          self._elements(rel, mk('list', s), name) for s in (
              a[2:] if op == 'comp' else a[1:])])
    if op == 'call':
      f = a[0]
      if f.op == 'attr' and f.args[1] in ('items', 'values'):
        return self._go('same', f.args[0], None)
      return frozenset()
    if self.immutable(src):
      return frozenset()
    return self._go('same', src, None)

  def _same(self, t):
    r = self._through('same', t)
    if r is not None:
      return r
    op, a = t.op, t.args
    if op in ('withitem', 'withitems'):
      return self.same(a[0])
    if op == 'index':
      if self.arrayish(a[0]):
        return set()
      return self._member('same', t)
    if op == 'attr':
      if a[1] in VIEW_ATTRS or a[1] in PART_ATTRS:
        return self.same(a[0])
      return self.same(a[0])
    if op == 'call' and a[0].op == 'attr' and a[0].args[1] in SELF_METHODS:
      return self.same(a[0].args[0])
    return set()

  def _member(self, rel, t, name=None):
    b, k = t.args
    if b.op in ('list', 'tuple', 'dict', 'accref'):
      return self._elements(rel, b, name)
    if b.op == 'withitem':
      if b.args[1] is k:
        return self._go(rel, b.args[2], name)
      return self._go(rel, mk('index', b.args[0], k), name)
    if b.op == 'withitems':
      return self._elements(rel, b.args[1], name) | self._go(
          rel, mk('index', b.args[0], k), name)
    return self._go(rel, b, name) if rel != 'coord' else self._go(
        'data', b, None)

  def _data(self, t):
    r = self._through('data', t)
    if r is not None:
      return r
    op, a = t.op, t.args
    if op in ('withitem', 'withitems'):
      return self.data(a[0])
    if op == 'index':
      if is_name(a[1], self.it):
        # a variable of a mapping, or a coordinate of an array
        if self.arrayish(a[0]) and 'DataArray' in self.ann_names(a[0]) or (
            a[0].op == 'call'):
          return self.coord(a[0], a[1]) | (
              self.data(a[0]) if not self.arrayish(a[0]) else frozenset())
        return self._member('data', t)
      if basic_key(a[1]):
        return self.data(a[0])
      return set()
    if op == 'attr':
      return self.data(a[0])
    if op == 'call':
      f, pos, kw = a
      kwd = dict(kw)
      if f.op == 'attr':
        m = f.args[1]
        if m in SELF_METHODS or m in VIEW_METHODS:
          if m in ('isel', 'sel') and any(
              v.op in ('list', 'call', 'compare') for v in list(
                  kwd.values()) + list(pos)):
            return set()
          return self.data(f.args[0])
        if m == 'copy':
          deep = kwd.get('deep', pos[0] if pos else None)
          if deep is tm.FALSE:
            return self.data(f.args[0])
          if deep is None and self.dataset(f.args[0]):
            return self.data(f.args[0])  # Dataset.copy is shallow by default
          return set()
        if m == 'astype' and kwd.get('copy') is tm.FALSE:
          return self.data(f.args[0])
        return set()
      if f.op == 'ext' and f.args[0] in VIEW_FUNCS and pos:
        return self._union('data', pos)
      if f.op == 'ext' and f.args[0] == 'numpy.array' and kwd.get(
          'copy') is tm.FALSE:
        return self._union('data', pos)
    if op in ('list', 'tuple', 'dict', 'set'):
      return self._elements('data', t, None)
    return set()

  def dataset(self, t):
    n = self.ann_names(t)
    return n is not None and 'Dataset' in n

  def _coord(self, t, name):
    r = self._through('coord', t, name)
    if r is not None:
      return r
    op, a = t.op, t.args
    if op == 'withitem':
      if a[1] is name:
        return self.data(a[2])
      return self.coord(a[0], name)
    if op == 'withitems':
      out = self.coord(a[0], name)
      for s in a[1].args:
        if s.op == 'kv' and s.args[0] is name:
          out = self.data(s.args[1])
      return out
    if op == 'index':
      if is_name(a[1], self.it):
        return self._member('coord', t, name) | self.coord(a[0], name)
      return self.coord(a[0], name)
    if op == 'attr':
      return self.coord(a[0], name)
    if op == 'call':
      f, pos, kw = a
      kwd = dict(kw)
      if f.op == 'attr':
        m = f.args[1]
        if m == 'copy':
          return self._copy(kwd, pos, f.args[0], name)
        if m == 'assign_coords':
          for k, v in list(kwd.items()) + [
              (s.args[0], s.args[1]) for p in pos if p.op == 'dict'
              for s in p.args if s.op == 'kv']:
            if (k is name) or (isinstance(k, str) and name.op == 'const'
                               and name.args[1] == k):
              return self.data(v)
        if m in ('to_numpy', 'item', 'tolist'):
          return set()
        return self.coord(f.args[0], name)
      if f.op == 'ext' and f.args[0] == 'copy.deepcopy':
        return set()
      if f.op == 'ext' and f.args[0].startswith('xarray.'):
        return self._union('coord', pos, name)
      return set()
    if op in ('list', 'tuple', 'dict', 'set'):
      return self._elements('coord', t, name)
    if op in ('sum', 'prod'):
      return self._union('coord', tm.children(t), name)
    if op in ('where', 'fn', 'eq', 'lt', 'le', 'ne', 'mod', 'inv', 'band',
              'bor', 'astype', 'notnull', 'isnull', 'reduce'):
      return self._union('coord', tm.children(t), name)
    return set()

  def _copy(self, kwd, pos, base, name):
    deep = kwd.get('deep', pos[0] if pos else None)
    if deep is tm.FALSE or (deep is None and (
        self.dataset(base) or 'data' in kwd)):
      return self.coord(base, name)
    return set()


def is_name(k, it):
  """A key naming a variable, coordinate or column."""
  if k.op == 'const':
    return k.args[0] == 'str'
  if k.op == 'fstr':
    return True
  if k.op == 'ite':
    return is_name(k.args[1], it) and is_name(k.args[2], it)
  if k.op in ('in', 'param'):
    got = it.types.get(k)
    if got is None:
      return True
    src = ast.unparse(got[0])
    return 'str' in src or 'Hashable' in src
  if k.op in ('fresh', 'attr'):
    return True
  if k.op == 'index':
    return True
  return False


def basic_key(k):
  """Basic indexing, which gives a view."""
  if k.op in ('num', 'slice'):
    return True
  if k.op == 'const':
    return k.args[0] in ('ellipsis', 'NoneType', 'Ellipsis')
  if k.op == 'tuple':
    return all(s.op == 'item' and basic_key(s.args[0]) for s in k.args)
  return k.op in ('pos', 'neg', 'sum', 'floordiv')
