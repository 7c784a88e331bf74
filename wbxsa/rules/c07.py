"""C07: no entry point modifies what its caller passed in."""

from __future__ import annotations

from .. import alias, entries, spec
from .. import terms as tm
from ..terms import mk

EXPLANATION = (
    'Effect and alias analysis. Every public entry point is analysed on '
    'symbolic arguments with all helpers inlined; every write it reaches '
    '(item and attribute assignment, augmented assignment, deletion, mutating '
    'methods, out= and inplace=, in-place numpy functions) is an event with '
    'its target. The target\'s may-alias roots (same object, shared data, '
    'shared coordinate; views, selections, shallow copies and loop '
    'accumulators are followed) must not contain an argument of the caller or '
    'an object handed to the constructor.')
ASSUMPTIONS = (
    'Which xarray, numpy and pandas operations return views, shallow copies '
    'or new memory is a table (alias.py).',
    'Data frames given to the parquet preprocessing helpers belong to them; '
    'state a loader keeps about itself is C24\'s business.',
)

IN_PLACE_METHODS = {'sort', 'fill', 'put', 'itemset', 'resize', 'partition',
                    'setflags', 'byteswap'}
CONTAINER_METHODS = {'append', 'extend', 'add', 'update', 'pop', 'clear',
                     'insert', 'setdefault', 'remove', 'popitem', 'discard'}
IN_PLACE_FUNCS = {'numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask',
                  'numpy.fill_diagonal', 'numpy.put_along_axis',
                  'numpy.random.shuffle', 'random.shuffle'}


def check(ctx):
  es = entries.entries(ctx.prog)
  ctx.rule('unmodified', 'nothing the entry point reaches writes to an object '
           'its caller passed in (directly, through a view of its data, or '
           'through a shared coordinate)', len(es) // 3)
  for label, target in es:
    with ctx.guard('unmodified', label):
      one(ctx, label, target)
  self_test(ctx)


def one(ctx, label, target):
  r = spec.analyse_code(ctx, target, {}, [], None)
  writes = 0
  hits = []
  a = alias.Alias(r.interp)
  for e in r.events:
    for what, roots in written(e, a, r):
      writes += 1
      roots = [x for x in roots if not a.owned(x)]
      if roots:
        hits.append((what, roots, e))
  if not hits:
    ctx.ok('unmodified', label, f'{writes} writes examined')
    return
  for what, roots, e in hits:
    f = ctx.prog.funcs.get(e.func)
    loc = f'{f.module.relpath}:{e.node.lineno}' if f and e.node is not None \
        else label
    names = ', '.join(sorted(root_name(x) for x in roots))
    ctx.bad('unmodified', f'{label}: {e.func.rsplit(".", 1)[-1]} {what}',
            f'{label}: {e.func} {what}, which is or shares memory with '
            f'the caller\'s {names}: '
            f'{tm.show(e.data[0])[:200]}', loc)


def root_name(x):
  if x.op == 'param':
    return f'constructor argument {x.args[-1]}'
  if x.op == 'bv':
    return 'array handed to a callback'
  return f'argument {x.args[0]}'


def written(e, a, r):
  """(description, roots) for what an event writes to."""
  k = e.kind
  if k in ('setitem', 'setpath', 'delitem'):
    base, key = e.data[0], e.data[1]
    yield from item_write(base, key, a, 'sets' if k != 'delitem' else
                          'deletes')
  elif k in ('setattr', 'delattr'):
    base, name = e.data[0], e.data[1].args[1]
    if own_state(base, e, r):
      return
    if name in ('values', 'data'):
      yield f'assigns .{name}', a.data(base)
    else:
      yield f'assigns .{name}', a.same(base)
  elif k == 'aug':
    cur = e.data[0]
    if a.immutable(cur) or e.node is None:
      return
    if cur.op in ('index', 'attr') and cur.args and element_immutable(
        cur, a, r):
      return
    yield 'updates in place', a.data(cur)
  elif k == 'mutcall':
    base, name = e.data[0], e.data[1].args[1]
    if base.op == 'call' and base.args[0].op == 'ext':
      return
    if name in IN_PLACE_METHODS:
      yield f'calls .{name}()', a.data(base)
    elif name in CONTAINER_METHODS:
      yield f'calls .{name}()', a.same(base)
  elif k in ('call', 'writecall'):
    t = e.data[0]
    if t.op != 'call':
      return
    f, pos, kw = t.args
    kwd = dict(kw)
    if 'out' in kwd and kwd['out'].op != 'const':
      yield 'writes to out=', a.data(kwd['out'])
    if kwd.get('inplace') is tm.TRUE and f.op == 'attr':
      yield f'calls .{f.args[1]}(inplace=True)', a.same(f.args[0])
    if f.op == 'ext' and f.args[0] in IN_PLACE_FUNCS and pos:
      yield f'calls {f.args[0]}', a.data(pos[0])
    if f.op == 'ext' and f.args[0].startswith('numpy.') and f.args[
        0].endswith('.at') and pos:
      yield f'calls {f.args[0]}', a.data(pos[0])
    if f.op == 'attr' and f.args[1] in IN_PLACE_METHODS - {'put'}:
      yield f'calls .{f.args[1]}()', a.data(f.args[0])
    if f.op == 'ext' and f.args[0] == 'numpy.nan_to_num' and pos and kwd.get(
        'copy') is tm.FALSE:
      yield 'calls nan_to_num(copy=False)', a.data(pos[0])
    if f.op == 'attr' and f.args[1] == 'shuffle' and pos:
      yield 'shuffles', a.data(pos[0])


def item_write(base, key, a, verb):
  while base.op == 'attr' and base.args[1] in ('loc', 'iloc', 'at', 'iat'):
    base = base.args[0]
    key = mk('slice', tm.NONE, tm.NONE, tm.NONE)
  if base.op == 'attr' and base.args[1] in ('coords', 'attrs', 'encoding',
                                            'indexes'):
    yield f'{verb} a member of .{base.args[1]}', a.same(base.args[0])
    return
  if alias.is_name(key, a.it):
    yield f'{verb} an item', a.same(base)
    return
  yield f'{verb} elements', a.data(base)


def element_immutable(cur, a, r):
  if cur.op != 'index':
    return False
  b = cur.args[0]
  et = r.interp.elem_type(b, 'index')
  if et is None:
    n = a.ann_names(b)
    return n is not None and n <= {'tuple', 'Tuple'}
  r.interp.types.setdefault(cur, et)
  return a.immutable(cur)


def own_state(base, e, r):
  """Objects of the library keep state of their own (see C24)."""
  cls = r.interp.class_of(base, None) if base.op != 'ref' else None
  while cls is None and base.op in ('withattr', 'withitem'):
    base = base.args[0]
    cls = r.interp.class_of(base, None)
  if cls is None:
    return False
  owner = e.func.rsplit('.', 1)[0]
  return owner in r.interp.p.mro(cls)


def self_test(ctx):
  """The relations recognise a few writes that are and are not the caller's."""
  it = ctx.interp()
  a = alias.Alias(it)
  x = mk('in', 'x')
  sl = mk('slice', tm.NONE, tm.NONE, tm.NONE)
  call = lambda b, m, *kw: mk('call', mk('attr', b, m), (), kw)
  pos = [mk('index', x, sl), mk('attr', x, 'values'), call(x, 'transpose'),
         mk('call', mk('ext', 'numpy.asarray'), (x,), ()),
         call(x, 'copy', ('deep', tm.FALSE))]
  negs = [call(x, 'copy'), tm.add(x, tm.const(1)), call(x, 'mean')]
  ctx.rule('self-test', 'the alias relation tells views from copies', 1)
  ctx.check(all(a.data(p) for p in pos) and not any(
      a.data(n) for n in negs), 'self-test', 'alias relation',
      'the alias relation does not separate views from copies')
