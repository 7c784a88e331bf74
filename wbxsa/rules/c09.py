"""C09: outputs are written to a unique sibling and renamed when complete.

Typestate over the write path of every function that produces an output file:
the events (open, write, close, rename, remove, raise) are ordered and carry
the with/try regions they lie in, so every point at which writing can fail is
one of finitely many regions.
"""

import ast

from . import generic
from .. import spec
from .. import terms as tm
from ..program import AnalysisError

EXPLANATION = (
    'The write path of every output (atomic_write and the two output DoFns '
    'of the pipeline, helpers inlined) is turned into its ordered events '
    'with the try/with regions they lie in. Failure can only occur inside '
    'those regions, so a typestate rule per region (temporary opened -> '
    'written -> closed -> renamed; on failure removed and re-raised) covers '
    'every crash point that can be observed by the process. A sweep over all '
    'other functions shows that no output bypasses this path.')
ASSUMPTIONS = (
    'a rename within one directory is atomic on the file system in use (the '
    'code documents the same assumption)',)

OPENERS = {'open', 'open_async', 'NamedTemporaryFile'}
MOVES = {'mv', 'move', 'rename', 'replace', 'mv_file'}
COPIES = {'copy', 'cp', 'copyfile', 'copy2', 'put', 'put_file', 'cp_file',
          'upload'}
REMOVES = {'rm', 'rm_file', 'remove', 'unlink', 'delete', '_rm'}
DIRECT = {'pipe', 'pipe_file', 'write_bytes', 'write_text', 'to_netcdf',
          'to_zarr', 'to_parquet', 'to_csv', 'to_pickle', 'savez', 'tofile',
          'dump'}
UNIQUE = ('uuid.uuid1', 'uuid.uuid4', 'tempfile.', 'secrets.')

SELF_TEST = '''
def save(ds, path):
  ds.to_netcdf(path)
  with open(path, mode='w') as f:
    f.write('x')
'''


def callee(t):
  """Last name of what is called."""
  if t.op != 'call':
    return ''
  f = t.args[0]
  if f.op in ('attr', 'ext', 'func'):
    return str(f.args[-1]).rsplit('.', 1)[-1]
  return ''


def pos(t):
  out = []
  for x in t.args[1:]:
    if isinstance(x, tm.T):
      out.append(x)
    elif isinstance(x, tuple):
      out.extend(y for y in x if isinstance(y, tm.T))
  return out


def kwargs(t):
  out = {}
  for x in t.args[1:]:
    if isinstance(x, tuple):
      for y in x:
        if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str):
          out[y[0]] = y[1]
  return out


def arg(t, i, *names):
  ps = pos(t)
  if i < len(ps):
    return ps[i]
  kw = kwargs(t)
  for n in names:
    if n in kw:
      return kw[n]
  return None


def opens_for_writing(t):
  if callee(t) not in OPENERS:
    return None
  f = t.args[0]
  mode = arg(t, 1, 'mode')
  if f.op == 'attr' and not pos(t) and 'mode' not in kwargs(t):
    mode = None
  default = 'w+b' if callee(t) == 'NamedTemporaryFile' else (
      'rb' if f.op == 'attr' else 'r')
  text = default
  if mode is not None:
    if mode.op != 'const':
      return None
    text = str(mode.args[-1])
  return any(c in text for c in 'wax+')


def names_final(t, final):
  """t denotes the requested path itself."""
  while True:
    if t is final:
      return True
    if t.op == 'call' and callee(t) in (
        'str', 'fspath', '_strip_protocol', 'Path', 'abspath', 'expanduser',
        'normpath') and pos(t):
      t = pos(t)[-1]
    elif t.op in ('index', 'getitem') and t.args[0].op == 'call' and callee(
        t.args[0]) in ('url_to_fs', 'get_fs_token_paths'):
      t = pos(t.args[0])[0]
    elif t.op == 'call' and callee(t) == 'join' and len(pos(t)) == 2 and (
        is_dir_of(pos(t)[0], final) and is_name_of(pos(t)[1], final)):
      return True
    else:
      return False


def is_dir_of(t, final):
  if t.op == 'call' and callee(t) in ('dirname', '_parent') and pos(t):
    return names_final(pos(t)[-1], final)
  if t.op in ('index', 'getitem') and t.args[0].op == 'call' and callee(
      t.args[0]) in ('split', 'rpartition', 'rsplit'):
    return idx(t) == 0 and whose(t.args[0], final)
  if t.op == 'attr' and t.args[1] == 'parent':
    return names_final(t.args[0], final)
  return False


def is_name_of(t, final):
  if t.op == 'call' and callee(t) == 'basename' and pos(t):
    return names_final(pos(t)[-1], final)
  if t.op in ('index', 'getitem') and t.args[0].op == 'call' and callee(
      t.args[0]) in ('split', 'rpartition', 'rsplit'):
    return idx(t) in (1, 2, -1) and whose(t.args[0], final)
  return t.op == 'attr' and t.args[1] == 'name' and names_final(
      t.args[0], final)


def whose(call, final):
  f = call.args[0]
  if f.op == 'attr' and names_final(f.args[0], final):
    return True
  return any(names_final(x, final) for x in pos(call))


def idx(t):
  i = t.args[1]
  return i.args[-1] if isinstance(i, tm.T) and i.op in ('const', 'num') else i


def sibling(t, final):
  """t lies in the directory of the final path (or None if not clear)."""
  if t.op == 'call' and callee(t) == 'join' and pos(t):
    return is_dir_of(pos(t)[0], final)
  if t.op == 'call' and callee(t) in ('mkstemp', 'NamedTemporaryFile',
                                      'mktemp', 'mkdtemp'):
    d = kwargs(t).get('dir')
    return d is not None and is_dir_of(d, final)
  if t.op in ('index', 'getitem', 'attr'):
    return sibling(t.args[0], final)
  if t.op == 'fstr':
    p = t.args[0][0]
    p = p.args[0] if p.op == 'fmt' else p
    return names_final(p, final) or is_dir_of(p, final)
  if t.op in ('add', 'sum', 'concat', 'binop'):
    xs = [x for x in tm.walk(t) if names_final(x, final) or is_dir_of(
        x, final)]
    return True if xs else None
  if t.op == 'call' and callee(t) in ('with_name', 'with_suffix'):
    return names_final(t.args[0].args[0], final)
  return None


def unique(t):
  return any(u.op == 'call' and u.args[0].op in ('ext', 'func') and str(
      u.args[0].args[-1]).startswith(UNIQUE) for u in tm.walk(t))


def same(a, b):
  return tm.show(a) == tm.show(b)


def entries(ctx):
  """(label, target, final path, data or None)."""
  prog = ctx.prog
  out = []
  f = prog.funcs.get('weatherbenchX.beam_utils.atomic_write')
  if f is not None:
    ps = [a.arg for a in f.node.args.args]
    out.append(('atomic_write', f.qual, tm.mk('in', ps[0]),
                tm.mk('in', ps[1])))
  for c in ('WriteMetrics', 'WriteAggregationState'):
    k = prog.cls(c, required=False)
    if k is not None:
      out.append((c, f'{c}.process', tm.mk('param', 'out_path'), None))
  return out


def typestate(ctx, label, code, final, data):
  ev = code.events
  loc = code.func.loc() if callable(code.func.loc) else code.func.loc

  def say(cond, rule, what, detail):
    ctx.check(cond, rule, f'{label}: {what}', detail, loc)

  calls = [(i, e, e.data[0]) for i, e in enumerate(ev) if e.kind == 'call'
           and e.data[0].op == 'call']
  opens = [(i, e, t) for i, e, t in calls if opens_for_writing(t)]
  direct = [(i, e, t) for i, e, t in calls if callee(t) in DIRECT and (
      pos(t) or 'path' in kwargs(t))]
  direct = [(i, e, t) for i, e, t in direct if any(
      names_final(x, final) for x in pos(t) + list(kwargs(t).values()))]
  say(not direct, 'temporary', 'no direct write to the final path',
      'writes straight to the requested path: '
      + '; '.join(tm.show(t)[:120] for _, _, t in direct))
  if not opens:
    if not direct:
      ctx.undecided('temporary', label, 'no file is opened for writing', loc)
    return
  for i, e, t in opens:
    path = arg(t, 0, 'path', 'urlpath', 'file') if callee(
        t) != 'NamedTemporaryFile' else tm.mk('attr', t, 'name')
    if path is None and t.args[0].op == 'attr':
      path = t.args[0].args[0]
    if names_final(path, final):
      say(False, 'temporary', 'no direct write to the final path',
          'opens the requested path itself for writing')
      continue
    say(sibling(path, final), 'temporary', 'in the directory of the output',
        f'the temporary is {tm.show(path)[:200]}; renaming is only atomic '
        'within one directory')
    say(unique(path), 'temporary', 'unique name',
        f'the temporary {tm.show(path)[:200]} is shared by concurrent writers')
    trys = [r[1] for r in e.regions if r[0] == 'try' and r[2] == 'body']
    withs = []
    for j, w, in enumerate(ev):
      if w.kind == 'with' and w.data and tm.contains(w.data[0], t):
        withs.append(id(w.node))
    # --- publishing
    moves = [(j, m, u) for j, m, u in calls if callee(u) in MOVES and any(
        names_final(x, final) for x in pos(u) + list(kwargs(u).values()))]
    copies = [(j, m, u) for j, m, u in calls if callee(u) in COPIES and any(
        names_final(x, final) for x in pos(u) + list(kwargs(u).values()))]
    say(not copies, 'publish', 'by renaming',
        'the output is copied to its final name, so it is visible while '
        'incomplete: ' + '; '.join(tm.show(u)[:120] for _, _, u in copies))
    if not moves and not copies:
      say(False, 'publish', 'by renaming',
          'the completed temporary is never renamed to the requested path')
    writes = [(j, w, u) for j, w, u in calls if callee(u) in (
        'write', 'writelines', 'dump', 'write_bytes', 'pipe_file') and (
            tm.contains(u, t))]
    for j, m, u in moves:
      src = arg(u, 0, 'path1', 'src')
      if u.args[0].op == 'attr' and len(pos(u)) == 1:
        src = u.args[0].args[0]
      say(src is not None and (same(src, path) or tm.contains(src, path)),
          'publish', 'renames what was written',
          f'renames {tm.show(src)[:200] if src is not None else None} but '
          f'wrote {tm.show(path)[:200]}')
      dst = arg(u, 1, 'path2', 'dst')
      say(dst is None or names_final(dst, final), 'publish',
          'to the requested path', f'renames to {tm.show(dst)[:200]}')
      fails = [r for r in m.regions if r[0] == 'try' and r[1] in trys and (
          r[2] in ('finally', 'handler'))]
      cond = m.cond
      flagged = any(r[2] == 'finally' for r in fails) and cond is not tm.TRUE
      say(None if flagged else not fails, 'publish',
          'only if writing succeeded',
          'the rename also happens after writing failed '
          f'({", ".join(r[2] for r in fails)} region)')
      say(not any(r[0] == 'with' and r[1] in withs for r in m.regions),
          'publish', 'after closing',
          'the rename happens while the file is still open for writing')
      last = max([k for k, _, _ in writes], default=i)
      say(j > i and j > last, 'publish', 'after all contents',
          'the rename happens before the contents are written')
      if not fails:
        say(cond is tm.TRUE or None if unknowable(cond) else (
            cond is tm.TRUE), 'publish', 'always',
            f'the output is only published when {tm.show(cond)[:200]}')
    # --- contents
    if data is not None:
      if not writes:
        ctx.undecided('contents', label, 'no write call found', loc)
      for j, w, u in writes:
        x = pos(u)[-1] if pos(u) else None
        exact = x is not None and (x is data or same(x, data))
        chunked = bool(w.loops) or len(writes) > 1
        say(True if exact and not w.loops else None if chunked else False,
            'contents', 'exactly the given data',
            f'writes {tm.show(x)[:200] if x is not None else None}')
        say(w.cond is tm.TRUE or None if unknowable(w.cond) else (
            w.cond is tm.TRUE), 'contents', 'always',
            f'contents are only written when {tm.show(w.cond)[:200]}')
    # --- failure
    rms = [(j, m, u) for j, m, u in calls if callee(u) in REMOVES and any(
        same(x, path) or tm.contains(x, path) for x in removed(u))]
    auto = callee(t) == 'NamedTemporaryFile' and not (
        kwargs(t).get('delete') is tm.FALSE)
    clean = [m for _, m, u in rms if any(
        r[0] == 'try' and r[1] in trys and (
            r[2] == 'finally' or r[2] == 'handler' and r[3].endswith(
                'BaseException')) for r in m.regions)]
    say(bool(clean) or auto, 'failure', 'temporary removed',
        'a failure (of any kind, including interruption) while writing '
        'leaves the temporary behind')
    for m in clean:
      inner = [c for c in m.pc if c.op != 'exc' and not unknowable(c)
               and not about_temporary(c, path)]
      say(not inner, 'failure', 'removal always happens',
          'removed only when ' + tm.show(tm.land(*inner))[:200])
    # --- the previous output
    hits = [u for _, m, u in calls if callee(u) in REMOVES and any(
        names_final(x, final) for x in removed(u))]
    say(not hits, 'previous', 'never removed',
        'the previous output is removed: ' + '; '.join(
            tm.show(u)[:120] for u in hits))
    # --- errors
    swallow = []
    for tr in ev:
      if tr.kind != 'try' or id(tr.node) not in [
          r[1] for j, w, _ in opens + writes + moves for r in w.regions
          if r[0] == 'try' and r[2] == 'body']:
        continue
      for h in tr.node.handlers:
        up = [x for x in ev if x.kind == 'raise' and any(
            r[0] == 'try' and r[2] == 'handler' and r[-1] == id(h)
            for r in x.regions)]
        up = [x for x in up if not [c for c in x.pc if c.op != 'exc']]
        if not up:
          swallow.append('the handler at line %d does not re-raise' % h.lineno)
      for s in tr.node.finalbody:
        if any(isinstance(x, ast.Return) for x in ast.walk(s)):
          swallow.append('a return in finally discards the error')
    for w in ev:
      if w.kind == 'with' and w.data and callee(
          w.data[0]) == 'suppress' and any(
              r[0] == 'with' and r[1] == id(w.node) for _, x, u in
              opens + writes + moves for r in x.regions):
        swallow.append('errors are suppressed')
    say(not swallow, 'failure', 'error reported', '; '.join(swallow))


def unknowable(c):
  """Conditions on things that carry no information about the output."""
  return any(u.op in ('fresh', 'exc') for u in tm.walk(c))


def about_temporary(c, path):
  """The condition asks whether the temporary exists."""
  return any(u.op == 'call' and callee(u) in ('exists', 'isfile', 'lexists')
             and tm.contains(u, path) for u in tm.walk(c))


def removed(u):
  if u.args[0].op == 'attr' and not pos(u):
    return [u.args[0].args[0]]
  return pos(u) + list(kwargs(u).values())


def direct_writes(tree):
  """(node, text) of calls that write a file, syntactically."""
  out = []
  for n in ast.walk(tree):
    if not isinstance(n, ast.Call):
      continue
    name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(
        n.func, 'id', '')
    kw = {k.arg: k.value for k in n.keywords}
    if name in DIRECT - {'pipe', 'dump'} and (n.args or 'path' in kw):
      out.append((n, name))
    elif name in ('open', 'NamedTemporaryFile'):
      m = kw.get('mode') or (n.args[1] if len(n.args) > 1 else None)
      if isinstance(m, ast.Constant) and any(c in str(m.value) for c in 'wax+'):
        out.append((n, name))
  return out


def sweep(ctx, covered):
  hits = len(direct_writes(ast.parse(SELF_TEST)))
  ctx.check(hits == 2, 'bypass', 'self-test',
            f'the sweep sees {hits} of 2 planted writes')
  for q, f in sorted(ctx.prog.funcs.items()):
    if q in covered or f.module.name.startswith('wbxspec') or (
        not f.module.name.startswith('weatherbenchX')):
      continue
    found = [t for n, t in direct_writes(f.node)]
    ctx.check(not found, 'bypass', q,
              f'writes an output directly: {", ".join(found)}',
              f.loc() if callable(f.loc) else f.loc)


def check(ctx):
  generic.formulas(ctx)
  ctx.rule('temporary', 'contents go to a uniquely named temporary in the '
           'directory of the output', 2)
  ctx.rule('publish', 'the closed, complete temporary is renamed to the '
           'requested path, on success only and always then', 2)
  ctx.rule('contents', 'exactly the given data is written', 0)
  ctx.rule('failure', 'any failure removes the temporary and is reported', 1)
  ctx.rule('previous', 'the previous output is never removed', 1)
  ctx.rule('bypass', 'no other function of the library writes files', 50)
  covered = set()
  for label, target, final, data in entries(ctx):
    with ctx.guard('temporary', label):
      try:
        code = spec.analyse_code(ctx, target, {}, [], None)
      except AnalysisError as e:
        ctx.undecided('temporary', label, str(e))
        continue
      covered |= {e.func for e in code.events if e.kind == 'call' and (
          opens_for_writing(e.data[0]))}
      typestate(ctx, label, code, final, data)
  sweep(ctx, covered)
