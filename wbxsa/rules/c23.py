"""c23: options take effect.

effect    an option of a constructor or public function occurs in a value, a
          condition, an effect or the identity that its users can observe.
forward   where a composite hands an option of the same meaning to a
          component, the value handed over depends on that option.
default   a default stated in the documentation is the default in the code.
established  other defaults of the public interface are what they have been.
flag      a command line flag is read, and handed to the parameter it names.
"""

import ast
import collections
import json
import os
import re

from . import generic
from .. import entries as entries_
from .. import metrics
from .. import terms as tm
from ..interp import AnalysisError, Budget
from ..program import Func
from ..terms import mk

EXPLANATION = (
    'Option-use dataflow. Every public method of every concrete class of the '
    'library is analysed on an instance built by its own constructor from '
    'symbolic options, and every public function on symbolic arguments; an '
    'option has to occur in some returned value, raised condition, effect or '
    'identity (rule effect; options that base classes take through **kwargs '
    'are followed into the base class). At each call that a composite, a '
    'subclass or a function makes to a public constructor or function with a '
    'parameter of the same meaning, the argument must depend on the option '
    'and may not be left at the component\'s default (rule forward). '
    'Defaults stated in docstrings are compared with the signature (rule '
    'default), and the remaining literal defaults of public constructors and '
    'functions with the table spec/defaults.json (rule established: users '
    'rely on what an option means when it is not given). Command line flags of the runnable scripts are read and handed '
    'to the parameter they name (rule flag).')

ASSUMPTIONS = (
    'Parameters of equal name, and the synonyms listed in SYNONYMS, mean the '
    'same thing in a composite and its components.',
    'Occurring in a value graph means influencing the value: the normal forms '
    'do not keep inputs that cancel out.',
)

SYNONYMS = [{'skipna', 'skipna_ensemble'},
            {'statistic_suffix', 'unique_name_suffix'},
            {'bin_dim', 'threshold_dim'}]
# Options without influence on results by documentation.
NO_EFFECT = {
    'stationary_bootstrap_indices_cache_size':
        'size of a cache of draws (performance, C24 looks at the cache)',
}
NO_EFFECT_AT = {
    ('weatherbenchX.beam_pipeline.ComputeAndFormatStatistics', 'times'):
        'internal pipeline stage, keeps the argument for subclasses',
}
# Same name, deliberately different thing.
RENAMED = {
    ('weatherbenchX.beam_pipeline.define_pipeline',
     'weatherbenchX.beam_pipeline.WriteAggregationState.__init__', 'out_path'):
        'the stage has its own output path option',
}
# Attributes of an object that other classes read as part of its interface.
READ_ELSEWHERE = {'weatherbenchX.metrics.wrappers.InputTransform': ['which']}


def synonyms(n):
  for s in SYNONYMS:
    if n in s:
      return s
  return {n}


def options(prog, cls):
  init, _ = prog.lookup(cls, '__init__')
  if isinstance(init, Func):
    a = init.node.args
    return ([x.arg for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs],
            a.kwarg.arg if a.kwarg else None)
  if prog.is_dataclass(cls):
    return [n for n, _, _ in prog.dataclass_fields(cls)], None
  return [], None


def collect(x, kinds, acc):
  if isinstance(x, tm.T):
    for y in tm.walk(x):
      if y.op in kinds:
        acc.add(y.args[0])
      elif y.op == 'kwget':
        acc.add(('kw', kwname(y.args[1])))
  elif isinstance(x, (tuple, list)):
    for y in x:
      collect(y, kinds, acc)


def kwname(k):
  return k.args[1] if isinstance(k, tm.T) and k.op == 'const' else k


def occurring(r, kinds):
  acc = set()
  collect(r.value, kinds, acc)
  for e in r.events:
    collect(e.data, kinds, acc)
    collect(e.pc, kinds, acc)
    collect(e.loops, kinds, acc)
  return acc


def by_class(prog):
  out = collections.OrderedDict()
  fns = []
  for _, q in entries_.entries(prog):
    if q in prog.funcs and prog.funcs[q].cls is None:
      fns.append(q)
    else:
      c, m = q.rsplit('.', 1)
      if m != '__init__':
        out.setdefault(c, []).append(m)
  return out, fns


def public(prog, callee):
  parts = callee.split('.')
  return not any(p.startswith('_') and p != '__init__' for p in parts)


def check(ctx):
  prog = ctx.prog
  ctx.rule('effect', 'an option occurs in something its users can observe', 60)
  ctx.rule('forward', 'an option is handed to every component that has a '
           'parameter of the same meaning', 40)
  classes, fns = by_class(prog)
  for c, ms in classes.items():
    opts, kwargs = options(prog, c)
    if not opts and not kwargs or any(
        p.startswith('_') for p in c.split('.')):
      continue
    with ctx.guard('effect', c):
      one_class(ctx, c, ms, opts, kwargs)
  for q in fns:
    with ctx.guard('effect', q):
      one_function(ctx, q)
  defaults(ctx)
  pinned(ctx)
  flags(ctx)
  generic.formulas(ctx)


def one_class(ctx, c, ms, opts, kwargs):
  prog = ctx.prog
  cls = prog.classes[c]
  loc = f'{cls.module.path}:{cls.node.lineno}'
  mro = set(prog.mro(c))
  seen = set()
  failed = []
  handed = {}  # (caller, callee, parameter) -> [argument terms]
  for m in ms:
    try:
      it = ctx.interp()
      it.trace = []
      r = it.analyse_method(c, m)
    except (Budget, RecursionError, AnalysisError) as e:
      failed.append(f'{m}: {e!r}')
      continue
    seen |= occurring(r, ('param',))
    for caller, callee, args, node in it.trace:
      for k, v in args.items():
        handed.setdefault((caller, callee, k), []).append(v)
  for b, attrs in READ_ELSEWHERE.items():
    if b in mro:
      for a in attrs:
        it = ctx.interp()
        st = it.new_state(cls.module)
        obj = it.instantiate_symbolic(c, st)
        collect(it.reify(it.getattr(obj, a, st, cls.node), st), ('param',),
                seen)
  wanted = [(o, o) for o in opts]
  if kwargs:
    # what the base class makes of the keyword arguments passed on
    base = {k: vs for (caller, callee, k), vs in handed.items()
            if callee.endswith('.__init__') and caller.endswith('.__init__')
            and {caller.rpartition('.')[0], callee.rpartition('.')[0]} <= mro}
    taken = 0
    for k, vs in base.items():
      ks = set()
      collect(vs, ('param',), ks)
      if ('kw', k) in ks:
        taken += 1
        wanted.append((('kw', k), f'{kwargs}.{k}'))
    if base and not taken:
      ctx.bad('effect', f'{c} {kwargs}', f'keyword options **{kwargs} of '
              f'{c.rsplit(".", 1)[-1]} are accepted and never used', loc)
  for o, name in wanted:
    why = NO_EFFECT.get(o) or NO_EFFECT_AT.get((c, o))
    if why or o in seen:
      ctx.ok('effect', f'{c} {name}', why or '', loc)
    elif failed:
      ctx.undecided('effect', f'{c} {name}', '; '.join(failed)[:200])
    else:
      ctx.bad('effect', f'{c} {name}', f'option {name!r} of '
              f'{c.rsplit(".", 1)[-1]} influences none of its results '
              f'({", ".join(ms)})', loc)
  own = set(opts)
  for (caller, callee, k), vs in handed.items():
    cc, _, cm = callee.rpartition('.')
    f = prog.funcs.get(caller)
    if caller.rpartition('.')[0] not in mro or f is None or f.kind in (
        'classmethod', 'staticmethod'):
      continue
    if cm != '__init__' and prog.funcs[callee].cls is not None:
      continue
    if cc == c or (cc in mro and not caller.endswith('.__init__')):
      continue
    if not public(prog, callee) and cc not in mro:
      continue
    if caller.endswith('.__init__') and caller.rpartition('.')[0] != c and (
        not defines(prog, caller, k)):
      continue
    hit = synonyms(k) & own
    if not hit:
      continue
    handover(ctx, c, caller, callee, k, vs, hit, 'param', loc)


def defines(prog, func, name):
  a = prog.funcs[func].node.args
  return any(x.arg in synonyms(name)
             for x in a.posonlyargs + a.args + a.kwonlyargs)


def handover(ctx, who, caller, callee, k, vs, hit, kind, loc):
  construct = f'{who}: {short(caller)} -> {short(callee)} {k}'
  if (caller, callee, k) in RENAMED:
    ctx.ok('forward', construct, RENAMED[caller, callee, k], loc)
    return
  for v in vs:
    has = set()
    collect(v, (kind,), has)
    if has & hit:
      continue
    if not settled(v):
      continue  # computed from data at run time
    ctx.bad('forward', construct,
            f'{short(caller)} has the option {"/".join(sorted(hit))!r} but '
            f'calls {short(callee)} with {k}={tm.show(v)[:120]}', loc)
    return
  ctx.ok('forward', construct, '', loc)


def settled(v):
  """Made of constants and options only."""
  return not any(x.op in ('fresh', 'bv', 'kwget', 'ref', 'call', 'new')
                 for x in tm.walk(v))


def short(q):
  p = q.split('.')
  if p[-1] == '__init__':
    p.pop()
  return '.'.join(p[-2:])


def one_function(ctx, q):
  prog = ctx.prog
  f = prog.funcs[q]
  loc = f'{f.module.path}:{f.node.lineno}'
  a = f.node.args
  opts = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
  it = ctx.interp()
  it.trace = []
  r = it.analyse_func(q)
  seen = occurring(r, ('in',))
  for o in opts:
    ctx.check(o in seen, 'effect', f'{q} {o}',
              f'argument {o!r} of {short(q)} influences nothing it does', loc)
  done = set()
  for caller, callee, args, _ in it.trace:
    if caller != q or not public(prog, callee):
      continue
    for k, v in args.items():
      if k in opts and (callee, k) not in done:
        done.add((callee, k))
        handover(ctx, q, caller, callee, k, [v], {k}, 'in', loc)


# ---------------------------------------------------------------- defaults

LITERAL = (r"(True|False|None|'[^']*'|\"[^\"]*\"|`[^`]*`|"
           r"-?\d+(?:\.\d+)?(?:e-?\d+)?|\([^()]*\)|\[[^\]]*\])")
STATED = re.compile(r'[Dd]efault(?:s to|:| of| is)\s*' + LITERAL +
                    r'(?=[,;)]|\.(?!\d)|\s*$|\s[A-Z(]|\s(?:follows|for|if|in order|to)\b)')
MARKED = re.compile(r'(?:=|If |`)\s*' + LITERAL + r'`?\s*\((?:the )?default\)')


def documented(doc):
  """{parameter: description} of an Args section."""
  out = {}
  cur = ind = None
  for line in doc.split('\n'):
    m = re.match(r'^(\s+)\*{0,2}(\w+)(?: \([^)]*\))?:(?:\s(.*))?$', line)
    col = len(line) - len(line.lstrip())
    if m and (cur is None or col <= ind):
      cur, ind = m.group(2), col
      out[cur] = m.group(3) or ''
    elif not line.strip():
      cur = None
    elif cur and col > ind:
      out[cur] += ' ' + line.strip()
    else:
      cur = None
  return out


def signature(node):
  a = node.args
  pos = a.posonlyargs + a.args
  d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
  d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults)
            if v is not None})
  return d


def defaults(ctx):
  prog = ctx.prog
  ctx.rule('default', 'the default the documentation states is the default in '
           'the code', 20)
  jobs = []
  for c in prog.repo_classes():
    cdoc = ast.get_docstring(c.node)
    for m in c.methods.values():
      if isinstance(m, Func):
        jobs.append((m.qual, ast.get_docstring(m.node), signature(m.node),
                     c.module, m.node))
        if m.node.name == '__init__':
          jobs.append((c.qual, cdoc, signature(m.node), c.module, m.node))
    if prog.is_dataclass(c.qual):
      jobs.append((c.qual, cdoc, {n: d for n, d, _ in prog.dataclass_fields(
          c.qual) if d is not None}, c.module, c.node))
  for q, f in prog.funcs.items():
    if f.cls is None and q.startswith('weatherbenchX.'):
      jobs.append((q, ast.get_docstring(f.node), signature(f.node), f.module,
                   f.node))
  for label, doc, sig, module, node in jobs:
    for k, text in documented(doc or '').items():
      if k not in sig:
        continue
      m = STATED.search(text) or MARKED.search(text)
      if not m:
        continue
      try:
        want = ast.parse(m.group(1).strip('`'), mode='eval').body
        ast.literal_eval(want)
      except (SyntaxError, ValueError):
        continue
      it = ctx.interp()
      w = it.eval_in_module(want, module)
      g = it.eval_in_module(sig[k], module)
      if g.op not in ('const', 'num', 'tuple', 'list', 'dict'):
        continue
      ctx.check(tm.key(w) == tm.key(g) or plain(w) == plain(g), 'default',
                f'{label} {k}', f'documented default {m.group(1)}, default in '
                f'the code {tm.show(g)}', f'{module.path}:{node.lineno}')


def public_signatures(prog):
  """(name, {parameter: default}, module, node) of the library interface."""
  for c in prog.repo_classes():
    if not c.qual.startswith('weatherbenchX.') or c.node.name[0] == '_':
      continue
    for m in c.methods.values():
      if isinstance(m, Func) and (m.node.name[0] != '_'
                                  or m.node.name == '__init__'):
        yield f'{c.qual}.{m.node.name}', signature(m.node), c.module, m.node
    if prog.is_dataclass(c.qual):
      yield c.qual, {n: d for n, d, _ in prog.dataclass_fields(c.qual)
                     if d is not None}, c.module, c.node
  for q, f in prog.funcs.items():
    if f.cls is None and q.startswith('weatherbenchX.') and (
        q.rsplit('.', 1)[0] == f.module.name) and f.node.name[0] != '_':
      yield q, signature(f.node), f.module, f.node


def default_value(ctx, d, module):
  v = ctx.interp().eval_in_module(d, module)
  if v.op == 'call' and v.args[0].op == 'ext' and all(
      x.op in ('const', 'num') for x in v.args[1]) and not v.args[2]:
    return tm.show(v)
  if v.op not in ('const', 'num', 'tuple', 'list', 'dict') or any(
      x.op in ('unknown', 'call', 'closure', 'lam') for x in tm.walk(v)):
    return None
  return tm.show(mk('list', *v.args) if v.op == 'tuple' else v)


def pinned(ctx):
  ctx.rule('established', 'an option that is not given means what it has '
           'always meant', 60)
  path = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(
      os.path.abspath(__file__)))), 'spec', 'defaults.json')
  with open(path) as f:
    table = json.load(f)
  for q, sig, module, node in public_signatures(ctx.prog):
    for k, want in table.get(q, {}).items():
      if k not in sig:
        continue
      got = default_value(ctx, sig[k], module)
      if got is None or 'None' in (got, want):
        continue  # filled in by the code
      ctx.check(got == want, 'established', f'{q} {k}',
                f'without {k}, {q} uses {got}; users rely on {want}',
                f'{module.relpath}:{node.lineno}')


def plain(t):
  """Sequences compare by their items."""
  return t.args if t.op in ('tuple', 'list') else t


# ------------------------------------------------------------------- flags


def flags(ctx):
  prog = ctx.prog
  ctx.rule('flag', 'a command line flag is read, and handed to the parameter '
           'it names', 8)
  for name, mod in sorted(prog.modules.items()):
    if not mod.relpath.startswith(('evaluation_scripts/', 'public_benchmark/')):
      continue
    defs = {}
    for s in mod.tree.body:
      if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and (
          isinstance(s.targets[0], ast.Name)):
        d = ast.unparse(s.value.func)
        if d.split('.')[-1].startswith('DEFINE_') and s.value.args and (
            isinstance(s.value.args[0], ast.Constant)):
          defs[s.targets[0].id] = (s.value.args[0].value, s)
    flagname = {n: v for v, (n, _) in defs.items()}
    for var, (flag, s) in defs.items():
      reads = [n for n in ast.walk(mod.tree) if isinstance(n, ast.Name)
               and n.id == var and isinstance(n.ctx, ast.Load)]
      by_name = [n for n in ast.walk(mod.tree) if isinstance(n, ast.Attribute)
                 and n.attr == flag and ast.unparse(n.value).endswith('FLAGS')]
      ctx.check(bool(reads or by_name), 'flag', f'{name} --{flag}',
                f'flag --{flag} is never read',
                f'{mod.path}:{s.lineno}')
    for n in ast.walk(mod.tree):
      if not isinstance(n, ast.Call):
        continue
      for k in n.keywords:
        if k.arg not in flagname:
          continue
        used = {x.id for x in ast.walk(k.value) if isinstance(x, ast.Name)
                and x.id in defs}
        if used:
          ctx.check(flagname[k.arg] in used, 'flag',
                    f'{name} {ast.unparse(n.func)}({k.arg}=)',
                    f'parameter {k.arg} is given '
                    f'{", ".join("--" + defs[u][0] for u in sorted(used))}',
                    f'{mod.path}:{n.lineno}')
