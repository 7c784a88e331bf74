"""C28: benchmark tables and configurations agree with each other.

All tables of the benchmark scripts are folded from their literals; every
reference from one table (or from code) to another is an obligation.
"""

import ast
import re

from .. import tables

EXPLANATION = (
    'All literal tables of public_benchmark and evaluation_scripts are '
    'constant-folded from the syntax tree (dict.fromkeys, merges, '
    'concatenations and comprehensions included). Each reference between '
    'tables, and from the runner and dashboard code into a table, is one '
    'obligation: it has to resolve, keys have to be unique, and values '
    'attached to the same name have to agree. All calls into the library '
    'from the scripts are resolved and bound against the signatures.')

B = 'public_benchmark.'
GRID = {'1440x721': ('1440x721', '0p25')}

SELF_TEST = "X = {'a': 1, 'b': 2, 'a': 3}"


class Tables:

  def __init__(self, ctx):
    self.ctx = ctx
    self.mods = {}
    for name, m in ctx.prog.modules.items():
      if name.startswith((B, 'evaluation_scripts.')) or name.endswith(
          'sparse_parquet'):
        self.mods[name] = m
    self.memo = {}

  def get(self, module, name):
    """The folded module-level table, or None."""
    m = self.mods.get(module)
    if m is None:
      return None
    key = (module, name)
    if key not in self.memo:
      scope = tables.scope_of(m.tree.body)
      try:
        v = tables.Fold(scope)(scope[name])
      except (KeyError, tables.Unknown):
        v = None
      self.memo[key] = None if isinstance(v, tables.Opaque) else v
    return self.memo[key]


def loc(m, n):
  return f'{m.relpath}:{getattr(n, "lineno", 0)}'


def check(ctx):
  ctx.rule('unique', 'no table has two entries for one key', 12)
  ctx.rule('resolves', 'a name used in one place is defined by the table that '
           'is looked up', 40)
  ctx.rule('agree', 'values attached to one name agree wherever it is '
           'defined', 10)
  ctx.rule('grid', 'the data set of a configuration has the grid, years and '
           'model its key promises', 20)
  ctx.rule('region', 'regions are non-empty boxes on the globe', 8)
  ctx.rule('call', 'library calls of the scripts bind to existing functions '
           'and parameters', 15)
  t = Tables(ctx)
  with ctx.guard('unique', 'tables'):
    unique(ctx, t)
  with ctx.guard('resolves', 'combine'):
    combine(ctx, t)
  with ctx.guard('resolves', 'runner'):
    runner(ctx, t)
  with ctx.guard('grid', 'configs'):
    configs(ctx, t)
  with ctx.guard('resolves', 'dashboard'):
    dashboard(ctx, t)
  with ctx.guard('region', 'regions'):
    regions(ctx, t)
  with ctx.guard('call', 'calls'):
    calls(ctx, t)


def unique(ctx, t):
  seen = []
  tables.Fold({}, lambda k, n: seen.append(k))(
      ast.parse(SELF_TEST).body[0].value)
  ctx.check(seen == ['a'], 'unique', 'self-test', 'planted duplicate missed')
  for name, m in t.mods.items():
    scope = tables.scope_of(m.tree.body)
    inner = set()
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Dict):
        for k in [*n.keys, *n.values]:
          if k is not None:
            inner.update(id(x) for x in ast.walk(k) if x is not n)
    for n in ast.walk(m.tree):
      if not isinstance(n, ast.Dict) or id(n) in inner or len(n.keys) < 2:
        continue
      dup = []
      try:
        tables.Fold(scope, lambda k, _: dup.append(k))(n)
      except tables.Unknown:
        continue
      label = next((k for k, v in scope.items() if v is n), None)
      ctx.check(not dup, 'unique', f'{m.relpath}: {label or "table"} '
                f'{sorted(map(str, dup))[:3] if dup else ""}'.strip(),
                f'several entries for {sorted(set(map(str, dup)))[:5]}; all '
                'but the last are lost', loc(m, n))


def resolve(ctx, what, names, table, rule='resolves', where=''):
  if table is None or names is None:
    ctx.undecided(rule, what, 'a table is not a literal')
    return
  for x in names:
    ctx.check(x in table, rule, f'{what}: {x}',
              f'{x!r} is not defined by {where or "the table it refers to"}')


def combine(ctx, t):
  c, cfg = B + 'combine_results', B + 'apps.config'
  det = t.get(c, 'DETERMINISTIC_MODELS')
  prob = t.get(c, 'PROBABILISTIC_MODELS')
  names = t.get(c, 'VARIABLE_NAMES')
  models = None if det is None or prob is None else [
      *det.values(), *prob.values()]
  for tab in ('COLORS', 'SYMBOLS'):
    v = t.get(cfg, tab)
    resolve(ctx, f'{tab} of model', models, v, where=f'config.{tab}')
    if models is not None and v is not None:
      resolve(ctx, f'model of {tab}', v, set(models), where='the model tables')
  for tab, ms in (('DEFAULT_MODELS', det), ('DEFAULT_MODELS_PRECIP', det),
                  ('DEFAULT_MODELS_PROB', prob)):
    resolve(ctx, tab, t.get(cfg, tab), None if ms is None else set(ms.values()),
            where='the model table')
  if names is not None:
    for mod in (c, cfg):
      resolve(ctx, f'units in {mod.rsplit(".", 1)[1]}', set(names.values()),
              t.get(mod, 'UNITS'), where='UNITS')
    resolve(ctx, 'SURFACE_VARIABLES', t.get(cfg, 'SURFACE_VARIABLES'),
            set(names.values()), where='VARIABLE_NAMES')
  a, b = t.get(c, 'UNITS'), t.get(cfg, 'UNITS')
  if a is not None and b is not None:
    for k in sorted(set(a) | set(b)):
      ctx.check(a.get(k) == b.get(k), 'agree', f'unit of {k}',
                f'combine_results: {a.get(k)!r}, dashboard: {b.get(k)!r}')
  for label, tab in (('DETERMINISTIC_MODELS', det),
                     ('PROBABILISTIC_MODELS', prob),
                     ('VARIABLE_NAMES', names),
                     ('REGION_NAMES', t.get(c, 'REGION_NAMES')),
                     ('METRIC_NAMES', t.get(c, 'DETERMINISTIC_METRIC_NAMES')),
                     ('PROBABILISTIC_METRIC_NAMES', t.get(
                         c, 'PROBABILISTIC_METRIC_NAMES'))):
    if tab is None:
      ctx.undecided('unique', label, 'not a literal table')
      continue
    vs = list(tab.values())
    twice = sorted({v for v in vs if vs.count(v) > 1})
    ctx.check(not twice, 'unique', f'displayed names of {label}',
              f'several entries are displayed as {twice}')
  # "vs X" in the displayed name is the target in the file name.
  targets = {'era5': 'ERA5', 'hres_t0': 'Analysis'}
  tc = t.get(B + 'public_configs', 'target_configs')
  for tab in (det, prob):
    for k, v in (tab or {}).items():
      target = k.rsplit('_vs_', 1)[-1]
      if tc is not None:
        ctx.check(any(x.rsplit('_', 1)[0] == target for x in tc), 'resolves',
                  f'target of {k}', f'{target!r} is no target configuration')
      if target in targets:
        ctx.check(v.endswith(' vs ' + targets[target]), 'agree',
                  f'displayed target of {k}',
                  f'file {k!r} is displayed as {v!r}')
      kind = '(mean)' if '_mean_vs_' in k else '(1st member)' if (
          '_single_member_vs_' in k) else None
      ctx.check((kind is None and '(mean)' not in v and '(1st member)' not in v)
                or (kind is not None and kind in v), 'agree',
                f'displayed kind of {k}', f'file {k!r} is displayed as {v!r}')
  inv = t.get('weatherbenchX.data_loaders.sparse_parquet',
              'METAR_TO_ERA5_NAMES')
  if inv is not None:
    vs = list(inv.values())
    twice = sorted({v for v in vs if vs.count(v) > 1})
    ctx.check(not twice, 'unique', 'METAR_TO_ERA5_NAMES is invertible',
              f'{twice} have several raw names')
  # region names
  regs = t.get(B + 'run_benchmark_evaluation', 'REGIONS')
  resolve(ctx, 'region', regs, t.get(c, 'REGION_NAMES'), where='REGION_NAMES')
  if regs is not None:
    resolve(ctx, 'named region', t.get(c, 'REGION_NAMES'), regs,
            where='REGIONS')
  # renamed results
  m = t.mods.get(c)
  mets = t.get(c, 'DETERMINISTIC_METRIC_NAMES')
  prods = produced(ctx, t)
  if m is not None and names is not None and mets is not None:
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Dict) and n.keys and all(
          isinstance(x, ast.Constant) and isinstance(x.value, str)
          and x.value.count('.') == 1 for x in [*n.keys, *n.values]):
        for k, v in zip(n.keys, n.values):
          a, b = v.value.split('.')
          ctx.check(a in mets and b in names, 'resolves',
                    f'result renamed to {v.value}',
                    f'{v.value!r}: unknown metric or variable', loc(m, n))
          if prods:
            ctx.check(k.value.split('.')[0] in prods, 'resolves',
                      f'result renamed from {k.value}',
                      f'the runner produces no metric {k.value!r}', loc(m, n))


def produced(ctx, t):
  """{metric name in the output: class} of the runner."""
  m = t.mods.get(B + 'run_benchmark_evaluation')
  out = {}
  if m is None:
    return out

  def metric(v):
    if not isinstance(v, ast.Call):
      return None
    q = ctx.prog.resolve_dotted_expr(m, v.func)
    return q if q in ctx.prog.classes and '.metrics.' in q else None

  for n in ast.walk(m.tree):
    if isinstance(n, ast.Dict):
      for k, v in zip(n.keys, n.values):
        if isinstance(k, ast.Constant) and metric(v):
          out[k.value] = (metric(v), n)
    elif isinstance(n, ast.Assign) and isinstance(
        n.targets[0], ast.Subscript) and metric(n.value):
      k = n.targets[0].slice
      if isinstance(k, ast.Constant):
        out[k.value] = (metric(n.value), n)
  return out


def runner(ctx, t):
  r, c = B + 'run_benchmark_evaluation', B + 'combine_results'
  m = t.mods.get(r)
  if m is None:
    ctx.undecided('resolves', 'runner', 'module not found')
    return
  det = t.get(c, 'DETERMINISTIC_METRIC_NAMES')
  prob = t.get(c, 'PROBABILISTIC_METRIC_NAMES')
  renamed = set()
  cm = t.mods.get(c)
  for n in ast.walk(cm.tree) if cm else ():
    if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(
        r'\w+\.\w+', n.value):
      renamed.add(n.value.split('.')[0])
  prods = produced(ctx, t)
  if det is not None and prob is not None:
    for k, (q, n) in prods.items():
      tab = prob if '.probabilistic.' in q else det if (
          '.deterministic.' in q or '.categorical.' in q) else {**det, **prob}
      ctx.check(k in tab or k in renamed, 'resolves', f'metric {k}',
                f'metric {k!r} of the runner has no displayed name in the '
                'table that is used for it', loc(m, n))
  # the metric behind a name
  for k, (q, n) in prods.items():
    cls = q.rsplit('.', 1)[-1].lower()
    want = METRICS.get(k)
    if want is not None:
      ctx.check(cls == want.lower(), 'agree', f'metric {k}',
                f'{k!r} is computed by {q.rsplit(".", 1)[-1]}', loc(m, n))
  # data sets needed for every resolution and year
  years, ress = t.get(c, 'YEARS'), t.get(c, 'RESOLUTIONS')
  tc = t.get(B + 'public_configs', 'target_configs')
  cc = t.get(B + 'public_configs', 'climatology_configs')
  if None not in (years, ress, tc, cc):
    resolve(ctx, 'target', [f'era5_{x}' for x in ress], tc,
            where='target_configs')
    resolve(ctx, 'climatology', [f'era5_{x}_{y}' for x in ress for y in years],
            cc, where='climatology_configs')
  # thresholds for every precipitation variable, and models by name
  precip = t.get(B + 'public_configs', 'precipitation_variables')
  models = {k.rsplit('_vs_', 1)[0] for k in {
      **(t.get(c, 'DETERMINISTIC_MODELS') or {}),
      **(t.get(c, 'PROBABILISTIC_MODELS') or {})}}
  for n in ast.walk(m.tree):
    if isinstance(n, ast.Dict) and len(n.keys) > 1 and all(
        isinstance(k, ast.Constant) and str(k.value).startswith('total_precip')
        for k in n.keys):
      resolve(ctx, 'dry threshold', precip, [k.value for k in n.keys],
              where='the thresholds')
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
      left = ast.unparse(n.left)
      vals = [x.value for x in ast.walk(n.comparators[0]) if isinstance(
          x, ast.Constant) and isinstance(x.value, str)]
      if left == 'PREDICTION.value' and models:
        resolve(ctx, 'prediction', vals, models, where='the model tables')
      elif left == 'YEAR.value' and years:
        resolve(ctx, 'year', [int(v) for v in vals if v.isdigit()], years,
                where='YEARS')
      elif left in ('TARGET.value',) and tc is not None:
        resolve(ctx, 'target', vals, {k.rsplit('_', 1)[0] for k in tc})


METRICS = {
    'rmse': 'RMSE', 'mse': 'MSE', 'mae': 'MAE', 'bias': 'Bias', 'acc': 'ACC',
    'prediction_activity': 'PredictionActivity',
    'vector_rmse': 'WindVectorRMSE', 'seeps': 'SEEPS', 'crps': 'CRPSEnsemble',
    'spread_skill': 'SpreadSkillRatio',
    'unbiased_spread_skill': 'UnbiasedSpreadSkillRatio',
    'unbiased_mean_rmse': 'UnbiasedEnsembleMeanRMSE',
    'mean_rmse': 'WrappedMetric',
}


def configs(ctx, t):
  p, c = B + 'public_configs', B + 'combine_results'
  names = t.get(c, 'VARIABLE_NAMES')
  ress = t.get(c, 'RESOLUTIONS') or list(GRID)
  pat = re.compile(r'(?P<model>.+?)_(?P<grid>\d+x\d+)(_(?P<year>\d{4}))?$')
  dirs = {}
  for tab in ('deterministic_prediction_configs',
              'probabilistic_prediction_configs', 'target_configs',
              'climatology_configs'):
    v = t.get(p, tab)
    if v is None:
      ctx.undecided('grid', tab, 'not a literal table')
      continue
    for k, cfg in v.items():
      m = pat.fullmatch(k)
      label = f'{tab}[{k}]'
      if m is None:
        ctx.check(False, 'grid', label, 'key is not <model>_<grid>[_<year>]')
        continue
      if not isinstance(cfg, dict):
        ctx.undecided('grid', label, 'not a literal')
        continue
      path = cfg.get('path')
      ctx.check(m['grid'] in ress, 'resolves', f'resolution of {label}',
                f'{m["grid"]} is no resolution of the benchmark')
      if isinstance(path, str):
        base = path.rsplit('/', 1)[-1]
        grid = [g for g in GRID.get(m['grid'], (m['grid'],)) if g in base]
        ctx.check(bool(grid), 'grid', f'grid of {label}',
                  f'key promises {m["grid"]}, data set is {base!r}')
        ctx.check(('mean' in m['model']) == ('mean' in base), 'grid',
                  f'kind of {label}', f'data set is {base!r}')
        span = re.match(r'(\d{4})(?:-(\d{4})(?!x|\d))?', base)
        if m['year'] and span and tab != 'climatology_configs':
          a, b = int(span[1]), int(span[2] or span[1])
          ctx.check(a <= int(m['year']) <= b, 'grid', f'year of {label}',
                    f'key promises {m["year"]}, data set is {base!r}')
        d = path.rsplit('/', 2)[-2] if path.count('/') > 1 else ''
        dirs.setdefault((tab, m['model']), {}).setdefault(d, []).append(label)
      vs = cfg.get('variables')
      if names is not None and isinstance(vs, (list, tuple)):
        bad = [x for x in vs if x not in names]
        ctx.check(not bad, 'resolves', f'variables of {label}',
                  f'no displayed names for {bad}')
  for (tab, model), ds in dirs.items():
    ctx.check(len(ds) == 1, 'grid', f'data of {model} in {tab}',
              f'one model, several data sets: {ds}')


def dashboard(ctx, t):
  d, c = B + 'apps.dash_app', B + 'combine_results'
  m = t.mods.get(d)
  cfg = t.mods.get(B + 'apps.config')
  if m is None or cfg is None:
    ctx.undecided('resolves', 'dashboard', 'module not found')
    return
  binds = set()
  for mod in (m, cfg):
    for n in ast.walk(mod.tree):
      if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
        binds.add(n.id)
      elif isinstance(n, (ast.Import, ast.ImportFrom)):
        binds.update((a.asname or a.name).split('.')[0] for a in n.names)
      elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        binds.add(n.name)
      elif isinstance(n, ast.arg):
        binds.add(n.arg)
      elif isinstance(n, ast.ExceptHandler) and n.name:
        binds.add(n.name)
  binds |= set(dir(__builtins__)) if not isinstance(
      __builtins__, dict) else set(__builtins__)
  binds |= {'__name__', '__file__'}
  used = sorted({n.id for n in ast.walk(m.tree) if isinstance(n, ast.Name)
                 and isinstance(n.ctx, ast.Load)})
  resolve(ctx, 'name in dash_app', used, binds, where='dash_app or config')
  vals = lambda tab: set((t.get(c, tab) or {}).values())
  tabs = {
      'variable': vals('VARIABLE_NAMES'),
      'metric': vals('DETERMINISTIC_METRIC_NAMES') | vals(
          'PROBABILISTIC_METRIC_NAMES'),
      'region': vals('REGION_NAMES') | {
          v + ' (Land)' for v in vals('REGION_NAMES')},
      'relative_to': vals('DETERMINISTIC_MODELS') | vals(
          'PROBABILISTIC_MODELS'),
      'model': vals('DETERMINISTIC_MODELS') | vals('PROBABILISTIC_MODELS'),
      'year': {str(y) for y in t.get(c, 'YEARS') or ()},
      'resolution': set(t.get(c, 'RESOLUTIONS') or ()),
  }
  for n in ast.walk(m.tree):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
        n.left, ast.Name) and tabs.get(n.left.id) and isinstance(
            n.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
      xs = [x.value for x in ast.walk(n.comparators[0]) if isinstance(
          x, ast.Constant) and isinstance(x.value, str)]
      for x in xs:
        ctx.check(x in tabs[n.left.id], 'resolves',
                  f'dashboard {n.left.id}: {x}',
                  f'no {n.left.id} is called {x!r}, so this case never '
                  'applies', loc(m, n))
    # preselected values of the drop-down menus
    if isinstance(n, ast.Call):
      kw = {k.arg: k.value for k in n.keywords}
      i = kw.get('id')
      if isinstance(i, ast.Constant) and tabs.get(i.value) and len(n.args) > 1:
        for x in values(n.args[1]):
          ctx.check(x in tabs[i.value], 'resolves',
                    f'preselected {i.value}: {x}',
                    f'no {i.value} is called {x!r}', loc(m, n))


def values(n):
  if isinstance(n, ast.IfExp):
    return values(n.body) + values(n.orelse)
  return [n.value] if isinstance(n, ast.Constant) and isinstance(
      n.value, str) else []


def regions(ctx, t):
  seen = {}
  for name, m in t.mods.items():
    scope = tables.scope_of(m.tree.body)
    for n in ast.walk(m.tree):
      if not isinstance(n, ast.Dict) or not n.keys:
        continue
      try:
        v = tables.Fold(scope)(n)
      except tables.Unknown:
        continue
      if not v or not all(isinstance(k, str) and box(b) for k, b in v.items()):
        continue
      for k, b in v.items():
        (lat0, lat1), (lon0, lon1) = b
        ctx.check(-90 <= lat0 < lat1 <= 90, 'region', f'{m.relpath}: {k} latitude',
                  f'latitudes {lat0}..{lat1}', loc(m, n))
        ctx.check(-180 <= lon0 < lon1 <= 360 and lon1 - lon0 <= 360, 'region',
                  f'{m.relpath}: {k} longitude', f'longitudes {lon0}..{lon1}',
                  loc(m, n))
        if k in seen:
          ctx.check(seen[k] == b, 'agree', f'region {k}',
                    f'{seen[k]} and {b}', loc(m, n))
        seen[k] = b


def box(b):
  return isinstance(b, (tuple, list)) and len(b) == 2 and all(
      isinstance(x, (tuple, list)) and len(x) == 2 and all(
          isinstance(y, (int, float)) for y in x) for x in b)


def calls(ctx, t):
  """Calls from the scripts into the library bind to real parameters."""
  prog = ctx.prog
  for name, m in t.mods.items():
    if not name.startswith((B, 'evaluation_scripts.')):
      continue
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Attribute):
        q = prog.resolve_dotted_expr(m, n)
        if q and q.startswith('weatherbenchX.'):
          ok = known(prog, q)
          ctx.check(ok, 'call', f'{m.relpath}: {q}', f'{q} does not exist',
                    loc(m, n))
      if isinstance(n, ast.Call):
        q = prog.resolve_dotted_expr(m, n.func)
        f = None
        skip = 0
        if q in prog.classes:
          f, _ = prog.lookup(q, '__init__')
          skip = 1
          if f is None or not hasattr(f, 'node'):
            continue
        elif q in prog.funcs:
          f = prog.funcs[q]
        if f is None:
          continue
        why = binds(f, n, skip)
        ctx.check(not why, 'call', f'{m.relpath}: call of {q}', why, loc(m, n))


def known(prog, q):
  if q in prog.classes or q in prog.funcs or q in prog.modules:
    return True
  mod, _, leaf = q.rpartition('.')
  if mod in prog.modules:
    m = prog.modules[mod]
    return leaf in m.globals or leaf in m.imports or any(
        isinstance(n, ast.Name) and n.id == leaf for n in ast.walk(m.tree)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
  if mod in prog.classes:
    return True
  return any(x.startswith(q + '.') for x in prog.modules)


def binds(f, call, skip):
  a = f.node.args
  pos = [x.arg for x in a.posonlyargs + a.args][skip:]
  kwo = [x.arg for x in a.kwonlyargs]
  if any(isinstance(x, ast.Starred) for x in call.args) or any(
      k.arg is None for k in call.keywords):
    star = True
  else:
    star = False
  if len(call.args) > len(pos) and a.vararg is None:
    return 'too many positional arguments'
  given = set(pos[:len(call.args)])
  for k in call.keywords:
    if k.arg is None:
      continue
    if k.arg in given:
      return f'two values for {k.arg!r}'
    if k.arg not in pos + kwo and a.kwarg is None:
      return f'no parameter {k.arg!r}'
    given.add(k.arg)
  need = pos[:len(pos) - len(a.defaults)] + [
      x for x, d in zip(kwo, a.kw_defaults) if d is None]
  miss = [x for x in need if x not in given]
  return '' if star or not miss else f'missing {miss}'
