"""Obligations, known findings, evidence and exit codes."""

from __future__ import annotations

import contextlib
import json
import os
import time
import traceback

from .program import Program, AnalysisError
from .interp import Interp, Budget

VERIF = os.environ.get('WBXSA_HOME') or os.path.dirname(
    os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WBXSA_REPO', '/repo')


def known_findings(prop):
  """Recorded, unrepaired findings: 'finding: property=.. rule=.. construct=.. | what'."""
  out = []
  kf = os.path.join(VERIF, 'known_findings.txt')
  if os.path.exists(kf):
    with open(kf, encoding='utf-8') as f:
      for line in f:
        if line.startswith('finding:'):
          head, _, what = line[8:].partition('|')
          d = dict(x.split('=', 1) for x in head.split())
          if d['property'] == prop:
            out.append(dict(d, what=what.strip()))
  return out


class Ctx:

  def __init__(self, prop, tier='quick', root=None):
    self.prop = prop
    self.tier = tier
    self.root = root or REPO
    self.t0 = time.time()
    self.obligations = []  # (rule, construct, status, detail, loc)
    self.rules = {}
    self.floors = {}
    self.analysed = set()
    self.inlined = 0
    self.errors = []
    self._prog = None

  @property
  def prog(self):
    if self._prog is None:
      self._prog = Program(self.root, spec_dir=os.path.join(VERIF, 'spec'))
    return self._prog

  def interp(self, **kw):
    it = Interp(self.prog, **kw)
    it.analysed = self.analysed
    return it

  # ------------------------------------------------------------ obligations

  def rule(self, name, text, floor=1):
    self.rules[name] = text
    self.floors[name] = floor

  def _add(self, rule, construct, status, detail, loc):
    for o in self.obligations:
      if o[0] == rule and o[1] == construct and o[2] == status:
        return
    self.obligations.append((rule, construct, status, detail, loc))

  def ok(self, rule, construct, detail='', loc=''):
    self._add(rule, construct, 'ok', detail, loc)

  def bad(self, rule, construct, detail, loc='', diff=None):
    self._add(rule, construct, 'bad', detail, loc)

  def undecided(self, rule, construct, why, loc='', diff=None):
    self._add(rule, construct, 'undecided', why, loc)

  def check(self, cond, rule, construct, detail, loc=''):
    if cond is None:
      self.undecided(rule, construct, detail, loc)
    elif cond:
      self.ok(rule, construct, '', loc)
    else:
      self.bad(rule, construct, detail, loc)
    return cond

  @contextlib.contextmanager
  def guard(self, rule, construct):
    """Engine limits never become violations."""
    try:
      yield
    except AnalysisError as e:
      self.errors.append(f'{rule}: {construct}: {e}')
      self.undecided(rule, construct, f'anchor: {e}')
    except (Budget, RecursionError) as e:
      self.undecided(rule, construct, f'analysis bound: {e!r}')
    except Exception as e:  # pylint: disable=broad-except
      if os.environ.get('WBXSA_DEBUG'):
        traceback.print_exc()
      tb = traceback.extract_tb(e.__traceback__)[-1]
      self.undecided(rule, construct,
                     f'engine: {e!r} at {os.path.basename(tb.filename)}:'
                     f'{tb.lineno}')

  # ----------------------------------------------------------------- report

  def finish(self, level='other', explanation='', assumptions=()):
    known = known_findings(self.prop)
    counts = {}
    for r, c, s, _, _ in self.obligations:
      counts.setdefault(r, {'ok': 0, 'bad': 0, 'undecided': 0, 'known': 0})[
          s] += 1
    viols = []
    for r, c, s, d, loc in self.obligations:
      if s != 'bad':
        continue
      hit = [k for k in known if k['rule'] == r and k['construct'] == c.replace(' ', '_')]
      if hit:
        counts[r]['bad'] -= 1
        counts[r]['known'] += 1
        print(f'KNOWN-FINDING: property={self.prop} [{r}] {c}: '
              f'{hit[0]["what"]}')
      else:
        viols.append((r, c, d, loc))
    thin = []
    for r, fl in self.floors.items():
      n = sum(counts.get(r, {}).get(k, 0) for k in ('ok', 'bad', 'known'))
      if n < fl:
        thin.append(f'{r}: {n} decided obligations, at least {fl} expected')
    und = [(r, c, d) for r, c, s, d, _ in self.obligations if s == 'undecided']
    rdir = os.path.join(VERIF, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for i, (r, c, d, loc) in enumerate(viols):
      path = os.path.join(rdir, f'{self.prop}-{i}.txt')
      with open(path, 'w', encoding='utf-8') as f:
        f.write(f'property: {self.prop}\nrule: {r}: {self.rules.get(r, "")}\n'
                f'construct: {c}\nlocation: {loc}\n\n{d}\n')
      print(f'{loc or c}: [{r}] {c}: {d[:600]}')
      print(f'VIOLATION property={self.prop} replay={path}')
    ok = [(r, c) for r, c, s, _, _ in self.obligations if s == 'ok']
    step = max(1, len(ok) // 40)
    ev = {
        'property': self.prop, 'tier': self.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
        'coverage': {
            'explanation': explanation,
            'obligations': len(self.obligations),
            'discharged': len(ok) + sum(c['known'] for c in counts.values()),
            'functions_analysed': len(self.analysed),
            'modules_parsed': len(self.prog.modules),
            'per_rule': {r: dict(counts.get(r, {}), rule=self.rules.get(r, ''))
                         for r in sorted(set(counts) | set(self.rules))},
            'undecided': [f'{r}: {c}: {d}'[:300] for r, c, d in und][:60],
            'samples': [f'{r}: {c}' for r, c in ok][::step][:40],
        },
        'assumptions': list(assumptions),
        'wall_s': round(time.time() - self.t0, 3),
        'violations': len(viols),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w',
              encoding='utf-8') as f:
      json.dump(ev, f, indent=1)
    print(f'{self.prop}: {len(ok)} held, {len(viols)} violated, '
          f'{len(und)} undecided, {sum(c["known"] for c in counts.values())} '
          f'known; {len(self.analysed)} functions analysed; '
          f'{time.time() - self.t0:.1f}s')
    for r, c, d in und[:8]:
      print(f'  undecided [{r}] {c}: {d[:int(os.environ.get("WBXSA_W", 160))]}')
    if viols:
      return 1
    if thin:
      print('ERROR: anchors missing: ' + '; '.join(thin))
      for e in self.errors[:10]:
        print('  ' + e)
      return 2
    return 0
