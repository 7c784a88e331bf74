"""Plants bugs: python3 tools/plant.py DEFS.py [id ...]

DEFS.py has PLANTS = [dict(id, property, needs, breaks, edits=[(file, old, new)],
demo='python source')]. For each: builds a scratch copy with the edits, writes
seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}, confirms that the demo
passes without and fails with the change and that the stable tests pass, and
reports which of the registered checks fail on it. Test running can be
skipped with PLANT_NOTEST=1.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'c3e7032'
DEMO = '''#!/bin/bash
# Run with cwd /repo: exit 0 when the property holds for the demonstrated input.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 NO_GCE_CHECK=true
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(*a, **k):
  return subprocess.run(a, capture_output=True, text=True, **k)


def plant(p):
  tmp = tempfile.mkdtemp(prefix='wbxplant')
  out = []
  try:
    c = tmp + '/repo'
    sh('git', 'clone', '-q', '/repo', c)
    for f, old, new in p['edits']:
      s = open(f'{c}/{f}').read()
      if s.count(old) != 1:
        return p['id'], [f'edit matches {s.count(old)} times: {old[:60]!r}']
      open(f'{c}/{f}', 'w').write(s.replace(old, new))
    d = f'{ROOT}/seeded/{p["id"]}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git', 'diff', cwd=c).stdout)
    open(d + '/demo.sh', 'w').write(DEMO)
    open(d + '/demo.py', 'w').write(p['demo'].lstrip())
    json.dump({'property': p['property'], 'needs': p['needs'],
               'what_it_breaks': p['breaks']}, open(d + '/meta.json', 'w'),
              indent=1)
    blame = sh('git', 'diff', BASE, '--', *[e[0] for e in p['edits']], cwd=c)
    del blame
    # Removed lines must come from the original repository.
    removed = [l[1:] for l in open(d + '/patch.diff') if l[0] == '-' and not l.startswith('---')]
    orig = ''.join(sh('git', 'show', f'{BASE}:{e[0]}', cwd=c).stdout for e in p['edits'])
    if not any(r.strip() and r.strip() in orig for r in removed):
      out.append('WARNING: no removed line is original')
    good = sh('bash', d + '/demo.sh', cwd='/repo')
    badr = sh('bash', d + '/demo.sh', cwd=c)
    out.append(f'demo: unchanged rc={good.returncode}, patched rc={badr.returncode}')
    if good.returncode:
      out.append(good.stderr[-1500:])
    if not badr.returncode:
      out.append('DEMO DOES NOT FAIL')
    else:
      out.append('   ' + badr.stderr.strip().split('\n')[-1][:200])
    props = sorted(c['property'] for c in json.load(open(ROOT + '/MANIFEST.json'))['checks'])
    v = tmp + '/v'
    shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replay'))
    env = dict(os.environ, WBXSA_FAST='1', WBXSA_REPO=c, WBXSA_HOME=v)
    got = []
    own = os.environ.get('PLANT_OWN')
    for q in ([p['property']] if own else props):
      r = sh('python3', 'check.py', '--property', q, cwd=v, env=env)
      if r.returncode:
        got.append(f'{q}={r.returncode}')
      if q == p['property']:
        line = [l for l in r.stdout.split('\n') if '[' in l][:2]
        out.append(f'own check rc={r.returncode} ' + ' | '.join(x[:260] for x in line))
    out.append('checks failing: ' + ' '.join(got))
    if not os.environ.get('PLANT_NOTEST'):
      x = tmp + '/junit.xml'
      e = dict(os.environ, HOME='/root', PYTHONPATH=c, PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', NO_GCE_CHECK='true',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
      r = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
             '-n', '4', '--timeout=600', '--continue-on-collection-errors',
             '-o', 'junit_family=xunit2', f'--junitxml={x}', 'weatherbenchX', cwd=c, env=e)
      out.append('tests: ' + r.stdout.strip().split('\n')[-1])
      out += ['   ' + l for l in r.stdout.split('\n') if l.startswith('FAILED')][:8]
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
  return p['id'], out


def main():
  s = importlib.util.spec_from_file_location('plants', sys.argv[1])
  m = importlib.util.module_from_spec(s)
  s.loader.exec_module(m)
  todo = [p for p in m.PLANTS if not sys.argv[2:] or p['id'] in sys.argv[2:]]
  with cf.ThreadPoolExecutor(3) as ex:
    for name, out in ex.map(plant, todo):
      print('==', name)
      for l in out:
        print('  ', l)
      sys.stdout.flush()


if __name__ == '__main__':
  main()
