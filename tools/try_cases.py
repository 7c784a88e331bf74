"""Runs the checks on edited copies: python3 tools/try_cases.py [name-prefix].

Each case in tools/cases/*.py is (name, property ids, file, old text, new text,
expected exit status). Properties '*' means all registered ones.
"""
import concurrent.futures as cf
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def load():
  out = []
  for p in sorted(glob.glob(os.path.join(HERE, 'cases', '*.py'))):
    s = importlib.util.spec_from_file_location('cases', p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    out += [(os.path.basename(p)[:-3] + '/' + c[0], *c[1:]) for c in m.CASES]
  return out


def run(case):
  name, props, path, old, new, want = case
  if props == '*':
    props = ' '.join(sorted(
        f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'wbxsa/rules'))
        if f[0] == 'c' and f[1:3].isdigit()))
  tmp = tempfile.mkdtemp(prefix='wbxcase')
  try:
    for d in ('weatherbenchX', 'public_benchmark', 'evaluation_scripts'):
      shutil.copytree('/repo/' + d, f'{tmp}/{d}',
                      ignore=shutil.ignore_patterns('__pycache__'))
    shutil.copytree(ROOT, tmp + '/v', ignore=shutil.ignore_patterns(
        '.git', 'seeded', 'evidence', 'replay'))
    f = f'{tmp}/{path}'
    s = open(f).read()
    edits = [(old, new)] if isinstance(old, str) else list(zip(old, new))
    for o, n in edits:
      if s.count(o) < 1:
        return name, 'NO MATCH', o[:80]
      s = s.replace(o, n)
    compile(s, f, 'exec')
    open(f, 'w').write(s)
    got = {}
    text = ''
    for p in props.split():
      r = subprocess.run(
          [sys.executable, 'check.py', '--property', p], cwd=tmp + '/v',
          env=dict(os.environ, WBXSA_REPO=tmp, WBXSA_HOME=tmp + '/v'),
          capture_output=True, text=True)
      got[p] = r.returncode
      if r.returncode or 'undecided' in r.stdout and ' 0 undecided' not in r.stdout:
        text += r.stdout[:1500] + r.stderr[-500:]
    if want == 1:
      good = any(v == 1 for v in got.values())
    else:
      good = all(v == want for v in got.values())
    st = 'ok' if good else 'WRONG'
    return name, st, f'{[p for p in got if got[p]]} ' + (
        text if st != 'ok' or '-v' in sys.argv else '')
  finally:
    shutil.rmtree(tmp)


if __name__ == '__main__':
  pre = [a for a in sys.argv[1:] if a != '-v']
  cases = [c for c in load() if not pre or any(c[0].startswith(p) for p in pre)]
  with cf.ThreadPoolExecutor(8) as ex:
    for name, st, text in ex.map(run, cases):
      if st != 'ok' or '-v' in sys.argv:
        print(f'{name}: {st} {text}')
  print(len(cases), 'cases')
