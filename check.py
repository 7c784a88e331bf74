#!/usr/bin/env python3
"""python3 /verif/check.py --property ID [--tier quick|thorough]"""

import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('--property')
  ap.add_argument('--all', action='store_true')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  a = ap.parse_args()
  if a.all:
    here = os.path.dirname(os.path.abspath(__file__))
    return max(run(f[:-3].upper(), a.tier)
               for f in sorted(os.listdir(here + '/wbxsa/rules'))
               if f[0] == 'c' and f[1:3].isdigit())
  return run(a.property, a.tier)


def run(prop, tier):
  from wbxsa.ctx import Ctx
  ctx = Ctx(prop, tier)
  rules = importlib.import_module(f'wbxsa.rules.{prop.lower()}')
  with ctx.guard('analysis', prop):
    rules.check(ctx)
  return ctx.finish(explanation=rules.EXPLANATION,
                    assumptions=getattr(rules, 'ASSUMPTIONS', ()))


if __name__ == '__main__':
  sys.exit(main())
