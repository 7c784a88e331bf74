"""Writes spec/defaults.json: what an option of the public interface means
when it is not given. Run by hand when the interface changes on purpose."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from wbxsa import ctx as c  # noqa
from wbxsa.rules import c23  # noqa

ctx = c.Ctx('C23')
out = {}
for q, sig, module, _ in c23.public_signatures(ctx.prog):
  for k, d in sig.items():
    v = c23.default_value(ctx, d, module)
    if v is not None:
      out.setdefault(q, {})[k] = v
with open(os.path.join(ROOT, 'spec', 'defaults.json'), 'w') as f:
  json.dump(out, f, indent=1, sort_keys=True)
print(sum(map(len, out.values())), 'defaults')
