"""Validates the committed JSON files against the schemas (run with python3-vt)."""
import json, jsonschema, sys, glob
ok=True
S=lambda n: json.load(open(f'/root/.vp/{n}.schema.json'))
def chk(o,s,what):
  global ok
  for e in jsonschema.Draft202012Validator(s).iter_errors(o):
    ok=False; print(what, list(e.path), e.message[:200])
ps=S('PROPERTIES')
for l in open('/verif/properties.jsonl'):
  p=json.loads(l); chk(p,ps,p.get('id'))
try: chk(json.load(open('/verif/MANIFEST.json')),S('MANIFEST'),'MANIFEST')
except FileNotFoundError: print('no manifest')
for f in glob.glob('/verif/evidence/*.json'): chk(json.load(open(f)),S('EVIDENCE'),f)
sys.exit(0 if ok else 1)
