"""Writes /verif/MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, H)
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOTE = ('TLC checks the TLA+ model of this property on small exhaustive configurations, and validates every '
        'recorded public call of the real code (seeded inputs, plus histories TLC generates from the model '
        'where stated in DESIGN.md) against the model. Assurance is bounded by the explored configurations; trusted: TLC, the '
        'fixed-point projection (2^-18) and the tolerances in the trace module.')
checks, na = [], []
for p in props:
  c = CHECKS.get(p['id'])
  if c is None:
    na.append(dict(property=p['id'], reason='check not built yet'))
    continue
  checks.append(dict(
      property=p['id'],
      quick_cmd='python3 check.py %s quick' % p['id'],
      thorough_cmd='python3 check.py %s thorough' % p['id'],
      technique=c.get('technique', 'TLA+ specification checked with TLC; trace validation of recorded calls of the real code against it'),
      level=c.get('level', 'model_checking'),
      level_note=c.get('note', NOTE)))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='See DESIGN.md. No hooks: the public API exposes the abstract state.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
