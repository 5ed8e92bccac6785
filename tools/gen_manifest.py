"""Writes MANIFEST.json from registry.py and properties.jsonl (run with python3-vt to validate)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, registry
props = [json.loads(l) for l in open(os.path.join(vf.VERIF, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        tech, level, note = registry.META[i]
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py %s' % i,
                           technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=registry.NOT.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks)
if na: m['not_applicable'] = na
json.dump(m, open(os.path.join(vf.VERIF, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: pass
print(len(checks), 'checks,', len(na), 'not claimed')
