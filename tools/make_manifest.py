"""Writes MANIFEST.json from harness/props.py (run with any python3)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import props
ids = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 harness/check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 harness/check.py %s --tier thorough' % i,
            'technique': 'TLA+ specification checked with TLC (%s), bound to the code by replaying the explored histories and seeded random ones into the real library and validating every recorded history against the specification with TLC' % props.PROPS[i]['spec'],
            'level': 'model_checking',
            'level_note': props.PROPS[i]['note'],
        })
    else:
        na.append({'property': i, 'reason': 'The specification of this part is still being written; no check is claimed yet.'})
m = {'version': 1, 'setup_cmd': 'python3 harness/check.py --build', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
