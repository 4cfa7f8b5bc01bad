"""Writes MANIFEST.json from properties.jsonl and meta.py (run by hand)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from mon import meta
props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    pid = p['id']
    m = meta.PROPS.get(pid)
    if m is None:
        na.append({'property': pid, 'reason': meta.NOT_APPLICABLE[pid]})
        continue
    checks.append({
        'property': pid,
        'quick_cmd': 'VERIF_TIER=quick python3 mon/run.py ' + pid,
        'thorough_cmd': 'VERIF_TIER=thorough python3 mon/run.py ' + pid,
        'technique': m.get('technique', 'online differential monitor (NumPy as oracle) over '
                           'randomised hostile workloads on the dev build with UB checks'),
        'level': m.get('level', 'exploration'),
        'level_note': m.get('note', 'No violation among the executions observed; trusts NumPy '
                            '2.3.5 as the reference and the generators for reach.'),
    })
out = {'version': 1, 'setup_cmd': 'python3 mon/build.py dev asan', 'checks': checks,
       'not_applicable': na,
       'notes': 'Checks build /repo (cargo, offline) into /repo/target (dev) and '
                '/verif/.build/asan-target (AddressSanitizer), content-hashed.'}
if getattr(meta, 'HOOKS', None):
    out['hooks'] = meta.HOOKS
json.dump(out, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
