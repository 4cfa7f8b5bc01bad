"""Writes known_findings.jsonl: fixed entries from /repo's fix: commits (with the property each
belongs to), known entries from tools/known.py (run by hand)."""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import known
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'bdf474f..HEAD'],
                     stdout=subprocess.PIPE).stdout.decode().splitlines()
out = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    pids = [p for k, p in known.FIXED if k in s]
    assert pids, s
    out.append('fixed: property=%s %s %s' % (pids[0], h, s))
for k in known.KNOWN:
    out.append(json.dumps(dict(k, status='known')))
open(os.path.join(VERIF, 'known_findings.jsonl'), 'w').write('\n'.join(out) + '\n')
print(len(out), 'entries')
