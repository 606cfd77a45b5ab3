#!/usr/bin/env python3
"""prints the 'fixed' lines of known_findings.jsonl from the fix commits of /repo (property by subject)"""
import json, subprocess, sys
MAP = [l.strip().split(' ', 1) for l in open(__file__.replace('fixed.py', 'fixed_map.txt')) if l.strip()]
out = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'f92455f..'], text=True)
known = [l for l in open('/verif/known_findings.jsonl')] if len(sys.argv) > 1 else []
m = {s: p for p, s in MAP}
for l in out.splitlines():
    h, s = l.split(' ', 1)
    p = m.get(s)
    if p is None:
        print('unmapped', l, file=sys.stderr); continue
    print(json.dumps({'status': 'fixed', 'property': p, 'commit': h, 'what': 'fixed: property=%s %s %s' % (p, h, s[5:])}))
