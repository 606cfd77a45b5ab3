#!/usr/bin/env python3
"""plant.py SEED...: (development aid) confirm seeded changes: apply to /repo, run the stable tests, the demonstration and the check, undo.
  plant.py new ID PROP FILE <<< json {old,new,needs,breaks,demo}   writes seeded/ID from a replacement"""
import json, os, subprocess, sys, time
SEEDED = '/verif/seeded'
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def clean(): sh('git -C /repo checkout -- .')
def stable():
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    sh('bash /opt/vp/test.sh /tmp/plant_tests.json')
    r = json.load(open('/tmp/plant_tests.json'))
    passed = r.get('passed') or [k for k, v in r.items() if v in ('passed', 'PASS')]
    return [t for t in base if t not in passed]
def confirm(sid, check=True, tier='quick'):
    d = os.path.join(SEEDED, sid)
    meta = json.load(open(d + '/meta.json'))
    clean()
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    a = sh('git -C /repo apply %s/patch.diff' % d)
    try:
        missing = stable()
        r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
        c = sh('/verif/check.sh %s %s' % (meta['property'], tier), cwd='/verif') if check else None
    finally:
        clean()
    ok = a.returncode == 0 and not missing and r0.returncode == 0 and r1.returncode != 0
    caught = c is not None and c.returncode == 1 and 'VIOLATION property=%s' % meta['property'] in c.stdout
    print('%s %s applies=%s tests=%s demo clean=%s patched=%s -> %s; check: %s' % (
        sid, meta['property'], a.returncode == 0, 'ok' if not missing else missing, r0.returncode, r1.returncode,
        'VALID' if ok else 'INVALID', 'CAUGHT' if caught else 'missed'))
    if not ok: print(r0.stdout[-600:], r0.stderr[-600:], a.stderr[-500:], r1.stdout[-300:])
    sys.stdout.flush()
    return ok, caught
def new(spec):
    d = os.path.join(SEEDED, spec['id'])
    os.makedirs(d, exist_ok=True)
    clean()
    for f, old, new in spec['edits']:
        p = os.path.join('/repo', f)
        s = open(p).read()
        if s.count(old) != 1:
            clean(); raise SystemExit('%s: %d occurrences of %r in %s' % (spec['id'], s.count(old), old, f))
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C /repo diff').stdout
    clean()
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(spec['demo'])
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 TZ=UTC\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
if __name__ == '__main__':
    if sys.argv[1] == 'new':
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        for s in ns['SEEDS']:
            if len(sys.argv) > 3 and s['id'] not in sys.argv[3:]: continue
            new(s); confirm(s['id'])
    else:
        for s in sys.argv[1:] if sys.argv[1] != 'all' else sorted(os.listdir(SEEDED)):
            confirm(s)
