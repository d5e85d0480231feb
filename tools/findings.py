"""Rebuilds known_findings.json: the fixed entries from /repo's fix: commits
(tools/fixed_map.txt gives their property), the known ones from
tools/known.json."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
log = subprocess.check_output(
    ['git', '-C', os.environ.get('VERIF_REPO', '/repo'), 'log', '--reverse', '--grep', '^fix:',
     '--format=%h %s'], text=True).splitlines()
fmap = {}
for line in open(os.path.join(HERE, 'fixed_map.txt')):
    if line.strip():
        pid, subj = line.rstrip('\n').split(' ', 1)
        fmap[subj] = pid
fixed = []
for line in log:
    h, subj = line.split(' ', 1)
    if subj not in fmap:
        print('unmapped:', subj)
    fixed.append('fixed: property={} {} {}'.format(
        fmap.get(subj, '?'), h, subj[5:]))
known = json.load(open(os.path.join(HERE, 'known.json')))
with open(os.path.join(os.path.dirname(HERE), 'known_findings.json'), 'w') as f:
    json.dump({'known': known, 'fixed': fixed}, f, indent=1)
    f.write('\n')
