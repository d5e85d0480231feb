#!/usr/bin/env python3
"""Build seeded/<id>/ from tools/bugs/<id>.py in a scratch copy of /repo.

mkbug.py ID... : applies the edits to a copy, runs the stable tests and the
demonstration (with and without), writes seeded/<id>/, then runs the property's
quick check against the copy and tells whether it is caught.
--nocheck skips the check, --notest skips the repository's tests."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run from the root of the tree under test
. /opt/vp/env.sh
export PYTHONPATH="$PWD"
exec "$PY" -W ignore "$(dirname "$0")/demo.py"
'''
flags = [a for a in sys.argv[1:] if a.startswith('--')]
ids = [a for a in sys.argv[1:] if not a.startswith('--')]
if not ids:
    ids = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'tools/bugs'))
                 if f.endswith('.py'))


def one(bid):
    spec = {}
    exec(open(os.path.join(HERE, 'tools/bugs', bid + '.py')).read(), spec)
    w = tempfile.mkdtemp(prefix='bug-', dir='/tmp')
    try:
        t = os.path.join(w, 'repo')
        subprocess.check_call(['git', 'clone', '-q', os.environ.get('VERIF_REPO', '/repo'), t])
        for f, old, new in spec['edits']:
            p = os.path.join(t, 'IMTreatment', f)
            s = open(p).read()
            if s.count(old) != 1:
                return bid, 'EDIT matches {} times in {}'.format(s.count(old), f)
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.check_output(['git', '-C', t, 'diff'], text=True)
        d = os.path.join(w, bid)
        os.mkdir(d)
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(spec['demo'].lstrip('\n'))
        json.dump({'property': spec['property'], 'needs': spec['needs'],
                   'what_it_breaks': spec['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        sh = os.path.join(d, 'demo.sh')
        r = subprocess.run(['bash', sh], cwd=os.environ.get('VERIF_REPO', '/repo'), capture_output=True,
                           text=True)
        if r.returncode:
            return bid, 'DEMO fails on the unchanged tree\n' + r.stdout + r.stderr
        r = subprocess.run(['bash', sh], cwd=t, capture_output=True, text=True)
        if r.returncode == 0:
            return bid, 'DEMO passes with the bug'
        err = (r.stderr.strip().splitlines() or [''])[-1]
        if '--notest' not in flags:
            ts = open('/opt/vp/test.sh').read().replace('/repo', t).replace(
                '. /opt/vp/env.sh', '. /opt/vp/env.sh; export PYTHONPATH=' + t)
            open(os.path.join(w, 't.sh'), 'w').write(ts)
            out = os.path.join(w, 'out.json')
            subprocess.run(['bash', os.path.join(w, 't.sh'), out],
                           capture_output=True)
            base = json.load(open('/opt/vp/BASELINE.json'))
            got = json.load(open(out))

            def names(x):
                for k in ('stable', 'passed', 'tests', 'pass'):
                    if isinstance(x, dict) and k in x:
                        return set(x[k])
                return set(x)
            lost = names(base) - names(got)
            if lost:
                return bid, 'TESTS lost: ' + ' '.join(sorted(lost))
        dst = os.path.join(HERE, 'seeded', bid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        res = 'kept (' + err[:80] + ')'
        if '--nocheck' not in flags:
            env = dict(os.environ, VERIF_REPO=t)
            r = subprocess.run([os.path.join(HERE, 'run.sh'), spec['property'],
                                'quick'], env=env, capture_output=True,
                               text=True)
            m = [x for x in r.stdout.splitlines() if x.startswith('--- ')]
            res += '  ' + ('CAUGHT ' + (m or ['?'])[0][:100]
                           if r.returncode == 1 else
                           'MISSED rc={}'.format(r.returncode))
        return bid, res
    finally:
        shutil.rmtree(w, ignore_errors=True)


CP = os.path.join(HERE, 'tools', 'caught.json')
with ThreadPoolExecutor(2) as ex:
    for bid, res in ex.map(one, ids):
        print(bid, res, flush=True)
        if 'CAUGHT' in res or 'MISSED' in res:
            c = json.load(open(CP)) if os.path.exists(CP) else {}
            c[bid] = (res.split('CAUGHT --- ')[1].split(':')[0]
                      if 'CAUGHT ---' in res else 'MISSED')
            json.dump(c, open(CP, 'w'), indent=1, sort_keys=True)
