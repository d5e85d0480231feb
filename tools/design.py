"""Fill the generated parts of DESIGN.md from tools/DESIGN.in.md, props.py,
known_findings.json, tools/alarms.txt, tools/bugs and tools/caught.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
tech = {c['property']: c['technique'] for c in man['checks']}
det = {}
p = os.path.join(HERE, 'tools', 'details.json')
if os.path.exists(p):
    det = json.load(open(p))
tab = []
for r in props:
    pid = r['id']
    tab.append('### {} {}\n\n{}\n\n*Generated:* {}\n\n*Oracle:* {}\n\n*Beyond the tests:* {}\n{}'.format(
        pid, r['title'], r['statement'], r['quantifier']['text'],
        tech.get(pid, 'none (not applicable)').split(': ', 1)[-1],
        r['why_tests_cant'],
        '\n' + det[pid] + '\n' if pid in det else ''))
kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
known = '\n'.join('* {property} ({sub}): {what}'.format(**k)
                  for k in kf['known']) or 'None recorded.'
known += '\n\n{} defects were repaired, see `fixed` in that file.'.format(
    len(kf['fixed']))
alarms = open(os.path.join(HERE, 'tools', 'alarms.txt')).read().strip()
cp = os.path.join(HERE, 'tools', 'caught.json')
caught = json.load(open(cp)) if os.path.exists(cp) else {}
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', f, 'meta.json')))
    rows.append('| {} | {} | {} | {} |'.format(
        f, m['property'], m['needs'], caught.get(f, '?')))
s = open(os.path.join(HERE, 'tools', 'DESIGN.in.md')).read()
s = s.replace('@@TABLE@@', '\n'.join(tab)).replace('@@KNOWN@@', known)
s = s.replace('@@ALARMS@@', alarms).replace('@@BUGS@@', '\n'.join(rows))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s)
