"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, tech, note,
         observe=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(
        rec={'id': pid, 'title': title, 'statement': statement,
             'quantifier': {'over': over, 'text': text},
             'why_tests_cant': why,
             'anchors': {'files': files,
                         'mechanism': [{'name': a, 'where': b}
                                       for a, b in mech],
                         'observe_at': observe or ['public API'],
                         'hook_needed': None}},
        tech=tech, note=note))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p['rec']) + '\n')
    checks, na = [], []
    for p in P:
        pid = p['rec']['id']
        if not os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
            na.append({'property': pid, 'reason': 'check not built yet'})
            continue
        checks.append({
            'property': pid,
            'quick_cmd': './run.sh {} quick'.format(pid),
            'thorough_cmd': './run.sh {} thorough'.format(pid),
            'evidence_file': 'evidence/{}.json'.format(pid),
            'technique': p['tech'],
            'level': 'exploration',
            'level_note': p['note']})
    man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': na,
           'notes': 'Checks import IMTreatment straight from /repo (pure '
                    'Python, nothing to compile) and use the Hypothesis copy '
                    'in vendor/. Set VERIF_REPO to test another tree. '
                    'Replay: ./run.sh <ID> quick --replay <file>.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
