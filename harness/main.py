"""Command line: python -m harness.main PROPERTY TIER [--replay FILE] [--only SUB]"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _child(args):
    prop, sub_name, seed, n, budget = args
    try:
        from harness import core
        mod = importlib.import_module('checks.' + prop.lower())
        sub = {s.name: s for s in mod.SUBS}[sub_name]
        return core.run_sub(sub, seed, n, budget)
    except BaseException:
        return {'sub': sub_name, 'error': traceback.format_exc(),
                'failure': None, 'n': 0, 'labels': {}, 'nontrivial': 0,
                'samples': [], 'cut': False, 'wall': 0, 'requested': n}


def _quiet():
    # the code under test prints; nothing of it belongs on the check's stdout
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = open(os.devnull, 'w')


def known_for(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get('known', []) if k['property'] == prop]


def load(prop):
    import IMTreatment
    repo = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
    got = os.path.realpath(IMTreatment.__file__)
    if not got.startswith(repo + os.sep):
        raise RuntimeError('IMTreatment imported from ' + got)
    import warnings
    warnings.simplefilter('ignore')
    return importlib.import_module('checks.' + prop.lower())


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    rest = sys.argv[3:]
    only = rest[rest.index('--only') + 1] if '--only' in rest else None
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    try:
        mod = load(prop)
        from harness import core
    except BaseException:
        traceback.print_exc()
        return 2
    if '--replay' in rest:
        path = rest[rest.index('--replay') + 1]
        with open(path) as f:
            rp = json.load(f)
        sub = {s.name: s for s in mod.SUBS}[rp['sub']]
        rec, failure = core.run_case(sub, rp['case'])
        if failure is None:
            print('replay passes')
            return 0
        print(failure['message'])
        print(failure.get('traceback', ''))
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    budget = float(os.environ.get('VERIF_BUDGET',
                                  300 if tier == 'quick' else 3600))
    jobs = []
    for s in mod.SUBS:
        if only and s.name != only:
            continue
        n = s.quick if tier == 'quick' else s.thorough
        jobs.append((prop, s.name, seed, n, budget))
    nproc = min(int(os.environ.get('VERIF_JOBS', '8')), len(jobs))
    ctx = mp.get_context('fork')
    with ctx.Pool(nproc, initializer=_quiet, maxtasksperchild=1) as pool:
        it = pool.imap(_child, jobs, chunksize=1)
        results = []
        for job in jobs:
            # a worker that died leaves the pool waiting for ever
            results.append(it.next(timeout=2.5*budget + 120))
    # known findings: each is one concrete case; it is announced while it fails
    subs = {s.name: s for s in mod.SUBS}
    known_lines = []
    for k in known_for(prop):
        with ctx.Pool(1, initializer=_quiet) as pool:
            failed = pool.apply(_known_probe, (prop, k))
        if failed:
            known_lines.append('KNOWN-FINDING: property={} {}'.format(
                prop, k['what']))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {
              'evaluations': sum(r['n'] for r in results),
              'distinct_nontrivial': sum(r['nontrivial'] for r in results),
              'rule': 'Cases are drawn by Hypothesis (seeded by VERIF_SEED) '
                      'as plain data, one strategy per sub-check; distinct '
                      'means different JSON text. Non-trivial per sub-check: '
                      + '; '.join('{}: {}'.format(s.name, s.rule)
                                  for s in mod.SUBS),
              'samples': [x for r in results for x in r['samples']][:40],
              'per_sub': [{'sub': r['sub'], 'generated': r['n'],
                           'requested': r['requested'],
                           'distinct_nontrivial': r['nontrivial'],
                           'time_budget_hit': r['cut'],
                           'wall_s': round(r['wall'], 2),
                           'labels': dict(sorted(r['labels'].items()))}
                          for r in results],
          },
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'violations': sum(1 for r in results if r['failure']),
          'wall_s': round(time.time() - t0, 2)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    for line in known_lines:
        print(line)
    bad = [r for r in results if r['failure']]
    err = [r for r in results if r['error']]
    for r in results:
        print('{} {}: {} cases, {} distinct non-trivial, {:.1f} s{}'.format(
            prop, r['sub'], r['n'], r['nontrivial'], r['wall'],
            ' (time budget hit)' if r['cut'] else ''))
    for r in err:
        sys.stderr.write('HARNESS ERROR in {} {}\n{}\n'.format(
            prop, r['sub'], r['error']))
    if bad:
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        for r in bad:
            path = os.path.join(HERE, 'evidence', 'replay',
                                '{}-{}.json'.format(prop, r['sub']))
            with open(path, 'w') as f:
                json.dump(dict(r['failure'], property=prop, sub=r['sub'],
                               seed=seed, tier=tier), f, indent=1)
                f.write('\n')
            print('--- {} {}: {}'.format(prop, r['sub'],
                                         r['failure']['message'][:1500]))
            if r['failure'].get('traceback'):
                print(r['failure']['traceback'])
            print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if err:
        return 2
    return 0


def _known_probe(prop, k):
    from harness import core
    mod = importlib.import_module('checks.' + prop.lower())
    sub = {s.name: s for s in list(mod.SUBS) + list(getattr(mod, 'PROBES', []))}[k['sub']]
    rec, failure = core.run_case(sub, k['case'])
    return failure is not None


if __name__ == '__main__':
    sys.exit(main())
