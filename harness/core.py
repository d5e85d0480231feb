"""Shared machinery: a property check is a list of sub-checks, each a Hypothesis
strategy producing plain JSON data (the *case*) and a function deciding it.

* every random choice is made by Hypothesis, seeded by VERIF_SEED;
* a case is plain JSON, so a failing case *is* the replay file;
* `run(case, rec)` raises on a violation; anything it raises is a violation,
  because the generators only produce inputs of the property's domain;
* errors of the harness itself (generation, health checks, bookkeeping) end the
  check with exit code 2, never with a VIOLATION line.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import zlib

import numpy as np
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

SHRINK_BUDGET_S = 45.
CASE_ALARM_S = 120


class Violation(AssertionError):
    pass


class Hang(Exception):
    pass


class Rec(object):
    """Per-case recorder handed to `run`."""

    def __init__(self):
        self.labels = []
        self.trivial = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def mark_trivial(self):
        self.trivial = True


class Sub(object):
    """One generated check.

    name     : identifier
    strategy : Hypothesis strategy giving JSON-able cases
    run      : function(case, rec), raises on violation
    rule     : what makes a case non-trivial
    quick, thorough : number of generated cases
    """

    def __init__(self, name, strategy, run, rule, quick=300, thorough=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.rule = rule
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick*15


def jdump(case):
    return json.dumps(case, sort_keys=True, default=_jdefault)


def _jdefault(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


# ---------------------------------------------------------------- assertions
def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def check(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def arr(x):
    return np.asarray(x, dtype=float)


def close(a, b, what, rtol=1e-9, atol=None, scale=None):
    """Arrays (or numbers) equal up to rounding; NaN equal to NaN."""
    a = arr(a)
    b = arr(b)
    if a.shape != b.shape:
        fail("{}: shape {} instead of {}", what, a.shape, b.shape)
    if a.size == 0:
        return
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        fail("{}: NaN pattern differs: got {} expected {}", what, a.tolist(),
             b.tolist())
    if atol is None:
        if scale is None:
            fin = np.abs(b[np.isfinite(b)])
            scale = fin.max() if fin.size else 1.
        atol = rtol*scale
    aa, bb = a[~na], b[~nb]
    inf = np.isinf(bb)
    if not np.array_equal(aa[inf], bb[inf]):
        fail("{}: infinities differ: got {} expected {}", what, a.tolist(),
             b.tolist())
    aa, bb = aa[~inf], bb[~inf]
    bad = ~(np.abs(aa - bb) <= atol + rtol*np.abs(bb))
    if np.any(bad):
        fail("{}: got {} expected {}", what, a.tolist(), b.tolist())


def same_bool(a, b, what):
    a = np.asarray(a)
    b = np.asarray(b, dtype=bool)
    if a.shape != b.shape:
        fail("{}: shape {} instead of {}", what, a.shape, b.shape)
    if not np.array_equal(a.astype(bool), b):
        fail("{}: got {} expected {}", what, a.astype(int).tolist(),
             b.astype(int).tolist())


def same_unit(a, b, what):
    """Units physically equal (same dimension and same size)."""
    try:
        ratio = float((a/b).asNumber(1)) if hasattr(a, 'asNumber') else None
    except Exception:
        fail("{}: unit {} instead of {}", what, a, b)
    if ratio is None or abs(ratio - 1) > 1e-9:
        fail("{}: unit {} instead of {}", what, a, b)


def expect_raises(fn, what, exc=Exception):
    try:
        res = fn()
    except exc:
        return
    fail("{}: accepted, gave {!r}", what, res)


# ------------------------------------------------------------------- running
def _alarm(signum, frame):
    raise Hang("case did not end within {} s".format(CASE_ALARM_S))


def sub_seed(seed, name):
    return (seed*1000003 + zlib.crc32(name.encode())) % (2**31 - 1)


def run_case(sub, case):
    """Run one case; returns (rec, None) or (rec, failure dict)."""
    rec = Rec()
    # the case is what the JSON text says, whatever the strategy returned
    case = json.loads(jdump(case))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_ALARM_S)
    try:
        with np.errstate(all='ignore'):
            sub.run(case, rec)
        return rec, None
    except Violation as e:
        return rec, {'kind': 'oracle', 'message': str(e)}
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        tb = traceback.format_exc(limit=-6)
        return rec, {'kind': 'exception',
                     'message': '{}: {}'.format(type(e).__name__, e),
                     'traceback': tb}
    finally:
        signal.alarm(0)


def run_sub(sub, seed, n_cases, budget_s):
    """Explore one sub-check. Returns a plain dict."""
    t0 = time.time()
    state = {'n': 0, 'labels': {}, 'nontrivial': set(), 'samples': [],
             'fail': None, 'fail_t': None, 'nfail': 0, 'cut': False}

    def body(case):
        if state['fail_t'] is not None and \
                time.time() - state['fail_t'] > SHRINK_BUDGET_S:
            return
        if time.time() - t0 > budget_s:
            state['cut'] = True
            return
        state['n'] += 1
        text = jdump(case)
        rec, failure = run_case(sub, case)
        for l in set(rec.labels):
            state['labels'][l] = state['labels'].get(l, 0) + 1
        if failure is None:
            if not rec.trivial:
                h = hashlib.blake2b(text.encode(), digest_size=12).digest()
                if h not in state['nontrivial']:
                    state['nontrivial'].add(h)
                    k = len(state['nontrivial'])
                    if k in (1, 20, 150) and len(text) < 4000:
                        state['samples'].append(
                            {'sub': sub.name, 'labels': sorted(set(rec.labels)),
                             'case': json.loads(text)})
            return
        state['nfail'] += 1
        if state['fail'] is None:
            state['fail_t'] = time.time()
        if state['fail'] is None or len(text) <= len(state['fail']['text']):
            state['fail'] = dict(failure, text=text, labels=rec.labels)
        raise Violation(failure['message'])

    test = given(sub.strategy)(body)
    test = hypothesis.seed(sub_seed(seed, sub.name))(test)
    test = settings(max_examples=n_cases, deadline=None, database=None,
                    derandomize=False, print_blob=False,
                    report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.target, Phase.shrink),
                    suppress_health_check=list(HealthCheck))(test)
    out = {'sub': sub.name, 'error': None, 'failure': None}
    try:
        test()
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        if state['fail'] is None:
            out['error'] = traceback.format_exc(limit=-12)
    if state['fail'] is not None:
        out['failure'] = {k: state['fail'][k] for k in state['fail']
                          if k != 'text'}
        out['failure']['case'] = json.loads(state['fail']['text'])
        out['error'] = None
    out.update(n=state['n'], labels=state['labels'],
               nontrivial=len(state['nontrivial']), samples=state['samples'],
               cut=state['cut'], wall=time.time() - t0, requested=n_cases)
    return out
