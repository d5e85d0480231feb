"""C30: memoized, silenced, checked and counted computations are the
computations themselves."""
import gc
import gzip
import io
import os
import re
import shutil
import sys
import tempfile
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, check, close, expect_raises
from IMTreatment.utils import (memoize_to_file, RemoveFortranOutput,
                               ProgressCounter)
from IMTreatment.utils import progresscounter as pcmod
from IMTreatment.utils.types import TypeTest, ReturnTest

ASSUMPTIONS = [
    'each memoized function has its own file, is deterministic, and what it '
    'returns is not modified by its caller',
    'files are written in a scratch directory created and removed by each '
    'case',
    'the clock of the progress counter is a stand-in']


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif-c30-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


# ----------------------------------------------------------------- memoization
VALUES = [0, 1, 2, 1., -1., True, False, None, 'a', 'b', '1', (1,), (1, 2),
          ((1,), 2)]


@st.composite
def memo_case(draw):
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        o = {'op': draw(st.sampled_from(['call']*6 + [
            'restart', 'restart', 'second', 'truncate', 'garbage', 'remove',
            'error', 'unstorable']))}
        if o['op'] in ('call', 'error', 'unstorable'):
            o['a'] = draw(st.lists(st.integers(0, len(VALUES) - 1),
                                   max_size=2))
            o['k'] = draw(st.dictionaries(st.sampled_from(['u', 'v']),
                                          st.integers(0, len(VALUES) - 1),
                                          max_size=2))
        elif o['op'] == 'truncate':
            o['at'] = draw(st.floats(0, 1).map(lambda z: round(z, 3)))
        elif o['op'] == 'garbage':
            o['with'] = draw(st.sampled_from(['text', 'gzip', 'empty']))
        ops.append(o)
    return {'ops': ops}


class Oops(Exception):
    pass


def run_memo(c, rec):
    calls = []

    def fun(*args, **kwargs):
        mode = kwargs.pop('mode', None)
        calls.append(1)
        if mode == 'error':
            raise Oops()
        if mode == 'unstorable':
            return lambda: (args, kwargs)
        return {'args': [repr(a) for a in args], 'array': np.arange(3.),
                'kw': sorted((k, repr(v)) for k, v in kwargs.items())}

    def same(got, want, what):
        check(isinstance(got, dict) and got['args'] == want['args'] and
              got['kw'] == want['kw'] and
              np.array_equal(got['array'], want['array']),
              '{}: {!r} instead of {!r}', what, got, want)

    # sure: the file holds the known results; fresh: and no other ones
    known, sure, fresh = set(), True, True
    with Scratch() as d:
        p = os.path.join(d, 'cache')
        f = memoize_to_file(p)(fun)
        for o in c['ops']:
            op = o['op']
            rec.label(op)
            enabled = gc.isenabled()
            if op in ('call', 'error', 'unstorable'):
                a = [VALUES[i] for i in o['a']]
                k = {q: VALUES[i] for q, i in sorted(o['k'].items())}
            if op == 'call':
                key = repr((a, k))
                n = len(calls)
                got = f(*a, **k)
                made = len(calls) - n
                same(got, fun(*a, **k), 'memoized call')
                check(made <= 1, '{} calls', made)
                if key in known:
                    check(made == 0, 'computed again with {}', key)
                    rec.label('known result')
                if key not in known and fresh:
                    check(made == 1, 'given without any call with {}', key)
                known.add(key)
            elif op == 'error':
                for _ in range(2):
                    expect_raises(lambda: f(*a, mode='error', **k),
                                  'an error', Oops)
            elif op == 'unstorable':
                try:
                    f(*a, mode='unstorable', **k)
                except Exception:
                    pass
                # (it fails, and what the file holds is not decided, but the
                # file can still be used)
                gc_state = gc.isenabled()
                f = memoize_to_file(p)(fun)
                known, sure, fresh = set(), True, False
                check(gc_state == enabled, 'the garbage collector was left '
                      'disabled')
            elif op == 'restart':
                f = memoize_to_file(p)(fun)
                if not sure:
                    known, sure, fresh = set(), True, False
            elif op == 'second':
                # another program, with the same file
                h = memoize_to_file(p)(fun)
                same(h(1, 2, 3), fun(1, 2, 3), 'second program')
                sure = False
            elif op == 'remove':
                if os.path.exists(p):
                    os.remove(p)
                f = memoize_to_file(p)(fun)
                known, sure, fresh = set(), True, True
            else:
                if not os.path.exists(p):
                    continue
                with open(p, 'rb') as fi:
                    data = fi.read()
                if op == 'truncate':
                    # stopped while writing
                    data = data[:int(o['at']*len(data))]
                elif o['with'] == 'text':
                    data = b'not a cache at all'
                elif o['with'] == 'empty':
                    data = b''
                else:
                    data = gzip.compress(b'not a cache at all')
                with open(p, 'wb') as fi:
                    fi.write(data)
                f = memoize_to_file(p)(fun)
                known, sure, fresh = set(), True, False
            check(gc.isenabled() == enabled, '{}: the garbage collector was '
                  'left {}', op, 'disabled' if enabled else 'enabled')
            gc.enable()
    if not known:
        rec.mark_trivial()


# -------------------------------------------------------------- silenced output
@st.composite
def out_case(draw):
    return {'ops': draw(st.lists(st.sampled_from(
        ['write', 'silent', 'silent', 'error', 'nested']), min_size=1,
        max_size=6))}


def n_fds():
    return len(os.listdir('/proc/self/fd'))


def run_out(c, rec):
    """In a pipe in place of the standard outputs."""
    rec.label(*c['ops'])
    if all(o == 'write' for o in c['ops']):
        rec.mark_trivial()
    sys.stdout.flush()
    sys.stderr.flush()
    saved = os.dup(1), os.dup(2)
    with Scratch() as d:
        fd = [os.open(os.path.join(d, str(i)), os.O_RDWR | os.O_CREAT)
              for i in (1, 2)]
        os.dup2(fd[0], 1)
        os.dup2(fd[1], 2)
        before = n_fds()
        problem = None
        want = b''
        try:
            for i, o in enumerate(c['ops']):
                mark = '<{}>'.format(i).encode()
                if o == 'write':
                    os.write(1, mark)
                    os.write(2, mark)
                    want += mark
                elif o in ('silent', 'error'):
                    try:
                        with RemoveFortranOutput():
                            os.write(1, b'hidden')
                            os.write(2, b'hidden')
                            if o == 'error':
                                raise Oops()
                        if o == 'error':
                            problem = 'the error was lost'
                    except Oops:
                        pass
                else:
                    with RemoveFortranOutput():
                        with RemoveFortranOutput():
                            os.write(1, b'hidden')
                        os.write(2, b'hidden')
                os.write(1, mark)
                os.write(2, mark)
                want += mark
            after = n_fds()
        finally:
            os.dup2(saved[0], 1)
            os.dup2(saved[1], 2)
            os.close(saved[0])
            os.close(saved[1])
            got = []
            for q in fd:
                os.lseek(q, 0, 0)
                got.append(os.read(q, 10**6))
                os.close(q)
    check(problem is None, '{}', problem)
    for q, name in zip(got, ('output', 'errors')):
        check(q == want, '{}: {!r} instead of {!r}', name, q, want)
    check(after == before, '{} files left open', after - before)


# --------------------------------------------------------------------- counter
class Clock(object):
    def __init__(self, steps):
        self.now, self.steps, self.i = 1000., steps, 0

    def time(self):
        return self.now

    def tick(self):
        self.now += self.steps[self.i % len(self.steps)]
        self.i += 1


@st.composite
def pg_case(draw):
    n = draw(st.integers(1, 60))
    return {'n': n, 'perc': draw(st.sampled_from([1, 5, 7, 10, 25, 50, 100])),
            'end': draw(st.sampled_from([None, 'Done'])),
            'things': draw(st.sampled_from(['things', 'fields'])),
            'finish': draw(st.one_of(st.none(), st.integers(0, n - 1))),
            'steps': draw(st.lists(st.sampled_from(
                [0., .25, 1., 59.5, 60., 3600., 86400., 100000.]), min_size=1,
                max_size=4))}


def seconds(txt):
    if txt.endswith('ms') and re.match(r'^\d+ms$', txt):
        return int(txt[:-2])/1000.
    m = re.match(r'^(?:(\d+)j)?(?:(\d+)h)?(?:(\d+)mn)?(\d+)s$', txt)
    check(m is not None, 'time {!r}', txt)
    j, h, mn, s = [int(z or 0) for z in m.groups()]
    return ((j*24 + h)*60 + mn)*60 + s


def run_pg(c, rec):
    n = c['n']
    clock = Clock(c['steps'])
    old = pcmod.modtime
    out = io.StringIO()
    done = n if c['finish'] is None else c['finish']
    times = []
    try:
        pcmod.modtime = clock
        with redirect_stdout(out):
            pg = ProgressCounter('Start', n, end_mess=c['end'],
                                 name_things=c['things'],
                                 perc_interv=c['perc'])
            for _ in range(done):
                pg.print_progress()
                times.append(clock.now)
                clock.tick()
            if c['finish'] is not None:
                pg.finish()
                times.append(clock.now)
                rec.label('finished before the end')
    finally:
        pcmod.modtime = old
    txt = out.getvalue()
    check(txt.startswith('=== Start ===\n'), 'start: {!r}', txt[:30])
    check(txt.count('Start') == 1, 'the start is written once')
    if c['end'] is not None:
        check(txt.rstrip().endswith('=== Done ==='), 'end: {!r}', txt[-30:])
        check(txt.count('Done') == 1, 'the end is written once')
    check('Problem' not in txt, 'problem: {!r}', txt)
    shown = re.findall(r'\[([#.]*)\] (\d+)%\s+(\d+)/(\d+) (\w+)\s+(\S+)/(\S+)',
                       txt)
    rec.label('n:{}'.format(len(shown)))
    interv = max(int(n*c['perc']/100.), 1)
    want = [i for i in range(1, done + 1) if i % interv == 0 or i == n]
    at = list(want)
    if c['finish'] is not None:
        want.append(n)
        at.append(len(times))
    check([int(s[2]) for s in shown] == want, 'shown: {} instead of {}',
          [s[2] for s in shown], want)
    for s, i, k in zip(shown, want, at):
        check(int(s[3]) == n and s[4] == c['things'], 'line {}', s)
        check(abs(int(s[1]) - 100.*i/n) <= .5 + 1e-9, '{}% for {}/{}', s[1],
              i, n)
        check(len(s[0]) == 15 and
              s[0] == '#'*s[0].count('#') + '.'*s[0].count('.') and
              abs(s[0].count('#') - 15.*i/n) <= 1.1, 'bar {} for {}/{}', s[0],
              i, n)
        dt = times[k - 1] - times[0]
        got = seconds(s[5])
        check(abs(got - dt) < (1. if dt >= 1 else .0011), 'elapsed {} instead '
              'of {} s', s[5], dt)
        tot = dt*n/i
        got = seconds(s[6])
        check(abs(got - tot) < (1.001 if tot >= .99 else .0021), 'estimated '
              '{} instead of {} s', s[6], tot)


# ----------------------------------------------------------------------- types
TYPES = {'int': int, 'float': float, 'str': str, 'list': list, 'num': (int,
                                                                       float)}
ARGS = [1, 2.5, 'a', [1], None, True]


@st.composite
def types_case(draw):
    t = st.sampled_from(sorted(TYPES))
    return {'pos': draw(st.lists(t, max_size=3)),
            'kw': draw(st.dictionaries(st.sampled_from('abc'), t, max_size=2)),
            'args': draw(st.lists(st.integers(0, 5), min_size=1, max_size=3)),
            'named': draw(st.integers(0, 3)),
            'method': draw(st.booleans()),
            'ret': draw(st.sampled_from(['int', 'float', 'str', 'list']))}


def run_types(c, rec):
    class Some(object):
        pass

    def f(a, b=1, c=1):
        extra = [a, b, c]
        return extra

    def meth(self, a, b=1, c=1):
        extra = [a, b, c]
        return extra

    names = 'abc'
    deco = TypeTest(*[TYPES[t] for t in c['pos']],
                    **{k: TYPES[t] for k, t in c['kw'].items()})
    vals = [ARGS[i] for i in c['args']]
    n = max(0, len(vals) - c['named'])
    args, kw = vals[:n], dict(zip(names[n:], vals[n:]))
    if c['method']:
        Some.f = deco(meth)
        g = Some().f
    else:
        g = deco(f)
    want = {names[i]: TYPES[t] for i, t in enumerate(c['pos'])}
    want.update({k: TYPES[t] for k, t in c['kw'].items()})
    bad = False
    for nm, v in zip(names, vals):
        w = want.get(nm)
        if w is not None and (type(v) not in w if isinstance(w, tuple)
                              else type(v) != w):
            bad = True
    rec.label('refused' if bad else 'accepted',
              'method' if c['method'] else 'function')
    if not want:
        rec.mark_trivial()
    if bad:
        expect_raises(lambda: g(*args, **kw), 'arguments {}'.format(vals),
                      TypeError)
    else:
        check(g(*args, **kw) == (vals + [1, 1])[:3], 'result')
    check(g.__name__ in ('f', 'meth'), 'name')
    t = TYPES[c['ret']]
    h = ReturnTest(t)(lambda z: z)
    for v in vals:
        if type(v) == t:
            check(h(v) is v, 'returned value')
        else:
            expect_raises(lambda: h(v), 'returned {}'.format(v), TypeError)


SUBS = [
    Sub('memoization', memo_case(), run_memo, 'some call', quick=500),
    Sub('output', out_case(), run_out, 'some silenced output', quick=200),
    Sub('progress', pg_case(), run_pg, 'any count', quick=400),
    Sub('types', types_case(), run_types, 'some type is asked', quick=400),
]
