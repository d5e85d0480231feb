"""C27: sets of files: search, selection and deletion."""
import builtins
import os
import re
import shutil
import numpy as np
from hypothesis import strategies as st
from harness.core import Sub, check, fail, expect_raises
from harness import gens as g
from checks.c15 import Scratch
from IMTreatment.utils import files as fl
from IMTreatment import file_operation as io

ASSUMPTIONS = [
    'file trees of at most three levels are built in a scratch directory; '
    'the functions deleting files are replaced by guards that refuse (and '
    'report) any path out of it, the answers typed by the user are given by a '
    'stand-in']

NAMES = ['a.txt', 'b.txt', 'b.dat', 'c1', 'img01.png', 'img02.png', 'x.txt.bak']
DIRS = ['d1', 'd2', 'run1', 'old']


@st.composite
def tree(draw, depth=3):
    """{'f': files, 'd': {name: tree}}"""
    f = sorted(draw(st.sets(st.sampled_from(NAMES), min_size=draw(
        st.integers(0, 2)), max_size=4)))
    d = {}
    if depth > 0:
        for n in sorted(draw(st.sets(st.sampled_from(DIRS), min_size=draw(
                st.integers(0, 1)), max_size=2))):
            d[n] = draw(tree(depth - 1))
    return {'f': f, 'd': d}


def plant(root, t):
    """Create the tree; returns lists of (path, isdir)."""
    out = []
    for n in t['f']:
        p = os.path.join(root, n)
        with open(p, 'w') as f:
            f.write(n)
        out.append((p, False))
    for n, s in t['d'].items():
        p = os.path.join(root, n)
        os.mkdir(p)
        out.append((p, True))
        out += plant(p, s)
    return out


class Guard(object):
    """Deletions inside the scratch directory only; typed answers."""

    def __init__(self, root, answers):
        self.root = os.path.realpath(root)
        self.answers = list(answers)
        self.asked = 0
        self.refused = []

    def inside(self, p):
        q = os.path.realpath(str(p))
        ok = q.startswith(self.root + os.sep)
        if not ok:
            self.refused.append(str(p))
            raise RuntimeError('deletion of {} refused'.format(p))

    def __enter__(self):
        self.saved = [(os, n, getattr(os, n)) for n in
                      ('remove', 'unlink', 'rmdir', 'removedirs', 'rename')]
        self.saved += [(shutil, n, getattr(shutil, n))
                       for n in ('rmtree', 'move')]
        self.saved.append((builtins, 'input', builtins.input))

        def wrap(f):
            def g_(p, *a, **k):
                if 'dir_fd' not in k or k['dir_fd'] is None:
                    self.inside(p)
                return f(p, *a, **k)
            return g_
        for m, n, f in self.saved:
            if n != 'input':
                setattr(m, n, wrap(f))

        def answer(*a):
            self.asked += 1
            if not self.answers:
                raise RuntimeError('asked too many questions')
            return self.answers.pop(0)
        builtins.input = answer
        return self

    def __exit__(self, *a):
        for m, n, f in self.saved:
            setattr(m, n, f)


REGS = ['.*', r'.*\.txt', r'.*\.txt$', r'.*img0[0-9]+\.png', r'.*/d1(/.*)?$',
        r'.*old.*', r'nothing', r'.*/run1/.*', r'.*b\..*', '.*', r'.*[0-9].*']


@st.composite
def set_case(draw):
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(['int', 'ints', 'regex', 'regexes', 'plus',
                                  'copy', 'add']))
        ops.append({'k': k, 'i': [draw(st.integers(0, 40)) for _ in range(3)],
                    'r': [draw(st.sampled_from(REGS)) for _ in range(2)],
                    'neg': draw(st.booleans())})
    return {'t': draw(tree()), 'r': draw(st.sampled_from(REGS)),
            'files': draw(st.integers(0, 4)) > 0, 'dirs': draw(st.booleans()),
            'depth': draw(st.sampled_from(['all', 'all', 0, 1, 2])),
            'ops': ops}


def state(s, exp, what):
    check(len(s.paths) == len(s.isdir) == len(s.exist) == len(exp),
          '{}: {} paths, {} isdir, {} exist instead of {}', what,
          len(s.paths), len(s.isdir), len(s.exist), len(exp))
    check([str(p) for p in s.paths] == [e[0] for e in exp],
          '{}: paths {} instead of {}', what, s.paths, [e[0] for e in exp])
    check([(i is not None and bool(i)) for i in s.isdir] ==
          [e[1] for e in exp], '{}: isdir {}', what, s.isdir)
    check([bool(i) for i in s.exist] == [e[2] for e in exp], '{}: exist {}',
          what, s.exist)


def run_set(c, rec):
    with Scratch() as d:
        d = os.path.realpath(d)
        allp = plant(d, c['t'])
        s = fl.Files()
        s.load_files_from_regex(d, c['r'], load_files=c['files'],
                                load_dirs=c['dirs'], depth=c['depth'])
        exp = set()
        for p, isdir in allp:
            if not (c['dirs'] if isdir else c['files']):
                continue
            rel = os.path.relpath(os.path.dirname(p), d)
            lev = 0 if rel == '.' else rel.count(os.sep)
            if c['depth'] != 'all' and lev > c['depth']:
                rec.label('too deep')
                continue
            if re.match(c['r'], p):
                exp.add((p, isdir, True))
        got = list(zip([str(p) for p in s.paths], [bool(i) for i in s.isdir],
                       [bool(i) for i in s.exist]))
        check(len(got) == len(set(got)), 'the same file twice: {}', got)
        check(set(got) == exp, 'loaded {} instead of {}', sorted(got),
              sorted(exp))
        if not exp:
            rec.mark_trivial()
        mod = got
        others = []
        for op in c['ops']:
            k, n = op['k'], len(mod)
            rec.label(k)
            if k == 'int' and n:
                i = op['i'][0] % n
                s.remove_files(i - n if op['neg'] else i)
                mod = mod[:i] + mod[i + 1:]
            elif k == 'ints' and n:
                ind = sorted({i % n for i in op['i']},
                             reverse=op['neg'])
                s.remove_files(ind)
                mod = [m for i, m in enumerate(mod) if i not in ind]
            elif k == 'regex':
                s.remove_files(op['r'][0])
                mod = [m for m in mod if not re.match(op['r'][0], m[0])]
            elif k == 'regexes':
                s.remove_files(list(op['r']))
                mod = [m for m in mod if not
                       any(re.match(r, m[0]) for r in op['r'])]
            elif k == 'plus':
                o = fl.Files()
                o.load_files_from_regex(d, op['r'][0])
                om = list(zip([str(p) for p in o.paths],
                              [bool(i) for i in o.isdir],
                              [bool(i) for i in o.exist]))
                r = s + o
                others += [(s, mod), (o, om)]
                s, mod = r, mod + om
            elif k == 'copy':
                others.append((s, mod))
                s = s.copy()
            elif k == 'add':
                if allp and op['neg']:
                    p, isdir = allp[op['i'][0] % len(allp)]
                    s.add_file(p)
                    mod = mod + [(p, isdir, True)]
                else:
                    p = os.path.join(d, 'not there')
                    s.add_file(p)
                    mod = mod + [(p, False, False)]
                expect_raises(lambda: s.add_file(os.path.join(
                    d, 'nodir', 'x')), 'file of a missing folder')
            state(s, mod, k)
        for o, m in others:
            state(o, m, 'set an operation started from')
        expect_raises(lambda: s.remove_files(1.5), 'bad kind of removal',
                      TypeError)
        # the representation names each file, and changes nothing
        text = s.get_tree_representation(max_file_list=1000)
        for m in mod:
            check(os.path.basename(m[0]) in text, '{} is not in the tree', m)
        state(s, mod, 'after the representation')
        check(sorted(x[0] for x in allp) == sorted(walk(d)),
              'the files themselves changed')


def walk(d):
    return [os.path.join(r, n) for r, ds, fs in os.walk(d) for n in ds + fs]


YES = ['o', 'O', 'y', 'Y', 'oui', 'Oui', 'Yes', 'yes', 'YES', 'OUI']
NO = ['n', 'N', 'No', 'no', 'non', 'Non', 'NON', 'NO']


@st.composite
def del_case(draw):
    return {'t': draw(tree()), 'r': draw(st.sampled_from(REGS)),
            'files': draw(st.integers(0, 4)) > 0, 'dirs': draw(st.booleans()),
            'rec': draw(st.booleans()), 'yes': draw(st.booleans()),
            'ans': draw(st.sampled_from(range(8))),
            'first': draw(st.sampled_from([None, '', 'maybe', 'nono']))}


def run_del(c, rec):
    with Scratch() as top:
        top = os.path.realpath(top)
        d = os.path.join(top, 'in')
        out = os.path.join(top, 'out')
        os.mkdir(d)
        os.mkdir(out)
        with open(os.path.join(out, 'a.txt'), 'w') as f:
            f.write('x')
        allp = plant(d, c['t'])
        s = fl.Files()
        s.load_files_from_regex(d, c['r'], load_files=c['files'],
                                load_dirs=c['dirs'])
        picked = dict(zip(s.paths, s.isdir))
        full = c['rec'] or not any(picked.values())
        if not full:
            # without 'recursive', only empty folders: take the folders whose
            # whole content is selected, deepest last
            inner = [p for p in picked if picked[p] and any(
                q.startswith(p + os.sep) and
                (q not in picked or picked[q]) for q, _ in allp)]
            if inner:
                rec.label('not empty')
                rec.mark_trivial()
                return
        if c['rec'] and any(picked[p] and any(
                q != p and picked[q] and q.startswith(p + os.sep)
                for q in picked) for p in picked):
            # nested selected folders: the inner one goes with the outer one
            rec.label('nested')
            rec.mark_trivial()
            return
        if not picked:
            rec.mark_trivial()
            return
        ans = ([] if c['first'] is None else [c['first']]) + \
            [(YES if c['yes'] else NO)[c['ans']]]
        with Guard(top, ans) as gu:
            s.delete_existing_files(recursive=c['rec'])
        check(not gu.refused, 'tried to delete {}', gu.refused)
        check(gu.asked == len(ans), 'asked {} times', gu.asked)
        if not c['yes']:
            rec.label('refused')
            check(sorted(walk(d)) == sorted(p for p, _ in allp),
                  'deleted without agreement')
            check(all(s.exist), 'exist: {}', s.exist)
            return
        left = sorted(p for p, _ in allp if p not in picked and not any(
            picked[q] and p.startswith(q + os.sep) for q in picked))
        check(sorted(walk(d)) == left, 'left {} instead of {}',
              sorted(walk(d)), left)
        check(not any(s.exist), 'exist: {}', s.exist)
        check(os.listdir(out) == ['a.txt'], 'other files deleted')
        rec.label('deleted')


@st.composite
def dirs_case(draw):
    return {'t': draw(tree()), 'dr': draw(st.sampled_from(
        ['.*', r'.*d1$', r'.*(old|run1).*', 'nothing'])),
        'fr': draw(st.sampled_from(['.*', r'.*\.txt$', r'img', r'b\.'])),
        'yes': draw(st.booleans())}


def run_dirs(c, rec):
    with Scratch() as d:
        d = os.path.realpath(d)
        allp = plant(d, c['t'])
        gone = [p for p, isdir in allp if not isdir and
                re.match(c['dr'], os.path.dirname(p)) and
                re.match(c['fr'], os.path.basename(p))]
        with Guard(d, ['y' if c['yes'] else 'n']) as gu:
            fl.remove_files_in_dirs(d, c['dr'], c['fr'])
        check(not gu.refused, 'tried to delete {}', gu.refused)
        check(gu.asked == int(bool(gone)), 'asked {} times', gu.asked)
        if not gone:
            rec.mark_trivial()
        left = sorted(p for p, _ in allp if not (c['yes'] and p in gone))
        check(sorted(walk(d)) == left, 'left {} instead of {}',
              sorted(walk(d)), left)


@st.composite
def find_case(draw):
    return {'t': draw(tree()), 'r': draw(st.lists(st.sampled_from(
        [r'.*\.txt$', r'img0[0-9]\.png', 'b', 'c1', 'nothing', r'.*\.dat']),
        min_size=1, max_size=2)), 'ask': draw(st.booleans()),
        'i': draw(st.integers(0, 9))}


def run_find(c, rec):
    with Scratch() as d:
        d = os.path.realpath(d)
        allp = plant(d, c['t'])
        exp = sorted({os.path.dirname(p) for p, isdir in allp if not isdir and
                      any(re.match(r, os.path.basename(p)) for r in c['r'])})
        if not exp:
            rec.mark_trivial()
        r = io.file_operation.find_file_in_path(c['r'], d)
        check(sorted(r) == exp, 'found {} instead of {}', sorted(r), exp)
        check(len(set(r)) == len(r), 'folder found twice: {}', r)
        if c['ask']:
            i = c['i'] % max(len(exp), 1)
            with Guard(d, ['zero', '99', str(i + 1)]) as gu:
                r2 = io.file_operation.find_file_in_path(c['r'], d, ask=True)
            if len(exp) > 1:
                check(list(r2) == [r[i]], 'chosen {} instead of {}', r2, r[i])
                rec.label('asked')
            else:
                check(list(r2) == list(r) and not gu.asked, 'asked')
        expect_raises(lambda: io.file_operation.find_file_in_path(
            c['r'], os.path.join(d, 'nodir')), 'missing folder', ValueError)
        # paths
        for p, isdir in allp[:6]:
            base = os.path.basename(p)
            for q in (p, os.path.join(os.path.dirname(p), '.', base),
                      os.path.join(p, '..', base) if isdir else p):
                check(io.file_operation.check_path(q) == p,
                      'check_path({!r}) gave {!r}', q,
                      io.file_operation.check_path(q))
            new = os.path.join(os.path.dirname(p), 'new')
            check(io.file_operation.check_path(new, newfile=True) == new,
                  'check_path of a new file')
            expect_raises(lambda: io.file_operation.check_path(new),
                          'check_path of a missing file', FileNotFoundError)
            expect_raises(lambda: io.file_operation.check_path(
                os.path.join(new, 'x'), newfile=True),
                'check_path in a missing folder', FileNotFoundError)
        check(sorted(walk(d)) == sorted(p for p, _ in allp), 'files changed')


SUBS = [
    Sub('sets', set_case(), run_set, 'at least one file found', 500),
    Sub('deletion', del_case(), run_del, 'something to delete, and its outcome '
        'defined', 400),
    Sub('folders', dirs_case(), run_dirs, 'something to delete', 200),
    Sub('search', find_case(), run_find, 'something to find', 300),
]
