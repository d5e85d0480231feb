"""C24: unit strings."""
import ast
import builtins
import numpy as np
from hypothesis import strategies as st
import unum
import unum.units as units

from harness.core import Sub, check, close, same_unit, fail
from harness import gens as g
from IMTreatment import make_unit

ASSUMPTIONS = ['unit names are those of unum.units, plus counts and px']

# name -> (size, powers of m, kg, s, A, K, px, counts)
BASE = {
    'm': (1., 1, 0, 0), 'mm': (1e-3, 1, 0, 0), 'cm': (1e-2, 1, 0, 0),
    'km': (1e3, 1, 0, 0), 'um': (1e-6, 1, 0, 0), 'nm': (1e-9, 1, 0, 0),
    'kg': (1., 0, 1, 0), 'g': (1e-3, 0, 1, 0), 'mg': (1e-6, 0, 1, 0),
    's': (1., 0, 0, 1), 'ms': (1e-3, 0, 0, 1), 'us': (1e-6, 0, 0, 1),
    'min': (60., 0, 0, 1), 'h': (3600., 0, 0, 1), 'd': (86400., 0, 0, 1),
    'Hz': (1., 0, 0, -1), 'N': (1., 1, 1, -2), 'Pa': (1., -1, 1, -2),
    'bar': (1e5, -1, 1, -2), 'J': (1., 2, 1, -2), 'W': (1., 2, 1, -3),
    'l': None, 'L': (1e-3, 3, 0, 0), 't': (1e3, 0, 1, 0),
    'px': (1., 0, 0, 0, 1, 0), 'counts': (1., 0, 0, 0, 0, 1),
}
del BASE['l']
NAMES = sorted(BASE)
REF = [make_unit(n) for n in ('m', 'kg', 's', 'px', 'counts')]


def vec(n):
    b = BASE[n]
    return b[0], np.array(list(b[1:]) + [0]*(6 - len(b)), dtype=float)


@st.composite
def expr(draw, depth=3):
    """A tree: ['u', name], ['n', number], [op, a, b], ['p', a, power]."""
    if depth == 0 or draw(st.integers(0, 3)) == 0:
        if draw(st.integers(0, 5)) == 0:
            return ['n', draw(st.sampled_from([2, 10, .5, 1000, 1, 3.25]))]
        return ['u', draw(st.sampled_from(NAMES))]
    k = draw(st.sampled_from(['*', '*', '/', '/', 'p']))
    a = draw(expr(depth=depth - 1))
    if k == 'p':
        if a[0] == 'n':
            a = ['u', draw(st.sampled_from(NAMES))]
        return ['p', a, draw(st.sampled_from([2, 3, -1, -2, 1, .5, 0.25]))]
    return [k, a, draw(expr(depth=depth - 1))]


def value(t):
    if t[0] == 'u':
        return vec(t[1])
    if t[0] == 'n':
        return float(t[1]), np.zeros(5)
    sa, va = value(t[1])
    if t[0] == 'p':
        return sa**t[2], va*t[2]
    sb, vb = value(t[2])
    return (sa*sb, va + vb) if t[0] == '*' else (sa/sb, va - vb)


def text(t, rnd, caret, prec=0):
    """Text of the tree with the parentheses it needs (or more)."""
    if t[0] == 'u':
        return t[1]
    if t[0] == 'n':
        return repr(t[1])
    if t[0] == 'p':
        a = text(t[1], rnd, caret, 3)
        op = '^' if caret else '**'
        p = repr(t[2])
        s = a + op + ('({})'.format(p) if rnd(2) else p)
        mine = 2
    else:
        sp = ' ' if rnd(2) else ''
        a = text(t[1], rnd, caret, 1)
        b = text(t[2], rnd, caret, 2)
        s = a + sp + t[0] + sp + b
        mine = 1
    if mine < prec or rnd(4) == 0:
        return '(' + s + ')'
    return s


@st.composite
def good_case(draw):
    t = draw(expr())
    if not has_unit(t):
        t = ['*', t, ['u', draw(st.sampled_from(NAMES))]]
    return {'t': t, 'bits': draw(st.lists(st.integers(0, 3), min_size=12,
                                          max_size=12)),
            'caret': draw(st.booleans())}


def has_unit(t):
    if t[0] == 'u':
        return True
    return any(has_unit(x) for x in t[1:] if isinstance(x, list))


def run_good(c, rec):
    bits = list(c['bits'])
    k = [0]

    def rnd(n):
        k[0] += 1
        return bits[k[0] % len(bits)] % n
    s = text(c['t'], rnd, c['caret'])
    size, p = value(c['t'])
    if not 1e-200 < abs(size) < 1e200:
        rec.mark_trivial()
        return
    rec.label('power' if 'p' in str(c['t']) else 'product')
    u = make_unit(s)
    check(isinstance(u, unum.Unum), 'make_unit({!r}) gave {!r}', s, u)
    e = unum.Unum({})
    for r, a in zip(REF, p):
        if a:
            e = e*r**(int(a) if a == int(a) else a)
    try:
        got = float((u/e).asNumber(1))
    except Exception:
        fail('make_unit({!r}) gave {}, expected {} {}', s, u, size, e)
    check(abs(got - size) <= 1e-9*abs(size),
          'make_unit({!r}) gave {}, expected {} {}', s, u, size, e)
    # spaces around the text are ignored, and so is a second call
    same_unit(make_unit(s), u, 'make_unit({!r}) a second time'.format(s))


ALL = sorted(n for n in dir(units)
             if isinstance(getattr(units, n), unum.Unum))


def run_names(c, rec):
    u = make_unit(c['n'])
    same_unit(u, getattr(units, c['n']), 'make_unit({!r})'.format(c['n']))
    rec.label('name')


BAD = ['{u}.{a}', '{u}*{f}(1)', '{f}(1)', '{u}/{f}({u})', '[{u}]',
       '{u}; {f}(1)', '{u} if 1 else {u}', '(lambda: {u})()', '"{u}"',
       "{u}*'{u}'", '{{{u}}}', '{u}=={u}', '{u} and {u}', 'not {u}',
       '{z}', '{u}/{z}', '{u}*{z}', '{u}[0]', '({u}, {u})', '{u} {u}',
       '{u}*', '/{u}', '{u}**', '({u}', '{u})', '{u}=1', '{u}\nimport os',
       'import os', '__import__("os")', '{u}*__import__("os").getpid()',
       '({u}).{a}', '{u}*({u}).{a}', '{u}*units', 'unum', 'np', '{u}*np.pi',
       'f"{u}"', '{u}:={u}', '[x for x in {u}]', '{u}%{u}', '{u}//{u}',
       '{u}@{u}', '~{u}', '{u}&{u}', '{u}<{u}', 'None',
       '...', '*{u}', '{u}, ']


@st.composite
def bad_case(draw):
    return {'s': draw(st.sampled_from(BAD)),
            'u': draw(st.sampled_from(NAMES)),
            'a': draw(st.sampled_from(['asNumber', '__class__', '_value',
                                       'unit'])),
            'f': draw(st.sampled_from(['print', 'probe', 'open', 'eval',
                                       'exec', 'abs', 'int', 'vars'])),
            'z': draw(st.sampled_from(['meter', 'foo', 'MM2', 'inches', 'xx',
                                       'kgs', 'm2s', 'µ', 'Metre']))}


def run_bad(c, rec):
    s = c['s'].format(**c)
    rec.label(c['s'])
    if '%' in s or 'True' in s:
        # arithmetic some implementation could understand: only units allowed
        pass
    called = []
    saved = {}

    def stand_in(name):
        def f(*a, **k):
            called.append(name)
            return 1
        return f
    # record-only stand-ins for what the string would call
    orig = {}
    for nm in (c['f'],):
        if nm in ('eval', 'exec', 'int', 'abs', 'open', 'vars'):
            # needed by make_unit itself
            continue
        orig[nm] = getattr(builtins, nm, None)
        setattr(builtins, nm, stand_in(nm))
    try:
        try:
            r = make_unit(s)
        except Exception:
            r = None
    finally:
        for nm, o in orig.items():
            if o is None:
                delattr(builtins, nm)
            else:
                setattr(builtins, nm, o)
    check(not called, 'make_unit({!r}) called {}', s, called)
    check(r is None, 'make_unit({!r}) accepted, gave {!r}', s, r)


def run_empty(c, rec):
    u = make_unit('')
    check(isinstance(u, unum.Unum), "make_unit('') gave {!r}", u)
    same_unit(u, unum.Unum({}), 'empty unit')
    n = c['n']
    close((n*u).asNumber(), n, 'number times the empty unit')
    same_unit(make_unit(c['u'])*u, make_unit(c['u']), 'product with no unit')


@st.composite
def soup_case(draw):
    toks = draw(st.lists(st.sampled_from(
        ['m', 's', 'kg', '*', '/', '**', '^', '(', ')', '2', '.5', ',', '.',
         '()', '*', '/']), min_size=1, max_size=8))
    return {'t': toks, 'sp': draw(st.booleans())}


def run_soup(c, rec):
    s = ''
    for t in c['t']:
        if s and (c['sp'] or (s[-1].isalnum() and t[0].isalnum())):
            s += ' '
        s += t
    try:
        tree = ast.parse(s.replace('^', '**').strip(), mode='eval')
        good = all(isinstance(n, (ast.Expression, ast.BinOp, ast.Name,
                                  ast.Constant, ast.Mult, ast.Div, ast.Pow,
                                  ast.Load)) for n in ast.walk(tree))
    except SyntaxError:
        good = False
    if good:
        rec.mark_trivial()
        return
    try:
        r = make_unit(s)
    except Exception:
        return
    fail('make_unit({!r}) accepted, gave {!r}', s, r)


SUBS = [
    Sub('expressions', good_case(), run_good,
        'the size of the unit is representable', 900),
    Sub('names', st.sampled_from(ALL).map(lambda n: {'n': n}), run_names,
        'every unit name', 300),
    Sub('refused', bad_case(), run_bad, 'every refused text', 600),
    Sub('malformed', soup_case(), run_soup,
        'the text is no expression of units', 900),
    Sub('empty', st.fixed_dictionaries({'n': g.number(), 'u':
                                        st.sampled_from(NAMES)}), run_empty,
        'every case', 60),
]
