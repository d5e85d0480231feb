"""C08: Profile, the container: points stay together, arithmetic, equality."""
import numpy as np
from hypothesis import strategies as st

from harness.core import (Sub, check, close, same_bool, same_unit, fail,
                          expect_raises)
from harness import gens as g
from IMTreatment import Profile, make_unit

ASSUMPTIONS = ['profiles combined together share their x axis and x unit',
               'points of equal x may come in any order',
               'products of two profiles are checked from two points']


class P(object):
    """Reference profile: points (x, y or NaN) sorted by x."""

    def __init__(self, x, y, ux, uy, name=''):
        x, y = np.array(x, dtype=float), np.array(y, dtype=float)
        o = np.argsort(x, kind='mergesort')
        self.x, self.y = x[o], y[o]
        self.ux, self.uy, self.name = make_unit(ux) if isinstance(ux, str) \
            else ux, make_unit(uy) if isinstance(uy, str) else uy, name

    @classmethod
    def of_case(cls, c):
        y = np.array(c['y'], dtype=float)
        if c['m'] is not None:
            y[np.array(c['m'], dtype=bool)] = np.nan
        return cls(c['x'], y, c['ux'], c['uy'], c['name'])

    def copy(self):
        return P(self.x.copy(), self.y.copy(), self.ux, self.uy, self.name)


def canon(x, y):
    """Points in an order independent of how ties were broken."""
    k = np.where(np.isnan(y), np.inf, y)
    o = np.lexsort((k, x))
    return x[o], y[o]


def same_prof(p, m, what, rtol=1e-9, units=True, name=None, physical=False,
              yscale=None):
    check(isinstance(p, Profile), "{}: gave {!r}", what, type(p))
    px, py, pm = np.array(p.x), np.array(p.y, dtype=float), np.array(p.mask)
    check(px.ndim == 1 and px.shape == py.shape == pm.shape,
          "{}: x, y, mask of shapes {} {} {}", what, px.shape, py.shape,
          pm.shape)
    check(pm.dtype == bool, "{}: mask dtype {}", what, pm.dtype)
    check(np.all(np.diff(px) >= 0), "{}: x not ascending: {}", what, px)
    same_bool(pm, np.isnan(py), what + ': mask against y')
    my = m.y
    if physical:
        try:
            k = float((m.uy/p.unit_y).asNumber(1))
        except Exception:
            fail('{}: y unit {} instead of {}', what, p.unit_y, m.uy)
        my = my*k
    elif units:
        same_unit(p.unit_y, m.uy, what + ': y unit')
    if units:
        same_unit(p.unit_x, m.ux, what + ': x unit')
    check(len(px) == len(m.x), "{}: {} points instead of {}: {} {}", what,
          len(px), len(m.x), px.tolist(), m.x.tolist())
    cx, cy = canon(px, py)
    ex, ey = canon(m.x, my)
    close(cx, ex, what + ': x', rtol)
    close(cy, ey, what + ': y', rtol, scale=yscale)
    if name is not None:
        check(p.name == name, "{}: name {!r} instead of {!r}", what, p.name,
              name)


# ---------------------------------------------------------------- constructor
@st.composite
def build_case(draw):
    c = draw(g.prof_case(min_size=1, max_size=9, shuffled=True))
    n = len(c['x'])
    c['nan'] = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
    c['how'] = draw(st.sampled_from(['array', 'list', 'masked', 'flag', 'int',
                                     'masked+mask', 'tuple']))
    c['setter'] = draw(st.booleans())
    c['unitobj'] = draw(st.booleans())
    return c


def run_build(c, rec):
    o = np.array(c['order'])
    x, y = np.array(c['x'])[o], np.array(c['y'], dtype=float)[o]
    m = np.zeros(len(x), bool) if c['m'] is None else np.array(c['m'], bool)[o]
    how = c['how']
    rec.label(how, 'masked' if m.any() else 'clear')
    if len(x) > 1 and not np.all(np.diff(o) > 0):
        rec.label('unsorted input')
    else:
        rec.mark_trivial()
    nan = np.array(c['nan']) == 0
    if how == 'int':
        y = np.round(y)
    elif not how.startswith('masked'):
        y = np.where(nan, np.nan, y)
        m2 = m | nan
    if how in ('int', 'masked', 'masked+mask'):
        m2 = m.copy()
    y0 = np.where(m2, np.nan, y)
    ux, uy = c['ux'], c['uy']
    if c['unitobj']:
        ux, uy = make_unit(ux), make_unit(uy)
    kw = dict(unit_x=ux, unit_y=uy, name=c['name'])
    if how == 'array' or how == 'int':
        yy = y.astype(int) if how == 'int' and np.all(np.abs(y) < 2**40) else y
        src = [x.copy(), yy.copy(), m.copy()]
        p = Profile(src[0], src[1], mask=src[2], **kw)
    elif how == 'list':
        src = [x.tolist(), y.tolist(), m.tolist()]
        p = Profile(src[0], src[1], mask=src[2], **kw)
    elif how == 'tuple':
        src = []
        p = Profile(tuple(x), tuple(y), mask=tuple(m), **kw)
    elif how == 'masked':
        src = [x.copy(), np.ma.masked_array(y.copy(), m.copy())]
        p = Profile(src[0], src[1], **kw)
    elif how == 'masked+mask':
        m3 = nan
        src = [x.copy(), np.ma.masked_array(y.copy(), m.copy()), m3.copy()]
        p = Profile(src[0], src[1], mask=src[2], **kw)
        m2 = m | m3
        y0 = np.where(m2, np.nan, y)
    elif how == 'flag':
        allm = bool(c['nan'][0] % 2)
        src = []
        p = Profile(x, y, mask=allm, **kw)
        m2 = np.isnan(y) | allm
        y0 = np.where(m2, np.nan, y)
    ref = P(x, y0, c['ux'], c['uy'], c['name'])
    same_prof(p, ref, 'constructor', name=c['name'])
    check(len(p) == len(x), 'len()')
    # the caller's arrays are not shared
    for s in src:
        if isinstance(s, list):
            for i in range(len(s)):
                s[i] = 1
        else:
            s[...] = 77
    same_prof(p, ref, 'after the source arrays changed')
    if not len(x):
        return
    # setters
    if c['setter']:
        y1 = ref.y[::-1].copy()
        my = np.ma.masked_array(np.where(np.isnan(y1), 5., y1), np.isnan(y1)) \
            if c['nan'][0] == 1 else y1.copy()
        p.y = my
        my[...] = -3.
        same_prof(p, P(ref.x, y1, c['ux'], c['uy']), 'y setter')
        nx = -ref.x
        p.x = nx
        ref2 = P(nx, y1, c['ux'], c['uy'])
        same_prof(p, ref2, 'x setter')
        nx[...] = 0
        o = np.argsort(-ref.x)
        mm = nan | np.isnan(y1[o])
        p.mask = mm
        mm[...] = True
        y2 = np.where(nan, np.nan, y1[o])
        same_prof(p, P((-ref.x)[o], y2, c['ux'], c['uy']), 'mask setter')
        expect_raises(lambda: setattr(p, 'x', [1.]*(len(x) + 1)),
                      'x of another length')
        same_prof(p, P((-ref.x)[o], y2, c['ux'], c['uy']),
                  'after a rejected x')
        p.unit_x = 'kg'
        p.unit_y = make_unit('K')
        same_prof(p, P((-ref.x)[o], y2, 'kg', 'K'), 'unit setters')


# ------------------------------------------------------------- sequences
@st.composite
def seq_case(draw):
    c = draw(g.prof_case(min_size=2, max_size=6))
    if draw(st.integers(0, 8)) == 0:
        c['x'], c['y'], c['m'] = [], [], None
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(['add', 'add', 'adds', 'remove', 'remove',
                                  'copy', 'nans', 'mask', 'adds_bad']))
        if k == 'add':
            ops.append([k, draw(g.quarter(-20, 20)),
                        draw(st.one_of(g.number(), st.just(None)))])
        elif k == 'adds':
            q = draw(g.prof_case(min_size=2, max_size=5))
            ops.append([k, q['x'], q['y'], q['m']])
        elif k == 'mask':
            ops.append([k, draw(st.integers(0, 50))])
        else:
            ops.append([k, draw(st.integers(0, 50))])
    c['ops'] = ops
    return c


def run_seq(c, rec):
    p = g.build_prof(c)
    m = P.of_case(c)
    same_prof(p, m, 'start')
    old = []
    n_eff = 0
    for op in c['ops']:
        k = op[0]
        what = '{} of {}'.format(k, [o[0] for o in c['ops']])
        if k == 'add':
            v = np.nan if op[2] is None else float(op[2])
            # x of one point only: no tie
            xv = float(op[1])
            p.add_point(xv, v)
            m = P(np.append(m.x, xv), np.append(m.y, v), m.ux, m.uy, m.name)
            n_eff += 1
        elif k in ('adds', 'adds_bad'):
            if k == 'adds_bad':
                if not len(m.x):
                    continue
                q = Profile([0., 1.], [1., 2.], unit_x=m.ux*make_unit('kg'),
                            unit_y=m.uy)
                expect_raises(lambda: p.add_points(q),
                              'points of another dimension')
            else:
                yq = np.array(op[2], dtype=float)
                if op[3] is not None:
                    yq[np.array(op[3], dtype=bool)] = np.nan
                q = Profile(op[1], yq, unit_x=m.ux, unit_y=m.uy)
                q0 = P(op[1], yq, m.ux, m.uy)
                p.add_points(q)
                m = P(np.append(m.x, q0.x), np.append(m.y, q0.y), m.ux, m.uy,
                      m.name)
                same_prof(q, q0, what + ': the added profile')
                old.append((q, q0))
                n_eff += 1
        elif k == 'remove':
            if len(m.x) < 2:
                continue
            i = int(op[1]) % len(m.x)
            px = np.array(p.x)
            rm = (px[i], np.array(p.y, dtype=float)[i])
            p.remove_point(i)
            hit = [j for j in range(len(m.x)) if m.x[j] == rm[0] and
                   (m.y[j] == rm[1] or (np.isnan(m.y[j]) and
                                        np.isnan(rm[1])))]
            check(len(hit) > 0, '{}: unknown point {}', what, rm)
            check(m.x[i] == rm[0], '{}: point {} is at {} instead of {}', what,
                  i, rm[0], m.x[i])
            m = P(np.delete(m.x, hit[0]), np.delete(m.y, hit[0]), m.ux, m.uy,
                  m.name)
            n_eff += 1
        elif k == 'copy':
            q = p.copy()
            same_prof(q, m, what, name=m.name)
            check(q == p, '{}: copy differs from its original', what)
            old.append((p, m))
            p = q
        elif k == 'nans':
            if op[1] % 3 or not np.any(~np.isnan(m.y)):
                continue
            q = p.remove_nans()
            k2 = ~np.isnan(m.y)
            same_prof(p, m, what + ': original')
            old.append((p, m))
            p = q
            m = P(m.x[k2], m.y[k2], m.ux, m.uy, m.name)
        elif k == 'mask':
            if not len(m.x):
                continue
            i = int(op[1]) % len(m.x)
            mk = np.array(p.mask)
            px, py = np.array(p.x), np.array(p.y, dtype=float)
            mk[i] = True
            p.mask = mk
            py[i] = np.nan
            m = P(px, py, m.ux, m.uy, m.name)
        same_prof(p, m, what, name=m.name)
        for q, q0 in old:
            same_prof(q, q0, what + ': another profile')
    rec.label('{} effective ops'.format(n_eff))
    if n_eff < 2:
        rec.mark_trivial()


# ---------------------------------------------------------------- arithmetic
@st.composite
def arith_case(draw):
    c = draw(g.prof_case(min_size=2, max_size=8))
    n = len(c['x'])
    c['op'] = draw(st.sampled_from(
        ['num+', '+num', 'num-', '-num', 'num*', '*num', 'num/', 'neg', 'pow',
         'unum+', 'unum-', 'unum*', 'unum/', 'prof+', 'prof-', 'prof*',
         'prof/', 'prof+', 'prof-', 'prof*', 'prof/', 'bad']))
    c['k'] = draw(g.nonzero())
    c['pw'] = draw(st.sampled_from([0, 1, 2, 3, -1, 0.5, 2.5]))
    c['y2'] = draw(st.lists(g.number(-9, 9), min_size=n, max_size=n))
    c['m2'] = draw(st.one_of(st.none(), st.lists(st.integers(0, 1), min_size=n,
                                                 max_size=n)))
    fam = draw(g.unit_pair())
    if c['op'] in ('prof+', 'prof-', 'unum+', 'unum-', 'unum*', 'unum/',
                   'prof*', 'prof/'):
        c['uy'], c['u2'] = fam
    else:
        c['u2'] = draw(g.unit_any())
    return c


def run_arith(c, rec):
    op = c['op']
    rec.label(op)
    if c['m'] is not None or c['m2'] is not None:
        rec.label('masked')
    p = g.build_prof(c)
    m = P.of_case(c)
    k = float(c['k'])
    u1, u2 = make_unit(c['uy']), make_unit(c['u2'])
    r2 = None
    try:
        fact = float((u2/u1).asNumber(1))
    except Exception:
        fact = None
    y2 = np.array(c['y2'], dtype=float)
    m2 = None if c['m2'] is None else np.array(c['m2'], bool)
    if m2 is not None:
        y2 = np.where(m2, np.nan, y2)
    q = Profile(c['x'], np.array(c['y2'], dtype=float),
                mask=False if m2 is None else m2, unit_x=c['ux'],
                unit_y=c['u2'])
    q0 = P(c['x'], y2, c['ux'], c['u2'])
    e = m.copy()
    name = m.name
    if op == 'num+':
        r, e.y = p + k, m.y + k
    elif op == '+num':
        r, e.y = k + p, m.y + k
    elif op == 'num-':
        r, e.y = p - k, m.y - k
    elif op == '-num':
        r, e.y = k - p, k - m.y
    elif op == 'num*':
        r, e.y = p*k, m.y*k
    elif op == '*num':
        r, e.y = k*p, m.y*k
    elif op == 'num/':
        r, e.y = p/k, m.y/k
    elif op == 'neg':
        r, e.y = -p, -m.y
    elif op == 'pow':
        pw = c['pw']
        y = m.y
        if pw != int(pw) or pw < 0:
            # stay on positive values
            c2 = dict(c, y=[abs(v) + 1. for v in c['y']])
            p, m = g.build_prof(c2), P.of_case(c2)
            e, y = m.copy(), m.y
        r = p**pw
        e.y = np.where(np.isnan(y), np.nan, np.power(y, float(pw)))
        e.uy = u1**pw
    elif op == 'unum+':
        r, e.y = p + k*u2, m.y + k*fact
    elif op == 'unum-':
        r, e.y = p - k*u2, m.y - k*fact
    elif op == 'unum*':
        r, e.y, e.uy = p*(k*u2), m.y*k, u1*u2
    elif op == 'unum/':
        r, e.y, e.uy = p/(k*u2), m.y/k, u1/u2
    elif op in ('prof+', 'prof-'):
        s = 1 if op == 'prof+' else -1
        r = p + q if s == 1 else p - q
        e.y = m.y + s*y2*fact
        name = None
    elif op == 'prof*':
        r, e.y, e.uy = p*q, m.y*y2, u1*u2
        name = None
    elif op == 'prof/':
        with np.errstate(all='ignore'):
            e.y = np.where(y2 == 0, np.nan, m.y/np.where(y2 == 0, 1, y2))
        e.uy = u1/u2
        r = p/q
        name = None
    elif op == 'bad':
        other = u1*make_unit('kg')
        expect_raises(lambda: p + k*other, 'quantity of another dimension')
        expect_raises(lambda: p + Profile(c['x'], c['y2'], unit_x=c['ux'],
                                          unit_y=other),
                      'profile of another dimension')
        expect_raises(lambda: p - Profile(c['x'], c['y2'],
                                          unit_x=m.ux*make_unit('kg'),
                                          unit_y=c['uy']),
                      'x axis of another dimension')
        sh = np.array(c['x'], dtype=float)
        d = np.min(np.diff(sh))/3
        i = int(abs(k)*4) % len(sh)
        sh[i] += d if k > 0 else -d
        bad = Profile(sh, c['y2'], unit_x=c['ux'], unit_y=c['uy'])
        if np.abs(d) > 1e-3*np.mean(np.abs(sh)):
            for nm, f in [('sum', lambda: p + bad), ('product', lambda: p*bad),
                          ('difference', lambda: p - bad),
                          ('quotient', lambda: p/bad)]:
                expect_raises(f, nm + ' of profiles on different x')
        expect_raises(lambda: p + 'a', 'adding a string')
        same_prof(p, m, 'after rejected operations', name=m.name)
        return
    sc = None
    if op in ('prof+', 'prof-', 'unum+', 'unum-'):
        fin = np.concatenate([m.y[np.isfinite(m.y)],
                              y2[np.isfinite(y2)]*fact, [k*fact]])
        sc = np.max(np.abs(fin)) if fin.size else 1.
    # physical comparison: the y unit may be any unit of that dimension
    ku = None
    try:
        ku = float((e.uy/r.unit_y).asNumber(1))
    except Exception:
        fail('{}: y unit {} instead of {}', op, r.unit_y, e.uy)
    same_prof(r, e, op, physical=True,
              yscale=None if sc is None else sc*abs(ku), name=name)
    if not np.any(~np.isnan(e.y)):
        rec.mark_trivial()
    same_prof(p, m, op + ': first operand', name=m.name)
    same_prof(q, q0, op + ': second operand')
    # results share nothing with the operands
    if len(r.x):
        r.x[0] -= 3.
        r.y[:] = 4.
        r.mask[:] = True
        same_prof(p, m, op + ': operand after the result changed')
        same_prof(q, q0, op + ': operand after the result changed')


# ------------------------------------------------------- equality, statistics
@st.composite
def eq_case(draw):
    c = draw(g.prof_case(min_size=2, max_size=8))
    c['what'] = draw(st.sampled_from(['x', 'y', 'mask', 'ux', 'uy', 'len',
                                      'type', 'same']))
    c['i'] = draw(st.integers(0, 7))
    c['pert'] = draw(st.sampled_from([1., -1., 1e-3, 1e-7]))
    return c


def run_eq(c, rec):
    p = g.build_prof(c)
    m = P.of_case(c)
    rec.label(c['what'])
    n = len(m.x)
    # statistics
    v = m.y[~np.isnan(m.y)]
    sc = np.max(np.abs(v))
    close(p.min, np.min(v), 'min')
    close(p.max, np.max(v), 'max')
    close(p.mean, np.sum(v)/len(v), 'mean', scale=sc)
    # equality
    q = g.build_prof(c)
    check(p == q and q == p, 'equal profiles compare different')
    i = c['i'] % n
    c2 = dict(c)
    if c['what'] == 'same':
        # the value under the mask does not count
        if c['m'] is not None:
            c2['y'] = [yy + 1 if mm else yy for yy, mm in zip(c['y'], c['m'])]
            q = g.build_prof(c2)
            check(p == q, 'hidden values count in ==')
        return
    if c['what'] == 'type':
        check(not (p == 3) and not (p == None) and not (p == 'a'),  # noqa
              'equal to something else')
        return
    if c['what'] == 'len':
        c2['x'], c2['y'] = list(c['x'][:-1]), list(c['y'][:-1])
        if c['m'] is not None:
            c2['m'] = list(c['m'][:-1])
        if n < 3:
            return
    elif c['what'] in ('x', 'y'):
        if c['m'] is not None and c['m'][i]:
            rec.mark_trivial()
            return
        vals = list(np.array(c[c['what']], dtype=float))
        if c['what'] == 'x':
            gap = np.min(np.diff(np.sort(vals)))
            new = vals[i] + c['pert']*gap/4
        else:
            new = vals[i] + c['pert']*max(abs(vals[i]), 1e-3)
        if new == vals[i]:
            rec.mark_trivial()
            return
        vals[i] = new
        c2[c['what']] = vals
    elif c['what'] == 'mask':
        mm = [0]*n if c['m'] is None else list(c['m'])
        mm[i] = 1 - mm[i]
        c2['m'] = mm
    elif c['what'] in ('ux', 'uy'):
        u = make_unit(c[c['what']])
        other = u*make_unit('kg') if c['i'] % 2 else None
        q = g.build_prof(c)
        if other is None:
            other = u*1000
        setattr(q, 'unit_x' if c['what'] == 'ux' else 'unit_y', other)
        check(not (p == q) and not (q == p),
              'profiles with units {} and {} compare equal', u, other)
        return
    q = g.build_prof(c2)
    check(not (p == q) and not (q == p),
          'profiles differing in {} compare equal', c['what'])


SUBS = [
    Sub('build', build_case(), run_build,
        'points supplied in a non-ascending order', 600),
    Sub('sequence', seq_case(), run_seq,
        'at least two effective additions or removals', 700),
    Sub('arithmetic', arith_case(), run_arith,
        'the result has an unmasked point', 900),
    Sub('equality', eq_case(), run_eq,
        'the perturbed point is visible and really changed', 500),
]
