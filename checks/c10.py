"""C10: Points and OrientedPoints: clouds of points with values."""
import numpy as np
from hypothesis import strategies as st

from harness.core import (Sub, check, close, same_unit, fail, expect_raises)
from harness import gens as g
from checks.c08 import P, same_prof
from checks.c09 import ref_smooth
from IMTreatment import (Points, OrientedPoints, make_unit, ScalarField,
                         TemporalScalarFields)

ASSUMPTIONS = ['added clouds both have values, or both have none',
               'points of equal sorting key may come in any order',
               'values merged by remove_doublons are exactly equal, others '
               'well separated',
               'clusters, hulls and densities are checked on the cloud as a '
               'set of points in general position']


class M(object):
    """Reference cloud."""

    def __init__(self, xy, v, ux, uy, uv, ori=None, name=''):
        self.xy = np.array(xy, dtype=float).reshape((-1, 2))
        self.v = None if v is None else np.array(v, dtype=float)
        self.ori = None if ori is None else np.array(ori, dtype=float)
        self.ux, self.uy, self.uv = [make_unit(u) if isinstance(u, str) else u
                                     for u in (ux, uy, uv)]
        self.name = name

    def copy(self):
        return M(self.xy, self.v, self.ux, self.uy, self.uv, self.ori,
                 self.name)

    def take(self, k):
        k = np.asarray(k)
        if k.size == 0:
            k = k.astype(int)
        return M(self.xy[k], None if self.v is None else self.v[k], self.ux,
                 self.uy, self.uv, None if self.ori is None else self.ori[k],
                 self.name)


def same_pts(p, m, what, rtol=1e-9, units=True, scale=None, order=True):
    check(isinstance(p, OrientedPoints if m.ori is not None else Points),
          '{}: gave {!r}', what, type(p))
    xy = np.array(p.xy, dtype=float)
    check(xy.ndim == 2 and xy.shape[1] == 2, '{}: xy of shape {}', what,
          xy.shape)
    check(len(p) == len(m.xy), '{}: {} points instead of {}', what, len(p),
          len(m.xy))
    v = np.array(p.v, dtype=float)
    if m.v is None:
        check(len(v) == 0, '{}: values {} from nowhere', what, v)
    else:
        check(len(v) == len(m.v), '{}: {} values for {} points', what, len(v),
              len(m.v))
    close(xy, m.xy, what + ': coordinates', rtol,
          scale=scale or (np.nanmax(np.abs(m.xy)) if m.xy.size and not
                          np.all(np.isnan(m.xy)) else 1.))
    if m.v is not None:
        close(v, m.v, what + ': values', rtol)
    if m.ori is not None and len(m.xy):
        close(p.orientations, m.ori, what + ': orientations', rtol, scale=10.)
    if units:
        same_unit(p.unit_x, m.ux, what + ': x unit')
        same_unit(p.unit_y, m.uy, what + ': y unit')
        if m.v is not None:
            same_unit(p.unit_v, m.uv, what + ': value unit')


@st.composite
def cloud(draw, min_size=0, max_size=7, v=None, oriented=None, co=None):
    co = co or g.quarter(-20, 20)
    n = draw(st.integers(min_size, max_size))
    xy = [[draw(co), draw(co)] for _ in range(n)]
    if v is None:
        v = draw(st.booleans())
    c = {'xy': xy, 'v': [draw(g.number(-9, 9)) for _ in range(n)] if v
         else None, 'ux': draw(g.unit_len()), 'uy': draw(g.unit_len()),
         'uv': draw(g.unit_any()), 'name': draw(st.sampled_from(['', 'pts']))}
    if oriented is None:
        oriented = draw(st.integers(0, 2)) == 0
    c['d'] = draw(st.integers(1, 2)) if oriented else 0
    c['ori'] = [[[draw(g.quarter(-4, 4)), draw(g.quarter(-4, 4))]
                 for _ in range(c['d'])] for _ in range(n)] if oriented \
        else None
    return c


def build(c, how='array'):
    xy = np.array(c['xy'], dtype=float).reshape((-1, 2))
    v = [] if c['v'] is None else c['v']
    kw = dict(unit_x=c['ux'], unit_y=c['uy'], unit_v=c['uv'], name=c['name'])
    if c['ori'] is not None:
        if not len(xy):
            return OrientedPoints(**kw)
        return OrientedPoints(xy, np.array(c['ori'], dtype=float),
                              v=np.array(v, dtype=float), **kw)
    if how == 'list':
        return Points(xy.tolist(), v=list(v), **kw)
    return Points(xy, v=np.array(v, dtype=float), **kw)


def model(c):
    ori = c['ori']
    if ori is not None:
        ori = np.array(ori, dtype=float).reshape((len(c['xy']), c['d'], 2))
    return M(c['xy'], c['v'], c['ux'], c['uy'], c['uv'], ori, c['name'])


# ------------------------------------------------------------------ sequences
OPS = ['add', 'add', 'remove', 'remove', 'crop', 'cut', 'sort', 'plus', 'plus',
       'copy', 'origin', 'reverse', 'rotate', 'scale', 'unit', 'nans', 'set',
       'bad']

ONE = ['crop', 'crop', 'crop', 'crop', 'cut', 'cut', 'sort', 'sort', 'remove',
       'plus', 'scale', 'set', 'unit']


@st.composite
def seq_case(draw, one=False):
    c = draw(cloud(min_size=2) if one else cloud())
    c.update(ux=c['ux'] or 'm', uy=c['uy'] or 'm')
    ops = []
    for _ in range(1 if one else draw(st.integers(1, 6))):
        k = draw(st.sampled_from(ONE if one else OPS))
        a = [draw(g.quarter(-20, 20)) for _ in range(2)]
        op = {'k': k, 'a': a, 'i': draw(st.integers(0, 40)),
              'b': sorted([draw(g.quarter(-20, 20)) for _ in range(2)]),
              'v': draw(g.number(-9, 9)), 'inplace': draw(st.booleans()),
              'w': draw(st.sampled_from(['x', 'y', 'v', 'xy', 'xyv']))}
        if c['ori'] is not None:
            op['ori'] = [[draw(g.quarter(-4, 4)), draw(g.quarter(-4, 4))]
                         for _ in range(c['d'])]
        if k == 'plus':
            o = draw(cloud(v=c['v'] is not None, oriented=False, max_size=4))
            o['d'] = c['d']
            o.update(ux=o['ux'] or 'm', uy=o['uy'] or 'm')
            if c['ori'] is not None:
                o['ori'] = [[[draw(g.quarter(-4, 4)), draw(g.quarter(-4, 4))]
                             for _ in range(c['d'])] for _ in o['xy']]
            op['o'] = o
            op['du'] = draw(st.booleans())
        if k == 'rotate':
            op['angle'] = draw(st.floats(-4, 4))
        if k == 'scale':
            op['s'] = [draw(g.nonzero()) for _ in range(3)]
        ops.append(op)
    c['ops'] = ops
    c['how'] = draw(st.sampled_from(['array', 'list']))
    return c


def step(p, m, op, rec, others):
    """Apply one operation; give the new object and model."""
    k = op['k']
    n = len(m.xy)
    what = k
    if k == 'add':
        args = [list(op['a'])]
        kw = {}
        if m.ori is not None:
            args.append(op['ori'])
        if m.v is not None:
            kw['v'] = float(op['v'])
        p.add(*args, **kw)
        m = M(np.append(m.xy, [op['a']], axis=0),
              None if m.v is None else np.append(m.v, op['v']), m.ux, m.uy,
              m.uv, None if m.ori is None else
              (np.append(m.ori, [op['ori']], axis=0) if n else [op['ori']]),
              m.name)
    elif k == 'remove':
        if n == 0:
            return p, m
        ind = sorted({op['i'] % n, (op['i']//3) % n})
        if op['w'] == 'x':
            arg, gone = int(ind[0]), ind[:1]
        elif op['w'] == 'y':
            arg, gone = np.array(ind), ind
        else:
            arg, gone = [int(i) for i in ind], ind
        p.remove(arg)
        m = m.take([i for i in range(n) if i not in gone])
    elif k in ('crop', 'cut'):
        kw = {}
        lo, hi = op['b']
        keep = np.ones(n, bool)
        inz = np.ones(n, bool)
        with np.errstate(invalid='ignore'):
            pxy = np.array(p.xy, dtype=float).reshape((-1, 2))
            for ax, key in ((pxy[:, 0], 'x'), (pxy[:, 1], 'y'),
                            (None if m.v is None else np.array(p.v), 'v')):
                if key not in op['w'] or (key == 'v' and k == 'cut'):
                    continue
                lo, hi = op['b']
                if ax is None:
                    ax = np.full(n, .5*(lo + hi))
                elif n and op['i'] % 3 == 1:
                    # bounds on a point
                    hi = ax[op['i'] % n]
                    lo = min(lo, hi)
                elif n and op['i'] % 3 == 2:
                    lo = ax[op['i'] % n]
                    hi = max(lo, hi)
                if np.isnan(lo + hi):
                    lo, hi = op['b']
                kw['interv' + key] = [float(lo), float(hi)]
                keep &= ~((ax < lo) | (ax > hi))
                inz &= (ax > lo) & (ax < hi)
        if not kw:
            return p, m
        if k == 'crop':
            if op['inplace']:
                p.crop(inplace=True, **kw)
            else:
                q = p.crop(inplace=False, **kw)
                others.append((p, m))
                p = q
            m = m.take(np.where(keep)[0])
        else:
            q = p.cut(**kw)
            others.append((p, m))
            p, m = q, m.take(np.where(~inz)[0])
    elif k == 'sort':
        if n == 0:
            return p, m
        if op['w'] == 'v' and m.v is None:
            expect_raises(lambda: p.sort(ref='v'), 'sorting by missing values')
            return p, m
        if op['w'] in ('x', 'y', 'v'):
            ref = op['w']
            key = {'x': m.xy[:, 0], 'y': m.xy[:, 1], 'v': m.v}[ref]
        else:
            ref = [(i + op['i']) % n for i in range(n)]
            key = None
        if op['inplace']:
            p.sort(ref=ref, inplace=True)
        else:
            q = p.sort(ref=ref)
            others.append((p, m))
            p = q
        if key is None:
            m = m.take(ref)
        else:
            check(len(p) == n, 'sort: {} points', len(p))
            check(m.v is None or len(p.v) == n, 'sort: values lost')
            # the order of equal keys is free: match rows
            left = list(range(n))
            new = []
            for i in range(n):
                for j in left:
                    if np.array_equal(p.xy[i], m.xy[j], equal_nan=True) and \
                            (m.v is None or p.v[i] == m.v[j]) and \
                            (m.ori is None or
                             np.array_equal(p.orientations[i], m.ori[j])):
                        new.append(j)
                        left.remove(j)
                        break
                else:
                    fail('sort: row {} {} is not one of the points', p.xy[i],
                         p.v)
            m = m.take(new)
            key = key[new]
            kk = key[~np.isnan(key)]
            check(np.all(np.diff(kk) >= 0), 'sort {}: {}', ref, key)
    elif k == 'plus':
        o = dict(op['o'])
        if not op['du']:
            o.update(ux='m', uy='m')
        # same dimension for the values
        q = build(o)
        q.unit_v = m.uv*(1000 if op['inplace'] else 1)
        mo = model(o)
        mo.uv = m.uv*(1000 if op['inplace'] else 1)
        r = p + q
        others += [(p, m), (q, mo)]
        if len(mo.xy) == 0:
            e = m.copy()
            if n == 0:
                e.ux, e.uy, e.uv = r.unit_x, r.unit_y, r.unit_v
        elif n == 0:
            e = mo.copy()
        else:
            fx, fy = [float((b/a).asNumber(1)) for a, b in
                      ((m.ux, mo.ux), (m.uy, mo.uy))]
            fv = 1000. if op['inplace'] else 1.
            e = M(np.append(m.xy, mo.xy*[fx, fy], axis=0),
                  None if m.v is None else np.append(m.v, mo.v*fv), m.ux,
                  m.uy, m.uv, None if m.ori is None else
                  np.append(m.ori, mo.ori, axis=0), '')
        p, m = r, e
        m.name = r.name
    elif k == 'copy':
        q = p.copy()
        check(q.name == m.name, 'copy: name')
        if n and not np.isnan(m.xy).any() and \
                (m.v is None or not np.isnan(m.v).any()):
            check(q == p, 'copy differs from its original')
        others.append((p, m))
        p, m = q, m.copy()
    elif k == 'origin':
        m = m.copy()
        kw = {}
        if 'x' in op['w']:
            kw['x'] = float(op['a'][0])
            m.xy[:, 0] -= op['a'][0]
        if 'y' in op['w']:
            kw['y'] = float(op['a'][1])
            m.xy[:, 1] -= op['a'][1]
        p.set_origin(**kw)
    elif k == 'reverse':
        if n == 0:
            return p, m
        q = p.reverse()
        others.append((p, m))
        m = M(m.xy[:, ::-1], m.v, m.uy, m.ux, m.uv,
              None if m.ori is None else m.ori[:, :, ::-1], m.name)
        p = q
    elif k == 'rotate':
        if n == 0:
            return p, m
        ca, sa = np.cos(op['angle']), np.sin(op['angle'])
        R = np.array([[ca, -sa], [sa, ca]])
        e = m.copy()
        e.xy = m.xy.dot(R.T)
        if m.ori is not None:
            e.ori = m.ori.dot(R.T)
        if op['inplace']:
            p.rotate(op['angle'], inplace=True)
        else:
            q = p.rotate(op['angle'])
            others.append((p, m))
            p = q
        m = e
    elif k == 'scale':
        if m.ori is not None:
            return p, m
        s = [float(x) for x in op['s']]
        e = m.copy()
        e.xy = m.xy*s[:2]
        kw = dict(scalex=s[0], scaley=s[1])
        if m.v is not None:
            e.v = m.v*s[2]
            kw['scalev'] = s[2]
        if op['inplace']:
            p.scale(inplace=True, **kw)
        else:
            q = p.scale(**kw)
            others.append((p, m))
            p = q
        m = e
    elif k == 'unit':
        m = m.copy()
        u = make_unit(['m', 'mm', 'km', 'um'][op['i'] % 4])
        try:
            m.ux + u, m.uy + u
        except Exception:
            return p, m
        if 'x' in op['w']:
            p.change_unit('x', u)
            m.xy[:, 0] *= float((m.ux/u).asNumber(1))
            m.ux = u
        if 'y' in op['w']:
            p.change_unit('y', u)
            m.xy[:, 1] *= float((m.uy/u).asNumber(1))
            m.uy = u
    elif k == 'nans':
        if n == 0:
            return p, m
        i = op['i'] % n
        m = m.copy()
        p.xy[i, op['i'] % 2] = np.nan
        m.xy[i, op['i'] % 2] = np.nan
        if m.v is not None and op['i'] % 3 == 0:
            j = (i + 1) % n
            p.v[j] = np.nan
            m.v[j] = np.nan
        bad = np.isnan(m.xy).any(axis=1)
        if m.v is not None:
            bad |= np.isnan(m.v)
        if op['inplace']:
            p.remove_nans(inplace=True)
        else:
            q = p.remove_nans()
            others.append((p, m))
            p = q
        m = m.take(np.where(~bad)[0])
    elif k == 'set':
        # assigning arrays copies them
        nxy = m.xy + 1.
        p.xy = nxy
        nxy[...] = 0
        m = m.copy()
        m.xy = m.xy + 1.
        if m.v is not None and n:
            nv = m.v*2
            p.v = nv
            nv[...] = 0
            m.v = m.v*2
    elif k == 'bad':
        if m.ori is None and n:
            if m.v is not None:
                expect_raises(lambda: p.add([0., 1.]), 'point without value')
            else:
                expect_raises(lambda: p.add([0., 1.], v=3.),
                              'value among points without values')
            expect_raises(lambda: setattr(p, 'v', [1.]*(n + 1)),
                          'wrong number of values')
            expect_raises(lambda: setattr(p, 'xy', [[1., 2., 3.]]*n),
                          'three coordinates')
            q = Points([[0., 0.]], v=[] if m.v is None else [1.],
                       unit_x=m.ux*make_unit('kg'), unit_y=m.uy,
                       unit_v=m.uv)
            expect_raises(lambda: p + q, 'sum of different dimensions')
    return p, m


def run_seq(c, rec):
    p, m = build(c, c['how']), model(c)
    same_pts(p, m, 'start')
    rec.label('oriented' if m.ori is not None else 'plain',
              'values' if m.v is not None else 'no values')
    others = []
    eff = 0
    for i, op in enumerate(c['ops']):
        n0 = len(m.xy)
        p, m = step(p, m, op, rec, others)
        what = ' > '.join(o['k'] for o in c['ops'][:i + 1])
        same_pts(p, m, what)
        for q, mq in others:
            same_pts(q, mq, what + ': another cloud')
        eff += n0 > 0
        rec.label(op['k'])
    # iteration
    it = list(p)
    check(len(it) == len(m.xy), 'iteration: {} items', len(it))
    for i, item in enumerate(it):
        parts = [m.xy[i]]
        if m.v is not None:
            parts.append(m.v[i])
        if m.ori is not None:
            parts.append(m.ori[i])
        if len(parts) == 1:
            close(item, parts[0], 'iteration', scale=100.)
            continue
        check(len(item) == len(parts), 'iteration: {}', item)
        for a, b in zip(item, parts):
            close(a, b, 'iteration', scale=100.)
    if len(m.xy) > 1 and m.v is not None:
        dec = p.decompose()
        check(len(dec) == len(m.xy), 'decompose: {} clouds', len(dec))
        for i, d in enumerate(dec):
            same_pts(d, m.take([i]), 'decompose', scale=100.)
    if eff == 0 or len(m.xy) == 0:
        rec.mark_trivial()


# ------------------------------------------------------------------- equality
@st.composite
def eq_case(draw):
    c = draw(cloud(min_size=1, oriented=False))
    c['what'] = draw(st.sampled_from(['xy', 'v', 'ux', 'uy', 'uv', 'len',
                                      'type', 'order']))
    c['i'] = draw(st.integers(0, 20))
    c['pert'] = draw(st.sampled_from([1., 1e-3, 1e-7]))
    return c


def run_eq(c, rec):
    p, q = build(c), build(c, 'list')
    check(p == q and q == p, 'equal clouds compare different')
    n = len(c['xy'])
    w = c['what']
    rec.label(w)
    i = c['i'] % n
    if w == 'xy':
        q.xy[i, c['i'] % 2] += c['pert']
    elif w == 'v':
        if c['v'] is None:
            q.v = np.zeros(n)
        else:
            q.v[i] += c['pert']*max(1., abs(q.v[i]))
    elif w in ('ux', 'uy', 'uv'):
        name = 'unit_' + w[1]
        setattr(q, name, getattr(q, name)*(make_unit('kg') if c['i'] % 2
                                           else 10))
    elif w == 'len':
        q.remove(i)
    elif w == 'type':
        check(not (p == 3) and not (p == None), 'equal to a number')  # noqa
        return
    elif w == 'order':
        if n < 2 or c['xy'][0] == c['xy'][-1]:
            rec.mark_trivial()
            return
        q.xy = q.xy[::-1].copy()
        if np.array_equal(q.xy, p.xy):
            rec.mark_trivial()
            return
    check(not (p == q) and not (q == p), 'clouds differing in {} compare equal',
          w)


# ------------------------------------------------------------------- analysis
@st.composite
def ana_case(draw):
    c = draw(cloud(min_size=2, max_size=9, v=True, oriented=False))
    n = len(c['xy'])
    c['t'] = draw(st.lists(g.quarter(-20, 20), min_size=n, max_size=n,
                           unique=True))
    c['how'] = draw(st.sampled_from(['velocity', 'velocity', 'profile',
                                     'doublons', 'augment', 'smooth', 'fit',
                                     'cropind']))
    c['ut'] = draw(st.sampled_from(['s', 'ms', 'us', '']))
    c['incr'] = draw(st.integers(1, 3))
    c['xaxis'] = draw(st.sampled_from([None, 'time', 'x', 'y']))
    c['ax'] = [draw(st.sampled_from(['x', 'y', 'v'])) for _ in range(2)]
    c['fact'] = draw(st.integers(1, 4))
    c['size'] = draw(st.sampled_from([None, 1, 3, 5]))
    c['tos'] = draw(st.sampled_from(['gaussian', 'uniform', None]))
    c['inplace'] = draw(st.booleans())
    c['usev'] = draw(st.booleans())
    c['i'] = draw(st.integers(0, 30))
    c['dup'] = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
    c['method'] = draw(st.sampled_from([None, 'average', 'min', 'max']))
    c['order'] = draw(st.integers(1, 2))
    return c


def unit_ratio(a, b, what):
    try:
        return float((a/b).asNumber(1))
    except Exception:
        fail('{}: unit {} instead of {}', what, b, a)


def run_ana(c, rec):
    how = c['how']
    rec.label(how)
    c = dict(c)
    if how == 'velocity':
        c['v'], c['uv'] = c['t'], c['ut']
    if how == 'doublons':
        c['v'] = [float(k)*.5 + 1. for k in c['dup']]
    if how in ('augment', 'smooth') and not c['usev']:
        c['v'] = None
    p, m = build(c), model(c)
    n = len(m.xy)
    if how == 'velocity':
        kw = {} if c['xaxis'] is None else {'xaxis': c['xaxis']}
        if c['incr'] > 1:
            kw['incr'] = c['incr']
        o = np.argsort(m.v)[::c['incr']]
        if len(o) < 2:
            rec.mark_trivial()
            return
        x, y, t = m.xy[o, 0], m.xy[o, 1], m.v[o]
        px, py = p.get_velocity(**kw)
        ax, uax = {'x': (x, m.ux), 'y': (y, m.uy)}.get(c['xaxis'], (t, m.uv))
        mid = .5*(ax[1:] + ax[:-1])
        for q, z, u in ((px, x, m.ux), (py, y, m.uy)):
            k = unit_ratio(u/m.uv, q.unit_y, 'velocity')
            same_prof(q, P(mid, np.diff(z)/np.diff(t)*k, uax, q.unit_y),
                      'velocity', rtol=1e-9)
    elif how == 'profile':
        d = {'x': (m.xy[:, 0], m.ux), 'y': (m.xy[:, 1], m.uy),
             'v': (m.v, m.uv)}
        a, b = d[c['ax'][0]], d[c['ax'][1]]
        same_prof(p.export_to_profile(*c['ax']), P(a[0], b[0], a[1], b[1]),
                  'export_to_profile')
    elif how == 'doublons':
        kw = {} if c['method'] is None else {'method': c['method']}
        f = {'min': np.min, 'max': np.max}.get(c['method'], np.mean)
        vs = sorted(set(c['v']))
        e = M([f(m.xy[m.v == vi], axis=0) for vi in vs], vs, m.ux, m.uy, m.uv)
        if c['inplace']:
            p.remove_doublons(inplace=True, **kw)
            r = p
        else:
            r = p.remove_doublons(**kw)
            same_pts(p, m, 'original')
        if len(vs) == n:
            rec.mark_trivial()
        same_pts(r, e, 'remove_doublons', scale=100., rtol=1e-5)
        return
    elif how == 'augment':
        f = c['fact']
        if c['inplace']:
            p.augment_resolution(fact=f, inplace=True)
            r = p
        else:
            r = p.augment_resolution(fact=f)
            same_pts(p, m, 'original')
        s, k = np.arange((n - 1)*f + 1)/float(f), np.arange(n)
        e = M(np.array([np.interp(s, k, m.xy[:, 0]),
                        np.interp(s, k, m.xy[:, 1])]).T,
              None if m.v is None else np.interp(s, k, m.v), m.ux, m.uy, m.uv)
        if f == 1:
            rec.mark_trivial()
        same_pts(r, e, 'augment_resolution')
        return
    elif how == 'smooth':
        kw = {}
        if c['tos']:
            kw['tos'] = c['tos']
        if c['size']:
            kw['size'] = c['size']
        if c['inplace']:
            p.smooth(inplace=True, **kw)
            r = p
        else:
            r = p.smooth(**kw)
            same_pts(p, m, 'original')
        tos = c['tos'] or 'gaussian'
        size = c['size'] or (3 if tos == 'uniform' else 1)
        e = m.copy()
        e.xy = np.array([ref_smooth(m.xy[:, 0], tos, size),
                         ref_smooth(m.xy[:, 1], tos, size)]).T
        if m.v is not None:
            e.v = ref_smooth(m.v, tos, size)
            close(r.v, e.v, 'smooth: values', scale=np.max(np.abs(m.v)))
            e.v = np.array(r.v)
        same_pts(r, e, 'smooth', scale=np.max(np.abs(m.xy)) or 1.)
        return
    elif how == 'fit':
        k = c['order']
        x = np.array(c['t'])
        if n < k + 1:
            rec.mark_trivial()
            return
        co = [float(a) for a in c['xy'][0]] + [.5]
        y = np.polyval(co[:k + 1], x)
        q = Points(np.array([x, y]).T)
        r = q.fit(order=k)
        S = np.max(np.abs(y)) + 1e-3
        close(np.polyval(r, x), y, 'fit', scale=S, rtol=1e-6)
        check(len(r) == k + 1, 'fit of order {}: {}', k, r)
        return
    elif how == 'cropind':
        a, b = sorted([c['i'] % (n + 1), (c['i']//3) % (n + 1)])
        r = p.crop(intervv=[a, b], ind=True, inplace=False)
        same_pts(r, m.take(np.arange(a, b)), 'crop by indices')
        if a == b:
            rec.mark_trivial()
    same_pts(p, m, how + ': original')


# ------------------------------------------------------------------ on fields
@st.composite
def field_case(draw):
    c = draw(g.temporal_case(False, min_n=1, max_n=4, min_size=2, max_size=5,
                             scales=False))
    n = draw(st.integers(1, 6))
    c['pos'] = [[draw(st.floats(0, 1)), draw(st.floats(0, 1))]
                for _ in range(n)]
    nt = len(c['times'])
    c['it'] = [draw(st.integers(0, nt - 1)) for _ in range(n)]
    c['axe'] = draw(st.sampled_from([None, 'x', 'y', 'v']))
    c['withv'] = draw(st.booleans())
    return c


def on_field(x, y, v, px, py):
    """Acceptable interpolations (linear in a cell), None next to a mask."""
    i = min(max(np.searchsorted(x, px, side='right') - 1, 0), len(x) - 2)
    j = min(max(np.searchsorted(y, py, side='right') - 1, 0), len(y) - 2)
    fx = (px - x[i])/(x[i + 1] - x[i])
    fy = (py - y[j])/(y[j + 1] - y[j])
    a, b, c, d = v[i, j], v[i + 1, j], v[i, j + 1], v[i + 1, j + 1]
    if np.isnan(a + b + c + d):
        return None
    one = a + fx*(b - a) + fy*(d - b) if fx >= fy else \
        a + fy*(c - a) + fx*(d - c)
    two = a + fx*(b - a) + fy*(c - a) if fx + fy <= 1 else \
        d + (1 - fx)*(c - d) + (1 - fy)*(b - d)
    return [one, two,
            a*(1 - fx)*(1 - fy) + b*fx*(1 - fy) + c*(1 - fx)*fy + d*fx*fy]


def run_field(c, rec):
    t = g.build_temporal(c, False)
    x, y = np.array(c['x']), np.array(c['y'])
    xy = np.array([[x[0] + a*(x[-1] - x[0]), y[0] + b*(y[-1] - y[0])]
                   for a, b in c['pos']])
    xy[:, 0] = np.clip(xy[:, 0], x[0], x[-1])
    xy[:, 1] = np.clip(xy[:, 1], y[0], y[-1])
    tt = np.array([c['times'][k] for k in c['it']], dtype=float)
    withv = c['withv'] or c['axe'] == 'v'
    pts = Points(xy, v=tt if withv else [], unit_x=c['ux'], unit_y=c['uy'],
                 unit_v=c['ut'])
    ms = [g.G.of_case(fc) for fc in g.frame_cases(c)]
    grids = [np.where(m.mask, np.nan, m.comps[0]) for m in ms]
    sc = max(np.max(np.abs(np.array(fr['v']))) for fr in c['frames']) or 1.
    axe = c['axe'] or ('v' if withv else 'x')
    ref_x, ux = {'x': (xy[:, 0], c['ux']), 'y': (xy[:, 1], c['uy']),
                 'v': (tt, c['ut'])}[axe]
    kw = {} if c['axe'] is None else {'axe_x': c['axe']}
    rec.label(axe)

    def verify(prof, vals, what):
        check(len(prof) == len(xy), '{}: {} values', what, len(prof))
        same_unit(prof.unit_x, make_unit(ux), what + ': x unit')
        same_unit(prof.unit_y, make_unit(c['uv']), what + ': y unit')
        o = np.argsort(ref_x, kind='mergesort')
        close(prof.x, ref_x[o], what + ': x')
        for k, i in enumerate(o):
            same = [j for j in range(len(ref_x)) if ref_x[j] == ref_x[i]]
            if any(vals[j] is None for j in same):
                continue
            exp = [z for j in same for z in vals[j]]
            check(any(abs(prof.y[k] - z) <= 1e-8*sc for z in exp),
                  '{}: got {} expected {}', what, prof.y[k], exp)

    vals = [on_field(x, y, grids[0], *q) for q in xy]
    if all(v is None for v in vals):
        rec.mark_trivial()
    verify(pts.get_evolution_on_sf(t.fields[0], **kw), vals, 'evolution on a '
           'field')
    if withv:
        vals = [on_field(x, y, grids[k], *q) for k, q in zip(c['it'], xy)]
        verify(pts.get_evolution_on_tsf(t, axe_x=axe), vals,
               'evolution on fields')
    close(pts.xy, xy, 'original')


# ------------------------------------------------------------------- geometry
@st.composite
def geom_case(draw):
    c = draw(cloud(min_size=4, max_size=14, oriented=False, v=True,
                   co=g.quarter(-9, 9)))
    c['res'] = draw(st.integers(8, 20))
    c['fmt'] = draw(st.sampled_from(['normalized', 'ponderated',
                                     'concentration', None]))
    c['shift'] = [draw(g.quarter(-9, 9)), draw(g.quarter(-9, 9))]
    c['bw'] = draw(st.sampled_from([None, None, 'scott', 'silverman', .5, 2.]))
    c['pond'] = draw(st.booleans())
    c['res2'] = draw(st.one_of(st.integers(2, 6), st.lists(
        st.integers(2, 6), min_size=2, max_size=2)))
    c['eps'] = draw(st.sampled_from([.5, 1.1, 2.3]))
    c['mins'] = draw(st.integers(1, 3))
    c['inplace'] = draw(st.booleans())
    return c


def run_geom(c, rec):
    p, m = build(c), model(c)
    n = len(m.xy)
    w = np.ptp(m.xy, axis=0)
    cov = np.cov(m.xy.T)
    if np.linalg.matrix_rank(cov, tol=1e-6) < 2 or \
            min(w)*c['res'] < 4*max(w):
        rec.mark_trivial()
    else:
        kw = {} if c['bw'] is None else {'bw_method': c['bw']}
        r = p.get_points_density(resolution=c['res'], output_format=c['fmt'],
                                 **kw)
        check(r is not None, 'no density for {} points', n)
        if r is not None:
            rec.label('density')
            check(max(r.shape) == c['res'], 'resolution: {} instead of {}',
                  r.shape, c['res'])
            # the same cloud with the axes exchanged
            q = p.copy()
            q.xy = q.xy[:, ::-1].copy()
            q.unit_x, q.unit_y = p.unit_y, p.unit_x
            r2 = q.get_points_density(resolution=c['res'],
                                      output_format=c['fmt'], **kw)
            check(r2.shape == r.shape[::-1], 'exchanged axes: shape {} for {}',
                  r2.shape, r.shape)
            close(np.array(r2.values).T, r.values, 'density with exchanged '
                  'axes', rtol=1e-6)
            close(r2.axe_x, r.axe_y, 'exchanged axes', scale=20.)
            close(r2.axe_y, r.axe_x, 'exchanged axes', scale=20.)
            if not isinstance(c['bw'], float):
                X, Y = np.meshgrid(r.axe_x, r.axe_y, indexing='ij')
                f = {'silverman': n**(-1/6.)}.get(c['bw'], n**(-1/6.))
                ic = np.linalg.inv(cov*f*f)
                D = np.array([X[..., None] - m.xy[:, 0],
                              Y[..., None] - m.xy[:, 1]])
                K = np.exp(-.5*np.einsum('i...,ij,j...->...', D, ic, D)
                           ).sum(-1)
                k = np.array(r.values)
                close(k/k.sum(), K/K.sum(), 'density', rtol=1e-5,
                      scale=1./k.size)
            v = np.array(r.values)
            if c['fmt'] == 'concentration':
                v = v*unit_ratio(r.unit_values, 1/m.ux/m.uy, 'density')
            check(np.all(v >= 0), 'negative density')
            dx, dy = r.axe_x[1] - r.axe_x[0], r.axe_y[1] - r.axe_y[0]
            tot = 1 if c['fmt'] in (None, 'normalized') else n
            close(np.sum(v)*dx*dy, tot, 'sum of the density', rtol=1e-8)
            check(r.axe_x[0] <= m.xy[:, 0].min() and
                  r.axe_x[-1] >= m.xy[:, 0].max() and
                  r.axe_y[0] <= m.xy[:, 1].min() and
                  r.axe_y[-1] >= m.xy[:, 1].max(), 'density field too small')
            if c['fmt'] != 'concentration':
                same_unit(r.unit_values, make_unit(''), 'density: unit')
            same_unit(r.unit_x, m.ux, 'density: x unit')
            same_unit(r.unit_y, m.uy, 'density: y unit')
            q = p.copy()
            q.xy = q.xy + np.array(c['shift'])
            r2 = q.get_points_density(resolution=c['res'],
                                      output_format=c['fmt'], **kw)
            close(r2.values, r.values, 'density of the moved cloud',
                  rtol=1e-6)
            close(r2.axe_x, r.axe_x + c['shift'][0], 'moved density: x',
                  scale=40., rtol=1e-8)
    # counts on a grid
    if min(w) > 0:
        res = c['res2']
        rx, ry = (res, res) if isinstance(res, int) else res
        ax = np.linspace(m.xy[:, 0].min(), m.xy[:, 0].max(), rx)
        ay = np.linspace(m.xy[:, 1].min(), m.xy[:, 1].max(), ry)
        dx, dy = ax[1] - ax[0], ay[1] - ay[0]
        r = p.get_points_density2(res, ponderated=c['pond'])
        close(r.axe_x, ax, 'density2: x')
        close(r.axe_y, ay, 'density2: y')
        wt = m.v if c['pond'] else np.ones(n)
        u = (m.uv if c['pond'] else 1)/m.ux/m.uy
        k = unit_ratio(u, r.unit_values, 'density2')
        vals = np.array(r.values)/k*dx*dy
        close(np.sum(vals), np.sum(wt), 'density2: total',
              scale=np.sum(np.abs(wt)) + 1)
        # points well inside a cell
        ref = np.zeros((rx, ry))
        amb = np.zeros((rx, ry), bool)
        for (a, b), z in zip(m.xy, wt):
            da, db = np.abs(ax - a), np.abs(ay - b)
            ii = np.where(da < da.min() + 1e-9*w[0])[0]
            jj = np.where(db < db.min() + 1e-9*w[1])[0]
            if len(ii) * len(jj) > 1:
                amb[np.ix_(ii, jj)] = True
            else:
                ref[ii[0], jj[0]] += z
        close(vals[~amb], ref[~amb], 'density2', scale=np.sum(np.abs(wt)) + 1)
    same_pts(p, m, 'original')
    # ordering: the same rows in another order
    if n >= 3:
        if c['inplace']:
            r = p.copy()
            r.order_on_line(inplace=True)
        else:
            r = p.order_on_line()
            same_pts(p, m, 'original')
        rows = sorted([list(a) + [b] for a, b in zip(r.xy.tolist(),
                                                     r.v.tolist())])
        exp = sorted([list(a) + [float(b)] for a, b in zip(m.xy.tolist(),
                                                           m.v)])
        check(rows == exp, 'order_on_line: rows {} instead of {}', rows, exp)
        same_unit(r.unit_x, m.ux, 'order_on_line: unit')
    # convex envelope
    if np.linalg.matrix_rank(cov, tol=1e-6) == 2:
        rec.label('envelope')
        e = p.get_envelope()
        same_unit(e.unit_x, m.ux, 'envelope: x unit')
        same_unit(e.unit_y, m.uy, 'envelope: y unit')
        h = np.array(e.xy)
        check(np.array_equal(h[0], h[-1]), 'envelope not closed')
        for a in h:
            check(np.any(np.all(m.xy == a, axis=1)), 'envelope: {} is not a '
                  'point of the cloud', a.tolist())
        d = np.diff(h, axis=0)
        area = .5*np.sum(h[:-1, 0]*h[1:, 1] - h[1:, 0]*h[:-1, 1])
        sg = 1 if area > 0 else -1
        for a in m.xy:
            cr = d[:, 0]*(a[1] - h[:-1, 1]) - d[:, 1]*(a[0] - h[:-1, 0])
            check(np.all(sg*cr >= -1e-6), 'point {} out of the envelope {}',
                  a.tolist(), h.tolist())
        same_pts(p, m, 'original')
    # clusters: partition of the cloud; close points of a cluster stay together
    cl = p.get_clusters(c['eps'], min_samples=c['mins'])
    rows = sorted([list(a) + [b] for q in cl for a, b in zip(q.xy.tolist(),
                                                             q.v.tolist())])
    exp = sorted([list(a) + [float(b)] for a, b in zip(m.xy.tolist(), m.v)])
    check(rows == exp, 'clusters are not a partition: {} {}', rows, exp)
    for q in cl:
        same_unit(q.unit_x, m.ux, 'clusters: unit')
    if c['mins'] == 1:
        # connected components of the graph of distances
        rec.label('components')
        d = np.hypot(*(m.xy[:, None, :] - m.xy[None, :, :]).T)
        lab = list(range(n))
        for _ in range(n):
            for i in range(n):
                for j in range(n):
                    if d[i, j] <= c['eps']:
                        lab[i] = lab[j] = min(lab[i], lab[j])
        check(len(cl) == len(set(lab)), '{} clusters instead of {}', len(cl),
              len(set(lab)))
    same_pts(p, m, 'original')


SUBS = [
    Sub('sequence', seq_case(), run_seq,
        'some operation met a non-empty cloud and points remain', 900),
    Sub('operation', seq_case(one=True), run_seq,
        'some operation met a non-empty cloud and points remain', 900),
    Sub('equality', eq_case(), run_eq, 'the clouds really differ', 300),
    Sub('analysis', ana_case(), run_ana, 'there is something to change', 600),
    Sub('on_fields', field_case(), run_field,
        'some point lies among unmasked values', 300),
    Sub('geometry', geom_case(), run_geom, 'points in general position', 250),
]
