"""C28: sets of critical points along time and their trajectories."""
import numpy as np
from hypothesis import strategies as st

from IMTreatment import make_unit
from IMTreatment.core import (Points, OrientedPoints, ScalarField,
                              TemporalScalarFields)
from IMTreatment.vortex_detection import CritPoints
from harness.core import Sub, check, close, same_unit, fail, expect_raises
from harness import gens as g

ASSUMPTIONS = [
    'the values attached to the given points are times, in the unit of the set',
    'time scales are positive; smoothed trajectories are not cleaned',
    'trajectories are decided by invariants (any choice between equally close '
    'points is accepted)',
    'simplifications are decided when no two merging candidates are at the '
    'same distance',
    'refinement is decided on paraboloids and evenly spaced grids']

TYPES = ['foc', 'foc_c', 'node_i', 'node_o', 'sadd']
LEN = ['m', 'mm', 'cm']
TIME = ['s', 'ms', 'h']
FACT = {'m': 1., 'mm': 1e-3, 'cm': 1e-2, 's': 1., 'ms': 1e-3, 'h': 3600.}


# ------------------------------------------------------------------ generators
coord = st.integers(-40, 40).map(lambda i: i/8.)
positions = st.lists(st.tuples(coord, coord), max_size=4)
tim = st.integers(-20, 40).map(lambda i: i/4.)


@st.composite
def step(draw):
    out = {}
    for t in TYPES:
        kind = draw(st.sampled_from(['none', 'pts', 'pts']))
        if kind == 'pts':
            out[t] = [list(p) for p in draw(positions)]
    out['ori'] = draw(st.booleans())
    return out


factor = st.sampled_from([.5, 2., 3., -1., 10., .25])
pfactor = st.sampled_from([.5, 2., 3., 1., 10.])


@st.composite
def ops(draw):
    k = draw(st.sampled_from(
        ['add', 'add', 'add', 'remove', 'origin', 'unit', 'scale', 'cropt',
         'cropt', 'cropxy', 'traj', 'traj', 'traj', 'traj', 'clean', 'clean',
         'smooth', 'bad', 'copy', 'sum']))
    o = {'k': k, 'inplace': draw(st.booleans())}
    if k == 'add':
        o['t'], o['step'] = draw(tim), draw(step())
    elif k == 'remove':
        o['i'], o['ind'] = draw(st.integers(0, 50)), draw(st.booleans())
    elif k == 'origin':
        o['x'] = draw(st.none() | coord)
        o['y'] = draw(st.none() | coord)
    elif k == 'unit':
        o['axe'] = draw(st.sampled_from(['x', 'y', 'time']))
        o['u'] = draw(st.integers(0, 2))
        o['str'] = draw(st.booleans())
    elif k == 'scale':
        o['s'] = [draw(factor), draw(factor), draw(pfactor)]
        o['u'] = [draw(st.sampled_from(['', '', 'kg', 'K'])) for _ in range(3)]
    elif k == 'cropt':
        o['a'], o['b'] = draw(st.integers(0, 12)), draw(st.integers(0, 12))
        o['ind'] = draw(st.booleans())
        o['mid'] = [draw(st.booleans()), draw(st.booleans())]
        o['xy'] = draw(st.sampled_from([False, False, False, True]))
    elif k == 'cropxy':
        o['x'] = draw(st.none() | st.lists(coord, min_size=2, max_size=2)
                      .map(sorted))
        o['y'] = draw(st.none() | st.lists(coord, min_size=2, max_size=2)
                      .map(sorted))
    elif k == 'traj':
        o['eps'] = draw(st.none() | st.sampled_from([.5, 1., 2., 3., 5.]))
        o['unit'] = draw(st.booleans())
    elif k == 'clean':
        o['n'] = draw(st.integers(0, 4))
    elif k == 'smooth':
        o['tos'] = draw(st.sampled_from(['uniform', 'gaussian']))
        o['size'] = draw(st.sampled_from([None, 2, 3]))
    elif k == 'bad':
        o['why'] = draw(st.sampled_from(['time', 'ux', 'uy', 'type', 'rtime',
                                         'clean']))
    elif k == 'sum':
        o['t'] = draw(st.lists(tim, max_size=3, unique=True))
        o['steps'] = [draw(step()) for _ in o['t']]
        o['ut'] = draw(st.booleans())
    return o


@st.composite
def history(draw):
    n = draw(st.integers(1, 6))
    ts = draw(st.lists(tim, min_size=n, max_size=n, unique=True))
    init = [[t, draw(step())] for t in ts]
    # the units are the ones of the first points given
    init[0][1].setdefault('foc', [[0., 1.]])
    return {'u': [draw(st.sampled_from(LEN)), draw(st.sampled_from(LEN)),
                  draw(st.sampled_from(TIME))],
            'init': init,
            'ops': draw(st.lists(ops(), min_size=1, max_size=8))}


# ----------------------------------------------------------------------- model
class Model(object):
    def __init__(self, units):
        self.u = list(units)
        self.mult = ['', '', '']       # additional units given by the scalings
        self.t = []
        self.p = []                    # one dictionary of points per time
        self.traj = None               # one list of trajectories per type
        self.smoothed = False

    def copy(self):
        m = Model(self.u)
        m.mult = list(self.mult)
        m.t = list(self.t)
        m.p = [{k: np.array(v) for k, v in p.items()} for p in self.p]
        m.traj = None if self.traj is None else \
            {k: [np.array(a) for a in v] for k, v in self.traj.items()}
        m.smoothed = self.smoothed
        return m

    def unit(self, i):
        u = make_unit(self.u[i])
        for m in self.mult[i].split():
            u = u*make_unit(m)
        return u

    def add(self, t, s):
        self.t.append(t)
        self.p.append({k: np.array(s.get(k, []), dtype=float).reshape((-1, 2))
                       for k in TYPES})
        order = np.argsort(self.t)
        self.t = [self.t[i] for i in order]
        self.p = [self.p[i] for i in order]
        self.traj = None

    def apply(self, fx=1., ox=0., fy=1., oy=0., ft=1.):
        for p in self.p:
            for k in TYPES:
                p[k] = p[k]*[fx, fy] + [ox, oy]
        if self.traj is not None:
            for k in TYPES:
                self.traj[k] = [a*[fx, fy, ft] + [ox, oy, 0.]
                                for a in self.traj[k]]
        self.t = [t*ft for t in self.t]


def make_pts(m, xy, t, oriented):
    xy = np.array(xy, dtype=float).reshape((-1, 2))
    kw = dict(v=[t]*len(xy), unit_x=m.unit(0), unit_y=m.unit(1),
              unit_v=m.unit(2))
    if oriented and len(xy):
        return OrientedPoints(xy=xy, orientations=[[[1., 0.], [0., 1.]]]*len(xy),
                              **kw)
    return Points(xy=xy, **kw)


def add_to(cp, m, t, s):
    given = {k: make_pts(m, s[k], t, k == 'sadd' and s['ori'])
             for k in TYPES if k in s}
    cp.add_point(time=t, **given)
    # the given points are not shared
    for k, pts in given.items():
        if len(pts):
            pts.xy = pts.xy + 1000.


def srt(a):
    a = np.array(a, dtype=float)
    if a.size == 0:
        return a.reshape((0, a.shape[-1] if a.ndim > 1 else 2))
    a = np.round(a, 9)
    return a[np.lexsort(a.T[::-1])]


def same(cp, m, what):
    check(len(cp.times) == len(m.t), '%s: %d times instead of %d'
          % (what, len(cp.times), len(m.t)))
    if len(m.t):
        close(cp.times, m.t, '%s: times' % what)
        for i, (a, b) in enumerate(((cp.unit_x, 'x'), (cp.unit_y, 'y'))):
            same_unit(a, m.unit(i), '%s: unit_%s' % (what, b))
        same_unit(cp.unit_time, m.unit(2), '%s: unit_time' % what)
    for k in TYPES:
        arr = getattr(cp, k)
        check(len(arr) == len(m.t), '%s: %s has %d elements for %d times'
              % (what, k, len(arr), len(m.t)))
        for i in range(len(m.t)):
            w = '%s: %s at time %d' % (what, k, i)
            check(len(arr[i]) == len(m.p[i][k]), '%s: %d points instead of %d'
                  % (w, len(arr[i]), len(m.p[i][k])))
            if len(arr[i]) == 0:
                continue
            close(srt(arr[i].xy), srt(m.p[i][k]), w, rtol=1e-8)
            same_unit(arr[i].unit_x, m.unit(0), w + ' unit_x')
            same_unit(arr[i].unit_y, m.unit(1), w + ' unit_y')
            if isinstance(arr[i], OrientedPoints):
                check(len(arr[i].orientations) == len(arr[i]),
                      w + ': orientations')
        tr = getattr(cp, k + '_traj')
        if m.traj is None:
            check(tr is None, '%s: obsolete %s trajectories' % (what, k))
            continue
        check(tr is not None and len(tr) == len(m.traj[k]),
              '%s: %s trajectories: %s instead of %d'
              % (what, k, None if tr is None else len(tr), len(m.traj[k])))
        for a, b in zip(tr, m.traj[k]):
            w = '%s: %s trajectory' % (what, k)
            check(len(a) == len(b), w + ': length')
            close(a.xy, b[:, :2], w + ': positions', rtol=1e-8)
            close(a.v, b[:, 2], w + ': times', rtol=1e-8)
            same_unit(a.unit_x, m.unit(0), w + ' unit_x')
            same_unit(a.unit_y, m.unit(1), w + ' unit_y')
            same_unit(a.unit_v, m.unit(2), w + ' unit_v')


def check_traj(cp, m, eps, what):
    """Invariants of new trajectories; return them."""
    out = {}
    tol = 1e-9
    for k in TYPES:
        trs = getattr(cp, k + '_traj')
        check(trs is not None, '%s: no %s trajectories' % (what, k))
        trs = [np.column_stack((a.xy, a.v)) for a in trs]
        out[k] = trs
        w = '%s: %s' % (what, k)
        check(all(len(a) >= len(b) for a, b in zip(trs[:-1], trs[1:])),
              w + ': not sorted by length')
        allp = [[x, y, t] for t, p in zip(m.t, m.p) for x, y in p[k]]
        got = np.concatenate(trs) if trs else np.zeros((0, 3))
        check(len(got) == len(allp), '%s: %d points in the trajectories, for '
              '%d points' % (w, len(got), len(allp)))
        if not allp:
            continue
        close(srt(got), srt(allp), w + ': points of the trajectories')
        # index of the time of each point
        link = []     # per step: (ind of trajectory: position) of both sides
        steps = {}
        for n, a in enumerate(trs):
            ti = [int(np.argmin(np.abs(np.array(m.t) - t))) for t in a[:, 2]]
            check(all(j == i + 1 for i, j in zip(ti[:-1], ti[1:])),
                  w + ': times of a trajectory are not successive: %s' % ti)
            for i, xy in zip(ti, a[:, :2]):
                steps.setdefault(i, {})[n] = xy
        for i in range(len(m.t) - 1):
            A, B = steps.get(i, {}), steps.get(i + 1, {})
            d = {n: np.hypot(*(A[n] - B[n])) for n in A if n in B}
            for n, dd in d.items():
                check(dd <= eps*(1 + tol), '%s: successive points at %r, for '
                      'epsilon = %r' % (w, dd, eps))
            for n in A:
                for q in B:
                    if n == q:
                        continue
                    dd = np.hypot(*(A[n] - B[q]))
                    if dd >= eps*(1 - tol):
                        continue
                    best = min(d.get(n, np.inf), d.get(q, np.inf))
                    check(best <= dd*(1 + tol) + 1e-12,
                          '%s: points at %r between times %d and %d are not '
                          'linked, nor linked to closer ones (%r)'
                          % (w, dd, i, i + 1, best))
    return out


def run_history(c, rec):
    m = Model(c['u'])
    cp = CritPoints(unit_time=c['u'][2])
    for t, s in c['init']:
        add_to(cp, m, t, s)
        m.add(t, s)
    same(cp, m, 'initial set')
    for n, o in enumerate(c['ops']):
        w = 'operation %d (%s)' % (n, o['k'])
        k = o['k']
        before, old = m.copy(), cp
        if k == 'add':
            if any(abs(o['t'] - t) < 1e-6 for t in m.t):
                continue
            add_to(cp, m, o['t'], o['step'])
            m.add(o['t'], o['step'])
        elif k == 'remove':
            if len(m.t) < 2:
                continue
            i = o['i'] % len(m.t)
            if o['ind']:
                cp.remove_point(indice=i)
            else:
                cp.remove_point(time=cp.times[i])
            del m.t[i], m.p[i]
            m.traj = None
        elif k == 'origin':
            cp.set_origin(x=o['x'], y=o['y'])
            m.apply(ox=-(o['x'] or 0.), oy=-(o['y'] or 0.))
        elif k == 'unit':
            i = ['x', 'y', 'time'].index(o['axe'])
            if m.mult[i]:
                continue
            u = (LEN if i < 2 else TIME)[o['u']]
            f = FACT[m.u[i]]/FACT[u]
            cp.change_unit(o['axe'], u if o['str'] else make_unit(u))
            m.u[i] = u
            m.apply(**{['fx', 'fy', 'ft'][i]: f})
            if i < 2:
                rec.label('unit xy')
        elif k == 'scale':
            s = [f if not u else f*make_unit(u) for f, u in zip(o['s'], o['u'])]
            res = cp.scale(scalex=s[0], scaley=s[1], scalev=s[2],
                           inplace=o['inplace'])
            if o['inplace']:
                check(res is None, w + ': in place, but something returned')
            else:
                cp = res
            m.apply(fx=o['s'][0], fy=o['s'][1], ft=o['s'][2])
            m.mult = [a + ' ' + u if u else a for a, u in zip(m.mult, o['u'])]
        elif k in ('cropt', 'cropxy'):
            kw = {}
            if k == 'cropt':
                a, b = sorted((o['a'] % (len(m.t) + 1), o['b'] % (len(m.t) + 1)))
                if o['ind']:
                    kw['intervt'], kw['ind'] = [a, b], True
                    keep = list(range(a, b))
                elif len(m.t) == 0:
                    continue
                else:
                    b = min(b, len(m.t) - 1)
                    a = min(a, b)
                    ta, tb = cp.times[a], cp.times[b]
                    if o['mid'][0] and a > 0:
                        ta = (ta + cp.times[a - 1])/2.
                    if o['mid'][1] and b < len(m.t) - 1:
                        tb = (tb + cp.times[b + 1])/2.
                    kw['intervt'] = [ta, tb]
                    keep = list(range(a, b + 1))
                m.t = [m.t[i] for i in keep]
                m.p = [m.p[i] for i in keep]
                if m.traj is not None:
                    for t in TYPES:
                        trs = [np.array([r for r in tr if m.t and
                                         np.min(np.abs(np.array(m.t) - r[2]))
                                         < 1e-9*max(1., abs(r[2]))])
                               for tr in m.traj[t]]
                        m.traj[t] = [tr for tr in trs if len(tr)]
            if k == 'cropxy' or o['xy']:
                ix, iy = o.get('x', [-2., 3.]), o.get('y', [-3., 2.])
                # bounds away from the points
                allp = np.concatenate([np.zeros((0, 2))] +
                                      [p[t] for p in m.p for t in TYPES])
                ok = True
                for iv, col in ((ix, 0), (iy, 1)):
                    for v in iv or []:
                        if len(allp) and np.min(np.abs(allp[:, col] - v)) < 1e-9\
                                and any(m.u[i] != c['u'][i] for i in (0, 1)):
                            ok = False
                if not ok and k == 'cropxy':
                    continue
                if ok:
                    if ix is not None:
                        kw['intervx'] = ix
                    if iy is not None:
                        kw['intervy'] = iy
                    for p in m.p:
                        for t in TYPES:
                            f = np.ones(len(p[t]), dtype=bool)
                            if ix is not None:
                                f &= (p[t][:, 0] >= ix[0]) & (p[t][:, 0] <= ix[1])
                            if iy is not None:
                                f &= (p[t][:, 1] >= iy[0]) & (p[t][:, 1] <= iy[1])
                            p[t] = p[t][f]
                    if ix is not None or iy is not None:
                        m.traj = None
            res = cp.crop(inplace=o['inplace'], **kw)
            if o['inplace']:
                check(res is None, w + ': in place, but something returned')
            else:
                cp = res
        elif k == 'traj':
            if len(m.t) == 0:
                continue
            eps = o['eps']
            if eps is None:
                cp.compute_traj()
                eps = np.inf
            elif o['unit'] and not m.mult[0]:
                cp.compute_traj(epsilon=eps*make_unit('m'))
                eps = eps/FACT[m.u[0]]
            else:
                cp.compute_traj(epsilon=eps)
            m.traj = check_traj(cp, m, eps, w)
            m.smoothed = False
            if any(len(a) > 2 for t in TYPES for a in m.traj[t]):
                rec.label('long trajectory')
        elif k == 'clean':
            if m.traj is None:
                expect_raises(lambda: cp.clean_traj(o['n']), w)
                continue
            if m.smoothed:
                continue
            cp.clean_traj(o['n'])
            for t in TYPES:
                m.traj[t] = [a for a in m.traj[t] if len(a) >= o['n']]
                for i, time in enumerate(m.t):
                    m.p[i][t] = np.array(
                        [r[:2] for a in m.traj[t] for r in a
                         if abs(r[2] - time) < 1e-9*max(1., abs(time))],
                        dtype=float).reshape((-1, 2))
            rec.label('clean')
        elif k == 'smooth':
            if m.traj is None:
                continue
            ref = {t: [a.smooth(tos=o['tos'], size=o['size'], inplace=False)
                       for a in getattr(cp, t + '_traj')] for t in TYPES}
            cp.smooth_traj(tos=o['tos'], size=o['size'])
            m.traj = {t: [np.column_stack((a.xy, a.v)) for a in ref[t]]
                      for t in TYPES}
            m.smoothed = True
        elif k == 'bad':
            pts = make_pts(m, [[0., 0.]], 1e4, False)
            if o['why'] == 'time' and len(m.t):
                t = float(cp.times[-1])
                expect_raises(lambda: cp.add_point(foc=pts, time=t), w)
            elif o['why'] == 'ux' and len(m.t):
                pts.unit_x = 'kg'
                expect_raises(lambda: cp.add_point(node_i=pts, time=1e4), w)
            elif o['why'] == 'uy' and len(m.t):
                pts.unit_y = 'kg'
                expect_raises(lambda: cp.add_point(sadd=pts, time=1e4), w)
            elif o['why'] == 'type':
                expect_raises(lambda: cp.add_point(foc=[[0., 0.]], time=1e4), w)
            elif o['why'] == 'rtime':
                expect_raises(lambda: cp.remove_point(time=1e5), w)
                expect_raises(lambda: cp.remove_point(), w)
                expect_raises(lambda: cp.change_unit('z', 's'), w)
        elif k == 'copy':
            cp = cp.copy()
            check(cp == old, w + ': the copy differs')
            if len(m.t) > 1:
                old.remove_point(indice=0)
                check(cp != old, w + ': a set equals the one without its '
                      'first time')
            old = None
        elif k == 'sum':
            m2 = Model(m.u)
            m2.mult = list(m.mult)
            if o['ut']:
                m2.u[2] = 'kg'
            cp2 = CritPoints(unit_time=m2.unit(2))
            for t, s in zip(o['t'], o['steps']):
                s = dict(s)
                s.setdefault('foc', [[1., 2.]])
                add_to(cp2, m2, t, s)
                m2.add(t, s)
            keep = m2.copy()
            double = any(abs(a - b) < 1e-9 for a in m.t for b in m2.t)
            almost = double and not any(a == b for a in cp.times
                                        for b in cp2.times)
            if almost or len(m.t) == 0:
                continue
            if len(m2.t) and (double or o['ut']):
                expect_raises(lambda: cp + cp2, w)
                continue
            res = cp + cp2
            if len(m2.t):
                m.traj = None
                for t, p in zip(keep.t, keep.p):
                    m.add(t, {a: b.tolist() for a, b in p.items()})
            same(cp2, keep, w + ': added set')
            # nothing is shared
            if len(m2.t):
                cp2.set_origin(x=1e3)
                cp = res
                same(cp, m, w)
                old.set_origin(y=1e3)
                old = None
                rec.label('sum')
        rec.label(k)
        same(cp, m, w)
        if old is not None and cp is not old:
            same(old, before, w + ': original')
    if len(m.t) < 2 or sum(len(p[k]) for p in m.p for k in TYPES) < 2:
        rec.mark_trivial()


# ------------------------------------------------------------------ trajectories
@st.composite
def walk_case(draw):
    n = draw(st.integers(3, 8))
    w = draw(st.integers(1, 4))
    start = [[draw(coord), draw(coord)] for _ in range(w)]
    steps = [[[draw(st.integers(-7, 7))/16., draw(st.integers(-7, 7))/16.]
              for _ in range(w)] for _ in range(n)]
    alive = [[draw(st.sampled_from([1, 1, 1, 1, 0])) for _ in range(w)]
             for _ in range(n)]
    perm = [draw(st.permutations(list(range(w)))) for _ in range(n)]
    return {'s': start, 'd': steps, 'a': alive, 'p': [list(p) for p in perm],
            'eps': draw(st.sampled_from([None, .3, .6, 1., 2.])),
            'type': draw(st.sampled_from(TYPES)),
            'dt': draw(st.sampled_from([.1, 1., 3.])),
            'n': draw(st.integers(1, 4)),
            'brk': draw(st.sampled_from(['x', 'y'])),
            'at': draw(coord), 'inplace': draw(st.booleans())}


def run_walk(c, rec):
    """Trajectories of moving points, and their pieces."""
    n, k = len(c['d']), c['type']
    m = Model(['m', 'mm', 's'])
    cp = CritPoints(unit_time='s')
    pos = np.array(c['s'], dtype=float)
    for i in range(n):
        pos = pos + np.array(c['d'][i])
        xy = [pos[j].tolist() for j in c['p'][i] if c['a'][i][j]]
        s = {k: xy, 'ori': False}
        add_to(cp, m, i*c['dt'], s)
        m.add(i*c['dt'], s)
    cp.compute_traj(epsilon=c['eps'])
    eps = np.inf if c['eps'] is None else c['eps']
    m.traj = check_traj(cp, m, eps, 'walk')
    same(cp, m, 'after compute_traj')
    trs = m.traj[k]
    # pieces
    col = 0 if c['brk'] == 'x' else 1
    keep = m.copy()
    kw = {c['brk']: c['at']}
    usable = all(np.min(np.abs(a[:, col] - c['at'])) > 1e-9 for a in trs)
    if usable:
        res = cp.break_trajectories(inplace=c['inplace'], **kw)
        if c['inplace']:
            check(res is None, 'in place, but something returned')
            res = cp
        else:
            same(cp, keep, 'broken: original')
        pieces = [np.column_stack((a.xy, a.v)) for a in getattr(res, k + '_traj')]
        i = 0
        for a in trs:
            cross = [] if len(a) <= 2 else \
                [j for j in range(len(a) - 1)
                 if (a[j, col] - c['at'])*(a[j + 1, col] - c['at']) < 0]
            got = pieces[i:i + len(cross) + 1]
            i += len(cross) + 1
            check(len(got) == len(cross) + 1, 'broken: pieces are missing')
            if not cross:
                close(got[0], a, 'broken: unbroken trajectory')
                continue
            rec.label('broken')
            # successive pieces are successive parts of the trajectory, and
            # each stays on one side (up to the points beside the break)
            bounds = [0] + [j + 1 for j in cross] + [len(a)]
            for q, p in enumerate(got):
                inds = [int(np.argmin(np.abs(a[:, 2] - t))) for t in p[:, 2]]
                check(all(y == x + 1 for x, y in zip(inds[:-1], inds[1:])),
                      'broken: a piece is not a part of the trajectory')
                if len(p):
                    close(p, a[inds], 'broken: points of a piece')
                need = set(range(bounds[q], bounds[q + 1]))
                check(need <= set(inds), 'broken: lost points: piece %d has %s '
                      'instead of at least %s' % (q, inds, sorted(need)))
                check(set(inds) <= set(range(bounds[q] - 1, bounds[q + 1] + 1)),
                      'broken: piece %d goes beyond the break: %s for %s'
                      % (q, inds, sorted(need)))
        check(i == len(pieces), 'broken: too many pieces')
    if not any(len(a) > 2 for a in trs):
        rec.mark_trivial()


# --------------------------------------------------------------- simplification
@st.composite
def topo_case(draw):
    n = draw(st.integers(1, 3))
    fine = st.integers(-400, 400).map(lambda i: i/97.)
    return {'t': [[[draw(st.sampled_from(TYPES)), draw(fine), draw(fine)]
                   for _ in range(draw(st.integers(0, 7)))] for _ in range(n)],
            'd': draw(st.sampled_from([.3, .7, 1., 1.5, 2.5, 4.])),
            'kind': draw(st.sampled_from(['replacement', 'only_delete'])),
            'u': [draw(st.sampled_from(LEN)), draw(st.sampled_from(LEN)),
                  draw(st.sampled_from(TIME))]}


INDEX = {'foc': 1, 'foc_c': 1, 'node_i': 1, 'node_o': 1, 'sadd': -1}


def ref_simplify(pts, d, kind):
    """Clusters (position, types), or None if undecided."""
    cl = [(np.array([x, y]), [t]) for t, x, y in pts]
    if kind == 'replacement':
        while len(cl) > 1:
            pairs = sorted((np.hypot(*(cl[i][0] - cl[j][0])), i, j)
                           for i in range(len(cl)) for j in range(i))
            if len(pairs) > 1 and abs(pairs[0][0] - pairs[1][0]) < 1e-9:
                return None
            dd, i, j = pairs[0]
            if abs(dd - d) < 1e-9:
                return None
            if dd > d:
                break
            a, b = cl[i], cl[j]
            na, nb = len(a[1]), len(b[1])
            new = ((a[0]*na + b[0]*nb)/(na + nb), a[1] + b[1])
            cl = [e for q, e in enumerate(cl) if q not in (i, j)] + [new]
        return cl
    pairs = sorted((np.hypot(*(cl[i][0] - cl[j][0])), i, j)
                   for i in range(len(cl)) for j in range(i))
    gone = set()
    for p, q in zip(pairs[:-1], pairs[1:]):
        if abs(p[0] - q[0]) < 1e-9:
            return None
    for dd, i, j in pairs:
        if abs(dd - d) < 1e-9:
            return None
        if dd < d and i not in gone and j not in gone and \
                INDEX[cl[i][1][0]] + INDEX[cl[j][1][0]] == 0:
            gone |= {i, j}
    return [e for q, e in enumerate(cl) if q not in gone]


def run_topo(c, rec):
    m = Model(c['u'])
    cp = CritPoints(unit_time=c['u'][2])
    for i, pts in enumerate(c['t']):
        s = {k: [[x, y] for t, x, y in pts if t == k] for k in TYPES}
        s['ori'] = True
        add_to(cp, m, float(i), s)
        m.add(float(i), s)
    keep = m.copy()
    res = cp.topo_simplify(c['d'], kind=c['kind'])
    same(cp, keep, 'original')
    close(res.times, m.t, 'times')
    same_unit(res.unit_time, m.unit(2), 'unit of the times')
    same_unit(res.unit_x, m.unit(0), 'unit_x')
    same_unit(res.unit_y, m.unit(1), 'unit_y')
    for i, pts in enumerate(c['t']):
        cl = ref_simplify(pts, c['d'], c['kind'])
        if cl is None:
            rec.label('undecided')
            continue
        got = [(k, x, y) for k in TYPES for x, y in getattr(res, k)[i].xy]
        exp = []
        for xy, types in cl:
            ind = sum(INDEX[t] for t in types)
            if len(types) == 1:
                exp.append((xy, types))
            elif ind == -1:
                exp.append((xy, ['sadd']))
            elif ind == 1:
                nb = {t: types.count(t) for t in TYPES if t != 'sadd'}
                exp.append((xy, [t for t in nb if nb[t] == max(nb.values())]))
            if len(types) > 1:
                rec.label('merged index %d' % ind)
        if len(cl) == len(pts):
            rec.label('nothing to simplify')
        check(len(got) == len(exp), 'time %d: %d points instead of %d'
              % (i, len(got), len(exp)))
        for xy, types in exp:
            near = [k for k, x, y in got
                    if np.hypot(x - xy[0], y - xy[1]) < 1e-9]
            check(any(k in types for k in near), 'time %d: no point of type %s '
                  'at %s: %s' % (i, types, xy.tolist(), got))
    if max(len(p) for p in c['t']) < 2:
        rec.mark_trivial()


# -------------------------------------------------------------------- refinement
@st.composite
def refine_case(draw):
    n = draw(st.integers(1, 3))
    return {'n': n, 'type': draw(st.sampled_from(TYPES)),
            'x0': draw(g.quarter(-8, 8)), 'y0': draw(g.quarter(-8, 8)),
            'dx': draw(st.sampled_from([.5, 1., 2.])),
            'dy': draw(st.sampled_from([.5, 1., 2.])),
            'nx': draw(st.integers(5, 9)), 'ny': draw(st.integers(5, 9)),
            'c': [[draw(st.integers(25, 75))/100., draw(st.integers(25, 75))/100.]
                  for _ in range(n)],
            'w': draw(st.sampled_from([.5, 1., 2.])),
            'p': [draw(st.lists(st.tuples(st.integers(15, 85),
                                          st.integers(15, 85)), max_size=3)
                       .map(lambda l: [[a/100., b/100.] for a, b in l]))
                  for _ in range(n)],
            'ext': draw(st.sampled_from(['min', 'max'])),
            'inplace': draw(st.booleans())}


def run_refine(c, rec):
    x = c['x0'] + c['dx']*np.arange(c['nx'])
    y = c['y0'] + c['dy']*np.arange(c['ny'])
    X, Y = np.meshgrid(x, y, indexing='ij')
    L = np.array([x[-1] - x[0], y[-1] - y[0]])
    o = np.array([x[0], y[0]])
    sg = 1. if c['ext'] == 'min' else -1.
    fields = TemporalScalarFields()
    m = Model(['m', 'm', 's'])
    cp = CritPoints(unit_time='s')
    for i in range(c['n']):
        xc, yc = o + np.array(c['c'][i])*L
        f = ScalarField()
        f.import_from_arrays(x, y, sg*(((X - xc)/c['dx'])**2 +
                                       c['w']*((Y - yc)/c['dy'])**2),
                             unit_x='m', unit_y='m')
        fields.add_field(f, time=float(i), unit_times='s')
        s = {c['type']: (o + np.array(c['p'][i]).reshape((-1, 2))*L).tolist(),
             'ori': False}
        s[TYPES[(TYPES.index(c['type']) + 1) % 5]] = [[.5, .25]]
        add_to(cp, m, float(i), s)
        m.add(float(i), s)
    keep = m.copy()
    cp.compute_traj()
    ref = cp.copy()
    res = cp.refine_cp_position(c['type'], fields, inplace=c['inplace'],
                                extrema=c['ext'], verbose=False)
    if c['inplace']:
        check(res is None, 'in place, but something returned')
        res = cp
    else:
        check(cp == ref, 'the original is modified')
    for i in range(c['n']):
        pts = getattr(res, c['type'])[i]
        check(len(pts) == len(c['p'][i]), 'time %d: number of points' % i)
        for q in range(len(pts)):
            d = (pts.xy[q] - (o + np.array(c['c'][i])*L))/[c['dx'], c['dy']]
            check(np.max(np.abs(d)) < 1., 'time %d: point refined at %s cells '
                  'of the %simum' % (i, d, c['ext']))
        m.p[i][c['type']] = np.array(pts.xy).reshape((-1, 2))
    same(res, m, 'other points')
    if not any(c['p']):
        rec.mark_trivial()


# ---------------------------------------------------------------- statistics
@st.composite
def stats_case(draw):
    c = {'ux': draw(st.sampled_from(LEN)), 'uy': draw(st.sampled_from(LEN)),
         'ut': draw(st.sampled_from(TIME)), 'type': draw(st.sampled_from(TYPES)),
         'kind': draw(st.sampled_from(['mean', 'mean', 'density', 'turns'])),
         'verbose': False}
    if c['kind'] == 'mean':
        inc = st.integers(1, 12).map(lambda i: i/8.)
        c['tracks'] = []
        for n in draw(st.lists(st.sampled_from([4, 6, 9, 13]), min_size=1,
                               max_size=3, unique=True)):
            # the start may be at 0, where the relative differences have no
            # sense
            x0, y0 = draw(coord | st.just(0.)), draw(coord | st.just(0.))
            sx, sy = draw(st.sampled_from([1, -1])), \
                draw(st.sampled_from([1, -1]))
            dx = draw(st.lists(inc, min_size=n - 1, max_size=n - 1))
            dy = draw(st.lists(inc, min_size=n - 1, max_size=n - 1))
            t0 = draw(st.lists(tim, min_size=1, max_size=5, unique=True))
            c['tracks'].append({
                'x': (x0 + sx*np.cumsum([0] + dx)).tolist(),
                'y': (y0 + sy*np.cumsum([0] + dy)).tolist(), 't0': t0})
        c['dt'] = draw(st.sampled_from([.25, .5, 1., 2.]))
        c['perm'] = draw(st.randoms(use_true_random=False)).random()
        c['minlen'] = draw(st.sampled_from([3, 5, 7]))
        c['minnmb'] = draw(st.integers(1, 3))
        c['given'] = draw(st.booleans())
    elif c['kind'] == 'density':
        c['steps'] = draw(st.lists(step(), min_size=1, max_size=5))
        more = draw(st.lists(st.tuples(coord, coord), max_size=8, unique=True))
        c['steps'][-1][c['type']] = c['steps'][-1].get(c['type'], []) + \
            [list(p) for p in more]
        c['fmt'] = draw(st.sampled_from(['normalized', 'ponderated',
                                         'concentration', 'absolute', None]))
    else:
        c['trajs'] = [[draw(st.integers(12, 24)), draw(st.integers(1, 3)),
                       draw(st.floats(0, 6.28)),
                       draw(st.sampled_from([1., -1., 4.5])), draw(coord),
                       draw(coord), draw(tim)]
                      for _ in range(draw(st.integers(1, 3)))]
        c['dt'] = draw(st.sampled_from([.25, .5, 1.]))
        c['dir'] = draw(st.sampled_from(['x', 'y']))
    return c


def run_stats(c, rec):
    rec.label(c['kind'])
    cp = CritPoints(unit_time=c['ut'])
    ux, uy, ut = (make_unit(c[k]) for k in ('ux', 'uy', 'ut'))
    cp.unit_x, cp.unit_y = ux, uy

    def pts(xy, t):
        return Points(xy, v=t, unit_x=c['ux'], unit_y=c['uy'], unit_v=c['ut'])
    if c['kind'] == 'mean':
        trajs, owner = [], []
        for k, tr in enumerate(c['tracks']):
            t = np.arange(len(tr['x']))*c['dt']
            for t0 in tr['t0']:
                trajs.append(pts(np.array([tr['x'], tr['y']]).T, t + t0))
                owner.append(k)
        order = np.random.RandomState(int(c['perm']*1e6)).permutation(
            len(trajs))
        trajs = [trajs[i] for i in order]
        owner = [owner[i] for i in order]
        setattr(cp, c['type'] + '_traj', trajs)
        means, skipped = cp.get_mean_trajectory(
            trajs if c['given'] else c['type'], min_len=c['minlen'],
            min_nmb_to_avg=c['minnmb'])
        long_ = [k for k, tr in enumerate(c['tracks'])
                 if len(tr['x']) >= c['minlen']]
        exp = {k for k in long_ if len(c['tracks'][k]['t0']) >= c['minnmb']}
        if not exp or len(trajs) < 3:
            rec.mark_trivial()
        check(len(means) == len(exp), '{} mean trajectories instead of {}',
              len(means), len(exp))
        nmb = [m.nmb_traj_used for m in means]
        check(nmb == sorted(nmb, reverse=True), 'means not sorted: {}', nmb)
        check(sorted(id(t) for t in skipped) ==
              sorted(id(t) for t, k in zip(trajs, owner)
                     if k in long_ and k not in exp), 'skipped trajectories')
        seen = set()
        for m in means:
            ks = {owner[i] for i, t in enumerate(trajs)
                  if any(t is b for b in m.base_trajs)}
            check(len(ks) == 1, 'mean of different trajectories: {}', ks)
            k = ks.pop()
            check(k in exp and k not in seen, 'mean of the trajectories {}', k)
            seen.add(k)
            tr = c['tracks'][k]
            n = len(tr['x'])
            check(m.nmb_traj_used == len(tr['t0']) == len(m.base_trajs),
                  '{} trajectories in the mean', m.nmb_traj_used)
            close(m.xy, np.array([tr['x'], tr['y']]).T, 'mean trajectory',
                  scale=10.)
            close(m.time, np.arange(n)*c['dt'], 'mean trajectory: time',
                  scale=10.)
            close(m.assoc_std_x, np.zeros(n), 'std along x', scale=10.)
            close(m.assoc_std_y, np.zeros(n), 'std along y', scale=10.)
            for i, ts in enumerate(m.assoc_real_times):
                close(np.sort(ts), np.sort(tr['t0']) + i*c['dt'],
                      'real times', scale=50.)
            same_unit(m.unit_x, ux, 'mean trajectory: x unit')
            same_unit(m.unit_y, uy, 'mean trajectory: y unit')
            same_unit(m.unit_times, ut, 'mean trajectory: time unit')
            # conditional average of fields
            allt = sorted({float(a) for ts in m.assoc_real_times for a in ts})
            tf = TemporalScalarFields()
            for j, a in enumerate(allt):
                f = ScalarField()
                f.import_from_arrays([0., 1., 3.], [0., 2.],
                                     [[j, 1.], [j*j, -j], [7., 2*j]],
                                     unit_x=ux, unit_y=uy, unit_values='m/s')
                tf.add_field(f, time=a, unit_times=ut)
            r = m.reconstruct_fields(tf)
            check(len(r.fields) == n, '{} rebuilt fields', len(r.fields))
            close(r.times, m.time, 'rebuilt fields: times')
            for i in range(n):
                ind = [allt.index(float(a)) for a in m.assoc_real_times[i]]
                close(r.fields[i].values,
                      np.mean([tf.fields[q].values for q in ind], axis=0),
                      'rebuilt field', scale=1.)
            for j in range(len(allt)):
                close(tf.fields[j].values, [[j, 1.], [j*j, -j], [7., 2*j]],
                      'given fields', rtol=0)
        for t, k in zip(trajs, owner):
            tr = c['tracks'][k]
            close(t.xy, np.array([tr['x'], tr['y']]).T, 'given trajectory',
                  rtol=0)
    elif c['kind'] == 'density':
        xy = {t: [] for t in TYPES}
        for i, stp in enumerate(c['steps']):
            kw = {}
            for t in TYPES:
                if t in stp and len(stp[t]):
                    kw[t] = Points(stp[t], unit_x=c['ux'], unit_y=c['uy'])
                    xy[t] += stp[t]
            cp.add_point(time=float(i), **kw)
        n = len(xy[c['type']])
        a = np.array(xy[c['type']]).reshape(-1, 2)
        if n < 2:
            rec.mark_trivial()
            check(cp.get_points_density(c['type'], output_format=c['fmt'])
                  is None, 'density of {} points', n)
            return
        w = np.ptp(a, axis=0)
        if min(w) == 0 or min(w)*20 < 4*max(w) or \
                np.linalg.matrix_rank(np.cov(a.T), tol=1e-6) < 2:
            rec.mark_trivial()
            return
        rec.label('decided density')
        r = cp.get_points_density(c['type'], resolution=20,
                                  output_format=c['fmt'])
        e = Points(a, unit_x=c['ux'], unit_y=c['uy']).get_points_density(
            resolution=20, output_format={'absolute': 'normalized'}.get(
                c['fmt'], c['fmt']))
        k = n/float(sum(len(v) for v in xy.values())) \
            if c['fmt'] == 'absolute' else 1.
        close(r.axe_x, e.axe_x, 'density: x')
        close(r.axe_y, e.axe_y, 'density: y')
        close(np.array(r.values), np.array(e.values)*k, 'density', rtol=1e-9)
        same_unit(r.unit_x, ux, 'density: x unit')
        same_unit(r.unit_y, uy, 'density: y unit')
        same_unit(r.unit_values, e.unit_values, 'density: unit')
    else:
        trajs, true = [], {'min': [], 'max': []}
        for per, nper, ph, amp, b, o, t0 in c['trajs']:
            n = per*nper + 3
            i = np.arange(n)
            a = amp*np.cos(2*np.pi*i/per + ph) + b
            other = o + .125*i
            xy = np.array([a, other] if c['dir'] == 'x' else [other, a]).T
            t = t0 + i*c['dt']
            trajs.append(pts(xy, t))
            for nm, off in (('max', 0 if amp > 0 else np.pi),
                            ('min', np.pi if amp > 0 else 0)):
                p = np.array([(off + 2*np.pi*k - ph)/(2*np.pi)*per
                              for k in range(-3, 12)])
                p = p[(p > 2.5) & (p < n - 3.5)]
                true[nm] += [(len(trajs) - 1, t0 + q*c['dt']) for q in p]
        setattr(cp, c['type'] + '_traj', trajs)
        for t in TYPES:
            if t != c['type']:
                setattr(cp, t + '_traj', [pts([[0., 0.]]*4, np.arange(4.))])
        res = cp.get_traj_direction_changement(c['type'], c['dir'])
        if not true['min'] + true['max']:
            rec.mark_trivial()
        for nm, r in zip(('min', 'max'), res):
            same_unit(r.unit_x, ux, 'direction change: x unit')
            same_unit(r.unit_y, uy, 'direction change: y unit')
            same_unit(r.unit_v, ut, 'direction change: time unit')
            on = [[] for _ in trajs]
            for (x, y), t in zip(r.xy, r.v):
                ok = False
                for j, tr in enumerate(trajs):
                    if not tr.v[0] - 1e-9 <= t <= tr.v[-1] + 1e-9:
                        continue
                    if abs(np.interp(t, tr.v, tr.xy[:, 0]) - x) < 1e-6 and \
                            abs(np.interp(t, tr.v, tr.xy[:, 1]) - y) < 1e-6:
                        on[j].append(t)
                        ok = True
                check(ok, 'direction change out of the trajectories: {} {} {}',
                      x, y, t)
            for j, t in true[nm]:
                check(any(abs(a - t) < 1.01*c['dt'] for a in on[j]),
                      '{} of trajectory {} at {} not in {}', nm, j, t, on[j])


SUBS = [
    Sub('statistics', stats_case(), run_stats,
        'three trajectories or more with a mean, a density that is defined, '
        'or some change of direction', quick=300),
    Sub('history', history(), run_history,
        'at least two times and two points at the end', quick=1500),
    Sub('walk', walk_case(), run_walk,
        'some trajectory with at least three points', quick=600),
    Sub('topo', topo_case(), run_topo,
        'some time with at least two points', quick=600),
    Sub('refine', refine_case(), run_refine, 'some point', quick=120),
]
