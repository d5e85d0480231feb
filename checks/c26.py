"""C26: detection of critical points and vortices."""
import numpy as np
from hypothesis import strategies as st

from IMTreatment import make_unit
from IMTreatment import vortex_detection as vod
from IMTreatment.core import Points, VectorField, TemporalVectorFields
from scipy.interpolate import RectBivariateSpline
from IMTreatment.vortex_criterions import (get_gamma, get_kappa,
                                           get_residual_vorticity)
from harness.core import Sub, check, close, same_unit, fail, expect_raises
from harness import gens as g

ASSUMPTIONS = [
    'cells with a null velocity at a corner, or with opposite velocities at '
    'two neighbour corners, have no defined index: nothing is asserted there',
    'the type of a point is decided from the mean velocity gradients of its '
    'cell, when these are not at the limit between two types',
    'orientations of saddle points are decided on linear fields',
    'zones (gamma and criterion methods) are decided on evenly spaced grids, '
    'away from the threshold']

TYPES = ['foc', 'foc_c', 'node_i', 'node_o', 'sadd']


# ---------------------------------------------------------------------- fields
@st.composite
def field(draw, lo=3, hi=7, even=None):
    c = {'x': draw(g.axis(lo, hi, even=even)), 'y': draw(g.axis(lo, hi, even=even)),
         'ux': draw(st.sampled_from(['', 'm', 'mm'])),
         'uy': draw(st.sampled_from(['', 'm', 'mm'])),
         'uv': draw(st.sampled_from(['', 'm/s']))}
    nx, ny = len(c['x']), len(c['y'])
    kind = draw(st.sampled_from(['random', 'random', 'linear', 'linear',
                                 'waves']))
    c['kind'] = kind
    if kind == 'random':
        e = draw(st.sampled_from(['int', 'float']))
        el = st.integers(-3, 3).map(float) if e == 'int' else g.number(-8, 8)
        c['vx'] = draw(g.grid(nx, ny, elem=el))
        c['vy'] = draw(g.grid(nx, ny, elem=el))
    elif kind == 'linear':
        c['j'] = [draw(g.nonzero(-4, 4)) for _ in range(4)]
        c['c'] = [draw(st.integers(1, 99))/100., draw(st.integers(1, 99))/100.]
        c['s'] = draw(st.sampled_from([1., 1e-3, 1e3]))
    else:
        c['w'] = [[draw(st.sampled_from([.5, .8, 1.3, 2.])) for _ in range(2)] +
                  [draw(g.quarter(-3, 3)) for _ in range(4)]
                  for _ in range(2)]
    return c


def values(c):
    x, y = np.array(c['x'], dtype=float), np.array(c['y'], dtype=float)
    if c['kind'] == 'random':
        return x, y, np.array(c['vx'], dtype=float), \
            np.array(c['vy'], dtype=float)
    X, Y = np.meshgrid(x, y, indexing='ij')
    if c['kind'] == 'linear':
        x0 = x[0] + c['c'][0]*(x[-1] - x[0])
        y0 = y[0] + c['c'][1]*(y[-1] - y[0])
        a, b, d, e = c['j']
        return x, y, c['s']*(a*(X - x0) + b*(Y - y0)), \
            c['s']*(d*(X - x0) + e*(Y - y0))
    out = []
    X, Y = (X - x[0])/(x[1] - x[0]), (Y - y[0])/(y[1] - y[0])
    for k1, k2, p1, p2, q1, q2 in c['w']:
        out.append(np.sin(k1*X + p1 + .1) + np.cos(k2*Y + p2 + .2) + .3*q1 +
                   .1*q2*np.sin(X*Y))
    return x, y, out[0], out[1]


def build(c):
    x, y, vx, vy = values(c)
    f = VectorField()
    f.import_from_arrays(x, y, vx, vy, unit_x=c['ux'], unit_y=c['uy'],
                         unit_values=c['uv'])
    return f


def zeros(p):
    """Positions (from 0 to 1) of the zeros of a bilinear cell p[comp][i][j]."""
    a, b = p[:, 0, 0], p[:, 1, 0] - p[:, 0, 0]
    c = p[:, 0, 1] - p[:, 0, 0]
    d = p[:, 1, 1] - a - b - c

    def cross(u, v):
        return u[0]*v[1] - u[1]*v[0]
    # (a + c t) + s (b + d t) = 0
    co = [cross(c, d), cross(a, d) + cross(c, b), cross(a, b)]
    big = max(np.abs(co))
    if big == 0:
        return []
    co = np.array(co)/big
    co[np.abs(co) < 1e-14] = 0
    out = []
    for t in np.roots(co):
        t = float(np.real(t))
        den = b + d*t
        if np.dot(den, den) == 0:
            continue
        s = -np.dot(a + c*t, den)/np.dot(den, den)
        out.append((s, t))
    return out


def bil(p, s, t):
    return p[:, 0, 0]*(1 - s)*(1 - t) + p[:, 1, 0]*s*(1 - t) + \
        p[:, 0, 1]*(1 - s)*t + p[:, 1, 1]*s*t


class Cell(object):
    def __init__(self, x, y, v, i, j):
        self.x, self.y = x[i:i+2], y[j:j+2]
        self.dx, self.dy = x[i+1] - x[i], y[j+1] - y[j]
        self.p = v[:, i:i+2, j:j+2]
        self.big = np.abs(self.p).max()
        self.center = np.array([x[i] + self.dx/2., y[j] + self.dy/2.])
        ring = [self.p[:, a, b] for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
        self.sure = True
        w = 0.
        for k in range(4):
            u, z = ring[k], ring[(k + 1) % 4]
            n = np.hypot(*u)*np.hypot(*z)
            if n == 0 or min(np.hypot(*u), np.hypot(*z)) < 1e-9*self.big:
                self.sure = False
                break
            cr, dt = u[0]*z[1] - u[1]*z[0], np.dot(u, z)
            if abs(cr) < 1e-9*n and dt < 0:
                self.sure = False
                break
            w += np.arctan2(cr, dt)
        self.index = int(round(w/(2*np.pi)))
        self.types = self.get_types() if self.sure and self.index else []
        self.zero = None
        if self.types:
            ok = [z for z in zeros(self.p)
                  if all(-1e-7 < k < 1 + 1e-7 for k in z) and
                  np.abs(bil(self.p, *z)).max() < 1e-7*self.big]
            if len(ok) > 1:
                # twice the same root
                if np.ptp(ok, axis=0).max() > 1e-4:
                    ok = []
            if ok:
                self.zero = np.array([self.x[0] + ok[0][0]*self.dx,
                                      self.y[0] + ok[0][1]*self.dy])

    def get_types(self):
        if self.index == -1:
            return ['sadd']
        p = self.p
        gx = (p[:, 1, 0] - p[:, 0, 0] + p[:, 1, 1] - p[:, 0, 1])/2./self.dx
        gy = (p[:, 0, 1] - p[:, 0, 0] + p[:, 1, 1] - p[:, 1, 0])/2./self.dy
        tr, det = gx[0] + gy[1], gx[0]*gy[1] - gx[1]*gy[0]
        norm = abs(gx[0]) + abs(gx[1]) + abs(gy[0]) + abs(gy[1])
        disc = tr**2 - 4*det
        if abs(disc) < 1e-6*norm**2 or det < 1e-6*norm**2:
            return ['foc', 'foc_c', 'node_i', 'node_o']
        if disc < 0:
            return ['foc'] if gx[1] > 0 else ['foc_c']
        return ['node_o'] if tr > 0 else ['node_i']

    def has(self, pt, tol=1e-6):
        return all(a[0] - tol*d <= k <= a[1] + tol*d for a, d, k in
                   ((self.x, self.dx, pt[0]), (self.y, self.dy, pt[1])))

    def residual(self, pt):
        s, t = (pt[0] - self.x[0])/self.dx, (pt[1] - self.y[0])/self.dy
        return np.abs(bil(self.p, s, t)).max()/self.big


def cells(c):
    x, y, vx, vy = values(c)
    v = np.array([vx, vy])
    return [Cell(x, y, v, i, j) for i in range(len(x) - 1)
            for j in range(len(y) - 1)]


def collect(cp, k=0):
    return [(t, np.array(p, dtype=float)) for t in TYPES
            for p in getattr(cp, t)[k].xy]


def units(cp, f, time_unit, what):
    same_unit(cp.unit_x, f.unit_x, what + ': unit_x')
    same_unit(cp.unit_y, f.unit_y, what + ': unit_y')
    same_unit(cp.unit_time, make_unit(time_unit), what + ': unit of times')
    for t in TYPES:
        for p in getattr(cp, t):
            same_unit(p.unit_x, f.unit_x, what + ': unit_x of the points')
            same_unit(p.unit_y, f.unit_y, what + ': unit_y of the points')


def compare(found, cs, kind, what):
    """The points found are the ones of the cells."""
    left = list(found)
    n = 0
    for ce in cs:
        if not ce.types:
            continue
        n += 1
        if kind == 'cell':
            near = [q for q in left if np.allclose(
                q[1], ce.center, rtol=1e-9, atol=1e-9*max(ce.dx, ce.dy))]
        else:
            near = [q for q in left if ce.has(q[1]) and
                    (ce.residual(q[1]) < 1e-4 or ce.zero is None)]
        good = [q for q in near if q[0] in ce.types]
        check(good, '{}: no {} in the cell x={} y={} with velocities {} ({}): '
              'found {}', what, ce.types, ce.x.tolist(), ce.y.tolist(),
              ce.p.tolist(), ce.zero, [(q[0], q[1].tolist()) for q in left])
        # the one of this cell
        if ce.zero is not None:
            good.sort(key=lambda q: np.abs(q[1] - ce.zero).max())
        for k, q in enumerate(left):
            if q is good[0]:
                del left[k]
                break
    for t, p in left:
        check(any(not ce.sure and ce.has(p) for ce in cs), '{}: {} found at '
              '{}, but no cell has one there', what, t, p.tolist())
    return n


# ---------------------------------------------------------------------- a field
@st.composite
def one_case(draw):
    return {'f': draw(field()), 't': draw(g.quarter(-3, 3)),
            'ut': draw(st.sampled_from(['', 's', 'ms'])),
            'mirror': draw(st.sampled_from([None, None, 'x0', 'x1', 'y0',
                                            'y1'])),
            'gap': draw(st.sampled_from([.25, .5])),
            'interp': draw(st.sampled_from(['linear', 'nearest', 'value',
                                            'cubic'])),
            'smooth': draw(st.integers(0, 5)) == 0,
            'masked': draw(st.integers(0, 9)) == 0}


def same_cp(a, b, what):
    check(len(a.times) == len(b.times), '{}: {} times', what, len(a.times))
    close(a.times, b.times, what + ': times')
    for t in TYPES:
        for p, q in zip(getattr(a, t), getattr(b, t)):
            check(len(p.xy) == len(q.xy), '{}: {} {} instead of {}', what,
                  len(p.xy), t, len(q.xy))
            if len(p.xy):
                close(p.xy, q.xy, what + ': positions of ' + t)


def run_one(c, rec):
    f = build(c['f'])
    keep = f.copy()
    cs = cells(c['f'])
    kw = {'time': c['t'], 'unit_time': c['ut']}
    if c['masked']:
        m = f.copy()
        mk = np.zeros(f.shape, dtype=bool)
        mk[0, 0] = True
        m.mask = mk
        expect_raises(lambda: vod.get_critical_points(m), 'masked field')
    res = vod.get_critical_points(f, kind='pbi_cell', **kw)
    check(f == keep, 'the field has changed')
    units(res, f, c['ut'], 'cells')
    close(res.times, [c['t']], 'time')
    n = compare(collect(res), cs, 'cell', 'cells')
    fine = vod.get_critical_points(f, kind='pbi', **kw)
    check(f == keep, 'the field has changed')
    units(fine, f, c['ut'], 'points')
    close(fine.times, [c['t']], 'time')
    compare(collect(fine), cs, 'point', 'points')
    for t in TYPES:
        p = getattr(fine, t)[0]
        if len(p.xy):
            close(p.v, [c['t']]*len(p.xy), 'time of the points')
    if n == 0:
        rec.mark_trivial()
    rec.label(c['f']['kind'], 'n:{}'.format(min(n, 4)))
    for ce in cs:
        if ce.types:
            rec.label('or'.join(ce.types))
    # orientations
    x, y, _, _ = values(c['f'])
    if c['f']['kind'] == 'linear' and all(ce.sure for ce in cs) and \
            len(fine.sadd[0].xy) == 1:
        p = fine.sadd[0].xy[0]
        i, j = np.searchsorted(x, p[0]) - 1, np.searchsorted(y, p[1]) - 1
        inside = 1 <= i < len(x) - 2 and 1 <= j < len(y) - 2
        o = np.array(fine.sadd[0].orientations[0], dtype=float)
        jac = np.array(c['f']['j']).reshape(2, 2)*np.sign(c['f']['s'])
        ev = np.sort(np.real(np.linalg.eigvals(jac)))[::-1]
        on_node = np.min(np.abs(x - p[0])) < 1e-6*(x[-1] - x[0]) or \
            np.min(np.abs(y - p[1])) < 1e-6*(y[-1] - y[0])
        if not on_node:
            if inside:
                for k in range(2):
                    close(np.hypot(*o[k]), 1., 'orientation: norm', rtol=1e-6)
                    close(jac.dot(o[k]), ev[k]*o[k], 'orientation {} of a '
                          'saddle point'.format(k), rtol=1e-6,
                          scale=np.abs(jac).sum())
                rec.label('oriented')
            else:
                check(not np.any(o), 'orientation near the border: {}', o)
    # smoothing
    if c['smooth'] and min(f.shape) > 2:
        s = f.smooth(tos='gaussian', size=1, inplace=False)
        same_cp(vod.get_critical_points(f, smoothing_size=1, **kw),
                vod.get_critical_points(s, **kw), 'smoothed')
        check(f == keep, 'the field has been smoothed')
        rec.label('smoothed')
    # walls
    if c['mirror'] is not None and min(f.shape) > 2 and \
            all(ce.sure and len(ce.types) < 2 for ce in cs) and \
            np.allclose(np.diff(x), x[1] - x[0]) and \
            np.allclose(np.diff(y), y[1] - y[0]):
        ax = x if c['mirror'][0] == 'x' else y
        pos = ax[0] - c['gap']*(ax[1] - ax[0]) if c['mirror'][1] == '0' else \
            ax[-1] + c['gap']*(ax[-1] - ax[-2])
        mir = vod.get_critical_points(f, mirroring=[[c['mirror'][0], pos]],
                                      mirror_interp=c['interp'], **kw)
        check(f == keep, 'the field has been mirrored')
        ex, ey = 1e-6*(x[-1] - x[0]), 1e-6*(y[-1] - y[0])
        inner = [q for q in collect(mir)
                 if x[0] + ex < q[1][0] < x[-1] - ex and
                 y[0] + ey < q[1][1] < y[-1] - ey]
        plain = [q for q in collect(fine)
                 if x[0] + ex < q[1][0] < x[-1] - ex and
                 y[0] + ey < q[1][1] < y[-1] - ey]
        check(len(inner) == len(plain), 'wall: {} points inside of the field '
              'instead of {}', [(q[0], q[1].tolist()) for q in inner],
              [(q[0], q[1].tolist()) for q in plain])
        for q in plain:
            check(any(q[0] == z[0] and abs(q[1][0] - z[1][0]) < 10*ex and
                      abs(q[1][1] - z[1][1]) < 10*ey for z in inner),
                  'wall: {} at {} is lost', q[0], q[1].tolist())
        rec.label('wall')


@st.composite
def saddle_case(draw):
    c = draw(one_case())
    f = {'x': draw(g.axis(5, 8)), 'y': draw(g.axis(5, 8)), 'kind': 'linear',
         'ux': 'm', 'uy': 'm', 'uv': 'm/s',
         's': draw(st.sampled_from([1., -1., 1e-3, 1e3]))}
    f['j'] = draw(st.tuples(*[g.quarter(-4, 4)]*4).map(list).filter(
        lambda j: j[0]*j[3] - j[1]*j[2] < 0))
    f['c'] = [draw(st.integers(20, 80))/100. for _ in range(2)]
    c['f'] = f
    return c


# -------------------------------------------------------------------- a series
@st.composite
def series_case(draw):
    f = draw(field(lo=3, hi=5))
    n = draw(st.integers(1, 4))
    c = {'f': f, 'coefs': [draw(g.quarter(-2, 2)) for _ in range(n)],
         'shift': [draw(g.quarter(-2, 2)) for _ in range(n)],
         'kind': draw(st.sampled_from(['pbi', 'pbi_cell'])),
         'ut': draw(st.sampled_from(['', 's'])),
         'thread': 2 if draw(st.integers(0, 39)) == 0 else 1,
         'mirror': draw(st.sampled_from([None, None, 'nearest', 'value']))}
    ts = draw(st.lists(g.quarter(-5, 5), min_size=n, max_size=n, unique=True))
    c['ts'] = ts
    return c


def run_series(c, rec):
    base = build(c['f'])
    fs = TemporalVectorFields()
    big = max(np.abs(base.comp_x).max(), np.abs(base.comp_y).max())
    for k, (a, b, t) in enumerate(zip(c['coefs'], c['shift'], c['ts'])):
        f = base.copy()
        f.comp_x = base.comp_x*a + b*big*.3
        f.comp_y = base.comp_y*(a + .5) - b*big*.1
        fs.add_field(f, time=t, unit_times=c['ut'])
    keep = fs.copy()
    kw = {'kind': c['kind']}
    if c['mirror'] and min(base.shape) > 2:
        x = np.array(c['f']['x'])
        kw.update(mirroring=[['x', x[0] - .5*(x[1] - x[0])]],
                  mirror_interp=c['mirror'])
    res = vod.get_critical_points(fs, thread=c['thread'], **kw)
    check(fs == keep, 'the series has changed')
    units(res, base, c['ut'], 'series')
    close(res.times, np.sort(c['ts']), 'series: times')
    n = 0
    for k in range(len(c['ts'])):
        one = vod.get_critical_points(fs.fields[k], time=fs.times[k],
                                      unit_time=c['ut'], **kw)
        for t in TYPES:
            a, b = getattr(res, t)[k], getattr(one, t)[0]
            n += len(b.xy)
            check(len(a.xy) == len(b.xy), 'series: {} {} at time {} instead '
                  'of {}', len(a.xy), t, fs.times[k], len(b.xy))
            if len(b.xy):
                close(a.xy, b.xy, 'series: positions')
                if c['kind'] == 'pbi':
                    close(a.v, [fs.times[k]]*len(a.xy), 'series: times of '
                          'the points')
    rec.label(c['kind'], 'threads' if c['thread'] > 1 else 'thread')
    if n == 0 or len(c['ts']) < 2:
        rec.mark_trivial()


# -------------------------------------------------------- refined with criteria
@st.composite
def crit_case(draw):
    f = draw(field(lo=6, hi=11, even=True))
    if 'c' in f:
        f['c'] = [draw(st.integers(35, 65))/100. for _ in range(2)]
    return {'f': f, 'w': draw(st.sampled_from([4, 4, 6]))}


def run_crit(c, rec):
    f = build(c['f'])
    keep = f.copy()
    a = vod.get_critical_points(f, kind='pbi_cell')
    b = vod.get_critical_points(f, kind='pbi_crit', window_size=c['w'])
    check(f == keep, 'the field has changed')
    units(b, f, '', 'criteria')
    x, y, _, _ = values(c['f'])
    dx, dy = x[1] - x[0], y[1] - y[0]
    sa = np.array([p for t, p in collect(a) if t == 'sadd'])
    sb = np.array([p for t, p in collect(b) if t == 'sadd'])
    check(sa.shape == sb.shape, 'criteria: saddle points')
    pa = [p for t, p in collect(a) if t != 'sadd']
    pb = [p for t, p in collect(b) if t != 'sadd']
    check(len(pa) == len(pb), 'criteria: {} points instead of {}', len(pb),
          len(pa))
    half = c['w']/2. + 1.5
    for p in pb:
        check(any(abs(p[0] - q[0]) <= half*dx and abs(p[1] - q[1]) <= half*dy
                  for q in pa), 'criteria: no point near of {}', p)
    if not pb:
        rec.mark_trivial()
    # each point goes where the largest of its criteria is largest
    left = collect(b)
    for t, q in collect(a):
        kind, best, crit = t, q, None
        sx = np.abs(x - q[0]) < np.ceil((c['w'] + 1)/2.)*dx*(1 - 1e-9)
        sy = np.abs(y - q[1]) < np.ceil((c['w'] + 1)/2.)*dy*(1 - 1e-9)
        if t != 'sadd' and sx.sum() > c['w'] + 1 and sy.sum() > c['w'] + 1:
            w = VectorField()
            w.import_from_arrays(x[sx], y[sy],
                                 np.array(f.comp_x)[np.ix_(sx, sy)],
                                 np.array(f.comp_y)[np.ix_(sx, sy)])
            ga = get_gamma(w, radius=c['w']/4., ind=True)
            ka = get_kappa(w, radius=c['w']/4., ind=True)
            ext = [abs(z) for z in (ga.max, ga.min, ka.max, ka.min)]
            top = sorted([max(ext[:2]), max(ext[2:])])
            rot = max(ext[:2]) > max(ext[2:])
            u, v = ext[:2] if rot else ext[2:]
            if top[1] - top[0] < 1e-6 or abs(u - v) < 1e-6:
                return      # a tie
            kind = ('foc' if u > v else 'foc_c') if rot else \
                ('node_o' if u > v else 'node_i')
            crit = ga if rot else ka
            if u < v:
                crit = crit*(-1.)
            crit.crop_masked_border(inplace=True)
            if len(crit.axe_x) < 4 or len(crit.axe_y) < 4:
                return
            rec.label('refined ' + kind)
        if crit is None:
            got = [z for z in left if z[0] == kind and
                   np.all(np.abs(z[1] - best) <= 1e-9*(np.abs(best) + dx + dy))]
            check(got, 'criteria: no {} at {} in {}', kind, best, left)
        else:
            sp = RectBivariateSpline(crit.axe_x, crit.axe_y, crit.values, s=0)
            fx = np.linspace(crit.axe_x[0], crit.axe_x[-1], 100)
            fy = np.linspace(crit.axe_y[0], crit.axe_y[-1], 100)
            most = sp(fx, fy).max()
            got = [z for z in left if z[0] == kind and
                   fx[0] - 1e-9*dx <= z[1][0] <= fx[-1] + 1e-9*dx and
                   fy[0] - 1e-9*dy <= z[1][1] <= fy[-1] + 1e-9*dy and
                   sp(*z[1])[0, 0] >= most - 1e-6]
            check(got, 'criteria: no {} where the criterion is largest, near '
                  '{}: {}', kind, q, left)


# ----------------------------------------------------------------------- zones
@st.composite
def zone_case(draw):
    f = draw(field(lo=3, hi=8, even=True))
    return {'f': f, 'crit': draw(st.sampled_from(['vx', 'vx', 'arg', 'res',
                                                  'gamma'])),
            'arg': draw(g.nonzero(-3, 3)), 'w': draw(st.sampled_from([1, 2])),
            'thr': draw(st.sampled_from([.25, .5, .75, .9])),
            'rel': draw(st.booleans()), 'abs': draw(st.integers(1, 12))/4.,
            'n': draw(st.integers(1, 3)),
            'coefs': [draw(g.quarter(-2, 2)) for _ in range(3)]}


def by_vx(vf):
    return vf.comp_x_as_sf


def by_arg(vf, fact):
    return vf.comp_y_as_sf*fact


def centers(v, x, y, lo, hi):
    """Weighted centers of the zones between two values."""
    z = (v >= lo) & (v <= hi)
    seen = np.zeros(v.shape, dtype=bool)
    out = []
    for i0, j0 in np.argwhere(z):
        if seen[i0, j0]:
            continue
        stack, zone = [(i0, j0)], []
        seen[i0, j0] = True
        while stack:
            i, j = stack.pop()
            zone.append((i, j))
            for a, b in ((i-1, j), (i+1, j), (i, j-1), (i, j+1)):
                if 0 <= a < v.shape[0] and 0 <= b < v.shape[1] and z[a, b] \
                        and not seen[a, b]:
                    seen[a, b] = True
                    stack.append((a, b))
        w = np.array([abs(v[k]) for k in zone])
        xx = np.array([[x[k[0]], y[k[1]]] for k in zone])
        out.append((xx*w[:, None]).sum(axis=0)/w.sum())
    return np.array(sorted(map(tuple, out))) if out else np.zeros((0, 2))


def match(got, want, what, sc):
    check(len(got) == len(want), '{}: {} instead of {}', what,
          np.array(got).tolist(), np.array(want).tolist())
    left = [np.array(p) for p in got]
    for q in want:
        k = int(np.argmin([np.abs((p - q)/sc).max() for p in left]))
        check(np.abs((left[k] - q)/sc).max() < 1e-6, '{}: {} instead of {}',
              what, left[k], q)
        left.pop(k)


def run_zones(c, rec):
    base = build(c['f'])
    fields = []
    for k in range(c['n']):
        f = base.copy()
        if k:
            f.comp_x = base.comp_x*c['coefs'][k]
            f.comp_y = base.comp_y*(c['coefs'][k] + .25)
        fields.append(f)
    series = TemporalVectorFields()
    for k, f in enumerate(fields):
        series.add_field(f, time=k*1.5, unit_times='s')
    keep = series.copy()
    want = []
    skip = False
    for f in fields:
        if c['crit'] == 'gamma':
            if min(f.shape) < 2*c['w'] + 2:
                skip = True
                break
            sf = get_gamma(f, radius=c['w'], ind=True, kind='gamma1')
            lim = 2/np.pi
            top = 1.
        else:
            sf = {'vx': by_vx, 'arg': lambda v: by_arg(v, c['arg']),
                  'res': get_residual_vorticity}[c['crit']](f)
            top = np.max(np.abs(sf.values[~sf.mask]))
            lim = c['thr']*top if c['rel'] else c['abs']
        ok = ~sf.mask
        i, j = np.where(ok)
        if not len(i) or not np.all(ok[i.min():i.max()+1, j.min():j.max()+1]) \
                or i.min() == i.max() or j.min() == j.max():
            skip = True
            break
        v = sf.values[i.min():i.max()+1, j.min():j.max()+1]
        x = f.axe_x[i.min():i.max()+1]
        y = f.axe_y[j.min():j.max()+1]
        if lim == 0 or np.min(np.abs(np.abs(v) - lim)) < 1e-4*lim or \
                np.any(~np.isfinite(v)):
            skip = True
            break
        want.append((centers(v, x, y, lim, np.inf),
                     centers(v, x, y, -np.inf, -lim)))
    if skip:
        rec.mark_trivial()
        return
    kw = {}
    if c['crit'] != 'gamma':
        kw = {'criterion': {'vx': by_vx, 'arg': by_arg,
                            'res': get_residual_vorticity}[c['crit']],
              'threshold': c['thr'] if c['rel'] else c['abs'],
              'rel': c['rel']}
        if c['crit'] == 'arg':
            kw['criterion_args'] = {'fact': c['arg']}

    def find(o):
        if c['crit'] == 'gamma':
            return vod.get_critical_points(o, kind='gam_vort',
                                           window_size=c['w'])
        return vod.get_vortex_position(o, **kw)
    sc = np.array([fields[0].axe_x[1] - fields[0].axe_x[0],
                   fields[0].axe_y[1] - fields[0].axe_y[0]])
    one = find(fields[0])
    close(one.times, [0], 'zones: time')
    units(one, base, '', 'zones')
    match(one.foc[0].xy, want[0][0], 'direct vortices', sc)
    match(one.foc_c[0].xy, want[0][1], 'indirect vortices', sc)
    res = find(series)
    check(series == keep, 'the series has changed')
    units(res, base, 's', 'series of zones')
    close(res.times, series.times, 'zones: times')
    for k in range(c['n']):
        match(res.foc[k].xy, want[k][0], 'series: direct vortices', sc)
        match(res.foc_c[k].xy, want[k][1], 'series: indirect vortices', sc)
    rec.label(c['crit'], 'zones:{}'.format(min(4, sum(
        len(a) + len(b) for a, b in want))))
    if not any(len(a) + len(b) for a, b in want):
        rec.mark_trivial()


SUBS = [
    Sub('field', one_case(), run_one, 'at least one critical point', quick=400),
    Sub('saddles', saddle_case(), run_one, 'at least one critical point',
        quick=100),
    Sub('series', series_case(), run_series,
        'at least two fields and one critical point', quick=200),
    Sub('criteria', crit_case(), run_crit, 'at least one vortex or node',
        quick=400),
    Sub('zones', zone_case(), run_zones, 'at least one zone', quick=200),
]
