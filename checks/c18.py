"""C18: streamlines, field lines and track lines."""
import numpy as np
from hypothesis import strategies as st
from scipy import interpolate

from IMTreatment import make_unit, Points
from IMTreatment.core import OrientedPoints
from IMTreatment import field_treatment as ft
from harness.core import Sub, check, close, same_unit, fail, expect_raises
from harness import gens as g

ASSUMPTIONS = [
    'between grid points the velocity is the bilinear interpolation (or the '
    'cubic spline, when asked) of the field',
    'steps are decided where the velocity is above one hundredth of its maximum '
    'and where no neighbour is masked; the last point may be outside of the '
    'field, by one step',
    'time along a streamline is in units of the height of the field over the '
    'maximum velocity',
    'boundary_tr="hide" and rel_err are not decided']


@st.composite
def flow(draw, masks=True, min_size=2):
    c = draw(g.vf_case(min_size=min_size, max_size=6, masks=masks and
                       draw(st.integers(0, 3)) == 0))
    c['uy'] = c['ux']
    kind = draw(st.sampled_from(['any', 'affine', 'affine', 'vortex',
                                 'uniform']))
    X, Y = np.meshgrid(c['x'], c['y'], indexing='ij')
    lx, ly = X[-1, 0] - X[0, 0], Y[0, -1] - Y[0, 0]
    if kind == 'affine':
        k = [draw(st.integers(-8, 8))/4. for _ in range(6)]
        k[2] += .3
        c['vx'] = (k[0]*(X - X[0, 0])/lx + k[1]*(Y - Y[0, 0])/ly + k[2]).tolist()
        c['vy'] = (k[3]*(X - X[0, 0])/lx + k[4]*(Y - Y[0, 0])/ly + k[5]).tolist()
    elif kind == 'vortex':
        s = draw(st.sampled_from([1., -1.]))
        cx, cy = draw(st.floats(.2, .8)), draw(st.floats(.2, .8))
        c['vx'] = (-s*((Y - Y[0, 0]) - cy*ly)*lx).tolist()
        c['vy'] = (s*((X - X[0, 0]) - cx*lx)*ly).tolist()
    elif kind == 'uniform':
        a, b = draw(g.quarter(-2, 2)), draw(g.nonzero(-2, 2))
        c['vx'] = np.full(X.shape, a).tolist()
        c['vy'] = np.full(X.shape, b).tolist()
    if draw(st.integers(0, 3)):
        # velocities in proportion of the sides of the field
        k = max(lx, ly)
        c['vx'] = (np.array(c['vx'])*lx/k).tolist()
        c['vy'] = (np.array(c['vy'])*ly/k).tolist()
    c['flow'] = kind
    pts = []
    for _ in range(draw(st.integers(1, 3))):
        u, v = [draw(st.integers(-10, 49))/40. + .0123 for _ in range(2)]
        if draw(st.integers(0, 3)):
            u, v = u % 1., v % 1.
        x, y = c['x'][0] + u*lx, c['y'][0] + v*ly
        pts.append([float(x), float(y)])
    c['pts'] = pts
    c['form'] = draw(st.sampled_from(['list', 'array', 'single']))
    c['reverse'] = draw(st.booleans())
    return c


def bilinear(x, y, v):
    """Bilinear interpolation on the grid (clamped outside)."""
    def f(px, py):
        i = int(np.clip(np.searchsorted(x, px, side='right') - 1, 0,
                        len(x) - 2))
        j = int(np.clip(np.searchsorted(y, py, side='right') - 1, 0,
                        len(y) - 2))
        a = min(max((px - x[i])/(x[i + 1] - x[i]), 0.), 1.)
        b = min(max((py - y[j])/(y[j + 1] - y[j]), 0.), 1.)
        return ((1 - a)*(1 - b)*v[i, j] + a*(1 - b)*v[i + 1, j] +
                (1 - a)*b*v[i, j + 1] + a*b*v[i + 1, j + 1])
    return f


class Flow(object):
    def __init__(self, m, vx, vy, cubic=False):
        self.x, self.y, self.mask = m.x, m.y, m.mask
        if cubic:
            sx = interpolate.RectBivariateSpline(m.x, m.y, vx)
            sy = interpolate.RectBivariateSpline(m.x, m.y, vy)
            self.u = lambda a, b: sx(a, b)[0, 0]
            self.v = lambda a, b: sy(a, b)[0, 0]
        else:
            self.u, self.v = bilinear(m.x, m.y, vx), bilinear(m.x, m.y, vy)
        self.vmax = np.nanmax(np.hypot(vx, vy))

    def at(self, p):
        return np.array([self.u(p[0], p[1]), self.v(p[0], p[1])])

    def inside(self, p):
        return (self.x[0] <= p[0] <= self.x[-1] and
                self.y[0] <= p[1] <= self.y[-1])

    def cell(self, p):
        i = int(np.clip(np.searchsorted(self.x, p[0], side='right') - 1, 0,
                        len(self.x) - 2))
        j = int(np.clip(np.searchsorted(self.y, p[1], side='right') - 1, 0,
                        len(self.y) - 2))
        return i, j

    def known(self, p):
        """No masked point around."""
        i, j = self.cell(p)
        return not self.mask[max(i - 1, 0):i + 3, max(j - 1, 0):j + 3].any()

    def go(self, p, t):
        """Runge-Kutta integration during t; also gives the slowest speed
        (0 when the way is too long for the cells of the grid)."""
        small = min(np.diff(self.x).min(), np.diff(self.y).min())
        n = max(24, int(t*self.vmax/small*20))
        if n > 400:
            return p, 0.
        h = t/n
        slow = np.inf
        for _ in range(n):
            k1 = self.at(p)
            k2 = self.at(p + h/2*k1)
            k3 = self.at(p + h/2*k2)
            k4 = self.at(p + h*k3)
            slow = min(slow, np.hypot(*k1))
            p = p + h/6*(k1 + 2*k2 + 2*k3 + k4)
        return p, slow


@st.composite
def lines_case(draw):
    c = draw(flow())
    c['fun'] = draw(st.sampled_from(['stream', 'stream', 'field', 'track']))
    c['kind'] = draw(st.sampled_from(['length', 'length', 'time']))
    c['res'] = draw(st.sampled_from([.25, .5, .1] if c['kind'] == 'length'
                                    else [.1, .05]))
    c['steps'] = draw(st.sampled_from([30, 10, 3, 1]))
    if draw(st.integers(0, 4)) == 0 and c['m'] is None:
        c['pts'] = [[round(a), round(b)] for a, b in c['pts']]
    return c


FUN = {'stream': ft.get_streamlines, 'field': ft.get_fieldlines,
       'track': ft.get_tracklines}


def run_lines(c, rec):
    f = g.build_vf(c)
    m = g.G.of_case(c)
    vx, vy = [np.where(m.mask, 0., v) for v in m.comps]
    if c['fun'] == 'field':
        vx, vy = vy, -vx
    elif c['fun'] == 'track':
        vx, vy = -vy, vx
    sign = -1. if c['reverse'] else 1.
    fl = Flow(m, sign*vx, sign*vy)
    rec.label(c['fun'], c['flow'], c['kind'], 'up' if c['reverse'] else 'down')
    pts = c['pts']
    if c['form'] == 'single':
        pts = pts[:1]
    lx, ly = m.x[-1] - m.x[0], m.y[-1] - m.y[0]
    # a start exactly on the border, or at rest: not decided
    pts = [p for p in pts if not near_border(fl, p, lx, ly)
           and np.hypot(*fl.at(p)) > .02*fl.vmax]
    if not pts or fl.vmax < 1e-9:
        rec.mark_trivial()
        return
    arg = pts if c['form'] != 'array' else np.array(pts)
    if c['form'] == 'single':
        arg = pts[0]
    out = FUN[c['fun']](f, arg, reverse=c['reverse'], resolution=c['res'],
                        resolution_kind=c['kind'], max_steps=c['steps'])
    starts = [p for p in pts if fl.inside(p)]
    lines = [out] if isinstance(out, Points) else list(out)
    check(len(lines) == len(starts), '{} lines for {} points inside',
          len(lines), len(starts))
    dxy = ((m.x[1] - m.x[0])/lx + (m.y[1] - m.y[0])/ly)/2
    scale_t = ly/fl.vmax
    steps = 0
    for p0, line in zip(starts, lines):
        xy = np.array(line.xy)
        same_unit(line.unit_x, m.ux, 'line: unit_x')
        same_unit(line.unit_y, m.uy, 'line: unit_y')
        close(xy[0], p0, 'first point', rtol=1e-7, scale=lx + ly +
              np.abs(p0).max())
        check(np.all(np.isfinite(xy)), 'line: not finite')
        check(len(xy) <= c['steps'] + 1, '{} points for {} steps', len(xy),
              c['steps'])
        ts = np.array(line.v)
        check(len(ts) == len(xy), 'line: {} times', len(ts))
        check(ts[0] == 0 and np.all(np.diff(ts) > 0), 'line: times {}',
              ts.tolist())
        if c['kind'] == 'time':
            close(np.diff(ts), np.full(len(ts) - 1, c['res']), 'time steps',
                  rtol=1e-7, scale=1.)
        for i in range(len(xy) - 1):
            a, b = xy[i], xy[i + 1]
            # no line goes on from outside or from a masked point
            check(fl.inside(a), 'the line goes on from outside: {}', a.tolist())
            ni, nj = nearest(m, a)
            if ni is not None:
                check(not m.mask[ni, nj], 'the line goes on from a masked '
                      'point: {}', a.tolist())
            if not (fl.inside(b) and fl.known(a) and fl.known(b)):
                continue
            want, slow = fl.go(a, (ts[i + 1] - ts[i])*scale_t)
            if slow < .01*fl.vmax or not (fl.inside(want) and fl.known(want)):
                continue
            tol = 2e-2*np.hypot(*((want - a)/[lx, ly])) + 1e-4
            err = np.hypot(*((want - b)/[lx, ly]))
            check(err < tol, 'step {}: from {} to {} instead of {}', i,
                  a.tolist(), b.tolist(), want.tolist())
            steps += 1
            if c['kind'] == 'length':
                # the step asked, for the velocity at its beginning
                va = fl.at(a)/fl.vmax
                rate = np.hypot(va[0]*ly/lx, va[1])
                close((ts[i + 1] - ts[i])*rate, dxy*c['res'], 'length of a '
                      'step', rtol=1e-3)
        # the line only stops for a reason
        last = xy[-1]
        ni, nj = nearest(m, last)
        if len(xy) < c['steps'] + 1 and fl.inside(last) and fl.known(last) \
                and np.hypot(*fl.at(last)) > .2*fl.vmax:
            nxt, slow = fl.go(last, .25*c['res']*scale_t)
            if c['kind'] == 'time':
                nxt, slow = fl.go(last, c['res']*scale_t)
                if np.hypot(*((nxt - last)/[lx, ly])) < 1.5*dxy/40:
                    continue
            if slow > .1*fl.vmax and not near_border(fl, last, lx, ly):
                fail('the line stops at {} after {} points', last.tolist(),
                     len(xy))
    if not steps:
        rec.mark_trivial()
    g.same_field(f, m, 'lines: the field given')


def near_border(fl, p, lx, ly):
    return min(abs(p[0] - fl.x[0])/lx, abs(p[0] - fl.x[-1])/lx,
               abs(p[1] - fl.y[0])/ly, abs(p[1] - fl.y[-1])/ly) < 1e-6


def nearest(m, p):
    """Nearest grid point, None at the same distance of two of them."""
    out = []
    for axe, z in ((m.x, p[0]), (m.y, p[1])):
        d = np.abs(axe - z)
        o = np.sort(d)
        if o[1] - o[0] < 1e-6*(axe[-1] - axe[0]):
            return None, None
        out.append(int(np.argmin(d)))
    return out


# ------------------------------------------------------------ fast streamlines
@st.composite
def fast_case(draw):
    cubic = draw(st.integers(0, 2)) == 0
    c = draw(flow(masks=draw(st.integers(0, 3)) == 0, min_size=4 if cubic
                  else 2))
    c['interp'] = 'cubic' if cubic else 'linear'
    c['delta'] = draw(st.sampled_from([.25, .25, .5, .1, 1.]))
    c['oriented'] = draw(st.integers(0, 3)) == 0
    return c


def run_fast(c, rec):
    f = g.build_vf(c)
    m = g.G.of_case(c)
    src = m
    if m.mask.any():
        fill = f.copy()
        fill.fill(inplace=True)
        src = g.G.of_field(fill)
        if src.mask.any():
            rec.mark_trivial()
            return
    sign = -1. if c['reverse'] else 1.
    fl = Flow(m, sign*src.comps[0], sign*src.comps[1],
              cubic=c['interp'] == 'cubic')
    lx, ly = m.x[-1] - m.x[0], m.y[-1] - m.y[0]
    pts = c['pts'][:1] if c['form'] == 'single' else c['pts']
    pts = [p for p in pts if not near_border(fl, p, lx, ly)]
    if not pts:
        rec.mark_trivial()
        return
    arg = pts[0] if c['form'] == 'single' else np.array(pts) \
        if c['form'] == 'array' else pts
    rec.label(c['flow'], c['interp'], 'up' if c['reverse'] else 'down')
    if c['oriented']:
        rec.label('oriented points')
        op = OrientedPoints(np.array(pts), unit_x=m.ux, unit_y=m.uy,
                            orientations=np.ones((len(pts), 1, 2)))
        out = op.get_streamlines(f, delta=c['delta'], interp=c['interp'],
                                 reverse_direction=c['reverse'])
    else:
        out = ft.get_streamlines_fast(f, arg, delta=c['delta'],
                                      interp=c['interp'], reverse=c['reverse'])
    starts = [p for p in pts if fl.inside(p)]
    lines = [] if out is None else list(out)
    check(len(lines) == len(starts), '{} lines for {} points inside',
          len(lines), len(starts))
    cands = [c['delta']*(lx/(len(m.x) - k) + ly/(len(m.y) - k))/2
             for k in (0, 1)]
    longest = int(np.round((len(m.x) + len(m.y))/c['delta']))
    done = 0
    for p0, line in zip(starts, lines):
        xy = np.array(line.xy)
        same_unit(line.unit_x, m.ux, 'fast line: unit_x')
        same_unit(line.unit_y, m.uy, 'fast line: unit_y')
        close(xy[0], p0, 'first point', scale=lx + ly)
        size = np.hypot(*np.diff(xy, axis=0).T)
        if len(size):
            step = [z for z in cands if abs(size[0] - z) < 1e-6*z]
            check(step, 'step {} instead of {}', size[0], cands)
            step = step[0]
            close(size, np.full(len(size), step), 'steps', rtol=1e-6)
        else:
            step = cands[0]
        for i in range(len(xy) - 1):
            check(fl.inside(xy[i]), 'the line goes on from outside')
            v = fl.at(xy[i])
            if np.hypot(*v) < 1e-6*fl.vmax:
                continue
            want = xy[i] + v/np.hypot(*v)*step
            close(xy[i + 1], want, 'step {}'.format(i), rtol=1e-6,
                  scale=lx + ly)
            done += 1
        last = xy[-1]
        if fl.inside(last) and np.hypot(*fl.at(last)) > 1e-6*fl.vmax and \
                len(xy) < longest - 1 and not near_border(fl, last, lx, ly):
            # the only other reason to stop is to come back on its path
            old = xy[:max(len(xy) - 10, 0)]
            check(len(old) and np.min(np.hypot(*(old - last).T)) < step,
                  'the line stops at {} after {} points', last.tolist(),
                  len(xy))
            rec.label('loop')
    if not done:
        rec.mark_trivial()
    g.same_field(f, m, 'fast lines: the field given')


# ------------------------------------------------- lines from the orientations
@st.composite
def orient_case(draw):
    c = draw(flow(masks=False))
    n = draw(st.integers(1, 2))
    c['ors'] = [[[draw(g.quarter(-1, 1)), draw(g.quarter(-1, 1))]
                 for _ in range(n)] for _ in c['pts']]
    c['rev'] = draw(st.one_of(st.booleans(),
                              st.lists(st.booleans(), min_size=n, max_size=n)))
    return c


def run_orient(c, rec):
    f = g.build_vf(c)
    m = g.G.of_case(c)
    fl = Flow(m, *m.comps)
    lx, ly = m.x[-1] - m.x[0], m.y[-1] - m.y[0]
    n = len(c['ors'][0])
    off = .25*np.array([m.x[1] - m.x[0], m.y[1] - m.y[0]])
    expected = []
    for p, os in zip(c['pts'], c['ors']):
        for k, o in enumerate(os):
            if o == [0, 0]:
                continue
            for s in (-1, 1):
                q = np.array(p) + s*off*o
                if near_border(fl, q, lx, ly) or \
                        np.hypot(*fl.at(q)) < .02*fl.vmax + 1e-9:
                    rec.mark_trivial()
                    return
                rv = c['rev'] if isinstance(c['rev'], bool) else c['rev'][k]
                if fl.inside(q):
                    expected.append((p, q, rv))
    op = OrientedPoints(np.array(c['pts']), unit_x=m.ux, unit_y=m.uy,
                        orientations=np.array(c['ors'], dtype=float))
    out = op.get_streamlines_from_orientations(f, reverse_direction=c['rev'])
    check(len(out) == len(expected), '{} lines instead of {}', len(out),
          len(expected))
    if not expected:
        rec.mark_trivial()
    for line, (p, q, rv) in zip(out, expected):
        ref = ft.get_streamlines(f, [float(q[0]), float(q[1])], reverse=rv)
        close(line.xy[0], p, 'first point: the point', scale=lx + ly)
        check(len(line.xy) == len(ref.xy) + 1, '{} points instead of {}',
              len(line.xy), len(ref.xy) + 1)
        close(line.xy[1:], ref.xy, 'line from the orientation', rtol=1e-6,
              scale=lx + ly)


SUBS = [
    Sub('lines', lines_case(), run_lines,
        'at least one step between two known points', quick=900),
    Sub('fast', fast_case(), run_fast,
        'at least one step with a velocity that is not null', quick=400),
    Sub('orientations', orient_case(), run_orient,
        'at least one line from a point that is not at rest', quick=100),
]
