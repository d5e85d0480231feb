"""C09: Profile analysis: cropping, filling, resampling, interpolation,
calculus, spectra, correlations and distributions."""
import numpy as np
from hypothesis import strategies as st

from harness.core import (Sub, check, close, same_bool, same_unit, fail,
                          expect_raises)
from harness import gens as g
from checks.c08 import P, same_prof
from IMTreatment import Profile, make_unit

ASSUMPTIONS = ['lower x bounds lying strictly between two points may also '
               'exclude the first point above them (pinned by the test suite)',
               'quadratic and cubic filling are decided on affine profiles '
               'and by keeping the valid points',
               'gaussian_kde, welch and cwt of scipy are trusted',
               'rotations are checked on profiles without masked points',
               'duplicates are exact and other points well separated']


def valid(m):
    k = ~np.isnan(m.y)
    return m.x[k], m.y[k]


def small(masks=True, **kw):
    kw.setdefault('max_size', 10)
    return g.prof_case(masks=masks, scales=False, **kw)


def apply(p, meth, inplace, *a, **kw):
    """Call a method with 'inplace'; give (result, original or None)."""
    if inplace:
        getattr(p, meth)(*a, inplace=True, **kw)
        return p
    return getattr(p, meth)(*a, inplace=False, **kw)


# ----------------------------------------------------------------------- crop
@st.composite
def crop_case(draw):
    c = draw(small(min_size=2, max_size=10))
    c['how'] = draw(st.sampled_from(['x', 'x', 'y', 'xy', 'ind', 'border']))
    n = len(c['x'])
    b = sorted(draw(st.lists(st.integers(-1, 2*n), min_size=2, max_size=2,
                             unique=True)))
    c['b'] = b
    c['by'] = sorted(draw(st.lists(g.number(-40, 40), min_size=2, max_size=2,
                                   unique=True)))
    c['inplace'] = draw(st.booleans())
    return c


def bound(x, k):
    """Position number k: even at points, odd between or beyond them."""
    n = len(x)
    if k < 0:
        return x[0] - 1.
    if k > 2*(n - 1):
        return x[-1] + 1. + k
    if k % 2 == 0:
        return x[k//2]
    return .5*(x[k//2] + x[k//2 + 1])


def run_crop(c, rec):
    p, m = g.build_prof(c), P.of_case(c)
    how = c['how']
    rec.label(how, 'inplace' if c['inplace'] else 'new')
    n = len(m.x)
    lo, hi = bound(m.x, c['b'][0]), bound(m.x, c['b'][1])
    keep = np.ones(n, bool)
    loose = False
    kw = {}
    if how in ('x', 'xy'):
        kw['intervx'] = [float(lo), float(hi)]
        keep &= (m.x >= lo) & (m.x <= hi)
        loose = m.x[0] < lo and lo not in m.x
        if lo == hi or not keep.any() or (loose and keep.sum() < 2):
            rec.mark_trivial()
            return
    if how in ('y', 'xy'):
        y0, y1 = c['by']
        if y1 - y0 < 1e-9*(abs(y0) + abs(y1)) or y0 in m.y or y1 in m.y:
            # whether the bounds themselves are included is left open
            rec.mark_trivial()
            return
        kw['intervy'] = [float(y0), float(y1)]
        with np.errstate(invalid='ignore'):
            keep &= (m.y > y0) & (m.y < y1)
    if how == 'ind':
        i0, i1 = sorted(abs(k) % (n + 1) for k in c['b'])
        if i0 == i1:
            rec.mark_trivial()
            return
        kw.update(intervx=[int(i0), int(i1)], ind=True)
        keep = (np.arange(n) >= i0) & (np.arange(n) < i1)
    if how == 'border':
        k = np.where(~np.isnan(m.y))[0]
        keep = (np.arange(n) >= k[0]) & (np.arange(n) <= k[-1])
        r = apply(p, 'crop_masked_border', c['inplace'])
    else:
        r = apply(p, 'crop', c['inplace'], **kw)
    if keep.all():
        rec.mark_trivial()
    e = P(m.x[keep], m.y[keep], m.ux, m.uy, m.name)
    if loose:
        rec.label('lower bound between points')
        first = np.where((m.x >= lo) & (m.x <= hi))[0][0]
        keep2 = keep.copy()
        keep2[first] = False
        if len(r.x) == keep2.sum():
            e = P(m.x[keep2], m.y[keep2], m.ux, m.uy, m.name)
    same_prof(r, e, 'crop ' + how, name=m.name)
    if not c['inplace']:
        same_prof(p, m, 'crop ' + how + ': original', name=m.name)
        expect_raises(lambda: p.crop(intervx=[hi, lo]), 'reversed interval')
        expect_raises(lambda: p.crop(intervx=[m.x[-1] + 1, m.x[-1] + 2]),
                      'interval beyond the profile')
        expect_raises(lambda: p.crop(intervx=[0, n + 1], ind=True),
                      'index beyond the profile')
        same_prof(p, m, 'crop: original after rejected calls')


# ----------------------------------------------------------------------- fill
@st.composite
def fill_case(draw):
    c = draw(small(min_size=2, max_size=10))
    n = len(c['x'])
    if draw(st.integers(0, 3)):
        c['m'] = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
    if c['m'] is not None and all(c['m']):
        c['m'][0] = 0
    c['kind'] = draw(st.sampled_from(['linear', 'slinear', 'nearest', 'zero',
                                      'value', 'cubic', 'quadratic',
                                      'default']))
    c['fv'] = draw(g.quarter(-9, 9))
    c['affine'] = [draw(g.quarter(-5, 5)), draw(g.quarter(-5, 5))] \
        if c['kind'] in ('cubic', 'quadratic') or draw(st.booleans()) else None
    c['inplace'] = draw(st.booleans())
    c['crop'] = draw(st.booleans())
    return c


def run_fill(c, rec):
    if c['affine'] is not None:
        c = dict(c, y=[c['affine'][0]*x + c['affine'][1] for x in c['x']])
    p, m = g.build_prof(c), P.of_case(c)
    vx, vy = valid(m)
    need = {'value': 1, 'cubic': 4, 'quadratic': 3}.get(c['kind'], 2)
    if len(vx) < need:
        rec.mark_trivial()
        return
    rec.label(c['kind'], 'inplace' if c['inplace'] else 'new',
              'crop' if c['crop'] else 'keep')
    if not np.isnan(m.y).any():
        rec.mark_trivial()
    kw = dict(crop=c['crop'])
    if c['kind'] != 'default':
        kw['kind'] = c['kind']
    if c['kind'] == 'value':
        kw['fill_value'] = float(c['fv'])
    r = apply(p, 'fill', c['inplace'], **kw)
    check(isinstance(r, Profile), 'fill gave {!r}', r)
    x, y = m.x, m.y
    if c['crop']:
        k = (x >= vx[0]) & (x <= vx[-1])
        x, y = x[k], y[k]
    miss = np.isnan(y)
    close(r.x, x, 'fill: x')
    ry = np.array(r.y, dtype=float)
    check(not np.any(r.mask), 'fill {}: still masked: {}', c['kind'], r.mask)
    close(ry[~miss], y[~miss], 'fill {}: valid points'.format(c['kind']),
          rtol=1e-14)
    sc = np.max(np.abs(vy)) + np.max(np.abs(vx))
    ins = miss & (x > vx[0]) & (x < vx[-1])
    bef, aft = miss & (x < vx[0]), miss & (x > vx[-1])
    if c['kind'] == 'value':
        close(ry[miss], np.full(miss.sum(), float(c['fv'])), 'fill value')
    else:
        close(ry[bef], np.full(bef.sum(), vy[0]), 'fill: before the data')
        close(ry[aft], np.full(aft.sum(), vy[-1]), 'fill: after the data')
        if c['kind'] in ('linear', 'slinear', 'default') or \
                (c['kind'] in ('quadratic', 'cubic') and
                 c['affine'] is not None):
            close(ry[ins], np.interp(x[ins], vx, vy),
                  'fill {}: inside'.format(c['kind']), scale=sc,
                  rtol=1e-9 if c['kind'][1] != 'u' else 1e-7)
        elif c['kind'] in ('nearest', 'zero'):
            for xi, yi in zip(x[ins], ry[ins]):
                if c['kind'] == 'nearest':
                    d = np.abs(vx - xi)
                    cand = vy[d <= d.min()*(1 + 1e-9)]
                else:
                    cand = vy[[np.searchsorted(vx, xi) - 1]]
                check(np.any(np.abs(cand - yi) <= 1e-12*sc),
                      'fill {}: {} at {}, candidates {}', c['kind'], yi, xi,
                      cand)
    same_unit(r.unit_x, m.ux, 'fill: x unit')
    same_unit(r.unit_y, m.uy, 'fill: y unit')
    check(r.name == m.name, 'fill: name {!r}', r.name)
    if not c['inplace']:
        same_prof(p, m, 'fill: original', name=m.name)


# -------------------------------------------------------------- interpolation
@st.composite
def interp_case(draw):
    c = draw(small(min_size=2, max_size=10,
                   elem=draw(st.sampled_from([g.quarter(-4, 4), g.number()]))))
    c['t'] = draw(st.lists(st.floats(0, 1), min_size=1, max_size=4))
    c['yv'] = draw(st.one_of(st.integers(0, 9), g.quarter(-4, 4)))
    c['exact'] = draw(st.booleans())
    return c


def ref_positions(x, y, v):
    """Positions where the broken line through valid neighbours takes v."""
    out = list(x[y == v])
    for i in range(len(x) - 1):
        if np.isnan(y[i]) or np.isnan(y[i + 1]):
            continue
        if (y[i] - v)*(y[i + 1] - v) < 0:
            out.append(x[i] + (v - y[i])/(y[i + 1] - y[i])*(x[i + 1] - x[i]))
    return np.array(sorted(out))


def run_interp(c, rec):
    p, m = g.build_prof(c), P.of_case(c)
    vx, vy = valid(m)
    if len(vx) < 2:
        rec.mark_trivial()
        return
    sc = np.max(np.abs(vy))
    xs = vx[0] + np.array(c['t'])*(vx[-1] - vx[0])
    xs = np.clip(xs, vx[0], vx[-1])
    f = p.get_interpolator()
    for xi in xs:
        close(f(xi), np.interp(xi, vx, vy), 'interpolator', scale=sc)
    close(f(vx), vy, 'interpolator at the points', scale=sc)
    expect_raises(lambda: f(vx[-1] + 1), 'extrapolation')
    f2 = p.get_interpolator(bounds_error=False, fill_value=-5.)
    close(f2(vx[0] - 1), -5., 'interpolator: fill value')
    # interpolated values: between two valid neighbours
    n = len(m.x)
    pos = m.x[0] + np.array(c['t'])*(m.x[-1] - m.x[0])
    pos = np.clip(pos, m.x[0], m.x[-1])
    good = []
    for xi in pos:
        i = min(np.searchsorted(m.x, xi, side='right') - 1, n - 2)
        if np.isnan(m.y[i]) or np.isnan(m.y[i + 1]):
            continue
        good.append(xi)
        r = p.get_interpolated_values(x=float(xi))
        check(len(r) == 1, 'value at {}: {}', xi, r)
        close(float(r[0]), np.interp(xi, m.x[i:i + 2], m.y[i:i + 2]),
              'interpolated value', scale=sc)
        fi = i + (xi - m.x[i])/(m.x[i + 1] - m.x[i])
        r = p.get_interpolated_values(x=float(fi), ind=True)
        check(len(r) == 1, 'value at index {}: {}', fi, r)
        close(float(r[0]), np.interp(fi, [i, i + 1], m.y[i:i + 2]),
              'interpolated value at an index', scale=sc)
    if good:
        r = p.get_interpolated_values(x=good)
        close(r, [np.interp(xi, m.x, m.y) if not np.isnan(m.y).any() else
                  float(p.get_interpolated_values(x=float(xi))[0])
                  for xi in good], 'array of interpolated values', scale=sc)
    # inverse
    v = float(c['yv'])
    if c['exact']:
        v = float(vy[int(abs(v)*4) % len(vy)])
    ref = ref_positions(m.x, m.y, v)
    rec.label('{} positions'.format(min(len(ref), 3)))
    if len(ref) == 0:
        rec.mark_trivial()
    xsc = np.max(np.abs(m.x))
    got = np.sort(np.array(p.get_value_position(v), dtype=float))
    close(got, ref, 'get_value_position({})'.format(v), scale=xsc, rtol=1e-9)
    gi = np.sort(np.array(p.get_value_position(v, ind=True), dtype=float))
    close(gi, ref_positions(np.arange(n)*1., m.y, v),
          'get_value_position({}, ind)'.format(v), scale=n, rtol=1e-9)
    r = np.array(p.get_interpolated_values(y=v), dtype=float)
    if v in m.y:
        check(np.all(np.isin(m.x[m.y == v], r)),
              'get_interpolated_values(y={}) gives {}, points at {}', v, r,
              m.x[m.y == v])
    else:
        close(np.sort(r), ref, 'get_interpolated_values(y={})'.format(v),
              scale=xsc)
    same_prof(p, m, 'original after interpolation', name=m.name)


# ------------------------------------------------------------------- calculus
@st.composite
def calc_case(draw):
    c = draw(small(min_size=3, max_size=10, even=True))
    c['pos'] = draw(st.floats(-0.3, 1.3))
    c['x2'] = draw(g.axis(3, 9, None, False))
    c['dx'] = draw(st.sampled_from([None, .25, .5]))
    return c


def run_calc(c, rec):
    p, m = g.build_prof(c), P.of_case(c)
    x, y, n = m.x, m.y, len(m.x)
    rec.label('masked' if np.isnan(y).any() else 'clear')
    dx = x[1] - x[0]
    # gradient
    e = np.empty(n)
    e[1:-1] = (y[2:] - y[:-2])/(2*dx)
    e[0], e[-1] = (y[1] - y[0])/dx, (y[-1] - y[-2])/dx
    r = p.get_gradient()
    u = m.uy/m.ux
    sc = np.nanmax(np.abs(y))/dx
    k = float((u/r.unit_y).asNumber(1)) if hasattr(r.unit_y, 'asNumber') else 1
    same_prof(r, P(x, e, m.ux, u), 'gradient', physical=True,
              yscale=sc*abs(k), rtol=1e-8)
    # at one position
    if not np.isnan(y).any():
        pos = x[0] + c['pos']*(x[-1] - x[0])
        d = dx if c['dx'] is None else c['dx']*dx
        kw = {} if c['dx'] is None else {'wanted_dx': d}

        def f(t):
            t = np.asarray(t)
            i = np.clip(np.searchsorted(x, t) - 1, 0, n - 2)
            return y[i] + (y[i + 1] - y[i])/(x[i + 1] - x[i])*(t - x[i])
        gr = p.get_gradient(position=float(pos), **kw)
        if pos < x[0]:
            ex = (f(pos + d) - f(pos))/d
        elif pos > x[-1]:
            ex = (f(pos) - f(pos - d))/d
        else:
            ex = (f(pos + d) - f(pos - d))/(2*d)
        amp = np.max(np.abs(np.diff(y)))/dx*(1 + abs(c['pos'])*n)
        close(gr, ex, 'gradient at {}'.format(pos), scale=amp + sc, rtol=1e-7)
    # integral, on any spacing
    c2 = dict(c, x=c['x2'], y=(c['y']*4)[:len(c['x2'])],
              m=None if c['m'] is None else (c['m']*4)[:len(c['x2'])])
    for cc in (c, c2):
        q, mm = g.build_prof(cc), P.of_case(cc)
        vx, vy = valid(mm)
        val, un = q.get_integral()
        ex = float(np.sum((vy[1:] + vy[:-1])*np.diff(vx))/2)
        ue = mm.ux*mm.uy
        try:
            k = float((un/ue).asNumber(1))
        except Exception:
            fail('integral: unit {} instead of {}', un, ue)
        sc = float(np.sum((abs(vy[1:]) + abs(vy[:-1]))*np.diff(vx))) or 1.
        close(val*k, ex, 'integral', scale=sc)
        same_prof(q, mm, 'original after integration')
    same_prof(p, m, 'original', name=m.name)
    if np.all(np.isnan(e)):
        rec.mark_trivial()
    un = np.array(x)
    un[-1] += dx*.5
    expect_raises(lambda: Profile(un, c['y']).get_gradient(),
                  'gradient on uneven points')


# ------------------------------------------------------------------- spectrum
@st.composite
def spec_case(draw):
    c = draw(small(min_size=6, max_size=24, even=True))
    n = len(c['x'])
    if n < 6:
        raise AssertionError
    c['scaling'] = draw(st.sampled_from(['base', 'spectrum', 'density']))
    c['detrend'] = draw(st.sampled_from(['none', 'constant', 'linear']))
    c['seg'] = draw(st.sampled_from([None, None, 4, 5]))
    c['wx'] = draw(st.sampled_from([None, None, [1, n - 2], [0, n//2]]))
    c['fill'] = draw(st.sampled_from(['linear', 'nearest', 2., 'default']))
    return c


def lin_detrend(t, v):
    a = np.vstack([np.ones(len(t)), t - np.mean(t)]).T
    co = np.linalg.lstsq(a, v, rcond=None)[0]
    return v - a.dot(co)


def filled(m, kind):
    vx, vy = valid(m)
    y = m.y.copy()
    b = np.isnan(y)
    if isinstance(kind, float):
        y[b] = kind
    elif kind == 'nearest':
        for i in np.where(b)[0]:
            d = np.abs(vx - m.x[i])
            if np.sum(d <= d.min()*(1 + 1e-9)) > 1:
                return None
            y[i] = vy[np.argmin(d)]
    else:
        y[b] = np.interp(m.x[b], vx, vy)
    return y


def run_spec(c, rec):
    p, m = g.build_prof(c), P.of_case(c)
    rec.label(c['scaling'], c['detrend'],
              'welch' if c['seg'] else 'periodogram')
    kw = dict(scaling=c['scaling'], detrend=c['detrend'])
    if c['seg']:
        kw['welch_seglen'] = c['seg']
    mm = m
    if c['wx'] is not None:
        a, b = c['wx']
        kw['wanted_x'] = [float(m.x[a]), float(m.x[b])]
        mm = P(m.x[a:b + 1], m.y[a:b + 1], m.ux, m.uy)
        rec.label('interval')
    if np.sum(~np.isnan(mm.y)) < 2 or len(mm.x) < 3:
        rec.mark_trivial()
        return
    fk = 'linear'
    if c['fill'] != 'default':
        kw['fill'] = fk = c['fill']
    if fk == 'nearest' and np.isnan(mm.y[[0, -1]]).any():
        pass
    y = filled(mm, fk)
    if y is None:
        rec.mark_trivial()
        return
    r = p.get_spectrum(**kw)
    t, n = mm.x, len(mm.x)
    fs = 1/(t[1] - t[0])
    if c['seg'] and c['seg'] < n:
        from scipy.signal import welch
        v = y - y.mean()
        if c['detrend'] == 'linear':
            v = lin_detrend(t, v)
        fr, S = welch(v, fs, nperseg=c['seg'],
                      scaling='density' if c['scaling'] == 'density'
                      else 'spectrum')
    else:
        v = lin_detrend(t, y)
        X = np.array([np.sum(v*np.exp(-2j*np.pi*k*np.arange(n)/n))
                      for k in range(n//2 + 1)])
        S = np.abs(X)**2/(n*n if c['scaling'] != 'density' else fs*n)
        S[1:] *= 2
        if n % 2 == 0:
            S[-1] /= 2
        fr = np.arange(n//2 + 1)*fs/n
    u = {'base': m.uy, 'spectrum': m.uy**2,
         'density': m.uy**2*m.ux}[c['scaling']]
    amp = np.max(np.abs(y - y.mean())) + 1e-12*np.max(np.abs(y)) + 1e-300
    if c['scaling'] == 'base':
        S = np.sqrt(S)
        sc = amp
    else:
        sc = amp**2*(1 if c['scaling'] == 'spectrum' else 1/fs)
    # rounding of the removed trend
    noise = np.max(np.abs(y))/amp
    close(r.x, fr, 'spectrum: frequencies')
    same_unit(r.unit_x, 1/m.ux, 'spectrum: frequency unit')
    k = 1.
    try:
        k = float((u/r.unit_y).asNumber(1))
    except Exception:
        fail('spectrum: unit {} instead of {}', r.unit_y, u)
    close(np.array(r.y)/k, S, 'spectrum', scale=sc*max(noise, 1)*max(noise, 1),
          rtol=1e-7 if c['scaling'] != 'base' else 3e-7)
    same_prof(p, m, 'original', name=m.name)
    if noise > 1e3:
        rec.mark_trivial()


# ------------------------------------------------------------------- resample
@st.composite
def resample_case(draw):
    c = draw(small(min_size=2, max_size=9))
    c['how'] = draw(st.sampled_from(['augment', 'even', 'smooth', 'smooth',
                                     'rotate']))
    c['fact'] = draw(st.integers(1, 4))
    c['div'] = draw(st.sampled_from([None, 1, 2, 3, 5, 2.6, 7.3]))
    c['tos'] = draw(st.sampled_from(['uniform', 'gaussian']))
    c['size'] = draw(st.sampled_from([None, 1, 3, 5, 2]))
    c['dir'] = draw(st.sampled_from(['y', 'y', 'x', 'xy', None]))
    c['angle'] = draw(st.floats(-4, 4))
    c['inplace'] = draw(st.booleans())
    return c


def ref_smooth(v, tos, size):
    n = len(v)
    if tos == 'uniform':
        off = [j - size//2 for j in range(size)]
        w = np.ones(size)/size
    else:
        rad = int(4*size + .5)
        off = list(range(-rad, rad + 1))
        w = np.exp(-.5*(np.array(off)/size)**2)
        w /= w.sum()
    return np.array([np.sum(w*v[np.clip(i + np.array(off), 0, n - 1)])
                     for i in range(n)])


def run_resample(c, rec):
    p, m = g.build_prof(c), P.of_case(c)
    how = c['how']
    rec.label(how, 'inplace' if c['inplace'] else 'new')
    vx, vy = valid(m)
    if len(vx) < 2:
        rec.mark_trivial()
        return
    sc = np.max(np.abs(vy))
    if how == 'augment':
        f = c['fact']
        rec.label('x{}'.format(f))
        r = apply(p, 'augment_resolution', c['inplace'], fact=f)
        k = (m.x >= vx[0]) & (m.x <= vx[-1])
        nn = (k.sum() - 1)*f + 1
        check(len(r.x) == nn, 'augment_resolution: {} points instead of {}',
              len(r.x), nn)
        check(not np.any(r.mask), 'augment_resolution: masked points')
        kk = np.arange(k.sum())*f
        vk = ~np.isnan(m.y[k])
        ex = np.interp(np.arange(nn), kk[vk], vx)
        ey = np.interp(np.arange(nn), kk[vk], vy)
        close(r.x, ex, 'augment_resolution: x')
        close(r.y, ey, 'augment_resolution: y', scale=sc)
    elif how == 'even':
        if np.isnan(m.y[[0, -1]]).any():
            rec.mark_trivial()
            return
        L = m.x[-1] - m.x[0]
        n = len(m.x)
        if c['div'] is None:
            r = p.evenly_space(inplace=c['inplace'])
            allowed = [n - 1]
        else:
            d = L/c['div']
            r = p.evenly_space(dx=float(d), inplace=c['inplace'])
            allowed = [int(c['div'])] if c['div'] == int(c['div']) else \
                [int(c['div']), int(c['div']) + 1]
        if c['inplace']:
            r = p
        ni = len(r.x) - 1
        check(ni in allowed, 'evenly_space: {} intervals, expected {}', ni,
              allowed)
        ex = m.x[0] + np.arange(ni + 1)*L/ni
        close(r.x, ex, 'evenly_space: x', scale=np.max(np.abs(m.x)))
        even0 = np.all(np.abs(np.diff(m.x) - L/(n - 1)) < 1e-6*L/n)
        ey = np.interp(ex, vx, vy)
        if not (even0 and c['div'] is None):
            check(not np.any(r.mask), 'evenly_space: masked points')
            jump = np.max(np.abs(np.diff(vy)/np.diff(vx)))*L
            close(r.y, ey, 'evenly_space: y', scale=sc + jump)
        else:
            rec.mark_trivial()
            ok = ~np.array(r.mask)
            close(np.array(r.y)[ok], ey[ok], 'evenly_space: y',
                  scale=sc + np.max(np.abs(np.diff(vy)/np.diff(vx)))*L)
    elif how == 'smooth':
        size, tos = c['size'], c['tos']
        rec.label(tos)
        kw = {}
        if size is not None:
            kw['size'] = size
        if c['dir'] is not None:
            kw['direction'] = c['dir']
        if tos == 'gaussian' or c['angle'] > 0:
            kw['tos'] = tos
        if tos == 'uniform' and size == 2:
            # the side of an even window is left open
            rec.mark_trivial()
            return
        r = apply(p, 'smooth', c['inplace'], **kw)
        size = size or (3 if tos == 'uniform' else 1)
        y = m.y.copy()
        b = np.isnan(y)
        y[b] = np.interp(m.x[b], vx, vy)
        x = m.x
        d = c['dir'] or 'y'
        if 'y' in d:
            y = ref_smooth(y, tos, size)
        if 'x' in d:
            x = ref_smooth(x, tos, size)
        if np.any(np.diff(x) <= 1e-9*(1 + np.max(np.abs(x)))):
            rec.mark_trivial()
            return
        same_prof(r, P(x, y, m.ux, m.uy), 'smooth', yscale=sc, name=m.name)
    elif how == 'rotate':
        if np.isnan(m.y).any():
            rec.mark_trivial()
            return
        r = p.rotate(c['angle'], inplace=c['inplace'])
        if c['inplace']:
            r = p
        ca, sa = np.cos(c['angle']), np.sin(c['angle'])
        nx, ny = m.x*ca + m.y*sa, m.y*ca - m.x*sa
        if np.any(np.diff(np.sort(nx)) < 1e-9*np.max(np.abs(nx))):
            rec.mark_trivial()
        else:
            S = np.max(np.abs(m.x)) + sc
            e = P(nx, ny, m.ux, m.uy)
            close(r.x, e.x, 'rotate: x', scale=S)
            close(r.y, e.y, 'rotate: y', scale=S)
    same_unit(r.unit_x, m.ux, how + ': x unit')
    same_unit(r.unit_y, m.uy, how + ': y unit')
    if not c['inplace']:
        same_prof(p, m, how + ': original', name=m.name)


# ------------------------------------------------------------------- outliers
@st.composite
def outlier_case(draw):
    c = draw(small(min_size=5, max_size=14))
    n = len(c['x'])
    c['how'] = draw(st.sampled_from(['marginal', 'local', 'doublons']))
    c['fact'] = draw(st.sampled_from([.5, 1., 1.5, 2.]))
    c['neighb'] = draw(st.sampled_from([1, 2, 4]))
    c['dup'] = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n))
    c['extra'] = draw(st.lists(g.number(), min_size=2*n, max_size=2*n))
    c['method'] = draw(st.sampled_from(['average', 'min', 'max', None]))
    c['inplace'] = draw(st.booleans())
    return c


def run_outlier(c, rec):
    how = c['how']
    rec.label(how, 'inplace' if c['inplace'] else 'new')
    if how == 'doublons':
        xs, ys = [], []
        it = iter(c['extra'])
        groups = []
        for x, y, d in zip(c['x'], c['y'], c['dup']):
            vals = [y] + [next(it) for _ in range(d)]
            groups.append((x, vals))
            xs += [x]*len(vals)
            ys += vals
        meth = c['method'] or 'average'
        f = {'average': np.mean, 'min': np.min, 'max': np.max}[meth]
        p = Profile(xs, ys, unit_x=c['ux'], unit_y=c['uy'], name=c['name'])
        kw = {} if c['method'] is None else {'method': c['method']}
        r = apply(p, 'remove_doublons', c['inplace'], **kw)
        groups.sort()
        if not any(c['dup']):
            rec.mark_trivial()
        ex = np.array([x for x, _ in groups], dtype=float)
        ey = np.array([f(np.array(v, dtype=float)) for _, v in groups])
        rms = np.sqrt(np.mean(np.array(xs, dtype=float)**2))
        check(len(r.x) == len(ex), 'remove_doublons: {} points instead of {}',
              len(r.x), len(ex))
        close(r.x, ex, 'remove_doublons: x', rtol=0, atol=1e-5*rms)
        close(r.y, ey, 'remove_doublons: y', scale=np.max(np.abs(ys)))
        if not c['inplace']:
            same_prof(p, P(xs, ys, c['ux'], c['uy']), 'doublons: original')
        return
    p, m = g.build_prof(c), P.of_case(c)
    vx, vy = valid(m)
    if len(vx) < 3:
        rec.mark_trivial()
        return
    if how == 'marginal':
        d = m.y
        r = p.remove_marginal_values(fact=c['fact'], inplace=c['inplace'])
    else:
        y = m.y.copy()
        b = np.isnan(y)
        y[b] = np.interp(m.x[b], vx, vy)
        d = m.y - ref_smooth(y, 'gaussian', c['neighb'])
        r = p.remove_local_marginal_values(fact=c['fact'],
                                           neighb=c['neighb'],
                                           inplace=c['inplace'])
    if c['inplace']:
        r = p
    v = d[~np.isnan(d)]
    mean, std = v.mean(), v.std()
    gap = np.abs(np.abs(d - mean) - c['fact']*std)
    if np.nanmin(gap) < 1e-9*np.max(np.abs(vy)):
        rec.mark_trivial()
        return
    with np.errstate(invalid='ignore'):
        out = np.abs(d - mean) > c['fact']*std
    if not out.any():
        rec.label('no outlier')
    same_prof(r, P(m.x, np.where(out, np.nan, m.y), m.ux, m.uy),
              how + ' values', name=m.name)
    if not c['inplace']:
        same_prof(p, m, how + ': original', name=m.name)


# ---------------------------------------------------------------- correlation
@st.composite
def corr_case(draw):
    c = draw(small(min_size=3, max_size=12, even=True, masks=False))
    c['n2'] = draw(st.integers(2, 12))
    c['y2'] = draw(st.lists(g.number(-9, 9), min_size=c['n2'],
                            max_size=c['n2']))
    c['x2'] = draw(g.quarter(-20, 20))
    c['mode'] = draw(st.sampled_from(['full', 'same', 'valid', None]))
    c['win'] = draw(st.integers(1, 9))
    c['shift'] = draw(st.integers(-4, 4))
    c['bump'] = draw(st.lists(st.sampled_from([.5, 1., 2., 3.5, -1.5]),
                              min_size=2, max_size=5))
    c['origin'] = draw(g.quarter(-5, 5))
    c['m2'] = draw(st.one_of(st.none(),
                             st.lists(st.integers(0, 4), min_size=12,
                                      max_size=12)))
    c['u2'] = draw(g.unit_any())
    return c


def run_corr(c, rec):
    p, m = g.build_prof(c), P.of_case(c)
    dx = m.x[1] - m.x[0]
    y1, y2 = m.y, np.array(c['y2'], dtype=float)
    n, k = len(y1), len(y2)
    q = Profile(c['x2'] + np.arange(k)*dx, y2, unit_x=c['ux'],
                unit_y=c['u2'])
    rec.label(c['mode'])
    r = p.get_convolution(q) if c['mode'] is None else \
        p.get_convolution(q, mode=c['mode'])
    full = np.zeros(n + k - 1)
    for i in range(n):
        for j in range(k):
            full[i + j] += y1[i]*y2[j]
    big, lit = max(n, k), min(n, k)
    if c['mode'] == 'same':
        s = (lit - 1)//2
        full = full[s:s + big]
    elif c['mode'] == 'valid':
        full = full[lit - 1:big]
    u = m.uy*make_unit(c['u2'])
    try:
        ku = float((u/r.unit_y).asNumber(1))
    except Exception:
        fail('convolution: unit {} instead of {}', r.unit_y, u)
    sc = np.max(np.abs(y1))*np.max(np.abs(y2))*lit
    close(np.array(r.y)/ku, full, 'convolution', scale=sc or 1.)
    close(np.diff(r.x), np.full(len(full) - 1, dx), 'convolution: step',
          rtol=1e-7)
    same_unit(r.unit_x, m.ux, 'convolution: x unit')
    expect_raises(lambda: p.get_convolution(
        Profile(c['x2'] + np.arange(k)*dx*1.5, y2, unit_x=c['ux'])),
        'convolution of different steps')
    un = c['x2'] + np.arange(k + 1)*dx
    un[-1] += dx*.3
    expect_raises(lambda: p.get_convolution(
        Profile(un, np.append(y2, 1.), unit_x=c['ux'])),
        'convolution of uneven profiles')
    # auto-correlation
    w = c['win']
    if w < n - 1 and np.sum(y1**2) > 0:
        h = w//2
        ok = False
        got = p.get_auto_correlation(w, raw=True)
        check(len(got) == 2*h + 1, 'auto-correlation: {} values', len(got))
        for end in (n - h - 1, n - h):
            num, den = np.zeros(2*h + 1), 0.
            for i in range(h, end):
                num += y1[i - h:i + h + 1]*y1[i]
                den += y1[i]**2
            if den == 0 or den < 1e-12*np.max(np.abs(y1))**2:
                ok = ok or den == 0
                continue
            ok = ok or np.all(np.abs(got - num/den) <=
                              1e-8*(1 + np.max(np.abs(num/den))))
            if not np.isnan(got[h]):
                close(got[h], 1., 'auto-correlation at zero shift', rtol=1e-9)
        check(ok, 'auto-correlation {}', got)
        ap = p.get_auto_correlation(w)
        gy = np.array(ap.y, dtype=float)
        close(gy, got, 'auto-correlation profile')
        close(np.diff(ap.x), np.full(2*h, dx), 'auto-correlation: step',
              rtol=1e-7)
    # shift between a bump and its translated copy
    b = np.array(c['bump'])
    L = len(b) + 12
    s1, s2 = np.zeros(L), np.zeros(L)
    s1[6:6 + len(b)] = b
    s2[6 + c['shift']:6 + c['shift'] + len(b)] = b
    P1 = Profile(np.arange(L)*dx, s1, unit_x=c['ux'], unit_y=c['uy'])
    P2 = Profile(c['origin'] + np.arange(L)*dx, s2, unit_x=c['ux'],
                 unit_y=c['uy'])
    d = P1.get_dephasage(P2)
    close(d, c['shift']*dx + c['origin'], 'get_dephasage',
          scale=L*dx + abs(c['origin']), rtol=1e-8)
    if c['shift'] == 0 and c['origin'] == 0:
        rec.mark_trivial()
    # convolution of difference against its definition
    mk = np.zeros(k, bool) if c['m2'] is None else np.array(c['m2'][:k]) == 0
    y2m = np.where(mk, np.nan, y2)
    Q = Profile(c['x2'] + np.arange(k)*dx, y2m, unit_x=c['ux'],
                unit_y=c['uy'])
    for norm in (True, False):
        r = p.get_convolution_of_difference(Q, normalized=norm)
        ext = np.concatenate([np.zeros(n - 1), y2m, np.zeros(n - 1)])
        ref = []
        for i in range(n + k - 1):
            sl = ext[i:i + n]
            ok = ~np.isnan(sl)
            if not ok.any():
                ref.append(np.nan)
                continue
            dd = np.mean(np.abs(sl[ok] - y1[ok]))
            if norm:
                nn = np.mean(np.abs(sl[ok]))
                dd = np.nan if nn == 0 else dd/nn
            ref.append(dd)
        close(r.y, ref, 'convolution of difference', rtol=1e-9)
        ex = (np.arange(n + k - 1) - (n + k - 2)/2.)*dx
        ex += np.mean([Q.x[0], Q.x[-1]]) - np.mean([m.x[0], m.x[-1]])
        close(r.x, ex, 'convolution of difference: x', rtol=1e-8,
              scale=np.max(np.abs(m.x)) + np.max(np.abs(Q.x)) + (n + k)*dx)
    same_prof(p, m, 'original', name=m.name)


# --------------------------------------------------------------- distribution
@st.composite
def distrib_case(draw):
    c = draw(small(min_size=4, max_size=12))
    c['res'] = draw(st.integers(2, 40))
    c['fmt'] = draw(st.sampled_from(['normalized', 'ponderated',
                                     'concentration']))
    c['bw'] = draw(st.sampled_from([None, 'scott', 'silverman']))
    c['bwn'] = draw(st.sampled_from([None, 'scott', 'silverman', .3, 1.]))
    c['co'] = [draw(g.quarter(-3, 3)) for _ in range(3)]
    c['deg'] = draw(st.integers(1, 2))
    c['noise'] = draw(st.booleans())
    return c


def kde(v, at, bw):
    n = len(v)
    f = {'scott': n**(-.2), 'silverman': (n*3/4.)**(-.2)}.get(bw, bw)
    h = f*np.std(v, ddof=1)
    return np.array([np.mean(np.exp(-.5*((a - v)/h)**2))/(h*np.sqrt(2*np.pi))
                     for a in at])


def run_distrib(c, rec):
    p, m = g.build_prof(c), P.of_case(c)
    vx, vy = valid(m)
    rec.label(c['fmt'])
    if len(vy) < 3 or np.std(vy) <= 1e-6*np.max(np.abs(vy)):
        rec.mark_trivial()
        return
    kw = {} if c['bwn'] is None else {'bw_method': c['bwn']}
    r = p.get_pdf(resolution=c['res'], **kw)
    at = np.linspace(vy.min(), vy.max(), c['res'])
    close(r.x, at, 'pdf: values', scale=np.max(np.abs(vy)))
    ref = kde(vy, at, c['bwn'] or 'scott')
    close(r.y, ref, 'pdf', rtol=1e-6)
    same_unit(r.unit_x, m.uy, 'pdf: unit')
    close(p.get_pdf(resolution=c['res'], raw=True, **kw), ref, 'raw pdf',
          rtol=1e-6)
    kw = {} if c['bw'] is None else {'bw_method': c['bw']}
    r = p.get_distribution(output_format=c['fmt'], resolution=c['res'], **kw)
    check(len(r.x) == c['res'], 'distribution: {} values', len(r.x))
    check(r.x[0] <= vy.min() + 1e-12*abs(vy.min()) and
          r.x[-1] >= vy.max() - 1e-12*abs(vy.max()),
          'distribution on [{}, {}]', r.x[0], r.x[-1])
    fact = 1 if c['fmt'] == 'normalized' else len(vy)
    # rounding of the range bounds can reorder x when they coincide
    close(r.y, fact*kde(vy, r.x, c['bw'] or 'scott'), 'distribution',
          rtol=1e-6)
    same_unit(r.unit_x, m.uy, 'distribution: unit')
    same_unit(r.unit_y, 1/m.uy if c['fmt'] == 'concentration' else
              make_unit(''), 'distribution: y unit')
    same_prof(p, m, 'original', name=m.name)
    # fitting of polynomials
    x = np.linspace(-1, 1, len(m.x))
    y = c['co'][0] + c['co'][1]*x + (c['co'][2]*x**2 if c['deg'] == 2 else 0)
    if c['noise']:
        y = y + .1*np.cos(7*np.arange(len(x)))
    q = Profile(x, y, unit_x=c['ux'], unit_y=c['uy'])
    if c['deg'] == 1:
        def f(x, a, b):
            return a + b*x
    else:
        def f(x, a, b, d):
            return a + b*x + d*x**2
    fit, par = q.get_fitting(f, output_param=True)
    ref = np.polyfit(x, y, c['deg'])[::-1]
    close(par, ref, 'fitted parameters', rtol=1e-5, scale=10.)
    same_prof(fit, P(x, np.polyval(ref[::-1], x), m.ux, m.uy), 'fit',
              rtol=1e-5, yscale=10.)


# -------------------------------------------------------------------- filters
@st.composite
def filter_case(draw):
    c = draw(small(min_size=8, max_size=24, even=True))
    c['kind'] = draw(st.sampled_from(['band', 'low', 'high', 'wavelet',
                                      'wavelet', 'extrema', 'extrema']))
    c['a'] = draw(g.nonzero())
    c['b'] = draw(g.quarter(-20, 20))
    c['fmin'] = draw(st.floats(.05, .3))
    c['fmax'] = draw(st.floats(.4, .8))
    c['order'] = draw(st.integers(1, 3))
    c['w'] = sorted(draw(st.lists(st.sampled_from([1., 1.5, 2., 3., 4.]),
                                  min_size=2, max_size=4, unique=True)))
    c['fill'] = draw(st.sampled_from(['linear', 2.]))
    c['per'] = draw(st.integers(12, 24))
    c['nper'] = draw(st.integers(1, 3))
    c['ph'] = draw(st.floats(0, 6.28))
    c['amp'] = draw(st.sampled_from([1., -1., 3.5, 1e3]))
    return c


def run_filter(c, rec):
    rec.label(c['kind'])
    if c['kind'] == 'extrema':
        n = c['per']*c['nper'] + 3
        t = np.arange(n)
        dx = c['x'][1] - c['x'][0]
        x = c['x'][0] + dx*t
        w = 2*np.pi/c['per']
        y = c['amp']*np.cos(w*t + c['ph']) + c['b']
        p = Profile(x, y, unit_x=c['ux'], unit_y=c['uy'])
        mins, maxs = p.get_extrema_position()
        imins, imaxs = p.get_extrema_position(ind=True)
        p.get_extrema_position(smoothing=2)
        same_prof(p, P(x, y, make_unit(c['ux']), make_unit(c['uy'])),
                  'original')
        for nm, got, goti, off in [('maxima', maxs, imaxs,
                                    0 if c['amp'] > 0 else np.pi),
                                   ('minima', mins, imins,
                                    np.pi if c['amp'] > 0 else 0)]:
            true = np.array([(off + 2*np.pi*k - c['ph'])/w
                             for k in range(-3, 12)])
            true = true[(true > 2.5) & (true < n - 3.5)]
            got = (np.sort(np.array(got, dtype=float)) - x[0])/dx
            goti = np.sort(np.array(goti, dtype=float))
            for gg, wh in ((got, 'positions'), (goti, 'indices')):
                for tt in true:
                    check(np.any(np.abs(gg - tt) < 1.01),
                          '{} {}: {} does not have {}', nm, wh, gg, tt)
                ins = gg[(gg > 2.5) & (gg < n - 3.5)]
                for v in ins:
                    at = np.array([(off + 2*np.pi*k - c['ph'])/w
                                   for k in range(-3, 12)])
                    check(np.min(np.abs(at - v)) < 1.01,
                          '{} {}: spurious {}', nm, wh, v)
        return
    p, m = g.build_prof(c), P.of_case(c)
    vx, vy = valid(m)
    if len(vx) < 2:
        rec.mark_trivial()
        return
    n = len(m.x)
    sc = np.max(np.abs(vy))
    if c['kind'] == 'wavelet':
        from scipy.signal import cwt, ricker
        y = filled(m, c['fill'])
        y = y - y.mean()
        dx = m.x[1] - m.x[0]
        ws = np.array(c['w'])
        ref = cwt(y, ricker, ws)
        raw = p.get_wavelet_transform(widths=list(ws*dx), fill=c['fill'],
                                      raw=True)
        close(raw, ref, 'wavelet transform', scale=sc*4, rtol=1e-8)
        sf = p.get_wavelet_transform(widths=ws*dx, fill=c['fill'])
        close(sf.axe_x, m.x, 'wavelet: x')
        close(sf.axe_y, ws*dx, 'wavelet: widths', rtol=1e-8)
        same_bool(sf.mask, np.repeat(np.isnan(m.y)[:, None], len(ws), axis=1),
                  'wavelet: mask')
        ok = ~np.isnan(m.y)
        close(np.array(sf.values)[ok], ref.T[ok], 'wavelet: values',
              scale=sc*4, rtol=1e-8)
        same_unit(sf.unit_values, m.uy, 'wavelet: unit')
        same_unit(sf.unit_x, m.ux, 'wavelet: x unit')
        same_unit(sf.unit_y, m.ux, 'wavelet: width unit')
    else:
        nyq = .5*n/(m.x[-1] - m.x[0])*.9
        kw = {'order': c['order']}
        if c['kind'] != 'low':
            kw['fmin'] = c['fmin']*nyq
        if c['kind'] != 'high':
            kw['fmax'] = c['fmax']*nyq
        r = p.spectral_filtering(**kw)
        close(r.x, m.x, 'filtering: x')
        same_unit(r.unit_y, m.uy, 'filtering: unit')
        same_unit(r.unit_x, m.ux, 'filtering: unit')
        a, b = float(c['a']), float(c['b'])
        r2 = (p*a + b).spectral_filtering(**kw)
        S = sc*max(abs(a), 1) + abs(b)
        close(r2.y, a*np.array(r.y) + b, 'filtering is not affine',
              scale=S, rtol=1e-8)
        # it agrees with filtering the filled profile, and is causal
        y = filled(m, 'linear')
        q = Profile(m.x, y, unit_x=c['ux'], unit_y=c['uy'])
        close(q.spectral_filtering(**kw).y, r.y, 'filtering a filled profile',
              scale=sc, rtol=1e-8)
        if np.ptp(y) > 1e-6*sc and c['kind'] == 'band':
            # a constant is left alone, an oscillation out of the band is not
            fl = q.spectral_filtering(**kw)
            check(np.max(np.abs(np.array(fl.y) - y)) > 1e-9*np.ptp(y),
                  'filtering did nothing')
        k = Profile(m.x, np.full(n, b), unit_x=c['ux'], unit_y=c['uy'])
        close(k.spectral_filtering(**kw).y, np.full(n, b),
              'filtering of a constant', scale=abs(b) + 1)
    same_prof(p, m, 'original', name=m.name)


SUBS = [
    Sub('crop', crop_case(), run_crop, 'some points are cropped away', 700),
    Sub('fill', fill_case(), run_fill,
        'masked points to fill, enough valid points', 700),
    Sub('interpolation', interp_case(), run_interp,
        'the wanted value is reached', 500),
    Sub('calculus', calc_case(), run_calc, 'some gradient is defined', 400),
    Sub('spectrum', spec_case(), run_spec,
        'fluctuations are not lost in rounding', 400),
    Sub('resampling', resample_case(), run_resample,
        'the resampled profile differs from the original', 700),
    Sub('outliers', outlier_case(), run_outlier,
        'no value at the threshold itself; some duplicates', 400),
    Sub('correlation', corr_case(), run_corr, 'the profiles are shifted', 300),
    Sub('distribution', distrib_case(), run_distrib,
        'at least three distinct values', 300),
    Sub('filters', filter_case(), run_filter, 'enough valid points', 300),
]


def run_crop_between(c, rec):
    p = Profile(c['x'], c['y']).crop(intervx=[c['a'], c['b']])
    e = [x for x in c['x'] if c['a'] <= x <= c['b']]
    close(p.x, e, 'crop with a bound between points')


PROBES = [Sub('crop_between', None, run_crop_between, '')]
