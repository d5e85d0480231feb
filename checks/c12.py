"""C12: ensemble statistics of a time series are, point by point, the
statistics of the valid values of that point."""
import numpy as np
from scipy import ndimage
from hypothesis import strategies as st

from harness.core import (Sub, check, close, same_bool, same_unit,
                          expect_raises)
from harness import gens as g
from IMTreatment import make_unit
from IMTreatment.core import ScalarField, TemporalScalarFields

ASSUMPTIONS = ['frames of one series share their values unit',
               'float values',
               'autocorrelation, recurrence map and background are used on '
               'series without masked points']


class T(object):
    """Series under test and its values as NaN-masked arrays."""

    def __init__(self, c, vector):
        self.t = g.build_temporal(c, vector)
        ms = [g.G.of_case(fc) for fc in g.frame_cases(c)]
        self.n = len(ms)
        self.mask = np.array([m.mask for m in ms])
        self.v = [np.array([m.comps[k] for m in ms])
                  for k in range(len(ms[0].comps))]
        self.count = np.sum(~self.mask, axis=0)
        self.times = np.array(c['times'], dtype=float)
        self.m0 = ms[0]
        self.before = ([np.array(self.t.times)],
                       [g.G.of_field(f) for f in self.t.fields])
        self.sc = max([np.nanmax(np.abs(a)) for a in self.v
                       if not np.isnan(a).all()] + [1e-30])

    def mean(self, a, nmb_min=1):
        """Mean over the valid values, NaN if they are too few."""
        s = np.sum(np.where(np.isnan(a), 0, a), axis=0)
        n = np.sum(~np.isnan(a), axis=0)
        return np.where(n < max(nmb_min, 1), np.nan, s/np.maximum(n, 1))

    def field(self, comps, uv, what, f, sc=None):
        """Field `f` has these components (NaN where masked)."""
        m = g.G(self.m0.x, self.m0.y, comps, np.isnan(comps[0]), self.m0.ux,
                self.m0.uy, uv)
        check(type(f).__name__ == ('ScalarField' if len(comps) == 1 else
                                   'VectorField'), '{}: {!r}', what, type(f))
        same_unit(f.unit_values, uv, what + ': values unit')
        close(f.axe_x, m.x, what + ': x axis')
        close(f.axe_y, m.y, what + ': y axis')
        same_unit(f.unit_x, m.ux, what + ': x unit')
        same_unit(f.unit_y, m.uy, what + ': y unit')
        same_bool(f.mask, m.mask, what + ': mask')
        got = g.G.of_field(f)
        for a, b in zip(got.comps, m.comps):
            close(np.where(m.mask, np.nan, a), b, what, rtol=1e-9,
                  scale=sc or self.sc)

    def series(self, r, arrays, uv, what, sc=None):
        check(len(r) == self.n, '{}: {} frames', what, len(r))
        close(r.times, self.times, what + ': times')
        same_unit(r.unit_times, self.t.unit_times, what + ': time unit')
        for i in range(self.n):
            self.field([a[i] for a in arrays], uv,
                       '{}: frame {}'.format(what, i), r.fields[i], sc)

    def unchanged(self, what):
        close(self.t.times, self.before[0][0], what + ': times of the '
              'original', rtol=0, atol=0)
        for f, m in zip(self.t.fields, self.before[1]):
            g.same_field(f, m, what + ': original', rtol=0)


# ---------------------------------------------------------- mean, fluctuation
@st.composite
def mean_case(draw, vector):
    c = draw(g.temporal_case(vector, min_n=1, max_n=6, max_size=4))
    c['nmb_min'] = draw(st.sampled_from([None, 0, 1, 1, 2, 3, 5]))
    return c


def run_mean(vector):
    def run(c, rec):
        t = T(c, vector)
        if not t.mask.any():
            rec.mark_trivial()
        k = c['nmb_min']
        kw = {} if k is None else {'nmb_min': k}
        kk = 1 if k is None else k
        uv = make_unit(c['uv'])
        mean = [t.mean(a, kk) for a in t.v]
        t.field(mean, uv, 'mean field', t.t.get_mean_field(**kw))
        t.unchanged('get_mean_field')
        kw = {} if k is None else {'nmb_min_mean': k}
        t.series(t.t.get_fluctuant_fields(**kw),
                 [a - b for a, b in zip(t.v, mean)], uv, 'fluctuations')
        t.unchanged('get_fluctuant_fields')
        if not vector:
            few = t.count < max(kk, 1)
            kw = {} if k is None else {'nmb_min': k}
            for name, fct, fill in (('min', np.min, np.inf),
                                    ('max', np.max, -np.inf)):
                ref = fct(np.where(t.mask, fill, t.v[0]), axis=0)
                ref[few] = np.nan
                t.field([ref], uv, name + ' field',
                        getattr(t.t, 'get_{}_field'.format(name))(**kw))
                t.unchanged('get_{}_field'.format(name))
        rec.label('one' if t.n == 1 else 'several')
    return run


# ---------------------------------------------------------------- turbulence
@st.composite
def turb_case(draw):
    c = draw(g.temporal_case(True, min_n=1, max_n=5, max_size=4))
    c['nmb_min'] = draw(st.sampled_from([None, 1, 2, 3]))
    return c


def run_turb(c, rec):
    t = T(c, True)
    u2 = make_unit(c['uv'])**2
    mu, mv = [t.mean(a) for a in t.v]
    up, vp = t.v[0] - mu, t.v[1] - mv
    if not np.any(np.abs(np.nan_to_num(up)) > 0):
        rec.mark_trivial()
    s2 = t.sc**2
    t.field([.5*(mu**2 + mv**2)], u2, 'mean kinetic energy',
            t.t.get_mean_kinetic_energy(), s2)
    k = .5*(up**2 + vp**2)
    t.series(t.t.get_tke(), [k], u2, 'turbulent kinetic energy', s2)
    t.field([t.mean(k)], u2, 'mean turbulent kinetic energy',
            t.t.get_mean_tke(), s2)
    mag = np.hypot(*t.v)
    if np.all((mag > 1e-3*t.sc) | t.mask):
        rec.label('intensity')
        ti = np.sqrt(2./3*k)/mag
        # sqrt amplifies the rounding of a vanishing energy
        r = t.t.get_turbulent_intensity()
        check(len(r) == t.n, 'turbulent intensity: {} frames', len(r))
        for i in range(t.n):
            same_bool(r.fields[i].mask, t.mask[i], 'intensity: mask')
            close(np.where(t.mask[i], np.nan, r.fields[i].values)**2,
                  ti[i]**2, 'turbulent intensity', rtol=1e-9,
                  scale=max(1., np.nanmax(np.append(ti[i], 0))**2)*1e3)
            same_unit(r.fields[i].unit_values, make_unit(''),
                      'turbulent intensity: unit')
        close(r.times, t.times, 'turbulent intensity: times')
    q = c['nmb_min']
    rs = t.t.get_reynolds_stress(**({} if q is None else {'nmb_val_min': q}))
    check(len(rs) == 3, 'reynolds stresses: {}', len(rs))
    few = t.count < (q or 1)
    for r, a, name in zip(rs, [up*up, vp*vp, up*vp], ['xx', 'yy', 'xy']):
        ref = t.mean(a)
        ref[few] = np.nan
        t.field([ref], u2, 'reynolds stress ' + name, r, s2)
    t.unchanged('turbulence quantities')


# ---------------------------------------------- correlation, recurrence maps
@st.composite
def corr_case(draw):
    vector = draw(st.booleans())
    c = draw(g.temporal_case(vector, min_n=2, max_n=5, max_size=4,
                             masks=False))
    c['vector'] = vector
    c['norm'] = draw(st.sampled_from([1, 2, 2, 3, 4]))
    c['band'] = draw(st.sampled_from([None, None, 1, 2]))
    c['normalized'] = draw(st.booleans())
    return c


def run_corr(c, rec):
    vector = c['vector']
    t = T(c, vector)
    rec.label('vector' if vector else 'scalar')
    if vector:
        ref = np.array([np.mean(t.v[0][0]*t.v[0][i] + t.v[1][0]*t.v[1][i])
                        for i in range(t.n)])
        if ref[0] > 1e-12*t.sc**2:
            r = t.t.get_time_auto_correlation()
            close(r.x, t.times, 'autocorrelation: times')
            close(r.y, ref/ref[0], 'autocorrelation', scale=t.sc**2/ref[0])
            same_unit(r.unit_x, t.t.unit_times, 'autocorrelation: x unit')
            same_unit(r.unit_y, make_unit(''), 'autocorrelation: y unit')
            check(not np.any(r.mask), 'autocorrelation is masked')
    p, band = c['norm'], c['band']
    normed = c['normalized'] and p % 2 == 0
    allv = np.concatenate([a.reshape((t.n, -1)) for a in t.v], axis=1)
    nv = allv.shape[1]
    ref = np.array([[np.sum(np.abs(a - b)**p)**(1./p)/nv for b in allv]
                    for a in allv])
    if normed:
        base = [np.mean(a, axis=0) for a in t.v]
        mag = np.hypot(*base) if vector else np.abs(base[0])
        nn = np.sum(mag**p)**(1./p)/nv
        if nn <= 1e-6*t.sc:
            normed = False
        else:
            ref = ref/nn
    kw = {} if p == 2 else {'norm': p}
    if band is not None:
        kw['bandwidth'] = band
        out = np.abs(np.subtract.outer(np.arange(t.n), np.arange(t.n))) > band
        ref[out] = np.nan
        if out.any():
            rec.label('band')
    if normed:
        kw['normalized'] = True
    r = t.t.get_recurrence_map(**kw)
    close(r.axe_x, t.times, 'recurrence map: x')
    close(r.axe_y, t.times, 'recurrence map: y')
    got = np.where(r.mask, np.nan, r.values)
    close(got, ref, 'recurrence map', rtol=1e-8,
          scale=max(np.nanmax(np.abs(ref)), 1e-30))
    same_unit(r.unit_x, t.t.unit_times, 'recurrence map: x unit')
    same_unit(r.unit_y, t.t.unit_times, 'recurrence map: y unit')
    if not normed:
        same_unit(r.unit_values, make_unit(c['uv']), 'recurrence map: unit')
    t.unchanged('correlations')


# ----------------------------------------------------------------- background
@st.composite
def bg_case(draw):
    nx, ny = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    n = draw(st.integers(5, 15))
    px = []
    for _ in range(nx*ny):
        k = draw(st.integers(0, n//5))
        px.append({'b': draw(st.integers(0, 200)),
                   'amp': draw(st.sampled_from([0, 1, 2, 4, 2.7])),
                   'out': draw(st.sampled_from([100, -100, 150, 300])),
                   'where': draw(st.permutations(list(range(n))))[:k],
                   'noise': draw(st.lists(st.sampled_from([-1., -.45, 0., .3,
                                                           .55, 1.]),
                                          min_size=n, max_size=n))})
    return {'nx': nx, 'ny': ny, 'n': n, 'px': px,
            'x': draw(g.axis(nx, nx)), 'y': draw(g.axis(ny, ny)),
            'uv': draw(g.unit_any()), 'level': draw(st.sampled_from([10, 20])),
            'fill': draw(st.sampled_from([None, 0., 12.5]))}


def clip_mean(v, level):
    """At each point, the mean of the values after the iterated removal of
    those farther from the mean than the deviation (NaN where rounding
    decides which ones)."""
    res = np.zeros(v.shape[1:])
    for q in np.ndindex(res.shape):
        vals = v[(slice(None),) + q]
        first = True
        while True:
            mu, sd = vals.mean(), vals.std()
            if not first and (abs(sd - level) < 1e-6 or sd < level or
                              len(vals) <= len(v)/10.):
                if abs(sd - level) < 1e-6:
                    mu = np.nan
                break
            first = False
            if sd < 1e-6 and np.all(vals == vals[0]):
                continue
            edge = np.abs(np.abs(vals - mu) - sd)
            if np.any(edge < 1e-6):
                mu = np.nan
                break
            kept = vals[np.abs(vals - mu) < sd]
            if len(kept) == 0:
                break
            vals = kept
        res[q] = mu
    return res


def same_clip(bg, v, level, what, rec):
    ref = clip_mean(v, level)
    ok = ~np.isnan(ref)
    if np.any(ok):
        rec.label('clipped')
        close(np.array(bg.values)[ok], ref[ok], what, scale=500.)


def run_bg(c, rec):
    nx, ny, n = c['nx'], c['ny'], c['n']
    v = np.zeros((n, nx, ny))
    for q, p in enumerate(c['px']):
        s = p['b'] + p['amp']*np.array(p['noise'])
        for w in p['where']:
            s[w] = p['b'] + p['out']
        v[:, q//ny, q % ny] = s
    if not any(p['where'] for p in c['px']):
        rec.mark_trivial()
    t = TemporalScalarFields()
    for i in range(n):
        f = ScalarField()
        f.import_from_arrays(np.array(c['x']), np.array(c['y']), v[i],
                             unit_x='mm', unit_y='m', unit_values=c['uv'])
        t.add_field(f, time=float(i), unit_times='s')
    bg = t.get_background(noise_level=c['level'])
    close(bg.axe_x, c['x'], 'background: x axis')
    close(bg.axe_y, c['y'], 'background: y axis')
    same_unit(bg.unit_x, make_unit('mm'), 'background: x unit')
    same_unit(bg.unit_y, make_unit('m'), 'background: y unit')
    same_unit(bg.unit_values, make_unit(c['uv']), 'background: values unit')
    for q, p in enumerate(c['px']):
        got = bg.values[q//ny, q % ny]
        tol = p['amp'] + 1e-9
        check(abs(got - p['b']) <= tol, 'background at pixel {}: {} instead '
              'of {} (+- {})', q, got, p['b'], p['amp'])
        if not p['amp']:
            rec.label('constant')
    same_clip(bg, v, c['level'], 'background: the mean of the values kept by '
              'the clipping', rec)
    # another level, on the same series and on its lowest half
    for lev, k in ((1., n), (c['level'], max(2, n//2))):
        t2 = TemporalScalarFields()
        for i in range(k):
            t2.add_field(t.fields[i], time=float(i), unit_times='s')
        same_clip(t2.get_background(noise_level=lev), v[:k], lev,
                  'background, level {}'.format(lev), rec)
    before = [g.G.of_field(f) for f in t.fields]
    kw = {} if c['fill'] is None else {'filling_value': c['fill']}
    r = t.substract_background(bg, noise_level=c['level'], blend=False, **kw)
    b = np.array(bg.values)
    fill = b.mean() if c['fill'] is None else c['fill']
    ref = np.where(np.abs(v - b) < c['level'], fill, v)
    check(len(r) == n, 'substracted: {} frames', len(r))
    close(r.times, np.arange(n), 'substracted: times')
    for i in range(n):
        close(r.fields[i].values, ref[i], 'substracted frame', scale=500.)
        g.same_field(t.fields[i], before[i], 'original', rtol=0)
    # blended in the background
    r = t.substract_background(bg, noise_level=c['level'], **kw)
    for i in range(n):
        back = np.abs(v[i] - b) < c['level']
        if np.any(np.abs(np.abs(v[i] - b) - c['level']) < 1e-6):
            continue
        e = np.full(v[i].shape, float(fill))
        if not np.all(back):
            fg = v[i][~back].mean()
            if abs(fg - b.mean()) < 1e-3:
                rec.label('no contrast')
                continue
            w = (v[i] - b.mean())/(fg - b.mean())
            w = ndimage.gaussian_filter(w, 1)
            e = np.where(back, fill, v[i]*w + (1 - w)*fill)
            rec.label('blended')
        close(r.fields[i].values, e, 'blended frame', rtol=1e-7,
              scale=max(500., np.abs(e).max()))
        g.same_field(t.fields[i], before[i], 'original', rtol=0)


SUBS = [
    Sub('scalar_mean', mean_case(False), run_mean(False),
        'some points are masked at some time', 500),
    Sub('vector_mean', mean_case(True), run_mean(True),
        'some points are masked at some time', 300),
    Sub('turbulence', turb_case(), run_turb, 'some fluctuation is not zero',
        400),
    Sub('correlation', corr_case(), run_corr, 'any series', 300),
    Sub('background', bg_case(), run_bg, 'some pixel has outliers', 200),
]
