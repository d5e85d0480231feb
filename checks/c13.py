"""C13: reading, interpolating, resampling and filling a series along time
acts on the time signal of each point."""
import numpy as np
from hypothesis import strategies as st

from harness.core import (Sub, check, close, expect_raises, same_bool,
                          same_unit, fail)
from harness import gens as g
from IMTreatment import make_unit
from IMTreatment.core import Points, Profile
from checks.c11 import Series, same_series, snapshot, unchanged

ASSUMPTIONS = ['the times of one series are different from each other',
               'spectra are used on evenly spaced times',
               'positions are not half-way between two grid points']


def models(c, vector):
    s = Series(vector)
    s.ut = make_unit(c['ut'])
    s.rows = [(float(t), g.G.of_case(fc))
              for t, fc in zip(c['times'], g.frame_cases(c))]
    s.sort()
    return s


def comp_of(m, name):
    if name == 'magnitude':
        return np.hypot(*m.comps)
    return m.comps[{'values': 0, 'comp_x': 0, 'comp_y': 1}[name]]


def even_times(n):
    return st.tuples(g.quarter(-5, 5), st.integers(1, 8)).map(
        lambda p: [p[0] + p[1]/8.*i for i in range(n)])


# --------------------------------------------------------------- time profile
@st.composite
def prof_case(draw):
    vector = draw(st.booleans())
    c = draw(g.temporal_case(vector, min_n=1, max_n=6, max_size=4))
    c['vector'] = vector
    c['comp'] = draw(st.sampled_from(['comp_x', 'comp_y', 'magnitude'] if
                                     vector else ['values']))
    nx, ny, n = len(c['x']), len(c['y']), len(c['times'])
    c['how'] = draw(st.sampled_from(['ind', 'pos', 'pts', 'pts']))
    c['ij'] = [draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1))]
    c['off'] = [draw(st.sampled_from([0., 0., .3, -.3])) for _ in range(2)]
    c['pts'] = [[draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1))]
                for _ in range(n)]
    c['keep'] = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    c['order'] = draw(st.permutations(list(range(n))))
    c['w'] = draw(st.sampled_from([None, None, [0, n - 1], [1, n - 1],
                                   [0, n - 2], [1, n - 2]]))
    c['pad'] = draw(st.sampled_from([0., .0625]))
    c['inject'] = draw(st.lists(g.number(), min_size=n, max_size=n))
    return c


def near(ax, i, off):
    """A position near node i."""
    d = np.diff(ax)
    if off > 0 and i < len(ax) - 1:
        return float(ax[i] + off*d[i])
    if off < 0 and i > 0:
        return float(ax[i] + off*d[i - 1])
    return float(ax[i])


def run_prof(c, rec):
    vector = c['vector']
    t, s = g.build_temporal(c, vector), models(c, vector)
    n = len(s.rows)
    x, y = s.rows[0][1].x, s.rows[0][1].y
    i, j = c['ij']
    rec.label(c['how'], c['comp'])
    kept = list(range(n))
    where = [(i, j)]*n
    kw = {}
    if c['how'] == 'ind':
        pt = [i, j]
        kw['ind'] = True
    elif c['how'] == 'pos':
        pt = [near(x, i, c['off'][0]), near(y, j, c['off'][1])]
    else:
        kept = [k for k in range(n) if c['keep'][k]]
        where = [tuple(p) for p in c['pts']]
        if not kept:
            rec.mark_trivial()
            return
        rows = [k for k in c['order'] if k in kept]
        pt = Points([[near(x, where[k][0], c['off'][0]),
                      near(y, where[k][1], c['off'][1])] for k in rows],
                    v=[s.rows[k][0] for k in rows], unit_x=c['ux'],
                    unit_y=c['uy'], unit_v=c['ut'])
        if rows != sorted(rows) or len(kept) < n:
            rec.label('partial or unordered points')
    w = c['w']
    sel = kept
    kww = dict(kw)
    if w is not None and 0 <= w[0] < w[1] < n:
        iv = [s.rows[w[0]][0] - c['pad'], s.rows[w[1]][0] + c['pad']]
        kww['wanted_times'] = iv
        sel = [k for k in kept if w[0] <= k <= w[1]
               or iv[0] <= s.rows[k][0] <= iv[1]]
        rec.label('interval')
    snap = snapshot(t)
    if sel:
        p = t.get_time_profile(c['comp'], pt, **kww)
        ref = np.array([comp_of(s.rows[k][1], c['comp'])[where[k]]
                        for k in sel])
        close(p.x, [s.rows[k][0] for k in sel], 'time profile: times')
        same_bool(p.mask, np.isnan(ref), 'time profile: mask')
        close(np.where(p.mask, np.nan, p.y), ref, 'time profile: values')
        same_unit(p.unit_x, s.ut, 'time profile: x unit')
        same_unit(p.unit_y, make_unit(c['uv']), 'time profile: y unit')
    else:
        rec.mark_trivial()
    unchanged(t, snap, 'get_time_profile')
    # writing a time profile
    if c['comp'] == 'magnitude':
        return
    if any(s.rows[k][1].mask[where[k]] for k in kept):
        return
    vals = [c['inject'][k] for k in kept]
    res = t.inject_time_profile(c['comp'], pt,
                                Profile([s.rows[k][0] for k in kept], vals,
                                        unit_x=c['ut'], unit_y=c['uv']), **kw)
    check(res is None, 'inject_time_profile returned {!r}', res)
    for k, v in zip(kept, vals):
        comp_of(s.rows[k][1], c['comp'])[where[k]] = v
    same_series(t, s, 'inject_time_profile')
    rec.label('inject')


# --------------------------------------------------------------- interpolation
@st.composite
def interp_case(draw):
    vector = draw(st.booleans())
    c = draw(g.temporal_case(vector, min_n=2, max_n=5, max_size=4))
    c['vector'] = vector
    n = len(c['times'])
    c['at'] = draw(st.lists(st.tuples(st.integers(0, n - 2),
                                      st.sampled_from([0., 1., .5, .25, .9])),
                            min_size=1, max_size=3))
    c['fact'] = draw(st.integers(1, 4))
    c['inplace'] = draw(st.booleans())
    return c


def mix(s, i, f):
    """Model of the field a fraction f after frame i."""
    a, b = s.rows[i][1], s.rows[i + 1][1]
    if f == 0:
        return a.copy()
    if f == 1:
        return b.copy()
    r = a.copy()
    r.comps = [(1 - f)*p + f*q for p, q in zip(a.comps, b.comps)]
    r.mask = a.mask | b.mask
    return r


def run_interp(c, rec):
    vector = c['vector']
    t, s = g.build_temporal(c, vector), models(c, vector)
    n = len(s.rows)
    ts = [r[0] for r in s.rows]
    for i, f in c['at']:
        time = ts[i] if f == 0 else ts[i + 1] if f == 1 else \
            ts[i] + f*(ts[i + 1] - ts[i])
        r = t.get_interpolated_field(time)
        f = (time - ts[i])/(ts[i + 1] - ts[i])
        g.same_field(r, mix(s, i, f), 'field at time {}'.format(time))
        # independent of the series
        r.scale(scalev=2., inplace=True)
        r.mask = np.ones(r.shape, dtype=bool)
        rec.label('between' if 0 < f < 1 else 'at a frame')
    same_series(t, s, 'series after interpolating')
    for out in (ts[0] - .5, ts[-1] + .5):
        expect_raises(lambda: t.get_interpolated_field(out),
                      'interpolation at {}'.format(out))
    fact = c['fact']
    e = Series(vector)
    e.ut = s.ut
    for i in range(n - 1):
        for k in range(fact):
            e.rows.append((ts[i] + (ts[i + 1] - ts[i])*k/fact,
                           mix(s, i, k/fact)))
    e.rows.append((ts[-1], s.rows[-1][1].copy()))
    res = t.augment_temporal_resolution(fact=fact, inplace=c['inplace'])
    if c['inplace']:
        check(res is None, 'augment returned {!r}', res)
        res = t
    else:
        same_series(t, s, 'series after augmenting a copy')
    same_series(res, e, 'augmented series')
    # still a series like another
    res.remove_fields([0, len(e.rows) - 1])
    e.rows = e.rows[1:-1]
    if e.rows:
        res.fields[0].scale(scalev=2., inplace=True)
        e.rows[0][1].comps = [2*a for a in e.rows[0][1].comps]
        res.scale(scalet=-1., inplace=True)
        e.rows = [(-a, b) for a, b in e.rows]
        e.sort()
    same_series(res, e, 'augmented series, later')
    if not c['inplace']:
        same_series(t, s, 'series after modifying its augmented copy')


# ------------------------------------------------------------------ reduction
@st.composite
def reduce_case(draw):
    vector = draw(st.booleans())
    c = draw(g.temporal_case(vector, min_n=2, max_n=9, max_size=3))
    c['vector'] = vector
    c['nmb'] = draw(st.integers(1, 4))
    c['mean'] = draw(st.booleans())
    c['inplace'] = draw(st.booleans())
    return c


def run_reduce(c, rec):
    vector = c['vector']
    t, s = g.build_temporal(c, vector), models(c, vector)
    n, k = len(s.rows), c['nmb']
    if k > 1 and k >= n:
        expect_raises(lambda: t.reduce_temporal_resolution(k), 'too big '
                      'intervals')
        same_series(t, s, 'series after a refused reduction')
        rec.mark_trivial()
        return
    kw = {} if c['mean'] else {'mean': False}
    res = t.reduce_temporal_resolution(k, inplace=c['inplace'], **kw)
    if c['inplace']:
        check(res is None, 'reduce returned {!r}', res)
        res = t
    else:
        same_series(t, s, 'series after reducing a copy')
    e = Series(vector)
    e.ut = s.ut
    for a in range(0, n - k + 1, k):
        grp = s.rows[a:a + k]
        m = grp[0][1].copy()
        time = grp[0][0]
        if c['mean']:
            m.comps = [np.mean([r.comps[q] for _, r in grp], axis=0)
                       for q in range(len(m.comps))]
            m.mask = np.any([r.mask for _, r in grp], axis=0)
            time = np.mean([tt for tt, _ in grp])
        e.rows.append((time, m))
    if not c['mean'] and n % k and len(res) == len(e.rows) + 1:
        # the first field of an unfinished interval may be kept
        e.rows.append(s.rows[n - n % k])
    rec.label('whole' if n % k == 0 else 'remainder',
              'mean' if c['mean'] else 'pick')
    same_series(res, e, 'reduced series')


# --------------------------------------------------------------- weird fields
@st.composite
def weird_case(draw):
    vector = draw(st.booleans())
    n = draw(st.integers(6, 12))
    c = draw(g.temporal_case(vector, min_n=n, max_n=n, max_size=3, masks=False,
                             elem=st.integers(4, 8).map(float),
                             scales=False))
    c['vector'] = vector
    c['bad'] = draw(st.lists(st.integers(0, n - 1), min_size=0, max_size=2,
                             unique=True))
    c['coef'] = draw(st.sampled_from([1.5, 1.7]))
    c['treat'] = draw(st.sampled_from(['interpolate', 'remove']))
    c['inplace'] = draw(st.booleans())
    return c


def run_weird(c, rec):
    vector = c['vector']
    for b in c['bad']:
        for k in (['vx', 'vy'] if vector else ['v']):
            c['frames'][b][k] = [[100.*v for v in r]
                                 for r in c['frames'][b][k]]
    t, s = g.build_temporal(c, vector), models(c, vector)
    mag = np.array([np.sum(np.hypot(*m.comps) if vector
                           else np.abs(m.comps[0])) for _, m in s.rows])
    lo, hi = [mag.mean() + q*c['coef']*mag.std() for q in (-1, 1)]
    if np.any(np.abs(mag - lo) < 1e-6*hi) or np.any(np.abs(mag - hi) <
                                                    1e-6*hi):
        rec.mark_trivial()
        return
    bad = [i for i in range(len(mag)) if mag[i] < lo or mag[i] > hi]
    if not bad:
        rec.mark_trivial()
    n = len(mag)
    e = Series(vector)
    e.ut = s.ut
    if c['treat'] == 'remove':
        e.rows = [r for i, r in enumerate(s.rows) if i not in bad]
    else:
        rows = list(s.rows)
        if any(b - 1 in bad for b in bad) or 0 in bad or n - 1 in bad:
            rec.label('border or group')
        else:
            for b in bad:
                m = rows[b][1].copy()
                m.comps = [(p + q)/2 for p, q in
                           zip(s.rows[b - 1][1].comps, s.rows[b + 1][1].comps)]
                rows[b] = (rows[b][0], m)
        e.rows = rows
    res = t.remove_weird_fields(std_coef=c['coef'], treatment=c['treat'],
                                inplace=c['inplace'])
    if c['inplace']:
        check(res is None, 'remove_weird_fields returned {!r}', res)
        res = t
    else:
        same_series(t, s, 'original')
    rec.label(c['treat'])
    if c['treat'] == 'interpolate' and (
            any(b - 1 in bad for b in bad) or 0 in bad or n - 1 in bad):
        # replaced by something between the other fields
        check(len(res) == n, '{} fields instead of {}', len(res), n)
        good = [i for i in range(n) if i not in bad]
        for i in range(n):
            if i in good:
                g.same_field(res.fields[i], s.rows[i][1], 'kept field')
                continue
            got = g.G.of_field(res.fields[i])
            for q, a in enumerate(got.comps):
                al = np.array([s.rows[k][1].comps[q] for k in good])
                check(np.all(a >= al.min(axis=0) - 1e-9) and
                      np.all(a <= al.max(axis=0) + 1e-9),
                      'field {} replaced by {}', i, a.tolist())
        return
    same_series(res, e, 'treated series')


# ------------------------------------------------------------------- spectra
def ref_spec(t, y, scaling='base', seg=None):
    n = len(t)
    fs = 1/(t[1] - t[0])
    if seg is not None and seg < n:
        from scipy.signal import welch
        fr, S = welch(y - y.mean(), fs, nperseg=seg, scaling='density'
                      if scaling == 'density' else 'spectrum')
    else:
        a = np.vstack([np.ones(n), np.arange(n) - (n - 1)/2.]).T
        v = y - a.dot(np.linalg.lstsq(a, y, rcond=None)[0])
        X = np.array([np.sum(v*np.exp(-2j*np.pi*k*np.arange(n)/n))
                      for k in range(n//2 + 1)])
        S = np.abs(X)**2/(n*n if scaling != 'density' else fs*n)
        S[1:] *= 2
        if n % 2 == 0:
            S[-1] /= 2
        fr = np.arange(n//2 + 1)*fs/n
    return fr, np.sqrt(S) if scaling == 'base' else S


@st.composite
def spec_case(draw):
    vector = draw(st.booleans())
    c = draw(g.temporal_case(vector, min_n=6, max_n=12, min_size=2,
                             max_size=4, masks=False, times=even_times,
                             even=True, scales=False))
    c['vector'] = vector
    c['comp'] = draw(st.sampled_from(['comp_x', 'comp_y', 'magnitude'] if
                                     vector else ['values']))
    nx, ny = len(c['x']), len(c['y'])
    c['ij'] = [draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1))]
    c['ij2'] = [draw(st.integers(c['ij'][0], nx - 1)),
                draw(st.integers(c['ij'][1], ny - 1))]
    c['ind'] = draw(st.booleans())
    c['beyond'] = draw(st.booleans())
    c['fr'] = [draw(st.sampled_from([0., 0., .25, .5])) for _ in range(2)]
    c['scaling'] = draw(st.sampled_from(['base', 'base', 'spectrum',
                                         'density']))
    c['seg'] = draw(st.sampled_from([None, None, 4]))
    c['nmb'] = draw(st.sampled_from([1, 1, 2]))
    c['dir'] = draw(st.sampled_from(['x', 'y']))
    c['tw'] = draw(st.sampled_from([None, [0, 2], [1, 3], [2, 5]]))
    c['f'] = draw(st.floats(0, 1))
    c['last'] = draw(st.sampled_from([None, 4, 5]))
    return c


def same_spec(r, fr, S, u, sc, what, rtol=1e-7):
    close(r.x, fr, what + ': frequencies')
    try:
        k = float((u/r.unit_y).asNumber(1))
    except Exception:
        fail('{}: unit {} instead of {}', what, r.unit_y, u)
    close(np.array(r.y)/k, S, what, scale=sc, rtol=rtol)


def run_spec(c, rec):
    vector = c['vector']
    t, s = g.build_temporal(c, vector), models(c, vector)
    ts = np.array([r[0] for r in s.rows])
    V = np.array([comp_of(m, c['comp']) for _, m in s.rows])
    snap = snapshot(t)
    uv, ut = make_unit(c['uv']), s.ut
    x, y = s.rows[0][1].x, s.rows[0][1].y
    rec.label(c['scaling'])
    amp = np.abs(V).max() + 1e-9
    sc = {'base': amp, 'spectrum': amp**2,
          'density': amp**2*(ts[1] - ts[0])*len(ts)}[c['scaling']]
    if np.ptp(V) < 1e-6*amp:
        rec.mark_trivial()
    u = {'base': uv, 'spectrum': uv**2, 'density': uv**2*ut}[c['scaling']]
    kw = dict(scaling=c['scaling'])
    if c['seg']:
        kw['welch_seglen'] = c['seg']
    i, j = c['ij']
    pt = [i, j] if c['ind'] else [float(x[i]), float(y[j])]
    fr, S = ref_spec(ts, V[:, i, j], c['scaling'], c['seg'])
    r = t.get_temporal_spectrum(c['comp'], pt, ind=c['ind'], **kw)
    same_spec(r, fr, S, u, sc, 'temporal spectrum')
    same_unit(r.unit_x, 1/ut, 'temporal spectrum: frequency unit')
    i2, j2 = c['ij2']
    S = np.mean([ref_spec(ts, V[:, a, b], c['scaling'], c['seg'])[1]
                 for a in range(i, i2 + 1) for b in range(j, j2 + 1)], axis=0)
    ix, iy = [i, i2], [j, j2]
    if not c['ind']:
        # bounds between two points: the points inside the interval
        def bounds(ax, a, b):
            lo, hi = float(ax[a]), float(ax[b])
            if a > 0:
                lo -= c['fr'][0]*float(ax[a] - ax[a - 1])
            if b < len(ax) - 1:
                hi += c['fr'][1]*float(ax[b + 1] - ax[b])
            return [lo, hi]
        ix, iy = bounds(x, *ix), bounds(y, *iy)
    r = t.get_temporal_spectrum_over_area(c['comp'], ix, iy, ind=c['ind'],
                                          **kw)
    same_spec(r, fr, S, u, sc, 'temporal spectrum over an area')
    # map of the main frequencies
    if not np.any(np.ptp(V, axis=0) < 1e-3*amp):
        kw2 = {'welch_seglen': c['seg']} if c['seg'] else {}
        r = t.get_spectrum_map(c['comp'], verbose=False, nmb_pic=c['nmb'],
                               **kw2)
        freqs, quals = r if c['nmb'] > 1 else ([r[0]], [r[1]])
        specs = {}
        for a, b in np.ndindex(V.shape[1:]):
            fr, S = ref_spec(ts, V[:, a, b], 'base', c['seg'])
            if np.max(S) < 1e-6*amp:
                specs = None
                break
            specs[a, b] = S
        if specs is not None:
            rec.label('map')
            check(len(freqs) == c['nmb'], 'spectrum map: {} maps', len(freqs))
            same_unit(freqs[0].unit_values, 1/ut, 'spectrum map: unit')
            same_unit(quals[0].unit_values, make_unit(''), 'quality: unit')
            close(freqs[0].axe_x, x, 'spectrum map: x')
            close(freqs[0].axe_y, y, 'spectrum map: y')
            for q in freqs + quals:
                same_unit(q.unit_x, make_unit(c['ux']), 'spectrum map: x unit')
                same_unit(q.unit_y, make_unit(c['uy']), 'spectrum map: y unit')
            for (a, b), S in specs.items():
                q = int(np.argmin(np.abs(fr - freqs[0].values[a, b])))
                close(freqs[0].values[a, b], fr[q], 'main frequency',
                      scale=fr[-1])
                check(S[q] >= S.max()*(1 - 1e-5) - 1e-6*amp, 'main frequency '
                      '{} of the spectrum {}', fr[q], S.tolist())
                close(quals[0].values[a, b], (S.max() - S.mean())/S.std(),
                      'spectrum quality', rtol=1e-4)
                if c['nmb'] == 2:
                    rest = np.delete(S, q)
                    f2 = freqs[1].values[a, b]
                    q2 = int(np.argmin(np.abs(fr - f2)))
                    close(f2, fr[q2], 'second frequency', scale=fr[-1])
                    check(q2 != q and S[q2] >= rest.max()*(1 - 1e-5) -
                          1e-6*amp, 'second frequency {} of {}', f2,
                          S.tolist())
    # spatial spectra, averaged in time
    if len(x) >= 3 and len(y) >= 3:
        rec.label('spatial')
        tw = c['tw']
        a, b = (0, len(ts) - 1) if tw is None else tw
        ax = x if c['dir'] == 'x' else y
        ux = make_unit(c['ux'] if c['dir'] == 'x' else c['uy'])
        Sm = []
        for W in V[a:b + 1]:
            for row in (W.T if c['dir'] == 'x' else W):
                fr, S = ref_spec(ax, row, 'base')
                Sm.append(S)
        kw3 = {} if tw is None else {'intervtime': [float(ts[a]),
                                                    float(ts[b])]}
        if c['beyond']:
            # an interval larger than the field is the whole field
            kw3['intervx'] = [x[0] - 3., x[-1] + 2.]
            kw3['intervy'] = [y[0] - 1., y[-1] + 4.]
        cc = {'comp_x': 'comp_x', 'comp_y': 'comp_y',
              'magnitude': 'magnitude', 'values': 'values'}[c['comp']]
        if cc == 'values' or vector:
            r = t.get_spatial_spectrum(cc, c['dir'], **kw3)
            same_spec(r, fr, np.mean(Sm, axis=0), uv, amp, 'spatial spectrum',
                      rtol=1e-6)
            same_unit(r.unit_x, 1/ux, 'spatial spectrum: frequency unit')
    if not vector:
        # phase map
        last = len(ts) - 1 if c['last'] is None else c['last']
        W = V[:last + 1]
        n = len(W)
        dt = ts[1] - ts[0]
        k = int(round(c['f']*(n//2 - 1)))
        f = k/(n*dt)
        X = np.sum(W*np.exp(-2j*np.pi*k*np.arange(n)/n)[:, None, None],
                   axis=0)
        kw4 = {} if c['last'] is None else {'tf': last}
        norm, phase = t.get_phase_map(f, verbose=False, **kw4)
        close(norm.values, np.abs(X), 'phase map: norm', scale=amp*n)
        Z = norm.values*np.exp(1j*np.array(phase.values))
        close(np.real(Z), np.real(X), 'phase map: phase', scale=amp*n,
              rtol=1e-8)
        close(np.imag(Z), np.imag(X), 'phase map: phase', scale=amp*n,
              rtol=1e-8)
        for mp in (norm, phase):
            close(mp.axe_x, x, 'phase map: x')
            close(mp.axe_y, y, 'phase map: y')
            same_unit(mp.unit_x, make_unit(c['ux']), 'phase map: x unit')
            same_unit(mp.unit_y, make_unit(c['uy']), 'phase map: y unit')
        same_unit(phase.unit_values, make_unit('rad'), 'phase map: unit')
    unchanged(t, snap, 'spectra')


# ------------------------------------------------------------- time filtering
@st.composite
def filter_case(draw):
    vector = draw(st.booleans())
    c = draw(g.temporal_case(vector, min_n=6, max_n=10, max_size=3,
                             masks=False, times=even_times, scales=False))
    c['vector'] = vector
    c['band'] = draw(st.sampled_from([[.1, .3], [.2, .6], [.05, .8]]))
    c['order'] = draw(st.sampled_from([None, 1, 3]))
    c['inplace'] = draw(st.booleans())
    return c


def run_filter(c, rec):
    vector = c['vector']
    t, s = g.build_temporal(c, vector), models(c, vector)
    ts = np.array([r[0] for r in s.rows])
    fmin, fmax = [b*.5/(ts[1] - ts[0]) for b in c['band']]
    kw = {} if c['order'] is None else {'order': c['order']}
    e = Series(vector)
    e.ut = s.ut
    e.rows = [(a, b.copy()) for a, b in s.rows]
    for q in range(len(s.rows[0][1].comps)):
        V = np.array([m.comps[q] for _, m in s.rows])
        for i, j in np.ndindex(V.shape[1:]):
            p = Profile(ts, V[:, i, j]).spectral_filtering(fmin, fmax, **kw)
            for k in range(len(ts)):
                e.rows[k][1].comps[q][i, j] = p.y[k]
    snap = snapshot(t)
    res = t.get_spectral_filtering(fmin, fmax, inplace=c['inplace'], **kw)
    if c['inplace']:
        check(res is None, 'filtering returned {!r}', res)
        res = t
    else:
        unchanged(t, snap, 'get_spectral_filtering')
    same_series(res, e, 'filtered series')
    if not c['inplace']:
        res.fields[0].scale(scalev=2., inplace=True)
        res.remove_fields(1)
        unchanged(t, snap, 'modifying the filtered series')


# -------------------------------------------------------------- temporal fill
@st.composite
def fill_case(draw):
    vector = draw(st.booleans())
    c = draw(g.temporal_case(vector, min_n=3, max_n=8, max_size=3))
    c['vector'] = vector
    c['kind'] = draw(st.sampled_from(['linear', 'linear', 'cubic', 'value']))
    c['val'] = draw(st.lists(g.quarter(-9, 9), min_size=2, max_size=2))
    c['inplace'] = draw(st.booleans())
    return c


def run_fill(c, rec):
    vector = c['vector']
    t, s = g.build_temporal(c, vector), models(c, vector)
    ts = np.array([r[0] for r in s.rows])
    M = np.array([m.mask for _, m in s.rows])
    nv = np.sum(~M, axis=0)
    kind = c['kind']
    if kind == 'cubic' and np.any((nv < 4) & (nv > 0)):
        kind = 'linear'
    rec.label(kind)
    kw = {}
    if kind == 'value':
        kw['value'] = list(c['val']) if vector else c['val'][0]
    snap = snapshot(t)
    res = t.fill(tof='temporal', kind=kind, inplace=c['inplace'], **kw)
    if c['inplace']:
        check(res is None, 'fill returned {!r}', res)
        res = t
    else:
        unchanged(t, snap, 'fill')
    filled = 0
    for i, j in np.ndindex(M.shape[1:]):
        ok = ~M[:, i, j]
        for q in range(len(s.rows[0][1].comps)):
            vv = np.array([m.comps[q][i, j] for _, m in s.rows])
            if ok.all() or nv[i, j] == 0:
                continue
            if kind == 'value':
                ref = np.where(ok, vv, c['val'][q])
            else:
                if ok.sum() == 1:
                    ref = vv
                elif kind == 'linear':
                    ref = np.interp(ts, ts[ok], vv[ok], left=np.nan,
                                    right=np.nan)
                else:
                    from scipy.interpolate import CubicSpline
                    ref = CubicSpline(ts[ok], vv[ok])(ts)
                    ref[(ts < ts[ok][0]) | (ts > ts[ok][-1])] = np.nan
                ref[ok] = vv[ok]
            if nv[i, j] < 3:
                # too few values: left as it was (or filled all the same)
                got = G1(res, q, i, j)
                if np.array_equal(np.isnan(got), np.isnan(vv)):
                    ref = vv
            filled += np.sum(~np.isnan(ref)) - np.sum(ok)
            for k in range(len(ts)):
                s.rows[k][1].comps[q][i, j] = ref[k]
                s.rows[k][1].mask[i, j] = np.isnan(ref[k])
    if not filled:
        rec.mark_trivial()
    check(len(res) == len(ts), 'fill: {} frames', len(res))
    close(res.times, ts, 'fill: times')
    sc = max(np.nanmax(np.abs(np.array([m.comps[q] for _, m in s.rows]))) if
             not np.all([m.mask for _, m in s.rows]) else 1.
             for q in range(len(s.rows[0][1].comps)))
    for k, (_, m) in enumerate(s.rows):
        f = res.fields[k]
        same_bool(f.mask, m.mask, 'fill: mask of frame {}'.format(k))
        for a, b in zip(g.G.of_field(f).comps, m.comps):
            close(np.where(m.mask, np.nan, a), np.where(m.mask, np.nan, b),
                  'fill: frame {}'.format(k), scale=sc, rtol=1e-7)


def G1(t, q, i, j):
    return np.array([g.G.of_field(f).comps[q][i, j] for f in t.fields])


SUBS = [
    Sub('time_profile', prof_case(), run_prof, 'a profile is read', 500),
    Sub('interpolation', interp_case(), run_interp, 'any series', 250),
    Sub('reduction', reduce_case(), run_reduce, 'the reduction is accepted',
        350),
    Sub('weird', weird_case(), run_weird, 'some field is weird', 250),
    Sub('spectra', spec_case(), run_spec, 'the signals are not constant', 200),
    Sub('filtering', filter_case(), run_filter, 'any series', 150),
    Sub('fill', fill_case(), run_fill, 'some value is filled', 400),
]
