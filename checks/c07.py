"""C07: filling, smoothing and resampling fields in space."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, check, close, same_unit
from harness import gens as g
from checks.c05 import Obj

ASSUMPTIONS = ['linear and cubic filling are decided exactly on fields affine '
               'in x and y, and by the range of the valid values otherwise',
               'make_evenly_spaced is checked on fields without masked points',
               'reduce_spatial_resolution is checked when two blocks fit along '
               'each axis']


def base(kind, **kw):
    if kind == 'sf':
        return g.sf_case(**kw)
    if kind == 'vf':
        return g.vf_case(**kw)
    kw.pop('kinds', None)
    kw.setdefault('max_size', 6)
    kw['max_size'] = max(min(kw['max_size'], 7), kw.get('min_size', 2))
    return g.temporal_case(kind == 'tvf', max_n=3, **kw)


def keys(kind):
    return ['vx', 'vy'] if kind in ('vf', 'tvf') else ['v']


def frames(c):
    return g.frame_cases(c) if 'times' in c else [c]


# --------------------------------------------------------------------- fill
@st.composite
def fill_case(draw, kind):
    c = draw(base(kind, min_size=2, max_size=6, scales=False,
                  kinds=('few', 'half', 'border', 'few', 'none')))
    if draw(st.booleans()):
        c['affine'] = [[draw(g.quarter(-8, 8)) for _ in range(3)]
                       for _ in range(2)]
    c['how'] = draw(st.sampled_from(['linear', 'linear', 'nearest', 'cubic',
                                     'value']))
    c['value'] = [draw(g.quarter(-9, 9)), draw(g.quarter(-9, 9))]
    c['onevalue'] = draw(st.booleans())
    c['inplace'] = draw(st.booleans())
    c['crop'] = draw(st.integers(0, 3)) == 0
    c['reduce'] = draw(st.sampled_from([None, None, True, False]))
    return c


def affine(c):
    """Replace the values by affine functions of the coordinates."""
    if 'affine' not in c:
        return
    X, Y = np.meshgrid(c['x'], c['y'], indexing='ij')
    for fr in c.get('frames', [c]):
        for k, (a, b, d) in zip([k for k in ('v', 'vx', 'vy') if k in fr],
                                c['affine']):
            fr[k] = (a*X + b*Y + d).tolist()


def border_box(mask):
    """Rows and columns left by crop_masked_border (soft)."""
    good = ~mask
    i = np.where(good.any(axis=1))[0]
    j = np.where(good.any(axis=0))[0]
    return slice(i[0], i[-1] + 1), slice(j[0], j[-1] + 1)


def check_filled(m, f, c, what):
    """m: model before, f: filled field."""
    how = c['how']
    close(f.axe_x, m.x, what + ': x', rtol=1e-12)
    close(f.axe_y, m.y, what + ': y', rtol=1e-12)
    same_unit(f.unit_x, m.ux, what + ': unit_x')
    same_unit(f.unit_y, m.uy, what + ': unit_y')
    same_unit(f.unit_values, m.uv, what + ': unit_values')
    got = g.G.of_field(f)
    check(not got.mask.any(), '{}: masked points left {}', what,
          got.mask.astype(int).tolist())
    X, Y = np.meshgrid(m.x, m.y, indexing='ij')
    good = ~m.mask
    for k, (a, b) in enumerate(zip(got.comps, m.comps)):
        close(a[good], b[good], what + ': valid points', rtol=0)
        lo, hi = np.min(b[good]), np.max(b[good])
        sc = max(abs(lo), abs(hi), 1e-300)
        gi, gj = np.where(good)
        aff = None
        if 'affine' in c:
            ca, cb, cd = c['affine'][k]
            aff = ca*X + cb*Y + cd
            sc = max(sc, np.abs(aff).max())
        for i, j in np.argwhere(m.mask):
            v = a[i, j]
            if how == 'value':
                exp = c['value'][0] if c['onevalue'] else c['value'][k]
                check(v == exp, '{}: filled with {} instead of {}', what, v,
                      exp)
                continue
            d2 = (m.x[gi] - m.x[i])**2 + (m.y[gj] - m.y[j])**2
            near = b[gi, gj][d2 <= d2.min()*(1 + 1e-9)]
            is_near = np.any(np.abs(near - v) <= 1e-9*sc)
            if how == 'nearest':
                check(is_near, '{}: nearest filling of {} gave {}, not one of '
                      '{}', what, (i, j), v, near.tolist())
                continue
            # outside the box of the valid points: nearest point
            if i < gi.min() or i > gi.max() or j < gj.min() or j > gj.max():
                check(is_near, '{}: filling outside the valid points gave {}, '
                      'not one of {}', what, v, near.tolist())
                continue
            if how == 'linear':
                check(lo - 1e-7*sc <= v <= hi + 1e-7*sc,
                      '{}: linear filling of {} gave {}, outside [{}, {}]',
                      what, (i, j), v, lo, hi)
            if aff is None:
                continue
            tol = 1e-7*sc if how == 'linear' else 1e-3*sc
            row, col = good[i], good[:, j]
            inside = (row[:j].any() and row[j + 1:].any()) or \
                (col[:i].any() and col[i + 1:].any())
            edge = i in (gi.min(), gi.max()) or j in (gj.min(), gj.max())
            aligned = np.linalg.matrix_rank(np.c_[gi - gi[0], gj - gj[0]]) < 2
            if inside and not edge and not aligned:
                check(abs(v - aff[i, j]) <= tol, '{}: {} filling of an affine '
                      'field gave {} instead of {} at {}', what, how, v,
                      aff[i, j], (i, j))
            elif how == 'linear':
                check(is_near or abs(v - aff[i, j]) <= tol, '{}: filling of '
                      'an affine field gave {} at {}', what, v, (i, j))


def run_fill(kind, c, rec):
    affine(c)
    o = Obj(kind, c)
    if not any(m.mask.any() for m in o.models):
        rec.mark_trivial()
    kw = {'kind': c['how'], 'crop': c['crop']}
    if c['how'] == 'value':
        if kind in ('sf', 'tsf') or c['onevalue']:
            c['onevalue'] = True
            kw['value'] = c['value'][0]
        else:
            kw['value'] = list(c['value'])
    if c['reduce'] is not None and kind in ('sf', 'vf'):
        kw['reduce_tri'] = c['reduce']
    models = [m.copy() for m in o.models]
    if c['crop']:
        ij = border_box(np.all([m.mask for m in models], axis=0))
        if any(s.stop - s.start < 2 for s in ij):
            # a single row or column cannot be filled back into a field
            c['crop'] = kw['crop'] = False
        else:
            models = [g.G(m.x[ij[0]], m.y[ij[1]], [v[ij] for v in m.comps],
                          m.mask[ij], m.ux, m.uy, m.uv) for m in models]
    if any(m.mask.all() for m in models):
        rec.mark_trivial()
        return
    res = o.apply('fill', c['inplace'], **kw)
    fields = res.fields if o.temporal else [res]
    check(len(fields) == len(models), 'fill: {} fields', len(fields))
    for m, f in zip(models, fields):
        check_filled(m, f, c, 'fill({})'.format(kw))
    if o.temporal:
        close(res.times, o.times, 'fill: times', rtol=0)
        close(res.axe_x, models[0].x, 'fill: x of the set', rtol=1e-12)
        close(res.axe_y, models[0].y, 'fill: y of the set', rtol=1e-12)
    rec.label(c['how'], 'crop' if c['crop'] else 'nocrop',
              'affine' if 'affine' in c else 'any')


# ------------------------------------------------------------------- smooth
@st.composite
def smooth_case(draw, kind):
    c = draw(base(kind, min_size=2, max_size=6, scales=False,
                  kinds=('none', 'none', 'few')))
    c['tos'] = draw(st.sampled_from(['uniform', 'gaussian']))
    c['size'] = draw(st.sampled_from([None, 1, 2, 3, 5] if c['tos'] ==
                                     'uniform' else [None, .5, 1, 2.]))
    c['inplace'] = draw(st.booleans())
    return c


def filt(v, tos, size):
    for ax in (0, 1):
        v = np.moveaxis(v, ax, 0)
        if tos == 'uniform':
            size = size or 3
            w = np.ones(size)/size
            lo = size//2
        else:
            s = size or 1.
            lo = int(4*s + .5)
            k = np.arange(-lo, lo + 1)
            w = np.exp(-.5*(k/s)**2)
            w /= w.sum()
        p = np.pad(v, [(lo, len(w) - 1 - lo), (0, 0)], mode='symmetric')
        v = sum(w[i]*p[i:i + v.shape[0]] for i in range(len(w)))
        v = np.moveaxis(v, 0, ax)
    return v


def run_smooth(kind, c, rec):
    o = Obj(kind, c)
    if any(m.mask.all() for m in o.models):
        rec.mark_trivial()
        return
    # the field is filled first, then every component is filtered
    filled = o.o.fill(inplace=False)
    fields = filled.fields if o.temporal else [filled]
    exp = [g.G.of_field(f) for f in fields]
    for m in exp:
        check(not m.mask.any(), 'fill left masked points')
        m.comps = [filt(v, c['tos'], c['size']) for v in m.comps]
    kw = {} if c['size'] is None else {'size': c['size']}
    if c['tos'] != 'uniform' or c['size'] == 3:
        kw['tos'] = c['tos']
    res = o.apply('smooth', c['inplace'], **kw)
    o.same(res, exp, 'smooth({}, {})'.format(c['tos'], c['size']), rtol=1e-9)
    rec.label(c['tos'])


# --------------------------------------------------------------- resolution
@st.composite
def reduce_case(draw, kind):
    fact = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    c = draw(base(kind, min_size=max(2*fact, 2), max_size=max(2*fact + 3, 5),
                  kinds=('none', 'few', 'half', 'border')))
    c['fact'] = fact
    c['inplace'] = draw(st.booleans())
    return c


def run_reduce(kind, c, rec):
    o = Obj(kind, c)
    n = c['fact']
    if min(o.models[0].mask.shape)//n < 2:
        rec.mark_trivial()
        return
    exp = []
    for m in o.models:
        nx, ny = m.mask.shape[0]//n, m.mask.shape[1]//n
        comps = [np.full((nx, ny), np.nan) for _ in m.comps]
        mask = np.zeros((nx, ny), bool)
        for i in range(nx):
            for j in range(ny):
                s = np.s_[i*n:(i + 1)*n, j*n:(j + 1)*n]
                good = ~m.mask[s]
                mask[i, j] = not good.any()
                for e, v in zip(comps, m.comps):
                    if good.any():
                        e[i, j] = v[s][good].mean()
        if n % 2:
            x = m.x[n//2::n][:nx]
            y = m.y[n//2::n][:ny]
        else:
            x = np.array([(m.x[i*n + n//2 - 1] + m.x[i*n + n//2])/2
                          for i in range(nx)])
            y = np.array([(m.y[i*n + n//2 - 1] + m.y[i*n + n//2])/2
                          for i in range(ny)])
        exp.append(g.G(x, y, comps, mask, m.ux, m.uy, m.uv))
    res = o.apply('reduce_spatial_resolution', c['inplace'], n)
    o.same(res, exp, 'reduce_spatial_resolution(%d)' % n)
    rec.label('fact:%d' % n, 'odd' if n % 2 else 'even')


# ------------------------------------------------------------------- evenly
@st.composite
def even_case(draw, kind):
    c = draw(base(kind, masks=False, max_size=5, scales=False))
    c['res'] = draw(st.sampled_from([None, 1, 2, 3]))
    return c


def run_even(kind, c, rec):
    o = Obj(kind, c)
    m0 = o.models[0]
    kw = {} if c['res'] is None else {'res': c['res']}
    out = o.o.make_evenly_spaced(**kw)
    check(out is None or out is o.o, 'make_evenly_spaced gave {!r}', out)
    res = o.o
    r = c['res'] or 1
    for ax, new, n in ((m0.x, res.axe_x, 'x'), (m0.y, res.axe_y, 'y')):
        close([new[0], new[-1]], [ax[0], ax[-1]], n + ' bounds',
              atol=1e-9*np.ptp(ax))
        q = (ax[-1] - ax[0])*r/np.min(np.diff(ax))
        check(len(new) - 1 in (int(q - 1e-5), int(q + 1e-5)),
              '{}: {} intervals for a resolution of {}', n, len(new) - 1, q)
        close(np.diff(new), np.full(len(new) - 1, np.ptp(ax)/(len(new) - 1)),
              n + ' spacing', rtol=1e-6)
    fields = res.fields if o.temporal else [res]
    exp = []
    for m, f in zip(o.models, fields):
        X = np.clip(np.array(f.axe_x), m.x[0], m.x[-1])
        Y = np.clip(np.array(f.axe_y), m.y[0], m.y[-1])
        comps = []
        for v in m.comps:
            w = np.array([np.interp(X, m.x, v[:, j])
                          for j in range(len(m.y))]).T
            w = np.array([np.interp(Y, m.y, w[i]) for i in range(len(X))])
            comps.append(w)
        exp.append(g.G(f.axe_x, f.axe_y, comps, np.zeros(comps[0].shape, bool),
                       m.ux, m.uy, m.uv))
    o.same(res, exp, 'make_evenly_spaced(%r)' % c['res'], rtol=1e-7)
    rec.label('res:%s' % c['res'])


SUBS = []
for k, n in (('sf', 3), ('vf', 2), ('tsf', 1), ('tvf', 1)):
    SUBS += [
        Sub(k + '_fill', fill_case(k), lambda c, r, k=k: run_fill(k, c, r),
            'a point is masked and one is not', 200*n),
        Sub(k + '_smooth', smooth_case(k),
            lambda c, r, k=k: run_smooth(k, c, r), 'a point is valid', 100*n),
        Sub(k + '_reduce', reduce_case(k),
            lambda c, r, k=k: run_reduce(k, c, r), 'two blocks fit', 120*n),
        Sub(k + '_even', even_case(k), lambda c, r, k=k: run_even(k, c, r),
            'always', 100*n)]
