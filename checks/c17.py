"""C17: differential operators on fields."""
import numpy as np
from hypothesis import strategies as st

import IMTreatment as imt
from IMTreatment import make_unit
from IMTreatment import field_treatment as ft
from IMTreatment.core import (ScalarField, VectorField, TemporalScalarFields)
from harness.core import Sub, check, close, same_unit, same_bool, fail, \
    expect_raises
from harness import gens as g

ASSUMPTIONS = [
    'derivatives are second order centred differences inside the grid and '
    'one-sided differences on its border, on even and uneven grids',
    'a point that is itself masked, its neighbours being valid, may be '
    'reported masked or not',
    'a reconstruction from gradients is decided on evenly spaced grids without '
    'masked points, where the trapezoidal rule is exact',
    'eigenvectors are decided where the eigenvalues are real and distinct']


# ---------------------------------------------------------------- reference
def deriv(v, x):
    """Derivative along the first axis: (values, valid, missing)."""
    v = np.asarray(v, dtype=float)
    n = len(x)
    out = np.zeros(v.shape)
    ok = np.zeros(v.shape, dtype=bool)
    bad = np.zeros(v.shape, dtype=bool)
    for i in range(n):
        if i == 0 or i == n - 1:
            a, b = (0, 1) if i == 0 else (n - 2, n - 1)
            out[i] = (v[b] - v[a])/(x[b] - x[a])
            bad[i] = np.isnan(v[a]) | np.isnan(v[b])
            ok[i] = ~bad[i]
        else:
            h1, h2 = x[i] - x[i - 1], x[i + 1] - x[i]
            # slope of the parabola through the three points
            s1, s2 = (v[i] - v[i - 1])/h1, (v[i + 1] - v[i])/h2
            out[i] = (h2*s1 + h1*s2)/(h1 + h2)
            bad[i] = np.isnan(v[i - 1]) | np.isnan(v[i + 1])
            ok[i] = ~bad[i] & ~np.isnan(v[i])
            if abs(h1 - h2) > 1e-6*(h1 + h2):
                bad[i] |= np.isnan(v[i])
    return out, ok, bad


def derivs(m):
    """All the derivatives of a model: list of (dx, dy) per component, with
    where they must be given and where they must not."""
    res = []
    ok = np.ones(m.mask.shape, dtype=bool)
    bad = np.zeros(m.mask.shape, dtype=bool)
    for v in m.comps:
        dx, okx, badx = deriv(v, m.x)
        dy, oky, bady = deriv(v.T, m.y)
        res.append((dx, dy.T))
        ok &= okx & oky.T
        bad |= badx | bady.T
    return res, ok, bad


def ratio(u1, u2, what):
    try:
        return float((u1/u2).asNumber(1))
    except Exception:
        fail('{}: unit {} instead of {}', what, u1, u2)


def same_where(arrays, expected, ok, what, scale=None, rtol=1e-9):
    """Plain comparison on the points where a value has to be given."""
    for a, e in zip(arrays, expected):
        a = np.ma.filled(np.ma.asarray(a).astype(float), np.nan)
        check(a.shape == e.shape, '{}: shape {}', what, a.shape)
        close(a[ok], e[ok], what, rtol=rtol, scale=scale)


def same_derived(f, m, expected, unit, ok, bad, what, rtol=1e-9):
    """f: field given by the library; expected: list of arrays in unit."""
    check(isinstance(f, ScalarField if len(expected) == 1 else VectorField),
          '{}: got {!r}', what, type(f))
    close(f.axe_x, m.x, what + ': x', rtol=1e-12)
    close(f.axe_y, m.y, what + ': y', rtol=1e-12)
    same_unit(f.unit_x, m.ux, what + ': unit_x')
    same_unit(f.unit_y, m.uy, what + ': unit_y')
    k = ratio(unit, f.unit_values, what + ': values')
    fm = np.array(f.mask)
    check(not np.any(fm & ok), '{}: masked where the data allow a value: {}',
          what, fm.astype(int).tolist())
    check(np.all(fm[bad]), '{}: a value is given where the data are missing: {}',
          what, fm.astype(int).tolist())
    got = g.G.of_field(f).comps
    fin = [np.abs(e[ok]) for e in expected]
    scale = max([a.max() for a in fin if a.size] + [1e-300])*abs(k)
    for a, e in zip(got, expected):
        close(a[ok], (e*k)[ok], what, rtol=rtol, scale=scale)


def kinds_case(kind, **kw):
    return (g.sf_case if kind == 'sf' else g.vf_case)(**kw)


# ---------------------------------------------------------------- gradients
@st.composite
def grad_case(draw):
    kind = draw(st.sampled_from(['sf', 'vf']))
    c = draw(kinds_case(kind, min_size=2, max_size=6))
    c['kind'] = kind
    c['raw'] = draw(st.booleans())
    return c


def run_grad(c, rec):
    kind = c['kind']
    f = (g.build_sf if kind == 'sf' else g.build_vf)(c)
    m = g.G.of_case(c)
    res, ok, bad = derivs(m)
    rec.label(kind, 'raw' if c['raw'] else 'fields',
              'masked' if g.is_masked_case(c) else 'full')
    if not ok.any():
        rec.mark_trivial()
    flat = [d for pair in res for d in pair]
    out = ft.get_gradients(f, raw=c['raw'])
    check(len(out) == len(flat), 'get_gradients: {} results', len(out))
    names = ['dVx/dx', 'dVx/dy', 'dVy/dx', 'dVy/dy']
    for i, (o, e) in enumerate(zip(out, flat)):
        what = 'get_gradients: ' + names[i]
        if c['raw']:
            om = np.ma.getmaskarray(o)
            check(not np.any(om & ok), '{}: masked where valid', what)
            check(np.all((om | np.isnan(np.ma.getdata(o)))[bad]),
                  '{}: value where missing', what)
            same_where([o], [e], ok, what)
        else:
            unit = m.uv/(m.ux if i % 2 == 0 else m.uy)
            same_derived(o, m, [e], unit, ok, bad, what)
    g.same_field(f, m, 'get_gradients: its argument')


# -------------------------------------------------------- simple operators
@st.composite
def op_case(draw):
    c = draw(g.vf_case(min_size=2, max_size=6))
    c['op'] = draw(st.sampled_from(['divergence', 'divergence', 'grad',
                                    'track', 'shear']))
    c['direction'] = draw(st.sampled_from(['x', 'y']))
    c['raw'] = draw(st.booleans())
    if c['op'] == 'divergence':
        # both derivatives have to be additive
        c['ux'], c['uy'] = draw(st.sampled_from(
            [('m', 'm'), ('m', 'mm'), ('mm', 'cm'), ('', ''), ('cm', 'm')]))
    if c['op'] == 'grad':
        c['uy'] = c['ux']
    if c['op'] == 'shear':
        c['uy'] = c['ux']
        c['m'] = None
    return c


def run_op(c, rec):
    f = g.build_vf(c)
    m = g.G.of_case(c)
    (a, b), ok, bad = derivs(m)
    rec.label(c['op'], 'masked' if g.is_masked_case(c) else 'full')
    if not ok.any():
        rec.mark_trivial()
    op = c['op']
    if op == 'divergence':
        k = ratio(1/m.uy, 1/m.ux, 'harness')
        same_derived(ft.get_divergence(f), m, [a[0] + b[1]*k], m.uv/m.ux, ok,
                     bad, 'get_divergence', rtol=1e-8)
    elif op == 'grad':
        e = a if c['direction'] == 'x' else b
        out = ft.get_grad_field(f, direction=c['direction'])
        same_derived(out, m, list(e), given_unit(out, m, c, True), ok, bad,
                     'get_grad_field')
        expect_raises(lambda: ft.get_grad_field(f, direction='z'),
                      'get_grad_field along z')
    elif op == 'track':
        e = m.copy()
        e.comps = [-m.comps[1], m.comps[0]]
        g.same_field(ft.get_track_field(f), e, 'get_track_field')
    elif op == 'shear':
        e = [b[0], a[1]]
        if c['raw']:
            out = ft.get_shear_stress(f, raw=True)
            same_where(out, e, ok, 'get_shear_stress')
        else:
            out = ft.get_shear_stress(f)
            same_derived(out, m, e, given_unit(out, m, c, False), ok, bad,
                         'get_shear_stress')
    g.same_field(f, m, op + ': its argument')


def given_unit(out, m, c, base):
    """Unit the values are compared in. The unit of these two fields is a
    recorded finding (the one of the original field is given, with values in
    base units or not); only the probe insists."""
    unit = m.uv/m.ux
    if c.get('strict'):
        return unit
    try:
        float((out.unit_values/unit).asNumber(1))
        return unit
    except Exception:
        pass
    same_unit(out.unit_values, m.uv, 'get_' + c['op'])
    return m.uv*unit.asNumber() if base else m.uv


# --------------------------------------------------------- temporal divergence
@st.composite
def tdiv_case(draw):
    c = draw(g.temporal_case(True, min_n=1, max_n=4, min_size=2, max_size=4))
    c['ux'], c['uy'] = draw(st.sampled_from([('m', 'm'), ('m', 'mm'),
                                             ('', '')]))
    return c


def run_tdiv(c, rec):
    t = g.build_temporal(c, True)
    out = ft.get_divergence(t)
    check(isinstance(out, TemporalScalarFields), 'divergence: {!r}', type(out))
    close(out.times, c['times'], 'divergence: times')
    same_unit(out.unit_times, make_unit(c['ut']), 'divergence: unit of times')
    rec.label(len(c['times']))
    for fc, f in zip(g.frame_cases(c), out.fields):
        m = g.G.of_case(fc)
        (a, b), ok, bad = derivs(m)
        k = ratio(1/m.uy, 1/m.ux, 'harness')
        same_derived(f, m, [a[0] + b[1]*k], m.uv/m.ux, ok, bad,
                     'divergence of a series', rtol=1e-8)


# ------------------------------------------------------------------ jacobian
@st.composite
def eig_case(draw):
    c = draw(g.vf_case(min_size=2, max_size=5))
    c['uy'] = c['ux']
    c['raw'] = draw(st.booleans())
    c['val'] = draw(st.sampled_from([True, True, False]))
    c['vect'] = draw(st.sampled_from([True, True, False])) or not c['val']
    c['kind'] = draw(st.sampled_from(['any', 'any', 'sym', 'affine']))
    if c['kind'] == 'affine':
        J = [draw(g.quarter(-4, 4)) for _ in range(4)]
        X, Y = np.meshgrid(c['x'], c['y'], indexing='ij')
        c['vx'] = (J[0]*X + J[1]*Y).tolist()
        c['vy'] = (J[2]*X + J[3]*Y).tolist()
    elif c['kind'] == 'sym':
        a, b, d = [draw(g.quarter(-4, 4)) for _ in range(3)]
        X, Y = np.meshgrid(c['x'], c['y'], indexing='ij')
        c['vx'] = (a*X + b*Y + d*X*Y).tolist()
        c['vy'] = (b*X + d*X*X/2 + a*Y).tolist()
    return c


def run_eig(c, rec):
    f = g.build_vf(c)
    m = g.G.of_case(c)
    ((ux, uy), (vx, vy)), ok, bad = derivs(m)
    tr, det = ux + vy, ux*vy - uy*vx
    disc = tr**2/4 - det
    size = np.abs(ux) + np.abs(uy) + np.abs(vx) + np.abs(vy)
    scale = max(np.max(size[ok]) if ok.any() else 0., 1e-300)
    # clearly real, clearly complex; anything near a double eigenvalue is free
    real = ok & (disc > 1e-6*scale**2)
    cplx = ok & (disc < -1e-6*scale**2)
    if not (real.any() or cplx.any()):
        rec.mark_trivial()
    rec.label('real' if real.any() else '', 'complex' if cplx.any() else '',
              'raw' if c['raw'] else 'fields')
    out = ft.get_jacobian_eigenproperties(f, raw=c['raw'], eig_val=c['val'],
                                          eig_vect=c['vect'])
    n = 4*c['val'] + 2*c['vect']
    check(len(out) == n, 'get_jacobian_eigenproperties: {} results', len(out))
    what = 'get_jacobian_eigenproperties'
    if c['val']:
        e = out[:4]
        if not c['raw']:
            for i in e:
                check(np.all(np.array(i.mask)[bad]), '{}: value where missing',
                      what)
                check(not np.any(np.array(i.mask)[ok]), '{}: masked', what)
                k = ratio(i.unit_values, m.uv/m.ux, what)
            e = [np.array(i.values)*k for i in e]
        r1, i1, r2, i2 = [np.asarray(i, dtype=float) for i in e]
        sq = np.sqrt(np.where(disc > 0, disc, 0))
        for name, a, b in [('first eigenvalue', r1, tr/2 + sq),
                           ('second eigenvalue', r2, tr/2 - sq)]:
            close(a[real], b[real], what + ': ' + name, rtol=1e-7, scale=scale)
            close(a[cplx], (tr/2)[cplx], what + ': real part of the ' + name,
                  rtol=1e-7, scale=scale)
        close(i1[real], 0*i1[real], what + ': imaginary part', atol=1e-7*scale)
        close(i2[real], 0*i2[real], what + ': imaginary part', atol=1e-7*scale)
        im = np.sqrt(np.where(disc < 0, -disc, 0))
        close(np.abs(i1[cplx]), im[cplx], what + ': imaginary part', rtol=1e-7,
              scale=scale)
        close((i1 + i2)[cplx], 0*i1[cplx], what + ': conjugates',
              atol=1e-7*scale)
    if c['vect']:
        for s, e in zip([1, -1], out[-2:]):
            if c['raw']:
                ex, ey = e
            else:
                check(np.all(np.array(e.mask)[bad]), '{}: vector where missing',
                      what)
                check(not np.any(np.array(e.mask)[ok]), '{}: masked', what)
                ex, ey = np.array(e.comp_x), np.array(e.comp_y)
            lam = tr/2 + s*np.sqrt(np.where(disc > 0, disc, 0))
            close((ex**2 + ey**2)[real], np.ones(real.sum()),
                  what + ': eigenvector length', rtol=1e-7)
            close((ux*ex + uy*ey)[real], (lam*ex)[real],
                  what + ': eigenvector', atol=1e-6*scale)
            close((vx*ex + vy*ey)[real], (lam*ey)[real],
                  what + ': eigenvector', atol=1e-6*scale)
    g.same_field(f, m, what + ': its argument')


def run_ken(c, rec):
    f = g.build_vf(c)
    m = g.G.of_case(c)
    ((ux, uy), (vx, vy)), ok, bad = derivs(m)
    ok = ok & ~m.mask
    tr, det = ux + vy, ux*vy - uy*vx
    disc = tr**2/4 - det
    size = np.abs(ux) + np.abs(uy) + np.abs(vx) + np.abs(vy)
    scale = max(np.max(size[ok]) if ok.any() else 0., 1e-300)
    real = ok & (disc > 1e-4*scale**2)
    if not real.any():
        rec.mark_trivial()
    out = ft.get_Kenwright_field(f, raw=c['raw'])
    check(len(out) == 2, 'get_Kenwright_field: {} results', len(out))
    vmax = max([np.max(np.abs(v[~m.mask])) for v in m.comps] + [1e-300])
    for s, o in zip([1, -1], out):
        if not c['raw']:
            same_unit(o.unit_values, m.uv, 'get_Kenwright_field')
            o = np.array(o.values)
        for i, j in zip(*np.where(real)):
            J = np.array([[ux[i, j], uy[i, j]], [vx[i, j], vy[i, j]]])
            lam = tr[i, j]/2 + s*np.sqrt(disc[i, j])
            # null vector of J - lam
            A = J - lam*np.eye(2)
            row = A[np.argmax(np.abs(A).sum(axis=1))]
            e = np.array([-row[1], row[0]])
            e /= np.linalg.norm(e)
            want = abs(e[0]*m.comps[1][i, j] - e[1]*m.comps[0][i, j])
            close(abs(o[i, j]), want, 'get_Kenwright_field at {}'.format((i, j)),
                  atol=1e-5*vmax)


# ------------------------------------------------------------- reconstruction
@st.composite
def rec_case(draw):
    ax = draw(g.axis(2, 6, even=True))
    ay = draw(g.axis(2, 6, even=True))
    c = {'x': ax, 'y': ay, 'ux': draw(g.unit_len()), 'uv': draw(g.unit_any()),
         'kind': draw(st.sampled_from(['analytic', 'chain'])),
         'vector': draw(st.booleans()), 
         'coefs': [[draw(g.quarter(-4, 4)) for _ in range(6)]
                   for _ in range(2)]}
    # the least square step fits numerical gradients, exact in this case only
    c['ols'] = c['kind'] == 'chain' and draw(st.integers(0, 3)) == 0
    c['uy'] = draw(st.sampled_from([c['ux'], c['ux']] +
                                   (['m', 'mm'] if c['ux'] else [])))
    return c


def run_rec(c, rec):
    X, Y = np.meshgrid(c['x'], c['y'], indexing='ij')
    ux, uy, uv = make_unit(c['ux']), make_unit(c['uy']), make_unit(c['uv'])
    wants, grads = [], []
    rec.label(c['kind'], 'vector' if c['vector'] else 'scalar',
              'mixed' if c['ux'] != c['uy'] else '')
    for a, bx, by, cxx, cxy, cyy in c['coefs'][:2 if c['vector'] else 1]:
        if c['kind'] == 'chain':
            cxx = cxy = cyy = 0.
        v = a + bx*X + by*Y + cxx*X*X + cxy*X*Y + cyy*Y*Y
        wants.append(v - v.mean())
        if c['kind'] == 'chain':
            f = ScalarField()
            f.import_from_arrays(np.array(c['x']), np.array(c['y']), v,
                                 unit_x=c['ux'], unit_y=c['uy'],
                                 unit_values=c['uv'])
            grads += list(ft.get_gradients(f))
        else:
            for d, u in [(bx + 2*cxx*X + cxy*Y, ux),
                         (by + 2*cyy*Y + cxy*X, uy)]:
                f = ScalarField()
                unit = uv/u
                k = unit.asNumber()
                f.import_from_arrays(np.array(c['x']), np.array(c['y']), d*k,
                                     unit_x=c['ux'], unit_y=c['uy'],
                                     unit_values=unit/k)
                grads.append(f)
    out = ft.reconstruct_from_gradients(*grads, ols=c['ols'])
    check(isinstance(out, VectorField if c['vector'] else ScalarField),
          'reconstruct_from_gradients: {!r}', type(out))
    m = g.G(c['x'], c['y'], wants, np.zeros(X.shape, dtype=bool), ux, uy, uv)
    k = ratio(uv, out.unit_values, 'reconstruct_from_gradients')
    got = g.G.of_field(out)
    scale = max(max(np.abs(w).max() for w in wants)*k, 1e-300)
    same_unit(out.unit_x, ux, 'reconstruct_from_gradients: unit_x')
    same_unit(out.unit_y, uy, 'reconstruct_from_gradients: unit_y')
    close(out.axe_x, c['x'], 'reconstruct: x', rtol=1e-12)
    close(out.axe_y, c['y'], 'reconstruct: y', rtol=1e-12)
    check(not np.any(out.mask), 'reconstruct: masked')
    for a, b in zip(got.comps, m.comps):
        close(a, b*k, 'reconstruct_from_gradients', rtol=1e-7, scale=scale)


# ----------------------------------------------------------------- wall
@st.composite
def wall_case(draw):
    kind = draw(st.sampled_from(['sf', 'vf']))
    c = draw(kinds_case(kind, min_size=2, max_size=5, even=True, masks=False,
                        scales=False))
    c['kind'] = kind
    c['direction'] = draw(st.sampled_from(['x', 'y']))
    c['side'] = draw(st.sampled_from(['low', 'high']))
    c['steps'] = draw(st.integers(1, 4))
    c['extra'] = draw(st.sampled_from([0., 0.25, 0.5, 0.75]))
    return c


def run_wall(c, rec):
    f = (g.build_sf if c['kind'] == 'sf' else g.build_vf)(c)
    m = g.G.of_case(c)
    ax = m.x if c['direction'] == 'x' else m.y
    d = ax[1] - ax[0]
    off = d*(c['steps'] + c['extra'])
    pos = float(ax[0] - off if c['side'] == 'low' else ax[-1] + off)
    rec.label(c['kind'], c['direction'], c['side'])
    out = ft.extrapolate_until_wall(f, c['direction'], position=pos)
    n = c['steps']
    got_n = out.shape[0 if c['direction'] == 'x' else 1] - len(ax)
    if c['direction'] == 'x' and c['side'] == 'high' and \
            not c.get('strict') and got_n == n + len(ax) - 2:
        # recorded finding: the wall is too far on this side
        n = got_n
    new = (np.concatenate((ax[0] - d*np.arange(n, 0, -1), ax))
           if c['side'] == 'low'
           else np.concatenate((ax, ax[-1] + d*np.arange(1, n + 1))))
    e = m.copy()
    if c['direction'] == 'x':
        e.x = new
    else:
        e.y = new
    comps = []
    for v in m.comps:
        v = v if c['direction'] == 'x' else v.T
        w = np.zeros((len(new), v.shape[1]))
        if c['side'] == 'low':
            w[n:] = v
            for i in range(n):
                w[i] = v[0]*i/float(n)
        else:
            w[:len(ax)] = v
            for i in range(n):
                w[len(ax) + i] = v[-1]*(n - 1 - i)/float(n)
        comps.append(w if c['direction'] == 'x' else w.T)
    e.comps = comps
    e.mask = np.zeros(comps[0].shape, dtype=bool)
    check(type(out) is type(f), 'extrapolate_until_wall: {!r}', type(out))
    close(out.axe_x, e.x, 'extrapolate_until_wall: x')
    close(out.axe_y, e.y, 'extrapolate_until_wall: y')
    check(not np.any(out.mask), 'extrapolate_until_wall: masked {}',
          np.array(out.mask).astype(int).tolist())
    got = g.G.of_field(out)
    scale = max(max(np.abs(v).max() for v in m.comps), 1e-300)
    sel = (slice(None),)
    for a, b, v in zip(got.comps, e.comps, m.comps):
        A, B = (a, b) if c['direction'] == 'x' else (a.T, b.T)
        keep = slice(n, None) if c['side'] == 'low' else slice(0, len(ax))
        close(A[keep], B[keep], 'extrapolate_until_wall: the data', scale=scale)
        w = 0 if c['side'] == 'low' else -1
        close(A[w], B[w], 'extrapolate_until_wall: the wall', scale=scale)
        edge = B[n] if c['side'] == 'low' else B[len(ax) - 1]
        for i in (range(n) if c['side'] == 'low' else
                  range(len(ax), len(ax) + n)):
            lo, hi = min(0, edge.min()), max(0, edge.max())
            check(np.all(A[i] >= lo - 1e-9*scale) and
                  np.all(A[i] <= hi + 1e-9*scale),
                  'extrapolate_until_wall: out of range near the wall')
        if np.allclose(edge, edge[0]):
            close(A, B, 'extrapolate_until_wall: linear', scale=scale)
    same_unit(out.unit_values, m.uv, 'extrapolate_until_wall: unit')
    g.same_field(f, m, 'extrapolate_until_wall: its argument')


# ------------------------------------------------------------------ profiles
@st.composite
def prof_case(draw):
    c = draw(g.prof_case(min_size=3, max_size=8, masks=False, even=True))
    c['raw'] = draw(st.booleans())
    return c


def run_prof(c, rec):
    p = g.build_prof(c)
    x, y = np.array(c['x']), np.array(c['y'], dtype=float)
    out = ft.get_gradients(p, raw=c['raw'])
    e, _, _ = deriv(y.reshape((-1, 1)), x)
    e = e[:, 0]
    k = 1.
    if not c['raw']:
        close(out.x, x, 'gradient of a profile: x')
        same_unit(out.unit_x, make_unit(c['ux']), 'gradient of a profile: unit')
        k = ratio(make_unit(c['uy'])/make_unit(c['ux']), out.unit_y,
                  'gradient of a profile')
        check(not np.any(out.mask), 'gradient of a profile: masked')
        out = out.y
    out = np.asarray(out, dtype=float)
    scale = max(np.abs(e).max(), np.abs(y).max()/(x[1] - x[0]))*abs(k)
    d = x[1] - x[0]
    if not c.get('strict') and out.shape == e.shape and \
            np.allclose(out, e*k*d, rtol=1e-6, atol=1e-6*scale*d):
        return      # recorded finding: not divided by the spacing
    close(out, e*k, 'gradient of a profile', rtol=1e-6, scale=scale)


SUBS = [
    Sub('profile', prof_case(), run_prof, 'every case', quick=150),
    Sub('gradients', grad_case(), run_grad,
        'some point has all the neighbours its derivatives need', quick=500),
    Sub('operators', op_case(), run_op,
        'some point has all the neighbours its derivatives need', quick=500),
    Sub('series', tdiv_case(), run_tdiv, 'every case', quick=120),
    Sub('jacobian', eig_case(), run_eig,
        'the eigenvalues are clearly separated at some point', quick=600),
    Sub('kenwright', eig_case(), run_ken,
        'the eigenvalues are real and separated at some point', quick=200),
    Sub('reconstruction', rec_case(), run_rec, 'every case', quick=250),
    Sub('wall', wall_case(), run_wall, 'every case', quick=200),
]

PROBES = [Sub('profile_spacing', None, run_prof, ''),
          Sub('grad_unit', None, run_op, ''), Sub('shear_unit', None, run_op, ''),
          Sub('wall_right', None, run_wall, '')]
