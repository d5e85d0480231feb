"""C20: vortex criteria."""
import numpy as np
from hypothesis import strategies as st

from IMTreatment import make_unit
from IMTreatment import vortex_criterions as vc
from IMTreatment.core import ScalarField, TemporalScalarFields
from harness.core import Sub, check, close, same_unit, fail, expect_raises
from harness import gens as g
from checks.c17 import derivs, ratio

ASSUMPTIONS = [
    'vorticity is the rotation rate (half of the curl), the convention of the '
    'library; get_stokes_vorticity is the circulation over the area',
    'criteria are decided at the points whose neighbours are not masked',
    'non-local criteria are decided on evenly spaced grids; the neighbours of a '
    'point are the points closer than the radius, itself excluded',
    'the residual and shear vorticities of a compressible field may use either '
    'dVx/dx or (dVx/dx - dVy/dy)/2 as the normal strain',
    'both axes have the same length unit']


def candidates_close(a, cands, what, atol):
    """Every entry of a is close to the same entry of one of the candidates."""
    a = np.asarray(a, dtype=float)
    bad = np.ones(a.shape, dtype=bool)
    for c in cands:
        bad &= ~(np.abs(a - c) <= atol)
    if np.any(bad):
        fail('{}: got {} expected {}', what, a.tolist(), cands[0].tolist())


# -------------------------------------------------------------- local criteria
LOCAL = {'vorticity': vc.get_vorticity, 'divergence': vc.get_divergence,
         'swirling': vc.get_swirling_strength,
         'improved': vc.get_improved_swirling_strength,
         'q': vc.get_q_criterion, 'nk': vc.get_Nk_criterion,
         'delta': vc.get_delta_criterion, 'lambda2': vc.get_lambda2,
         'residual': vc.get_residual_vorticity,
         'shear': vc.get_shear_vorticity}
#      power of the velocity gradient, values given where data are missing
KIND = {'vorticity': (1, True), 'divergence': (1, True), 'swirling': (1, True),
        'improved': (0, True), 'q': (2, False), 'nk': (0, False),
        'delta': (6, False), 'lambda2': (2, False), 'residual': (1, True),
        'shear': (1, True)}


@st.composite
def flow(draw, min_size=2, max_size=5, even=None, masks=True, scales=True):
    c = draw(g.vf_case(min_size=min_size, max_size=max_size, even=even,
                       masks=masks, scales=scales))
    c['uy'] = c['ux']
    kind = draw(st.sampled_from(['any', 'any', 'vortex', 'shear', 'affine']))
    if kind != 'any':
        X, Y = np.meshgrid(c['x'], c['y'], indexing='ij')
        if kind == 'affine':
            a, b, d = [draw(g.quarter(-4, 4)) for _ in range(3)]
            e = -a if draw(st.booleans()) else draw(g.quarter(-4, 4))
        elif kind == 'vortex':
            b, d = [draw(g.quarter(1, 4)) for _ in range(2)]
            s = draw(st.sampled_from([1, -1]))
            a = e = 0.
            b, d = -s*b, s*d
        else:
            a = e = d = 0.
            b = draw(g.nonzero(-4, 4))
        u0, v0 = draw(g.quarter(-4, 4)), draw(g.quarter(-4, 4))
        c['vx'] = (a*X + b*Y + u0).tolist()
        c['vy'] = (d*X + e*Y + v0).tolist()
    c['flow'] = kind
    return c


@st.composite
def local_case(draw):
    c = draw(flow())
    c['raw'] = draw(st.integers(0, 2)) == 0
    c['ops'] = draw(st.lists(st.sampled_from(sorted(LOCAL)), min_size=2,
                             max_size=4, unique=True))
    if draw(st.integers(0, 2)) == 0:
        nx, ny = len(c['x']), len(c['y'])
        c['um'] = draw(g.mask(nx, ny, kinds=('few', 'half')))
    else:
        c['um'] = None
    if c['raw']:
        c['ux'] = c['uy'] = c['uv'] = ''
    return c


def reference(op, ux, uy, vx, vy):
    """(candidates, where the value is clearly defined, where it has to be
    masked) from the velocity gradients."""
    size = np.abs(ux) + np.abs(uy) + np.abs(vx) + np.abs(vy)
    big = np.nanmax(size) if np.isfinite(size).any() else 0.
    every = np.ones(ux.shape, dtype=bool)
    none = ~every
    om = (vx - uy)/2
    tr, det = ux + vy, ux*vy - uy*vx
    disc = det - tr**2/4
    # discriminant clearly positive: complex eigenvalues
    tiny = 1e-9*np.maximum(size, 1e-3*big)**2 + 1e-300
    cplx, real = disc > tiny, disc < -tiny
    im = np.sqrt(np.where(disc > 0, disc, 0))
    if op == 'vorticity':
        return [om], every, none
    if op == 'divergence':
        return [tr], every, none
    if op == 'swirling':
        return [im], cplx | real, none
    if op == 'improved':
        return [tr/2/np.where(cplx, im, 1)], cplx, real
    rot2 = (uy - vx)**2/2
    st2 = ux**2 + vy**2 + (uy + vx)**2/2
    q = (rot2 - st2)/2
    if op == 'q':
        return [q], every, none
    if op == 'nk':
        ok = st2 > 1e-10*np.maximum(rot2, 1e-6*big**2) + 1e-300
        return [np.sqrt(rot2/np.where(ok, st2, 1))], ok, none
    if op == 'delta':
        return [(q/3)**3 + (det/2)**2], cplx, real
    if op == 'lambda2':
        # eigenvalues of S.S + O.O, in closed form
        s = (uy + vx)/2
        a = ux**2 + s**2 - om**2
        b = s*(ux + vy)
        d = vy**2 + s**2 - om**2
        l2 = (a + d)/2 - np.sqrt((a - d)**2/4 + b**2)
        return [l2], every, none
    out = []
    for n in (2*ux, ux - vy):
        s = np.sqrt(n**2 + (uy + vx)**2)/2
        res = np.where(np.abs(om) > s, np.sign(om)*(np.abs(om) - s), 0)
        out.append(res if op == 'residual' else om - res)
    return out, every, none


def run_local(c, rec):
    f = g.build_vf(c)
    m = g.G.of_case(c)
    ((ux, uy), (vx, vy)), ok, bad = derivs(m)
    ok = ok & ~m.mask
    um = g.np_mask(c['um'], ok.shape)
    rec.label(c['flow'], 'masked' if g.is_masked_case(c) else 'full')
    if not ok.any():
        rec.mark_trivial()
    base = m.uv/m.ux
    big = 0.
    if ok.any():
        big = np.max((np.abs(ux) + np.abs(uy) + np.abs(vx) + np.abs(vy))[ok])
    for op in c['ops']:
        rec.label(op)
        what = op
        power, filled = KIND[op]
        kw = {}
        sel = ok
        if op in ('q', 'nk', 'delta', 'lambda2') and c['um'] is not None:
            kw['mask'] = um
            sel = ok & ~um
        out = LOCAL[op](f, raw=c['raw'], **kw)
        cands, defined, tomask = reference(op, ux, uy, vx, vy)
        defined = defined & sel
        tomask = tomask & sel
        if c['raw']:
            vals = np.ma.filled(np.ma.asarray(out).astype(float), np.nan)
            mk = np.ma.getmaskarray(np.ma.asarray(out))
            k = 1.
            check(vals.shape == ok.shape, '{}: shape {}', what, vals.shape)
        else:
            check(isinstance(out, ScalarField), '{}: {!r}', what, type(out))
            close(out.axe_x, m.x, what + ': x', rtol=1e-12)
            close(out.axe_y, m.y, what + ': y', rtol=1e-12)
            same_unit(out.unit_x, m.ux, what + ': unit_x')
            same_unit(out.unit_y, m.uy, what + ': unit_y')
            k = ratio(base**power if power else make_unit(''), out.unit_values,
                      what)
            vals, mk = np.array(out.values, dtype=float), np.array(out.mask)
            check(np.all(mk[tomask]), '{}: given where it is not defined', what)
            if not filled:
                check(np.all(mk[bad]), '{}: given where data are missing', what)
            if kw:
                check(np.all(mk[um]), '{}: given where masked', what)
        check(not np.any(mk[defined]), '{}: masked where data are given', what)
        k *= 1.
        atol = 1e-7*big**power*abs(k) if power else \
            1e-6*np.maximum(np.abs(cands[0][defined]), 1.)
        if op == 'swirling':
            atol = 1e-5*big*abs(k)
        candidates_close(vals[defined], [a[defined]*k for a in cands], what,
                         atol)
    g.same_field(f, m, 'criteria: the field given')


# ----------------------------------------------------------------- the series
@st.composite
def series_case(draw):
    c = draw(g.temporal_case(True, min_n=1, max_n=4, min_size=2, max_size=5,
                             even=True))
    c['uy'] = c['ux']
    c['op'] = draw(st.sampled_from(['vorticity', 'divergence', 'residual',
                                    'shear', 'gamma']))
    c['raw'] = draw(st.booleans()) and c['op'] in ('vorticity', 'divergence',
                                                   'residual')
    return c


def run_series(c, rec):
    t = g.build_temporal(c, True)
    fun = LOCAL.get(c['op'], vc.get_gamma)
    rec.label(c['op'], 'raw' if c['raw'] else 'fields')
    if len(c['times']) < 2:
        rec.mark_trivial()
    out = fun(t, raw=True) if c['raw'] else fun(t)
    fields = [g.build_vf(fc) for fc in g.frame_cases(c)]
    if c['raw']:
        check(len(out) == len(fields), '{}: {} fields', c['op'], len(out))
        for o, f in zip(out, fields):
            close(np.ma.filled(o, np.nan),
                  np.ma.filled(fun(f, raw=True), np.nan), c['op'])
        return
    check(isinstance(out, TemporalScalarFields), '{}: {!r}', c['op'], type(out))
    close(out.times, c['times'], c['op'] + ': times')
    same_unit(out.unit_times, make_unit(c['ut']), c['op'] + ': unit of times')
    for o, f in zip(out.fields, fields):
        g.same_field(o, g.G.of_field(fun(f)), c['op'] + ' of a series')


# --------------------------------------------------------- non-local criteria
@st.composite
def nl_case(draw):
    c = draw(flow(min_size=4, max_size=6, even=True))
    if draw(st.integers(0, 2)):
        c['m'] = None
    c['op'] = draw(st.sampled_from(
        ['gamma1', 'gamma1', 'gamma2', 'gamma1b', 'gamma2b', 'kappa1', 'kappa2',
         'deviation', 'deviation', 'nl_residual', 'enstrophy']))
    c['ind'] = draw(st.booleans())
    c['r'] = draw(st.sampled_from([1., 1.5, 1.9, 2., 2.3] if c['ind']
                                  else [1.2, 1.5, 1.9, 2.1, 2.3]))
    c['default'] = draw(st.integers(0, 5)) == 0
    c['raw'] = draw(st.integers(0, 2)) == 0
    c['dev'] = draw(st.integers(0, 2)) == 0
    c['local'] = draw(st.sampled_from(['none', 'galilean_inv', 'local']))
    c['order'] = draw(st.sampled_from([1, 1, 2, 3]))
    c['um'] = draw(g.mask(len(c['x']), len(c['y']), kinds=('few',))) \
        if draw(st.integers(0, 3)) == 0 else None
    if c['raw']:
        c['ux'] = c['uy'] = c['uv'] = ''
    return c


def neighbours(r):
    n = int(np.floor(r))
    return [(i, j) for i in range(-n, n + 1) for j in range(-n, n + 1)
            if (i, j) != (0, 0) and i*i + j*j <= r*r]


def angles(vx, vy):
    return np.mod(np.arctan2(vy, vx), 2*np.pi)


def deviation(th, order):
    th = np.sort(th)
    n = len(th)
    d = np.append(np.diff(th), th[0] + 2*np.pi - th[-1])
    dist = lambda a: np.sum(np.abs(a - 2*np.pi/n)**order)**(1./order)
    return 1 - dist(d)/dist(np.array([0.]*(n - 1) + [2*np.pi]))


def treated(c, m, pts, ij):
    u, v = [np.array([z[p] for p in pts]) for z in m.comps]
    if c['local'] == 'galilean_inv':
        u, v = u - u.mean(), v - v.mean()
    elif c['local'] == 'local':
        u, v = u - m.comps[0][ij], v - m.comps[1][ij]
    return u, v


def run_nl(c, rec):
    f = g.build_vf(c)
    m = g.G.of_case(c)
    op, r = c['op'], c['r']
    dx, dy = m.x[1] - m.x[0], m.y[1] - m.y[0]
    kw = {'radius': r if c['ind'] else float(r*(dx + dy)/2), 'ind': c['ind']}
    if c['default']:
        r, kw = 1.9, {}
    um = g.np_mask(c['um'], m.mask.shape)
    if c['um'] is not None:
        kw['mask'] = um
    rec.label(op, c['flow'], 'ind' if c['ind'] else 'length')
    dev_pass = False
    if op.startswith('gamma'):
        dev_pass = c['dev'] and op in ('gamma1', 'gamma1b')
        out = vc.get_gamma(f, kind=op, raw=c['raw'], dev_pass=c['dev'], **kw)
    elif op.startswith('kappa'):
        out = vc.get_kappa(f, kind=op, raw=c['raw'], **kw)
    elif op == 'deviation':
        out = vc.get_angle_deviation(f, raw=c['raw'], order=c['order'],
                                     local_treatment=c['local'], **kw)
    elif op == 'nl_residual':
        out = vc.get_NL_residual_vorticity(f, raw=c['raw'], **kw)
    else:
        out = vc.get_enstrophy(f, raw=c['raw'], **kw)
    # the result, as arrays
    unit = {'nl_residual': m.uv/m.ux, 'enstrophy': m.uv**2}.get(op)
    if c['raw']:
        vals = np.ma.getdata(out)
        mk = np.ma.getmaskarray(out)
        k = 1.
    else:
        check(isinstance(out, ScalarField), '{}: {!r}', op, type(out))
        close(out.axe_x, m.x, op + ': x', rtol=1e-12)
        close(out.axe_y, m.y, op + ': y', rtol=1e-12)
        same_unit(out.unit_x, m.ux, op + ': unit_x')
        same_unit(out.unit_y, m.uy, op + ': unit_y')
        vals, mk = np.array(out.values, dtype=float), np.array(out.mask)
        k = 1. if unit is None else ratio(unit, out.unit_values, op)
        if unit is None and op != 'gamma1b':
            same_unit(out.unit_values, make_unit(''), op)
    check(vals.shape == m.mask.shape, '{}: shape {}', op, vals.shape)
    near = neighbours(r)
    nx, ny = m.mask.shape
    grads, gok, _ = derivs(m)
    om = (grads[1][0] - grads[0][1])/2
    vmax = max(np.max(np.abs(v[~m.mask])) for v in m.comps)
    gmax = vmax/min(dx, dy)
    done = 0
    for i in range(nx):
        for j in range(ny):
            where = '{} at {}'.format(op, (i, j))
            pts = [(i + a, j + b) for a, b in near]
            if any(a < 0 or b < 0 or a >= nx or b >= ny for a, b in pts) \
                    or m.mask[i, j] or um[i, j] or any(m.mask[p] for p in pts):
                check(mk[i, j], '{}: given where data are missing', where)
                continue
            if any(um[p] for p in pts):
                if mk[i, j]:
                    continue
            if op == 'deviation' and mk[i, j]:
                u, v = treated(c, m, pts, (i, j))
                if np.any(np.hypot(u, v) < 1e-6*vmax + 1e-300):
                    continue    # directions that are not defined
            check(not mk[i, j], '{}: masked where data are given', where)
            got = vals[i, j]
            u = np.array([m.comps[0][p] for p in pts])
            v = np.array([m.comps[1][p] for p in pts])
            ax = np.array([a*dx for a, b in near])
            ay = np.array([b*dy for a, b in near])
            if op in ('gamma1', 'gamma1b', 'gamma2', 'gamma2b', 'kappa1',
                      'kappa2'):
                um_, vm_ = u.mean(), v.mean()
                u2, v2 = (u - um_, v - vm_) if '2' in op else (u, v)
                n2 = np.hypot(u2, v2)
                if '2' in op and np.any(n2 < 1e-6*vmax):
                    continue    # direction of a rounding error
                cross = (ax*v2 - ay*u2 if op.startswith('gamma')
                         else ax*u2 + ay*v2)
                den = np.hypot(ax, ay)*n2
                want = np.mean(np.where(den > 0, cross/np.where(den > 0, den,
                                                                1), 0))
                if op == 'gamma1b':
                    want *= np.hypot(um_, vm_)
                if op == 'gamma2b':
                    a, b = np.sqrt(np.mean(n2**2)), np.hypot(um_, vm_)
                    want *= min(1., a/b) if b > 1e-12*a else 1.
                if dev_pass and got == 0 and \
                        deviation(field_angles(u, v), 1) < 0.1 + 1e-6:
                    rec.label('skipped by dev_pass')
                    continue
                tol = 1e-6*(vmax if op == 'gamma1b' else 1.)
                if op == 'gamma1b' and not c['raw']:
                    # a velocity; its unit is not given by the library
                    try:
                        want *= ratio(m.uv, out.unit_values, op)
                    except Exception:
                        pass
            elif op == 'deviation':
                u, v = treated(c, m, pts, (i, j))
                n2 = np.hypot(u, v)
                if np.any(n2 < 1e-6*max(vmax, 1e-300)):
                    continue
                want, tol = deviation(angles(u, v), c['order']), 1e-6
                check(-1e-9 <= got <= 1 + 1e-9, '{}: {}', where, got)
            elif op == 'nl_residual':
                sl = lambda w, d: np.sum(d*w)/np.sum(d*d)
                gux, guy, gvx, gvy = sl(u, ax), sl(u, ay), sl(v, ax), sl(v, ay)
                cands, _, _ = reference('residual', *[np.array([[z]]) for z in
                                                      (gux, guy, gvx, gvy)])
                candidates_close(np.array([[got]]), [z*k for z in cands],
                                 where, 1e-6*gmax*abs(k))
                done += 1
                continue
            else:
                if not all(gok[p] for p in pts + [(i, j)]):
                    continue
                want = (sum(om[p]**2 for p in pts) + om[i, j]**2)*dx*dy*k
                tol = 1e-6*gmax**2*dx*dy*abs(k)
            done += 1
            check(abs(got - want) <= tol, '{}: got {} expected {}', where, got,
                  want)
    if not done:
        rec.mark_trivial()
    g.same_field(f, m, op + ': the field given')


def field_angles(u, v):
    return np.where(np.hypot(u, v) == 0, 0., angles(u, v))


# ------------------------------------------------------------- Stokes and iota
@st.composite
def stokes_case(draw):
    c = draw(flow(min_size=4, max_size=7, even=True))
    c['w'] = draw(st.integers(2, 3))
    c['raw'] = draw(st.booleans())
    return c


def run_stokes(c, rec):
    f = g.build_vf(c)
    m = g.G.of_case(c)
    w = c['w']
    nx, ny = len(m.x) - w + 1, len(m.y) - w + 1
    dx, dy = m.x[1] - m.x[0], m.y[1] - m.y[0]
    rec.label('window {}'.format(w), c['flow'])
    out = vc.get_stokes_vorticity(f, window_size=w, raw=c['raw'])
    k = 1.
    if not c['raw']:
        same_unit(out.unit_x, m.ux, 'stokes: unit_x')
        same_unit(out.unit_y, m.uy, 'stokes: unit_y')
        close(out.axe_x, [np.mean(m.x[i:i + w]) for i in range(nx)],
              'stokes: x', scale=np.abs(m.x).max() + dx)
        close(out.axe_y, [np.mean(m.y[i:i + w]) for i in range(ny)],
              'stokes: y', scale=np.abs(m.y).max() + dy)
        k = ratio(m.uv/m.ux, out.unit_values, 'stokes')
    vals = np.array(out if c['raw'] else out.values, dtype=float)
    check(vals.shape == (nx, ny), 'stokes: shape {}', vals.shape)
    trap = lambda a, h: h*(np.sum(a) - (a[0] + a[-1])/2)
    u, v = m.comps
    area = (w - 1)**2*dx*dy
    vmax = max(np.max(np.abs(z[~m.mask])) for z in m.comps)
    for i in range(nx):
        for j in range(ny):
            if m.mask[i:i + w, j:j + w].any():
                if not c['raw']:
                    check(out.mask[i, j], 'stokes: given on missing data')
                continue
            circ = (trap(u[i:i + w, j], dx) + trap(v[i + w - 1, j:j + w], dy)
                    - trap(u[i:i + w, j + w - 1], dx)
                    - trap(v[i, j:j + w], dy))
            if not c['raw']:
                check(not out.mask[i, j], 'stokes: masked')
            check(abs(vals[i, j] - circ/area*k) <=
                  1e-7*vmax/min(dx, dy)*abs(k), 'stokes at {}: {} instead of {}',
                  (i, j), vals[i, j], circ/area*k)


@st.composite
def iota_case(draw):
    c = draw(flow(min_size=2, max_size=6, even=True))
    c['uy'] = draw(st.sampled_from([c['ux'], 'm', 'mm', 's']))
    c['um'] = draw(g.mask(len(c['x']), len(c['y']), kinds=('few',))) \
        if draw(st.integers(0, 2)) == 0 else None
    c['raw'] = draw(st.booleans())
    c['smooth'] = draw(st.sampled_from([None, None, 1., 1.5]))
    c['ind'] = draw(st.booleans())
    return c


def run_iota(c, rec):
    if c['smooth'] is not None:
        c['m'] = None
    f = g.build_vf(c)
    m = g.G.of_case(c)
    kw = {}
    um = g.np_mask(c['um'], m.mask.shape)
    if c['um'] is not None:
        kw['mask'] = um
    mm = m
    if c['smooth'] is not None:
        d = (m.x[1] - m.x[0] + m.y[1] - m.y[0])/2
        kw.update(radius=c['smooth'] if c['ind'] else float(c['smooth']*d),
                  ind=c['ind'])
        sm = f.copy()
        sm.smooth(tos='gaussian', size=c['smooth'], inplace=True)
        mm = g.G.of_field(sm)
    out = vc.get_iota(f, raw=c['raw'], **kw)
    rec.label('smoothed' if c['smooth'] else 'plain')
    if c['raw']:
        vals, mk = np.ma.getdata(out), np.ma.getmaskarray(out)
    else:
        same_unit(out.unit_values, make_unit(''), 'iota: unit')
        close(out.axe_x, m.x, 'iota: x')
        close(out.axe_y, m.y, 'iota: y')
        same_unit(out.unit_x, m.ux, 'iota: unit_x')
        same_unit(out.unit_y, m.uy, 'iota: unit_y')
        vals, mk = np.array(out.values), np.array(out.mask)
    check(np.all(mk[um]), 'iota: given where masked')
    check(np.all(mk[m.mask]), 'iota: given where data are missing')
    th = field_angles(*mm.comps)
    nrm = np.hypot(*mm.comps)
    th2 = np.where(th > np.pi, th - 2*np.pi, th)
    grads = []
    for t in (th, th2):
        mod = g.G(np.arange(len(m.x)), np.arange(len(m.y)), [t], mm.mask,
                  m.ux, m.uy, m.uv)
        d, ok, bad = derivs(mod)
        grads.append(d[0])
    # a direction is only defined for a velocity that is not null
    weak = np.where(np.isnan(nrm), True, nrm < 1e-6*np.nanmax(
        np.where(np.isnan(nrm), 0, nrm)) + 1e-300)
    # an angle of exactly pi may fall on either side of the cut
    cut = np.abs(th - np.pi) < 1e-6
    free = weak | cut
    pad = np.pad(free, 1, constant_values=False)
    free = (pad[1:-1, 1:-1] | pad[:-2, 1:-1] | pad[2:, 1:-1] |
            pad[1:-1, :-2] | pad[1:-1, 2:])
    sel = ok & ~free & ~mm.mask & ~um
    if not sel.any():
        rec.mark_trivial()
    best = [np.minimum(np.abs(a), np.abs(b)) for a, b in zip(*grads)]
    want = np.hypot(*best)/2
    check(not np.any(mk[sel]), 'iota: masked where data are given')
    close(vals[sel], want[sel], 'iota', rtol=1e-6, scale=np.pi)


SUBS = [
    Sub('local', local_case(), run_local,
        'some point has all the neighbours its derivatives need', quick=600),
    Sub('nonlocal', nl_case(), run_nl,
        'some point has all its neighbours and a defined criterion',
        quick=1200),
    Sub('series', series_case(), run_series, 'at least two fields', quick=150),
    Sub('stokes', stokes_case(), run_stokes, 'every case', quick=200),
    Sub('iota', iota_case(), run_iota, 'some point has all its neighbours',
        quick=200),
]
