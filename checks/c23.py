"""C23: boundary layers."""
import warnings

import numpy as np
from hypothesis import strategies as st

from IMTreatment import make_unit, Profile
from IMTreatment.core import ScalarField, VectorField, TemporalVectorFields
from IMTreatment.boundary_layer import boundary_layer as bl
from harness.core import Sub, check, close, same_unit, fail
from harness import gens as g

ASSUMPTIONS = [
    'the wall is at 0 and no point lies behind it',
    'measured thicknesses use the library definition: the layer ends where the '
    'profile first reaches 95 % of its maximum, velocities are normalised by '
    'the largest one within it, and the wall (velocity 0) is added when the '
    'profile does not start there',
    'simple shear stresses are decided on evenly spaced profiles, or with '
    'respacing', 'the point where the velocity reaches the wanted fraction lies between two '
    'points that are not masked',
    'Clauser thickness and the laws of the wall are used with SI units; the '
    'log law is decided for friction velocities of 1e-3 to 1 m/s',
    'Falkner-Skan profiles are decided for m in [-0.085, 0.3]; larger pressure '
    'gradients may make the shooting method pick another solution',
    'separation lines are straight, so that every extrapolation agrees']


# --------------------------------------------------------------------- Blasius
def pos(lo, hi):
    """Positive numbers, log-uniform."""
    return st.floats(np.log(lo), np.log(hi), allow_nan=False).map(
        lambda v: float('{:.6g}'.format(np.exp(v))))


@st.composite
def blasius_case(draw):
    return {'U': draw(pos(1e-3, 10)), 'nu': draw(pos(1e-7, 1e-4)),
            'rho': draw(pos(.5, 2000)),
            'Re': draw(st.lists(st.one_of(pos(1, 4.9e5), pos(5.1e5, 1e8)),
                                min_size=1, max_size=4)),
            'zero': draw(st.booleans()), 'turb': draw(st.booleans()),
            'single': draw(st.booleans()), 'h': draw(pos(1e-3, 10)),
            'perc': draw(st.sampled_from(['95', '99', '99']))}


def blasius(c, rec):
    U, nu, rho, turb = c['U'], c['nu'], c['rho'], c['turb']
    b = bl.BlasiusBL(U, nu, rho)
    Re = np.array(([0.] if c['zero'] else []) + c['Re'])
    if c['single']:
        Re = Re[:1]
    x = Re*nu/U
    lam = np.logical_or((Re < 5e5) & (not turb), Re == 0)
    perc = c['perc'] if np.all(lam) else '99'
    arg = float(x[0]) if c['single'] else x
    d, d2, ds, H, Cf, Rex, tau = b.get_BL_properties(arg, allTurbulent=turb,
                                                     bl_perc=perc)
    nz = np.where(Re == 0, 1., Re)
    zero = Re == 0
    coef = {'95': 3.92, '99': 4.91}[perc]
    ed = np.where(lam, coef*x*nz**-.5, .3806*x*nz**-.2)
    ed2 = np.where(lam, .664*x*nz**-.5, 0.)
    eCf = np.where(zero, 0., np.where(lam, .664*nz**-.5, .0592*nz**-.2))
    for name, a, e in (('thickness', d, ed), ('momentum thickness', d2, ed2),
                       ('displacement thickness', ds, 2.59*ed2),
                       ('shape factor', H, np.full(len(x), 2.59)),
                       ('friction', Cf, eCf), ('Reynolds number', Rex, Re),
                       ('shear stress', tau, eCf*.5*rho*U**2)):
        a = np.asarray(a, dtype=float)
        check(a.shape == x.shape, name + ': one value per position')
        for i in range(len(x)):
            check(abs(a[i] - e[i]) <= 1e-9*abs(e[i]),
                  '{} at Re={}: {} instead of {}', name, Re[i], a[i], e[i])
    # the friction is the growth of the momentum thickness
    if np.any(lam & ~zero):
        rec.label('laminar')
    if not np.all(lam):
        rec.label('turbulent')
    # position from thickness
    d99 = b.get_BL_properties(x, allTurbulent=turb)[0]
    for i in range(len(x)):
        if zero[i]:
            continue
        got = b.get_x_from_delta(float(d99[i]), allTurbulent=turb)
        check(abs(got - x[i]) <= 1e-6*x[i], 'position of thickness {}: {} '
              'instead of {}', d99[i], got, x[i])
    # confinement
    p = b.get_thickness_with_confinement(x, c['h'], allTurbulent=turb)
    o = np.argsort(x, kind='stable')
    e = d99*(1 - .26547*d99/c['h'])
    close(p.x, x[o], 'confined: positions')
    close(p.y, e[o], 'confined thickness')
    same_unit(p.unit_x, make_unit('m'), 'confined')
    same_unit(p.unit_y, make_unit('m'), 'confined')


def rk4(f, y0, t, sub=4):
    """Values of the solution of y'=f(y) at t, starting with y0 at 0."""
    out = []
    y, now = np.array(y0, dtype=float), 0.
    for ti in t:
        n = max(1, int(np.ceil((ti - now)*sub*10)))
        h = (ti - now)/n
        for _ in range(n):
            k1 = f(y)
            k2 = f(y + h/2*k1)
            k3 = f(y + h/2*k2)
            k4 = f(y + h*k3)
            y = y + h/6*(k1 + 2*k2 + 2*k3 + k4)
        now = ti
        out.append(y)
    return np.array(out)


@st.composite
def blprof_case(draw):
    return {'U': draw(pos(1e-2, 10)), 'nu': draw(pos(1e-7, 1e-4)),
            'Re': draw(pos(10, 1e6)),
            'eta': sorted(draw(st.lists(st.integers(0, 1200).map(lambda v: v/100.),
                                        min_size=2, max_size=8, unique=True))),
            'start': draw(st.booleans()), 'none': draw(st.booleans()),
            'kind': draw(st.sampled_from(['lam', 'lam', 'turb', 'conf',
                                          'confturb'])),
            'h': draw(pos(5, 100)), 'lst': draw(st.booleans())}


def blprof(c, rec):
    U, nu = c['U'], c['nu']
    b = bl.BlasiusBL(U, nu, 1000.)
    x = c['Re']*nu/U
    kind = c['kind']
    turb = kind.endswith('turb')
    xe = x
    if kind.startswith('conf'):
        # thinner layer, that of a shorter plate
        d = b.get_BL_properties(x, allTurbulent=turb)[0][0]
        h = c['h']*d
        de = d*(1 - .26547*d/h)
        if turb:
            xe = (de*U**.2/(.3806*nu**.2))**1.25
        else:
            xe = de**2*U/(4.91**2*nu)
            if U*xe/nu > 4.9e5 or U*x/nu > 4.9e5:
                rec.mark_trivial()
                return
    unit = .3806*xe*(U*xe/nu)**-.2 if turb else np.sqrt(nu*xe/U)
    eta = np.array(c['eta'])
    if turb:
        eta = eta/6.
    if c['start']:
        eta[0] = 0.
    y = None if c['none'] else eta*unit
    if y is not None and c['lst']:
        y = [float(v) for v in y]
    if kind.startswith('conf'):
        p = b.get_profile_with_confinement(x, float(h), y=y,
                                           allTurbulent=turb)
    else:
        p = b.get_profile(x, y=y, allTurbulent=turb)
    if y is None:
        check(len(p.x) == 200 and p.x[0] == 0, 'default positions')
        close(p.x, np.linspace(0, 10, 200)*unit, 'default positions',
              rtol=1e-6)
        t = np.linspace(0, 10, 200)
    else:
        close(p.x, y, 'positions')
        t = eta
    if turb:
        u = np.where(t > 1, 1., np.minimum(t, 1.)**(1/7.))
        rec.label('turbulent')
        near = np.abs(t - 1) < 1e-6
        u[near] = p.y[near]/U
    else:
        rec.label('from the wall' if t[0] == 0 else 'away from the wall')
        u = rk4(lambda F: np.array([F[1], F[2], -.5*F[0]*F[2]]),
                [0, 0, .332], t)[:, 1]
    close(p.y, u*U, 'velocity', atol=(2e-5 if not turb else 1e-6)*U)
    same_unit(p.unit_x, make_unit('m'), 'positions')
    same_unit(p.unit_y, make_unit('m/s'), 'velocities')


# ---------------------------------------------------------------- Falkner-Skan
@st.composite
def fs_case(draw):
    return {'nu': draw(pos(1e-7, 1e-4)), 'c0': draw(pos(.01, 10)),
            'L': draw(pos(.1, 10)), 'x': draw(pos(.01, 100)),
            'm': draw(st.one_of(st.just(0.), st.floats(-.085, .3).map(
                lambda v: round(v, 4)))),
            'mu': draw(st.lists(st.integers(0, 1000).map(lambda v: v/100.), min_size=1,
                                max_size=4))}


def fs(c, rec):
    m = c['m']
    b = bl.FalknerSkanBL(c['nu'], m, c['c0'], c['L'])
    ue = c['c0']*(c['x']/c['L'])**m
    check(abs(b.get_u_e(c['x']) - ue) <= 1e-12*ue, 'external velocity')
    mu = np.array(c['mu'])
    close(b.get_mu(c['x'], b.get_y(c['x'], mu)), mu, 'mu of y of mu')
    close(b.get_y(c['x'], mu), mu*np.sqrt(c['nu']*c['x']/ue), 'y')
    before = list(warnings.filters)
    y, vx = b.get_profile(c['x'])
    check(list(warnings.filters) == before, 'warning filters left alone')
    mu, sol = b.get_f_function()
    close(y, mu*np.sqrt(c['nu']*c['x']/ue), 'profile: positions')
    close(vx, sol[:, 1]*ue, 'profile: velocities', rtol=1e-6)
    check(sol[0, 0] == 0 and sol[0, 1] == 0, 'wall conditions')
    check(abs(sol[-1, 1] - 1) < 1e-3 and abs(sol[-1, 2]) < 1e-2,
          'outer condition: {}', sol[-1])
    # the solution obeys the equation (up to where errors grow)
    k = 30
    ref = rk4(lambda F: np.array([F[1], F[2], -(m + 1)/2.*F[0]*F[2] -
                                  m*(1 - F[1]**2)]), sol[0], mu[:k])
    close(sol[:k], ref, 'equation', atol=1e-4)
    if m != 0:
        rec.label('pressure gradient')
    else:
        check(abs(sol[0, 2] - .33206) < 1e-4, "f''(0) without gradient")


# -------------------------------------------------------------------- Thwaites
@st.composite
def thwaites_case(draw):
    n = draw(st.integers(2, 6))
    kind = draw(st.sampled_from(['power', 'linear']))
    x = draw(st.lists(st.floats(.05, 3).map(lambda v: round(v, 3)),
                      min_size=n, max_size=n, unique=True))
    x = sorted(x)
    return {'kind': kind, 'x': x, 'nu': draw(pos(1e-7, 1e-4)),
            'a': draw(pos(.05, 5)),
            'm': draw(st.floats(0, 1).map(lambda v: round(v, 2))),
            'b': draw(st.floats(-.3, .3).map(lambda v: round(v, 3)))}


def thwaites(c, rec):
    nu, a = c['nu'], c['a']
    x = np.array(c['x'])
    if np.min(np.diff(x)) < 1e-3:
        rec.mark_trivial()
        return
    if c['kind'] == 'power':
        m = c['m']
        ue = lambda s: a*s**m
        th2 = .441*nu/a*x**(1 - m)/(4.68*m + 1)
    else:
        b = c['b']*a
        if c['b'] == 0:
            rec.mark_trivial()
            return
        ue = lambda s: a + b*s
        th2 = .441*nu*((a + b*x)**5.68 - a**5.68)/(5.68*b*(a + b*x)**5.68)
    t = bl.ThwaitesBL(ue, nu=nu)
    close(t.get_momentum_thikness(c['x']), np.sqrt(th2), 'momentum thickness',
          rtol=1e-5)
    close(float(t.get_momentum_thikness(float(x[-1]))), np.sqrt(th2[-1]),
          'momentum thickness of one position', rtol=1e-5)
    lam, d2, ds, H = t.get_BL_properties(x)
    close(d2, np.sqrt(th2), 'momentum thickness (all)', rtol=1e-5)
    if c['kind'] == 'power' and c['m'] not in (0., 1.):
        grad = np.gradient(ue(x), x)
    elif c['kind'] == 'power':
        grad = np.full(len(x), a*c['m'])
    else:
        grad = np.full(len(x), b)
    elam = th2/nu*grad
    close(lam, elam, 'pressure gradient parameter', rtol=1e-4, atol=1e-7)
    for i in range(len(x)):
        l = lam[i]
        if abs(l) < 1e-7 or abs(abs(l) - .1) < 1e-6:
            continue
        if 0 <= l < .1:
            e = 2.61 - 3.75*l + 5.24*l**2
        elif -.1 < l < 0:
            e = 2.088 + .0731/(l + .14)
            rec.label('adverse gradient')
        else:
            e = np.nan
            rec.label('out of the correlation')
        close([H[i]], [e], 'shape factor', rtol=1e-6)
        close([ds[i]], [e*d2[i]], 'displacement thickness', rtol=1e-6)


# ------------------------------------------------------------ laws of the wall
@st.composite
def wall_case(draw):
    return {'cls': draw(st.sampled_from(['WallLaw', 'WakeLaw'])),
            'ut': draw(pos(1e-3, 1)), 'rho': draw(pos(.5, 2000)),
            'nu': draw(pos(1e-7, 1e-4)), 'dp': draw(pos(20, 1e5)),
            'yp': sorted(draw(st.lists(
                st.one_of(st.just(0.), pos(.1, 11.5), pos(11.8, 440),
                          pos(460, 2e5)), min_size=2, max_size=8,
                unique=True))), 'lst': draw(st.booleans())}


def wall(c, rec):
    ut, nu, rho = c['ut'], c['nu'], c['rho']
    tau = rho*ut**2
    unit = nu/ut
    delta = c['dp']*unit
    y = np.array(c['yp'])*unit
    yp = np.array(c['yp'])
    if np.any(np.abs(y - delta) < 1e-6*delta):
        rec.mark_trivial()
        return
    law = getattr(bl, c['cls'])(float(y[-1]*1.01 + 1e-9), tau, float(delta),
                                visc_c=nu, rho=rho)
    p = law.get_profile([float(v) for v in y] if c['lst'] else y)

    def log(v):
        u = 2.5*np.log(v) + 5.1
        if c['cls'] == 'WakeLaw':
            u = u + 2.75*np.sin(np.pi*v/(2*c['dp']))**2
        return u
    e = []
    for v in yp:
        if v <= 11.63:
            e.append(v)
        elif v <= 450 or v <= c['dp']:
            e.append(log(v))
            rec.label('log layer')
        else:
            e.append(log(c['dp']))
            rec.label('outside')
    close(p.x, y, 'positions')
    close(p.y, np.array(e)*ut, 'velocity', rtol=1e-7)
    check(not np.any(p.mask), 'nothing masked')
    same_unit(p.unit_x, make_unit('m'), 'positions')
    same_unit(p.unit_y, make_unit('m/s'), 'velocities')


# ---------------------------------------------------------------- thicknesses
@st.composite
def layer(draw, n=None, scale=True):
    """Positions from the wall and velocities growing (mostly) away from it."""
    n = n or draw(st.integers(3, 9))
    steps = draw(st.lists(st.integers(1, 8), min_size=n, max_size=n))
    if draw(st.booleans()):
        steps = [steps[0]]*n
    x = np.cumsum(steps)/4.
    if draw(st.booleans()):
        x = x - x[0]
    u = draw(velocities(n, x[0] == 0))
    return [float(v) for v in x], u


@st.composite
def velocities(draw, n, wall0):
    kind = draw(st.sampled_from(['mono', 'mono', 'any', 'plateau']))
    if kind == 'any':
        u = draw(st.lists(st.integers(0, 40), min_size=n, max_size=n))
    else:
        u = sorted(draw(st.lists(st.integers(1, 40), min_size=n, max_size=n)))
        if kind == 'plateau':
            u[-2] = u[-1]
    if wall0:
        u[0] = 0
    return [v/8. for v in u]


def ref_layer(x, u, perc):
    """(thickness, indices of the points of the layer) or None when ill posed"""
    x, u = np.array(x), np.array(u)
    top = np.max(u)
    aim = top*perc
    if top <= 0 or np.any(np.abs(u - aim) < 1e-9*top):
        return None
    for i in range(len(u) - 1):
        if (u[i] - aim)*(u[i + 1] - aim) < 0:
            d = x[i] + (x[i + 1] - x[i])*(aim - u[i])/(u[i + 1] - u[i])
            return d, i
    return None


def ref_integrals(x, u):
    r = ref_layer(x, u, .95)
    if r is None or r[0] <= 0:
        return None
    inside = np.array(x) <= r[0]
    px, pu = np.array(x)[inside], np.array(u)[inside]
    if len(px) == 0 or np.max(pu) <= 0:
        return None
    if px[0] != 0:
        px, pu = np.append([0.], px), np.append([0.], pu)
    f = pu/np.max(pu)
    disp = mom = 0.
    for i in range(len(px) - 1):
        h = px[i + 1] - px[i]
        disp += h*(2 - f[i] - f[i + 1])/2.
        mom += h*(f[i]*(1 - f[i]) + f[i + 1]*(1 - f[i + 1]))/2.
    return disp, mom


@st.composite
def thick_case(draw):
    x, u = draw(layer())
    n = len(x)
    return {'x': x, 'u': u, 'perc': draw(st.sampled_from([.5, .8, .9, .95,
                                                          .99])),
            'sx': draw(st.sampled_from([1., 1e-3, 1e2])),
            'su': draw(st.sampled_from([1., 1e-3, 1e2])),
            'extra': draw(st.lists(st.tuples(
                st.integers(0, n - 2), st.integers(-400, 400)),
                max_size=3, unique_by=lambda e: e[0])),
            'ux': draw(g.unit_len()), 'uy': draw(st.sampled_from(g.SPEEDS)),
            'tau': draw(st.one_of(st.none(), pos(1e-3, 10))),
            'rho': draw(pos(.5, 2000)), 'nu': draw(pos(1e-7, 1e-4))}


def with_masked(c, r):
    """The profile with masked points (any value) added within the layer."""
    pts = [(x, u, False) for x, u in zip(c['x'], c['u'])]
    add = []
    crossings = crossing_segments(c['u'], (.95, c['perc']))
    for i, v in c['extra']:
        if i in crossings:
            continue
        add.append(((c['x'][i] + c['x'][i + 1])/2., v/8., True))
    return sorted(pts + add), len(add)


def crossing_segments(u, percs):
    u = np.array(u)
    top = np.max(u)
    return {i for p in percs for i in range(len(u) - 1)
            if (u[i] - top*p)*(u[i + 1] - top*p) <= 0}


def thick(c, rec):
    x, u = np.array(c['x'])*c['sx'], np.array(c['u'])*c['su']
    r = ref_layer(x, u, c['perc'])
    ig = ref_integrals(x, u)
    if r is None or ig is None:
        rec.mark_trivial()
        return
    pts, nadd = with_masked(c, r)
    mk = lambda P: Profile([p[0]*c['sx'] for p in P],
                           [p[1]*c['su'] for p in P],
                           mask=[p[2] for p in P], unit_x=c['ux'],
                           unit_y=c['uy'])
    prof = mk(pts)
    if nadd:
        rec.label('masked points')
    snap = (prof.x.copy(), prof.y.copy(), prof.mask.copy())
    d = bl.get_bl_thickness(prof, perc=c['perc'])
    close([float(d)], [r[0]], 'thickness', scale=x[-1])
    disp = float(bl.get_displ_thickness(prof))
    mom = float(bl.get_momentum_thickness(prof))
    close([disp], [ig[0]], 'displacement thickness', scale=x[-1])
    close([mom], [ig[1]], 'momentum thickness', scale=x[-1])
    if ig[1] > 1e-6*x[-1]:
        close([float(bl.get_shape_factor(prof))], [ig[0]/ig[1]],
              'shape factor')
    for a, b in zip((prof.x, prof.y, prof.mask), snap):
        check(np.array_equal(a, b, equal_nan=True) if a.dtype != bool
              else np.array_equal(a, b), 'profile left alone')
    # Clauser: SI units, known or measured shear stress
    si = Profile(x, u, unit_x='m', unit_y='m/s')
    if c['tau'] is not None:
        tau = c['tau']
        got = bl.get_clauser_thickness(si, rho=c['rho'], tau=tau)
        rec.label('given shear stress')
    elif not even(x):
        return
    else:
        rec.label('measured shear stress')
        tau = c['rho']*c['nu']*(u[1] - u[0])/(x[1] - x[0])
        if tau <= 0 or not np.isclose(
                bl.get_shear_stress(si, rho=c['rho'], nu=c['nu']).y[0], tau):
            return
        got = bl.get_clauser_thickness(si, rho=c['rho'], nu=c['nu'])
    close([float(got)], [ig[0]*u[-1]/np.sqrt(tau/c['rho'])],
          'Clauser thickness', rtol=1e-6)


@st.composite
def field_case(draw):
    n = draw(st.integers(3, 6))
    x, _ = draw(layer(n=n))
    k = draw(st.integers(2, 4))
    return {'dir': draw(st.sampled_from([1, 2])), 'x': x,
            'pos': sorted(draw(st.lists(st.integers(-20, 20), min_size=k,
                                        max_size=k, unique=True))),
            'u': [draw(velocities(n, x[0] == 0)) for _ in range(k)],
            'ux': draw(g.unit_len()), 'uy': draw(g.unit_len()),
            'uv': draw(st.sampled_from(g.SPEEDS)),
            'rho': draw(pos(.5, 2000)), 'nu': draw(pos(1e-7, 1e-4)),
            'tau': draw(pos(1e-3, 10)),
            'perc': draw(st.sampled_from([.8, .9, .95, .99]))}


def build_field(c):
    u = np.array(c['u'])                # position along the wall, then height
    sf = ScalarField()
    p = np.array(c['pos'])/4.
    if c['dir'] == 1:
        ax, ay, v = p, np.array(c['x']), u
    else:
        ax, ay, v = np.array(c['x']), p, u.T
    sf.import_from_arrays(ax, ay, v, mask=False, unit_x=c['ux'],
                          unit_y=c['uy'], unit_values=c['uv'])
    return sf, p, u


def thick_field(c, rec):
    sf, p, u = build_field(c)
    x = np.array(c['x'])
    rs = [ref_layer(x, ui, c['perc']) for ui in u]
    igs = [ref_integrals(x, ui) for ui in u]
    if any(r is None for r in rs) or any(i is None for i in igs):
        rec.mark_trivial()
        return
    along, high = (sf.unit_x, sf.unit_y) if c['dir'] == 1 \
        else (sf.unit_y, sf.unit_x)
    d = c['dir']
    todo = [('thickness', bl.get_bl_thickness(sf, direction=d,
                                              perc=c['perc']),
             [r[0] for r in rs]),
            ('displacement thickness', bl.get_displ_thickness(sf, direction=d),
             [i[0] for i in igs]),
            ('momentum thickness', bl.get_momentum_thickness(sf, direction=d),
             [i[1] for i in igs]),
            ('Clauser thickness', bl.get_clauser_thickness(
                sf, direction=d, rho=c['rho'], tau=c['tau']),
             [i[0]*ui[-1]/np.sqrt(c['tau']/c['rho'])
              for i, ui in zip(igs, u)])]
    rec.label('along x' if d == 1 else 'along y')
    for name, prof, e in todo:
        close(prof.x, p, name + ': positions')
        close(prof.y, e, name, scale=max(x[-1], np.max(e)))
        check(not np.any(prof.mask), name + ': masked')
        same_unit(prof.unit_x, along, name + ': positions')
        same_unit(prof.unit_y, high, name)
    if all(i[1] > 1e-6 for i in igs):
        h = bl.get_shape_factor(sf, direction=d)
        close(h.y, [i[0]/i[1] for i in igs], 'shape factor')
        same_unit(h.unit_y, make_unit(''), 'shape factor')


# ---------------------------------------------------------------- shear stress
@st.composite
def shear_case(draw):
    c = draw(field_case())
    c['method'] = draw(st.sampled_from(['simple', 'wall_law_lin']))
    c['k'] = draw(st.lists(st.integers(-16, 16), min_size=len(c['pos']),
                           max_size=len(c['pos'])))
    c['b'] = draw(st.integers(-16, 16))
    c['respace'] = draw(st.booleans())
    if draw(st.booleans()):
        c['x'] = [c['x'][0] + .25*i for i in range(len(c['x']))]
    return c


def even(x):
    return np.ptp(np.diff(x)) < 1e-9*np.ptp(x)


def shear(c, rec):
    """Linear profiles: the same stress everywhere."""
    x = np.array(c['x'])
    if c['method'] == 'wall_law_lin':
        off = 0.
        if x[0] == 0:
            x = x + 1.
    else:
        off = c['b']/4.
    k = np.array(c['k'])/4.
    u = off + k[:, None]*x[None, :]
    c = dict(c, x=list(x), u=u.tolist())
    mu = c['rho']*c['nu']
    sf, p, u = build_field(c)
    uh = sf.unit_y if c['dir'] == 1 else sf.unit_x
    eu = sf.unit_values/uh*make_unit('m^2/s')*make_unit('kg/m^3')

    def value(obj_unit, e):
        return e*float((eu/obj_unit).asNumber(1))
    for i in range(len(p)):
        prof = Profile(x, u[i], unit_x=uh, unit_y=sf.unit_values)
        if c['method'] == 'simple' and not even(x) and not c['respace']:
            continue
        r = bl.get_shear_stress(prof, method=c['method'], rho=c['rho'],
                                nu=c['nu'], respace=c['respace'])
        close(r.y, np.full(len(r.x), value(r.unit_y, mu*k[i])),
              'shear stress', atol=1e-9*mu*(abs(k[i])*x[-1] + abs(off) + 1)
              * value(r.unit_y, 1.)/min(np.min(np.diff(x)), 1))
        same_unit(r.unit_x, uh, 'shear stress: positions')
        if not c['respace']:
            close(r.x, x, 'shear stress: positions')
    if np.any(k != 0):
        rec.label(c['method'])
    else:
        rec.mark_trivial()
    if c['method'] == 'simple' and not even(x):
        return
    rec.label('field')
    t = bl.get_shear_stress(sf, direction=c['dir'], method=c['method'],
                            rho=c['rho'], nu=c['nu'])
    e = mu*np.repeat(k[:, None], len(x), axis=1)
    if c['dir'] == 2:
        e = e.T
    f = value(t.unit_values, 1.)
    close(t.values, e*f, 'shear stress of a field',
          atol=1e-9*mu*f*(np.max(np.abs(k))*x[-1] + abs(off) + 1))
    close(t.axe_x, sf.axe_x, 'axes')
    close(t.axe_y, sf.axe_y, 'axes')
    same_unit(t.unit_x, sf.unit_x, 'axes')
    same_unit(t.unit_y, sf.unit_y, 'axes')


@st.composite
def loglaw_case(draw):
    return {'ut': draw(pos(1e-3, 1)), 'rho': draw(pos(.5, 2000)),
            'nu': draw(pos(1e-7, 1e-5)),
            'yp': sorted(draw(st.lists(pos(30, 1e4), min_size=2, max_size=5,
                                       unique=True)))}


def loglaw(c, rec):
    y = np.array(c['yp'])*c['nu']/c['ut']
    if np.min(np.diff(y)) < 1e-6*y[0]:
        rec.mark_trivial()
        return
    u = c['ut']*(np.log(np.array(c['yp']))/.41 + 5.1)
    prof = Profile(y, u, unit_x='m', unit_y='m/s')
    r = bl.get_shear_stress(prof, method='wall_law_log', rho=c['rho'],
                            nu=c['nu'])
    close(r.x, y, 'positions')
    e = c['rho']*c['ut']**2
    close(r.y, np.full(len(y), e*float((make_unit('Pa')/r.unit_y)
                                       .asNumber(1))), 'shear stress',
          rtol=1e-5)


# ------------------------------------------------------------------ separation
@st.composite
def sep_case(draw):
    n = draw(st.integers(5, 8))
    m = draw(st.integers(4, 7))
    return {'dir': draw(st.sampled_from([1, 2])),
            's': draw(g.axis(min_size=m, max_size=m, scales=False)),
            'n': draw(g.axis(min_size=n, max_size=n, scales=False)),
            'f0': draw(st.floats(.3, .7)), 'f1': draw(st.floats(.3, .7)),
            'gain': draw(st.lists(st.integers(1, 8), min_size=n, max_size=n)),
            'sign': draw(st.sampled_from([-1, 1])),
            'wall': draw(st.floats(-.6, 1.6)),
            'lines': draw(st.integers(2, 5)),
            'at': draw(st.one_of(st.none(), st.integers(0, n - 1))),
            'kind': draw(st.sampled_from(['sf', 'vf', 'tvf'])),
            'inter': draw(st.booleans()),
            'times': draw(st.integers(2, 3))}


def sep(c, rec):
    s, n = np.array(c['s']), np.array(c['n'])
    if np.any(np.diff(s) <= 0) or np.any(np.diff(n) <= 0):
        rec.mark_trivial()
        return
    # crossings within the field on every line
    s0 = s[0] + c['f0']*(s[-1] - s[0])
    s1 = s[0] + c['f1']*(s[-1] - s[0])
    slope = (s1 - s0)/(n[-1] - n[0])
    line = s0 + slope*(n - n[0])
    if c['at'] is not None:
        wall = float(n[c['at']])
        rec.label('wall on a line')
    else:
        wall = float(n[0] + c['wall']*(n[-1] - n[0]))
        rec.label('wall within' if 0 <= c['wall'] <= 1 else 'wall outside')
    u = c['sign']*(s[:, None] - line[None, :])*np.array(c['gain'])[None, :]
    if np.any(u == 0):
        # a crossing on a grid point: fine, found as it is
        rec.label('crossing on a point')
    rng = np.random.RandomState(3)
    other = rng.uniform(-1, 1, u.shape)

    def scalar(v):
        f = ScalarField()
        if c['dir'] == 1:            # wall at a given x, velocities along y
            f.import_from_arrays(n, s, v.T, unit_x='mm', unit_y='m',
                                 unit_values='m/s')
        else:
            f.import_from_arrays(s, n, v, unit_x='mm', unit_y='m',
                                 unit_values='m/s')
        return f

    def vector(v):
        f = VectorField()
        a, b = (other, v) if c['dir'] == 1 else (v, other)
        if c['dir'] == 1:
            f.import_from_arrays(n, s, a.T, b.T, unit_x='mm', unit_y='m',
                                 unit_values='m/s')
        else:
            f.import_from_arrays(s, n, a, b, unit_x='mm', unit_y='m',
                                 unit_values='m/s')
        return f
    kw = {'wall_direction': c['dir'], 'wall_position': wall,
          'nmb_lines': c['lines']}
    if c['inter']:
        kw['interval'] = [float(s[0] + .1*(s[-1] - s[0])),
                          float(s[-1] - .1*(s[-1] - s[0]))]
    e = s0 + slope*(wall - n[0])
    tol = 1e-7*(abs(s).max() + abs(slope)*(abs(n).max() + abs(wall)))
    if c['kind'] == 'tvf':
        tv = TemporalVectorFields()
        for i in range(c['times']):
            # another time: the same line with another sign of the flow
            tv.add_field(vector(u*(-1)**i), time=i, unit_times='s')
        r = bl.get_separation_position(tv, **kw)
        check(isinstance(r, Profile), 'a profile of positions')
        close(r.x, np.arange(c['times']), 'times')
        close(r.y, np.full(c['times'], e), 'positions', atol=tol)
        same_unit(r.unit_x, make_unit('s'), 'times')
        same_unit(r.unit_y, make_unit('m' if c['dir'] == 1 else 'mm'),
                  'positions')
        rec.label('series')
    else:
        f = scalar(u) if c['kind'] == 'sf' else vector(u)
        r = bl.get_separation_position(f, **kw)
        close([r], [e], 'separation position', atol=tol)


SUBS = [
    Sub('blasius', blasius_case(), blasius, 'any', quick=300),
    Sub('blprof', blprof_case(), blprof, 'a position in the wanted regime',
        quick=150),
    Sub('falkner', fs_case(), fs, 'any', quick=50),
    Sub('thwaites', thwaites_case(), thwaites, 'distinct positions and a '
        'velocity gradient when linear', quick=200),
    Sub('wall', wall_case(), wall, 'no point at the edge of the layer',
        quick=300),
    Sub('thickness', thick_case(), thick, 'the profile reaches the wanted '
        'fraction between two points', quick=400),
    Sub('thick_field', field_case(), thick_field, 'each profile reaches the '
        'wanted fraction between two points', quick=300),
    Sub('shear', shear_case(), shear, 'a non-zero gradient', quick=250),
    Sub('loglaw', loglaw_case(), loglaw, 'distinct positions', quick=150),
    Sub('separation', sep_case(), sep, 'increasing axes', quick=250),
]
