"""C22: potential flow around walls (source panels)."""
import numpy as np
from hypothesis import strategies as st

from IMTreatment import make_unit, Profile
from IMTreatment.core import ScalarField, VectorField
from IMTreatment.potential_flow import potential_flow as pf
from harness.core import Sub, check, close, same_unit
from harness import gens as g

ASSUMPTIONS = [
    'solids are convex, described counter-clockwise (outward normals), and do '
    'not touch each other; boundaries are open lines',
    'velocities are decided at points at least a tenth of a panel away from '
    'the panels, or at the middle of a panel',
    'points (0D objects) are not decided: the library cannot create them']


# ------------------------------------------------------------------- geometry
@st.composite
def body(draw, cx, cy):
    kind = draw(st.sampled_from(['rect', 'poly', 'tri', 'line', 'bent']))
    ang = draw(st.sampled_from([0., 0., .3, 1., 2.4]))
    s = draw(st.sampled_from([.5, 1., 1.5]))
    if kind == 'rect':
        a = draw(st.sampled_from([.5, 1.]))
        pts = [[-s, -a], [s, -a], [s, a], [-s, a]]
    elif kind == 'tri':
        pts = [[-s, -.5], [s, -.4], [.2, 1.]]
    elif kind == 'poly':
        n = draw(st.integers(4, 7))
        t = 2*np.pi*np.arange(n)/n
        pts = np.stack([s*np.cos(t), s*np.sin(t)], axis=1).tolist()
    elif kind == 'line':
        pts = [[-s, 0.], [s, 0.]]
    else:
        pts = [[-s, 0.], [0., .3], [s, 0.]]
    pts = np.array(pts)
    R = np.array([[np.cos(ang), -np.sin(ang)], [np.sin(ang), np.cos(ang)]])
    pts = pts @ R.T + [cx, cy]
    dim = 1 if kind in ('line', 'bent') else 2
    if dim == 2 and draw(st.booleans()):
        pts = np.vstack([pts, pts[:1]])
    return {'dim': dim, 'pts': np.round(pts, 9).tolist(),
            'res': draw(st.integers(1, 3))}


@st.composite
def system(draw, max_bodies=2):
    n = draw(st.integers(1, max_bodies))
    return {'U': draw(st.sampled_from([1., .25, 3., -2.])),
            'alpha': draw(st.sampled_from([0., 0., .4, np.pi/2, -1.1, 3.])),
            'bodies': [draw(body(4.*i, draw(st.sampled_from([0., 1.]))))
                       for i in range(n)]}


def build(c):
    s = pf.System(u_inf=c['U'], alpha=c['alpha'])
    for b in c['bodies']:
        s.add_object(b['dim'], b['pts'], kind='wall', res=b['res'])
    return s


def nodes(b):
    """Panel ends of a body, as complex numbers, in order."""
    p = np.array(b['pts'])
    z = p[:, 0] + 1j*p[:, 1]
    if b['dim'] == 2 and z[0] != z[-1]:
        z = np.append(z, z[0])
    L = np.abs(np.diff(z))
    out = []
    for i in range(len(z) - 1):
        n = int(np.round(L[i]/(np.min(L)/b['res'])))
        if n < 1:
            n = 1
        out += [z[i] + (z[i + 1] - z[i])*k/n for k in range(n)]
    return np.array(out + [z[-1]])


class Ref:
    """Constant source panels in complex variables."""

    def __init__(self, c):
        n = [nodes(b) for b in c['bodies']]
        # 1D objects come first
        order = [i for i in range(len(n)) if c['bodies'][i]['dim'] == 1] + \
                [i for i in range(len(n)) if c['bodies'][i]['dim'] == 2]
        self.a = np.concatenate([n[i][:-1] for i in order])
        self.b = np.concatenate([n[i][1:] for i in order])
        self.L = np.abs(self.b - self.a)
        self.t = (self.b - self.a)/self.L
        self.n = -1j*self.t                     # right of the direction
        self.c = (self.a + self.b)/2.
        self.free = c['U']*np.exp(1j*c['alpha'])
        N = len(self.a)
        W = self.infl(self.c)                   # [point, panel]
        W[np.arange(N), np.arange(N)] = self.n/2.
        A = np.real(W*np.conj(self.n)[:, None])
        self.s = np.linalg.solve(A, -np.real(self.free*np.conj(self.n)))
        self.cond = np.linalg.cond(A)
        self.surf = W @ self.s + self.free

    def infl(self, z):
        z = np.asarray(z)[:, None]
        with np.errstate(all='ignore'):
            w = np.conj(self.t)/(2*np.pi)*np.log((z - self.a)/(z - self.b))
        return np.conj(w)

    def vel(self, z):
        return self.infl(z) @ self.s + self.free

    def dist(self, z):
        """Distance to the panels, over their length; smallest."""
        z = np.asarray(z)[:, None]
        q = (z - self.a)*np.conj(self.t)
        along = np.clip(np.real(q), 0, self.L)
        return np.min(np.abs(q - along)/np.min(self.L), axis=1)


def inside(c, z):
    """Within a solid (convex, counter-clockwise)."""
    z = np.asarray(z)
    res = np.zeros(z.shape, dtype=bool)
    for b in c['bodies']:
        if b['dim'] == 1:
            continue
        n = nodes(b)
        t = np.diff(n)
        side = np.imag(np.conj(t)[None, :]*(z[:, None] - n[:-1][None, :]))
        res |= np.all(side > 0, axis=1)
    return res


# ------------------------------------------------------------------- velocity
@st.composite
def vel_case(draw):
    c = draw(system())
    c['pts'] = draw(st.lists(st.tuples(g.quarter(-12, 28), g.quarter(-12, 12)),
                             min_size=1, max_size=4))
    c['far'] = draw(st.sampled_from([0., 0., 1e4]))
    return c


def velocity(c, rec):
    s = build(c)
    r = Ref(c)
    if r.cond > 1e4:
        rec.mark_trivial()
        return
    # discretisation
    panels = s.get_solid_panels()
    check(len(panels) == len(r.a), '{} panels instead of {}', len(panels),
          len(r.a))
    for p, a, b in zip(panels, r.a, r.b):
        close([p.xa, p.ya, p.xb, p.yb], [a.real, a.imag, b.real, b.imag],
              'panel ends', atol=1e-9)
    tol = 1e-5*abs(c['U'])*max(1, np.max(np.abs(r.s))/abs(c['U']))
    # velocity along the panels, as seen from outside
    for p, z, n, e in zip(panels, r.c, r.n, r.surf):
        u, v = s.compute_velocity(p.xc, p.yc)
        close([u, v], [e.real, e.imag], 'velocity on a panel', atol=tol)
        check(abs(np.real((u + 1j*v)*np.conj(n))) <= tol,
              'the flow goes through the panel at {}', z)
    # velocity elsewhere
    pts = np.array([complex(x + c['far'], y) for x, y in c['pts']])
    ok = r.dist(pts) > .1
    for z, e, k in zip(pts, r.vel(pts), ok):
        if not k:
            continue
        u, v = s.compute_velocity(z.real, z.imag)
        close([u, v], [e.real, e.imag], 'velocity at {}'.format(z), atol=tol)
        rec.label('velocity')
    if c['far']:
        if all(b['dim'] == 2 for b in c['bodies']):
            rec.label('far away')
            close([u, v], [r.free.real, r.free.imag], 'undisturbed far away',
                  atol=2e-3*abs(c['U'])*max(1, np.max(np.abs(r.s))))
    if len(c['bodies']) > 1:
        rec.label('two bodies')
    if any(b['dim'] == 1 for b in c['bodies']):
        rec.label('open boundary')


@st.composite
def history_case(draw):
    c = draw(system(max_bodies=3))
    c['p'] = [draw(g.quarter(-12, 28)), draw(g.quarter(8, 12))]
    return c


def history(c, rec):
    """Objects are added one after the other, velocities asked in between."""
    s = pf.System(u_inf=c['U'], alpha=c['alpha'])
    u, v = s.compute_velocity(*c['p'])
    close([u, v], [c['U']*np.cos(c['alpha']), c['U']*np.sin(c['alpha'])],
          'free stream', atol=1e-12)
    z = np.array([complex(*c['p'])])
    for k in range(len(c['bodies'])):
        b = c['bodies'][k]
        s.add_object(b['dim'], b['pts'], res=b['res'])
        r = Ref(dict(c, bodies=c['bodies'][:k + 1]))
        if r.cond > 1e4 or r.dist(z)[0] < .1:
            rec.mark_trivial()
            return
        e = r.vel(z)[0]
        u, v = s.compute_velocity(*c['p'])
        close([u, v], [e.real, e.imag], 'velocity with {} objects'.format(
            k + 1), atol=1e-5*(abs(c['U']) + np.max(np.abs(r.s))))
    if len(c['bodies']) > 1:
        rec.label('several objects')


# -------------------------------------------------------------- grids and lines
@st.composite
def grid_case(draw):
    c = draw(system())
    c['x'] = sorted(draw(st.lists(st.integers(-40, 80), min_size=2,
                                  max_size=5, unique=True)))
    c['y'] = sorted(draw(st.lists(st.integers(-30, 30), min_size=2,
                                  max_size=4, unique=True)))
    c['solid'] = draw(st.booleans())
    c['ends'] = [[draw(g.quarter(-20, 40)), draw(g.quarter(-20, 20))]
                 for _ in range(2)]
    if draw(st.booleans()):
        c['ends'][1][draw(st.integers(0, 1))] = \
            c['ends'][0][draw(st.integers(0, 1))]
    c['res'] = draw(st.integers(2, 7))
    return c


def grid(c, rec):
    s = build(c)
    r = Ref(c)
    x, y = np.array(c['x'])/10. + .013, np.array(c['y'])/10. + .017
    X, Y = np.meshgrid(x, y, indexing='ij')
    Z = (X + 1j*Y).ravel()
    if r.cond > 1e4:
        rec.mark_trivial()
        return
    ok = (r.dist(Z) > .1).reshape(X.shape)
    ins = inside(c, Z).reshape(X.shape)
    if not np.any(ok):
        rec.mark_trivial()
        return
    e = r.vel(Z).reshape(X.shape)
    tol = 1e-5*(abs(c['U']) + np.max(np.abs(r.s)))
    vf = s.compute_velocity_on_grid(x, y, remove_solid=c['solid'])
    close(vf.axe_x, x, 'axe x')
    close(vf.axe_y, y, 'axe y')
    for u in (vf.unit_x, vf.unit_y):
        same_unit(u, make_unit('m'), 'axes')
    same_unit(vf.unit_values, make_unit('m/s'), 'velocities')
    m = np.array(vf.mask)
    exp = ins if c['solid'] else np.zeros_like(ins)
    check(np.array_equal(m[ok], exp[ok]), 'mask {} instead of {}',
          m.tolist(), exp.tolist())
    k = ok & ~exp
    if np.any(exp[ok]):
        rec.label('points in the solid')
    close(np.array(vf.comp_x)[k], e.real[k], 'vx', atol=tol)
    close(np.array(vf.comp_y)[k], e.imag[k], 'vy', atol=tol)
    if not c['solid']:
        u, v = s.compute_velocity_on_grid(x, y, raw=True)
        close(np.array(u).T[ok], e.real[ok], 'vx (raw)', atol=tol)
        close(np.array(v).T[ok], e.imag[ok], 'vy (raw)', atol=tol)
    # pressure coefficient
    cp = s.compute_pressure_from_velocity(vf)
    check(isinstance(cp, ScalarField), 'pressure field')
    ecp = 1 - np.abs(e)**2/c['U']**2
    sc = 4*tol*(np.max(np.abs(e[k])) if np.any(k) else 1)/c['U']**2 + 1e-9
    close(np.array(cp.values)[k], ecp[k], 'pressure', atol=sc)
    check(np.array_equal(np.array(cp.mask)[ok], exp[ok]), 'pressure: mask')
    same_unit(cp.unit_values, make_unit(''), 'pressure')
    close(cp.axe_x, x, 'pressure: axe x')
    close(cp.axe_y, y, 'pressure: axe y')
    if not np.any(m):
        raw = s.compute_pressure_from_velocity(vf, raw=True)
        close(np.array(raw)[k], ecp[k], 'pressure (raw)', atol=sc)


def line(c, rec):
    (xa, ya), (xb, yb) = c['ends']
    if (xa, ya) == (xb, yb):
        rec.mark_trivial()
        return
    xa, xb, ya, yb = xa + .013, xb + .013, ya + .017, yb + .017
    s = build(c)
    r = Ref(c)
    if r.cond > 1e4:
        rec.mark_trivial()
        return
    t = np.arange(c['res'])/(c['res'] - 1.)
    Z = xa + (xb - xa)*t + 1j*(ya + (yb - ya)*t)
    ok = r.dist(Z) > .1
    ins = inside(c, Z)
    exp = ins if c['solid'] else np.zeros_like(ins)
    e = r.vel(Z)
    d = t*np.hypot(xb - xa, yb - ya)
    if xb <= xa and yb <= ya:
        d, ok, exp, e, Z = -d[::-1], ok[::-1], exp[::-1], e[::-1], Z[::-1]
        rec.label('backwards')
    tol = 1e-5*(abs(c['U']) + np.max(np.abs(r.s)))
    px, py = s.compute_velocity_on_line([xa, ya], [xb, yb], res=c['res'],
                                        remove_solid=c['solid'])
    k = ok & ~exp
    for p, v, name in ((px, e.real, 'vx'), (py, e.imag, 'vy')):
        close(p.x, d, name + ': positions', atol=1e-9*np.max(np.abs(d)))
        check(np.array_equal(np.array(p.mask)[ok], exp[ok]), name + ': mask')
        close(np.array(p.y)[k], v[k], name, atol=tol)
        same_unit(p.unit_x, make_unit('m'), name)
        same_unit(p.unit_y, make_unit('m/s'), name)
    if np.any(exp[ok]):
        rec.label('points in the solid')
    cp = s.compute_pressure_from_velocity((px, py))
    check(isinstance(cp, Profile), 'pressure profile')
    ecp = 1 - np.abs(e)**2/c['U']**2
    sc = 4*tol*(np.max(np.abs(e[k])) if np.any(k) else 1)/c['U']**2 + 1e-9
    close(np.array(cp.y)[k], ecp[k], 'pressure', atol=sc)
    close(cp.x, d, 'pressure: positions', atol=1e-9*np.max(np.abs(d)))
    check(np.array_equal(np.array(cp.mask)[ok], exp[ok]), 'pressure: mask')
    same_unit(cp.unit_x, make_unit('m'), 'pressure')
    same_unit(cp.unit_y, make_unit(''), 'pressure')


# -------------------------------------------------------------------- obstacles
@st.composite
def obst_case(draw):
    return {'D': draw(st.sampled_from([.1, .5, 1., 3.])),
            'Vd': draw(st.sampled_from([.02, .3, 1., 5.])),
            'nu': draw(st.sampled_from([1e-6, 1e-5])),
            'perc': draw(st.sampled_from([.05, .1, .2, .3])),
            'xo': draw(st.sampled_from([5., 10., 20.])),
            'res': draw(st.integers(2, 4)), 'ri': draw(st.integers(40, 60))}


def obstacle(c, rec):
    D, Vd = c['D'], c['Vd']
    L = pf.get_gradP_length(D=D, Vd=Vd, perc=c['perc'], nu=c['nu'],
                            res_pot=c['res'])
    r = Ref({'U': Vd, 'alpha': 0., 'bodies': [
        {'dim': 2, 'res': c['res'],
         'pts': [[-D/2, -D/2], [D/2, -D/2], [D/2, D/2], [-D/2, D/2]]}]})
    v = r.vel(np.array([complex(-L, 0.)]))[0]
    cp = 1 - abs(v)**2/Vd**2
    check(L > D/2. and abs(cp - c['perc']) < 1e-4,
          'pressure at {} D before the obstacle: {} instead of {}', L/D, cp,
          c['perc'])
    kw = {'res_pot': c['res'], 'res_int': c['ri']}
    a = pf.get_separation_position(D=D, Vd=Vd, x_obst=c['xo']*D, nu=c['nu'],
                                   **kw)
    b = pf.get_separation_position(D=1., Vd=1., x_obst=c['xo'], nu=1e-6, **kw)
    check(0 < a < c['xo']*D, 'separation at {} of the obstacle', a)
    check(abs(a/D - b) < 1e-3*b, 'separation at {} D instead of {} D', a/D, b)
    # Thwaites: theta^2 = .45 nu/U^6 int(U^5), and -theta^2/nu U' = 0.09
    x = np.linspace(-c['xo']*D, 0., 4001)[:-1]
    U = np.abs(r.vel((x - D/2.).astype(complex)))
    I = np.append(0., np.cumsum((U[1:]**5 + U[:-1]**5)/2*np.diff(x)))
    mm = -.45/U**6*I*np.gradient(U, x)
    i = np.where(mm >= .09)[0][0]
    step = c['xo']*D/(c['ri'] - 1.)
    check(abs(a + x[i]) <= step, 'separation at {} of the obstacle instead '
          'of {} (step {})', a, -x[i], step)
    # with the thinner layer of a confined flow, it separates later
    try:
        d = pf.get_separation_position(D=D, Vd=Vd, x_obst=c['xo']*D,
                                       nu=c['nu'], theta_max=1e-3*D, **kw)
    except IndexError:
        return
    check(d <= a*(1 + 1e-9), 'a thinner layer separates earlier')
    rec.label('confined')


SUBS = [
    Sub('velocity', vel_case(), velocity, 'a well posed system', quick=300),
    Sub('history', history_case(), history, 'a well posed system', quick=200),
    Sub('grid', grid_case(), grid, 'a point away from the panels', quick=250),
    Sub('line', grid_case(), line, 'a line of non-zero length', quick=300),
    Sub('obstacle', obst_case(), obstacle, 'any', quick=60),
]
