"""C19: analytical vortices and systems of vortices."""
import numpy as np
from hypothesis import strategies as st
from scipy import special

from IMTreatment import make_unit
from IMTreatment import vortex_creation as vcr
from IMTreatment.core import VectorField, TemporalVectorFields
from harness.core import Sub, check, close, same_unit, fail, expect_raises
from harness import gens as g

ASSUMPTIONS = [
    'velocities are in m/s; custom fields are given in m/s',
    'mirror images at walls are decided for axisymmetric vortices (all but the '
    'Hill vortex and the Lamb-Chaplygin dipole) and for at most one wall per '
    'direction',
    'the Hill vortex is the plane flow of the stream function of its meridian '
    'plane, turning in the direct sense']


# ------------------------------------------------------------------- velocities
@st.composite
def vortex(draw, kinds=None):
    kind = draw(st.sampled_from(kinds or ['solid', 'free', 'burger', 'oseen',
                                          'rankine', 'perso', 'hill',
                                          'chaplygin']))
    c = {'kind': kind, 'x0': draw(g.quarter(-4, 4)), 'y0': draw(g.quarter(-4, 4)),
         'k': draw(g.nonzero(-4, 4)), 'r': draw(st.sampled_from([.5, 1., 2.])),
         'nu': draw(st.sampled_from([1e-6, .1])), 'movable': True,
         'ratio': draw(st.sampled_from([0., .5, 2.])),
         'n': draw(st.integers(1, 3)), 't': draw(st.sampled_from([1., 3.]))}
    return c


def build(c):
    kw = {'x0': c['x0'], 'y0': c['y0'], 'movable': c['movable']}
    k = c['k']
    if c['kind'] == 'solid':
        return vcr.SolidVortex(omega=k, **kw)
    if c['kind'] == 'free':
        return vcr.FreeVortex(gamma=k, **kw)
    if c['kind'] == 'burger':
        return vcr.BurgerVortex(alpha=9.2*c['nu']/c['r']**2, ksi=k,
                                viscosity=c['nu'], **kw)
    if c['kind'] == 'oseen':
        return vcr.LambOseenVortex(ksi=k, t=c['t']*1e-1/c['nu'],
                                   viscosity=c['nu'], **kw)
    if c['kind'] == 'rankine':
        return vcr.RankineVortex(circ=k, rv=c['r'], **kw)
    if c['kind'] == 'perso':
        if c['n'] == 1:
            return vcr.PersoVortex(radius=c['r'], vort_max=k, nu=c['nu'],
                                   node_ratio=c['ratio'], **kw)
        return vcr.PersoVortex(radius=c['r'], circ=k, nu=c['nu'],
                               node_ratio=c['ratio'], **kw)
    if c['kind'] == 'hill':
        return vcr.HillVortex(U=k, rv=c['r'], **kw)
    return vcr.LambChaplyginVortex(U=k, rv=c['r'], Bessel_root_nmb=c['n'], **kw)


def velocity(c, x, y):
    """The velocity of the model at arrays of points."""
    dx, dy = x - c['x0'], y - c['y0']
    r2 = dx**2 + dy**2
    r = np.sqrt(r2)
    rs = np.where(r == 0, 1., r)
    k, a, nu = c['k'], c['r'], c['nu']
    if c['kind'] == 'solid':
        return -k*dy, k*dx
    vr = np.zeros_like(r)
    if c['kind'] == 'free':
        vt = k/(2*np.pi*rs)
    elif c['kind'] == 'burger':
        al = 9.2*nu/a**2
        vt = -k/(2*np.pi*rs)*np.expm1(-al*r2/(4*nu))
        vr = -al*r/2
    elif c['kind'] == 'oseen':
        vt = -k/(2*np.pi*rs)*np.expm1(-r2/(4*.1*c['t']))
    elif c['kind'] == 'rankine':
        vt = k/(2*np.pi)*np.where(r <= a, r/a**2, 1/rs)
    elif c['kind'] == 'perso':
        al = 16*np.log(2)*nu/a**2
        circ = k if c['n'] != 1 else 8*np.pi*nu*k/al
        vt = -circ/(2*np.pi*rs)*np.expm1(-al*r2/(4*nu))
        vr = -np.abs(vt)*c['ratio']
    elif c['kind'] == 'hill':
        ct, stt = dx/rs, dy/rs
        vr = -1.5*k*r*(1 - r2/a**2)*stt*ct
        vt = 1.5*k*r*(1 - 2*r2/a**2)*stt**2
    else:
        ct, stt = np.where(r == 0, 1., dx/rs), dy/rs
        b = special.jn_zeros(1, c['n'])[-1]/a
        j0 = special.j0(b*a)
        ratio = np.where(r == 0, .5, special.j1(b*rs)/(b*rs))
        inn_r = -2*k/j0*ratio*ct
        inn_t = 2*k/j0*stt*special.jvp(1, b*r)
        vr = np.where(r < a, inn_r, -k*(1 - a**2/rs**2)*ct)
        vt = np.where(r < a, inn_t, k*(1 + a**2/rs**2)*stt)
        return vr*ct - vt*stt, vr*stt + vt*ct
    ct, stt = dx/rs, dy/rs
    u, v = vr*ct - vt*stt, vr*stt + vt*ct
    return np.where(r == 0, 0., u), np.where(r == 0, 0., v)


@st.composite
def model_case(draw):
    c = {'vort': draw(vortex())}
    c['x'] = draw(g.axis(2, 5, scales=False))
    c['y'] = draw(g.axis(2, 5, scales=False))
    c['unit'] = draw(st.sampled_from(['', 'm', 'mm']))
    c['pts'] = [[draw(g.quarter(-6, 6)), draw(g.quarter(-6, 6))]
                for _ in range(3)]
    c['move'] = [draw(g.quarter(-4, 4)), draw(g.quarter(-4, 4))] \
        if draw(st.booleans()) else None
    return c


def boundary(c, x, y):
    """Points too near of a discontinuity of the model."""
    r = np.hypot(x - c['x0'], y - c['y0'])
    return np.abs(r - c['r']) < 1e-9


def run_model(c, rec):
    vo = dict(c['vort'])
    v = build(vo)
    rec.label(vo['kind'])
    if c['move'] is not None:
        v.x0, v.y0 = c['move']
        vo['x0'], vo['y0'] = c['move']
    x, y = np.array(c['x']), np.array(c['y'])
    X, Y = np.meshgrid(x, y, indexing='ij')
    u, w = velocity(vo, X, Y)
    ok = ~boundary(vo, X, Y)
    f = v.get_vector_field(x, y, unit_x=c['unit'], unit_y=c['unit'])
    check(isinstance(f, VectorField), 'field: {!r}', type(f))
    close(f.axe_x, x, 'field: x')
    close(f.axe_y, y, 'field: y')
    same_unit(f.unit_x, make_unit(c['unit']), 'field: unit_x')
    same_unit(f.unit_values, make_unit('m/s'), 'field: unit of the values')
    check(not np.any(f.mask), 'field: masked')
    big = max(np.abs(u).max(), np.abs(w).max(), 1e-3)
    close(f.comp_x[ok], u[ok], vo['kind'] + ': Vx', rtol=1e-7, scale=big)
    close(f.comp_y[ok], w[ok], vo['kind'] + ': Vy', rtol=1e-7, scale=big)
    for p in c['pts'] + [[vo['x0'], vo['y0']]]:
        got = v.get_vector(*p)
        a, b = velocity(vo, np.array(p[0]), np.array(p[1]))
        if boundary(vo, *p):
            continue
        close(np.array(got, dtype=float), np.array([a, b]), vo['kind'] +
              ' at {}'.format(p), rtol=1e-7, scale=max(abs(a), abs(b), 1e-3))
    fixed = build(dict(vo, movable=False))
    before = (fixed.x0, fixed.y0)
    for name in ('x0', 'y0'):
        expect_raises(lambda: setattr(fixed, name, 12.), 'moving a fixed vortex')
    check((fixed.x0, fixed.y0) == before, 'a fixed vortex has moved')
    if vo['kind'] not in ('hill', 'chaplygin'):
        s = v.symetrize()
        p = c['pts'][0]
        q = [2*vo['x0'] - p[0], p[1]]
        a, b = v.get_vector(*p)
        close(np.array(s.get_vector(*q)), np.array([-a, b]), 'symmetry',
              rtol=1e-7, scale=max(abs(a), abs(b), 1e-3))


# --------------------------------------------------------- systems of vortices
AXI = ['solid', 'free', 'burger', 'oseen', 'rankine', 'perso']
OPS = ['vortex', 'vortex', 'vortex', 'wall', 'custom', 'custom', 'remove',
       'remove', 'evolve', 'field', 'vector', 'compound', 'copy', 'map', 'touch']


@st.composite
def system_case(draw):
    ops = []
    first = ['vortex']*draw(st.integers(1, 3)) + \
        ['wall']*draw(st.integers(0, 2))
    for i in range(len(first) + draw(st.integers(1, 8))):
        op = first[i] if i < len(first) else draw(st.sampled_from(OPS))
        o = {'op': op}
        if op == 'vortex':
            o['v'] = draw(vortex(AXI))
            o['v']['movable'] = draw(st.integers(0, 3)) > 0
        elif op == 'wall':
            o.update(axe=draw(st.sampled_from(['x', 'y'])),
                     pos=draw(g.quarter(-6, 6)))
        elif op == 'custom':
            o['c'] = [draw(g.quarter(-2, 2)) for _ in range(4)]
            o['again'] = draw(st.integers(0, 3)) == 0
        elif op == 'remove':
            o['i'] = draw(st.integers(-4, 3))
        elif op == 'evolve':
            o['dt'] = draw(st.sampled_from([.1, .25, 1.]))
        elif op == 'vector':
            o['ids'] = draw(st.one_of(st.just('all'), st.just('none'),
                                      st.lists(st.integers(0, 4), max_size=3)))
            o['cf'] = draw(st.one_of(st.just('all'), st.just('none'),
                                     st.lists(st.integers(0, 4), max_size=3)))
        elif op == 'compound':
            o['detailed'] = draw(st.booleans())
        elif op == 'map':
            o['v'] = draw(vortex(AXI))
        ops.append(o)
    return {'ops': ops, 'x': draw(g.axis(2, 4, scales=False)),
            'y': draw(g.axis(2, 4, scales=False)),
            'pts': [[draw(g.quarter(-6, 6)), draw(g.quarter(-6, 6))]
                    for _ in range(2)],
            'dt': draw(st.sampled_from([.1, .5])), 'n': draw(st.integers(0, 3)),
            'ut': draw(st.sampled_from(['', 's']))}


class Model(object):
    def __init__(self):
        self.vs, self.walls, self.cfs = [], [], []

    def images(self, v):
        """The vortex and its images: (position, sign) of each."""
        out = [(v['x0'], v['y0'], 1.)]
        for axe, pos in self.walls:
            for x, y, s in list(out):
                out.append((2*pos - x, y, -s) if axe == 'x'
                           else (x, 2*pos - y, -s))
        return out

    def of_vortex(self, v, x, y):
        u = w = 0.
        for x0, y0, s in self.images(v):
            vv = dict(v, x0=x0, y0=y0, k=v['k']*s)
            a, b = velocity(vv, x, y)
            u, w = u + a, w + b
        return u, w

    def of_custom(self, cf, x, y):
        a, b, c, d = cf
        return a*x + b + 0*y, c*y + d + 0*x

    def total(self, x, y, vs=None, cfs=None):
        u, w = np.zeros(np.shape(x)), np.zeros(np.shape(x))
        for i, v in enumerate(self.vs):
            if vs is None or i in vs:
                a, b = self.of_vortex(v, x, y)
                u, w = u + a, w + b
        for i, cf in enumerate(self.cfs):
            if cfs is None or i in cfs:
                a, b = self.of_custom(cf, x, y)
                u, w = u + a, w + b
        return u, w

    def unsure(self, x, y):
        """Too near of a singular point or of a discontinuity."""
        out = np.zeros(np.shape(x), dtype=bool)
        for v in self.vs:
            for x0, y0, _ in self.images(v):
                r = np.hypot(x - x0, y - y0)
                out = out | ((r < 1e-3) & (r > 0)) | \
                    (np.abs(r - v['r']) < 1e-9)
        return out

    def crossed(self):
        return False


def custom(c):
    a, b, cc, d = c
    return vcr.CustomField(lambda x, y: (a*x + b, cc*y + d), unit_values='m/s')


def check_system(s, m, c, what):
    check(len(s.vortex) == len(m.vs) == s.nmb_vortex, '{}: {} vortices, {} '
          'counted, instead of {}', what, len(s.vortex), s.nmb_vortex,
          len(m.vs))
    for i, (a, b) in enumerate(zip(s.vortex, m.vs)):
        close(np.array([a.x0, a.y0]), np.array([b['x0'], b['y0']]),
              what + ': position', rtol=1e-7, scale=10.)
    for p in c['pts']:
        x, y = np.array(p[0]), np.array(p[1])
        if m.unsure(x, y):
            continue
        u, w = m.total(x, y)
        close(np.array(s.get_vector(*p), dtype=float), np.array([u, w]),
              '{}: velocity at {}'.format(what, p), rtol=1e-6,
              scale=max(abs(u), abs(w), 1.))


def run_system(c, rec):
    s, m = vcr.VortexSystem(), Model()
    last = None
    x, y = np.array(c['x']), np.array(c['y'])
    X, Y = np.meshgrid(x, y, indexing='ij')
    for o in c['ops']:
        op = o['op']
        if op == 'vortex':
            if any(np.hypot(v['x0'] - o['v']['x0'], v['y0'] - o['v']['y0'])
                   < 1e-2 for v in m.vs):
                continue
            last = build(o['v'])
            s.add_vortex(last)
            m.vs.append(dict(o['v']))
        elif op == 'touch' and last is not None:
            # the vortex added is not the one of the system
            if last.movable:
                last.x0, last.y0 = 55., 66.
        elif op == 'wall':
            if any(a == o['axe'] for a, _ in m.walls):
                continue
            s.add_wall(vcr.Wall(**{o['axe']: o['pos']}))
            m.walls.append((o['axe'], o['pos']))
        elif op == 'custom':
            cf = custom(o['c'])
            s.add_custom_field(cf)
            m.cfs.append(o['c'])
            if o['again']:
                s.add_custom_field(cf)
                m.cfs.append(o['c'])
        elif op == 'remove':
            if not m.vs:
                continue
            i = o['i'] % len(m.vs)
            s.remove_vortex(i - len(m.vs) if o['i'] < 0 else i)
            m.vs.pop(i)
        elif op == 'copy':
            old = s
            s = s.copy()
            old.add_wall(vcr.Wall(x=3.3))
            if len(old.vortex):
                old.remove_vortex(0)
        elif op == 'evolve':
            new = s.get_evolution(dt=o['dt'])
            check_system(s, m, c, 'before evolution')
            pos = []
            bad = False
            for v in m.vs:
                p = np.array(v['x0']), np.array(v['y0'])
                u, w = m.total(*p)
                bad = bad or bool(m.unsure(*p))
                pos.append((v['x0'] + o['dt']*float(u)*v['movable'],
                            v['y0'] + o['dt']*float(w)*v['movable']))
            if bad or not all(np.all(np.abs(p) < 1e3) for p in pos):
                continue
            for v, p in zip(m.vs, pos):
                v['x0'], v['y0'] = p
            s = new
        elif op == 'vector':
            for p in c['pts']:
                a = np.array(p[0]), np.array(p[1])
                if m.unsure(*a):
                    continue
                sel = {'all': None, 'none': []}
                k1 = o['ids'] if not isinstance(o['ids'], str) \
                    else sel[o['ids']]
                k2 = o['cf'] if not isinstance(o['cf'], str) else sel[o['cf']]
                want = m.total(*a, vs=k1, cfs=k2)
                got = s.get_vector(p[0], p[1], vortex_ids=o['ids'],
                                   cf_ids=o['cf'])
                close(np.array(got, dtype=float), np.array(want), 'velocity of '
                      'some vortices', rtol=1e-6, scale=max(
                          1., np.abs(np.array(want)).max()))
        elif op == 'compound':
            p = c['pts'][0]
            a = np.array(p[0]), np.array(p[1])
            if m.unsure(*a):
                continue
            vv, ids, cv, cids = s.get_compounded_vector(
                p[0], p[1], detailed=o['detailed'])
            check(len(vv) == len(ids) and len(cv) == len(cids),
                  'compounded vectors: numbers')
            n = 2**len(m.walls) if o['detailed'] else 1
            check(len(vv) == n*len(m.vs) and len(cv) == len(m.cfs),
                  'compounded vectors: {} and {}', len(vv), len(cv))
            for i, v in enumerate(m.vs):
                got = np.sum([z for z, k in zip(vv, ids) if k == i], axis=0)
                want = np.array(m.of_vortex(v, *a))
                close(np.array(got, dtype=float), want, 'vector of a vortex',
                      rtol=1e-6, scale=max(1., np.abs(want).max()))
            for i, cf in enumerate(m.cfs):
                got = np.sum([z for z, k in zip(cv, cids) if k == i], axis=0)
                close(np.array(got, dtype=float),
                      np.array(m.of_custom(cf, *a)), 'vector of a custom '
                      'field', scale=10.)
        elif op in ('field', 'map'):
            if op == 'field':
                f = s.get_vector_field(x, y, unit_x='m', unit_y='mm')
                u, w = m.total(X, Y)
                ok = ~m.unsure(X, Y)
                same_unit(f.unit_y, make_unit('mm'), 'field of the system')
            else:
                f = s.get_velocity_map(x, y, build(o['v']), unit_x='m',
                                       unit_y='m')
                u, w = np.zeros(X.shape), np.zeros(X.shape)
                ok = np.ones(X.shape, dtype=bool)
                for i in range(len(x)):
                    for j in range(len(y)):
                        m2 = Model()
                        m2.walls, m2.cfs = m.walls, m.cfs
                        m2.vs = m.vs + [dict(o['v'], x0=x[i], y0=y[j])]
                        p = np.array(x[i]), np.array(y[j])
                        u[i, j], w[i, j] = m2.total(*p)
                        ok[i, j] = not m2.unsure(*p)
            same_unit(f.unit_x, make_unit('m'), op)
            same_unit(f.unit_values, make_unit('m/s'), op)
            close(f.axe_x, x, op + ': x')
            close(f.axe_y, y, op + ': y')
            if ok.any():
                big = max(1., np.abs(u[ok]).max(), np.abs(w[ok]).max())
                close(f.comp_x[ok], u[ok], op + ': Vx', rtol=1e-6, scale=big)
                close(f.comp_y[ok], w[ok], op + ': Vy', rtol=1e-6, scale=big)
        rec.label(op)
        check_system(s, m, c, 'after ' + op)
    # no flow through the walls (custom fields apart)
    for axe, pos in m.walls:
        for p in c['pts']:
            q = [pos, p[1]] if axe == 'x' else [p[0], pos]
            v = s.get_vector(q[0], q[1], cf_ids='none')
            big = max(1., abs(v[0]), abs(v[1]), *[abs(z['k']) for z in m.vs]) \
                if m.vs else 1.
            if m.unsure(np.array(q[0]), np.array(q[1])):
                continue
            n = v[0] if axe == 'x' else v[1]
            check(abs(n) < 1e-6*max(big, 1e3*big if any(
                np.hypot(a['x0'] - q[0], a['y0'] - q[1]) < 1e-2
                for a in m.vs) else 0.), 'flow {} through the wall {}={}', n,
                axe, pos)
    # evolution in time
    if m.vs:
        fields = s.get_temporal_vector_field(c['dt'], x, y, c['n'],
                                             unit_time=c['ut'])
        tracks = s.get_vortex_evolution(c['dt'], c['n'], unit_time=c['ut'])
        check(isinstance(fields, TemporalVectorFields) and
              len(fields.fields) == c['n'] + 1, 'evolution: fields')
        close(fields.times, c['dt']*np.arange(c['n'] + 1), 'evolution: times',
              scale=1.)
        same_unit(fields.unit_times, make_unit(c['ut']), 'evolution: unit')
        check(len(tracks) == len(m.vs), 'evolution: tracks')
        cur = s.copy()
        for k in range(c['n'] + 1):
            ref = cur.get_vector_field(x, y)
            big = max(1., np.abs(ref.comp_x).max(), np.abs(ref.comp_y).max())
            close(fields.fields[k].comp_x, ref.comp_x, 'evolution: Vx',
                  scale=big)
            close(fields.fields[k].comp_y, ref.comp_y, 'evolution: Vy',
                  scale=big)
            for t, v in zip(tracks, cur.vortex):
                close(t.xy[k], np.array([v.x0, v.y0]), 'evolution: track',
                      scale=max(10., abs(v.x0), abs(v.y0)))
                close(t.v[k], k*c['dt'], 'evolution: times of the track',
                      scale=1.)
            if k < c['n']:
                cur = cur.get_evolution(dt=c['dt'])
        for t in tracks:
            check(len(t.xy) == c['n'] + 1, 'evolution: length of the tracks')
            same_unit(t.unit_v, make_unit(c['ut']), 'evolution: unit of times')
    else:
        rec.mark_trivial()
    check_system(s, m, c, 'at the end')


SUBS = [
    Sub('models', model_case(), run_model, 'every case', quick=400),
    Sub('systems', system_case(), run_system,
        'a system with at least one vortex at the end', quick=400),
]
