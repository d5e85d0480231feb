"""C21: properties of vortices (radius, center, circulation, integrals)."""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import simpson

from IMTreatment import make_unit, Points, Profile
from IMTreatment import vortex_criterions as vc
from IMTreatment import vortex_properties as vp
from IMTreatment.core import VectorField, TemporalVectorFields
from harness.core import Sub, check, close, same_unit, expect_raises
from harness import gens as g

ASSUMPTIONS = [
    'grids are evenly spaced and both axes have the same unit',
    'the criteria themselves (C20) are taken from the library',
    'cases where a value lies within 1e-9 of a threshold are left out',
    'vorticity is the rotation rate (half of the curl), as everywhere in the '
    'library']


@st.composite
def flow(draw, masks=True):
    """A few vortices and shears, so that several zones of both signs exist."""
    nx, ny = draw(st.integers(4, 9)), draw(st.integers(4, 9))
    dx, dy = draw(st.sampled_from([(1., 1.), (.5, .25), (1., 2.), (.1, .1)]))
    x0, y0 = draw(st.integers(-8, 8)), draw(st.integers(-8, 8))
    ax = [x0*dx + i*dx for i in range(nx)]
    ay = [y0*dy + i*dy for i in range(ny)]
    X, Y = np.meshgrid(ax, ay, indexing='ij')
    vx, vy = np.zeros((nx, ny)), np.zeros((nx, ny))
    centers = []
    for _ in range(draw(st.integers(1, 3))):
        i, j = draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1))
        k = draw(st.sampled_from([-3., -2., -1., 1., 2., 3.]))
        r = draw(st.sampled_from([.8, 1.5, 2.5]))
        w = k*np.exp(-(((X - ax[i])/dx)**2 + ((Y - ay[j])/dy)**2)/r**2)
        vx -= w*(Y - ay[j])
        vy += w*(X - ax[i])
        centers.append((i, j))
    if draw(st.booleans()):
        vx += draw(st.sampled_from([0., .5, 2.]))
        vy += draw(st.sampled_from([0., -.5]))*X
    i, j = draw(st.one_of(st.sampled_from(centers),
                          st.tuples(st.integers(0, nx - 1),
                                    st.integers(0, ny - 1))))
    off = draw(st.sampled_from([(0, 0), (.3, -.2), (-.4, .4), (0, .3)]))
    m = np.zeros((nx, ny), dtype=bool)
    if masks and draw(st.booleans()):
        for a, b in draw(st.lists(st.tuples(st.integers(0, nx - 1),
                                            st.integers(0, ny - 1)),
                                  max_size=3)):
            m[a, b] = True
    return {'x': ax, 'y': ay, 'vx': np.round(vx, 6).tolist(),
            'vy': np.round(vy, 6).tolist(), 'm': m.astype(int).tolist(),
            'i': [i, j], 'off': list(off), 'u': draw(g.unit_len()),
            'uv': draw(st.sampled_from(g.SPEEDS)),
            'eps': draw(st.sampled_from([.05, .1, .3, .5, .8]))}


def build(c, sign=1.):
    vf = VectorField()
    vf.import_from_arrays(c['x'], c['y'], sign*np.array(c['vx']),
                          sign*np.array(c['vy']),
                          mask=np.array(c['m'], dtype=bool), unit_x=c['u'],
                          unit_y=c['u'], unit_values=c['uv'])
    return vf


def center_of(c):
    dx, dy = c['x'][1] - c['x'][0], c['y'][1] - c['y'][0]
    x = c['x'][c['i'][0]] + c['off'][0]*dx
    y = c['y'][c['i'][1]] + c['off'][1]*dy
    return [float(min(max(x, c['x'][0]), c['x'][-1])),
            float(min(max(y, c['y'][0]), c['y'][-1]))]


def zone(inside, i, j):
    """The points joined to (i, j), by sides, within 'inside'."""
    out = np.zeros(inside.shape, dtype=bool)
    todo = [(i, j)] if inside[i, j] else []
    while todo:
        a, b = todo.pop()
        if out[a, b]:
            continue
        out[a, b] = True
        for p, q in ((a + 1, b), (a - 1, b), (a, b + 1), (a, b - 1)):
            if 0 <= p < inside.shape[0] and 0 <= q < inside.shape[1] \
                    and inside[p, q] and not out[p, q]:
                todo.append((p, q))
    return out


def above(values, lim, scale):
    """values > lim, or None when one of them is too close to tell."""
    v = np.where(np.isnan(values), -np.inf, values)
    if np.any(np.abs(v - lim) < 1e-9*scale):
        return None
    return v > lim


def two_steps(values, i, j, eps):
    """Zone above eps times its own maximum; None if too close to tell."""
    scale = np.nanmax(np.abs(values)) if np.any(~np.isnan(values)) else 0.
    if scale == 0:
        return None
    a = above(values, eps*values[i, j], scale)
    if a is None:
        return None
    z = zone(a, i, j)
    if not z.any():
        return z
    a = above(values, eps*np.max(values[z]), scale)
    return None if a is None else zone(a, i, j)


def snap(vf):
    return [np.array(v) for v in (vf.axe_x, vf.axe_y, vf.comp_x, vf.comp_y,
                                  vf.mask)]


def unchanged(vf, before):
    for a, b in zip(snap(vf), before):
        check(np.array_equal(a, b) or np.allclose(a, b, equal_nan=True),
              'field left alone')


# ---------------------------------------------------------------------- radius
@st.composite
def radius_case(draw):
    c = draw(flow())
    c['nl'] = draw(st.sampled_from([None, None, 1.1, 1.6]))
    if c['nl']:
        c['m'] = np.zeros_like(c['m']).tolist()
    c['out'] = draw(st.sampled_from([[0, 0], [1, 0], [0, 1], [1, 1]]))
    return c


def ref_radius(c, vf):
    """(radius, center) or None."""
    dx, dy = c['x'][1] - c['x'][0], c['y'][1] - c['y'][0]
    if c.get('nl'):
        vort = vc.get_NL_residual_vorticity(vf, radius=c['nl']*max(dx, dy))
    else:
        vort = vc.get_residual_vorticity(vf)
    i, j = c['i']
    v = np.array(vort.values, dtype=float)
    v[np.array(vort.mask)] = np.nan
    if np.isnan(v[i, j]) or abs(v[i, j]) < 1e-6*np.nanmax(np.abs(v)):
        return None
    z = two_steps(v*np.sign(v[i, j]), i, j, c['eps'])
    if z is None:
        return None
    if not z.any():
        return 0., None
    r = np.sqrt(z.sum()*dx*dy/np.pi)
    w = np.where(z, np.abs(np.nan_to_num(v)), 0.)
    X, Y = np.meshgrid(c['x'], c['y'], indexing='ij')
    return r, [np.sum(w*X)/np.sum(w), np.sum(w*Y)/np.sum(w)]


def radius(c, rec):
    vf = build(c)
    ref = ref_radius(c, vf)
    if ref is None:
        rec.mark_trivial()
        return
    before = snap(vf)
    dx, dy = c['x'][1] - c['x'][0], c['y'][1] - c['y'][0]
    cen = center_of(c)
    kw = {'eps_detection': c['eps'],
          'NL_radius': None if not c.get('nl') else c['nl']*max(dx, dy),
          'output_center': bool(c['out'][0]),
          'output_unit': bool(c['out'][1])}
    res = vp.get_vortex_radius(vf, cen, **kw)
    unchanged(vf, before)
    parts = list(res) if isinstance(res, tuple) else [res]
    check(len(parts) == 1 + sum(c['out']), 'number of results')
    size = max(np.ptp(c['x']), np.ptp(c['y']))
    close([float(parts[0])], [ref[0]], 'radius', scale=size)
    if ref[0] == 0:
        rec.label('no vortex')
    if c['out'][0]:
        e = ref[1] if ref[1] is not None else cen
        close(parts[1], e, 'center', atol=1e-8*(np.max(np.abs(c['x'])) +
                                                np.max(np.abs(c['y']))))
        rec.label('center')
    if c['out'][1]:
        same_unit(parts[-1], make_unit(c['u']), 'unit of the radius')
    # the sense of rotation does not matter
    opp = vp.get_vortex_radius(build(c, -1.), cen, **dict(
        kw, output_center=False, output_unit=False))
    close([float(opp)], [ref[0]], 'radius of the opposite vortex', scale=size)


# ------------------------------------------------------------------ properties
CRIT = {'residual': vc.get_residual_vorticity, 'vorticity': vc.get_vorticity,
        'swirling': vc.get_swirling_strength, 'q': vc.get_q_criterion,
        None: None}


@st.composite
def prop_case(draw):
    c = draw(flow())
    c['size'] = draw(st.sampled_from([None, 'value', 'vorticity', 'residual',
                                      'swirling']))
    c['prop'] = draw(st.sampled_from([None, 'vorticity', 'residual',
                                      'swirling']))
    c['unit'] = draw(st.booleans())
    return c


def field_values(crit, vf):
    f = (CRIT[crit] or vc.get_residual_vorticity)(vf)
    v = np.array(f.values, dtype=float)
    v[np.array(f.mask)] = np.nan
    return f, v


def ref_prop(c, vf):
    """(property, unit) or None when there is nothing to say."""
    pf, pv = field_values(c['prop'], vf)
    i, j = c['i']
    if c['size'] == 'value':
        val = pf.get_value(*center_of(c))
        return None if np.isnan(val) else (val, pf.unit_values)
    sv = np.abs(field_values(c['size'], vf)[1])
    if np.isnan(sv[i, j]) or sv[i, j] < 1e-6*np.nanmax(sv):
        return None
    z = two_steps(sv, i, j, c['eps'])
    if z is None or np.any(np.isnan(pv[z])):
        return None
    w = np.where(z, np.nan_to_num(pv), 0.)
    dx, dy = c['x'][1] - c['x'][0], c['y'][1] - c['y'][0]
    val = simpson(simpson(w, dx=dy, axis=1), dx=dx)
    return val, pf.unit_values*make_unit(c['u'])*make_unit(c['u'])


def size_of(c, vf):
    v = np.nan_to_num(field_values(c['prop'], vf)[1])
    return np.max(np.abs(v))*(np.ptp(c['x'])*np.ptp(c['y']) + 1)


def prop(c, rec):
    vf = build(c)
    ref = ref_prop(c, vf)
    if ref is None:
        rec.mark_trivial()
        return
    before = snap(vf)
    cen = center_of(c)
    size = c['size'] if c['size'] == 'value' else CRIT[c['size']]
    res = vp.get_vortex_property(vf, cen, size_crit=size,
                                 size_crit_lim=c['eps'],
                                 prop_crit=CRIT[c['prop']],
                                 output_unit=c['unit'])
    unchanged(vf, before)
    if c['unit']:
        val, unit = res
        k = float((unit/ref[1]).asNumber(1))
        rec.label('unit')
    else:
        val, k = res, 1.
    close([float(val)*k], [float(ref[0])], 'property', scale=size_of(c, vf))
    rec.label('value' if c['size'] == 'value' else
              'outside' if ref[0] == 0 else 'zone')


# ----------------------------------------------------------------- circulation
def circ(c, rec):
    vf = build(c)
    f, v = field_values('vorticity', vf)
    i, j = c['i']
    scale = np.nanmax(np.abs(v)) if np.any(~np.isnan(v)) else 0
    if scale == 0:
        rec.mark_trivial()
        return
    a = above(np.abs(v), c['eps']*scale, scale)
    if a is None:
        rec.mark_trivial()
        return
    z = zone(a, i, j)
    dx, dy = c['x'][1] - c['x'][0], c['y'][1] - c['y'][0]
    eu = f.unit_values*make_unit(c['u'])*make_unit(c['u'])
    e = np.sum(v[z])*dx*dy if z.any() else 0.
    before = snap(vf)
    cen = center_of(c)
    got, unit = vp.get_vortex_circulation(vf, cen, epsilon=c['eps'],
                                          output_unit=True)
    unchanged(vf, before)
    tot = scale*(np.ptp(c['x']) + dx)*(np.ptp(c['y']) + dy)
    if not z.any():
        check(got == 0, 'circulation outside of any vortex: {}', got)
        rec.label('outside')
        return
    k = float((unit/eu).asNumber(1))
    close([float(got)*k], [e], 'circulation', scale=tot)
    alone = vp.get_vortex_circulation(vf, cen, epsilon=c['eps'])
    check(alone == got, 'with or without unit')
    opp = vp.get_vortex_circulation(build(c, -1.), cen, epsilon=c['eps'])
    close([float(opp)], [-float(got)], 'opposite vortex', scale=tot/k)


# ---------------------------------------------------------------------- series
@st.composite
def series_case(draw):
    n = draw(st.integers(1, 4))
    c = draw(flow(masks=False))
    k = draw(st.lists(st.sampled_from([-2., -1., 1., 2., .5]), min_size=n,
                      max_size=n))
    times = sorted(draw(st.lists(st.integers(0, 40), min_size=n, max_size=n,
                                 unique=True)))
    pos = [draw(st.tuples(st.integers(0, len(c['x']) - 1),
                          st.integers(0, len(c['y']) - 1)))
           if draw(st.booleans()) else tuple(c['i']) for _ in range(n)]
    keep = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    if not any(keep):
        keep[0] = True
    return dict(c, k=k, times=[t/4. for t in times], pos=[list(p)
                                                          for p in pos],
                keep=keep, ut=draw(st.sampled_from(g.TIMES)),
                what=draw(st.sampled_from(['radius', 'center', 'prop'])),
                prop=draw(st.sampled_from([None, 'vorticity'])),
                size=draw(st.sampled_from([None, 'vorticity', 'value'])),
                order=draw(st.booleans()))


def series(c, rec):
    tv = TemporalVectorFields()
    cases, fields = [], []
    for k, t, p in zip(c['k'], c['times'], c['pos']):
        ci = dict(c, vx=(k*np.array(c['vx'])).tolist(),
                  vy=(k*np.array(c['vy'])).tolist(), i=p)
        cases.append(ci)
        fields.append(build(ci))
        tv.add_field(fields[-1], time=t, unit_times=c['ut'])
    sel = [i for i in range(len(cases)) if c['keep'][i]]
    cens = [center_of(ci) for ci in cases]
    if c['what'] == 'prop':
        refs = [ref_prop(ci, f) for ci, f in zip(cases, fields)]
    else:
        refs = [ref_radius(ci, f) for ci, f in zip(cases, fields)]
    if any(refs[i] is None for i in sel):
        rec.mark_trivial()
        return
    o = sel if c['order'] else sel[::-1]
    traj = Points([cens[i] for i in o], v=[c['times'][i] for i in o],
                  unit_x=c['u'], unit_y=c['u'], unit_v=c['ut'])
    times = [c['times'][i] for i in sel]
    if len(sel) < len(cases):
        rec.label('part of the times')
    if c['what'] == 'prop':
        r = vp.get_vortex_property_time_evolution(
            tv, traj, size_crit=c['size'] if c['size'] == 'value'
            else CRIT[c['size']], size_crit_lim=c['eps'],
            prop_crit=CRIT[c['prop']])
        k = float((r.unit_y/refs[sel[0]][1]).asNumber(1))
        close(r.x, times, 'times')
        close(np.array(r.y)*k, [refs[i][0] for i in sel], 'properties',
              scale=max(size_of(ci, f) for ci, f in zip(cases, fields)))
        same_unit(r.unit_x, make_unit(c['ut']), 'times')
        rec.label('properties')
        return
    res = vp.get_vortex_radius_time_evolution(
        tv, traj, eps_detection=c['eps'], output_center=c['what'] == 'center')
    r = res[0] if c['what'] == 'center' else res
    e = np.array([refs[i][0] for i in sel])
    close(r.x, times, 'times')
    check(np.array_equal(np.array(r.mask), e == 0), 'masked where no vortex')
    close(np.array(r.y)[e > 0], e[e > 0], 'radii')
    same_unit(r.unit_x, make_unit(c['ut']), 'times')
    same_unit(r.unit_y, make_unit(c['u']), 'radii')
    if c['what'] == 'center':
        p = res[1]
        exp = [refs[i][1] if refs[i][1] is not None else cens[i] for i in o]
        close(p.xy, exp, 'centers', atol=1e-8*(np.max(np.abs(c['x'])) +
                                               np.max(np.abs(c['y']))))
        close(p.v, [c['times'][i] for i in o], 'times of the centers')
        same_unit(p.unit_x, make_unit(c['u']), 'centers')
        same_unit(p.unit_y, make_unit(c['u']), 'centers')
        same_unit(p.unit_v, make_unit(c['ut']), 'times of the centers')
        rec.label('centers')


SUBS = [
    Sub('radius', radius_case(), radius, 'a value at the center and no value '
        'on the threshold', quick=300),
    Sub('property', prop_case(), prop, 'a value at the center and no value '
        'on the threshold', quick=300),
    Sub('circulation', flow(), circ, 'some vorticity and no value on the '
        'threshold', quick=300),
    Sub('series', series_case(), series, 'a value at each center', quick=200),
]
