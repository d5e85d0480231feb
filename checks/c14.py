"""C14: sets of point clouds over time, and mosaics of fields."""
import numpy as np
from hypothesis import strategies as st

from harness.core import (Sub, check, close, same_unit, fail, expect_raises)
from harness import gens as g
from checks.c06 import candidates, frac
from checks.c09 import ref_smooth
from checks.c10 import M, same_pts, cloud, build, model
from checks.c07 import filt
from IMTreatment import make_unit
from IMTreatment.core import (Points, TemporalPoints, SpatialScalarFields,
                              SpatialVectorFields, ScalarField, Profile)

ASSUMPTIONS = ['all clouds of a set have the units of the first one',
               'times of a set are distinct',
               'inside a cell the value read on a mosaic may come from either '
               'triangulation of the cell, in each field',
               'where fields of a mosaic overlap they have no masked point']


# ------------------------------------------------------------- TemporalPoints
@st.composite
def tpts_case(draw):
    v = draw(st.booleans())
    units = {'ux': draw(g.unit_len()), 'uy': draw(g.unit_len()),
             'uv': draw(g.unit_any())}
    used = set()
    ops = []
    for i in range(draw(st.integers(2, 8))):
        k = 'add' if i in (0, 1) else draw(st.sampled_from(
            ['add', 'add', 'add', 'remove', 'cropt', 'cropxy', 'scale',
             'scalet', 'unit', 'unitt', 'smooth', 'copy', 'bad']))
        op = {'k': k, 'i': draw(st.integers(0, 40)),
              'inplace': draw(st.booleans())}
        if k == 'add':
            c = draw(cloud(min_size=1, max_size=5, v=v, oriented=False))
            c.update(units)
            op['c'] = c
            t = draw(g.quarter(-9, 9).filter(lambda x: x not in used))
            used.add(t)
            op['t'] = t
            op['tu'] = draw(st.sampled_from(['s', 's', 'ms', 'min']))
        op['b'] = sorted([draw(g.quarter(-20, 20)), draw(g.quarter(-20, 20))])
        op['s'] = [draw(g.nonzero()) for _ in range(3)]
        op['w'] = draw(st.sampled_from(['x', 'y', 'v', 'xy', 'xyv', '']))
        ops.append(op)
    return {'v': v, 'ops': ops, 'u': draw(st.sampled_from(['s', 'ms', '']))}


def same_tpts(tp, mod, what):
    check(isinstance(tp, TemporalPoints), '{}: gave {!r}', what, type(tp))
    check(len(tp) == len(mod['t']), '{}: {} clouds instead of {}', what,
          len(tp), len(mod['t']))
    check(len(tp.times) == len(mod['t']), '{}: times {}', what, tp.times)
    close(tp.times, mod['t'], what + ': times')
    if not mod['t']:
        return
    same_unit(tp.unit_times, mod['ut'], what + ': time unit')
    same_unit(tp.unit_x, mod['p'][0].ux, what + ': x unit of the set')
    same_unit(tp.unit_y, mod['p'][0].uy, what + ': y unit of the set')
    for t, (gt, p), m in zip(mod['t'], tp, mod['p']):
        close(gt, t, what + ': time when iterating', scale=60*20.)
        same_pts(p, m, what + ': cloud at t={}'.format(t))


def cp(mod):
    return {'t': list(mod['t']), 'ut': mod['ut'],
            'p': [m.copy() for m in mod['p']]}


SEC = {'s': 1., 'ms': 1e-3, 'min': 60.}


def run_tpts(c, rec):
    tp = TemporalPoints()
    mod = {'t': [], 'ut': make_unit(''), 'p': []}
    others = []
    given = []
    for op in c['ops']:
        k = op['k']
        n = len(mod['t'])
        if k != 'add' and n == 0:
            continue
        rec.label(k)
        e = cp(mod)
        if k == 'add':
            tu = c['u'] if c['u'] == '' else op['tu']
            p, m = build(op['c']), model(op['c'])
            if n == 0:
                e['ut'] = make_unit(tu)
                t = op['t']
            else:
                m.ux, m.uy, m.uv = mod['p'][0].ux, mod['p'][0].uy, \
                    mod['p'][0].uv
                p.unit_x, p.unit_y, p.unit_v = m.ux, m.uy, m.uv
                try:
                    t = op['t']*float((make_unit(tu)/e['ut']).asNumber(1))
                except Exception:
                    # the time unit of the set was changed by a quantity
                    continue
            if any(abs(t - x) <= 1e-9*(abs(t) + abs(x)) for x in e['t']):
                continue
            how = op['i'] % 2
            tp.add_pts(p, time=float(op['t']),
                       unit_times=tu if how else make_unit(tu))
            given.append((p, m))
            j = int(np.searchsorted(e['t'], t))
            e['t'].insert(j, t)
            e['p'].insert(j, m.copy())
        elif k == 'remove':
            ind = sorted({op['i'] % n, (op['i']//3) % n})
            neg = [i - n if (op['i']//5) % 2 else i for i in ind]
            if op['inplace']:
                ind = ind[:1]
                tp.remove_pts(neg[0])
            else:
                tp.remove_pts(neg)
            e['t'] = [t for i, t in enumerate(e['t']) if i not in ind]
            e['p'] = [t for i, t in enumerate(e['p']) if i not in ind]
        elif k == 'cropt':
            if op['w'] in ('x', 'v'):
                i, j = sorted([op['i'] % n, (op['i']//2) % n])
                kw = dict(intervt=[i, j], ind=True)
                keep = list(range(i, j + 1))
            else:
                lo, hi = op['b']
                if op['w'] == 'xy':
                    lo = e['t'][op['i'] % n]
                    hi = max(lo, hi)
                elif op['w'] == 'y':
                    hi = e['t'][op['i'] % n]
                    lo = min(lo, hi)
                lo, hi = float(lo), float(hi)
                if hi < e['t'][0] or lo > e['t'][-1]:
                    expect_raises(lambda: tp.crop(intervt=[lo, hi]),
                                  'crop out of the times')
                    continue
                # only ask for bounds that rounding cannot move
                if any(t != b and abs(t - b) <= 1e-9*abs(b)
                       for t in e['t'] for b in (lo, hi)) or \
                        (op['w'] in ('xy', 'y') and
                         not np.array_equal(tp.times, e['t'])):
                    continue
                kw = dict(intervt=[lo, hi])
                keep = [i for i, t in enumerate(e['t']) if lo <= t <= hi]
            q = tp.crop(inplace=op['inplace'], **kw)
            if not op['inplace']:
                others.append((tp, mod))
                tp = q
            e['t'] = [e['t'][i] for i in keep]
            e['p'] = [e['p'][i] for i in keep]
        elif k == 'cropxy':
            kw = {}
            keep = [np.ones(len(m.xy), bool) for m in e['p']]
            edge = False
            for key in op['w']:
                if key == 'v' and not c['v']:
                    continue
                kw['interv' + key] = [float(b) for b in op['b']]
                for i, m in enumerate(e['p']):
                    a = m.v if key == 'v' else m.xy[:, 'xy'.index(key)]
                    keep[i] &= (a >= op['b'][0]) & (a <= op['b'][1])
                    for b in op['b']:
                        edge |= bool(np.any((a != b) & (np.abs(a - b) <=
                                                        1e-9*abs(b))))
            if edge:
                continue
            q = tp.crop(inplace=op['inplace'], **kw)
            if not op['inplace']:
                others.append((tp, mod))
                tp = q
            e['p'] = [m.take(np.where(kk)[0]) for m, kk in zip(e['p'], keep)]
        elif k in ('scale', 'scalet'):
            kw = {}
            if k == 'scalet':
                s = float(op['s'][0])
                if op['w'] in ('xy', 'y'):
                    kw['scalet'] = s*make_unit('m')
                    e['ut'] = e['ut']*make_unit('m')
                else:
                    kw['scalet'] = s
                e['t'] = [t*s for t in e['t']]
                if s < 0:
                    e['t'] = e['t'][::-1]
                    e['p'] = e['p'][::-1]
            else:
                for key, s in zip('xyv', op['s']):
                    if key not in op['w'] or (key == 'v' and not c['v']):
                        continue
                    quantity = op['i'] % 3 == 1
                    kw['scale' + key] = s*make_unit('kg') if quantity else \
                        float(s)
                    for m in e['p']:
                        if key == 'v':
                            m.v = m.v*s
                        else:
                            m.xy[:, 'xy'.index(key)] *= s
                        if quantity:
                            setattr(m, 'u' + key, getattr(m, 'u' + key) *
                                    make_unit('kg'))
            q = tp.scale(inplace=op['inplace'], **kw)
            if not op['inplace']:
                others.append((tp, mod))
                tp = q
        elif k == 'unit':
            for key in op['w'][:1]:
                if key == 'v' and not c['v']:
                    continue
                old = getattr(e['p'][0], 'u' + key)
                new = [old*1000, old/10.][op['i'] % 2]
                new = new/new.asNumber()
                # units of the same dimension
                for nm in ('mm', 'km', 'm', 'cm', 'ms', 's', 'min', 'mm/s',
                           'g', 'bar'):
                    try:
                        (old/make_unit(nm)).asNumber(1)
                    except Exception:
                        continue
                    new = make_unit(nm)
                    break
                f = float((old/new).asNumber(1))
                tp.change_unit({'v': 'values'}.get(key, key), new)
                for m in e['p']:
                    if key == 'v':
                        m.v = m.v*f
                    else:
                        m.xy[:, 'xy'.index(key)] *= f
                    setattr(m, 'u' + key, new)
        elif k == 'unitt':
            new = make_unit(['s', 'ms', 'min', 'h'][op['i'] % 4])
            try:
                f = float((e['ut']/new).asNumber(1))
            except Exception:
                continue
            tp.change_unit('time', new)
            e['t'] = [t*f for t in e['t']]
            e['ut'] = new
        elif k == 'smooth':
            tos = ['gaussian', 'uniform'][op['i'] % 2]
            size = [None, 2, 3][op['i'] % 3]
            q = tp.smooth(tos=tos, size=size, inplace=op['inplace'])
            if not op['inplace']:
                others.append((tp, mod))
                tp = q
            size = size or {'uniform': 3, 'gaussian': 1}[tos]
            for m in e['p']:
                if not len(m.xy):
                    continue
                m.xy = np.array([ref_smooth(m.xy[:, 0], tos, size),
                                 ref_smooth(m.xy[:, 1], tos, size)]).T
                if c['v']:
                    m.v = ref_smooth(m.v, tos, size)
        elif k == 'copy':
            others.append((tp, mod))
            tp = tp.copy()
        elif k == 'bad':
            expect_raises(lambda: tp.add_pts([[1., 2.]], time=1000.),
                          'adding a list of points')
            expect_raises(lambda: setattr(tp, 'times', [1.]*(n + 1)),
                          'wrong number of times')
            expect_raises(lambda: tp.change_unit('nothing', make_unit('m')),
                          'unknown axis')
        mod = e
        same_tpts(tp, mod, k)
    if len(mod['t']) < 2:
        rec.mark_trivial()
    for o, m in others:
        same_tpts(o, m, 'set an operation started from')
    for p, m in given:
        same_pts(p, m, 'cloud given to the set')
        p.xy[...] = 77.
    same_tpts(tp, mod, 'set after a change of the given clouds')


# -------------------------------------------------------------------- mosaics
@st.composite
def mosaic_case(draw, vector):
    mk = g.vf_case if vector else g.sf_case
    n = draw(st.integers(1, 4))
    uxy = [draw(st.sampled_from(['m', 'mm'])) for _ in range(2)]
    uv = draw(st.sampled_from([['m/s', 'mm/s'], ['m', 'mm'], ['kg', 'g'],
                               ['']]))
    masks = draw(st.booleans())
    fields = []
    for i in range(n):
        f = draw(mk(2, 4, masks=masks, scales=False,
                    kinds=('few', 'border', 'none'),
                    unit_xy=st.just('m'), unit_v=st.just(uv[0])))
        if fields and draw(st.integers(0, 3)):
            # over the corner of the first field
            for a in ('x', 'y'):
                sh = fields[0][a][0] - f[a][0] + \
                    draw(st.sampled_from([0, 0, .25, .5]))
                f[a] = [x + sh for x in f[a]]
        sh = draw(st.sampled_from([0, 0, 0, 10]))
        f['x'] = [x + sh for x in f['x']]
        f['u'] = [draw(st.booleans()) for _ in range(3)]
        fields.append(f)
    ops = []
    return {'f': fields, 'uxy': uxy, 'uv': uv, 'masks': masks,
            'how': draw(st.sampled_from(
                ['read', 'read', 'read', 'grid', 'grid', 'profile', 'profile',
                 'profile', 'mul', 'div', 'pow', 'neg', 'scale', 'origin',
                 'smooth', 'rotate', 'remove', 'bad'])),
            'a': draw(g.nonzero()), 'i': draw(st.integers(0, 60)),
            'q': [[draw(st.integers(0, 3)), draw(st.integers(0, 3)),
                   draw(st.sampled_from([0, 0, .25, .5, .75])),
                   draw(st.integers(0, 3)),
                   draw(st.sampled_from([0, 0, .25, .5, .75]))]
                  for _ in range(4)],
            'inplace': draw(st.booleans())}


def crop_border(m):
    """Without the entirely masked lines of the border."""
    ok = ~m.mask
    ix = np.where(ok.any(axis=1))[0]
    iy = np.where(ok.any(axis=0))[0]
    sx, sy = slice(ix[0], ix[-1] + 1), slice(iy[0], iy[-1] + 1)
    return g.G(m.x[sx], m.y[sy], [cc[sx, sy] for cc in m.comps],
               m.mask[sx, sy], m.ux, m.uy, m.uv)


def make_mosaic(c, vector):
    s = SpatialVectorFields() if vector else SpatialScalarFields()
    check(len(s) == 0, 'new mosaic with {} fields', len(s))
    given, mods = [], []
    for fc in c['f']:
        f = (g.build_vf if vector else g.build_sf)(fc)
        # the same field, given in other units
        for axe, u, alt in zip(('x', 'y', 'values'), fc['u'],
                               ('mm', 'cm', c['uv'][-1])):
            if u and (axe != 'values' or c['uv'][0]):
                f.change_unit(axe, alt)
        m = g.G.of_field(f)
        s.add_field(f)
        given.append((f, m))
        m = crop_border(m)
        mods.append(m)
    ref = mods[0]
    out = []
    for m in mods:
        kx, ky, kv = [float((a/b).asNumber(1)) for a, b in
                      ((m.ux, ref.ux), (m.uy, ref.uy), (m.uv, ref.uv))]
        out.append(g.G(m.x*kx, m.y*ky, [cc*kv for cc in m.comps], m.mask,
                       ref.ux, ref.uy, ref.uv))
    return s, given, out


def same_mosaic(s, mods, what, physics=False):
    check(len(s) == len(mods), '{}: {} fields instead of {}', what, len(s),
          len(mods))
    check(len(s.fields) == len(mods), '{}: fields', what)
    for i, m in enumerate(mods):
        (g.same_physics if physics else g.same_field)(
            s.fields[i], m, '{}: field {}'.format(what, i))
    if physics:
        return
    same_unit(s.unit_x, mods[0].ux, what + ': x unit')
    same_unit(s.unit_y, mods[0].uy, what + ': y unit')
    same_unit(s.unit_values, mods[0].uv, what + ': values unit')


def read_mosaic(mods, x, y):
    """None out of the fields, else per component the list of acceptable
    values, or 'masked', or 'mixed' when masked in some fields only."""
    inside = [m for m in mods if m.x[0] <= x <= m.x[-1] and
              m.y[0] <= y <= m.y[-1]]
    if not inside:
        return None
    res = []
    for k in range(len(mods[0].comps)):
        cands = []
        for m in inside:
            (i, fx), (j, fy) = frac(m.x, x), frac(m.y, y)
            cands.append(candidates(m, k, i, fx, j, fy))
        if all(cd is None for cd in cands):
            res.append('masked')
        elif any(cd is None for cd in cands):
            res.append('mixed')
        else:
            tot = [0.]
            for cd in cands:
                tot = [t + v for t in tot for v in cd]
            res.append([t/len(cands) for t in tot])
    return res


def near(x, ends):
    return any(x != e and abs(x - e) <= 1e-9*(abs(x) + abs(e)) for e in ends)


def positions(c, mods):
    out = []
    for f, i, fx, j, fy in c['q']:
        m = mods[f % len(mods)]
        i, j = i % len(m.x), j % len(m.y)
        x = m.x[i] if i == len(m.x) - 1 or not fx else \
            m.x[i] + fx*(m.x[i + 1] - m.x[i])
        y = m.y[j] if j == len(m.y) - 1 or not fy else \
            m.y[j] + fy*(m.y[j + 1] - m.y[j])
        out.append((float(x), float(y)))
    return out


def check_read(got, exp, mods, what):
    for k, (r, e) in enumerate(zip(got, exp)):
        if e == 'mixed':
            continue
        if e == 'masked':
            check(np.isnan(r), '{}: {} next to a masked point', what, r)
            continue
        sc = max([np.nanmax(np.abs(m.comps[k])) for m in mods])
        check(any(abs(r - v) <= 1e-9*sc + 1e-9*abs(v) for v in e),
              '{}: {} instead of {}', what, r, e)


def run_mosaic(vector):
    def run(c, rec):
        s, given, mods = make_mosaic(c, vector)
        how = c['how']
        rec.label(how)
        if len(mods) == 1:
            rec.label('single')
        cl = SpatialVectorFields if vector else SpatialScalarFields
        same_mosaic(s, mods, 'mosaic')
        for i, f in enumerate(s):
            g.same_field(f, mods[i], 'iteration')
        for nm, a in (('x_min', min(m.x[0] for m in mods)),
                      ('x_max', max(m.x[-1] for m in mods)),
                      ('y_min', min(m.y[0] for m in mods)),
                      ('y_max', max(m.y[-1] for m in mods))):
            close(getattr(s, nm), a, nm)
        # axis values of converted fields are only known up to rounding:
        # read at the coordinates the library has
        lib = []
        for f, m in zip(s.fields, mods):
            m2 = m.copy()
            m2.x, m2.y = np.array(f.axe_x), np.array(f.axe_y)
            lib.append(m2)
        endx = [e for m in lib for e in m.x]
        endy = [e for m in lib for e in m.y]
        if any(min(len(m.x), len(m.y)) < 2 for m in lib):
            rec.mark_trivial()
            return
        views = [('mask_as_sf', lambda m: m.mask.astype(float))]
        if vector:
            views += [('Vx_as_sf', lambda m: m.comps[0]),
                      ('Vy_as_sf', lambda m: m.comps[1]),
                      ('magnitude_as_sf', lambda m: np.hypot(*m.comps))]
        else:
            views += [('values_as_sf', lambda m: m.comps[0])]
        for nm, fct in views:
            got = getattr(s, nm)
            check(len(got) == len(mods), '{}: {} fields', nm, len(got))
            for v, m in zip(got, mods):
                vals = np.array(v.values, dtype=float)
                if nm != 'mask_as_sf':
                    vals[m.mask] = np.nan
                close(vals, fct(m), nm, rtol=1e-9)
        if how == 'read':
            d = max(endx) - min(endx) + 1
            for x, y in positions(c, lib) + [(max(endx) + d, min(endy))]:
                if near(x, endx) or near(y, endy):
                    continue
                e = read_mosaic(lib, x, y)
                if e is None:
                    expect_raises(lambda: s.get_value(x, y),
                                  'reading out of the fields', ValueError)
                    check(s.get_value(x, y, error=False) is None,
                          'reading out of the fields')
                    continue
                r = s.get_value(x, y)
                check_read(r if vector else [r], e, lib, 'get_value')
                if len([1 for m in lib if m.x[0] <= x <= m.x[-1] and
                        m.y[0] <= y <= m.y[-1]]) > 1:
                    rec.label('overlap')
                if len([1 for m in lib if m.x[0] <= x <= m.x[-1] and
                        m.y[0] <= y <= m.y[-1]]) > 2:
                    rec.label('overlap of three')
        elif how == 'grid':
            pos = positions(c, lib)
            gx = sorted({x for x, y in pos})
            gy = sorted({y for x, y in pos})
            if len(gx) < 2 or len(gy) < 2 or \
                    any(near(x, endx) or near(x, gx) for x in gx) or \
                    any(near(y, endy) or near(y, gy) for y in gy):
                rec.mark_trivial()
                return
            r = s.get_values_on_grid(np.array(gx), np.array(gy))
            close(r.axe_x, gx, 'grid: x')
            close(r.axe_y, gy, 'grid: y')
            same_unit(r.unit_x, mods[0].ux, 'grid: x unit')
            same_unit(r.unit_y, mods[0].uy, 'grid: y unit')
            same_unit(r.unit_values, mods[0].uv, 'grid: values unit')
            for i, x in enumerate(gx):
                for j, y in enumerate(gy):
                    e = read_mosaic(lib, x, y)
                    if e is None or e[0] == 'masked':
                        check(bool(r.mask[i, j]), 'grid: value out of the '
                              'fields at {}', (x, y))
                        rec.label('uncovered')
                        continue
                    if e[0] == 'mixed':
                        continue
                    check(not r.mask[i, j], 'grid: masked at {}', (x, y))
                    got = [r.comp_x[i, j], r.comp_y[i, j]] if vector else \
                        [r.values[i, j]]
                    check_read(got, e, lib, 'grid value')
        elif how == 'profile':
            run_profile(c, s, lib, vector, rec, endx, endy)
        elif how in ('mul', 'div'):
            a = c['a']
            q = [float(a), a*make_unit('kg')][c['i'] % 2]
            ku = make_unit('kg') if c['i'] % 2 else make_unit('')
            exp = []
            for m in mods:
                m2 = m.copy()
                f = a if how == 'mul' else 1./a
                m2.comps = [cc*f for cc in m.comps]
                m2.uv = m.uv*ku if how == 'mul' else m.uv/ku
                exp.append(m2)
            r = (s/q) if how == 'div' else (q*s if c['i'] % 3 == 0 and
                                            not c['i'] % 2 else s*q)
            check(isinstance(r, cl), '{} gave {!r}', how, r)
            same_mosaic(r, exp, how, physics=True)
            expect_raises(lambda: s*'a', 'product with a string')
        elif how == 'pow':
            if vector:
                rec.mark_trivial()
                return
            exp = []
            for m in mods:
                m2 = m.copy()
                m2.comps = [cc**2 for cc in m.comps]
                m2.uv = m.uv**2
                exp.append(m2)
            same_mosaic(s**2, exp, how, physics=True)
        elif how == 'neg':
            exp = []
            for m in mods:
                m2 = m.copy()
                m2.comps = [-cc for cc in m.comps]
                exp.append(m2)
            same_mosaic(-s, exp, how)
        elif how in ('scale', 'origin', 'smooth'):
            exp = []
            a = float(c['a'])
            for m in mods:
                m2 = m.copy()
                if how == 'scale':
                    m2.x = m.x*abs(a)
                    m2.y = m.y*2
                    m2.comps = [cc*a for cc in m.comps]
                elif how == 'origin':
                    m2.x = m.x - a
                    if c['i'] % 2:
                        m2.y = m.y - 2*a
                else:
                    if m.mask.any():
                        rec.mark_trivial()
                        return
                    m2.comps = [filt(cc, 'uniform', 3) for cc in m.comps]
                exp.append(m2)
            t = s.copy()
            if how == 'origin':
                t.set_origin(x=a, y=2*a if c['i'] % 2 else None)
                r = t
            else:
                f = (lambda o, ip: o.scale(scalex=abs(a), scaley=2.,
                                           scalev=a, inplace=ip)) \
                    if how == 'scale' else \
                    (lambda o, ip: o.smooth(tos='uniform', size=3,
                                            inplace=ip))
                if c['inplace']:
                    f(t, True)
                    r = t
                else:
                    r = f(t, False)
                    same_mosaic(t, mods, 'mosaic after ' + how)
            same_mosaic(r, exp, how)
        elif how == 'rotate':
            turns = c['i'] % 5 - 1
            exp = []
            for m in mods:
                m2 = m.copy()
                for _ in range(turns % 4):
                    m2.x, m2.y = -np.array(m2.y)[::-1], np.array(m2.x)
                    m2.comps = [cc.T[::-1, :] for cc in m2.comps]
                    m2.mask = m2.mask.T[::-1, :]
                    m2.ux, m2.uy = m2.uy, m2.ux
                    if vector:
                        m2.comps = [-m2.comps[1], m2.comps[0]]
                exp.append(m2)
            t = s.copy()
            r = t.rotate(90*turns, inplace=c['inplace'])
            if c['inplace']:
                r = t
            else:
                same_mosaic(t, mods, 'mosaic after rotate')
            same_mosaic(r, exp, how)
            same_unit(r.unit_x, exp[0].ux, 'x unit of the rotated mosaic')
            same_unit(r.unit_y, exp[0].uy, 'y unit of the rotated mosaic')
            expect_raises(lambda: s.rotate(45), 'rotation of 45 degrees')
        elif how == 'remove':
            k = c['i'] % len(mods)
            t = s.copy()
            t.remove_field(k)
            same = [m for i, m in enumerate(mods) if i != k]
            check(len(t) == len(same), 'remove: {} fields left', len(t))
            for f, m in zip(t.fields, same):
                g.same_field(f, m, 'remaining field')
        elif how == 'bad':
            o = (g.build_sf if vector else g.build_vf)(
                {'x': [0., 1.], 'y': [0., 1.], 'v': [[0, 1], [2, 3]],
                 'vx': [[0, 1], [2, 3]], 'vy': [[0, 1], [2, 3]], 'm': None,
                 'ux': 'm', 'uy': 'm', 'uv': 'm'})
            expect_raises(lambda: s.add_field(o), 'field of another type',
                          TypeError)
            o = given[0][0].copy()
            o.unit_x = 'kg'
            expect_raises(lambda: s.add_field(o), 'field of another dimension')
        same_mosaic(s, mods, 'mosaic after ' + how)
        for f, m in given:
            g.same_field(f, m, 'field given to the mosaic', rtol=0)
    return run


def run_profile(c, s, lib, vector, rec, endx, endy):
    x, y = positions(c, lib)[0]
    d = 1 + c['i'] % 2
    pos = x if d == 1 else y
    if near(pos, endx if d == 1 else endy):
        rec.mark_trivial()
        return
    comp = [None, 'Vx', 'Vy', 'magnitude'][c['i'] % 4] if vector else \
        [None, 'values'][c['i'] % 2]
    r = s.get_profile(d, pos, component=comp)
    pts = []
    n = 0
    for m in lib:
        ax, other = (m.x, m.y) if d == 1 else (m.y, m.x)
        if not ax[0] <= pos <= ax[-1]:
            continue
        n += 1
        m2 = m.copy()
        if vector:
            m2.comps = [{'Vx': m.comps[0], 'Vy': m.comps[1]}.get(
                comp, np.hypot(*m.comps))]
        i, f = frac(ax, pos)
        for j, o in enumerate(other):
            cd = candidates(m2, 0, i, f, j, 0.) if d == 1 else \
                candidates(m2, 0, j, 0., i, f)
            pts.append((float(o), None if cd is None else cd[0]))
    check(isinstance(r, Profile), 'get_profile gave {!r}', r)
    rec.label('over {} fields'.format(n))
    same_unit(r.unit_x, lib[0].uy if d == 1 else lib[0].ux,
              'profile: x unit')
    same_unit(r.unit_y, lib[0].uv, 'profile: y unit')
    check(len(r.x) == len(pts), 'profile with {} points instead of {}',
          len(r.x), len(pts))
    check(np.all(np.diff(r.x) >= 0), 'profile: x not ascending')
    sc = max([np.nanmax(np.abs(cc)) for m in lib for cc in m.comps])
    left = list(pts)
    for xx, yy, mk in zip(r.x, r.y, r.mask):
        for k, (ex, ey) in enumerate(left):
            if ex == xx and ((ey is None and mk) or (
                    ey is not None and not mk and
                    abs(ey - yy) <= 1e-9*sc + 1e-9*abs(ey))):
                del left[k]
                break
        else:
            fail('profile: point {} (masked {}) is not one of {}',
                 (xx, yy), mk, pts)
    out = float(max(endx) + 5) if d == 1 else float(max(endy) + 5)
    check(s.get_profile(d, out, component=comp) is None,
          'profile out of the fields')
    if vector:
        expect_raises(lambda: s.get_profile(d, pos, component='nothing'),
                      'unknown component')


SUBS = [
    Sub('point sets', tpts_case(), run_tpts,
        'the set ends with at least two clouds', 500),
    Sub('scalar mosaic', mosaic_case(False), run_mosaic(False),
        'the operation applies to the drawn fields', 500),
    Sub('vector mosaic', mosaic_case(True), run_mosaic(True),
        'the operation applies to the drawn fields', 500),
]
