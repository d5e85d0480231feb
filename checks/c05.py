"""C05: cropping, extending, rotating, moving the origin, mirroring and border
cropping keep every datum with its (transformed) coordinate."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, check, close, expect_raises, fail, same_bool
from harness import gens as g

ASSUMPTIONS = ['mirroring is checked on evenly spaced axes with the symmetry '
               'plane on a node or half way between two nodes, and fields '
               'without masked points on the border rows',
               'hard border cropping of one field may leave nothing (the '
               'repository tests expect it)']


def gmap(gg):
    """{(x, y): (comps..., ) or None}"""
    out = {}
    for i, x in enumerate(gg.x):
        for j, y in enumerate(gg.y):
            out[(x, y)] = None if gg.mask[i, j] else tuple(
                c[i, j] for c in gg.comps)
    return out


def sub_g(gg, ix, iy):
    ixs = np.ix_(ix, iy)
    return g.G(gg.x[ix], gg.y[iy], [c[ixs] for c in gg.comps], gg.mask[ixs],
               gg.ux, gg.uy, gg.uv)


class Obj(object):
    """One field or a temporal set of them, seen as a list of grid models."""

    def __init__(self, kind, c):
        self.kind = kind
        self.vector = kind in ('vf', 'tvf')
        self.temporal = kind in ('tsf', 'tvf')
        if self.temporal:
            self.o = g.build_temporal(c, self.vector)
            self.times = list(c['times'])
            self.models = [g.G.of_case(fc) for fc in g.frame_cases(c)]
        else:
            self.o = (g.build_vf if self.vector else g.build_sf)(c)
            self.models = [g.G.of_case(c)]

    def same(self, o, models, what, rtol=1e-9, times=None):
        if not self.temporal:
            g.same_field(o, models[0], what, rtol=rtol, joint=True)
            return
        check(type(o) is type(self.o), '{}: got {!r}', what, type(o))
        check(len(o.fields) == len(models), '{}: {} fields instead of {}',
              what, len(o.fields), len(models))
        close(o.times, self.times if times is None else times,
              what + ': times', rtol=0)
        close(o.axe_x, models[0].x, what + ': x axis of the set', rtol=1e-12)
        close(o.axe_y, models[0].y, what + ': y axis of the set', rtol=1e-12)
        from harness.core import same_unit
        same_unit(o.unit_x, models[0].ux, what + ': unit_x of the set')
        same_unit(o.unit_y, models[0].uy, what + ': unit_y of the set')
        for i, (f, m) in enumerate(zip(o.fields, models)):
            g.same_field(f, m, '%s: field %d' % (what, i), rtol=rtol,
                         joint=True)

    def apply(self, meth, inplace, *a, **k):
        """Call a method and return the result; checks the inplace contract."""
        if inplace:
            res = getattr(self.o, meth)(*a, inplace=True, **k)
            check(res is None, '{}(inplace=True) returned {!r}', meth,
                  type(res))
            return self.o
        res = getattr(self.o, meth)(*a, inplace=False, **k)
        check(res is not self.o, '{}(inplace=False) returned the object '
              'itself', meth)
        self.same(self.o, self.models, 'object after %s(inplace=False)' % meth,
                  rtol=0)
        return res


def base(kind, **kw):
    if kind == 'sf':
        return g.sf_case(max_size=6, **kw)
    if kind == 'vf':
        return g.vf_case(max_size=6, **kw)
    return g.temporal_case(kind == 'tvf', max_n=3, max_size=5, **kw)


# --------------------------------------------------------------------- crop
def bound(draw, ax):
    """A number near the axis: on a node, between nodes or outside."""
    kind = draw(st.sampled_from(['node', 'node', 'mid', 'out']))
    i = draw(st.integers(0, len(ax) - 1))
    if kind == 'node':
        return ax[i]
    if kind == 'mid' and i + 1 < len(ax):
        return ax[i] + (ax[i + 1] - ax[i])*draw(st.sampled_from([.25, .5, .9]))
    d = abs(ax[-1] - ax[0])
    return ax[0] - d*.3 if draw(st.booleans()) else ax[-1] + d*.3


@st.composite
def crop_case(draw, kind):
    c = draw(base(kind))
    ind = draw(st.booleans())
    iv = {}
    for n in 'xy':
        if draw(st.integers(0, 3)) == 0:
            iv[n] = None
        elif ind:
            a = draw(st.integers(0, len(c[n]) - 1))
            b = draw(st.integers(a, len(c[n]) - 1))
            iv[n] = [a, b]
        else:
            iv[n] = sorted([bound(draw, c[n]), bound(draw, c[n])])
    return {'o': c, 'ind': ind, 'ivx': iv['x'], 'ivy': iv['y'],
            'inplace': draw(st.booleans()),
            'form': draw(st.sampled_from(['list', 'tuple', 'array']))}


def run_crop(kind, c, rec):
    o = Obj(kind, c['o'])
    m = o.models[0]
    keep = []
    for iv, ax in ((c['ivx'], m.x), (c['ivy'], m.y)):
        if iv is None:
            keep.append(list(range(len(ax))))
        elif c['ind']:
            keep.append([i for i in range(len(ax)) if iv[0] <= i <= iv[1]])
        else:
            keep.append([i for i, a in enumerate(ax) if iv[0] <= a <= iv[1]])
    kw = {'ind': c['ind']}
    for n in ('ivx', 'ivy'):
        if c[n] is not None:
            kw['interv' + n[2]] = {'list': list, 'tuple': tuple,
                                   'array': np.array}[c['form']](c[n])
    if not keep[0] or not keep[1]:
        rec.label('empty window')
        expect_raises(lambda: o.o.crop(inplace=False, **kw),
                      'crop to a window without any point')
        return
    if len(keep[0]) == len(m.x) and len(keep[1]) == len(m.y):
        rec.mark_trivial()
    rec.label('ind' if c['ind'] else 'coordinates',
              'inplace' if c['inplace'] else 'copy')
    res = o.apply('crop', c['inplace'], **kw)
    exp = [sub_g(mm, keep[0], keep[1]) for mm in o.models]
    o.same(res, exp, 'crop', rtol=0)
    if not c['inplace']:
        # the copy is independent
        fs = res.fields if o.temporal else [res]
        for f in fs:
            f.axe_x[...] = 77.
            f.mask[...] = True
            if o.vector:
                f.comp_x[...] = 99.
                f.comp_y[...] = 99.
            else:
                f.values[...] = 99.
        o.same(o.o, o.models, 'object after changing its cropped copy', rtol=0)


# ------------------------------------------------------------------- extend
@st.composite
def extend_case(draw, kind):
    c = draw(base(kind))
    n = {k: draw(st.integers(0, 3)) for k in ('left', 'right', 'up', 'down')}
    out = {'o': c, 'n': n, 'inplace': draw(st.booleans()), 'value': None,
           'dist': False}
    if kind == 'sf':
        if draw(st.booleans()):
            out['value'] = draw(g.quarter())
        out['dist'] = draw(st.booleans())
    return out


def run_extend(kind, c, rec):
    o = Obj(kind, c['o'])
    n = c['n']
    if not any(n.values()):
        rec.mark_trivial()
    exp = []
    for m in o.models:
        x = np.concatenate((m.x[0] - (m.x[1] - m.x[0])*np.arange(n['left'], 0, -1),
                            m.x, m.x[-1] + (m.x[-1] - m.x[-2])
                            * np.arange(1, n['right'] + 1)))
        y = np.concatenate((m.y[0] - (m.y[1] - m.y[0])*np.arange(n['down'], 0, -1),
                            m.y, m.y[-1] + (m.y[-1] - m.y[-2])
                            * np.arange(1, n['up'] + 1)))
        shape = (len(x), len(y))
        mask = np.full(shape, c['value'] is None)
        sl = (slice(n['left'], n['left'] + len(m.x)),
              slice(n['down'], n['down'] + len(m.y)))
        mask[sl] = m.mask
        comps = []
        for cc in m.comps:
            v = np.full(shape, 0. if c['value'] is None else c['value'])
            v[sl] = cc
            comps.append(v)
        exp.append(g.G(x, y, comps, mask, m.ux, m.uy, m.uv))
    kw = {'nmb_' + k: v for k, v in n.items()}
    if c['value'] is not None:
        kw['value'] = c['value']
    if c['dist']:
        dx = o.models[0].x[1] - o.models[0].x[0]
        dy = o.models[0].y[1] - o.models[0].y[0]
        kw['ind'] = False
        for k, d in (('left', dx), ('right', dx), ('up', dy), ('down', dy)):
            kw['nmb_' + k] = max(0., (n[k] - .5)*d)
    res = o.apply('extend', c['inplace'], **kw)
    o.same(res, exp, 'extend', rtol=1e-9)


# ------------------------------------------------------------------- rotate
@st.composite
def rotate_case(draw, kind):
    return {'o': draw(base(kind)),
            'angles': draw(st.lists(st.sampled_from(
                [0, 90, 180, 270, 360, -90, -180, -270, -450, 450, 720, 90.]),
                min_size=1, max_size=3)),
            'inplace': draw(st.booleans())}


def rotate_g(m, angle):
    k = int(round(angle/90.)) % 4
    for _ in range(k):
        # (x, y) -> (-y, x); (vx, vy) -> (-vy, vx)
        x = -m.y[::-1]
        y = m.x
        comps = [c.T[::-1, :] for c in m.comps]
        if len(comps) == 2:
            comps = [-comps[1], comps[0]]
        m = g.G(x, y, comps, m.mask.T[::-1, :], m.uy, m.ux, m.uv)
    return m


def run_rotate(kind, c, rec):
    o = Obj(kind, c['o'])
    models = o.models
    if all(a % 360 == 0 for a in c['angles']):
        rec.mark_trivial()
    cur = o
    for a in c['angles']:
        res = cur.apply('rotate', c['inplace'], a)
        models = [rotate_g(m, a) for m in models]
        o.same(res, models, 'rotate(%s)' % a, rtol=1e-9)
        nxt = Obj.__new__(Obj)
        nxt.__dict__.update(o.__dict__)
        nxt.o, nxt.models = res, [g.G.of_field(f) for f in (
            res.fields if o.temporal else [res])]
        cur = nxt
    expect_raises(lambda: cur.o.rotate(45, inplace=False), 'rotation of 45')


# --------------------------------------------------------------- set_origin
@st.composite
def origin_case(draw, kind):
    return {'o': draw(base(kind)),
            'x': draw(st.one_of(st.none(), g.quarter(-9, 9))),
            'y': draw(st.one_of(st.none(), g.quarter(-9, 9)))}


def run_origin(kind, c, rec):
    o = Obj(kind, c['o'])
    if not c['x'] and not c['y']:
        rec.mark_trivial()
    o.o.set_origin(c['x'], c['y'])
    exp = []
    for m in o.models:
        m = m.copy()
        m.x = m.x - (c['x'] or 0.)
        m.y = m.y - (c['y'] or 0.)
        exp.append(m)
    o.same(o.o, exp, 'set_origin')


# ------------------------------------------------------- crop_masked_border
@st.composite
def border_case(draw, kind):
    kw = {}
    if kind in ('sf', 'vf'):
        kw['kinds'] = ('none', 'few', 'half', 'border', 'border')
    c = draw(base(kind, **kw))
    # common masked frame, so that the border really has something to lose
    if draw(st.booleans()):
        nx, ny = len(c['x']), len(c['y'])
        cut = [draw(st.integers(0, 2)) for _ in range(4)]
        i0, i1 = min(cut[0], nx - 1), max(min(cut[0], nx - 1) + 1, nx - cut[1])
        j0, j1 = min(cut[2], ny - 1), max(min(cut[2], ny - 1) + 1, ny - cut[3])
        for fr in (c['frames'] if 'frames' in c else [c]):
            m = [[0 if fr['m'] is None else fr['m'][i][j] for j in range(ny)]
                 for i in range(nx)]
            for i in range(nx):
                for j in range(ny):
                    if not (i0 <= i < i1 and j0 <= j < j1):
                        m[i][j] = 1
            if all(all(r) for r in m):
                m[i0][j0] = 0
            fr['m'] = m
    return {'o': c, 'hard': draw(st.booleans()), 'inplace': draw(st.booleans())}


def run_border(kind, c, rec):
    o = Obj(kind, c['o'])
    m = o.models[0]
    cum = np.all([mm.mask for mm in o.models], axis=0)
    res = o.apply('crop_masked_border', c['inplace'], hard=c['hard'])
    check(res is not None, 'crop_masked_border returned nothing')
    rec.label('hard' if c['hard'] else 'soft')
    if not cum.any():
        rec.mark_trivial()
        o.same(res, o.models, 'crop_masked_border of unmasked data', rtol=0)
        return
    if not c['hard']:
        ix = np.where(~cum.all(axis=1))[0]
        iy = np.where(~cum.all(axis=0))[0]
        ix = list(range(ix[0], ix[-1] + 1))
        iy = list(range(iy[0], iy[-1] + 1))
        o.same(res, [sub_g(mm, ix, iy) for mm in o.models],
               'crop_masked_border', rtol=0)
        return
    if len(res.axe_x) == 0 or len(res.axe_y) == 0:
        if o.temporal:
            fail('hard border cropping left nothing')
        rec.label('emptied')
        rec.mark_trivial()
        return
    # a sub-window of the data
    i0 = int(np.argmin(np.abs(m.x - res.axe_x[0])))
    j0 = int(np.argmin(np.abs(m.y - res.axe_y[0])))
    ix = list(range(i0, i0 + len(res.axe_x)))
    iy = list(range(j0, j0 + len(res.axe_y)))
    check(ix[-1] < len(m.x) and iy[-1] < len(m.y),
          'hard border cropping gave axes {} {}', res.axe_x.tolist(),
          res.axe_y.tolist())
    o.same(res, [sub_g(mm, ix, iy) for mm in o.models],
           'crop_masked_border(hard)', rtol=0)
    left = cum[np.ix_(ix, iy)]
    if o.temporal:
        b = np.concatenate((left[0], left[-1], left[:, 0], left[:, -1])) \
            if min(left.shape) > 1 else np.array([False])
        check(not b.any(), 'hard border cropping leaves masked points on the '
              'border: {}', left.astype(int).tolist())
    else:
        check(not left.any(), 'hard border cropping leaves masked points: {}',
              left.astype(int).tolist())


# ---------------------------------------------------------------- mirroring
@st.composite
def mirror_case(draw, kind):
    c = draw(base(kind, even=True, masks=False, scales=False))
    d = draw(st.sampled_from(['x', 'y']))
    n = len(c[d])
    # plane in half steps from the first node; not in the middle of the axis
    half = draw(st.integers(-3, 2*(n - 1) + 3).filter(lambda h: h != n - 1))
    # interior masked points
    nx, ny = len(c['x']), len(c['y'])
    for fr in (c['frames'] if 'frames' in c else [c]):
        if nx > 2 and ny > 2 and draw(st.booleans()):
            m = [[0]*ny for _ in range(nx)]
            for i in range(1, nx - 1):
                for j in range(1, ny - 1):
                    m[i][j] = draw(st.integers(0, 1))
            fr['m'] = m
    coef = draw(st.sampled_from([1, 1., -1, 2., 0.5]))
    if kind in ('vf', 'tvf') and draw(st.booleans()):
        coef = [draw(st.sampled_from([1., -1., 2.])),
                draw(st.sampled_from([1., -1., 3.]))]
    return {'o': c, 'd': d, 'half': half, 'coef': coef,
            'inplace': draw(st.booleans()),
            'n': draw(st.sampled_from(['all', 'all', 1, 2, 3]))}


def run_mirror(kind, c, rec):
    o = Obj(kind, c['o'])
    ax = np.array(c['o'][c['d']])
    step = ax[1] - ax[0]
    pos = ax[0] + c['half']*step/2.
    n = len(ax)
    res = o.apply('mirroring', c['inplace'], c['d'], float(pos),
                  inds_to_mirror=c['n'], mir_coef=c['coef'])
    left = c['half'] < n - 1
    coef = c['coef']
    if o.vector and not isinstance(coef, list):
        coef = [-coef, coef] if c['d'] == 'x' else [coef, -coef]
    elif not o.vector:
        coef = [coef]
    fields = res.fields if o.temporal else [res]
    if o.temporal:
        close(res.times, o.times, 'mirroring: times', rtol=0)
        close(res.axe_x, fields[0].axe_x, 'mirroring: axis of the set', rtol=0)
        close(res.axe_y, fields[0].axe_y, 'mirroring: axis of the set', rtol=0)
    d = 0 if c['d'] == 'x' else 1
    new = 0
    for f, m in zip(fields, o.models):
        got = g.G.of_field(f)
        gax, gother = (got.x, got.y) if d == 0 else (got.y, got.x)
        max_, mother = (m.x, m.y) if d == 0 else (m.y, m.x)
        close(gother, mother, 'mirroring: the other axis', rtol=1e-12)
        # the kept original rows
        eps = 1e-9*step
        keep = [i for i in range(n) if (max_[i] >= pos - eps if left
                                        else max_[i] <= pos + eps)]
        kept = [i for i in range(len(gax))
                if max_[keep[0]] - eps <= gax[i] <= max_[keep[-1]] + eps]
        check(len(kept) == len(keep), 'mirroring: original rows {} became {}',
              max_.tolist(), gax.tolist())
        close(gax[kept], max_[keep], 'mirroring: original rows', rtol=1e-9)
        close(np.diff(gax), np.full(len(gax) - 1, step),
              'mirroring: axis spacing', rtol=1e-9)
        for i in range(len(gax)):
            orig = i in kept
            src = None
            if orig:
                src = keep[kept.index(i)]
                cf = [1.]*len(m.comps)
            else:
                new += 1
                check(gax[i] < gax[kept[0]] if left else gax[i] > gax[kept[-1]],
                      'mirroring: rows added on the wrong side')
                mir = 2*pos - gax[i]
                near = [k for k in keep if abs(max_[k] - mir) < 1e-6*step]
                src = near[0] if near else None
                cf = coef
            row_m = np.take(got.mask, i, axis=d)
            if src is None:
                check(row_m.all(), 'mirroring: a row without image is not '
                      'masked')
                continue
            same_bool(row_m, np.take(m.mask, src, axis=d),
                      'mirroring: mask of row %d' % i)
            for gc, mc, k in zip(got.comps, m.comps, cf):
                close(np.take(gc, i, axis=d), k*np.take(mc, src, axis=d),
                      'mirroring: row %d' % i, rtol=1e-9)
        from harness.core import same_unit
        same_unit(f.unit_x, m.ux, 'unit_x')
        same_unit(f.unit_y, m.uy, 'unit_y')
        same_unit(f.unit_values, m.uv, 'unit_values')
    if not new:
        rec.mark_trivial()
    rec.label(c['d'], 'low side' if left else 'high side',
              'outside' if (c['half'] < 0 or c['half'] > 2*(n - 1)) else
              'inside')


@st.composite
def gap_case(draw, kind):
    c = draw(mirror_case(kind))
    for fr in (c['o']['frames'] if 'frames' in c['o'] else [c['o']]):
        fr['m'] = None
    n = len(c['o'][c['d']])
    c['half'] = draw(st.sampled_from([-4, -3, -2, -1, 2*n - 1, 2*n, 2*n + 1,
                                      2*n + 2]))
    c['interp'] = draw(st.sampled_from(['value', 'linear', 'nearest']))
    c['value'] = draw(g.quarter(-9, 9))
    return c


def run_gap(kind, c, rec):
    """Rows without image are filled, and the others do not change."""
    o = Obj(kind, c['o'])
    d = 0 if c['d'] == 'x' else 1
    ax = np.array(c['o'][c['d']])
    step = ax[1] - ax[0]
    pos = float(ax[0] + c['half']*step/2.)
    kw = {'inds_to_mirror': c['n'], 'mir_coef': c['coef']}
    ref = o.o.mirroring(c['d'], pos, inplace=False, **kw)
    val = [c['value'], -2.*c['value']] if o.vector else c['value']
    res = o.apply('mirroring', c['inplace'], c['d'], pos, interp=c['interp'],
                  value=val, **kw)
    vals = val if o.vector else [val]
    a, b = g.G.of_field(ref), g.G.of_field(res)
    close(b.x, a.x, 'gap: x', rtol=1e-12)
    close(b.y, a.y, 'gap: y', rtol=1e-12)
    check(not b.mask.any(), 'gap: masked values are left')
    empty = np.take(a.mask, 0, axis=1 - d)
    for u, v, z in zip(a.comps, b.comps, vals):
        u, v = (u, v) if d == 0 else (u.T, v.T)
        close(v[~empty], u[~empty], 'gap: rows that are not in the gap')
        if not empty.any():
            continue
        i0, i1 = np.where(empty)[0][[0, -1]]
        check(empty[i0:i1+1].all() and i0 > 0 and i1 < len(empty) - 1,
              'gap: rows without image {}', np.where(empty)[0].tolist())
        for i in range(i0, i1 + 1):
            if c['interp'] == 'value':
                want = np.full(u.shape[1], z)
            elif c['interp'] == 'linear':
                want = u[i0-1] + (u[i1+1] - u[i0-1])*(i - i0 + 1.)/(i1 - i0 + 2)
            else:
                # values of the nodes around or of the symmetry plane
                for j in range(u.shape[1]):
                    check(np.min(np.abs(v[i, j] - np.array(
                        [z] + u[i0-1].tolist() + u[i1+1].tolist()))) <
                        1e-9*(1 + abs(v[i, j])), 'gap: nearest value {}',
                        v[i, j])
                continue
            close(v[i], want, 'gap: {} interpolation'.format(c['interp']),
                  scale=1 + np.abs(want).max())
    if not empty.any():
        rec.mark_trivial()
    rec.label(c['interp'], c['d'])


SUBS = []
for kd in ('sf', 'vf'):
    SUBS.append(Sub(kd + '_gap', gap_case(kd),
                    lambda c, r, k=kd: run_gap(k, c, r),
                    'some row has no image', 150))
for kd in ('sf', 'vf', 'tsf', 'tvf'):
    q = 1. if kd in ('sf', 'vf') else .5
    SUBS += [
        Sub(kd + '_crop', crop_case(kd), lambda c, r, k=kd: run_crop(k, c, r),
            'the window cuts something', int(500*q)),
        Sub(kd + '_extend', extend_case(kd),
            lambda c, r, k=kd: run_extend(k, c, r), 'some row is added',
            int(300*q)),
        Sub(kd + '_rotate', rotate_case(kd),
            lambda c, r, k=kd: run_rotate(k, c, r),
            'some angle is not a full turn', int(300*q)),
        Sub(kd + '_origin', origin_case(kd),
            lambda c, r, k=kd: run_origin(k, c, r), 'the origin moves',
            int(150*q)),
        Sub(kd + '_border', border_case(kd),
            lambda c, r, k=kd: run_border(k, c, r),
            'something is masked and something is left', int(350*q)),
        Sub(kd + '_mirror', mirror_case(kd),
            lambda c, r, k=kd: run_mirror(k, c, r),
            'at least one row is added', int(250*q)),
    ]
