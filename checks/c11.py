"""C11: a time series of fields stays a time-ordered sequence of whole frames
sharing one grid, whatever sequence of operations is applied to it."""
import numpy as np
from hypothesis import strategies as st

from harness.core import (Sub, check, close, expect_raises, same_bool,
                          same_unit)
from harness import gens as g
from IMTreatment import make_unit
from IMTreatment.core import (ScalarField, VectorField, TemporalScalarFields,
                              TemporalVectorFields)

ASSUMPTIONS = ['the fields of one series use the same axis and values units',
               'the times of one series are different from each other',
               'times are given in units of time (or without unit for a '
               'series without time unit)']

TIME_SI = {'s': 1., 'ms': 1e-3, 'min': 60., 'h': 3600.}


@st.composite
def frame(draw, nx, ny, vector):
    fr = {'m': draw(g.mask(nx, ny))}
    for k in (['vx', 'vy'] if vector else ['v']):
        fr[k] = draw(g.grid(nx, ny, scales=False))
    return fr


OPS = ['add', 'add', 'add', 'add_axes', 'add_type', 'remove', 'remove',
       'add_field', 'sub_field', 'add_tf', 'sub_tf', 'mul_tf', 'div_tf',
       'merge', 'mul_n', 'rmul_n', 'div_n', 'neg', 'pow', 'unit_time',
       'unit_x', 'unit_values', 'scale_t', 'scale_t_unit', 'crop_t',
       'crop_ti', 'crop_xy', 'copy', 'touch_added', 'iter', 'set_axe',
       'set_unit']


@st.composite
def history(draw, vector):
    base = draw((g.vf_case if vector else g.sf_case)(
        2, 4, masks=False, unit_xy=st.sampled_from(['m', 'mm']),
        unit_v=st.sampled_from(['', 'm/s', 'mm/s', 'm', 's'])))
    nx, ny = len(base['x']), len(base['y'])
    with_unit = draw(st.booleans())
    ut = st.sampled_from(list(TIME_SI)) if with_unit else st.just('')
    ops = []
    first = draw(st.sampled_from([0, 1, 2, 2, 3, 3]))
    n = draw(st.integers(2, 8))
    for k in range(first + n):
        op = 'add' if k < first else draw(st.sampled_from(OPS))
        o = {'op': op}
        if op in ('add', 'touch_added'):
            o.update(fr=draw(frame(nx, ny, vector)), t=draw(g.number(-20, 20)),
                     u=draw(ut))
        elif op in ('add_axes', 'add_type'):
            o.update(t=draw(g.number(-20, 20)), u=draw(ut),
                     which=draw(st.sampled_from(['x', 'y', 'long'])))
        elif op == 'remove':
            o.update(i=draw(st.lists(st.integers(0, 9), min_size=1,
                                     max_size=3)),
                     form=draw(st.sampled_from(['int', 'neg', 'list', 'npint',
                                                'array'])))
        elif op in ('add_field', 'sub_field'):
            o.update(fr=draw(frame(nx, ny, vector)))
        elif op in ('add_tf', 'sub_tf', 'mul_tf', 'div_tf'):
            o.update(fr=draw(st.lists(frame(nx, ny, vector), min_size=1,
                                      max_size=3)))
        elif op == 'merge':
            o.update(fr=draw(st.lists(frame(nx, ny, vector), min_size=1,
                                      max_size=3)),
                     t=draw(st.lists(g.number(-20, 20), min_size=3,
                                     max_size=3, unique=True)), u=draw(ut))
        elif op in ('mul_n', 'rmul_n', 'div_n'):
            o.update(k=draw(g.nonzero()))
        elif op == 'pow':
            o.update(k=2)
        elif op == 'unit_time':
            o.update(u=draw(ut))
        elif op in ('unit_x', 'set_unit'):
            o.update(axe=draw(st.sampled_from(['x', 'y'])),
                     u=draw(st.sampled_from(['m', 'mm', 'cm', 'km'])))
        elif op == 'unit_values':
            o.update(u=draw(st.sampled_from(g.family(base['uv']))))
        elif op == 'scale_t':
            o.update(k=draw(g.nonzero()))
        elif op == 'scale_t_unit':
            o.update(k=draw(st.integers(1, 8))/4.)
        elif op in ('crop_t', 'crop_ti'):
            o.update(a=draw(st.integers(0, 5)), b=draw(st.integers(0, 5)),
                     d=draw(st.sampled_from([0., 0.25, -0.25])),
                     inplace=draw(st.booleans()))
        elif op == 'crop_xy':
            o.update(axe=draw(st.sampled_from(['x', 'y'])),
                     a=draw(st.integers(0, 4)), b=draw(st.integers(0, 4)),
                     inplace=draw(st.booleans()))
        elif op == 'set_axe':
            o.update(axe=draw(st.sampled_from(['x', 'y'])),
                     d=draw(g.quarter(-4, 4)))
        ops.append(o)
    return {'base': {k: base[k] for k in ('x', 'y', 'ux', 'uy', 'uv')},
            'ops': ops}


class Series(object):
    """Reference: a list of (time, grid model), kept sorted."""

    def __init__(self, vector):
        self.vector = vector
        self.rows = []
        self.ut = None

    def sort(self):
        self.rows.sort(key=lambda r: r[0])

    def clash(self, times):
        """A time too near from another one (order not defined)."""
        ts = sorted([r[0] for r in self.rows] + list(times))
        return any(b - a <= 1e-9*max(abs(a), abs(b), 1e-3)
                   for a, b in zip(ts, ts[1:]))


def conv(u, to):
    return float((make_unit(u)/to).asNumber(1))


def same_series(t, s, what):
    check(isinstance(t, TemporalVectorFields if s.vector
                     else TemporalScalarFields), '{}: got {!r}', what, type(t))
    n = len(s.rows)
    check(len(t) == n and len(t.fields) == n and len(t.times) == n,
          '{}: {} frames, {} fields, {} times instead of {}', what, len(t),
          len(t.fields), len(t.times), n)
    if n == 0:
        return
    ref = [r[0] for r in s.rows]
    close(t.times, ref, what + ': times', rtol=1e-9,
          scale=max(np.abs(ref).max(), 1e-6))
    check(np.all(np.diff(t.times) >= 0), '{}: times not sorted: {}', what,
          np.array(t.times).tolist())
    same_unit(t.unit_times, s.ut, what + ': time unit')
    g0 = s.rows[0][1]
    close(t.axe_x, g0.x, what + ': x axis of the series')
    close(t.axe_y, g0.y, what + ': y axis of the series')
    same_unit(t.unit_x, g0.ux, what + ': x unit of the series')
    same_unit(t.unit_y, g0.uy, what + ': y unit of the series')
    for i, (_, m) in enumerate(s.rows):
        w = '{}: frame {}'.format(what, i)
        same_unit(t.fields[i].unit_x, m.ux, w + ': unit_x')
        close(t.fields[i].axe_x, m.x, w + ': x axis')
        g.same_physics(t.fields[i], m, w)
        check(t[i] is t.fields[i], '{}: indexing', w)
    # whole-series views
    same_bool(t.mask, [m.mask for _, m in s.rows], what + ': mask')
    same_bool(t.mask_cum, np.all([m.mask for _, m in s.rows], axis=0),
              what + ': cumulated mask')
    msf = t.mask_as_sf
    check(len(msf) == n, '{}: mask_as_sf', what)
    for i in range(n):
        same_bool(msf[i].values, s.rows[i][1].mask, what + ': mask_as_sf')
    names = [('Vx', 0), ('Vy', 1)] if s.vector else [('values', 0)]
    all_mask = np.array([m.mask for _, m in s.rows])
    k = float((g0.uv/t.unit_values).asNumber(1))
    for name, ic in names:
        ref = np.array([m.comps[ic] for _, m in s.rows])*k
        got = np.where(all_mask, np.nan, getattr(t, name))
        close(got, ref, what + ': ' + name)
        sub = getattr(t, name + '_as_sf')
        check(isinstance(sub, TemporalScalarFields), '{}: {}_as_sf', what,
              name)
        close(sub.times, t.times, what + ': times of ' + name)
        same_unit(sub.unit_times, t.unit_times, what + ': time unit of view')
        for i in range(n):
            close(np.where(all_mask[i], np.nan, sub.fields[i].values), ref[i],
                  what + ': {}_as_sf'.format(name))
            same_bool(sub.fields[i].mask, all_mask[i],
                      what + ': {}_as_sf mask'.format(name))
    if s.vector:
        ref = np.array([np.hypot(*m.comps) for _, m in s.rows])*k
        got = np.where(all_mask, np.nan, t.magnitude)
        close(got, ref, what + ': magnitude')
        sub = t.magnitude_as_sf
        for i in range(n):
            close(np.where(all_mask[i], np.nan, sub.fields[i].values), ref[i],
                  what + ': magnitude_as_sf')
        th, sub = t.theta, t.theta_as_sf
        close(sub.times, t.times, what + ': times of theta_as_sf')
        for i, (_, m) in enumerate(s.rows):
            nz = ~m.mask & (np.hypot(*m.comps) > 0)
            for got, nm in ((th[i], 'theta'), (sub.fields[i].values,
                                               'theta_as_sf')):
                for fct, cc in ((np.cos, m.comps[0]), (np.sin, m.comps[1])):
                    close(fct(got[nz]), cc[nz]/np.hypot(*m.comps)[nz],
                          what + ': ' + nm, atol=1e-6)
    if n > 1:
        close(t.dt, t.times[1] - t.times[0], what + ': dt', rtol=0)
    sub = t.mask_cum_as_sf
    same_bool(np.array(sub.values) != 0,
              np.all([m.mask for _, m in s.rows], axis=0),
              what + ': mask_cum_as_sf')


def snapshot(t):
    return ([np.array(t.times), np.array(t.axe_x), np.array(t.axe_y)],
            [g.G.of_field(f) for f in t.fields])


def unchanged(t, snap, what):
    arrs, gs = snap
    for a, b, n in zip([t.times, t.axe_x, t.axe_y], arrs,
                       ['times', 'x axis', 'y axis']):
        close(a, b, '{}: {} of an operand'.format(what, n), rtol=0, atol=0)
    check(len(t.fields) == len(gs), '{}: operand lost fields', what)
    for f, m in zip(t.fields, gs):
        g.same_field(f, m, what + ': operand', rtol=0)


def run_history(vector):
    cls = VectorField if vector else ScalarField

    def build(base, fr):
        return (g.build_vf if vector else g.build_sf)(dict(base, **fr))

    def run(c, rec):
        base = dict(c['base'])
        t = TemporalVectorFields() if vector else TemporalScalarFields()
        s = Series(vector)
        changed = set()          # the grid or the units were changed
        done = 0
        for k, o in enumerate(c['ops']):
            op = o['op']
            what = 'step {} ({})'.format(k, op)
            n = len(s.rows)
            if op in ('add', 'touch_added', 'add_field', 'sub_field', 'add_tf',
                      'sub_tf', 'mul_tf', 'div_tf', 'merge') and changed:
                continue
            if n == 0 and op not in ('add', 'touch_added', 'copy', 'iter'):
                continue
            if op in ('add', 'touch_added'):
                new_t = o['t'] if n == 0 else o['t']*conv(o['u'], s.ut)
                if s.clash([new_t]):
                    continue
                f = build(base, o['fr'])
                m = g.G.of_case(dict(base, **o['fr']))
                res = t.add_field(f, time=o['t'],
                                  unit_times=(o['u'] if k % 2 else
                                              make_unit(o['u'])))
                check(res is None, '{}: returned {!r}', what, res)
                if n == 0:
                    s.ut = make_unit(o['u'])
                s.rows.append((new_t, m))
                s.sort()
                g.same_field(f, m, what + ': the added field', rtol=0)
                if op == 'touch_added':
                    f.mask = np.ones(f.shape, dtype=bool)
                    f.scale(scalex=2., scalev=3., inplace=True)
            elif op == 'add_axes':
                bad = dict(base)
                ax = 'x' if o['which'] == 'long' else o['which']
                bad['x'] = np.array(t.axe_x).tolist()
                bad['y'] = np.array(t.axe_y).tolist()
                if o['which'] == 'long':
                    bad['x'] = bad['x'] + [bad['x'][-1] + 1.]
                else:
                    d = bad[ax][-1] - bad[ax][0] or 1.
                    bad[ax] = bad[ax][:-1] + [bad[ax][-1] + 0.25*d]
                z = np.zeros((len(bad['x']), len(bad['y']))).tolist()
                f = build(bad, {'m': None, 'v': z, 'vx': z, 'vy': z})
                expect_raises(lambda: t.add_field(f, time=o['t'],
                                                  unit_times=t.unit_times),
                              what, ValueError)
            elif op == 'add_type':
                z = np.zeros(t.shape).tolist()
                cc = dict(base, x=np.array(t.axe_x).tolist(),
                          y=np.array(t.axe_y).tolist(), m=None)
                f = (g.build_sf(dict(cc, v=z)) if vector
                     else g.build_vf(dict(cc, vx=z, vy=z)))
                expect_raises(lambda: t.add_field(f, time=o['t'],
                                                  unit_times=t.unit_times),
                              what, TypeError)
            elif op == 'remove':
                inds = sorted(set(i % n for i in o['i']))
                form = o['form']
                if form in ('int', 'neg', 'npint'):
                    inds = inds[:1]
                arg = {'int': inds[0], 'neg': inds[0] - n,
                       'npint': np.int64(inds[0]), 'list': list(inds),
                       'array': np.array(inds)}[form]
                t.remove_fields(arg)
                s.rows = [r for i, r in enumerate(s.rows) if i not in inds]
            elif op in ('add_field', 'sub_field'):
                f = build(base, o['fr'])
                m = g.G.of_case(dict(base, **o['fr']))
                snap = snapshot(t)
                new = t + f if op == 'add_field' else t - f
                unchanged(t, snap, what)
                g.same_field(f, m, what + ': operand field', rtol=0)
                sg = 1 if op == 'add_field' else -1
                kf = float((m.uv/s.rows[0][1].uv).asNumber(1)) \
                    if 'values' in changed else 1.
                rows = []
                for tt, r in s.rows:
                    q = r.copy()
                    q.comps = [a + sg*kf*b for a, b in zip(r.comps, m.comps)]
                    q.mask = r.mask | m.mask
                    rows.append((tt, q))
                s.rows = rows
                t = new
            elif op in ('add_tf', 'sub_tf', 'mul_tf', 'div_tf'):
                if vector and op in ('mul_tf', 'div_tf'):
                    continue
                other = t.__class__()
                ms = []
                for i in range(n):
                    fr = o['fr'][i % len(o['fr'])]
                    if op == 'div_tf':
                        fr = dict(fr, v=[[v if v else 1. for v in row]
                                         for row in fr['v']])
                    ms.append(g.G.of_case(dict(base, **fr)))
                    other.add_field(build(base, fr), time=float(t.times[i]),
                                    unit_times=t.unit_times)
                snap, osnap = snapshot(t), snapshot(other)
                new = {'add_tf': lambda: t + other,
                       'sub_tf': lambda: t - other,
                       'mul_tf': lambda: t*other,
                       'div_tf': lambda: t/other}[op]()
                unchanged(t, snap, what)
                unchanged(other, osnap, what)
                fct = {'add_tf': np.add, 'sub_tf': np.subtract,
                       'mul_tf': np.multiply, 'div_tf': np.divide}[op]
                rows = []
                for (tt, r), m in zip(s.rows, ms):
                    q = r.copy()
                    q.comps = [fct(a, b) for a, b in zip(r.comps, m.comps)]
                    q.mask = r.mask | m.mask
                    if op == 'mul_tf':
                        q.uv = r.uv*m.uv
                        changed.add('values')
                    elif op == 'div_tf':
                        q.uv = r.uv/m.uv
                        changed.add('values')
                    rows.append((tt, q))
                s.rows = rows
                t = new
            elif op == 'merge':
                fac = conv(o['u'], s.ut)
                ts = o['t'][:len(o['fr'])]
                if s.clash([x*fac for x in ts]):
                    continue
                other = t.__class__()
                for x, fr in zip(ts, o['fr']):
                    other.add_field(build(base, fr), time=x,
                                    unit_times=o['u'])
                snap, osnap = snapshot(t), snapshot(other)
                new = t + other
                unchanged(t, snap, what)
                unchanged(other, osnap, what)
                s.rows = s.rows + [(x*fac, g.G.of_case(dict(base, **fr)))
                                   for x, fr in zip(ts, o['fr'])]
                s.sort()
                t = new
            elif op in ('mul_n', 'rmul_n', 'div_n', 'neg', 'pow'):
                snap = snapshot(t)
                kk = o.get('k')
                new = {'mul_n': lambda: t*kk, 'rmul_n': lambda: kk*t,
                       'div_n': lambda: t/kk, 'neg': lambda: -t,
                       'pow': lambda: t**kk}[op]()
                unchanged(t, snap, what)
                fct = {'mul_n': lambda a: a*kk, 'rmul_n': lambda a: a*kk,
                       'div_n': lambda a: a/kk, 'neg': lambda a: -a,
                       'pow': lambda a: a**kk}[op]
                rows = []
                for tt, r in s.rows:
                    q = r.copy()
                    q.comps = [fct(a) for a in r.comps]
                    if op == 'pow':
                        q.uv = r.uv**kk
                        changed.add('values')
                    rows.append((tt, q))
                s.rows = rows
                t = new
            elif op == 'unit_time':
                u = make_unit(o['u'])
                fac = float((s.ut/u).asNumber(1))
                t.change_unit('time', o['u'] if k % 2 else u)
                s.rows = [(tt*fac, r) for tt, r in s.rows]
                s.ut = u
                same_unit(t.unit_times, u, what)
            elif op == 'unit_x':
                u = make_unit(o['u'])
                t.change_unit(o['axe'], o['u'] if k % 2 else u)
                for _, r in s.rows:
                    if o['axe'] == 'x':
                        r.x = r.x*float((r.ux/u).asNumber(1))
                        r.ux = u
                    else:
                        r.y = r.y*float((r.uy/u).asNumber(1))
                        r.uy = u
                changed.add('grid')
            elif op == 'unit_values':
                if 'values' in changed:
                    continue
                u = make_unit(o['u'])
                t.change_unit('values', o['u'] if k % 2 else u)
                for _, r in s.rows:
                    r.comps = [a*float((r.uv/u).asNumber(1)) for a in r.comps]
                    r.uv = u
                changed.add('values')
                same_unit(t.unit_values, u, what)
            elif op in ('scale_t', 'scale_t_unit'):
                kk = o['k']
                if op == 'scale_t_unit':
                    if not s.ut.strUnit().strip('[]'):
                        continue
                    t.scale(scalet=kk*make_unit(''), inplace=True)
                else:
                    t.scale(scalet=kk, inplace=True)
                s.rows = [(tt*kk, r) for tt, r in s.rows]
                s.sort()
            elif op in ('crop_t', 'crop_ti'):
                a, b = sorted([o['a'] % n, o['b'] % n])
                snap = snapshot(t)
                if op == 'crop_ti':
                    iv = [a, b]
                    keep = list(range(a, b + 1))
                else:
                    d = o['d']
                    iv = [s.rows[a][0] - d, s.rows[b][0] + d]
                    ts = [r[0] for r in s.rows]
                    if min(abs(x - v) for x in ts for v in iv) < 1e-6 \
                            and d != 0.:
                        continue
                    if d == 0.:
                        iv = [float(t.times[a]), float(t.times[b])]
                        keep = list(range(a, b + 1))
                    else:
                        keep = [i for i, x in enumerate(ts)
                                if iv[0] <= x <= iv[1]]
                    if not keep or iv[0] > iv[1]:
                        continue
                new = t.crop(intervt=iv, ind=op == 'crop_ti',
                             inplace=o['inplace'])
                if o['inplace']:
                    check(new is None, '{}: returned {!r}', what, new)
                else:
                    unchanged(t, snap, what)
                    t = new
                s.rows = [s.rows[i] for i in keep]
            elif op == 'crop_xy':
                ax = np.array(t.axe_x if o['axe'] == 'x' else t.axe_y)
                a, b = sorted([o['a'] % len(ax), o['b'] % len(ax)])
                if a == b:
                    continue
                snap = snapshot(t)
                kw = {'interv' + o['axe']: [float(ax[a]), float(ax[b])]}
                new = t.crop(inplace=o['inplace'], **kw)
                if o['inplace']:
                    check(new is None, '{}: returned {!r}', what, new)
                else:
                    unchanged(t, snap, what)
                    t = new
                rows = []
                for tt, r in s.rows:
                    sl = ((slice(a, b + 1), slice(None)) if o['axe'] == 'x'
                          else (slice(None), slice(a, b + 1)))
                    rows.append((tt, g.G(r.x[sl[0]], r.y[sl[1]],
                                         [v[sl] for v in r.comps],
                                         r.mask[sl], r.ux, r.uy, r.uv)))
                s.rows = rows
                if (a, b) != (0, len(ax) - 1):
                    changed.add('grid')
            elif op == 'copy':
                new = t.copy()
                check(new is not t and (n == 0 or new == t),
                      '{}: the copy differs', what)
                # the original may be modified at will afterwards
                if n:
                    t.scale(scalex=2., scalev=3., scalet=-2., inplace=True)
                    t.fields[0].mask = np.ones(t.shape, dtype=bool)
                    t.remove_fields(0)
                t = new
            elif op == 'iter':
                got = list(t)
                check(len(got) == n, '{}: iterates on {} frames instead of {}',
                      what, len(got), n)
                for i, (tt, f) in enumerate(got):
                    check(tt == t.times[i] and f is t.fields[i],
                          '{}: frame {}', what, i)
            elif op == 'set_axe':
                if o['axe'] == 'x':
                    t.axe_x = s.rows[0][1].x + o['d']
                    for _, r in s.rows:
                        r.x = r.x + o['d']
                else:
                    t.axe_y = s.rows[0][1].y + o['d']
                    for _, r in s.rows:
                        r.y = r.y + o['d']
                changed.add('grid')
            elif op == 'set_unit':
                u = make_unit(o['u'])
                if o['axe'] == 'x':
                    t.unit_x = u
                else:
                    t.unit_y = u
                for _, r in s.rows:
                    if o['axe'] == 'x':
                        r.ux = u
                    else:
                        r.uy = u
                changed.add('grid')
            done += 1
            rec.label(op)
            same_series(t, s, what)
        if done < 3:
            rec.mark_trivial()
    return run


SUBS = [
    Sub('scalar_history', history(False), run_history(False),
        'at least three operations were applied', 500),
    Sub('vector_history', history(True), run_history(True),
        'at least three operations were applied', 400),
]
