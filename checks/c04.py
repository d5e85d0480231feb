"""C04: unit changes keep the physical data, scaling multiplies it."""
import numpy as np
import unum
from hypothesis import strategies as st

from harness.core import Sub, check, close, expect_raises, same_bool, same_unit
from harness import gens as g
from IMTreatment import make_unit

ASSUMPTIONS = ['scale factors are not zero']
KINDS = ['sf', 'vf', 'prof', 'pts', 'tsf', 'tvf']
AXES = {'sf': ['x', 'y', 'values'], 'vf': ['x', 'y', 'values'],
        'prof': ['x', 'y'], 'pts': ['x', 'y', 'v'],
        'tsf': ['x', 'y', 'values', 'time'],
        'tvf': ['x', 'y', 'values', 'time']}


def obj_case(kind):
    return {'sf': g.sf_case(max_size=5, unit_v=UV, unit_xy=UX),
            'vf': g.vf_case(max_size=5, unit_v=UV, unit_xy=UX),
            'prof': g.prof_case(), 'pts': g.pts_case(),
            'tsf': g.temporal_case(False, max_n=4, unit_v=UV),
            'tvf': g.temporal_case(True, max_n=4, unit_v=UV)}[kind]


UV = st.sampled_from(['', 'm', 'cm', 'm/s', 'km/h', 'Pa', 'bar', 'm**2', 'g',
                      'min', 'ms'])
UX = st.sampled_from(['', 'm', 'mm', 'cm', 'km', 's', 'ms'])


def build(kind, c):
    return {'sf': g.build_sf, 'vf': g.build_vf, 'prof': g.build_prof,
            'pts': g.build_pts,
            'tsf': lambda c: g.build_temporal(c, False),
            'tvf': lambda c: g.build_temporal(c, True)}[kind](c)


class Snap(object):
    """Named arrays, masks and units of any of the objects."""

    def __init__(self, kind, o):
        self.kind = kind
        self.a, self.m, self.u = {}, {}, {}
        if kind in ('sf', 'vf'):
            gg = g.G.of_field(o)
            self._grid('', gg)
        elif kind == 'prof':
            self.m['mask'] = np.array(o.mask, dtype=bool)
            self.a['x'] = np.array(o.x)
            y = np.array(o.y, dtype=float)
            y[self.m['mask']] = np.nan
            self.a['y'] = y
            self.u = {'x': o.unit_x, 'y': o.unit_y}
        elif kind == 'pts':
            self.a['x'] = np.array(o.xy[:, 0])
            self.a['y'] = np.array(o.xy[:, 1])
            self.a['v'] = np.array(o.v, dtype=float)
            self.u = {'x': o.unit_x, 'y': o.unit_y, 'v': o.unit_v}
        else:
            self.a['time'] = np.array(o.times, dtype=float)
            self.a['x'], self.a['y'] = np.array(o.axe_x), np.array(o.axe_y)
            self.u = {'time': o.unit_times, 'x': o.unit_x, 'y': o.unit_y,
                      'values': o.unit_values}
            self.n = len(o.fields)
            for i, f in enumerate(o.fields):
                self._grid('%d.' % i, g.G.of_field(f))

    def _grid(self, p, gg):
        self.a[p + 'x'], self.a[p + 'y'] = gg.x, gg.y
        self.u[p + 'x'], self.u[p + 'y'] = gg.ux, gg.uy
        self.u[p + 'values'] = gg.uv
        for i, c in enumerate(gg.comps):
            self.a[p + 'values%d' % i] = c
        self.m[p + 'mask'] = gg.mask

    def copy(self):
        import copy
        s = copy.copy(self)
        s.a = {k: v.copy() for k, v in self.a.items()}
        s.m = {k: v.copy() for k, v in self.m.items()}
        s.u = dict(self.u)
        return s

    def keys_of(self, axe):
        """Array names along an axis name of change_unit/scale."""
        return [k for k in self.a if k.split('.')[-1].rstrip('01') == axe]

    def units_of(self, axe):
        return [k for k in self.u if k.split('.')[-1] == axe]

    def flip(self, axe, vector):
        """What a negative factor does to the data on that axis (the axis
        itself was multiplied already)."""
        ax = 0 if axe == 'x' else 1
        for k in list(self.a):
            base = k.split('.')[-1]
            if base == axe:
                self.a[k] = self.a[k][::-1]
            elif base.startswith('values'):
                v = np.flip(self.a[k], ax)
                if vector and base == 'values%d' % ax:
                    v = -v
                self.a[k] = v
        for k in list(self.m):
            self.m[k] = np.flip(self.m[k], ax)

    def reverse_time(self):
        n = self.n
        a, m, u = self.a, self.m, self.u
        self.a = {k: v for k, v in a.items() if '.' not in k}
        self.a['time'] = a['time'][::-1]
        self.m, self.u = {}, {k: v for k, v in u.items() if '.' not in k}
        for i in range(n):
            for src, dst in ((a, self.a), (m, self.m), (u, self.u)):
                for k in src:
                    if k.startswith('%d.' % i):
                        dst['%d.%s' % (n - 1 - i, k.split('.', 1)[1])] = src[k]

    def same(self, o, what, rtol=1e-9, units=True):
        got = o if isinstance(o, Snap) else Snap(self.kind, o)
        check(set(got.a) == set(self.a), '{}: parts {} instead of {}', what,
              sorted(got.a), sorted(self.a))
        for k in sorted(self.a):
            close(got.a[k], self.a[k], '%s: %s' % (what, k), rtol=rtol)
        for k in sorted(self.m):
            same_bool(got.m[k], self.m[k], '%s: %s' % (what, k))
        if units:
            for k in sorted(self.u):
                same_unit(got.u[k], self.u[k], '%s: unit %s' % (what, k))
                close(float(got.u[k].asNumber()), 1., '%s: coefficient of unit '
                      '%s' % (what, k))


def unit_name(kind, c, axe):
    key = {'x': 'ux', 'y': 'uy', 'values': 'uv', 'v': 'uv', 'time': 'ut'}[axe]
    return c[key]


@st.composite
def change_case(draw, kind):
    c = draw(obj_case(kind))
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        axe = draw(st.sampled_from(AXES[kind]))
        steps.append([axe, draw(st.sampled_from(
            g.family(unit_name(kind, c, axe)))), draw(st.booleans())])
    return {'o': c, 'steps': steps}


def run_change(kind, c, rec):
    o = build(kind, c['o'])
    exp = Snap(kind, o)
    cur = {a: unit_name(kind, c['o'], a) for a in AXES[kind]}
    first = exp.copy()
    moved = False
    for axe, new, as_str in c['steps']:
        k = g.UNIT_SI[cur[axe]]/g.UNIT_SI[new]
        moved = moved or k != 1
        res = o.change_unit(axe, new if as_str else make_unit(new))
        check(res is None, 'change_unit returned {!r}', type(res))
        cur[axe] = new
        for n in exp.keys_of(axe):
            exp.a[n] = exp.a[n]*k
        for n in exp.units_of(axe):
            exp.u[n] = make_unit(new)
        exp.same(o, "change_unit('%s', '%s')" % (axe, new))
        if g.UNIT_SI[new] == 1:
            rec.label('SI')
    for axe in AXES[kind]:
        o.change_unit(axe, unit_name(kind, c['o'], axe))
    first.same(o, 'back to the first units', rtol=1e-8)
    if not moved:
        rec.mark_trivial()


@st.composite
def reject_case(draw, kind):
    c = draw(obj_case(kind))
    axe = draw(st.sampled_from(AXES[kind]))
    fams = [f for f in g.FAMILIES if unit_name(kind, c, axe) not in f]
    bad = draw(st.sampled_from([u for f in fams for u in f]))
    return {'o': c, 'axe': axe, 'bad': bad}


def run_reject(kind, c, rec):
    o = build(kind, c['o'])
    exp = Snap(kind, o)
    expect_raises(lambda: o.change_unit(c['axe'], c['bad']),
                  'change of %s from %r to %r' % (
                      c['axe'], unit_name(kind, c['o'], c['axe']), c['bad']))
    exp.same(o, 'object after a refused unit change', rtol=0)
    expect_raises(lambda: o.change_unit('nope', make_unit('m')),
                  'unit change of an unknown axis')
    exp.same(o, 'object after a refused unit change', rtol=0)


FACT = st.one_of(g.nonzero(-6, 6), st.sampled_from([1., 1, -1, 2, -3, 1e-3]))


@st.composite
def scale_case(draw, kind):
    c = draw(obj_case(kind))
    args = {}
    for axe in AXES[kind]:
        if draw(st.integers(0, 2)) == 0:
            continue
        args[axe] = {'f': draw(FACT),
                     'u': draw(st.sampled_from([None, None, 'm', '1/s', 'mm',
                                                '1/mm', '']))}
    return {'o': c, 'args': args, 'inplace': draw(st.booleans())}


def quantity(a):
    if a['u'] is None:
        return a['f']
    if a['u'] == '':
        return unum.Unum({}, a['f'])
    if a['u'].startswith('1/'):
        return a['f']/make_unit(a['u'][2:])
    return a['f']*make_unit(a['u'])


def run_scale(kind, c, rec):
    o = build(kind, c['o'])
    before = Snap(kind, o)
    exp = before.copy()
    vector = kind in ('vf', 'tvf')
    if not c['args']:
        rec.mark_trivial()
    kw = {}
    for axe, a in c['args'].items():
        kw['scale' + {'values': 'v', 'time': 't'}.get(axe, axe)] = quantity(a)
        f = a['f']
        for n in exp.keys_of(axe):
            exp.a[n] = exp.a[n]*f
        if a['u'] is not None:
            q = quantity(a)
            for n in exp.units_of(axe):
                exp.u[n] = exp.u[n]*(q/f)
        rec.label('number' if a['u'] is None else 'quantity',
                  axe + ('-' if f < 0 else '+'))
        if f < 0 and axe in 'xy' and kind not in ('prof', 'pts'):
            exp.flip(axe, vector)
        if f < 0 and axe == 'time':
            exp.reverse_time()
        if f < 0 and axe == 'x' and kind == 'prof':
            # a profile stays sorted by x
            for d in (exp.a, exp.m):
                for n in d:
                    d[n] = d[n][::-1]
    if c['inplace']:
        res = o.scale(inplace=True, **kw)
        check(res is None, 'scale(inplace=True) returned {!r}', type(res))
        res = o
    else:
        res = o.scale(inplace=False, **kw)
        before.same(o, 'object after scale(inplace=False)', rtol=0)
    # the unit may be written with another coefficient: compare physically
    got = Snap(kind, res)
    for axe in AXES[kind]:
        names = exp.units_of(axe)
        if not names:
            continue
        close(float(got.u[names[0]].asNumber()), 1., 'unit coefficient')
        for n in names:
            same_unit(got.u[n], got.u[names[0]], 'units of one axis')
        try:
            k = float((got.u[names[0]]/exp.u[names[0]]).asNumber(1))
        except Exception:
            check(False, 'scale: unit of {} is {} instead of {}', axe,
                  got.u[names[0]], exp.u[names[0]])
        for n in exp.keys_of(axe):
            exp.a[n] = exp.a[n]/k
    exp.same(got, 'scale', units=False)


SUBS = []
for kd in KINDS:
    SUBS += [
        Sub(kd + '_change_unit', change_case(kd),
            lambda c, r, k=kd: run_change(k, c, r),
            'at least one step really changes the numbers', 350),
        Sub(kd + '_reject', reject_case(kd),
            lambda c, r, k=kd: run_reject(k, c, r), 'always', 120),
        Sub(kd + '_scale', scale_case(kd),
            lambda c, r, k=kd: run_scale(k, c, r), 'some factor is given', 400),
    ]
