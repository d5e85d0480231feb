"""Strategies giving plain JSON data, and builders turning it into objects."""
import numpy as np
from hypothesis import strategies as st

import IMTreatment as imt
from IMTreatment import make_unit
from IMTreatment.core import (Points, Profile, ScalarField, VectorField,
                              TemporalScalarFields, TemporalVectorFields)

# unit names by dimension; (name, size in the first one)
LENGTHS = ['m', 'mm', 'cm', 'km']
TIMES = ['s', 'ms', 'min', 'h']
SPEEDS = ['m/s', 'mm/s', 'km/h']
UNIT_SI = {'': 1., 'm': 1., 'mm': 1e-3, 'cm': 1e-2, 'km': 1e3,
           's': 1., 'ms': 1e-3, 'min': 60., 'h': 3600.,
           'm/s': 1., 'mm/s': 1e-3, 'km/h': 1/3.6, 'kg': 1., 'g': 1e-3,
           'Pa': 1., 'bar': 1e5, 'm**2': 1., 'mm**2': 1e-6}
FAMILIES = [LENGTHS, TIMES, SPEEDS, ['kg', 'g'], ['Pa', 'bar'],
            ['m**2', 'mm**2'], ['']]


def family(name):
    for f in FAMILIES:
        if name in f:
            return f
    raise KeyError(name)


def unit_any():
    return st.sampled_from(['', 'm', 'mm', 's', 'm/s', 'mm/s', 'kg', 'Pa'])


def unit_len():
    return st.sampled_from(['', 'm', 'mm', 'cm'])


def unit_pair():
    """Two names of the same dimension."""
    return st.sampled_from(FAMILIES).flatmap(
        lambda f: st.tuples(st.sampled_from(f), st.sampled_from(f)))


# ------------------------------------------------------------------ numbers
def quarter(lo=-40, hi=40):
    """Exactly representable numbers."""
    return st.integers(lo*4, hi*4).map(lambda i: i/4.)


def number(lo=-40, hi=40):
    """Mostly simple numbers, some with full mantissas, some large or small."""
    return st.one_of(quarter(lo, hi), quarter(lo, hi), st.integers(lo, hi).map(float),
                     st.floats(lo, hi, allow_nan=False, width=64).map(
                         lambda x: float(round(x, 6))))


SCALES = [1., 1., 1., 1e-3, 1e3, 0.1]


def nonzero(lo=-8, hi=8):
    return quarter(lo, hi).filter(lambda x: x != 0)


# --------------------------------------------------------------------- axes
@st.composite
def axis(draw, min_size=2, max_size=7, even=None, scales=True):
    n = draw(st.integers(min_size, max_size))
    start = draw(quarter(-12, 12))
    if even is None:
        even = draw(st.booleans())
    if even:
        d = draw(st.integers(1, 12))/4.
        ax = [start + d*i for i in range(n)]
    else:
        ds = draw(st.lists(st.integers(1, 12), min_size=n - 1, max_size=n - 1))
        ax = [start]
        for d in ds:
            ax.append(ax[-1] + d/4.)
    if scales:
        f = draw(st.sampled_from(SCALES))
        if f != 1.:
            ax = [a*f for a in ax]
    return ax


@st.composite
def grid(draw, nx, ny, lo=-40, hi=40, scales=True, elem=None):
    if elem is None:
        elem = number(lo, hi)
    vals = draw(st.lists(elem, min_size=nx*ny, max_size=nx*ny))
    if scales:
        f = draw(st.sampled_from(SCALES))
        if f != 1.:
            vals = [v*f for v in vals]
    return [vals[i*ny:(i + 1)*ny] for i in range(nx)]


@st.composite
def mask(draw, nx, ny, kinds=('none', 'none', 'few', 'half', 'border'),
         keep_one=True):
    """List of lists of 0/1 (or None)."""
    kind = draw(st.sampled_from(list(kinds)))
    if kind == 'none':
        return None
    m = [[0]*ny for _ in range(nx)]
    if kind == 'few':
        k = draw(st.integers(1, max(1, nx*ny//4)))
        for _ in range(k):
            i = draw(st.integers(0, nx - 1))
            j = draw(st.integers(0, ny - 1))
            m[i][j] = 1
    elif kind == 'half':
        bits = draw(st.lists(st.integers(0, 1), min_size=nx*ny,
                             max_size=nx*ny))
        m = [bits[i*ny:(i + 1)*ny] for i in range(nx)]
    elif kind == 'border':
        l, r = draw(st.integers(0, 1)), draw(st.integers(0, 1))
        d, u = draw(st.integers(0, 1)), draw(st.integers(0, 1))
        for i in range(nx):
            for j in range(ny):
                if i < l or i >= nx - r or j < d or j >= ny - u:
                    m[i][j] = 1
    elif kind == 'all':
        m = [[1]*ny for _ in range(nx)]
    if keep_one and all(all(r) for r in m):
        i = draw(st.integers(0, nx - 1))
        j = draw(st.integers(0, ny - 1))
        m[i][j] = 0
    return m


@st.composite
def sf_case(draw, min_size=2, max_size=6, even=None, masks=True, unit_v=None,
            unit_xy=None, lo=-40, hi=40, elem=None, scales=True, kinds=None):
    ax = draw(axis(min_size, max_size, even, scales))
    ay = draw(axis(min_size, max_size, even, scales))
    v = draw(grid(len(ax), len(ay), lo, hi, scales, elem))
    m = None
    if masks:
        m = draw(mask(len(ax), len(ay), kinds) if kinds
                 else mask(len(ax), len(ay)))
    return {'x': ax, 'y': ay, 'v': v, 'm': m,
            'ux': draw(unit_xy or unit_len()), 'uy': draw(unit_xy or unit_len()),
            'uv': draw(unit_v or unit_any())}


@st.composite
def vf_case(draw, min_size=2, max_size=6, even=None, masks=True, unit_v=None,
            unit_xy=None, lo=-40, hi=40, elem=None, scales=True, kinds=None):
    c = draw(sf_case(min_size, max_size, even, masks, unit_v, unit_xy, lo, hi,
                     elem, scales, kinds))
    c['vx'] = c.pop('v')
    c['vy'] = draw(grid(len(c['x']), len(c['y']), lo, hi, scales, elem))
    return c


def np_mask(m, shape):
    if m is None:
        return np.zeros(shape, dtype=bool)
    return np.array(m, dtype=bool).reshape(shape)


def build_sf(c):
    sf = ScalarField()
    m = None if c['m'] is None else np.array(c['m'], dtype=bool)
    sf.import_from_arrays(np.array(c['x']), np.array(c['y']), np.array(c['v'], dtype=float),
                          mask=m, unit_x=c['ux'], unit_y=c['uy'],
                          unit_values=c['uv'])
    return sf


def build_vf(c):
    vf = VectorField()
    m = np_mask(c['m'], (len(c['x']), len(c['y'])))
    vf.import_from_arrays(np.array(c['x']), np.array(c['y']),
                          np.array(c['vx'], dtype=float), np.array(c['vy'], dtype=float), mask=m,
                          unit_x=c['ux'], unit_y=c['uy'], unit_values=c['uv'])
    return vf


def is_masked_case(c):
    return c['m'] is not None and any(any(r) for r in c['m'])


class G(object):
    """Grid model: plain numpy copy of a field (masked entries are NaN)."""

    def __init__(self, x, y, comps, mask, ux, uy, uv):
        self.x = np.array(x, dtype=float)
        self.y = np.array(y, dtype=float)
        self.comps = [np.array(c, dtype=float) for c in comps]
        self.mask = np.array(mask, dtype=bool)
        for c in self.comps:
            c[self.mask] = np.nan
        self.ux, self.uy, self.uv = ux, uy, uv

    @classmethod
    def of_case(cls, c):
        shape = (len(c['x']), len(c['y']))
        comps = [c['v']] if 'v' in c else [c['vx'], c['vy']]
        return cls(c['x'], c['y'], comps, np_mask(c['m'], shape),
                   make_unit(c['ux']), make_unit(c['uy']), make_unit(c['uv']))

    @classmethod
    def of_field(cls, f):
        if isinstance(f, ScalarField):
            comps = [np.array(f.values)]
        else:
            comps = [np.array(f.comp_x), np.array(f.comp_y)]
        return cls(np.array(f.axe_x), np.array(f.axe_y), comps,
                   np.array(f.mask), f.unit_x, f.unit_y, f.unit_values)

    def copy(self):
        return G(self.x, self.y, self.comps, self.mask, self.ux, self.uy,
                 self.uv)


def same_field(f, g, what, rtol=1e-9, units=True, joint=False, cls=None):
    """Field `f` of the library agrees with the model `g`."""
    from .core import check, close, same_bool, same_unit
    cls = cls or (ScalarField if len(g.comps) == 1 else VectorField)
    check(isinstance(f, cls), '{}: got {!r}', what, type(f))
    close(f.axe_x, g.x, what + ': x axis', rtol=max(rtol, 1e-12))
    close(f.axe_y, g.y, what + ': y axis', rtol=max(rtol, 1e-12))
    same_bool(f.mask, g.mask, what + ': mask')
    got = G.of_field(f)
    scale = None
    if joint:
        fin = np.abs(np.concatenate([c[np.isfinite(c)] for c in g.comps]))
        scale = fin.max() if fin.size else 1.
    for name, a, b in zip(['values', 'comp_y'] if len(g.comps) == 1
                          else ['comp_x', 'comp_y'], got.comps, g.comps):
        a = np.where(g.mask, np.nan, a)
        close(a, b, what + ': ' + name, rtol=rtol, scale=scale)
    if units:
        same_unit(f.unit_x, g.ux, what + ': unit_x')
        same_unit(f.unit_y, g.uy, what + ': unit_y')
        same_unit(f.unit_values, g.uv, what + ': unit_values')


def to_unit(g_model, f_unit_values):
    """Model comps expressed in another values unit."""
    k = float((g_model.uv/f_unit_values).asNumber(1))
    return k


def same_physics(f, g, what, rtol=1e-9):
    """Like same_field, the values being compared as physical quantities."""
    from .core import check, fail
    check(hasattr(f, 'unit_values'), '{}: got {!r}', what, type(f))
    try:
        k = float((f.unit_values/g.uv).asNumber(1))
    except Exception:
        fail('{}: values in {} instead of {}', what, f.unit_values, g.uv)
    g2 = g.copy()
    if k != 0:
        g2.comps = [c/k for c in g2.comps]
    g2.uv = f.unit_values
    same_field(f, g2, what, rtol=rtol)


# ------------------------------------------------------------ profiles, points
@st.composite
def prof_case(draw, min_size=2, max_size=9, masks=True, even=None, elem=None,
              shuffled=False, scales=True):
    x = draw(axis(min_size, max_size, even, scales))
    n = len(x)
    y = draw(st.lists(elem or number(), min_size=n, max_size=n))
    m = None
    if masks and draw(st.booleans()):
        m = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
        if all(m):
            m[draw(st.integers(0, n - 1))] = 0
    c = {'x': x, 'y': y, 'm': m, 'ux': draw(unit_any()), 'uy': draw(unit_any()),
         'name': draw(st.sampled_from(['', 'prof']))}
    if shuffled:
        c['order'] = draw(st.permutations(list(range(n))))
    return c


def build_prof(c):
    m = False if c['m'] is None else np.array(c['m'], dtype=bool)
    return Profile(np.array(c['x']), np.array(c['y'], dtype=float), mask=m, unit_x=c['ux'],
                   unit_y=c['uy'], name=c['name'])


@st.composite
def pts_case(draw, min_size=1, max_size=9, v=None, distinct=False, scales=True):
    n = draw(st.integers(min_size, max_size))
    co = quarter(-20, 20) if distinct else number(-20, 20)
    xy = draw(st.lists(st.tuples(co, co), min_size=n, max_size=n,
                       unique=bool(distinct)))
    if v is None:
        v = draw(st.booleans())
    return {'xy': [list(p) for p in xy],
            'v': draw(st.lists(number(), min_size=n, max_size=n)) if v else [],
            'ux': draw(unit_len()), 'uy': draw(unit_len()),
            'uv': draw(unit_any()), 'name': draw(st.sampled_from(['', 'pts']))}


def build_pts(c):
    return Points(np.array(c['xy'], dtype=float).reshape((-1, 2)), v=np.array(c['v'], dtype=float),
                  unit_x=c['ux'], unit_y=c['uy'], unit_v=c['uv'],
                  name=c['name'])


# ------------------------------------------------------------------- temporal
@st.composite
def temporal_case(draw, vector, min_n=1, max_n=5, min_size=2, max_size=4,
                  masks=True, same_mask=False, times=None, elem=None,
                  even=None, unit_v=None, scales=True):
    base = draw((vf_case if vector else sf_case)(
        min_size, max_size, even=even, masks=False, elem=elem, unit_v=unit_v,
        scales=scales))
    n = draw(st.integers(min_n, max_n))
    nx, ny = len(base['x']), len(base['y'])
    frames = []
    m0 = draw(mask(nx, ny)) if masks and same_mask else None
    for _ in range(n):
        fr = {'m': m0 if (same_mask or not masks) else draw(mask(nx, ny))}
        for k in (['vx', 'vy'] if vector else ['v']):
            fr[k] = draw(grid(nx, ny, elem=elem, scales=False))
        frames.append(fr)
    if times is None:
        ts = sorted(draw(st.lists(quarter(-20, 20), min_size=n, max_size=n,
                                  unique=True)))
    else:
        ts = draw(times(n))
    out = {k: base[k] for k in ('x', 'y', 'ux', 'uy', 'uv')}
    out.update(frames=frames, times=ts, ut=draw(st.sampled_from(TIMES + [''])))
    return out


def frame_cases(c):
    return [dict({k: c[k] for k in ('x', 'y', 'ux', 'uy', 'uv')}, **fr)
            for fr in c['frames']]


def build_temporal(c, vector):
    t = TemporalVectorFields() if vector else TemporalScalarFields()
    for fc, time in zip(frame_cases(c), c['times']):
        t.add_field((build_vf if vector else build_sf)(fc), time=float(time),
                    unit_times=c['ut'])
    return t
