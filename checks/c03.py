"""C03: operations leave their operands alone; in place or not is the same."""
import copy
import numpy as np
import unum
from hypothesis import strategies as st

from IMTreatment import make_unit
from IMTreatment.core import (Points, OrientedPoints, Profile, ScalarField,
                              VectorField, TemporalScalarFields,
                              TemporalVectorFields, SpatialScalarFields,
                              SpatialVectorFields, TemporalPoints)
from IMTreatment import vortex_criterions as vc
from IMTreatment import field_treatment as ft
from harness.core import Sub, check, fail
from harness import gens as g

ASSUMPTIONS = [
    'an operation that refuses its arguments must leave the object as it was '
    '(not in place), and refuse them in place too',
    'results are compared up to rounding; the values behind a mask are free',
    'interpolating functions returned by the objects are not followed',
    'the single field returned for a one-field series, and the fields stored '
    'with copy=False, are shared on request']


# --------------------------------------------------------------- observations
ATTRS = [
    (ScalarField, ['axe_x', 'axe_y', 'mask', 'values', 'unit_x', 'unit_y',
                   'unit_values']),
    (VectorField, ['axe_x', 'axe_y', 'mask', 'comp_x', 'comp_y', 'unit_x',
                   'unit_y', 'unit_values']),
    (Profile, ['x', 'mask', 'y', 'unit_x', 'unit_y', 'name']),
    (OrientedPoints, ['xy', 'v', 'orientations', 'unit_x', 'unit_y', 'unit_v',
                      'name']),
    (Points, ['xy', 'v', 'unit_x', 'unit_y', 'unit_v', 'name']),
    ((TemporalScalarFields, TemporalVectorFields),
     ['axe_x', 'axe_y', 'unit_x', 'unit_y', 'times', 'unit_times', 'fields']),
    ((SpatialScalarFields, SpatialVectorFields),
     ['unit_x', 'unit_y', 'unit_values', 'fields']),
    (TemporalPoints, ['times', 'unit_times', 'point_sets']),
]


def attrs(o):
    for cls, names in ATTRS:
        if isinstance(o, cls):
            return names
    return None


def snap(o, depth=0):
    """What an user sees of an object, as plain copies."""
    if depth > 6:
        return None
    names = attrs(o)
    if names is not None:
        d = {}
        for n in names:
            d[n] = snap(getattr(o, n), depth + 1)
        if 'mask' in d:
            for n in ('values', 'comp_x', 'comp_y', 'y'):
                if n in d and np.shape(d[n]) == np.shape(d['mask']):
                    d[n] = np.where(d['mask'], np.nan, d[n])
        return (type(o).__name__, d)
    if isinstance(o, np.ma.MaskedArray):
        return ('masked', np.ma.getmaskarray(o).copy(),
                np.where(np.ma.getmaskarray(o), np.nan, o.data))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return [snap(e, depth + 1) for e in o.ravel()]
        return np.array(o)
    if isinstance(o, unum.Unum):
        return ('unit', snap(o.asNumber(), depth + 1), o.strUnit())
    if isinstance(o, (list, tuple)):
        return [snap(e, depth + 1) for e in o]
    if isinstance(o, dict):
        return {str(k): snap(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (bool, int, float, complex, np.number, np.bool_)):
        return np.array(o)
    if isinstance(o, str) or o is None:
        return o
    return type(o).__name__


def diff(a, b, where='', tol=0.):
    """First difference between two observations, or None."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return '%s: shape %s / %s' % (where, a.shape, b.shape)
        if a.dtype.kind in 'OSU' or b.dtype.kind in 'OSU':
            return None if a.tolist() == b.tolist() else where
        if a.size == 0:
            return None
        if a.dtype.kind == 'b' or b.dtype.kind == 'b':
            return None if np.all(a == b) else '%s: %s / %s' % (
                where, a.tolist(), b.tolist())
        na, nb = np.isnan(a), np.isnan(b)
        if not np.all(na == nb):
            return '%s: %s / %s' % (where, a.tolist(), b.tolist())
        fin = np.isfinite(a)
        sc = np.max(np.abs(a[fin])) if np.any(fin) else 0.
        with np.errstate(all='ignore'):
            ok = na | (a == b) | (np.abs(a - b) <= tol*sc)
        return None if np.all(ok) else '%s: %s / %s' % (where, a.tolist(),
                                                        b.tolist())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d / %d elements' % (where, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, '%s[%d]' % (where, i), tol)
            if r:
                return r
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: %s / %s' % (where, sorted(a), sorted(b))
        for k in a:
            r = diff(a[k], b[k], '%s.%s' % (where, k), tol)
            if r:
                return r
        return None
    return None if a == b else '%s: %r / %r' % (where, a, b)


def scribble(o, depth=0):
    """Change everything reachable from an object through its public arrays."""
    if depth > 6:
        return
    names = attrs(o)
    if names is not None:
        for n in names:
            scribble(getattr(o, n), depth + 1)
        return
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            for e in o.ravel():
                scribble(e, depth + 1)
        elif o.flags.writeable and o.size:
            try:
                if o.dtype.kind == 'b':
                    o[...] = ~np.asarray(o)
                elif o.dtype.kind in 'fci':
                    np.asarray(o)[...] = np.asarray(o)*3 + 17
                    if isinstance(o, np.ma.MaskedArray):
                        o.data[...] = 13
            except ValueError:
                pass
    elif isinstance(o, (list, tuple)):
        for e in o:
            scribble(e, depth + 1)
    elif isinstance(o, dict):
        for e in o.values():
            scribble(e, depth + 1)


# ------------------------------------------------------------------- operations
class R(object):
    """Source of choices for the arguments."""
    def __init__(self, r):
        self.r, self.i = r, 0

    def u(self):
        self.i += 1
        return self.r[(self.i - 1) % len(self.r)]

    def n(self, a, b):
        return int(a + self.u() % (b - a + 1))

    def pick(self, l):
        return l[self.u() % len(l)]

    def flt(self):
        return self.n(0, 16)/16.

    def within(self, ax):
        """A position in an axis."""
        f = self.flt()
        return float(ax[0] + f*(ax[-1] - ax[0]))

    def interv(self, ax):
        a, b = sorted((self.within(ax), self.within(ax)))
        if self.n(0, 3) == 0:
            b = float(ax[-1])
        return [a, b]

    def size(self):
        return self.pick([None, 1, 2])


def xaxis(o):
    return o.axe_x if hasattr(o, 'axe_x') else np.sort(o.x)


def a_scale(o, r):
    kw = {}
    for k in ('scalex', 'scaley', 'scalev'):
        if r.n(0, 2):
            kw[k] = r.pick([2., -1., .5, 3])
            if r.n(0, 2) == 0:
                kw[k] = kw[k]*make_unit(r.pick(['m', 'kg', 's']))
    return [], kw


def a_scale_prof(o, r):
    a, kw = a_scale(o, r)
    kw.pop('scalev', None)
    return a, kw


def a_scale_t(o, r):
    a, kw = a_scale(o, r)
    if r.n(0, 1):
        kw['scalet'] = r.pick([2., .5, 3.])
    return a, kw


def a_crop(o, r):
    kw = {}
    if r.n(0, 1):
        kw['intervx'] = r.interv(o.axe_x)
    if r.n(0, 1):
        kw['intervy'] = r.interv(o.axe_y)
    if kw and r.n(0, 2) == 0:
        kw = {k: [0, r.n(1, len(o.axe_x if k == 'intervx' else o.axe_y) - 1)]
              for k in kw}
        kw['ind'] = True
    return [], kw


def a_crop_t(o, r):
    a, kw = a_crop(o, r)
    if 'ind' in kw:
        if r.n(0, 1):
            kw['intervt'] = [0, r.n(0, len(o.times) - 1)]
    elif r.n(0, 1):
        kw['intervt'] = r.interv(o.times)
    return a, kw


def a_extend(o, r):
    return [], {k: r.n(0, 2) for k in ('nmb_left', 'nmb_right', 'nmb_up',
                                       'nmb_down')}


def a_mirror(o, r):
    d = r.pick(['x', 'y'])
    ax = o.axe_x if d == 'x' else o.axe_y
    return [d, float(r.pick([ax[0], ax[-1]]))], \
        {'inds_to_mirror': r.pick(['all', 1, 2])}


def a_rotate(o, r):
    return [r.pick([90, 180, -90, 270, 0, 360])], {}


def a_rotate_any(o, r):
    return [r.pick([.3, 1., 90., 180., -40.])], {}


def a_fill(o, r):
    kw = {'kind': r.pick(['linear', 'nearest', 'value', 'cubic']),
          'crop': bool(r.n(0, 1))}
    if kw['kind'] == 'value':
        kw['value'] = 2. if isinstance(o, (ScalarField, TemporalScalarFields)) \
            else [2., 3.]
    return [], kw


def a_fill_t(o, r):
    a, kw = a_fill(o, r)
    kw['tof'] = r.pick(['spatial', 'temporal'])
    if kw['tof'] == 'temporal' and kw['kind'] == 'cubic':
        kw['kind'] = 'linear'
    return a, kw


def a_smooth(o, r):
    return [], {'tos': r.pick(['uniform', 'gaussian']), 'size': r.size()}


def a_none(o, r):
    return [], {}


def a_hard(o, r):
    return [], {'hard': bool(r.n(0, 1))}


def a_fact(o, r):
    return [r.pick([1, 2, 3])], {}


def a_fprof(o, r):
    d = r.pick(['x', 'y'])
    ax = o.axe_x if d == 'x' else o.axe_y
    ind = bool(r.n(0, 1))
    n = len(ax)
    if ind:
        p = r.n(0, n - 1) if r.n(0, 1) else [0, r.n(1, n - 1)]
    else:
        p = r.within(ax) if r.n(0, 1) else r.interv(ax)
    comp = [] if isinstance(o, ScalarField) else [r.pick(['comp_x', 'comp_y',
                                                         'vx', 'vy'])]
    return comp + [d, p], {'ind': ind, 'interp': r.pick(['linear', 'nearest'])}


def a_value(o, r):
    if r.n(0, 1):
        return [r.n(0, len(o.axe_x) - 1), r.n(0, len(o.axe_y) - 1)], \
            {'ind': True, 'unit': bool(r.n(0, 1))}
    return [r.within(o.axe_x), r.within(o.axe_y)], {'unit': bool(r.n(0, 1))}


def a_dir(o, r):
    return [r.pick(['x', 'y'])], {}


def a_line(o, r):
    d = r.pick(['x', 'y'])
    return [d, r.interv(o.axe_x if d == 'x' else o.axe_y)], {}


def a_surf(o, r):
    return [], {'intervx': r.pick([None, r.interv(o.axe_x)]),
                'intervy': r.pick([None, r.interv(o.axe_y)])}


def a_around(o, r):
    return [[r.within(o.axe_x), r.within(o.axe_y)],
            float(o.axe_x[-1] - o.axe_x[0])/r.pick([1., 2.])], {}


def a_zone(o, r):
    return [], {'bornes': [.5, 1.], 'kind': r.pick(['ponderated', 'center',
                                                    'extremum'])}


def a_nearest(o, r):
    return [[[r.within(o.axe_x), r.within(o.axe_y)] for _ in range(2)]], \
        {'extrema': r.pick(['min', 'max'])}


def a_pcrop(o, r):
    kw = {}
    k = r.n(0, 2)
    if k == 0:
        return [], {'intervx': [0, r.n(1, len(o.x))], 'ind': True}
    if k == 1:
        kw['intervx'] = r.interv(np.sort(o.x))
    else:
        y = np.sort(o.y[~o.mask])
        if len(y):
            kw['intervy'] = r.interv(y)
    return [], kw


def a_pfill(o, r):
    return [], {'kind': r.pick(['fill', 'nearest', 'slinear', 'value'])
                .replace('fill', 'slinear'), 'fill_value': 2.,
                'crop': bool(r.n(0, 1))}


def a_aug(o, r):
    return [], {'fact': r.pick([1, 2, 3]), 'interp': 'linear'}


def a_psmooth(o, r):
    return [], {'tos': r.pick(['uniform', 'gaussian']), 'size': r.size(),
                'direction': r.pick(['x', 'y', 'xy'])}


def a_interp(o, r):
    return [], {'x': r.pick([r.within(np.sort(o.x)),
                             [r.within(np.sort(o.x)) for _ in range(2)]])}


def a_interp_y(o, r):
    y = np.sort(o.y[~o.mask])
    return [r.within(y) if len(y) else 0.], {}


def a_grad(o, r):
    return [], {'position': r.pick([None, r.within(np.sort(o.x))])}


def a_wlen(o, r):
    return [r.n(1, max(1, len(o.x) - 2))], {}


def a_other(o, r):
    p = o.copy()
    p.y = p.y*2. + 1.
    return [p], {}


def a_ptcrop(o, r):
    kw = {}
    if len(o):
        if r.n(0, 1):
            kw['intervx'] = r.interv(np.sort(o.xy[:, 0]))
        if r.n(0, 1):
            kw['intervy'] = r.interv(np.sort(o.xy[:, 1]))
        if len(o.v) and r.n(0, 1):
            kw['intervv'] = r.interv(np.sort(o.v))
    return [], kw


def a_cut(o, r):
    a, kw = a_ptcrop(o, r)
    kw.pop('intervv', None)
    return a, kw


def a_sort(o, r):
    ref = r.pick(['x', 'y'] + (['v'] if len(o.v) else []))
    if r.n(0, 2) == 0:
        ref = list(range(len(o)))[::-1]
    return [], {'ref': ref}


def a_exp(o, r):
    ch = ['x', 'y'] + (['v'] if len(o.v) else [])
    return [], {'axe_x': r.pick(ch), 'axe_y': r.pick(ch)}


def a_sf_around(o, r):
    """A field covering the points."""
    lo, hi = np.min(o.xy, axis=0) - 1., np.max(o.xy, axis=0) + 1.
    f = ScalarField()
    ax, ay = np.linspace(lo[0], hi[0], 4), np.linspace(lo[1], hi[1], 5)
    f.import_from_arrays(ax, ay, np.add.outer(ax, 2*ay), unit_x=o.unit_x,
                         unit_y=o.unit_y, unit_values='kg')
    return f


def a_evol(o, r):
    return [a_sf_around(o, r)], {}


def a_timeprof(o, r):
    comp = 'values' if isinstance(o, TemporalScalarFields) else \
        r.pick(['comp_x', 'comp_y'])
    return [comp, [r.within(o.axe_x), r.within(o.axe_y)]], {}


def a_time(o, r):
    return [r.within(o.times)], {}


def a_nmb(o, r):
    return [r.n(1, len(o.times))], {}


def a_redt(o, r):
    return [r.n(1, max(1, len(o.times)))], {'mean': bool(r.n(0, 1))}


def a_spec(o, r):
    f = 1./max(1e-6, float(o.times[-1] - o.times[0]))
    return [f*.2, f*.4], {}


def a_grid(o, r):
    f = o.fields[0]
    return [np.linspace(f.axe_x[0], f.axe_x[-1], 3),
            np.linspace(f.axe_y[0], f.axe_y[-1], 3)], {}


def a_sval(o, r):
    f = r.pick(o.fields)
    return [r.within(f.axe_x), r.within(f.axe_y)], {'unit': bool(r.n(0, 1)),
                                                    'error': False}


def a_sprof(o, r):
    f = r.pick(o.fields)
    d = r.pick([1, 2])
    return [d, r.within(f.axe_x if d == 1 else f.axe_y)], \
        {'component': None if isinstance(o, SpatialScalarFields)
         else r.pick([None, 'magnitude', 'theta'])}


def a_tpcrop(o, r):
    kw = {}
    if r.n(0, 1):
        kw['intervx'] = [-5., r.n(-3, 8)*1.]
    if r.n(0, 1):
        kw['intervy'] = [-5., r.n(-3, 8)*1.]
    if r.n(0, 1):
        kw['intervt'] = r.interv(o.times)
    return [], kw


def a_wt(o, r):
    return [], {'std_coef': r.pick([.5, 1., 3.]),
                'treatment': r.pick(['interpolate', 'remove'])}


def a_num(o, r):
    return [r.pick([2., -3, 2.*make_unit('m')])], {}


def a_same(o, r):
    return [o.copy()], {}


def a_pow(o, r):
    return [r.pick([2, 3, -1])], {}


FIELD = [
    ('scale', 1, a_scale), ('crop', 1, a_crop), ('extend', 1, a_extend),
    ('mirroring', 1, a_mirror), ('rotate', 1, a_rotate),
    ('crop_masked_border', 1, a_hard), ('fill', 1, a_fill),
    ('smooth', 1, a_smooth), ('reduce_spatial_resolution', 1, a_fact),
    ('copy', 0, a_none),
    ('get_props', 0, a_none), ('get_norm', 0, a_none),
    ('get_value', 0, a_value), ('get_profile', 0, a_fprof),
    ('get_points_around', 0, a_around),
    ('__add__', 0, a_same), ('__sub__', 0, a_same), ('__mul__', 0, a_num),
    ('__truediv__', 0, a_num), ('__neg__', 0, a_none), ('__pow__', 0, a_pow)]
SF = FIELD + [
    ('get_histogram', 0, a_none), ('get_spatial_autocorrelation', 0, a_dir),
    ('get_spatial_spectrum', 0, a_dir), ('integrate_over_line', 0, a_line),
    ('integrate_over_surface', 0, a_surf), ('export_to_scatter', 0, a_none),
    ('get_zones_centers', 0, a_zone), ('get_nearest_extrema', 0, a_nearest),
    ('@values_as_sf', 0, a_none), ('@mask_as_sf', 0, a_none),
    ('__mul__', 0, a_same), ('__truediv__', 0, a_same),
    ('%get_gradients', 0, a_none)]
VF = FIELD + [
    ('@comp_x_as_sf', 0, a_none), ('@comp_y_as_sf', 0, a_none),
    ('@magnitude_as_sf', 0, a_none), ('@theta_as_sf', 0, a_none),
    ('@mask_as_sf', 0, a_none), ('@magnitude', 0, a_none),
    ('@theta', 0, a_none),
    ('%get_gradients', 0, a_none), ('%get_jacobian_eigenproperties', 0, a_none),
    ('%get_divergence', 0, a_none), ('%get_grad_field', 0, a_none),
    ('%get_track_field', 0, a_none), ('%get_shear_stress', 0, a_none),
    ('%get_vorticity', 0, a_none), ('%get_q_criterion', 0, a_none),
    ('%get_lambda2', 0, a_none), ('%get_residual_vorticity', 0, a_none),
    ('%get_swirling_strength', 0, a_none), ('%get_gamma', 0, a_none),
    ('%get_kappa', 0, a_none), ('%get_iota', 0, a_none),
    ('%get_Nk_criterion', 0, a_none), ('%get_delta_criterion', 0, a_none),
    ('%get_enstrophy', 0, a_none), ('%get_angle_deviation', 0, a_none),
    ('%get_stokes_vorticity', 0, a_none)]
PROF = [
    ('scale', 1, a_scale_prof), ('crop', 1, a_pcrop), ('fill', 1, a_pfill),
    ('crop_masked_border', 1, a_none), ('rotate', 1, a_rotate_any),
    ('augment_resolution', 1, a_aug), ('evenly_space', 1, a_none),
    ('smooth', 1, a_psmooth), ('remove_doublons', 1, a_none),
    ('remove_nans', 1, a_none), ('remove_marginal_values', 1, a_none),
    ('remove_local_marginal_values', 1, a_none), ('copy', 0, a_none),
    ('get_interpolated_values', 0, a_interp), ('get_value_position', 0,
                                                a_interp_y),
    ('get_integral', 0, a_none), ('get_gradient', 0, a_grad),
    ('get_spectrum', 0, a_none), ('get_pdf', 0, a_none),
    ('get_auto_correlation', 0, a_wlen), ('get_extrema_position', 0, a_none),
    ('get_convolution', 0, a_other), ('get_dephasage', 0, a_other),
    ('get_convolution_of_difference', 0, a_other),
    ('get_distribution', 0, a_none), ('get_wavelet_transform', 0, a_none),
    ('@max', 0, a_none), ('@min', 0, a_none), ('@mean', 0, a_none),
    ('__add__', 0, a_same), ('__sub__', 0, a_same), ('__mul__', 0, a_num),
    ('__truediv__', 0, a_num), ('__neg__', 0, a_none), ('__pow__', 0, a_pow)]
PTS = [
    ('scale', 1, a_scale), ('crop', 1, a_ptcrop), ('cut', 0, a_cut),
    ('rotate', 1, a_rotate_any), ('sort', 1, a_sort),
    ('remove_doublons', 1, a_none), ('remove_nans', 1, a_none),
    ('augment_resolution', 1, a_aug), ('smooth', 1, a_smooth),
    ('copy', 0, a_none), ('export_to_profile', 0, a_exp),
    ('get_velocity', 0, a_none), ('get_evolution_on_sf', 0, a_evol),
    ('get_points_density', 0, a_none), ('fit', 0, a_none),
    ('__add__', 0, a_same)]
OPTS = [e for e in PTS if e[0] in ('scale', 'crop', 'cut', 'rotate', 'sort',
                                   'copy', 'export_to_profile', '__add__')]
TMP = [
    ('scale', 1, a_scale_t), ('crop', 1, a_crop_t), ('extend', 1, a_extend),
    ('mirroring', 1, a_mirror), ('rotate', 1, a_rotate),
    ('crop_masked_border', 1, a_hard), ('fill', 1, a_fill_t),
    ('smooth', 1, a_smooth), ('reduce_spatial_resolution', 1, a_fact),
    ('reduce_temporal_resolution', 1, a_redt),
    ('augment_temporal_resolution', 1, a_fact),
    ('remove_weird_fields', 1, a_wt), ('get_spectral_filtering', 1, a_spec),
    ('copy', 0, a_none),
    ('get_mean_field', 0, a_nmb), ('get_fluctuant_fields', 0, a_none),
    ('get_interpolated_field', 0, a_time), ('get_time_profile', 0, a_timeprof),
    ('get_temporal_spectrum', 0, a_timeprof),
    ('get_recurrence_map', 0, a_none),
    ('__add__', 0, a_same), ('__sub__', 0, a_same), ('__mul__', 0, a_num),
    ('__truediv__', 0, a_num), ('__neg__', 0, a_none), ('__pow__', 0, a_pow),
    ('@mask', 0, a_none), ('@mask_cum', 0, a_none),
    ('@mask_as_sf', 0, a_none), ('@mask_cum_as_sf', 0, a_none)]
TSF = TMP + [('get_min_field', 0, a_nmb), ('get_max_field', 0, a_nmb),
             ('@values', 0, a_none)]
TVF = TMP + [('get_tke', 0, a_none), ('get_mean_tke', 0, a_none),
             ('get_mean_kinetic_energy', 0, a_none),
             ('get_turbulent_intensity', 0, a_none),
             ('get_reynolds_stress', 0, a_none),
             ('get_time_auto_correlation', 0, a_none),
             ('@magnitude_as_sf', 0, a_none), ('@magnitude', 0, a_none),
             ('%get_vorticity', 0, a_none), ('%get_divergence', 0, a_none)]
SPA = [('scale', 1, a_scale), ('rotate', 1, a_rotate), ('smooth', 1, a_smooth),
       ('copy', 0, a_none), ('get_value', 0, a_sval),
       ('get_values_on_grid', 0, a_grid), ('get_profile', 0, a_sprof),
       ('__mul__', 0, a_num), ('__neg__', 0, a_none),
       ('__truediv__', 0, a_num), ('__pow__', 0, a_pow)]
TPT = [('scale', 1, a_scale_t), ('crop', 1, a_tpcrop), ('smooth', 1, a_smooth),
       ('copy', 0, a_none)]
TABLE = {'SF': SF, 'VF': VF, 'PROF': PROF, 'PTS': PTS, 'OPTS': OPTS,
         'TSF': TSF, 'TVF': TVF, 'SSF': SPA, 'SVF': SPA, 'TPT': TPT}


# -------------------------------------------------------------------- operations
def build(c):
    k, o = c['kind'], c['o']
    if k == 'SF':
        return g.build_sf(o)
    if k == 'VF':
        return g.build_vf(o)
    if k == 'PROF':
        return g.build_prof(o)
    if k == 'PTS':
        return g.build_pts(o)
    if k == 'OPTS':
        p = g.build_pts(o)
        n = len(p.xy)
        ori = np.arange(4.*n).reshape((n, 2, 2)) - 3.
        return OrientedPoints(xy=p.xy, orientations=ori, v=p.v,
                              unit_x=p.unit_x, unit_y=p.unit_y,
                              unit_v=p.unit_v, name=p.name)
    if k in ('TSF', 'TVF'):
        return g.build_temporal(o, k == 'TVF')
    if k in ('SSF', 'SVF'):
        s = SpatialScalarFields() if k == 'SSF' else SpatialVectorFields()
        for i, f in enumerate(o):
            f = dict(f, ux='m', uy=o[0]['uy'])
            f = g.build_sf(f) if k == 'SSF' else g.build_vf(f)
            s.add_field(f)
        return s
    if k == 'TPT':
        t = TemporalPoints()
        for i, p in enumerate(o):
            t.add_pts(g.build_pts(p), time=float(i), unit_times='s')
        return t


def call(name, o, a, kw):
    if name.startswith('@'):
        return getattr(o, name[1:])
    if name.startswith('%'):
        f = getattr(ft, name[1:], None) or getattr(vc, name[1:])
        return f(o, *a, **kw)
    return getattr(o, name)(*a, **kw)


def attempt(name, o, a, kw):
    try:
        return call(name, o, a, kw), None
    except Exception as e:
        return None, e


def cases(kind, obj):
    return st.fixed_dictionaries({
        'kind': st.just(kind), 'o': obj,
        'op': st.integers(0, len(TABLE[kind]) - 1),
        'r': st.lists(st.integers(0, 1000), min_size=6, max_size=6)})


RT = 1e-9


def run(c, rec):
    name, has_inplace, argf = TABLE[c['kind']][c['op']]
    o = build(c)
    first = snap(o)
    try:
        a, kw = argf(o, R(c['r']))
    except (ValueError, IndexError):
        rec.mark_trivial()
        return
    check(not diff(first, snap(o)), 'reading the object changed it')
    what = '%s.%s' % (type(o).__name__, name)
    args0 = snap([a, kw])
    # not in place
    kw1 = dict(kw, inplace=False) if has_inplace else kw
    res, err = attempt(name, o, a, kw1)
    d = diff(first, snap(o), 'object')
    check(not d, '%s changed its object (%s): %s'
          % (what, 'refused: %r' % err if err else 'not in place', d))
    d = diff(args0, snap([a, kw]), 'arguments')
    check(not d, '%s changed its arguments: %s' % (what, d))
    rec.label('%s %s' % (what, 'refused' if err else 'ok'))
    if err is not None:
        rec.mark_trivial()
    else:
        if has_inplace:
            check(res is not None, '%s: nothing returned' % what)
            check(res is not o, '%s: the object itself is returned' % what)
        r0 = snap(res)
        # asking again gives the same
        res2, err2 = attempt(name, o, a, kw1)
        check(err2 is None, '%s: refused the second time: %r' % (what, err2))
        d = diff(r0, snap(res2), 'result', RT)
        check(not d, '%s: another result the second time: %s' % (what, d))
        # the result is independent of the object and of the arguments
        scribble(res)
        d = diff(first, snap(o), 'object')
        check(not d, '%s: the result shares data with the object: %s'
              % (what, d))
        d = diff(args0, snap([a, kw]), 'arguments')
        check(not d, '%s: the result shares data with the arguments: %s'
              % (what, d))
        d = diff(r0, snap(res2), 'result', RT)
        check(not d, '%s: successive results share data: %s' % (what, d))
    # in place
    if has_inplace:
        p = build(c)
        resp, errp = attempt(name, p, a, dict(kw, inplace=True))
        check((err is None) == (errp is None), '%s: %r, but %r in place'
              % (what, err, errp))
        if err is None:
            if type(resp) is type(p):
                d = diff(snap(p), snap(resp), 'returned')
                check(not d, '%s: in place, something else is returned: %s'
                      % (what, d))
            d = diff(r0, snap(p), 'result', RT)
            check(not d, '%s: in place differs: %s' % (what, d))
            d = diff(args0, snap([a, kw]), 'arguments')
            check(not d, '%s changed its arguments: %s' % (what, d))
    # the object still works
    if err is None:
        scribble(o)
        d = diff(r0, snap(res2), 'result', RT)
        check(not d, '%s: the result follows the object: %s' % (what, d))


fields = lambda f: st.one_of(f(3, 6, even=True), f(3, 6), f(3, 6, even=True))
tmpo = lambda v: g.temporal_case(v, 1, 5, 3, 4)
SUBS = [
    Sub('sf', cases('SF', fields(g.sf_case)), run, 'not refused', quick=1800),
    Sub('vf', cases('VF', fields(g.vf_case)), run, 'not refused', quick=2200),
    Sub('prof', cases('PROF', g.prof_case(3, 9)), run, 'not refused', quick=1400),
    Sub('pts', cases('PTS', g.pts_case(2, 8)), run, 'not refused', quick=1000),
    Sub('opts', cases('OPTS', g.pts_case(1, 6)), run, 'not refused', quick=500),
    Sub('tsf', cases('TSF', tmpo(False)), run, 'not refused', quick=1600),
    Sub('tvf', cases('TVF', tmpo(True)), run, 'not refused', quick=1600),
    Sub('spatial', st.one_of(
        cases('SSF', st.lists(g.sf_case(3, 5, unit_v=st.just('m/s')), min_size=1,
                              max_size=3)),
        cases('SVF', st.lists(g.vf_case(3, 5, unit_v=st.just('m/s')), min_size=1,
                              max_size=3))), run, 'not refused', quick=600),
    Sub('tpts', cases('TPT', st.lists(g.pts_case(1, 5, v=True), min_size=2,
                                      max_size=4)), run, 'not refused',
        quick=300),
]
