"""C16: proper orthogonal decomposition of series of fields."""
import numpy as np
from hypothesis import strategies as st
from scipy import ndimage

from IMTreatment import make_unit
from IMTreatment.core import (Profile, ScalarField, VectorField,
                              TemporalScalarFields,
                              TemporalVectorFields)
from IMTreatment.pod import modal_decomposition
from harness.core import (Sub, check, close, same_unit, fail, expect_raises,
                          same_bool)
from harness import gens as g

ASSUMPTIONS = [
    'decided for the proper orthogonal decomposition; the balanced and dynamic '
    'decompositions do not run with the installed version of modred',
    'values between 1/4 and 4000; at least two fields, not all equal',
    'masked fields keep their four corners, and are completed by linear '
    'interpolation before the decomposition',
    'modes are compared up to their sign, and to a rotation for modes of equal '
    'energy']


@st.composite
def series(draw, masks=True, max_n=6):
    vector = draw(st.booleans())
    c = draw(g.temporal_case(vector, min_n=2, max_n=max_n, min_size=2, max_size=4,
                             masks=False, elem=g.quarter(-8, 8)))
    c['vector'] = vector
    nx, ny = len(c['x']), len(c['y'])
    if draw(st.integers(0, 3)) == 0:
        # fields of small rank, with a time evolution that is periodic
        for k in (['vx', 'vy'] if vector else ['v']):
            a = np.array(c['frames'][0][k])
            b = np.array(c['frames'][-1][k])
            for i, fr in enumerate(c['frames']):
                fr[k] = (a*(i % 2) + b).tolist()
    if masks and draw(st.integers(0, 2)) == 0:
        for fr in c['frames']:
            m = np.array(g.np_mask(draw(g.mask(nx, ny, kinds=('few',))),
                                   (nx, ny)))
            m[0, 0] = m[0, -1] = m[-1, 0] = m[-1, -1] = False
            fr['m'] = m.tolist() if m.any() else None
    return c


@st.composite
def decomp_case(draw):
    c = draw(series())
    n = len(c['times'])
    c['wanted'] = draw(st.one_of(
        st.just('all'), st.just('all'), st.integers(1, n),
        st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)
        .map(sorted)))
    c['rec'] = draw(st.one_of(
        st.just('all'), st.integers(1, n),
        st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)))
    c['rt'] = draw(st.lists(st.floats(0, 1).map(lambda z: round(z, 3)),
                            min_size=1, max_size=3, unique=True))
    return c


def arrays(f):
    """Values of a field, as one array (component, x, y)."""
    if isinstance(f, VectorField):
        return np.array([f.comp_x, f.comp_y], dtype=float)
    return np.array([f.values], dtype=float)


def same_grid(f, c, what):
    close(f.axe_x, c['x'], what + ': x')
    close(f.axe_y, c['y'], what + ': y')
    same_unit(f.unit_x, make_unit(c['ux']), what + ': unit_x')
    same_unit(f.unit_y, make_unit(c['uy']), what + ': unit_y')


def run_decomp(c, rec):
    vector = c['vector']
    T = g.build_temporal(c, vector)
    ref = T.copy()
    filled = T.copy()
    masked = any(fr.get('m') is not None for fr in c['frames'])
    if masked:
        filled.fill(tof='spatial', kind='linear', inplace=True)
    data = np.array([arrays(f) for f in filled.fields])
    n = len(data)
    mean = data.mean(axis=0)
    fl = (data - mean).reshape(n, -1)
    big = np.abs(data).max()
    rec.label('vector' if vector else 'scalar', 'masked' if masked else 'full')
    s = np.linalg.svd(fl, compute_uv=False)
    if s[0] < 1e-3*max(big, 1e-3):
        rec.mark_trivial()
        return
    rank = int(np.sum(s > 1e-5*s[0]))
    if s[rank - 1] < 1e-2*s[0]:
        rec.label('ill conditioned')
        rec.mark_trivial()
        return
    wanted = c['wanted']
    asked = wanted if isinstance(wanted, (str, int)) else np.array(wanted)
    nmb = (np.arange(n) if wanted == 'all' else np.arange(wanted)
           if isinstance(wanted, int) else np.array(wanted))
    if not np.any(nmb < rank):
        rec.mark_trivial()
        return
    p = modal_decomposition(T, wanted_modes=asked, verbose=False)
    # (modes of no energy may be given or not)
    got = [int(k) for k in p.modes_nmb]
    sure = [int(k) for k in nmb if k < rank]
    check(got[:len(sure)] == sure and all(k in nmb for k in got),
          'modes {} instead of {}', got, sure)
    check(len(p.modes) == len(got) == len(p.temp_evo) == len(p.eigvals),
          'number of modes')
    g.same_field(p.mean_field, g.G.of_field(filled.get_mean_field()),
                 'mean field')
    close(arrays(p.mean_field), mean, 'mean field', scale=big)
    close(p.times, c['times'], 'times')
    same_unit(p.unit_times, make_unit(c['ut']), 'unit of the times')
    same_unit(p.unit_values, make_unit(c['uv']), 'unit of the values')
    k = len(sure)
    modes = np.array([arrays(f) for f in p.modes[:k]]).reshape(k, -1)
    for f in p.modes:
        same_grid(f, c, 'mode')
    coef = np.array([pr.y for pr in p.temp_evo[:k]])
    for pr in p.temp_evo:
        close(pr.x, c['times'], 'temporal evolution: times')
        same_unit(pr.unit_x, make_unit(c['ut']), 'temporal evolution: unit')
    eig = np.array(p.eigvals.y[:k])
    close(p.eigvals.x[:k], sure, 'numbers of the modes')
    close(eig, (s**2)[sure], 'energy of the modes', rtol=1e-7, scale=s[0]**2)
    close(modes.dot(modes.T), np.eye(k), 'modes are orthonormal', rtol=1e-6,
          scale=1.)
    close(coef, modes.dot(fl.T), 'temporal evolutions', rtol=1e-6, scale=s[0])
    vect = np.array(p.eigvects)[:, :k]
    close(vect.T.dot(vect), np.eye(k), 'eigenvectors', rtol=1e-6, scale=1.)
    # the modes span the right space: their correlation gives back the energy
    close((coef*coef).sum(axis=1), eig, 'energy of the evolutions', rtol=1e-6,
          scale=s[0]**2)
    nrj = p.get_modes_energy(raw=True)[:k]
    close(nrj, .5*(modes**2).sum(axis=1)/data[0][0].size*(coef**2).mean(axis=1),
          'modes energy', rtol=1e-7, scale=s[0]**2)
    close(p.get_modes_energy(cum=True).y[:k], np.cumsum(nrj), 'cumulated energy',
          rtol=1e-7, scale=s[0]**2)
    same_unit(p.get_modes_energy().unit_y, make_unit(c['uv'])**2, 'energy: unit')
    # reconstruction
    full = p.reconstruct()
    want = mean.reshape(-1) + coef.T.dot(modes)
    compare(full, want.reshape(data.shape), c, c['times'], big, 'reconstruct')
    if len(sure) == rank:
        close(want, data.reshape(n, -1), 'complete reconstruction', rtol=1e-6,
              scale=big)
        rec.label('complete')
    sel = c['rec']
    if sel == 'all':
        inds = list(range(k))
    elif isinstance(sel, int):
        sel = min(sel, k)
        inds = list(range(sel))
    else:
        inds = [i for i in sel if i < k]
        sel = np.array(inds) if len(inds) % 2 else list(inds)
        bad = [len(p.modes) + (max(c['rec']) - min(c['rec']))]
        expect_raises(lambda: p.reconstruct(bad), 'a mode that does not exist')
    if inds:
        part = p.reconstruct(wanted_modes=sel)
        want = mean.reshape(-1) + coef[inds].T.dot(modes[inds])
        compare(part, want.reshape(data.shape), c, c['times'], big,
                'reconstruct with modes {}'.format(inds))
        t0, t1 = c['times'][0], c['times'][-1]
        ts = sorted(set(t0 + z*(t1 - t0) for z in c['rt']))
        ts = [min(t, t1) for t in ts]
        part = p.reconstruct(wanted_modes=sel, times=ts)
        cf = np.array([np.interp(ts, c['times'], q) for q in coef[inds]])
        want = mean.reshape(-1) + cf.T.dot(modes[inds])
        compare(part, want.reshape((len(ts),) + data.shape[1:]), c, ts, big,
                'reconstruct at other times')
        expect_raises(lambda: p.reconstruct(times=[t1 + 1]),
                      'a time after the last one')
        expect_raises(lambda: p.reconstruct(times=[t0 - 1, t1]),
                      'a time before the first one')
    tf = p.modes_as_tf
    check(len(tf.fields) == len(p.modes), 'modes as fields: number')
    for a, b in zip(tf.fields[:k], modes):
        close(arrays(a).reshape(-1), b, 'modes as fields')
    # the series is not modified
    for a, b in zip(T.fields, ref.fields):
        g.same_field(a, g.G.of_field(b), 'the series given')
    close(T.times, ref.times, 'the times given')


def compare(tf, want, c, times, big, what):
    kind = TemporalVectorFields if c['vector'] else TemporalScalarFields
    check(isinstance(tf, kind), '{}: {!r}', what, type(tf))
    check(len(tf.fields) == len(want), '{}: {} fields instead of {}', what,
          len(tf.fields), len(want))
    close(tf.times, times, what + ': times', scale=max(np.abs(times).max(), 1.))
    same_unit(tf.unit_times, make_unit(c['ut']), what + ': unit of the times')
    for f, w in zip(tf.fields, want):
        same_grid(f, c, what)
        same_unit(f.unit_values, make_unit(c['uv']), what + ': unit of values')
        check(not np.any(f.mask), '{}: masked', what)
        close(arrays(f), w, what, rtol=1e-6, scale=big)


# ---------------------------------------------------------------- histories
OPS = ['crop_x', 'crop_y', 'crop_t', 'scale', 'base_keep', 'base_remove',
       'augment', 'smooth_t', 'smooth_s', 'coherence_s', 'coherence_t',
       'energy', 'copy', 'reconstruct']


@st.composite
def history_case(draw):
    c = draw(series(masks=False, max_n=9))
    if draw(st.booleans()):
        n = len(c['times'])
        c['times'] = [c['times'][0] + .5*i for i in range(n)]
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        o = {'op': draw(st.sampled_from(OPS)), 'inplace': draw(st.booleans())}
        op = o['op']
        if op.startswith('crop'):
            o.update(a=draw(st.integers(0, 3)),
                     b=draw(st.integers(1, 8 if op == 'crop_t' else 4)),
                     ind=draw(st.booleans()),
                     d=draw(st.sampled_from([0., 0.25, -0.25])))
        elif op == 'scale':
            o.update(x=draw(st.sampled_from([1., 2., .5])),
                     y=draw(st.sampled_from([1., 4., .25])),
                     t=draw(st.sampled_from([1., 2.])),
                     v=draw(st.sampled_from([1., 2., -1.5])))
        elif op.startswith('base'):
            o.update(form=draw(st.sampled_from(['int', 'list', 'array'])),
                     a=draw(st.lists(st.integers(0, 4), min_size=1, max_size=3,
                                     unique=True)))
        elif op == 'augment':
            o.update(fact=draw(st.integers(1, 3)))
        elif op.startswith('smooth'):
            o.update(tos=draw(st.sampled_from(['uniform', 'gaussian'])),
                     size=draw(st.sampled_from([None, 2, 1])))
        ops.append(o)
    c['ops'] = ops
    c['asked'] = draw(st.sampled_from(['', 't', 't', 's', 'st']))
    return c


class Model(object):
    def __init__(self, p, c):
        self.c = {k: c[k] for k in ('ux', 'uy', 'uv', 'ut', 'vector')}
        self.c['x'], self.c['y'] = np.array(c['x']), np.array(c['y'])
        self.mean = arrays(p.mean_field)
        self.modes = np.array([arrays(f) for f in p.modes])
        self.coef = np.array([pr.y for pr in p.temp_evo])
        self.times = np.array(c['times'], dtype=float)
        self.nmb = np.array(p.modes_nmb)
        by_number = dict(zip([int(k) for k in p.eigvals.x], p.eigvals.y))
        self.eig = np.array([by_number[int(k)] for k in self.nmb])
        self.vect = np.array(p.eigvects)

    def same(self, p, what):
        m = self
        check([int(k) for k in p.modes_nmb] == [int(k) for k in m.nmb],
              '{}: modes {} instead of {}', what, list(p.modes_nmb), m.nmb)
        check(len(p.modes) == len(p.temp_evo) == len(m.modes),
              '{}: number of modes', what)
        big = max(1., np.abs(m.mean).max(), np.abs(m.coef).max())
        for axe, k in ((p.axe_x, 'x'), (p.axe_y, 'y')):
            close(axe, m.c[k], what + ': axes')
        for f, w in zip(p.modes, m.modes):
            same_grid(f, m.c, what + ': mode')
            close(arrays(f), w, what + ': mode', rtol=1e-7, scale=1.)
        close(p.times, m.times, what + ': times', scale=max(
            1., np.abs(m.times).max()))
        for pr, w in zip(p.temp_evo, m.coef):
            close(pr.x, m.times, what + ': times of the evolutions', scale=max(
                1., np.abs(m.times).max()))
            close(pr.y, w, what + ': evolutions', rtol=1e-7, scale=big)
        # (the eigenvalues are a profile, sorted by the number of the mode)
        order = np.argsort(m.nmb)
        close(p.eigvals.x, m.nmb[order], what + ': numbers of the modes')
        close(p.eigvals.y, m.eig[order], what + ': eigenvalues', rtol=1e-9,
              scale=np.abs(m.eig).max())
        if m.vect is not None:
            close(p.eigvects, m.vect, what + ': eigenvectors', rtol=1e-9,
                  scale=1.)
        out = m.mean[None] + np.tensordot(m.coef.T, m.modes, 1)
        compare(p.reconstruct(), out, m.c, m.times, big, what + ', then '
                'reconstruct')


def smooth(a, tos, size, **kw):
    if tos == 'uniform':
        return ndimage.uniform_filter(a, size=3 if size is None else size, **kw)
    return ndimage.gaussian_filter(a, sigma=1 if size is None else size, **kw)


def cut(axe, o, inclusive):
    """(interval to ask, slice) for a crop, or None."""
    n = len(axe)
    a, b = sorted((min(o['a'], n - 1), min(o['b'], n - 1)))
    if b - a < 1:
        return None
    if o['ind']:
        return [a, b if inclusive else b + 1], slice(a, b + 1)
    lo, hi = axe[a] + o['d']*(axe[1] - axe[0])*0, axe[b]
    if o['d'] > 0 and a > 0:
        lo = (axe[a - 1] + axe[a])/2
    if o['d'] < 0 and b < n - 1:
        hi = (axe[b] + axe[b + 1])/2
    return [float(lo), float(hi)], slice(a, b + 1)


def temporal_coherence(p, m, rec):
    """The deviation of the normalized spectrum of each evolution, between
    the one of a random signal and the one of a pure tone."""
    n = len(m.times)
    dt = np.diff(m.times)
    if n < 4 or np.any(np.abs(dt - dt[0]) > 1e-6*dt[0]):
        return
    crit = np.exp(9.57253208/n**0.92940704) - 0.98559246
    top = np.zeros(n)
    top[0] = 1
    top = np.std(top/np.trapz(top))
    ref = []
    for q in m.coef:
        if np.abs(q).max() < 1e-6*np.abs(m.coef).max():
            ref.append(np.nan)
            continue
        y = np.sqrt(np.array(Profile(m.times, q).get_spectrum(
            scaling='spectrum').y))
        if y.max() < 1e-4*np.abs(q).max():
            # (a linear signal: its spectrum is a rounding error)
            ref.append(np.nan)
            continue
        ref.append((np.std(y/np.trapz(y))/top - crit)/(1 - crit))
    ref = np.array(ref)
    got = np.array(p.get_temporal_coherence(raw=True))
    check(len(got) == len(ref), 'temporal coherence: {} values', len(got))
    ok = ~np.isnan(ref)
    close(got[ok], ref[ok], 'temporal coherence', rtol=1e-5, scale=1.)
    pr = p.get_temporal_coherence()
    close(np.array(pr.y)[ok], ref[ok], 'temporal coherence, as a profile',
          rtol=1e-5, scale=1.)
    close(pr.x, np.arange(len(ref)), 'temporal coherence: modes')
    rec.label('temporal coherence')


def spec_std(a):
    from scipy.integrate import simpson
    sp = np.abs(np.real(np.fft.rfft2(a - a.mean())))
    sp = np.fft.fftshift(sp)
    return np.std(sp/simpson(simpson(sp)))


def spatial_coherence(p, m, rec):
    """The deviation of the normalized spectrum of each mode, between the one
    of random fields (which are drawn) and the one of a single wave."""
    from scipy.integrate import simpson
    shape = m.modes.shape[2:]
    if min(shape) < 3:
        return
    sd = np.array([np.mean([spec_std(a) for a in md]) for md in m.modes])
    top = np.zeros(shape)
    i, j = shape[0]//2, shape[1]//2
    top[i:i + 2, j:j + 2] = 1.
    top = np.std(top/simpson(simpson(top)))
    got = np.array(p.get_spatial_coherence(raw=True))
    check(len(got) == len(sd), 'spatial coherence: {} values for {} modes',
          len(got), len(sd))
    again = p.get_spatial_coherence()
    close(again.y, got, 'spatial coherence, as a profile')
    close(again.x, np.arange(len(got)), 'spatial coherence: modes')
    small = np.array([np.abs(md).max() < 1e-6 for md in m.modes])
    ok = np.isfinite(sd) & (sd < 1e3) & ~small
    if np.sum(ok) < 2:
        return
    # (1 - coherence)*(largest - random) = largest - deviation, with the same
    # 'random' for all the modes
    u, w = 1 - got[ok], top - sd[ok]
    k = np.dot(u, w)/np.dot(u, u)
    close(u*k, w, 'spatial coherence', rtol=1e-5, scale=np.abs(w).max())
    rec.label('spatial coherence')


def run_history(c, rec):
    T = g.build_temporal(c, c['vector'])
    data = np.array([arrays(f) for f in T.fields])
    fl = (data - data.mean(axis=0)).reshape(len(data), -1)
    s = np.linalg.svd(fl, compute_uv=False)
    if s[0] < 1e-3*max(np.abs(data).max(), 1e-3):
        rec.mark_trivial()
        return
    p = modal_decomposition(T, verbose=False)
    m = Model(p, c)
    m.same(p, 'decomposition')
    asked = set(c.get('asked', ''))
    if 's' in asked:
        spatial_coherence(p, m, rec)
    if 't' in asked:
        temporal_coherence(p, m, rec)
    for o in c['ops']:
        op = o['op']
        before = None
        inplace = o['inplace']
        old = Model(p, dict(m.c, times=m.times))
        kw = {'inplace': inplace}
        if op in ('crop_x', 'crop_y', 'crop_t'):
            k = op[-1]
            axe = m.times if k == 't' else m.c[k]
            r = cut(axe, o, inclusive=k != 't')
            if r is None:
                continue
            interv, sl = r
            out = p.crop(ind=o['ind'], **dict(kw, **{'interv' + k: interv}))
            if k == 't':
                m.times, m.coef = m.times[sl], m.coef[:, sl]
                m.vect = None   # one value per time: not decided after that
            else:
                m.c[k] = m.c[k][sl]
                s2 = (Ellipsis, sl, slice(None)) if k == 'x' \
                    else (Ellipsis, sl)
                m.mean, m.modes = m.mean[s2], m.modes[s2]
        elif op == 'scale':
            out = p.scale(scalex=o['x'], scaley=o['y'], scalet=o['t'],
                          scalev=o['v'], inplace=inplace)
            m.c['x'], m.c['y'] = m.c['x']*o['x'], m.c['y']*o['y']
            m.times = m.times*o['t']
            m.mean, m.coef = m.mean*o['v'], m.coef*o['v']
            # (the energies may follow the scale or not)
            e = np.array((out if not inplace else p).eigvals.y)
            if np.allclose(e, np.array(m.eig)[np.argsort(m.nmb)]*o['v']**2,
                           rtol=1e-9, atol=0):
                m.eig = m.eig*o['v']**2
        elif op in ('base_keep', 'base_remove'):
            n = len(m.modes)
            if o['form'] == 'int':
                k = min(max(o['a'][0], 1), n - (op == 'base_remove'))
                if k < 1:
                    continue
                arg = k
                keep = np.arange(k) if op == 'base_keep' else np.arange(n - k)
            else:
                ids = [i for i in o['a'] if i < n]
                keep = np.array(ids) if op == 'base_keep' else \
                    np.array([i for i in range(n) if i not in ids])
                if not ids or not len(keep):
                    continue
                arg = np.array(ids) if o['form'] == 'array' else ids
            out = p.crop_modal_base(**dict(kw, **{
                'modes_to_' + op[5:]: arg}))
            m.modes, m.coef, m.nmb = m.modes[keep], m.coef[keep], m.nmb[keep]
            m.eig = m.eig[keep]
            m.vect = None if m.vect is None else m.vect[:, keep]
        elif op == 'augment':
            out = p.augment_temporal_resolution(fact=o['fact'], **kw)
            new = (out if not inplace else p).temp_evo[0].x
            n = len(m.times)
            check(len(new) == (n - 1)*o['fact'] + 1 or
                  len(new) == n*o['fact'], 'augment: {} times', len(new))
            check(abs(new[0] - m.times[0]) < 1e-9 and
                  abs(new[-1] - m.times[-1]) < 1e-9 and
                  np.all(np.diff(new) > 0), 'augment: times {}', new.tolist())
            m.coef = np.array([np.interp(new, m.times, q) for q in m.coef])
            m.times = np.array(new)
            m.vect = None
        elif op == 'smooth_t':
            out = p.smooth_temporal_evolutions(tos=o['tos'], size=o['size'],
                                               **kw)
            m.coef = np.array([smooth(q, o['tos'], o['size'], mode='nearest')
                               for q in m.coef])
        elif op == 'smooth_s':
            out = p.smooth_spatial_evolutions(tos=o['tos'], size=o['size'],
                                              **kw)
            m.modes = np.array([[smooth(q, o['tos'], o['size'])
                                 for q in md] for md in m.modes])
        else:
            inplace = True
            if op == 'coherence_s':
                spatial_coherence(p, m, rec)
                asked.add('s')
            elif op == 'coherence_t':
                temporal_coherence(p, m, rec)
                asked.add('t')
            elif op == 'energy':
                a = p.get_modes_energy(raw=True)
                w = .5*np.array([np.mean(np.sum(q**2, axis=0))
                                 for q in m.modes])*(m.coef**2).mean(axis=1)
                close(a, w, 'energy of the modes', rtol=1e-7,
                      scale=max(np.abs(w).max(), 1e-9))
            elif op == 'copy':
                p = p.copy()
            elif op == 'reconstruct':
                p.reconstruct(times=[float(m.times[0])])
            out = None
        rec.label(op)
        if inplace:
            check(out is None, '{} in place returned {!r}', op, type(out))
        else:
            old.same(p, op + ' not in place: the decomposition given')
            p = out
        m.same(p, op)
        # what was asked once is not remembered after a change
        if 's' in asked:
            spatial_coherence(p, m, rec)
        if 't' in asked:
            temporal_coherence(p, m, rec)


SUBS = [
    Sub('decomposition', decomp_case(), run_decomp,
        'fields that are not all equal, well conditioned, with a mode asked',
        quick=400),
    Sub('history', history_case(), run_history,
        'fields that are not all equal', quick=400),
]
