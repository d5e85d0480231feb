"""C25: folders of measurement files are read in order, at the right places."""
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
import ReadIM
from harness.core import Sub, check, close, same_bool, same_unit, fail, \
    expect_raises
from harness import gens as g
from checks.c15 import Scratch
from IMTreatment import ScalarField, VectorField, TemporalScalarFields, \
    TemporalVectorFields, make_unit
from IMTreatment.core import SpatialScalarFields, SpatialVectorFields
from IMTreatment import file_operation as io

ASSUMPTIONS = [
    'DaVis files are generated with the ReadIM library itself: float and 16 '
    'bits pictures of one frame, two components vectors (plain and extended '
    'with their peak)',
    'DaVis stores 32 bits numbers: values are compared with 1e-6 relative '
    'accuracy',
    'the first field of a DaVis series is at one time step']

FLOAT, WORD, VEC, VECX = -3, -4, 2, 3


def write_davis(fn, fmt, grid, arr, sx, sy, si, dt=None):
    """Write an IM7/VC7 file; arr is indexed [component, row y, column x]."""
    ny, nx = arr.shape[1:]
    b = ReadIM.core.BufferType()
    err = ReadIM.CreateBuffer(b, nx, ny, 1, 1, int(fmt != WORD), grid, fmt)
    assert b.totalLines == ny or err in (0, 1), err
    for s, (f, o, u) in ((b.scaleX, sx), (b.scaleY, sy), (b.scaleI, si)):
        ReadIM.SetBufferScale(s, float(f), float(o), '', u)
    a, b2 = ReadIM.extra.buffer_as_array(b)
    a[...] = arr
    atts = ReadIM.load_AttributeList({} if dt is None else {'FrameDt0': dt})
    err = ReadIM.WriteIM7(fn, False, b, atts if dt is None else atts.next)
    assert not err, err
    ReadIM.DestroyBuffer(b)


@st.composite
def davis_case(draw, vector, n=1):
    nx, ny = draw(st.integers(2, 5)), draw(st.integers(2, 5))
    fac = st.sampled_from([.25, .5, 1., 2., -.25, -.5, -1., -2.])
    c = {'nx': nx, 'ny': ny, 'sx': [draw(fac), draw(g.quarter(-9, 9))],
         'sy': [draw(fac), draw(g.quarter(-9, 9))],
         'si': [draw(st.sampled_from([1., .5, 2., -1.])),
                draw(st.sampled_from([0., 0., 1., -2.5]))],
         'ux': draw(st.sampled_from(['mm', '[mm]', 'm', '[m]'])),
         'uv': draw(st.sampled_from(['m/s', 'counts', '[m/s]', '']))}
    if vector:
        c['fmt'] = draw(st.sampled_from([VEC, VECX]))
        c['grid'] = draw(st.sampled_from([1, 4, 8]))
        k = 2 if c['fmt'] == VEC else 10
    else:
        c['fmt'] = draw(st.sampled_from([FLOAT, WORD]))
        c['grid'] = 1
        k = 1
    el = st.integers(0, 60) if c['fmt'] == WORD else st.integers(
        -20, 20).map(lambda i: i/4.)
    nz = st.integers(0, 3)
    c['a'] = []
    for _ in range(n):
        a = []
        for comp in range(k):
            if c['fmt'] == VECX and comp in (0, 9):
                # choice of the vector, and validity
                a.append([[int(draw(nz) != 0) for _ in range(nx)]
                          for _ in range(ny)])
            else:
                a.append([[draw(el) for _ in range(nx)] for _ in range(ny)])
        c['a'].append(a)
    return c


def write(c, fn, i=0, dt=None):
    write_davis(fn, c['fmt'], c['grid'], np.array(c['a'][i], dtype=float),
                c['sx'] + [c['ux']], c['sy'] + [c['ux']], c['si'] + [c['uv']],
                dt)


def expected(c, i=0):
    """Model of the field: [x index, y index] on ascending axes."""
    a = np.array(c['a'][i], dtype=float)
    dx, x0 = c['sx']
    dy, y0 = c['sy']
    dx, dy = dx*c['grid'], dy*c['grid']
    x = x0 + dx*np.arange(c['nx'])
    y = y0 + dy*np.arange(c['ny'])
    ox, oy = np.argsort(x), np.argsort(y)
    f, o = c['si']
    at = lambda v: v.T[ox][:, oy]
    add = []
    if c['fmt'] in (FLOAT, WORD):
        comps = [at(a[0]*f + o)]
        mask = np.zeros(comps[0].shape, dtype=bool)
    else:
        k = 0 if c['fmt'] == VEC else 1
        u, v = a[k], a[k + 1]
        mask = (u == 0) & (v == 0)
        if c['fmt'] == VECX:
            mask = mask | (a[0] == 0) | (a[9] == 0)
            add = [g.G(x[ox], y[oy], [at(b)], np.zeros(mask.T.shape, bool),
                       make_unit(c['ux'].strip('[]')),
                       make_unit(c['ux'].strip('[]')), make_unit(''))
                   for b in a[4:]]
        mask = at(mask)
        comps = [at(u*f + o)*np.sign(dx), at(v*f + o)*np.sign(dy)]
    for cc in comps:
        cc[mask] = np.nan
    return g.G(x[ox], y[oy], comps, mask, make_unit(c['ux'].strip('[]')),
               make_unit(c['ux'].strip('[]')),
               make_unit(c['uv'].strip('[]'))), add


def run_davis(vector):
    ext = 'vc7' if vector else 'im7'
    read = io.import_from_VC7 if vector else io.import_from_IM7
    conv = io.VC7_to_imt if vector else io.IM7_to_imt

    def run(c, rec):
        rec.label('format {}'.format(c['fmt']))
        if c['sx'][0] < 0:
            rec.label('x reversed')
        if c['sy'][0] < 0:
            rec.label('y reversed')
        with Scratch() as d:
            p = os.path.join(d, 'B00001.' + ext)
            write(c, p, dt='0.5 s')
            m, add = expected(c)
            g.same_field(read(p), m, ext, rtol=1e-6)
            r, infos = read(p, infos=True)
            g.same_field(r, m, ext, rtol=1e-6)
            check(infos['FrameDt0'].split() == ['0.5', 's'],
                  'attributes: {}', infos)
            if add:
                r, more = read(p, add_fields=True)
                g.same_field(r, m, ext, rtol=1e-6)
                check(len(more) == len(add), '{} additional fields', len(more))
                for f, e in zip(more, add):
                    g.same_field(f, e, 'additional field', rtol=1e-6)
                rec.label('additional fields')
            for comp in (True, False):
                q = os.path.join(d, 'res')
                conv(p, q, compressed=comp)
                g.same_field(io.import_from_file(
                    q + ('.cimt' if comp else '.imt')), m,
                    'converted ' + ext, rtol=1e-6)
            q = os.path.join(d, 'B00001.txt')
            shutil.copy(p, q)
            expect_raises(lambda: read(q), 'another extension', ValueError)
            expect_raises(lambda: read(os.path.join(d, 'no.' + ext)),
                          'missing file')
    return run


@st.composite
def series_case(draw, vector):
    n = draw(st.integers(1, 4))
    c = draw(davis_case(vector, n))
    if vector:
        # a point masked everywhere could be cropped out of a mosaic
        for a in c['a']:
            for k in range(len(a)):
                for j in range(c['ny']):
                    for i in range(c['nx']):
                        a[k][j][i] = a[k][j][i] or 1
    c['names'] = draw(st.permutations(['B{:05d}'.format(i + 1)
                                       for i in range(n)]))
    c['dt'] = [draw(st.sampled_from([.25, .5, 2.])) for _ in range(n)]
    c['kind'] = draw(st.sampled_from(['T', 'T', 'S']))
    c['lim'] = draw(st.none() | st.tuples(st.integers(0, 3),
                                          st.integers(1, 4)))
    c['incr'] = draw(st.integers(1, 3))
    c['sub'] = draw(st.booleans())
    c['how'] = draw(st.sampled_from(['folder', 'folder', 'list', 'imt',
                                     'each']))
    return c


def run_series(vector):
    ext = 'vc7' if vector else 'im7'
    read = io.import_from_VC7s if vector else io.import_from_IM7s
    conv = io.VC7_to_imt if vector else io.IM7_to_imt

    def run(c, rec):
        n = len(c['names'])
        rec.label(c['how'])
        order = np.argsort(c['names'])
        kind = c['kind'] + ('VF' if vector else 'SF')
        cl = {'TSF': TemporalScalarFields, 'SSF': SpatialScalarFields,
              'TVF': TemporalVectorFields, 'SVF': SpatialVectorFields}[kind]
        if n < 2:
            rec.mark_trivial()
        with Scratch() as d:
            f = os.path.join(d, 'data')
            os.mkdir(f)
            if c['sub']:
                rec.label('sub folder')
                os.mkdir(os.path.join(f, 'a'))
                os.mkdir(os.path.join(f, 'b'))
                with open(os.path.join(f, 'b', 'readme.txt'), 'w') as fl:
                    fl.write('x')
                fd = os.path.join(f, 'a')
            else:
                fd = f
                with open(os.path.join(f, 'readme.txt'), 'w') as fl:
                    fl.write('x')
            # written in any order, read in the order of their names
            for i in range(n):
                write(c, os.path.join(fd, '{}.{}'.format(c['names'][i], ext)),
                      i, '{} s'.format(c['dt'][i]))
            if c['how'] == 'each':
                out = os.path.join(d, 'out')
                os.mkdir(out)
                conv(fd, out, kind='VF' if vector else 'SF')
                check(sorted(os.listdir(out)) == sorted(
                    nm + '.cimt' for nm in c['names']), 'files {}',
                    os.listdir(out))
                for i in range(n):
                    g.same_field(io.import_from_file(os.path.join(
                        out, c['names'][i] + '.cimt')), expected(c, i)[0],
                        c['names'][i], rtol=1e-6)
                return
            kw = {}
            a, b, incr = 0, n, 1
            if c['lim'] is not None and c['lim'][0] < n:
                a, b, incr = c['lim'][0], sum(c['lim']), c['incr']
                kw = dict(fieldnumbers=(a, b), incr=incr)
                rec.label('part')
            if c['how'] == 'imt':
                q = os.path.join(d, 'res')
                conv(fd, q, kind=kind, **kw)
                r = io.import_from_file(q + '.cimt')
            elif c['how'] == 'list':
                r = read([os.path.join(fd, '{}.{}'.format(c['names'][i], ext))
                          for i in order], kind=kind, **kw)
            else:
                r = read(f, kind=kind, **kw)
            keep = [int(i) for i in order][a:b:incr]
            check(type(r) is cl, 'got {!r}', type(r))
            check(len(r.fields) == len(keep), '{} fields instead of {}',
                  len(r.fields), len(keep))
            for fl, i in zip(r.fields, keep):
                g.same_field(fl, expected(c, i)[0],
                             'field of ' + c['names'][i], rtol=1e-6)
            if c['kind'] == 'T':
                close(r.times, np.cumsum([c['dt'][i]*incr for i in keep]),
                      'times')
                same_unit(r.unit_times, make_unit('s'), 'times unit')
    return run


# ----------------------------------------------------------------- imt folders
@st.composite
def imts_case(draw):
    kind = draw(st.sampled_from(['TSF', 'SSF', 'TVF', 'SVF']))
    vec = kind[1] == 'V'
    base = draw((g.vf_case if vec else g.sf_case)(2, 4, masks=False))
    n = draw(st.integers(1, 5))
    fr = []
    for _ in range(n):
        f = dict(base)
        for k in (['vx', 'vy'] if vec else ['v']):
            f[k] = draw(g.grid(len(base['x']), len(base['y']), scales=False))
        fr.append(f)
    return {'kind': kind, 'f': fr, 'names': draw(st.permutations(
        ['f{:02d}'.format(i) for i in range(n)])),
        'comp': [draw(st.booleans()) for _ in range(n)],
        'other': draw(st.booleans())}


def run_imts(c, rec):
    vec = c['kind'][1] == 'V'
    rec.label(c['kind'])
    mk = g.build_vf if vec else g.build_sf
    if len(c['f']) < 2:
        rec.mark_trivial()
    with Scratch() as d:
        f = os.path.join(d, 'in')
        os.mkdir(f)
        for nm, fc, comp in zip(c['names'], c['f'], c['comp']):
            io.export_to_file(mk(fc), os.path.join(f, nm), compressed=comp)
        if c['other']:
            rec.label('other files')
            with open(os.path.join(f, 'a.txt'), 'w') as fl:
                fl.write('x')
            o = (g.build_sf if vec else g.build_vf)(
                {'x': [0., 1.], 'y': [0., 1.], 'v': [[0, 1], [2, 3]],
                 'vx': [[0, 1], [2, 3]], 'vy': [[0, 1], [2, 3]], 'm': None,
                 'ux': 'm', 'uy': 'm', 'uv': 'm'})
            io.export_to_file(o, os.path.join(f, 'f00b'))
        q = os.path.join(d, 'out.cimt')
        io.imts_to_imt(f, q, c['kind'])
        r = io.import_from_file(q)
        cl = {'TSF': TemporalScalarFields, 'SSF': SpatialScalarFields,
              'TVF': TemporalVectorFields, 'SVF': SpatialVectorFields}
        check(type(r) is cl[c['kind']], 'got {!r}', type(r))
        check(len(r.fields) == len(c['f']), '{} fields instead of {}',
              len(r.fields), len(c['f']))
        for i, k in enumerate(np.argsort(c['names'])):
            g.same_physics(r.fields[i], g.G.of_case(c['f'][k]),
                           'field of ' + c['names'][k])
        expect_raises(lambda: io.imts_to_imt(f, q, 'XX'), 'unknown kind',
                      ValueError)


# --------------------------------------------------------------- ascii folders
@st.composite
def texts_case(draw):
    base = draw(g.vf_case(2, 4, masks=False))
    n = draw(st.integers(1, 5))
    fr = []
    for _ in range(n):
        f = dict(base)
        for k in ('vx', 'vy'):
            f[k] = draw(g.grid(len(base['x']), len(base['y']), scales=False))
        fr.append(f)
    return {'f': fr, 'names': draw(st.permutations(
        ['f{:02d}.txt'.format(i) for i in range(n)])),
        'kind': draw(st.sampled_from(['TVF', 'TVF', 'SVF'])),
        'incr': draw(st.integers(1, 3)),
        'lim': draw(st.none() | st.tuples(st.integers(0, 4),
                                          st.integers(0, 4))),
        't': draw(st.booleans())}


def run_texts(c, rec):
    n = len(c['f'])
    rec.label(c['kind'])
    if n < 2:
        rec.mark_trivial()
    with Scratch() as d:
        for nm, fc in zip(c['names'], c['f']):
            io.export_to_ascii(g.build_vf(fc), os.path.join(d, nm))
        b = c['f'][0]
        kw = dict(kind=c['kind'], incr=c['incr'], unit_x=b['ux'],
                  unit_y=b['uy'], unit_values=b['uv'], unit_time='s')
        i0, i1 = 0, n - 1
        if c['lim'] is not None:
            i0, i1 = c['lim'][0] % n, c['lim'][1] % n
            kw['interval'] = [i0, i1]
            i0, i1 = sorted([i0, i1])
            rec.label('interval')
        times = list(range(n))
        if c['t']:
            times = [1.5*i - 2 for i in range(n)]
            kw['times'] = times
        r = io.import_vfs_from_ascii(os.path.join(d, 'f*.txt'), **kw)
        order = [int(i) for i in np.argsort(c['names'])]
        keep = list(range(i0, i1 + 1, c['incr']))
        check(type(r) is (TemporalVectorFields if c['kind'] == 'TVF'
                          else SpatialVectorFields), 'got {!r}', type(r))
        check(len(r.fields) == len(keep), '{} fields instead of {}',
              len(r.fields), len(keep))
        for fl, i in zip(r.fields, keep):
            g.same_field(fl, g.G.of_case(c['f'][order[i]]),
                         'field {}'.format(i), rtol=1e-12)
        if c['kind'] == 'TVF':
            close(r.times, [times[i] for i in keep], 'times')
            same_unit(r.unit_times, make_unit('s'), 'times unit')
        expect_raises(lambda: io.import_vfs_from_ascii(
            os.path.join(d, 'f*.txt'), interval=[0, n]), 'interval too long',
            ValueError)
        expect_raises(lambda: io.import_vfs_from_ascii(
            os.path.join(d, 'f*.txt'), incr=0), 'no increment', ValueError)


SUBS = [
    Sub('IM7', davis_case(False), run_davis(False), 'every file', 300),
    Sub('VC7', davis_case(True), run_davis(True), 'every file', 300),
    Sub('IM7 folder', series_case(False), run_series(False),
        'at least two files', 250),
    Sub('VC7 folder', series_case(True), run_series(True),
        'at least two files', 250),
    Sub('imt folder', imts_case(), run_imts, 'at least two files', 200),
    Sub('text folder', texts_case(), run_texts, 'at least two files', 200),
]
