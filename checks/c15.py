"""C15: what is written in a file is what is read back."""
import os
import shutil
import tempfile
import numpy as np
import scipy.io as spio
from hypothesis import strategies as st
from harness.core import Sub, check, close, same_bool, same_unit, fail, \
    expect_raises
from harness import gens as g
from checks.c08 import P, same_prof
from checks.c10 import cloud, build as build_pts, model as model_pts, same_pts
from IMTreatment import ScalarField, VectorField, Profile, Points, \
    TemporalScalarFields, TemporalVectorFields, TemporalPoints, make_unit
from IMTreatment.core import SpatialScalarFields, SpatialVectorFields
from IMTreatment.vortex_detection import CritPoints
from IMTreatment import file_operation as io

ASSUMPTIONS = [
    'files are written in a scratch directory created and removed by each '
    'case',
    'pictures hold 8 bits values: only fields of that type are expected back '
    'exactly',
    'the native format is expected to store what pickle can store']


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif-c15-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


# ----------------------------------------------------------- kinds of objects
SIMPLE = ['sf', 'vf', 'prof', 'pts']


@st.composite
def obj_case(draw, kind, **kw):
    if kind == 'sf':
        return draw(g.sf_case(2, 5, **kw))
    if kind == 'vf':
        return draw(g.vf_case(2, 5, **kw))
    if kind == 'prof':
        return draw(g.prof_case(1, 6))
    if kind == 'pts':
        return draw(cloud(min_size=1, oriented=False))
    if kind == 'opts':
        return draw(cloud(min_size=1, oriented=True))
    if kind in ('tsf', 'tvf'):
        return draw(g.temporal_case(kind == 'tvf', 1, 4))
    if kind == 'tpts':
        v = draw(st.booleans())
        u = {'ux': draw(g.unit_len()), 'uy': draw(g.unit_len()),
             'uv': draw(g.unit_any())}
        cl = []
        for _ in range(draw(st.integers(1, 3))):
            c = draw(cloud(min_size=1, v=v, oriented=False))
            c.update(u)
            cl.append(c)
        return {'p': cl, 't': [2.5*i for i in range(len(cl))]}
    if kind in ('ssf', 'svf'):
        mk = g.vf_case if kind == 'svf' else g.sf_case
        return {'f': [draw(mk(2, 4, masks=False, unit_xy=st.just('m'),
                              unit_v=st.just('m/s')))
                      for _ in range(draw(st.integers(1, 3)))]}
    if kind == 'mix':
        return {'a': draw(g.sf_case(2, 3)), 'b': draw(g.prof_case(1, 4)),
                'n': draw(st.lists(g.number(), max_size=4))}
    raise ValueError(kind)


def make(kind, c):
    if kind == 'sf':
        return g.build_sf(c)
    if kind == 'vf':
        return g.build_vf(c)
    if kind == 'prof':
        return g.build_prof(c)
    if kind in ('pts', 'opts'):
        return build_pts(c)
    if kind in ('tsf', 'tvf'):
        return g.build_temporal(c, kind == 'tvf')
    if kind == 'tpts':
        t = TemporalPoints()
        for p, time in zip(c['p'], c['t']):
            t.add_pts(build_pts(p), time=time, unit_times='s')
        return t
    if kind in ('ssf', 'svf'):
        s = SpatialVectorFields() if kind == 'svf' else SpatialScalarFields()
        for f in c['f']:
            s.add_field((g.build_vf if kind == 'svf' else g.build_sf)(f))
        return s
    return {'sf': g.build_sf(c['a']), 'list': [g.build_prof(c['b']), 'txt'],
            'n': np.array(c['n'], dtype=float)}


def same(kind, o, c, what, rtol=1e-12):
    if kind == 'sf':
        check(type(o) is ScalarField, '{}: got {!r}', what, type(o))
        g.same_field(o, g.G.of_case(c), what, rtol=rtol)
    elif kind == 'vf':
        check(type(o) is VectorField, '{}: got {!r}', what, type(o))
        g.same_field(o, g.G.of_case(c), what, rtol=rtol)
    elif kind == 'prof':
        same_prof(o, P.of_case(c), what, rtol=rtol)
    elif kind in ('pts', 'opts'):
        same_pts(o, model_pts(c), what, rtol=rtol)
    elif kind in ('tsf', 'tvf'):
        vec = kind == 'tvf'
        check(type(o) is (TemporalVectorFields if vec
                          else TemporalScalarFields), '{}: got {!r}', what,
              type(o))
        check(len(o) == len(c['times']), '{}: {} fields', what, len(o))
        close(o.times, c['times'], what + ': times')
        same_unit(o.unit_times, make_unit(c['ut']), what + ': time unit')
        for f, m in zip(o.fields, g.frame_cases(c)):
            g.same_field(f, g.G.of_case(m), what, rtol=rtol)
    elif kind == 'tpts':
        check(type(o) is TemporalPoints, '{}: got {!r}', what, type(o))
        close(o.times, c['t'], what + ': times')
        same_unit(o.unit_times, make_unit('s'), what + ': time unit')
        check(len(o.point_sets) == len(c['p']), '{}: {} clouds', what,
              len(o.point_sets))
        for p, m in zip(o.point_sets, c['p']):
            same_pts(p, model_pts(m), what, rtol=rtol)
    elif kind in ('ssf', 'svf'):
        check(type(o) is (SpatialVectorFields if kind == 'svf'
                          else SpatialScalarFields), '{}: got {!r}', what,
              type(o))
        check(len(o.fields) == len(c['f']), '{}: {} fields', what,
              len(o.fields))
        for f, m in zip(o.fields, c['f']):
            g.same_field(f, g.G.of_case(m), what, rtol=rtol)
    else:
        check(sorted(o) == ['list', 'n', 'sf'], '{}: keys {}', what, sorted(o))
        same('sf', o['sf'], c['a'], what)
        same('prof', o['list'][0], c['b'], what)
        check(o['list'][1] == 'txt', '{}: list', what)
        close(o['n'], np.array(c['n'], dtype=float), what + ': array')


# -------------------------------------------------------------- native format
@st.composite
def native_case(draw):
    k = draw(st.sampled_from(['sf', 'vf', 'prof', 'pts', 'opts', 'tsf', 'tvf',
                              'tpts', 'ssf', 'svf', 'mix']))
    return {'k': k, 'o': draw(obj_case(k)), 'comp': draw(st.sampled_from(
        [True, False, None])),
        'name': draw(st.sampled_from(['a', 'a.b', 'a.imt', 'a.cimt', 'a b',
                                      'a.txt', 'sub/a', './sub/../a',
                                      'été.cimt'])),
        'over': draw(st.booleans())}


def run_native(c, rec):
    rec.label(c['k'])
    with Scratch() as d:
        os.mkdir(os.path.join(d, 'sub'))
        o = make(c['k'], c['o'])
        p = os.path.join(d, c['name'])
        comp = c['comp'] is not False
        ext = '.cimt' if comp else '.imt'
        fin = p if p.endswith(ext) else p + ext
        if c['over']:
            rec.label('overwrite')
            with open(fin, 'wb') as f:
                f.write(b'x'*100000)
        kw = {} if c['comp'] is None else {'compressed': c['comp']}
        io.export_to_file(o, p, **kw)
        same(c['k'], o, c['o'], 'object after its export')
        fin = os.path.normpath(fin)
        files = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]
        check(files == [fin], 'files written: {} instead of {}', files, fin)
        r = io.import_from_file(fin)
        same(c['k'], r, c['o'], c['k'] + ' read back')
        # writing the object read back changes nothing
        io.export_to_file(r, os.path.join(d, 'again'))
        same(c['k'], io.import_from_file(os.path.join(d, 'again.cimt')),
             c['o'], c['k'] + ' read back twice')
        expect_raises(lambda: io.import_from_file(os.path.join(d, 'no.imt')),
                      'missing file', FileNotFoundError)
        expect_raises(lambda: io.export_to_file(
            o, os.path.join(d, 'nodir', 'a.imt')), 'missing folder',
            FileNotFoundError)
        check(not os.path.exists(os.path.join(d, 'nodir')), 'folder created')
        with open(os.path.join(d, 'b.txt'), 'w') as f:
            f.write('x')
        expect_raises(lambda: io.import_from_file(os.path.join(d, 'b.txt')),
                      'unknown extension', IOError)
        expect_raises(lambda: io.export_to_file(o, p, compressed='yes'),
                      "bad 'compressed'", TypeError)


# ----------------------------------------------------------------- ascii files
IMPORT = {'sf': io.import_sf_from_ascii, 'vf': io.import_vf_from_ascii,
          'prof': io.import_profile_from_ascii,
          'pts': io.import_pts_from_ascii}


def units_of(k, c, obj=False):
    u = (lambda x: make_unit(x)) if obj else (lambda x: x)
    d = {'unit_x': u(c['ux']), 'unit_y': u(c['uy'])}
    if k in ('sf', 'vf'):
        d['unit_values'] = u(c['uv'])
    if k == 'pts':
        d['unit_v'] = u(c['uv'])
    return d


@st.composite
def ascii_case(draw):
    k = draw(st.sampled_from(SIMPLE))
    return {'k': k, 'o': draw(obj_case(k)), 'uo': draw(st.booleans())}


def run_ascii(c, rec):
    k, co = c['k'], c['o']
    rec.label(k)
    with Scratch() as d:
        o = make(k, co)
        p = os.path.join(d, 'a.txt')
        io.export_to_ascii(o, p)
        same(k, o, co, 'object after its export')
        kw = units_of(k, co, c['uo'])
        if k == 'pts' and co['v'] is not None:
            kw['v_col'] = 3
            rec.label('values')
        same(k, IMPORT[k](p, **kw), co, k + ' from the exported text')
        with open(p) as f:
            head = f.readline()
        for u in kw:
            if u.startswith('unit') and (u != 'unit_v' or co['v'] is not None):
                check(head.startswith('#') and
                      units_of(k, co, True)[u].strUnit() in head,
                      'header {!r} without {}', head, kw[u])
        expect_raises(lambda: IMPORT[k](p, x_col=0), 'column 0', ValueError)
        expect_raises(lambda: IMPORT[k](p, y_col='a'), 'column a', TypeError)
        expect_raises(lambda: IMPORT[k](p + 'x'), 'missing file',
                      FileNotFoundError)
        expect_raises(lambda: io.export_to_ascii([1], p), 'export of a list')


@st.composite
def text_case(draw):
    k = draw(st.sampled_from(SIMPLE + ['sf', 'vf']))
    o = draw(obj_case(k))
    ncol = {'sf': 3, 'vf': 4, 'prof': 2, 'pts': 3}[k]
    extra = draw(st.integers(0, 2))
    cols = draw(st.permutations(list(range(ncol + extra))))[:ncol]
    return {'k': k, 'o': o, 'cols': cols, 'n': ncol + extra,
            'order': draw(st.integers(0, 10**6)),
            'how': draw(st.sampled_from(['xy', 'yx', 'yx-', 'rand', 'rand'])),
            'drop': draw(st.booleans()),
            'sep': draw(st.sampled_from([None, ',', ';', '\t'])),
            'head': draw(st.integers(0, 2))}


def run_text(c, rec):
    k, co = c['k'], dict(c['o'])
    rec.label(k)
    rng = np.random.RandomState(c['order'])
    rows = []
    if k in ('sf', 'vf'):
        m = g.G.of_case(co)
        idx = [(i, j) for i in range(len(m.x)) for j in range(len(m.y))]
        if c['how'] == 'yx':
            idx.sort(key=lambda a: a[::-1])
        elif c['how'] == 'yx-':
            idx.sort(key=lambda a: (-a[1], a[0]))
        elif c['how'] == 'rand':
            rng.shuffle(idx)
        rec.label(c['how'])
        mask = m.mask.copy()
        for i, j in idx:
            if mask[i, j]:
                vals = ['nan']*len(m.comps)
                if k == 'vf':
                    # one missing component is enough
                    w = rng.randint(3)
                    if w < 2:
                        vals[w] = '1.5'
                # missing lines are masked points too, as long as the
                # coordinates appear elsewhere
                if c['drop'] and (~mask[i]).any() and (~mask[:, j]).any():
                    rec.label('missing lines')
                    continue
            else:
                vals = [repr(float(cc[i, j])) for cc in m.comps]
            rows.append([repr(float(m.x[i])), repr(float(m.y[j]))] + vals)
    elif k == 'prof':
        m = P.of_case(co)
        for x, y in zip(m.x, m.y):
            rows.append([repr(float(x)), repr(float(y))])
        if len(set(m.x)) == len(m.x):
            rng.shuffle(rows)
    else:
        if co['v'] is None:
            co['v'] = [0.]*len(co['xy'])
        for (x, y), v in zip(co['xy'], co['v']):
            rows.append([repr(float(x)), repr(float(y)), repr(float(v))])
    with Scratch() as d:
        p = os.path.join(d, 'a.txt')
        with open(p, 'w') as f:
            for i in range(c['head']):
                f.write('some header {}\n'.format(i))
            for r in rows:
                line = [repr(float(rng.randint(100)))]*c['n']
                for pos, val in zip(c['cols'], r):
                    line[pos] = val
                f.write((c['sep'] or ' ').join(line) + '\n')
        names = {'sf': ['x_col', 'y_col', 'vx_col'],
                 'vf': ['x_col', 'y_col', 'vx_col', 'vy_col'],
                 'prof': ['x_col', 'y_col'],
                 'pts': ['x_col', 'y_col', 'v_col']}[k]
        kw = {n: pos + 1 for n, pos in zip(names, c['cols'])}
        kw.update(units_of(k, co))
        if c['sep']:
            kw['delimiter'] = c['sep']
        if c['head']:
            kw['skip_header'] = c['head']
        r = IMPORT[k](p, **kw)
        if k == 'vf':
            check(np.all(np.array(r.mask)[m.mask]), 'vf: masked points read')
            r2 = r.copy()
            r2.mask = np.array(r.mask)
            r = r2
        same(k, r, co, k + ' from the text')


# --------------------------------------------------------------------- matlab
@st.composite
def mat_case(draw):
    k = draw(st.sampled_from(SIMPLE))
    o = draw(obj_case(k))
    u = st.sampled_from(['', 'm', 'mm', 'm/s', 'm**2', 'kg*m/s**2', 's**-1',
                         'm**2/s**2', 'kg/m/s', 'kg/m**3'])
    o['ux'], o['uy'] = draw(u), draw(u)
    if 'uv' in o:
        o['uv'] = draw(u)
    return {'k': k, 'o': o, 'explicit': draw(st.booleans()),
            'drop': draw(st.lists(st.sampled_from(
                ['mask', 'unit_x', 'unit_y', 'unit_values', 'unit_v']),
                max_size=2, unique=True))}


NAMES = {'sf': ('ScalarField', ['axe_x', 'axe_y', 'values', 'mask', 'unit_x',
                                'unit_y', 'unit_values']),
         'vf': ('VectorField', ['axe_x', 'axe_y', 'comp_x', 'comp_y', 'mask',
                                'unit_x', 'unit_y', 'unit_values']),
         'prof': ('Profile', ['x', 'y', 'mask', 'unit_x', 'unit_y']),
         'pts': ('Points', ['xy', 'v', 'unit_x', 'unit_y', 'unit_v'])}


def run_mat(c, rec):
    k, co = c['k'], dict(c['o'])
    rec.label(k)
    with Scratch() as d:
        o = make(k, co)
        p = os.path.join(d, 'a.mat')
        io.export_to_matlab(o, p)
        same(k, o, co, 'object after its export')
        kind, keys = NAMES[k]
        kw = {n: n for n in keys} if c['explicit'] else {}
        r = io.import_from_matlab(p, kind, **kw)
        if k in ('prof', 'pts'):
            co['name'] = ''
        same(k, r, co, k + ' from matlab')
        expect_raises(lambda: io.import_from_matlab(p, 'Nothing'),
                      'unknown kind of object')
        # the content of the file, as another program reads it
        raw = spio.loadmat(p)
        if k in ('sf', 'vf'):
            m = g.G.of_case(co)
            X, Y = np.meshgrid(m.x, m.y, indexing='ij')
            close(raw['X'], X, 'X in the file')
            close(raw['Y'], Y, 'Y in the file')
            for n, v in zip(keys[2:], m.comps):
                check(raw[n].shape == X.shape, '{} in the file: {}', n,
                      raw[n].shape)
                close(raw[n][~m.mask], v[~m.mask], n + ' in the file')
            same_bool(raw['mask'].astype(bool), m.mask, 'mask in the file')
        # under other names, some optional parts being absent
        new = {n: raw[n] for n in keys if n in raw}
        drop = [n for n in c['drop'] if n in new and
                not (n == 'mask' and np.any(np.array(raw[n])))]
        for n in drop:
            new.pop(n)
            for q in (['ux'] if n == 'unit_x' else ['uy'] if n == 'unit_y'
                      else ['uv'] if n in ('unit_values', 'unit_v') else []):
                co[q] = ''
        rec.label(*['without ' + n for n in drop])
        p2 = os.path.join(d, 'b.mat')
        spio.savemat(p2, {'my_' + n: v for n, v in new.items()})
        r = io.import_from_matlab(p2, kind, **{n: 'my_' + n for n in keys})
        same(k, r, co, k + ' from other names')


# ------------------------------------------------------------------- pictures
@st.composite
def pic_case(draw):
    nx, ny = draw(st.integers(2, 6)), draw(st.integers(2, 6))
    n = draw(st.integers(1, 4))
    pix = st.integers(0, 255)
    even = lambda k: st.tuples(g.quarter(-9, 9), st.sampled_from(
        [.25, 1., 3.])).map(lambda t: [t[0] + t[1]*i for i in range(k)])
    return {'v': [[[draw(pix) for _ in range(ny)] for _ in range(nx)]
                  for _ in range(n)],
            'x': draw(st.none() | even(nx)), 'y': draw(st.none() | even(ny)),
            'u': [draw(g.unit_len()), draw(g.unit_len()), draw(g.unit_any())],
            'ext': draw(st.sampled_from(['.png', '.PNG', '.bmp'])),
            'how': draw(st.sampled_from(['one', 'list', 'series', 'mosaic'])),
            't': draw(st.booleans()), 'dt': draw(st.sampled_from(
                ['float', 'uint8'])),
            'a': draw(st.integers(0, 3)), 'b': draw(st.integers(1, 9)),
            'incr': draw(st.integers(1, 2)), 'lim': draw(st.booleans())}


def run_pic(c, rec):
    n = len(c['v'])
    nx, ny = len(c['v'][0]), len(c['v'][0][0])
    x = c['x'] if c['x'] is not None else list(range(nx))
    y = c['y'] if c['y'] is not None else list(range(ny))
    rec.label(c['how'])
    dt = {'float': float, 'uint8': np.uint8}[c['dt']]

    def pic(v):
        s = ScalarField()
        s.import_from_arrays(np.arange(nx), np.arange(ny),
                             np.array(v, dtype=np.uint8), dtype=np.uint8)
        return s

    def same_pic(s, v, what):
        check(isinstance(s, ScalarField), '{}: got {!r}', what, type(s))
        close(s.axe_x, x, what + ': x axis')
        close(s.axe_y, y, what + ': y axis')
        close(np.array(s.values, dtype=float), np.array(v, dtype=float),
              what + ': values')
        check(s.values.dtype == np.dtype(dt), '{}: values of type {}', what,
              s.values.dtype)
        check(not np.any(s.mask), '{}: masked pixels', what)
        same_unit(s.unit_x, make_unit(c['u'][0]), what + ': x unit')
        same_unit(s.unit_y, make_unit(c['u'][1]), what + ': y unit')
        same_unit(s.unit_values, make_unit(c['u'][2]), what + ': values unit')
    kw = dict(axe_x=c['x'], axe_y=c['y'], unit_x=c['u'][0], unit_y=c['u'][1],
              unit_values=c['u'][2], dtype=dt)
    with Scratch() as d:
        if c['how'] == 'one':
            p = os.path.join(d, 'a' + c['ext'])
            s = pic(c['v'][0])
            io.export_to_picture(s, p)
            same_pic(io.import_from_picture(p, **kw), c['v'][0], 'picture')
            close(np.array(s.values, dtype=float), np.array(
                c['v'][0], dtype=float), 'field after its export')
            expect_raises(lambda: io.import_from_picture(
                p, axe_x=list(range(nx + 1))), 'too long axis', ValueError)
            return
        fields = [pic(v) for v in c['v']]
        p = os.path.join(d, 'a')
        if c['how'] == 'list':
            io.export_to_pictures(fields, p)
        else:
            s = TemporalScalarFields() if c['how'] == 'series' \
                else SpatialScalarFields()
            for i, f in enumerate(fields):
                s.add_field(f, **({'time': float(i)} if c['how'] == 'series'
                                  else {}))
            io.export_to_pictures(s, p)
        files = sorted(os.listdir(d))
        check(len(files) == n, 'files written: {}', files)
        times = [.5 + 2.*i for i in range(n)] if c['t'] else None
        kw['times'] = times
        kw['unit_times'] = 's'
        a, b, incr = 0, n, 1
        if c['lim']:
            a = min(c['a'], n - 1)
            b, incr = a + c['b'], c['incr']
            lim = [a, b]
            kw['fieldnumbers'] = lim
            kw['incr'] = incr
        r = io.import_from_pictures(os.path.join(d, 'a*.png'), **kw)
        if c['lim']:
            check(lim == [a, b], 'given interval changed to {}', lim)
        keep = list(range(a, min(b, n), incr))
        check(isinstance(r, TemporalScalarFields), 'got {!r}', type(r))
        check(len(r) == len(keep), '{} pictures instead of {}', len(r),
              len(keep))
        close(r.times, [times[i] if times else i for i in keep],
              'pictures: times')
        same_unit(r.unit_times, make_unit('s'), 'pictures: times unit')
        for f, i in zip(r.fields, keep):
            same_pic(f, c['v'][i], 'picture {}'.format(i))


# ------------------------------------------------------------------------ vtk
@st.composite
def vtk_case(draw):
    k = draw(st.sampled_from(['sf', 'vf', 'pts']))
    return {'k': k, 'o': draw(obj_case(k)),
            'ax': draw(st.none() | st.permutations(['x', 'y', 'z']).map(
                lambda p: p[:2])), 'line': draw(st.booleans())}


def parse_vtk(text):
    """Points, values (scalars or vectors) and cells of a legacy VTK file."""
    lines = text.split('\n')
    check(lines[0].startswith('# vtk'), 'vtk: header {!r}', lines[0])
    check(lines[2].strip() == 'ASCII', 'vtk: format {!r}', lines[2])
    toks = '\n'.join(lines[3:]).split()
    pos = [0]

    def get(n=1):
        r = toks[pos[0]:pos[0] + n]
        pos[0] += n
        return r
    res = {'cells': []}
    axes = {}
    dims = None
    while pos[0] < len(toks):
        key = get()[0]
        if key == 'DATASET':
            res['kind'] = get()[0]
        elif key == 'DIMENSIONS':
            dims = [int(v) for v in get(3)]
        elif key in ('X_COORDINATES', 'Y_COORDINATES', 'Z_COORDINATES'):
            n = int(get(2)[0])
            axes[key[0]] = [float(v) for v in get(n)]
        elif key == 'POINTS':
            n = int(get(2)[0])
            v = [float(x) for x in get(3*n)]
            res['points'] = [tuple(v[3*i:3*i + 3]) for i in range(n)]
        elif key == 'CELLS':
            n, m = [int(v) for v in get(2)]
            v = [int(x) for x in get(m)]
            i = 0
            while i < m:
                res['cells'].append(v[i + 1:i + 1 + v[i]])
                i += 1 + v[i]
        elif key == 'CELL_TYPES':
            n = int(get()[0])
            res['types'] = [int(x) for x in get(n)]
        elif key == 'POINT_DATA':
            npts = int(get()[0])
        elif key == 'SCALARS':
            get(3)
            get(2)
            res['values'] = [(float(x),) for x in get(npts)]
        elif key == 'VECTORS':
            get(2)
            v = [float(x) for x in get(3*npts)]
            res['values'] = [tuple(v[3*i:3*i + 3]) for i in range(npts)]
        else:
            fail('vtk: unexpected {!r}', key)
    if res['kind'] == 'RECTILINEAR_GRID':
        check(dims == [len(axes[a]) for a in 'XYZ'], 'vtk: dimensions {}',
              dims)
        # x is the fastest index of VTK files
        res['points'] = [(x, y, z) for z in axes['Z'] for y in axes['Y']
                         for x in axes['X']]
    return res


def run_vtk(c, rec):
    k, co = c['k'], c['o']
    rec.label(k)
    ax = c['ax'] or ['x', 'y']
    ia, ib = 'xyz'.index(ax[0]), 'xyz'.index(ax[1])
    with Scratch() as d:
        o = make(k, co)
        p = os.path.join(d, 'a.vtk')
        kw = {} if c['ax'] is None else {'axis': tuple(c['ax'])}
        if k == 'pts':
            kw['line'] = c['line']
        io.export_to_vtk(o, p, **kw)
        same(k, o, co, 'object after its export')
        with open(p) as f:
            r = parse_vtk(f.read())
        expect_raises(lambda: io.export_to_vtk(o, p, axis=('x', 'x')),
                      'twice the same axis', ValueError)
        expect_raises(lambda: io.export_to_vtk(o, p, axis=('x', 'k')),
                      'unknown axis', ValueError)

    def at(a, b):
        q = [0., 0., 0.]
        q[ia], q[ib] = float(a), float(b)
        return tuple(q)
    if k == 'pts':
        m = model_pts(co)
        exp = [at(a, b) for a, b in m.xy]
        check(len(r['points']) == len(exp), 'vtk: {} points', len(r['points']))
        close(np.array(r['points']), np.array(exp), 'vtk: points')
        v = m.v if m.v is not None else np.zeros(len(exp))
        close(np.array(r['values'])[:, 0], v, 'vtk: values')
        n = len(exp)
        if c['line']:
            edges = [tuple(e) for cell in r['cells']
                     for e in zip(cell, cell[1:])]
            check(edges == [(i, i + 1) for i in range(n - 1)],
                  'vtk: lines {}', edges)
            for cell, t in zip(r['cells'], r['types']):
                check(t == 4 or (t == 3 and len(cell) == 2),
                      'vtk: cell {} of type {}', cell, t)
        else:
            check(sorted(i for cell in r['cells'] for i in cell) ==
                  list(range(n)), 'vtk: vertices {}', r['cells'])
        return
    m = g.G.of_case(co)
    exp = {}
    for i, x in enumerate(m.x):
        for j, y in enumerate(m.y):
            exp[at(x, y)] = None if m.mask[i, j] else \
                [cc[i, j] for cc in m.comps]
    got = dict(zip(r['points'], r['values']))
    check(len(r['points']) == len(r['values']) == len(exp) == len(got),
          'vtk: {} points, {} values', len(r['points']), len(r['values']))
    for q, e in exp.items():
        near = [w for w in got if all(abs(a - b) <= 1e-9*(abs(a) + abs(b))
                                      for a, b in zip(q, w))]
        check(len(near) == 1, 'vtk: point {} is missing', q)
        v = got[near[0]]
        if e is None:
            check(all(np.isnan(a) or a == 0 for a in v),
                  'vtk: masked point {} got {}', q, v)
            rec.label('masked')
            continue
        full = (e[0],) if k == 'sf' else at(*e)
        check(all(abs(a - b) <= 1e-9*abs(b) for a, b in zip(v, full)),
              'vtk: {} at {} instead of {}', v, q, full)


# ------------------------------------------------------------ critical points
KINDS = ['foc', 'foc_c', 'node_i', 'node_o', 'sadd']


@st.composite
def crit_case(draw):
    pt = st.tuples(g.quarter(-9, 9), g.quarter(-9, 9)).map(list)
    n = draw(st.integers(1, 3))
    return {'t': sorted(draw(st.lists(g.quarter(0, 20), min_size=n, max_size=n,
                                      unique=True))),
            'p': [{k: draw(st.lists(pt, max_size=3, unique_by=tuple))
                   for k in KINDS} for _ in range(n)],
            'ux': draw(st.sampled_from(g.LENGTHS)),
            'uy': draw(st.sampled_from(g.LENGTHS + [''])),
            'ut': draw(st.sampled_from(['s', 'ms', ''])),
            'eps': draw(st.sampled_from([None, 3., 40.]))}


def run_crit(c, rec):
    cp = CritPoints(unit_time=c['ut'])
    for t, p in zip(c['t'], c['p']):
        cp.add_point(time=t, **{k: Points(p[k], unit_x=c['ux'],
                                          unit_y=c['uy']) for k in KINDS})
    if c['eps'] is not None:
        cp.compute_traj(epsilon=c['eps'])
        rec.label('trajectories')
    if not any(any(p.values()) for p in c['p']):
        rec.mark_trivial()

    def stored(what):
        close(cp.times, c['t'], what + ': times')
        for k in KINDS:
            for q, p in zip(getattr(cp, k), c['p']):
                close(np.array(q.xy).reshape(-1, 2),
                      np.array(p[k]).reshape(-1, 2), what + ': ' + k)

    stored('the points')
    with Scratch() as d:
        # text: one file by time and kind
        p = os.path.join(d, 'a.txt')
        io.export_to_ascii(cp, p)
        stored('after the export')
        names = sorted(os.listdir(os.path.join(d, 'a')))
        check(len(names) == len(KINDS)*len(c['t']), 'files {}', names)
        ut = make_unit(c['ut']).strUnit() if c['ut'] else ''
        for t, pts in zip(c['t'], c['p']):
            for k in KINDS:
                n = '{}_t={}{}.txt'.format(k, t, ut)
                check(n in names, 'no file {} in {}', n, names)
                if not pts[k]:
                    continue
                r = io.import_pts_from_ascii(os.path.join(d, 'a', n),
                                             unit_x=c['ux'], unit_y=c['uy'])
                close(r.xy, pts[k], n)
                with open(os.path.join(d, 'a', n)) as f:
                    head = f.readline()
                check(head.startswith('#') and
                      make_unit(c['ux']).strUnit() in head and
                      make_unit(c['uy']).strUnit() in head, 'header {!r}',
                      head)
        # matlab
        p = os.path.join(d, 'b.mat')
        io.export_to_matlab(cp, p)
        stored('after the export')
        raw = spio.loadmat(p, simplify_cells=True)
        close(np.atleast_1d(raw['times']), c['t'], 'matlab: times')
        for k in KINDS:
            alone(raw[k], [q[k] for q in c['p']], 'matlab: ' + k, c)
            tr = raw[k + '_traj']
            if c['eps'] is None:
                check(isinstance(tr, str) and tr == 'None', 'matlab: {}', tr)
            else:
                alone(tr, [np.array(z.xy).tolist()
                           for z in getattr(cp, k + '_traj')],
                      'matlab: trajectories of ' + k, c)


def alone(got, want, what, c):
    got = [got] if isinstance(got, dict) else list(got)
    check(len(got) == len(want), '{}: {} entries', what, len(got))
    for i, (q, w) in enumerate(zip(got, want)):
        q = q['obj{}'.format(i)]
        close(np.array(q['xy']).reshape(-1, 2), np.array(w).reshape(-1, 2),
              what)
        for u in ('ux', 'uy'):
            same_unit(make_unit(str(np.array(q['unit_' + u[1]]).reshape(-1)[0]
                                    if np.size(q['unit_' + u[1]]) else '')),
                      make_unit(c[u]), what + ': ' + u)


SUBS = [
    Sub('critical points', crit_case(), run_crit, 'some point', 200),
    Sub('native files', native_case(), run_native, 'every object', 500),
    Sub('exported text', ascii_case(), run_ascii, 'every object', 500),
    Sub('any text', text_case(), run_text, 'every text', 600),
    Sub('matlab', mat_case(), run_mat, 'every object', 300),
    Sub('pictures', pic_case(), run_pic, 'every picture', 300),
    Sub('vtk', vtk_case(), run_vtk, 'every object', 400),
]
