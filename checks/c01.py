"""C01: fields built from arrays keep every datum at its coordinate."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, check, close, same_bool, same_unit, fail
from harness import gens as g
from IMTreatment import make_unit
from IMTreatment.core import ScalarField, VectorField


@st.composite
def case(draw, vector):
    c = draw(g.vf_case(max_size=6) if vector else g.sf_case(max_size=6))
    c['revx'] = draw(st.booleans())
    c['revy'] = draw(st.booleans())
    nx, ny = len(c['x']), len(c['y'])
    c['layout'] = draw(st.sampled_from(['ij', 'ij', 'transposed', 'mesh_ij',
                                        'mesh_xy']))
    c['container'] = draw(st.sampled_from(['ndarray', 'list', 'fortran',
                                           'noncontig', 'int', 'masked']))
    c['maskform'] = draw(st.sampled_from(['bool', 'int', 'list']))
    c['nans'] = draw(st.lists(st.tuples(st.integers(0, nx - 1),
                                        st.integers(0, ny - 1),
                                        st.integers(0, 1)),
                              max_size=3))
    c['mutate'] = draw(st.booleans())
    c['reuse'] = draw(st.booleans())
    c['unitform'] = draw(st.sampled_from(['str', 'unum']))
    return c


def _container(a, kind):
    if kind == 'list':
        return a.tolist()
    if kind == 'fortran':
        return np.asfortranarray(a)
    if kind == 'noncontig':
        big = np.zeros((a.shape[0]*2, a.shape[1]*2), dtype=a.dtype)
        big[::2, ::2] = a
        return big[::2, ::2]
    return np.array(a)


def run(c, rec, vector):
    x, y = np.array(c['x']), np.array(c['y'])
    nx, ny = len(x), len(y)
    names = ['vx', 'vy'] if vector else ['v']
    comps = [np.array(c[n], dtype=float) for n in names]
    if c['container'] == 'int':
        comps = [np.round(a) for a in comps]
    mask = g.np_mask(c['m'], (nx, ny))
    nanmask = np.zeros((nx, ny), dtype=bool)
    if c['container'] != 'int':
        for i, j, k in c['nans']:
            comps[k % len(comps)][i, j] = np.nan
            nanmask[i, j] = True
    exp_mask = mask | nanmask
    # what is handed to the library: same physical data, other presentation
    gx, gy = x.copy(), y.copy()
    gcomps = [a.copy() for a in comps]
    gmask = mask.copy()
    if c['revx']:
        gx = gx[::-1]
        gcomps = [a[::-1] for a in gcomps]
        gmask = gmask[::-1]
    if c['revy']:
        gy = gy[::-1]
        gcomps = [a[:, ::-1] for a in gcomps]
        gmask = gmask[:, ::-1]
    layout = c['layout']
    if nx == ny and layout in ('transposed', 'mesh_xy'):
        layout = 'ij'   # ambiguous for square arrays: not in the domain
    if layout in ('transposed', 'mesh_xy'):
        gcomps = [a.T for a in gcomps]
        gmask = gmask.T
    ax, ay = gx, gy
    if layout == 'mesh_ij':
        ax, ay = np.meshgrid(gx, gy, indexing='ij')
    elif layout == 'mesh_xy':
        ax, ay = np.meshgrid(gx, gy)
    given = [_container(a.astype(int) if c['container'] == 'int' else a,
                        c['container']) for a in gcomps]
    if c['container'] == 'list':
        ax, ay = np.array(ax).tolist(), np.array(ay).tolist()
    if c['container'] == 'masked':
        # numpy masked arrays carry (part of) the mask themselves
        given = [np.ma.MaskedArray(a, mask=gmask.copy()) for a in given]
        gm = False if vector else None
    elif c['m'] is None:
        gm = False if vector else None
    elif c['maskform'] == 'int':
        gm = gmask.astype(int)
    elif c['maskform'] == 'list':
        gm = gmask.tolist()
    else:
        gm = gmask.copy()
    units = [c['ux'], c['uy'], c['uv']]
    if c['unitform'] == 'unum':
        units = [make_unit(u) for u in units]
    f = VectorField() if vector else ScalarField()
    if c['reuse']:
        # an object already holding other data is overwritten entirely
        f.import_from_arrays(np.arange(3.), np.arange(4.),
                             *([np.ones((3, 4))]*len(given)),
                             mask=np.eye(3, 4, dtype=bool), unit_x='kg',
                             unit_y='kg', unit_values='kg')
    f.import_from_arrays(ax, ay, *given, mask=gm, unit_x=units[0],
                         unit_y=units[1], unit_values=units[2])
    model = g.G(x, y, comps, exp_mask, make_unit(c['ux']), make_unit(c['uy']),
                make_unit(c['uv']))
    g.same_field(f, model, 'imported field', rtol=0)
    check(np.all(np.diff(f.axe_x) > 0) and np.all(np.diff(f.axe_y) > 0),
          'axes not ascending: {} {}', f.axe_x, f.axe_y)
    check(f.shape == (nx, ny), 'shape {} instead of {}', f.shape, (nx, ny))
    if c['mutate']:
        for a in given + [ax, ay, gm]:
            if isinstance(a, np.ndarray):
                np.asarray(a)[...] = 1
            elif isinstance(a, list):
                a.clear()
        g.same_field(f, model, 'field after the caller reused its arrays',
                     rtol=0)
    # assigning data afterwards obeys the same rule
    if not vector:
        new = np.where(exp_mask, np.nan, comps[0])*2.
        f.values = new
        model2 = g.G(x, y, [new], exp_mask, model.ux, model.uy, model.uv)
        g.same_field(f, model2, 'after assigning values', rtol=0)
    rec.label('layout:' + layout, 'rev:%d%d' % (c['revx'], c['revy']),
              'container:' + c['container'],
              'masked' if exp_mask.any() else 'unmasked',
              'nan' if nanmask.any() else 'nonan')
    if not (c['revx'] or c['revy'] or exp_mask.any() or layout != 'ij'):
        rec.mark_trivial()


RULE = ('a reversed axis, a mask or NaN, or a transposed/mesh layout is '
        'involved')
SUBS = [
    Sub('import_sf', case(False), lambda c, r: run(c, r, False), RULE, 1200),
    Sub('import_vf', case(True), lambda c, r: run(c, r, True), RULE, 1200),
]
