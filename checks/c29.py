"""C29: what displays show is the stored data, at its coordinates."""
import re
import matplotlib
matplotlib.use('Agg')
import matplotlib.animation as mplani
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.backend_bases import KeyEvent

from harness.core import Sub, check, close, fail
from harness import gens as g
from checks.c03 import snap, diff
from checks.c10 import cloud, build
from checks.c28 import walk_case, Model, add_to, TYPES
from IMTreatment.core import (TemporalPoints, SpatialScalarFields,
                              SpatialVectorFields, Points)
from IMTreatment.plotlib import plotlib as pplt
from IMTreatment.pod import modal_decomposition
from IMTreatment.vortex_detection.vortex_detection import CritPoints

ASSUMPTIONS = ['fields shown as images are evenly spaced, with at least two '
               'points per axis',
               'every frame has at least one unmasked point',
               'matplotlib draws what it is given (Agg backend)',
               'series displays have at least two frames']


def filled(a):
    return np.ma.filled(np.ma.masked_invalid(np.ma.array(a, dtype=float)),
                        np.nan)


def same_im(im, x, y, vals, what, mask_ok=True):
    check(isinstance(im, matplotlib.image.AxesImage), '{}: gave {!r}', what,
          type(im))
    close(filled(im.get_array()), np.asarray(vals, dtype=float).T,
          what + ': image')
    check(im.origin == 'lower', '{}: origin {}', what, im.origin)
    x, y = np.asarray(x), np.asarray(y)
    dx = (x[-1] - x[0])/(len(x) - 1)/2.
    dy = (y[-1] - y[0])/(len(y) - 1)/2.
    e = im.get_extent()
    close(e[:2], [x[0] - dx, x[-1] + dx], what + ': x extent', rtol=1e-6)
    close(e[2:], [y[0] - dy, y[-1] + dy], what + ': y extent', rtol=1e-6)


def same_quiver(q, x, y, vx, vy, what):
    check(isinstance(q, matplotlib.quiver.Quiver), '{}: gave {!r}', what,
          type(q))
    n = q.N
    check(n == np.size(vx), '{}: {} arrows', what, n)
    # masked arrows, as matplotlib keeps them
    mask = np.broadcast_to(np.asarray(q.Umask, dtype=bool), (n,))
    XX, YY = np.meshgrid(x, y)
    close(np.ravel(q.X), XX.ravel(), what + ': arrows x')
    close(np.ravel(q.Y), YY.ravel(), what + ': arrows y')
    gone = np.isnan(vx).T.ravel() | np.isnan(vy).T.ravel()
    mag = ((vx**2 + vy**2)**.5).T.ravel()
    u = np.where(mask, np.nan, np.ma.getdata(q.U).ravel())
    v = np.where(mask, np.nan, np.ma.getdata(q.V).ravel())
    c = np.where(mask, np.nan, filled(q.get_array()).ravel())
    close(u, np.where(gone, np.nan, vx.T.ravel()), what + ': arrows Vx')
    close(v, np.where(gone, np.nan, vy.T.ravel()), what + ': arrows Vy')
    close(c, np.where(gone, np.nan, mag), what + ': arrow colors')


def same_contour(cs, x, y, vals, what):
    """Lines of each level go exactly through the edges crossing it."""
    check(isinstance(cs, matplotlib.contour.QuadContourSet), '{}: gave {!r}',
          what, type(cs))
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    fin = vals[np.isfinite(vals)]
    close([cs.zmin, cs.zmax], [fin.min(), fin.max()], what + ': extrema')
    if cs.filled:
        return
    span = fin.max() - fin.min()
    if span <= 1e-9*np.abs(fin).max():
        return
    ok = np.isfinite(vals)
    cell = ok[1:, 1:] & ok[1:, :-1] & ok[:-1, 1:] & ok[:-1, :-1]
    for lev, path in zip(cs.levels, cs.get_paths()):
        pts = path.vertices
        if len(pts):
            # values along grid lines
            ix = np.clip(np.searchsorted(x, pts[:, 0]) - 1, 0, len(x) - 2)
            iy = np.clip(np.searchsorted(y, pts[:, 1]) - 1, 0, len(y) - 2)
            tx = (pts[:, 0] - x[ix])/(x[ix + 1] - x[ix])
            ty = (pts[:, 1] - y[iy])/(y[iy + 1] - y[iy])
            check(np.all((tx > -1e-6) & (tx < 1 + 1e-6) & (ty > -1e-6)
                         & (ty < 1 + 1e-6)), '{}: line out of the field', what)
            a, b = vals[ix, iy], vals[ix + 1, iy]
            c, d = vals[ix, iy + 1], vals[ix + 1, iy + 1]
            for k in range(len(pts)):
                got = None
                if abs(ty[k]) < 1e-9:
                    got = a[k] + (b[k] - a[k])*tx[k]
                elif abs(ty[k] - 1) < 1e-9:
                    got = c[k] + (d[k] - c[k])*tx[k]
                elif abs(tx[k]) < 1e-9:
                    got = a[k] + (c[k] - a[k])*ty[k]
                elif abs(tx[k] - 1) < 1e-9:
                    got = b[k] + (d[k] - b[k])*ty[k]
                if got is not None and np.isfinite(got):
                    check(abs(got - lev) < 1e-5*span, '{}: line {} at {} where '
                          'the value is {}', what, lev, pts[k], got)
        # every clear crossing is drawn
        for i in range(len(x) - 1):
            for j in range(len(y)):
                near = (j > 0 and cell[i, j - 1]) or \
                    (j < len(y) - 1 and cell[i, j])
                v0, v1 = vals[i, j], vals[i + 1, j]
                if not near or not min(v0, v1) + 1e-6*span < lev < \
                        max(v0, v1) - 1e-6*span:
                    continue
                px = x[i] + (lev - v0)/(v1 - v0)*(x[i + 1] - x[i])
                hit = len(pts) and np.any(
                    (np.abs(pts[:, 0] - px) < 1e-5*(x[-1] - x[0]))
                    & (np.abs(pts[:, 1] - y[j]) < 1e-5*(y[-1] - y[0])))
                check(hit, '{}: no line {} at ({}, {})', what, lev, px, y[j])


def fine(x, y, vals):
    """Even enough for an image, not degenerate."""
    for a in (x, y):
        d = np.diff(a)
        if not np.allclose(d, d[0], rtol=1e-6):
            return False
    return True


def labels(ax, xs, ys, f, what):
    for lab, name, unit in ((ax.get_xlabel(), xs, f.unit_x),
                            (ax.get_ylabel(), ys, f.unit_y)):
        check(name.lower() in lab.lower(), '{}: label {!r} of {}', what, lab,
              name)
        u = unit.strUnit()
        if u != '[]':
            check(u in lab, '{}: label {!r} without the unit {}', what, lab, u)


def cb_label(fig, ax, unit, what, name=None):
    axs = [a for a in fig.axes if a is not ax]
    check(len(axs) == 1, '{}: {} colorbars', what, len(axs))
    lab = axs[0].get_ylabel()
    u = unit.strUnit()
    if u != '[]':
        check(u in lab, '{}: colorbar {!r} without the unit {}', what, lab, u)
    if name is not None:
        check(name.lower() in lab.lower(), '{}: colorbar {!r} of {}', what,
              lab, name)


def unchanged(o, before, what):
    d = diff(before, snap(o))
    check(not d, '{}: the displayed object changed: {}', what, d)


def cursor(ax, x, y, comps, names, fr, what):
    """The text shown for a position is the one of the closest point."""
    px = x[0] + fr[0]*(x[-1] - x[0])
    py = y[0] + fr[1]*(y[-1] - y[0])
    dx, dy = np.abs(np.asarray(x) - px), np.abs(np.asarray(y) - py)
    sx, sy = np.sort(dx), np.sort(dy)
    if sx[1] - sx[0] < 1e-6*(x[-1] - x[0]) or \
            sy[1] - sy[0] < 1e-6*(y[-1] - y[0]):
        return
    i, j = np.argmin(dx), np.argmin(dy)
    txt = ax.format_coord(px, py)
    got = dict(re.findall(r'(\w+)=(\S+)', txt))
    exp = [('x', x[i]), ('y', y[j])] + [(n, c[i, j])
                                        for n, c in zip(names, comps)]
    check(set(got) == set(k for k, _ in exp), '{}: cursor gives {!r}', what,
          txt)
    for k, v in exp:
        v = float(v)
        if np.isnan(v):
            check(got[k].lower() in ('nan', '--', 'masked'),
                  '{}: {} of a masked point is {}', what, k, got[k])
        else:
            check(abs(float(got[k]) - v) <= 1e-3*abs(v),
                  '{}: cursor gives {}={} where it is {}', what, k, got[k], v)


def fresh():
    plt.close('all')
    plt.figure()


def done(fn):
    def run(c, rec):
        try:
            fresh()
            fn(c, rec)
        finally:
            plt.close('all')
    return run


def view_lims(ax, x, y, mask, what):
    rows = np.where(~mask.all(axis=1))[0]
    cols = np.where(~mask.all(axis=0))[0]
    if rows[0] != rows[-1]:
        close(ax.get_xlim(), [x[rows[0]], x[rows[-1]]], what + ': x limits')
    if cols[0] != cols[-1]:
        close(ax.get_ylim(), [y[cols[0]], y[cols[-1]]], what + ': y limits')


# -------------------------------------------------------------------- fields
@st.composite
def sf_disp(draw):
    kind = draw(st.sampled_from([None, None, 'matrix', 'imshow', 'contour',
                                 'contourf']))
    cont = kind in ('contour', 'contourf')
    c = draw(g.sf_case(even=None if cont else True))
    c['kind'] = kind
    c['comp'] = draw(st.sampled_from([None, None, 'values']
                                     + ([] if cont else ['mask'])))
    c['fr'] = [draw(st.integers(0, 97))/97., draw(st.integers(0, 97))/97.]
    return c


@done
def run_sf(c, rec):
    sf = g.build_sf(c)
    m = g.G.of_case(c)
    kind, comp = c['kind'], c['comp']
    if kind in ('contour', 'contourf') and np.isfinite(m.comps[0]).sum() < 2:
        return rec.mark_trivial()
    before = snap(sf)
    what = 'ScalarField.display({}, {})'.format(comp, kind)
    d = sf.display(comp, kind=kind)
    unchanged(sf, before, what)
    ax = plt.gca()
    vals = m.mask.astype(float) if comp == 'mask' else m.comps[0]
    if kind in ('contour', 'contourf'):
        same_contour(d, m.x, m.y, vals, what)
    else:
        same_im(d, m.x, m.y, vals, what)
        fin = vals[np.isfinite(vals)]
        if fin.min() < fin.max():
            close([d.norm.vmin, d.norm.vmax], [fin.min(), fin.max()],
                  what + ': color limits')
    labels(ax, 'x', 'y', sf, what)
    if comp != 'mask':
        cb_label(ax.figure, ax, sf.unit_values, what)
        view_lims(ax, m.x, m.y, m.mask, what)
        cursor(ax, m.x, m.y, [vals], ['value'], c['fr'], what)
    rec.label(kind, comp)
    if len(set(np.ravel(c['v']))) < 2:
        rec.mark_trivial()


@st.composite
def vf_disp(draw):
    comp = draw(st.sampled_from([None, None, 'V', 'x', 'y', 'comp_x',
                                 'comp_y', 'magnitude', 'mask']))
    kind = None
    if comp in (None, 'V'):
        kind = draw(st.sampled_from([None, 'quiver', 'stream']))
    elif comp != 'mask':
        kind = draw(st.sampled_from([None, 'contour', 'contourf', 'matrix']))
    cont = kind in ('contour', 'contourf') or (comp in (None, 'V')
                                               and kind != 'stream')
    if kind == 'stream':
        c = draw(g.vf_case(even=True, masks=False, min_size=3, scales=False))
        c['uni'] = [draw(g.quarter(-4, 4)), draw(g.nonzero(-4, 4))]
        c['uy'] = c['ux']
    else:
        c = draw(g.vf_case(even=None if cont else True))
    c['kind'], c['comp'] = kind, comp
    c['set'] = draw(st.booleans())
    c['fr'] = [draw(st.integers(0, 97))/97., draw(st.integers(0, 97))/97.]
    return c


@done
def run_vf(c, rec):
    if c['kind'] == 'stream':
        return run_stream(c, rec)
    vf = g.build_vf(c)
    m = g.G.of_case(c)
    kind, comp = c['kind'], c['comp']
    if c['set']:
        # values changed under the mask
        vf.comp_x = np.array(c['vx'], dtype=float)
        vf.comp_y = np.array(c['vy'], dtype=float)
    if kind in ('contour', 'contourf') and np.isfinite(m.comps[0]).sum() < 2:
        return rec.mark_trivial()
    before = snap(vf)
    what = 'VectorField.display({}, {})'.format(comp, kind)
    d = vf.display(comp, kind=kind)
    unchanged(vf, before, what)
    ax = plt.gca()
    labels(ax, 'x', 'y', vf, what)
    name = None
    if comp in (None, 'V'):
        same_quiver(d, m.x, m.y, m.comps[0], m.comps[1], what)
        cursor(ax, m.x, m.y, m.comps, ['Vx', 'Vy'], c['fr'], what)
        name = 'Magnitude'
    else:
        if comp in ('x', 'comp_x'):
            vals, name = m.comps[0], 'Vx'
        elif comp in ('y', 'comp_y'):
            vals, name = m.comps[1], 'Vy'
        elif comp == 'mask':
            vals = m.mask.astype(float)
        else:
            vals = (m.comps[0]**2 + m.comps[1]**2)**.5
            name = 'Magnitude'
        if kind in ('contour', 'contourf'):
            same_contour(d, m.x, m.y, vals, what)
        else:
            same_im(d, m.x, m.y, vals, what)
        if comp != 'mask':
            cursor(ax, m.x, m.y, [vals], ['value'], c['fr'], what)
    if comp != 'mask':
        cb_label(ax.figure, ax, vf.unit_values, what, name)
    rec.label(kind, comp)


def run_stream(c, rec):
    n = (len(c['x']), len(c['y']))
    u, v = c['uni']
    c = dict(c, vx=np.full(n, u).tolist(), vy=np.full(n, v).tolist())
    vf = g.build_vf(c)
    before = snap(vf)
    what = 'VectorField.display(kind=stream)'
    d = vf.display(kind='stream')
    unchanged(vf, before, what)
    segs = np.array(d.lines.get_segments())
    check(len(segs) > 0, '{}: nothing drawn', what)
    e = segs[:, -1] - segs[:, 0]
    lx, ly = c['x'][-1] - c['x'][0], c['y'][-1] - c['y'][0]
    cross = e[:, 0]*v - e[:, 1]*u
    check(np.all(np.abs(cross) <= 1e-6*(lx + ly)*np.hypot(u, v)),
          '{}: lines not along the velocity', what)
    eps = 1e-6*(lx + ly)
    check(segs[..., 0].min() >= c['x'][0] - eps
          and segs[..., 0].max() <= c['x'][-1] + eps
          and segs[..., 1].min() >= c['y'][0] - eps
          and segs[..., 1].max() <= c['y'][-1] + eps,
          '{}: lines out of the field', what)
    close(np.unique(np.round(filled(d.lines.get_array()), 9)),
          [round(float(np.hypot(u, v)), 9)], what + ': colors', rtol=1e-6)
    # arrows go along the velocity
    for a in plt.gca().patches:
        p0, p1 = a._posA_posB
        p0, p1 = np.array(p0), np.array(p1)
        check(np.dot(p1 - p0, [u, v]) >= 0, '{}: arrow against the velocity',
              what)
    cb_label(plt.gcf(), plt.gca(), vf.unit_values, what, 'Magnitude')
    rec.label('stream')


# ------------------------------------------------------------------ profiles
@st.composite
def prof_disp(draw):
    c = draw(g.prof_case(min_size=2))
    c['kind'] = draw(st.sampled_from(['plot', 'plot', 'semilogx', 'semilogy',
                                      'loglog']))
    c['rev'] = draw(st.booleans())
    c['color'] = None
    if draw(st.integers(0, 3)) == 0 and c['kind'] == 'plot':
        c['color'] = [draw(g.quarter(-9, 9)) for _ in c['x']]
        c['minc'] = draw(st.sampled_from([1000, 50, 2]))
        c['bar'] = draw(st.booleans())
    return c


@done
def run_prof(c, rec):
    p = g.build_prof(c)
    before = snap(p)
    what = 'Profile.display({}, reverse={})'.format(c['kind'], c['rev'])
    x, y = np.array(c['x'], dtype=float), np.array(c['y'], dtype=float)
    if c['m'] is not None:
        y[np.array(c['m'], dtype=bool)] = np.nan
    if c['rev']:
        x, y = y, x
    if c['color'] is not None:
        z = np.array(c['color'])
        keep = ~(np.isnan(x) | np.isnan(y))
        if keep.sum() < 2:
            return rec.mark_trivial()
        d = p.display(c['kind'], reverse=c['rev'], color=list(z),
                      min_colors=c['minc'], colorbar=c['bar'],
                      color_label='cc')
        unchanged(p, before, what)
        segs = np.array(d.get_segments())
        ref = np.array([x[keep], y[keep], z[keep]])
        n = keep.sum()
        check(len(segs) >= max(n, min(c['minc'], 2*n)) - 1,
              '{}: {} segments', what, len(segs))
        arr = np.asarray(d.get_array(), dtype=float)
        close(segs[0, 0], ref[:2, 0], what + ': start of the line')
        close(segs[-1, 1], ref[:2, -1], what + ': end of the line')
        close(segs[1:, 0], segs[:-1, 1], what + ': joints of the line')
        t = np.linspace(0, n - 1., len(segs) + 1)
        for k in range(2):
            close(segs[:, 0, k], np.interp(t, np.arange(n), ref[k])[:-1],
                  what + ': line', rtol=1e-6)
        close(arr[:len(segs)], np.interp(t, np.arange(n), ref[2])[:len(segs)],
              what + ': colors of the line', rtol=1e-6)
        if arr.min() < arr.max():
            close([d.norm.vmin, d.norm.vmax], [arr.min(), arr.max()],
                  what + ': color limits')
        if c['bar']:
            axs = [a for a in plt.gcf().axes if a is not d.axes]
            check(len(axs) == 1 and axs[0].get_ylabel() == 'cc',
                  '{}: colorbar', what)
        ax = d.axes
        rec.label('colors')
    else:
        gone = np.zeros(len(x), dtype=bool)
        if c['kind'] in ('semilogx', 'loglog'):
            gone |= x <= 0
        if c['kind'] in ('semilogy', 'loglog'):
            gone |= y <= 0
        if gone.all() or np.isnan(x[~gone]).all() or np.isnan(y[~gone]).all():
            return rec.mark_trivial()
        d = p.display(c['kind'], reverse=c['rev'])
        unchanged(p, before, what)
        check(len(d) == 1, '{}: {} lines', what, len(d))
        ax = d[0].axes
        gx, gy = np.array(d[0].get_xdata()), np.array(d[0].get_ydata())
        close(filled(gx), x[~gone], what + ': abscissa')
        close(filled(gy), y[~gone], what + ': ordinate')
        check(len(ax.lines) == 1, '{}: {} lines in the graph', what,
              len(ax.lines))
        check(ax.get_xscale() == ('log' if c['kind'] in ('semilogx', 'loglog')
                                  else 'linear'), '{}: x scale', what)
        check(ax.get_yscale() == ('log' if c['kind'] in ('semilogy', 'loglog')
                                  else 'linear'), '{}: y scale', what)
        if gone.any():
            rec.label('no logarithm')
    ux, uy = p.unit_x.strUnit(), p.unit_y.strUnit()
    if c['rev']:
        ux, uy = uy, ux
    check(ux in ax.get_xlabel() and uy in ax.get_ylabel(),
          '{}: labels {!r}, {!r}', what, ax.get_xlabel(), ax.get_ylabel())
    check(c['name'] in ax.get_title(), '{}: title {!r}', what, ax.get_title())
    rec.label(c['kind'])


# -------------------------------------------------------------------- points
@st.composite
def pts_disp(draw):
    c = draw(cloud(min_size=1, max_size=6))
    c['kind'] = draw(st.sampled_from([None, 'scatter', 'plot', '3D'] +
                                     (['colored_plot'] if c['v'] is not None
                                      and len(c['xy']) > 1 else [])))
    axes = ['x', 'y'] + (['v'] if c['v'] is not None else [])
    c['ax'] = [None, None, None]
    if c['ori'] is None and draw(st.booleans()):
        c['ax'] = [draw(st.sampled_from(axes)), draw(st.sampled_from(axes)),
                   draw(st.sampled_from([None] + axes))]
    if c['kind'] == '3D' and c['v'] is None:
        c['kind'] = 'plot'
    return c


@done
def run_pts(c, rec):
    p = build(c)
    before = snap(p)
    kind = c['kind']
    xy = np.array(c['xy'], dtype=float)
    v = None if c['v'] is None else np.array(c['v'], dtype=float)
    src = {'x': xy[:, 0], 'y': xy[:, 1], 'v': v}
    uns = {'x': p.unit_x, 'y': p.unit_y, 'v': p.unit_v}
    what = 'Points.display({}, {})'.format(kind, c['ax'])
    if kind == '3D':
        ax = p.display3D('plot', xlabel='a', ylabel='b', zlabel='c',
                         marker='o')
        unchanged(p, before, what)
        check(len(ax.lines) == 1, '{}: {} lines', what, len(ax.lines))
        for got, e in zip(ax.lines[0].get_data_3d(), (xy[:, 0], xy[:, 1], v)):
            close(got, e, what + ': coordinates')
        check((ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel())
              == ('a', 'b', 'c'), '{}: labels', what)
        rec.label('3D')
        return
    ax_x, ax_y, ax_c = c['ax']
    d = p.display(kind, axe_x=ax_x, axe_y=ax_y, axe_color=ax_c)
    unchanged(p, before, what)
    ex, ey = ax_x or 'x', ax_y or 'y'
    if ax_c is None:
        left = [a for a in 'xyv' if a not in (ex, ey)]
        ec = left[0] if len(left) == 1 else ('v' if ex != ey else None)
    else:
        ec = ax_c
    ax = plt.gca()
    if kind in (None, 'scatter'):
        close(filled(d.get_offsets()), np.array([src[ex], src[ey]]).T,
              what + ': positions')
        check(ax is d.axes, '{}: axes', what)
        if v is not None and ec is not None:
            close(filled(d.get_array()), src[ec], what + ': colors')
    elif kind == 'plot':
        check(len(d) == 1, '{}: {} lines', what, len(d))
        close(d[0].get_xdata(), src[ex], what + ': abscissa')
        close(d[0].get_ydata(), src[ey], what + ': ordinate')
    else:
        segs = np.array(d.get_segments())
        close(segs[0, 0], [src[ex][0], src[ey][0]], what + ': start')
        close(segs[-1, 1], [src[ex][-1], src[ey][-1]], what + ': end')
        n = len(xy)
        t = np.linspace(0, n - 1., len(segs) + 1)
        for k, a in enumerate((ex, ey)):
            close(segs[:, 0, k], np.interp(t, np.arange(n), src[a])[:-1],
                  what + ': line', rtol=1e-6)
        if ec is not None:
            close(np.asarray(d.get_array())[:len(segs)],
                  np.interp(t, np.arange(n), src[ec])[:len(segs)],
                  what + ': colors of the line', rtol=1e-6)
        check(callable(ax.plot), '{}: the axes cannot plot anymore', what)
    for lab, a in ((ax.get_xlabel(), ex), (ax.get_ylabel(), ey)):
        check(a in lab.lower() and uns[a].strUnit() in lab,
              '{}: label {!r} for {} {}', what, lab, a, uns[a].strUnit())
    if v is not None and kind != 'plot' and ec is not None:
        cb_label(ax.figure, ax, uns[ec], what, ec)
    if c['ori'] is not None:
        lines = [ln for ln in ax.lines if not (kind == 'plot' and ln is d[0])]
        exp = [(pt, np.array(o)) for pt, os in zip(xy, c['ori']) for o in os
               if not np.all(np.array(os) == 0)]
        check(len(lines) == len(exp), '{}: {} orientation lines instead of {}',
              what, len(lines), len(exp))
        coef = []
        for ln, (pt, o) in zip(lines, exp):
            data = np.array(ln.get_data())
            close(data.mean(axis=1), pt, what + ': orientation line', atol=1e-9,
                  rtol=1e-9)
            if np.any(o != 0):
                e = data[:, 1] - data[:, 0]
                k = np.dot(e, o)/np.dot(o, o)
                check(k > 0, '{}: orientation line against', what)
                close(e, k*o, what + ': orientation', rtol=1e-6,
                      scale=np.abs(e).max())
                coef.append(k)
        if len(coef) > 1:
            close(coef, [coef[0]]*len(coef), what + ': line lengths',
                  rtol=1e-6)
        rec.label('oriented')
    rec.label(kind, 'axes' if ax_x else '')


# -------------------------------------------------------- mosaics, multiple
@st.composite
def mosaic_disp(draw):
    vec = draw(st.booleans())
    cs = []
    u = [draw(g.unit_len()), draw(g.unit_len()), draw(g.unit_any())]
    for _ in range(draw(st.integers(1, 3))):
        c = draw((g.vf_case if vec else g.sf_case)(even=True, scales=False,
                                                   max_size=4))
        c['ux'], c['uy'], c['uv'] = u
        cs.append(c)
    return {'vec': vec, 'cs': cs, 'comp': draw(st.sampled_from(
        [None, 'V', 'magnitude'] if vec else [None, 'values']))}


@done
def run_mosaic(c, rec):
    m = SpatialVectorFields() if c['vec'] else SpatialScalarFields()
    mods = []
    for fc in c['cs']:
        m.add_field((g.build_vf if c['vec'] else g.build_sf)(fc))
        # (masked borders are dropped when a field is added)
        mods.append(g.G.of_field(m.fields[-1]))
        if len(mods[-1].x) < 2 or len(mods[-1].y) < 2:
            return rec.mark_trivial()
    before = snap(m)
    what = '{}.display({})'.format(type(m).__name__, c['comp'])
    m.display(c['comp'])
    unchanged(m, before, what)
    ax = plt.gcf().axes[0]
    if c['vec']:
        sc = [(k.comps[0]**2 + k.comps[1]**2)**.5 for k in mods]
    else:
        sc = [k.comps[0] for k in mods]
    lo = min(np.nanmin(s) for s in sc)
    hi = max(np.nanmax(s) for s in sc)
    if c['vec'] and c['comp'] != 'magnitude':
        qs = [a for a in ax.collections
              if isinstance(a, matplotlib.quiver.Quiver)]
        check(len(qs) == len(mods), '{}: {} fields shown', what, len(qs))
        for q, k in zip(qs, mods):
            same_quiver(q, k.x, k.y, k.comps[0], k.comps[1], what)
    else:
        check(len(ax.images) == len(mods), '{}: {} fields shown', what,
              len(ax.images))
        for im, k, s in zip(ax.images, mods, sc):
            same_im(im, k.x, k.y, s, what)
            if lo < hi:
                close([im.norm.vmin, im.norm.vmax], [lo, hi],
                      what + ': color limits')
    cb_label(plt.gcf(), ax, m.unit_values, what)
    rec.label(c['comp'], len(mods))
    if len(mods) < 2:
        rec.mark_trivial()


COMPS = {True: [None, 'V', 'magnitude', 'comp_x', 'comp_y', 'mask'],
         False: [None, 'values', 'mask']}


def frame_vals(fc, comp):
    m = g.G.of_case(fc)
    if comp == 'mask':
        return [m.mask.astype(float)]
    if comp == 'magnitude':
        return [(m.comps[0]**2 + m.comps[1]**2)**.5]
    if comp == 'comp_x':
        return [m.comps[0]]
    if comp == 'comp_y':
        return [m.comps[1]]
    return m.comps


@st.composite
def multi_disp(draw):
    vec = draw(st.booleans())
    c = draw(g.temporal_case(vec, min_n=2, max_n=5, even=True, scales=False))
    c['vec'] = vec
    c['comp'] = draw(st.sampled_from(COMPS[vec]))
    n = len(c['frames'])
    c['inds'] = [draw(st.integers(0, n - 1))
                 for _ in range(draw(st.integers(1, 5)))]
    c['cb'] = draw(st.booleans())
    c['share'] = [draw(st.booleans()), draw(st.booleans())]
    return c


@done
def run_multi(c, rec):
    t = g.build_temporal(c, c['vec'])
    before = snap(t)
    fcs = g.frame_cases(c)
    inds = c['inds']
    what = 'display_multiple({}, {}, sharecb={})'.format(c['comp'], inds,
                                                         c['cb'])
    fig, axs = t.display_multiple(c['comp'], inds=inds, sharecb=c['cb'],
                                  sharex=c['share'][0], sharey=c['share'][1])
    unchanged(t, before, what)
    vals = [frame_vals(fcs[i], c['comp']) for i in inds]
    sc = [v[0] if len(v) == 1 else (v[0]**2 + v[1]**2)**.5 for v in vals]
    axs = [a for a in np.ravel(axs) if a in fig.axes]
    check(len(axs) == len(inds), '{}: {} graphs', what, len(axs))
    for ax, v, s in zip(axs, vals, sc):
        if len(v) == 2:
            qs = [a for a in ax.collections
                  if isinstance(a, matplotlib.quiver.Quiver)]
            check(len(qs) == 1, '{}: {} quivers', what, len(qs))
            same_quiver(qs[0], c['x'], c['y'], v[0], v[1], what)
            art = qs[0]
        else:
            check(len(ax.images) == 1, '{}: {} images', what, len(ax.images))
            art = ax.images[0]
            same_im(art, c['x'], c['y'], v[0], what)
        lim = [min(np.nanmin(k) for k in sc), max(np.nanmax(k) for k in sc)]
        if c['cb'] and lim[0] < lim[1]:
            close([art.norm.vmin, art.norm.vmax], lim,
                  what + ': shared color limits')
    rec.label(c['comp'], 'shared' if c['cb'] else '')
    if len(inds) < 2:
        rec.mark_trivial()


# -------------------------------------------------------------------- series
KEYS = ['right', 'left', ' ', 'backspace', '+', '-', 'l', 'h', 'up', 'down',
        'k', 'j', 'enter', 'g', 'i', '*', 'p', 't', 'a', 'pagedown', 'b',
        'pageup', 'z', 's', 'q'] + ['0', '1', '2', '3', '4', '5', '9']*2


@st.composite
def series_case(draw):
    kind = draw(st.sampled_from(['sf', 'sf', 'vf', 'pts']))
    c = draw(g.temporal_case(kind == 'vf', min_n=2, max_n=draw(
        st.sampled_from([6, 6, 13])), even=True, scales=False, max_size=3))
    c['what'] = kind
    c['comp'] = None
    c['plot'] = None
    n = len(c['frames'])
    if kind == 'vf':
        c['comp'] = draw(st.sampled_from(COMPS[True]))
        if c['comp'] in (None, 'V') and draw(st.integers(0, 3)) == 0:
            c['plot'] = 'stream'
    elif kind == 'sf':
        c['comp'] = draw(st.sampled_from([None, None, 'mask']))
        if c['comp'] is None:
            c['plot'] = draw(st.sampled_from([None, None, 'contour',
                                              'contourf']))
    c['over'] = draw(st.integers(0, 2)) == 0
    co = g.quarter(-9, 9)
    c['clouds'] = [[[draw(co), draw(co)] for _ in range(
        draw(st.integers(0 if i else 1, 3)))] for i in range(n)]
    c['cb'] = draw(st.booleans())
    c['buf'] = draw(st.sampled_from([100, 100, 1, 2, 0, None]))
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.sampled_from(['key', 'key', 'key', 'key', 'next', 'prev',
                                  'slide', 'tick', 'tick', 'num']))
        op = {'k': k}
        if k == 'key':
            op['key'] = draw(st.sampled_from(KEYS))
        elif k == 'num':
            op['n'] = draw(st.integers(0, n + 2) | st.integers(0, 14))
            op['key'] = draw(st.sampled_from(['enter', 'right', 'left', 'i',
                                              'a', 'up', 'down', 'g']))
        elif k == 'slide':
            op['v'] = draw(st.integers(4, 4*n))/4.
        ops.append(op)
    c['ops'] = ops
    return c


@st.composite
def player_case(draw):
    """Long series of points, with many moves."""
    n = draw(st.integers(2, 9) | st.integers(10, 45))
    ops = []
    for _ in range(draw(st.integers(5, 20))):
        k = draw(st.sampled_from(['key', 'num', 'num', 'num', 'next', 'prev',
                                  'slide', 'tick', 'tick']))
        op = {'k': k}
        if k == 'key':
            op['key'] = draw(st.sampled_from(KEYS))
        elif k == 'num':
            op['n'] = draw(st.integers(0, n + 2) | st.integers(0, 120))
            op['key'] = draw(st.sampled_from(['enter', 'right', 'left', 'i',
                                              'a', 'up', 'down', 'g', 'a']))
        elif k == 'slide':
            op['v'] = draw(st.integers(4, 4*n))/4.
        ops.append(op)
    return {'what': 'pts', 'comp': None, 'plot': None, 'over': False,
            'clouds': [[[float(i), float(i*i % 7)]] for i in range(n)],
            'cb': False, 'buf': draw(st.sampled_from([100, 3, 1, None])),
            'ops': ops, 'x': [], 'y': [], 'ux': 'm', 'uy': 'm', 'uv': '',
            'ut': 's', 'frames': [{}]*n, 'times': list(range(n))}


class Player(object):
    """Reference player."""

    def __init__(self, n):
        self.n, self.ind, self.incr, self.num = n, 0, 1, None
        self.lims = []

    def take(self):
        k, self.num = self.num, None
        return k

    def move(self, s):
        k = self.take()
        k = self.incr if k is None else k
        self.ind = min(max(self.ind + s*k, 0), self.n - 1)

    def goto(self, default):
        k = self.take()
        k = default if k is None else k
        if k is not None and 1 <= k <= self.n:
            self.ind = k - 1

    def key(self, key):
        if key in [' ', 'right', '+', 'l']:
            self.move(1)
        elif key in ['left', 'backspace', '-', 'h']:
            self.move(-1)
        elif key in ['up', 'k']:
            self.goto(self.n)
        elif key in ['down', 'j']:
            self.goto(1)
        elif key in ['enter', 'g']:
            self.goto(None)
        elif key in ['i', '*']:
            k = self.take()
            self.incr = self.incr if k is None else k
        elif key in ['pagedown', 'a']:
            k = self.take()
            k = self.ind if k is None else k - 1
            if not 0 <= k < self.n:
                pass
            elif k in self.lims:
                self.lims.remove(k)
            elif len(self.lims) == 2:
                self.lims = []
            else:
                self.lims = sorted(self.lims + [k])
        elif key in ['pageup', 'b']:
            others = [k for k in self.lims if k != self.ind]
            if others:
                self.ind = others[0]
        if key in '0123456789' and key != '':
            self.num = int(key) if self.num is None else 10*self.num + int(key)
        else:
            self.num = None

    def tick(self):
        lo, hi = self.lims if len(self.lims) == 2 else (0, self.n - 1)
        self.ind += self.incr
        if self.ind > hi:
            self.ind = lo


def shown_points(ax):
    return [filled(a.get_offsets()) for a in ax.collections
            if isinstance(a, matplotlib.collections.PathCollection)]


def see(c, fcs, ax, i, what, cb=None):
    """The graph shows frame i, and nothing else."""
    if c['what'] == 'pts' or c['over']:
        pts = [p for p in shown_points(ax)]
        exp = np.array(c['clouds'][i], dtype=float).reshape((-1, 2))
        if len(exp) == 0:
            check(len(pts) == 0, '{}: points of another frame shown', what)
        else:
            check(len(pts) == 1, '{}: {} sets of points shown', what,
                  len(pts))
            close(pts[0], exp, what + ': points')
    if c['what'] == 'pts':
        return
    vals = frame_vals(fcs[i], c['comp'])
    s = vals[0] if len(vals) == 1 else (vals[0]**2 + vals[1]**2)**.5
    if c['plot'] in ('contour', 'contourf'):
        cs = [a for a in ax.collections
              if isinstance(a, matplotlib.contour.QuadContourSet)]
        check(len(cs) == 1, '{}: {} contours shown', what, len(cs))
        same_contour(cs[0], c['x'], c['y'], vals[0], what)
        return
    if c['plot'] == 'stream':
        lns = [a for a in ax.collections
               if isinstance(a, matplotlib.collections.LineCollection)]
        check(len(lns) == 1, '{}: {} sets of streamlines shown', what,
              len(lns))
        return
    if len(vals) == 2:
        qs = [a for a in ax.collections
              if isinstance(a, matplotlib.quiver.Quiver)]
        check(len(qs) == 1, '{}: {} quivers shown', what, len(qs))
        same_quiver(qs[0], c['x'], c['y'], vals[0], vals[1], what)
        art = qs[0]
    else:
        check(len(ax.images) == 1, '{}: {} images shown', what,
              len(ax.images))
        art = ax.images[0]
        same_im(art, c['x'], c['y'], vals[0], what)
    if c['cb']:
        al = [frame_vals(fc, c['comp']) for fc in fcs]
        al = [v[0] if len(v) == 1 else (v[0]**2 + v[1]**2)**.5 for v in al]
        lim = [min(np.nanmin(k) for k in al), max(np.nanmax(k) for k in al)]
        if lim[0] < lim[1]:
            close([art.norm.vmin, art.norm.vmax], lim,
                  what + ': color limits')
    else:
        lim = [np.nanmin(s), np.nanmax(s)]
    if cb is not None and lim[0] < lim[1]:
        close([cb.norm.vmin, cb.norm.vmax], lim, what + ': colorbar limits')


@done
def run_series(c, rec):
    fcs = g.frame_cases(c)
    n = len(fcs)
    if c['plot'] == 'stream' or c['plot'] in ('contour', 'contourf'):
        for fc in fcs:
            v = frame_vals(fc, c['comp'])
            if fc['m'] is not None or np.ptp(v[0]) == 0 or \
                    (len(v) > 1 and np.ptp(v[1]) == 0):
                return rec.mark_trivial()
    tp = None
    if c['what'] == 'pts' or c['over']:
        tp = TemporalPoints()
        for i, cl in enumerate(c['clouds']):
            tp.add_pts(Points(np.array(cl, dtype=float).reshape((-1, 2)),
                              unit_x=c['ux'], unit_y=c['uy']),
                       time=float(c['times'][i]), unit_times=c['ut'])
    objs, before = [], []
    if c['what'] != 'pts':
        t = g.build_temporal(c, c['what'] == 'vf')
        objs.append(t)
    if tp is not None:
        objs.append(tp)
    before = [snap(o) for o in objs]
    kw = {}
    if c['what'] != 'pts':
        db = t.display(c['comp'], kind=c['plot'], sharecb=c['cb'],
                       buffer_size=c['buf'])
        if c['over']:
            tp.display(buffer_size=c['buf'])
    else:
        db = tp.display(buffer_size=c['buf'])
    bm = db.button_manager
    fig = bm.fig
    if c['what'] != 'pts':
        labels(bm.ax, 'x', 'y', t, 'series display')
    pl = Player(n)
    cb = bm.cb if not c['plot'] else None
    see(c, fcs, bm.ax, 0, 'first frame', cb)
    moved = set([0])
    for k, op in enumerate(c['ops']):
        what = 'step {} {}'.format(k, op)
        if op['k'] in ('key', 'num'):
            keys = [op['key']]
            if op['k'] == 'num':
                keys = list(str(op['n'])) + keys
            for key in keys:
                KeyEvent('key_press_event', fig.canvas, key)._process()
                pl.key(key)
        elif op['k'] == 'next':
            bm.nextf(None)
            pl.move(1)
        elif op['k'] == 'prev':
            bm.prevf(None)
            pl.move(-1)
        elif op['k'] == 'tick':
            bm.timer_play()
            pl.tick()
        else:
            bm.bslid.set_val(op['v'])
            pl.ind = int(min(max(op['v'], 1), n)) - 1
        check(bm.ind == pl.ind, '{}: frame {} instead of {}', what, bm.ind,
              pl.ind)
        check(bm.bslid.val == pl.ind + 1, '{}: slider at {}', what,
              bm.bslid.val)
        see(c, fcs, bm.ax, pl.ind, what, cb)
        moved.add(pl.ind)
    for o, b in zip(objs, before):
        unchanged(o, b, 'series display')
    rec.label(c['what'], c['plot'], 'over' if c['over'] else '',
              'frames:{}'.format(len(moved)))
    if len(moved) < 2:
        rec.mark_trivial()


# ------------------------------------------------- animations, linked graphs
@st.composite
def anim_case(draw):
    c = draw(g.temporal_case(False, min_n=2, max_n=5, even=True, scales=False,
                             max_size=3))
    c.update(what='sf', comp=None, plot=None, over=False, cb=True)
    n = len(c['frames'])
    c['k'] = draw(st.sampled_from(['save', 'link', 'animate']))
    c['at'] = draw(st.integers(0, n - 1))
    c['incr'] = draw(st.integers(1, 2))
    c['inter'] = None
    if draw(st.booleans()):
        c['inter'] = sorted([draw(st.integers(0, n - 1)),
                             draw(st.integers(0, n - 1))])
    c['moves'] = draw(st.lists(st.tuples(st.integers(0, 1),
                                         st.integers(1, n)), min_size=1,
                               max_size=4))
    return c


class Recorder(mplani.AbstractMovieWriter):
    frames = None

    def setup(self, fig, outfile, dpi=None):
        self.fig = fig

    def grab_frame(self, **kw):
        im = self.fig.button_manager.ax.images
        Recorder.frames.append([filled(i.get_array()) for i in im])

    def finish(self):
        pass


if 'recorder' not in mplani.writers.list():
    mplani.writers.register('recorder')(Recorder)
    Recorder.isAvailable = classmethod(lambda cls: True)


@done
def run_anim(c, rec):
    fcs = g.frame_cases(c)
    n = len(fcs)
    t = g.build_temporal(c, False)
    before = snap(t)
    if c['k'] == 'animate':
        an, = t.display_animate()
        for i in [c['at'], 0, n - 1]:
            an._draw_frame(i)
            ax = an._fig.axes[0]
            see(dict(c, cb=False), fcs, ax, i, 'display_animate frame')
        an._draw_was_started = True
    elif c['k'] == 'save':
        db = t.display()
        bm = db.button_manager
        bm.incr = c['incr']
        bm.ind = c['at']
        bm.update()
        Recorder.frames = []
        kw = {} if c['inter'] is None else {'fields': c['inter']}
        pplt.save_animation('unused', writer='recorder', **kw)
        lo, hi = c['inter'] if c['inter'] is not None else (0, n - 1)
        check(len(Recorder.frames) == hi - lo + 1, 'save_animation: {} frames '
              'recorded instead of {}', len(Recorder.frames), hi - lo + 1)
        for fr, i in zip(Recorder.frames, range(lo, hi + 1)):
            check(len(fr) == 1, 'save_animation: {} images in a frame',
                  len(fr))
            close(fr[0], frame_vals(fcs[i], None)[0].T,
                  'save_animation: frame {}'.format(i))
        check(bm.ind == c['at'], 'save_animation: frame {} left shown', bm.ind)
        see(c, fcs, bm.ax, c['at'], 'after save_animation')
    else:
        db1 = t.display()
        plt.figure()
        db2 = t.display()
        a, b = db1.button_manager, db2.button_manager
        check(a is not b, 'two figures with one player')
        a.link_to_other_graph(db2)
        for who, k in c['moves']:
            m = (a, b)[who]
            for key in list(str(k)) + ['enter']:
                KeyEvent('key_press_event', m.fig.canvas, key)._process()
            check(a.ind == b.ind == k - 1, 'linked graphs at {} and {} after '
                  'going to {}', a.ind, b.ind, k - 1)
            see(c, fcs, a.ax, k - 1, 'first linked graph')
            see(c, fcs, b.ax, k - 1, 'second linked graph')
    unchanged(t, before, 'animation')
    rec.label(c['k'])


# ----------------------------------------------------------- critical points
@st.composite
def crit_case(draw):
    c = draw(walk_case())
    n = len(c['d'])
    c['k'] = draw(st.sampled_from(['series', 'series', 'traj', 'x', 'y',
                                   'time', 'lengths']))
    co = st.integers(-40, 40).map(lambda i: i/8.)
    c['sec'] = [[[draw(co), draw(co)] for _ in range(draw(st.integers(0, 2)))]
                for _ in range(n)]
    c['sect'] = draw(st.sampled_from([t for t in TYPES if t != c['type']]))
    c['tr'] = draw(st.booleans())
    c['col'] = draw(st.sampled_from([None, 'r']))
    c['go'] = draw(st.lists(st.integers(1, n), min_size=1, max_size=6))
    c['filt'] = [draw(st.booleans()) for _ in range(5)]
    return c


def line_data(ax):
    return [np.array(ln.get_xydata(), dtype=float).tolist() for ln in ax.lines]


def color_of(s):
    return tuple(np.round(matplotlib.colors.to_rgb(s), 6))


@done
def run_crit(c, rec):
    m = Model(['m', 'mm', 's'])
    cp = CritPoints(unit_time='s')
    pos = np.array(c['s'], dtype=float)
    fr = []
    for i in range(len(c['d'])):
        pos = pos + np.array(c['d'][i])
        xy = [pos[j].tolist() for j in c['p'][i] if c['a'][i][j]]
        s = {c['type']: xy, c['sect']: c['sec'][i], 'ori': False}
        add_to(cp, m, i*c['dt'], s)
        m.add(i*c['dt'], s)
        fr.append(s)
    if not any(f[c['type']] for f in fr):
        return rec.mark_trivial()
    # each type has its own color
    cols = dict(zip(TYPES, cp.colors))
    n = len(fr)
    need = c['k'] not in ('series', 'time') or (c['k'] == 'series' and c['tr'])
    if need:
        cp.compute_traj(epsilon=c['eps'])
    trajs = {t: [np.array(a.xy) for a in getattr(cp, t + '_traj')]
             for t in TYPES} if need else None
    times = {t: [np.array(a.v) for a in getattr(cp, t + '_traj')]
             for t in TYPES} if need else None
    before = snap(cp)
    what = 'CritPoints.' + c['k']
    kw = {} if c['col'] is None else {'color': c['col']}
    if c['k'] == 'series':
        cpkw = dict(kw)
        dbs = cp.display(cpkw=cpkw, display_traj=c['tr'])
        unchanged(cp, before, what)
        check(cpkw == kw, '{}: drawing arguments changed: {}', what, cpkw)
        bm = dbs[0].button_manager
        for go in [1] + c['go']:
            for key in list(str(go)) + ['enter']:
                KeyEvent('key_press_event', bm.fig.canvas, key)._process()
            i = go - 1
            exp = []
            for t in TYPES:
                if fr[i].get(t):
                    exp.append([np.array(fr[i][t]).tolist(),
                                color_of(c['col'] or cols[t]), 'None'])
                if c['tr']:
                    for a, v in zip(trajs[t], times[t]):
                        if np.any(v == m.t[i]):
                            exp.append([a.tolist(), None, '-'])
            got = []
            for ln in bm.ax.lines:
                style = ln.get_linestyle()
                got.append([np.array(ln.get_xydata()).tolist(),
                            color_of(ln.get_markerfacecolor())
                            if style == 'None' else None, style])
            check(sorted(map(str, got)) == sorted(map(str, exp)),
                  '{}: frame {} shows {} instead of {}', what, i, got, exp)
        rec.label('with trajectories' if c['tr'] else 'points')
    elif c['k'] == 'time':
        i = c['go'][0] - 1
        cpkw = dict(kw)
        cp.display_arch(indice=i, cpkw=cpkw)
        unchanged(cp, before, what)
        check(cpkw == kw, '{}: drawing arguments changed: {}', what, cpkw)
        exp = [np.array(fr[i][t]).tolist() for t in TYPES if fr[i].get(t)]
        got = line_data(plt.gca())
        check(sorted(map(str, got)) == sorted(map(str, exp)),
              '{}: points at {}: {} instead of {}', what, i, got, exp)
    elif c['k'] == 'lengths':
        fig = cp.display_traj_len_repartition()
        unchanged(cp, before, what)
        got = {}
        for p in fig.axes[0].patches:
            h = p.get_height()
            if h:
                k = (color_of(p.get_facecolor()[:3]),
                     int(round(p.get_x() + p.get_width()/2.)))
                got[k] = got.get(k, 0) + int(round(h))
        exp = {}
        for t in TYPES:
            for a in trajs[t]:
                k = (color_of(cols[t]), len(a))
                exp[k] = exp.get(k, 0) + 1
        check(got == exp, '{}: {} instead of {}', what, got, exp)
    else:
        cp.display_traj({'traj': 'default'}.get(c['k'], c['k']),
                        filt=c['filt'], **kw)
        unchanged(cp, before, what)
        exp = []
        for t, f in zip(TYPES, c['filt']):
            if not f:
                continue
            for a, v in zip(trajs[t], times[t]):
                if c['k'] == 'x':
                    a = np.array([a[:, 0], v]).T
                elif c['k'] == 'y':
                    a = np.array([v, a[:, 1]]).T
                exp.append([a.tolist(), color_of(c['col'] or cols[t])])
        got = [[np.array(ln.get_xydata()).tolist(), color_of(ln.get_color())]
               for ln in plt.gca().lines]
        check(sorted(map(str, got)) == sorted(map(str, exp)),
              '{}: {} instead of {}', what, got, exp)
        if not exp:
            rec.mark_trivial()
    rec.label(c['k'])


# --------------------------------------------------------------------- modes
@st.composite
def modes_case(draw):
    vec = draw(st.booleans())
    n = draw(st.integers(4, 6))
    c = draw(g.temporal_case(
        vec, min_n=n, max_n=n, even=True, scales=False, masks=False,
        times=lambda k: st.just([float(i) for i in range(k)])))
    c['vec'] = vec
    c['go'] = [[draw(st.integers(0, 3)), draw(st.integers(1, n + 1))]
               for _ in range(draw(st.integers(1, 4)))]
    return c


@done
def run_modes(c, rec):
    t = g.build_temporal(c, c['vec'])
    data = np.array([np.concatenate([np.ravel(v) for v in
                                     frame_vals(fc, None)])
                     for fc in g.frame_cases(c)])
    sv = np.linalg.svd(data - data.mean(axis=0), compute_uv=False)
    if sv[0] == 0 or (sv > 1e-3*sv[0]).sum() < 3:
        return rec.mark_trivial()
    p = modal_decomposition(t, verbose=False)
    nm = len(p.modes)
    if nm < 2:
        return rec.mark_trivial()
    before = snap(p)
    dbs = p.display()
    unchanged(p, before, 'ModalFields.display')
    nrj = p.get_modes_energy(cum=True)
    for who, k in [[0, 1]] + c['go']:
        bm = dbs[who].button_manager
        for key in list(str(k)) + ['enter']:
            KeyEvent('key_press_event', bm.fig.canvas, key)._process()
        if k > nm:
            continue
        what = 'modes display, mode {} asked in graph {}'.format(k - 1, who)
        inds = [d.button_manager.ind for d in dbs]
        check(inds == [k - 1]*4, '{}: graphs show {}', what, inds)
        mode = p.modes[k - 1]
        vals = mode.magnitude if c['vec'] else mode.values
        ims = dbs[0].button_manager.ax.images
        check(len(ims) == 1, '{}: {} images', what, len(ims))
        same_im(ims[0], mode.axe_x, mode.axe_y, np.array(vals), what)
        evo = p.temp_evo[k - 1]
        lns = dbs[1].button_manager.ax.lines
        check(len(lns) == 1, '{}: {} evolutions', what, len(lns))
        close(lns[0].get_xdata(), evo.x, what + ': times')
        close(lns[0].get_ydata(), evo.y, what + ': evolution')
        spec = evo.get_spectrum()
        lns = dbs[2].button_manager.ax.lines
        check(len(lns) == 1, '{}: {} spectra', what, len(lns))
        close(lns[0].get_xdata(), spec.x[1:], what + ': frequencies')
        close(lns[0].get_ydata(), spec.y[1:], what + ': spectrum')
        lns = [ln for ln in dbs[3].button_manager.ax.lines
               if len(ln.get_xdata()) == 1]
        check(len(lns) == 1, '{}: {} markers on the energies', what, len(lns))
        close([lns[0].get_xdata()[0], lns[0].get_ydata()[0]],
              [nrj.x[k - 1], nrj.y[k - 1]], what + ': energy')
    rec.label('vector' if c['vec'] else 'scalar')


# -------------------------------------------------------------------- colors
@st.composite
def color_case(draw):
    n = draw(st.integers(3, 8))
    comp = st.integers(0, 16)
    pos = sorted(set([0, 16] + draw(st.lists(st.integers(1, 15),
                                             min_size=n - 2, max_size=n - 2,
                                             unique=True))))
    return {'n': n, 'col': [[draw(comp)/16. for _ in range(3)] for _ in pos],
            'pos': [p/16. for p in pos] if draw(st.booleans()) else None,
            'c0': draw(g.quarter(-20, 20)), 'dc': draw(st.integers(1, 20))/4.,
            'cmap': draw(st.sampled_from(['jet', 'viridis', 'gray'])),
            'off': draw(st.integers(-49, 49))/100.,
            'x': [draw(g.number()) for _ in range(n)],
            'y': [draw(g.number()) for _ in range(n)]}


def run_color(c, rec):
    col = np.array(c['col'])
    cm = pplt.make_cmap(c['col'], position=c['pos'])
    pos = c['pos'] if c['pos'] is not None else np.linspace(0, 1, len(col))
    t = np.arange(256)/255.
    exp = np.array([np.interp(t, pos, col[:, k]) for k in range(3)]).T
    close(cm(t)[:, :3], exp, 'make_cmap: colors', atol=1e-6)
    # discrete map
    n = c['n']
    cen = [c['c0'] + c['dc']*i for i in range(n)]
    dcm, norm = pplt.make_discrete_cmap(cen, cmap=c['cmap'])
    base = matplotlib.colormaps[c['cmap']]
    for i, v in enumerate(cen):
        got = dcm(norm(v + c['off']*c['dc']))
        close(got, base(i/float(n - 1)), 'make_discrete_cmap: color of '
              'interval {}'.format(i))
    gr = pplt.get_color_gradient(c['cmap'], n)
    check(len(gr) == n, 'get_color_gradient: {} colors', len(gr))
    for i, gc in enumerate(gr):
        close(gc, base(i/float(n - 1)), 'get_color_gradient: color')
    seg = pplt.make_segments(c['x'], c['y'])
    check(np.shape(seg) == (n - 1, 2, 2), 'make_segments: shape {}',
          np.shape(seg))
    for i in range(n - 1):
        close(seg[i], [[c['x'][i], c['y'][i]], [c['x'][i + 1], c['y'][i + 1]]],
              'make_segments: segment')
    rec.label(c['cmap'])


SUBS = [
    Sub('scalar', sf_disp(), run_sf, 'at least two different values', 150),
    Sub('vector', vf_disp(), run_vf, 'field shown', 150),
    Sub('profile', prof_disp(), run_prof, 'a point is left to show', 200),
    Sub('points', pts_disp(), run_pts, 'cloud shown', 150),
    Sub('mosaic', mosaic_disp(), run_mosaic, 'at least two fields', 100),
    Sub('multiple', multi_disp(), run_multi, 'at least two graphs', 40),
    Sub('series', series_case(), run_series,
        'at least two different frames shown', 120),
    Sub('player', player_case(), run_series,
        'at least two different frames shown', 100),
    Sub('animation', anim_case(), run_anim, 'series shown', 60),
    Sub('critical', crit_case(), run_crit, 'something to show', 80),
    Sub('modes', modes_case(), run_modes, 'at least two modes', 25),
    Sub('colors', color_case(), run_color, 'colors made', 200),
]
