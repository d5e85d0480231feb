"""C02: field arithmetic is pointwise physical arithmetic on the shared,
jointly unmasked points."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Sub, check, close, expect_raises
from harness import gens as g
from IMTreatment import make_unit

ASSUMPTIONS = ['operands of a binary operation use the same axis units',
               'divisors given as numbers are not zero']


@st.composite
def partner(draw, c, vector, allow_partial=True):
    """A second field for the same kind of grid, compatible values unit."""
    nx, ny = len(c['x']), len(c['y'])
    o = dict(c)
    o['uv'] = draw(st.sampled_from(g.family(c['uv'])))
    x, y = list(c['x']), list(c['y'])
    if allow_partial and draw(st.booleans()):
        # partially shared axes: drop some points, add some others
        def alter(ax):
            keep = draw(st.lists(st.booleans(), min_size=len(ax),
                                 max_size=len(ax)))
            if not any(keep):
                keep[draw(st.integers(0, len(ax) - 1))] = True
            d = ax[1] - ax[0]
            new = [a for a, k in zip(ax, keep) if k]
            if draw(st.booleans()):
                new = new + [new[-1] + d*0.375]
            if draw(st.booleans()) or len(new) < 2:
                new = [ax[0] - 1.5*d] + new
            return sorted(set(new))
        x, y = alter(x), alter(y)
        nx, ny = len(x), len(y)
    o['x'], o['y'] = x, y
    for n in (['vx', 'vy'] if vector else ['v']):
        o[n] = draw(g.grid(nx, ny))
    o['m'] = draw(g.mask(nx, ny))
    return o


OPS_F = ['add_f', 'sub_f', 'mul_f', 'div_f']
OPS_S = ['add_n', 'radd_n', 'sub_n', 'rsub_n', 'mul_n', 'rmul_n', 'div_n',
         'rdiv_n', 'pow', 'neg', 'abs']
OPS_U = ['add_u', 'sub_u', 'mul_u', 'div_u']
OPS_A = ['mul_a', 'div_a', 'add_a', 'sub_a', 'add_vec', 'mul_sf']


@st.composite
def case(draw, vector, ops):
    c = draw(g.vf_case(max_size=5) if vector else g.sf_case(max_size=5))
    op = draw(st.sampled_from(ops))
    out = {'f': c, 'op': op}
    if op in ('add_f', 'sub_f'):
        for n in 'xy':
            # an axis through 0 is common, and special for relative tolerances
            if draw(st.booleans()):
                k = draw(st.integers(0, len(c[n]) - 1))
                c[n] = [a - c[n][k] for a in c[n]]
        out['o'] = draw(partner(c, vector))
    elif op in ('mul_f', 'div_f'):
        o = draw(partner(c, False, allow_partial=False))
        o['uv'] = draw(g.unit_any())
        o['v'] = [[0. if draw(st.integers(0, 9)) == 0 else v for v in r]
                  for r in o['v']]
        out['o'] = o
    elif op == 'mul_sf':
        o = draw(partner({k: c[k] for k in c}, False, allow_partial=False))
        o['uv'] = draw(g.unit_any())
        out['o'] = o
    elif op in ('mul_a', 'div_a', 'add_a', 'sub_a', 'rdiv_a'):
        a = draw(g.grid(len(c['x']), len(c['y']), -8, 8,
                        elem=g.quarter(-3, 3)))
        out['a'] = a
        out['aslist'] = draw(st.booleans())
    elif op == 'add_vec':
        out['a'] = draw(st.lists(g.quarter(-8, 8), min_size=2, max_size=2))
        out['aslist'] = draw(st.booleans())
    elif op.endswith('_n'):
        out['n'] = draw(g.nonzero())
        out['nform'] = draw(st.sampled_from(['float', 'int', 'np.float64',
                                             'np.float32', 'np.int64',
                                             'np.int32']))
        if 'int' in out['nform']:
            out['n'] = int(out['n']) or 3
    elif op == 'pow':
        out['n'] = draw(st.sampled_from([1, 2, 3, 2., 3., -1]))
    elif op.endswith('_u'):
        out['n'] = draw(g.nonzero())
        if op in ('add_u', 'sub_u', 'rsub_u'):
            out['u'] = draw(st.sampled_from(g.family(c['uv'])))
        else:
            out['u'] = draw(st.sampled_from(['m', 'mm', '1/s', 'm/s', '1/mm',
                                             '1/m', 'kg', 's/mm', '']))
    return out


def _unum(n, u):
    if u == '':
        import unum
        return unum.Unum({}, n)
    if u.startswith('1/'):
        return n/make_unit(u[2:])
    return n*make_unit(u)


def shared(a, b):
    """Indices of the points of a that are in b, and their places in b."""
    ia, ib = [], []
    for i, v in enumerate(a):
        j = np.where(np.asarray(b) == v)[0]
        if len(j):
            ia.append(i)
            ib.append(j[0])
    return ia, ib


def run(c, rec, vector):
    fc, op = c['f'], c['op']
    f = (g.build_vf if vector else g.build_sf)(fc)
    m = g.G.of_case(fc)
    before = g.G.of_field(f)
    exp = m.copy()
    nzero = None
    rec.label('op:' + op)
    if op in ('add_f', 'sub_f'):
        o = (g.build_vf if vector else g.build_sf)(c['o'])
        om = g.G.of_case(c['o'])
        k = float((om.uv/m.uv).asNumber(1))
        sgn = 1 if op == 'add_f' else -1
        ix, jx = shared(m.x, om.x)
        iy, jy = shared(m.y, om.y)
        comps = [a[np.ix_(ix, iy)] + sgn*k*b[np.ix_(jx, jy)]
                 for a, b in zip(m.comps, om.comps)]
        mask = m.mask[np.ix_(ix, iy)] | om.mask[np.ix_(jx, jy)]
        exp = g.G(m.x[ix], m.y[iy], comps, mask, m.ux, m.uy, m.uv)
        if len(ix) < 2 or len(iy) < 2:
            # a single shared row cannot be represented by the constructor
            rec.label('one shared row')
            rec.mark_trivial()
            return
        rec.label('partial' if (len(ix) < len(m.x) or len(iy) < len(m.y)
                                or len(jx) < len(om.x) or len(jy) < len(om.y))
                  else 'same grid')
        obefore = g.G.of_field(o)
        res = f + o if sgn == 1 else f - o
        g.same_field(o, obefore, 'right operand after ' + op, rtol=0)
    elif op in ('mul_f', 'div_f', 'mul_sf'):
        o = g.build_sf(c['o'])
        om = g.G.of_case(c['o'])
        mask = m.mask | om.mask
        ov = om.comps[0]
        if op == 'div_f':
            mask = mask | (ov == 0)
            comps = [np.where(mask, np.nan, a/np.where(ov == 0, 1, ov))
                     for a in m.comps]
            uv = m.uv/om.uv
            res = f/o
        else:
            comps = [a*ov for a in m.comps]
            uv = m.uv*om.uv
            res = f*o
        exp = g.G(m.x, m.y, comps, mask, m.ux, m.uy, uv)
    elif op == 'rdiv_a':
        a = np.array(c['a'])
        v = m.comps[0]
        exp.mask = m.mask | (v == 0)
        exp.comps = [np.where(exp.mask, np.nan, a/np.where(v == 0, 1, v))]
        exp.uv = 1/m.uv
        res = a.tolist()/f
    elif op in ('mul_a', 'div_a', 'add_a', 'sub_a'):
        a = np.array(c['a'])
        given = a.tolist() if (c['aslist'] and op != 'sub_a') else a.copy()
        if op == 'mul_a':
            exp.comps = [v*a for v in m.comps]
            res = f*given
        elif op == 'add_a':
            exp.comps = [v + a for v in m.comps]
            res = f + given
        elif op == 'sub_a':
            exp.comps = [v - a for v in m.comps]
            res = f - given
        else:
            exp.mask = m.mask | (a == 0)
            exp.comps = [np.where(exp.mask, np.nan, v/np.where(a == 0, 1, a))
                         for v in m.comps]
            res = f/given
    elif op == 'add_vec':
        given = list(c['a']) if c['aslist'] else np.array(c['a'])
        if m.mask.shape == (2,):
            return
        exp.comps = [v + a for v, a in zip(m.comps, c['a'])]
        res = f + given
    elif op == 'neg':
        exp.comps = [-v for v in m.comps]
        res = -f
    elif op == 'abs':
        exp.comps = [np.abs(v) for v in m.comps]
        res = abs(f)
    elif op == 'pow':
        n = c['n']
        if n < 0 and any(np.any(v == 0) for v in m.comps):
            rec.mark_trivial()
            return
        exp.comps = [v**float(n) for v in m.comps]
        exp.uv = m.uv**n
        res = f**n
    elif op.endswith('_n'):
        n = c['n']
        if c['nform'].startswith('np.') and not op.startswith('r'):
            # numpy scalars only on the right: on the left numpy takes over
            n = getattr(np, c['nform'][3:])(n)
        if op == 'rdiv_n' and any(np.any(v == 0) for v in m.comps):
            rec.mark_trivial()
            return
        fun = {'add_n': lambda v: v + n, 'radd_n': lambda v: n + v,
               'sub_n': lambda v: v - n, 'rsub_n': lambda v: n - v,
               'mul_n': lambda v: v*n, 'rmul_n': lambda v: n*v,
               'div_n': lambda v: v/n, 'rdiv_n': lambda v: n/v}[op]
        exp.comps = [fun(v) for v in m.comps]
        if op == 'rdiv_n':
            exp.uv = 1/m.uv
        res = fun(f)
    else:
        u = _unum(c['n'], c['u'])
        if op in ('add_u', 'sub_u', 'rsub_u'):
            n = float((u/m.uv).asNumber(1))
            fun = {'add_u': lambda v, q: v + q, 'sub_u': lambda v, q: v - q,
                   'rsub_u': lambda v, q: q - v}[op]
            exp.comps = [fun(v, n) for v in m.comps]
            res = f + u if op == 'add_u' else (
                f - u if op == 'sub_u' else f.__rsub__(u))
        else:
            if op == 'rdiv_u' and any(np.any(v == 0) for v in m.comps):
                rec.mark_trivial()
                return
            n, uu = c['n'], _unum(1., c['u'])
            if op in ('mul_u', 'rmul_u'):
                exp.comps = [v*n for v in m.comps]
                exp.uv = m.uv*uu
                res = f*u if op == 'mul_u' else f.__rmul__(u)
            elif op == 'div_u':
                exp.comps = [v/n for v in m.comps]
                exp.uv = m.uv/uu
                res = f/u
            else:
                exp.comps = [n/v for v in m.comps]
                exp.uv = uu/m.uv
                res = f.__rtruediv__(u)
    g.same_physics(res, exp, op)
    # the stored unit is a pure unit, so the numbers are the values
    close(float(res.unit_values.asNumber()), 1., op + ': unit coefficient')
    g.same_field(f, before, 'left operand after ' + op, rtol=0)
    rec.label('masked' if exp.mask.any() else 'unmasked')


@st.composite
def case_bad(draw, vector):
    c = draw(g.vf_case(max_size=4) if vector else g.sf_case(max_size=4))
    fams = [f for f in g.FAMILIES if c['uv'] not in f]
    u = draw(st.sampled_from([x for f in fams for x in f]))
    return {'f': c, 'u': u, 'n': draw(g.nonzero()),
            'what': draw(st.sampled_from(['field', 'unum', 'axis']))}


def run_bad(c, rec, vector):
    build = g.build_vf if vector else g.build_sf
    f = build(c['f'])
    before = g.G.of_field(f)
    rec.label(c['what'])
    if c['what'] == 'field':
        o = build(dict(c['f'], uv=c['u']))
        expect_raises(lambda: f + o, 'adding %s to %s' % (c['u'], c['f']['uv']))
        expect_raises(lambda: f - o, 'subtracting %s from %s'
                      % (c['u'], c['f']['uv']))
    elif c['what'] == 'axis':
        o = build(dict(c['f'], ux='kg'))
        expect_raises(lambda: f + o, 'adding fields on axes in kg and %s'
                      % c['f']['ux'])
    else:
        u = _unum(c['n'], c['u'])
        expect_raises(lambda: f + u, 'adding %s to a field in %s'
                      % (u, c['f']['uv']))
    g.same_field(f, before, 'operand after a rejected operation', rtol=0)


R = 'the operation applies (no zero for a reciprocal, at least 2x2 shared points)'
SUBS = []
for vec, nm in ((False, 'sf'), (True, 'vf')):
    bf = ['add_f', 'sub_f'] if vec else OPS_F
    arrs = OPS_A if vec else ['mul_a', 'div_a', 'rdiv_a']
    SUBS += [
        Sub(nm + '_field', case(vec, bf),
            lambda c, r, v=vec: run(c, r, v), R, 900),
        Sub(nm + '_scalar', case(vec, OPS_S + OPS_U),
            lambda c, r, v=vec: run(c, r, v), R, 900),
        Sub(nm + '_array', case(vec, arrs),
            lambda c, r, v=vec: run(c, r, v), R, 400),
        Sub(nm + '_reject', case_bad(vec),
            lambda c, r, v=vec: run_bad(c, r, v), 'always', 200),
    ]
