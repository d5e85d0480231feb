property = 'C20'
needs = 'the gamma2b criterion at a point where the mean velocity is along y'
breaks = 'the attenuation factor uses the x component of the mean velocity only'
edits = [('vortex_criterions/vortex_criterions.py', '''            vector_b_x = Vx[inda_x, inda_y] - v_mean[0]
            vector_b_y = Vy[inda_x, inda_y] - v_mean[1]
            if kind == 'kappa1':
                denom = norm_v[inda_x, inda_y]*norm_vect_a[i]
            else:
                denom = (vector_b_x**2 + vector_b_y**2)**.5*norm_vect_a[i]
''', '''            vector_b_x = Vx[inda_x, inda_y] - v_mean[0]
            vector_b_y = Vy[inda_x, inda_y] - v_mean[1]
            denom = norm_v[inda_x, inda_y]*norm_vect_a[i]
''')]
breaks = 'kappa2 is normalised by the absolute velocity instead of the relative one'
needs = 'the kappa2 criterion at a point where the mean velocity of the neighbours is not null'
demo = '''
import numpy as np
from IMTreatment import VectorField
from IMTreatment.vortex_criterions import get_kappa
vf = VectorField()
ax = np.arange(5.)
X, Y = np.meshgrid(ax, ax, indexing='ij')
vf.import_from_arrays(ax, ax, X - 2 + 10, Y - 2)
r = get_kappa(vf, kind='kappa2')
assert abs(r.values[2, 2] - 1) < 1e-6, r.values
'''
