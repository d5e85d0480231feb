property = 'C18'
needs = 'fast streamlines with the cubic interpolation, in a field whose y component is curved along y'
breaks = 'the y component is interpolated linearly along y: the line follows another velocity'
edits = [('field_treatment/field_treatment.py', '''        interp_vy = spinterp.RectBivariateSpline(axe_x, axe_y, Vy,
                                                 kx=3, ky=3)
''', '''        interp_vy = spinterp.RectBivariateSpline(axe_x, axe_y, Vy,
                                                 kx=3, ky=1)
''')]
demo = '''
import numpy as np
from IMTreatment import VectorField
from IMTreatment.field_treatment import get_streamlines_fast
vf = VectorField()
ax = np.arange(6.)
X, Y = np.meshgrid(ax, ax, indexing='ij')
vf.import_from_arrays(ax, ax, np.ones((6, 6)), Y**2)
s = get_streamlines_fast(vf, [1., 1.5], interp='cubic')[0]
d = s.xy[1] - s.xy[0]
assert abs(d[1]/d[0] - 2.25) < 1e-6, d
'''
