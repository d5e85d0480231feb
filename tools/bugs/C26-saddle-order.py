property = 'C26'
needs = 'a saddle point away from the borders, whose contraction is stronger than its expansion'
breaks = 'the two orientations of the saddle point are exchanged'
edits = [('vortex_detection/vortex_detection.py', '''    if eigvals[1] < eigvals[0]:
        orient1''', '''    if np.abs(eigvals[1]) < np.abs(eigvals[0]):
        orient1''')]
demo = '''
import numpy as np
from IMTreatment import VectorField
from IMTreatment.vortex_detection import get_critical_points
ax = np.arange(7.)
X, Y = np.meshgrid(ax, ax, indexing='ij')
for a, b in ((2., -1.), (1., -2.), (.5, -3.)):
    vf = VectorField()
    vf.import_from_arrays(ax, ax, a*(X - 2.6), b*(Y - 3.3))
    cp = get_critical_points(vf)
    o = np.abs(np.array(cp.sadd[0].orientations[0]))
    assert np.allclose(o, [[1, 0], [0, 1]]), (a, b, o)
'''
