property = 'C26'
needs = 'a field whose strongest vortex has a negative criterion'
breaks = 'the zones of the strongest negative vortices are cut, or not found'
edits = [('vortex_detection/vortex_detection.py', '''    val_max = np.max(np.abs(sf.values[~sf.mask]))
''', '''    val_max = np.abs(np.max(sf.values[~sf.mask]))
''')]
demo = '''
import numpy as np
from IMTreatment import VectorField
from IMTreatment.vortex_detection import get_vortex_position
ax = np.arange(9.)
v = np.zeros((9, 9))
v[2, 2], v[2, 3], v[6, 6] = 1., .8, -3.
for s in (1., -1.):
    vf = VectorField()
    vf.import_from_arrays(ax, ax, s*v, v)
    cp = get_vortex_position(vf, criterion=lambda f: f.comp_x_as_sf,
                             threshold=.2)
    big = (cp.foc_c if s > 0 else cp.foc)[0].xy
    assert len(big) == 1 and np.allclose(big, [[6, 6]]), (s, big)
'''
