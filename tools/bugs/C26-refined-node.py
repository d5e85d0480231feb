property = 'C26'
needs = 'critical points refined with the criteria, on a node'
breaks = 'an inward node stays where the cell is, instead of the extremum of the criterion'
edits = [('vortex_detection/vortex_detection.py', '''                pts = _min_detection(tmp_kap)
                if pts is not None:
                    if pts.xy[0][0] is not None and len(pts) == 1:
                        cp_positions[VF.assoc_ind] = pts.xy[0]
''', '''                pts = _min_detection(np.abs(tmp_kap))
                if pts is not None:
                    if pts.xy[0][0] is not None and len(pts) == 1:
                        cp_positions[VF.assoc_ind] = pts.xy[0]
''')]
demo = '''
import numpy as np
from IMTreatment import VectorField
from IMTreatment.vortex_detection import get_critical_points
x = np.arange(9.)
X, Y = np.meshgrid(x, x, indexing='ij')
f = VectorField()
f.import_from_arrays(x, x, -(X - 3.6), -1.2*(Y - 4.3))
c = get_critical_points(f, kind='pbi_crit')
p = np.array(c.node_i[0].xy)
assert p.shape == (1, 2) and np.all(np.abs(p - [[3.6, 4.3]]) < .75), p
'''
