property = 'C28'
needs = 'a simplification that merges a group of points with another group'
breaks = 'the merged point is not at the center of mass of the points it replaces'
edits = [('vortex_detection/vortex_detection.py', '''                weight[ind_1] = weight[ind_1] + weight[ind_2]
''', '''                weight[ind_1] += 1
''')]
demo = '''
import numpy as np
from IMTreatment import Points
from IMTreatment.vortex_detection import CritPoints
cp = CritPoints()
cp.add_point(foc=Points([[0., 0.], [.55, 1.15]]), foc_c=Points([[1., 0.]]), sadd=Points([[.1, 0.], [1.1, 0.]]), time=0.)
res = cp.topo_simplify(1.2)
assert len(res.foc[0]) == 1, res.foc
assert np.allclose(res.foc[0].xy[0], [.55, .23]), res.foc[0].xy
'''
