property = 'C28'
needs = 'moving the origin along y, once trajectories are computed'
breaks = 'the trajectories are no longer on the points of the set'
edits = [('vortex_detection/vortex_detection.py', '''            for traj in trajs:
                traj.set_origin(x=x, y=y)
''', '''            for traj in trajs:
                traj.set_origin(x=x)
''')]
demo = '''
import numpy as np
from IMTreatment import Points
from IMTreatment.vortex_detection import CritPoints
cp = CritPoints()
for t in range(3):
    cp.add_point(foc=Points([[t*1., 2.]]), time=float(t))
cp.compute_traj()
cp.set_origin(y=2.)
assert np.allclose(cp.foc_traj[0].xy, [[0, 0], [1, 0], [2, 0]]), cp.foc_traj[0].xy
'''
