property = 'C28'
needs = 'two tracked points competing for the same next point, when another link is made in between'
breaks = 'a point already in a trajectory is linked to a second one'
edits = [('vortex_detection/vortex_detection.py', '''                    # remove pt and line from dist2_mat
                    dist2_mat[indmin_pt, :] = np.inf
                    dist2_mat[:, indmin_line] = np.inf
''', '''                    # remove pt and line from dist2_mat
                    dist2_mat[indmin_pt, indmin_line::] = np.inf
                    dist2_mat[:, indmin_line] = np.inf
''')]
demo = '''
import numpy as np
from IMTreatment import Points
from IMTreatment.vortex_detection import CritPoints
cp = CritPoints()
cp.add_point(foc=Points([[0., 0.], [1., 0.]]), time=0.)
cp.add_point(foc=Points([[.9, 0.]]), time=1.)
cp.compute_traj()
n = sum(len(t) for t in cp.foc_traj)
assert n == 3, n
'''
