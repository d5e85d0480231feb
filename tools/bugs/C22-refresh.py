property = 'C22'
needs = 'an object added once velocities have been computed'
breaks = 'the velocity ignores boundaries (1D objects) added later'
edits = [('potential_flow/potential_flow.py', '''        else:
            raise ValueError()
        #
        self.sigma_to_refresh = True
''', '''        else:
            raise ValueError()
        #
        self.sigma_to_refresh = (dim == 2 or
                                 len(self.objects_1D) + len(self.objects_2D) == 1)
''')]
demo = '''
import numpy as np
from IMTreatment.potential_flow import System
def wall(s, x):
    s.add_object(1, [[x, 0.], [x, 1.]], res=2)
a = System(u_inf=1., alpha=0.)
wall(a, 0.)
a.compute_velocity(3., 3.)
wall(a, 2.)
b = System(u_inf=1., alpha=0.)
wall(b, 0.)
wall(b, 2.)
assert np.allclose(a.compute_velocity(3., .5), b.compute_velocity(3., .5)), (a.compute_velocity(3., .5), b.compute_velocity(3., .5))
'''
