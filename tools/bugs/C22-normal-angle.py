property = 'C22'
needs = 'a wall or solid side going towards increasing x and increasing y'
breaks = 'the normal of these panels is wrong: the flow goes through them'
edits = [('potential_flow/potential_flow.py', '''        elif self.xb - self.xa > 0.:
            self.beta = np.pi + np.arccos(-(self.yb - self.ya)/self.length)
''', '''        elif self.xb - self.xa > 0.:
            self.beta = np.pi + np.arccos(-abs(self.yb - self.ya)/self.length)
''')]
demo = '''
import numpy as np
from IMTreatment.potential_flow import System
# diamond, counter-clockwise
s = System(u_inf=1., alpha=0.)
s.add_object(2, [[-1., 0.], [0., -1.], [1., 0.], [0., 1.]], res=3)
tot = sum(p.sigma*p.length for p in s.get_solid_panels()) if s.solving_sigma() is None else 0
for p in s.get_solid_panels():
    u, v = s.compute_velocity(p.xc, p.yc)
    n = np.array([p.yb - p.ya, -(p.xb - p.xa)])
    assert abs(u*n[0] + v*n[1]) < 1e-6, (u, v, n)
'''
