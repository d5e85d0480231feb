property = 'C19'
needs = 'a wall, an evaluation of the velocity, then the removal of a vortex that is not the last one, then a velocity selected by ids'
breaks = 'after the removal, the images of the other vortices keep their old ids, so they are lost or attributed to another vortex'
edits = [('vortex_creation/vortex_creation.py', '''            if vort.id == id_to_remove:
                self.im_vortex.pop(i)
            elif vort.id > id_to_remove:
                self.im_vortex[i].id -= 1
''', '''            if vort.id == id_to_remove:
                self.im_vortex.pop(i)
''')]
demo = '''
import numpy as np
from IMTreatment.vortex_creation import VortexSystem, FreeVortex, Wall
a = VortexSystem()
for x, gam in ((1., 1.), (2., -3.), (4., 2.)):
    a.add_vortex(FreeVortex(x0=x, y0=x/2, gamma=gam))
a.add_wall(Wall(y=-1.))
a.get_vector(0., 0.)
a.remove_vortex(0)
b = VortexSystem()
for x, gam in ((2., -3.), (4., 2.)):
    b.add_vortex(FreeVortex(x0=x, y0=x/2, gamma=gam))
b.add_wall(Wall(y=-1.))
assert np.allclose(a.get_vector(3., 0.), b.get_vector(3., 0.))
'''
