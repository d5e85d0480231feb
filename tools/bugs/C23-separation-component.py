property = 'C23'
needs = 'a vector field and a wall at a given x'
breaks = 'separation is searched with the velocity normal to the wall'
edits = [('boundary_layer/boundary_layer.py', '''            V = obj.comp_y_as_sf
            axe = axe_x
''', '''            V = obj.comp_x_as_sf
            axe = axe_x
''')]
demo = '''
import numpy as np
from IMTreatment import VectorField
from IMTreatment.boundary_layer.boundary_layer import get_separation_position
x, y = np.arange(6.), np.arange(8.)
X, Y = np.meshgrid(x, y, indexing='ij')
vf = VectorField()
vf.import_from_arrays(x, y, Y - 5.2, Y - 2.3 - X/4, unit_x='m', unit_y='m', unit_values='m/s')
r = get_separation_position(vf, wall_direction=1, wall_position=-1.)
assert abs(r - 2.05) < 1e-6, r
'''
