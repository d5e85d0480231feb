property = 'C23'
needs = 'a profile whose first point is away from the wall'
breaks = 'the momentum thickness takes the velocity of the first point down to the wall'
edits = [('boundary_layer/boundary_layer.py', '''        # adding a x(0) value
        if obj.x[0] != 0:
            pos_x = np.append([0], obj.x)
            pos_y = np.append([0], obj.y)
''', '''        # adding a x(0) value
        if obj.x[0] != 0:
            pos_x = np.append([0], obj.x)
            pos_y = np.append([obj.y[0]], obj.y)
''')]
demo = '''
from IMTreatment import Profile
from IMTreatment.boundary_layer import get_momentum_thickness
p = Profile([1., 2., 3., 4.], [1., 2., 4., 8.], unit_x='m', unit_y='m/s')
# within the layer: (0, 0) (1, .25) (2, .5) (3, 1)
ref = (0 + .1875)/2 + (.1875 + .25)/2 + (.25 + 0)/2
assert abs(get_momentum_thickness(p) - ref) < 1e-12, get_momentum_thickness(p)
'''
