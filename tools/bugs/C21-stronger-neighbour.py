property = 'C21'
needs = 'a stronger vortex elsewhere in the field'
breaks = 'the zone of a property is cut with the largest value of the whole field'
edits = [('vortex_properties/vortex_properties.py', '''    size_crit_maxi = np.max(size_crit.values[lab == vort_zones_labs])
''', '''    size_crit_maxi = np.nanmax(size_crit.values)
''')]
demo = '''
import numpy as np
from IMTreatment import VectorField
from IMTreatment.vortex_properties import get_vortex_property
x = np.arange(15.)
y = np.arange(9.)
X, Y = np.meshgrid(x, y, indexing='ij')
def flow(k):
    vx, vy = 0*X, 0*X
    for x0, s in ((3., 1.), (11., k)):
        w = s*np.exp(-((X - x0)**2 + (Y - 4)**2)/2.)
        vx -= w*(Y - 4)
        vy += w*(X - x0)
    vf = VectorField()
    vf.import_from_arrays(x, y, vx + .01, vy, unit_x='m', unit_y='m', unit_values='m/s')
    return get_vortex_property(vf, [3., 4.])
assert abs(flow(1.) - flow(20.)) < .05*abs(flow(1.)), (flow(1.), flow(20.))
'''
