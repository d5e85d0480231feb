property = 'C21'
needs = 'a trajectory whose times are not in the order of the fields'
breaks = 'the property of a field is taken at the center of another time'
edits = [('vortex_properties/vortex_properties.py', '''        ind_traj = np.where(vort_center_traj.v == TVFs.times[i])[0][0]
''', '''        ind_traj = len(times)
''')]
demo = '''
import numpy as np
from IMTreatment import VectorField, TemporalVectorFields, Points
from IMTreatment.vortex_properties import get_vortex_property_time_evolution as evol
x = np.arange(11.)
X, Y = np.meshgrid(x, x, indexing='ij')
tv = TemporalVectorFields()
for t, x0 in ((0., 3.), (1., 7.)):
    w = np.exp(-((X - x0)**2 + (Y - 5)**2)/2.)
    vf = VectorField()
    vf.import_from_arrays(x, x, -w*(Y - 5), w*(X - x0), unit_x='m', unit_y='m', unit_values='m/s')
    tv.add_field(vf, time=t, unit_times='s')
a = evol(tv, Points([[3., 5.], [7., 5.]], v=[0., 1.]), size_crit='value')
b = evol(tv, Points([[7., 5.], [3., 5.]], v=[1., 0.]), size_crit='value')
assert np.allclose(a.y, b.y), (a.y, b.y)
'''
