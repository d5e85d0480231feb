property = 'C13'
needs = 'interpolation away from the middle of two frames'
breaks = 'the weights of the two surrounding frames use the previous interval length'
edits = [('core/temporalfields.py', '''        denom = self.times[ind_time] - self.times[ind_time - 1]
''', '''        denom = self.dt
''')]
needs = 'interpolation in a series whose times are unevenly spaced, past the first interval'
demo = '''
import numpy as np
from IMTreatment import ScalarField, TemporalScalarFields
t = TemporalScalarFields()
for time in [0., 1., 5.]:
    f = ScalarField()
    f.import_from_arrays([0., 1.], [0., 1.], np.full((2, 2), 2*time))
    t.add_field(f, time=time, unit_times='s')
v = t.get_interpolated_field(2.).values[0, 0]
assert abs(v - 4.) < 1e-9, v
'''
