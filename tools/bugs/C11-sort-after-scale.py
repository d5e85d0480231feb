property = 'C11'
needs = 'scaling the time of a series by a negative factor'
breaks = 'only the times are put back in order, the frames are not'
edits = [('core/temporalfields.py', '''        ind_sort = np.argsort(self.times)
        self.times = self.times[ind_sort]
        self.fields = self.fields[ind_sort]
''', '''        ind_sort = np.argsort(np.abs(self.times - self.times[0]))
        self.times = np.sort(self.times)
        self.fields = self.fields[ind_sort]
''')]
needs = 'a field added before the first time of a series of several fields'
demo = '''
import numpy as np
from IMTreatment import ScalarField, TemporalScalarFields
t = TemporalScalarFields()
for time in [5., 6., 8., 2., 3.]:
    f = ScalarField()
    f.import_from_arrays([0., 1.], [0., 1.], np.full((2, 2), time))
    t.add_field(f, time=time, unit_times='s')
for time, f in t:
    assert f.values[0, 0] == time, (t.times, [g.values[0, 0] for g in t.fields])
'''
