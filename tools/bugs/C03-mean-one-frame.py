property = 'C03'
needs = 'the mean field of a series reduced to one field with masked points'
breaks = 'asking for the mean field fills the masked points of the series itself'
edits = [('core/temporalfields.py', '''        result_f = self.fields[0].copy()
        result_f.change_dtype(float)
''', '''        result_f = self.fields[0]
        if len(self.fields) > 1:
            result_f = result_f.copy()
        result_f.change_dtype(float)
''')]
demo = '''
import numpy as np
from IMTreatment import ScalarField, TemporalScalarFields
f = ScalarField()
f.import_from_arrays([0., 1., 2.], [0., 1.], [[1., 2.], [3., 4.], [5., 6.]],
                     mask=[[0, 1], [0, 0], [0, 0]])
t = TemporalScalarFields()
t.add_field(f, time=0.)
m = t.get_mean_field()
m.values[:] = 0
assert np.nansum(t.fields[0].values) == 19, t.fields[0].values
assert t.fields[0].mask[0, 1]
'''
