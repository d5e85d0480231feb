property = 'C03'
needs = 'a time refinement by a factor of one, then a change of the result'
breaks = 'the returned series is the original one'
edits = [('core/temporalfields.py', '''                return None
            else:
                return self.copy()
        # get data''', '''                return None
            else:
                return self
        # get data''')]
demo = '''
import numpy as np
from IMTreatment import ScalarField, TemporalScalarFields
t = TemporalScalarFields()
for i in range(3):
    f = ScalarField()
    f.import_from_arrays([0., 1., 2.], [0., 1.], [[1., 2.], [3., 4.], [5., 6.]])
    t.add_field(f, time=i*1.)
m = t.augment_temporal_resolution(1)
m.set_origin(x=5.)
assert t.axe_x[0] == 0, t.axe_x
'''
