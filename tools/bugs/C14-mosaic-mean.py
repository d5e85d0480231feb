property = 'C14'
needs = 'a point covered by three fields or more'
breaks = 'the value read at a point weights the last covering fields more than the first ones'
edits = [('core/spatialfields.py', '''                values += field.get_value(x, y, ind=False, unit=False)
            values /= len(inter_ind)
''', '''                values = (values + field.get_value(x, y, ind=False,
                                                   unit=False))/2.
''')]
demo = '''
import numpy as np
from IMTreatment import ScalarField
from IMTreatment.core import SpatialScalarFields
s = SpatialScalarFields()
for v in [0., 0., 3.]:
    f = ScalarField()
    f.import_from_arrays([0., 1.], [0., 1.], np.full((2, 2), v))
    s.add_field(f)
r = s.get_value(.5, .5)
assert abs(r - 1.) < 1e-9, r
'''
