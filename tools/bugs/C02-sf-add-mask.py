property = 'C02'
needs = 'adding two scalar fields whose axes only partially coincide, the second one being masked at a shared point'
breaks = 'the sum ignores the mask of the second operand, so a masked point comes out valid (NaN value aside)'
edits = [('core/scalarfield.py', '''                new_values = (self.values[new_ind_value] +
                              otherone.values[new_ind_valueo] *
                              fact.asNumber())
''', '''                new_values = (self.values[new_ind_value] +
                              np.nan_to_num(otherone.values)[new_ind_valueo] *
                              fact.asNumber())
'''), ('core/scalarfield.py', '''                new_mask = np.logical_or(self.mask[new_ind_value],
                                         otherone.mask[new_ind_valueo])
''', '''                new_mask = np.logical_or(self.mask, False)[new_ind_value]
''')]
demo = '''
import numpy as np
from IMTreatment import ScalarField
def sf(x, m):
    f = ScalarField()
    f.import_from_arrays(x, [0., 1., 2.], np.ones((len(x), 3)), mask=m)
    return f
m = np.zeros((4, 3), bool)
m[1, 1] = True
a = sf([0., 1., 2.], np.zeros((3, 3), bool))
b = sf([1., 2., 3., 4.], m)
s = a + b
assert s.mask.tolist() == [[False]*3, [False, True, False]], s.mask
'''
