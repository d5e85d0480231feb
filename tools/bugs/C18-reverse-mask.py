property = 'C18'
needs = 'an upstream streamline of a field with masked values, going to a masked zone'
breaks = 'upstream streamlines are not stopped by masked points'
edits = [('field_treatment/field_treatment.py', '''    if np.any(VF.mask):
        masked_values = True
    else:
        masked_values = False
''', '''    if np.any(VF.mask) and not reverse:
        masked_values = True
    else:
        masked_values = False
''')]
demo = '''
import numpy as np
from IMTreatment import VectorField
from IMTreatment.field_treatment import get_streamlines
vf = VectorField()
ax = np.arange(6.)
mask = np.zeros((6, 6), dtype=bool)
mask[2, 3] = True
vf.import_from_arrays(ax, ax, np.ones((6, 6)), np.zeros((6, 6)), mask=mask)
for d in (True, False):
    s = get_streamlines(vf, [4.2 if d else 0.2, 2.8], reverse=d)
    inside = np.abs(s.xy[:, 0] - 2) < .5
    assert inside.sum() <= 1, (d, s.xy)
'''
