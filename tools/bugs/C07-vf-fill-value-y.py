property = 'C07'
needs = "filling a vector field with kind='value' and two different values"
breaks = 'both components are filled with the value meant for x'
edits = [('core/vectorfield.py', '''        new_comp_y = comp_y.fill(kind=kind, value=value[1], inplace=False,
''', '''        new_comp_y = comp_y.fill(kind=kind, value=value[0], inplace=False,
''')]
demo = '''
import numpy as np
from IMTreatment import VectorField
f = VectorField()
m = np.zeros((3, 3), bool); m[1, 1] = True
f.import_from_arrays(np.arange(3.), np.arange(3.), np.ones((3, 3)), np.ones((3, 3)), mask=m)
r = f.fill(kind='value', value=[4., 7.])
assert r.comp_x[1, 1] == 4. and r.comp_y[1, 1] == 7., (r.comp_x, r.comp_y)
'''
