property = 'C04'
needs = 'scaling a scalar field by negative factors along x and y at once'
breaks = 'only the x direction of the values is reversed, so values sit at wrong y coordinates'
edits = [('core/scalarfield.py', '''        if revx and revy:
            tmp_f.values = tmp_f.values[::-1, ::-1]
        elif revx:
''', '''        if revx:
''')]
demo = '''
import numpy as np
from IMTreatment import ScalarField
f = ScalarField()
f.import_from_arrays([0., 1.], [0., 1., 2.], [[1., 2., 3.], [4., 5., 6.]])
s = f.scale(scalex=-1., scaley=-2.)
assert s.values.tolist() == [[6., 5., 4.], [3., 2., 1.]], s.values
'''
