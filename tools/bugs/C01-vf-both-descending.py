property = 'C01'
needs = 'a vector field imported with both axes descending'
breaks = 'only the x axis is put in ascending order; the y axis stays descending'
edits = [('core/vectorfield.py', '''        if axe_y[0] > axe_y[-1]:
            axe_y = axe_y[::-1]
''', '''        elif axe_y[0] > axe_y[-1]:
            axe_y = axe_y[::-1]
''')]
demo = '''
import numpy as np
from IMTreatment import VectorField
v = np.arange(6.).reshape(2, 3)
f = VectorField()
f.import_from_arrays([1., 0.], [2., 1., 0.], v, -v)
assert f.axe_y.tolist() == [0., 1., 2.]
assert f.comp_x[0].tolist() == [5., 4., 3.]
assert f.comp_y[0].tolist() == [-5., -4., -3.]
'''
