property = 'C06'
needs = 'asking for the nearest index on an unevenly spaced axis'
breaks = 'the middle of a cell is judged with the mean spacing of the axis, so the farther node is returned'
edits = [('core/field.py', '''            if np.abs(axe[inds[0]] - value) < np.abs(axe[inds[1]] - value):
                ind = inds[0]
''', '''            step = (axe[-1] - axe[0])/(len(axe) - 1)
            if np.abs(axe[inds[0]] - value) < step/2.:
                ind = inds[0]
''')]
demo = '''
from IMTreatment import ScalarField
f = ScalarField()
f.import_from_arrays([0., 1., 10.], [0., 1.], [[1., 2.], [4., 5.], [6., 7.]])
assert f.get_indice_on_axe(1, 4., kind='nearest') == 1
assert f.get_indice_on_axe(1, .7, kind='nearest') == 1
'''
