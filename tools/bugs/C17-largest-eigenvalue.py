property = 'C17'
needs = 'a point where the Jacobian has a negative eigenvalue larger in magnitude than the positive one'
breaks = 'the two eigenvalues (and eigenvectors) are exchanged at such points'
edits = [('field_treatment/field_treatment.py', '''        max_eig = np.argmax(loc_eigv)
''', '''        max_eig = np.argmax(np.abs(loc_eigv))
''')]
demo = '''
import numpy as np
from IMTreatment import VectorField
from IMTreatment.field_treatment import get_jacobian_eigenproperties
vf = VectorField()
X, Y = np.meshgrid([0., 1., 2.], [0., 1., 2.], indexing='ij')
vf.import_from_arrays([0., 1., 2.], [0., 1., 2.], -3*X, 2*Y)
r = get_jacobian_eigenproperties(vf)
assert np.allclose(r[0].values, 2), r[0].values
'''
