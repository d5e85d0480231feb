property = 'C29'
needs = 'displaying a scalar field some points of the first column of which are masked'
breaks = 'the display leaves out unmasked values'
edits = [('core/scalarfield.py', '''            for i in np.arange(len(self.axe_x)):
                if not np.all(mask[i, :]):
                    break
            xmin''', '''            for i in np.arange(len(self.axe_x)):
                if not np.any(mask[i, :]):
                    break
            xmin''')]
demo = '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from IMTreatment.core import ScalarField
sf = ScalarField()
m = np.zeros((4, 3), dtype=bool)
m[0, 0] = True
sf.import_from_arrays([0, 1, 2., 3.], [0, 1., 2.], np.arange(12.).reshape(4, 3), mask=m)
sf.display()
assert plt.xlim() == (0, 3), plt.xlim()
'''
