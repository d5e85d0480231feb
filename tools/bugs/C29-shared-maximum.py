property = 'C29'
needs = 'a series whose largest values are not in its last frame, displayed with a shared colorbar'
breaks = 'the shared color scale does not cover the values of all the frames'
edits = [('plotlib/plotlib.py', '''            self.vmax = np.max(tmp_maxs)
''', '''            self.vmax = tmp_maxs[-1]
''')]
demo = '''
import matplotlib
matplotlib.use('Agg')
import numpy as np
from IMTreatment.core import ScalarField, TemporalScalarFields
ts = TemporalScalarFields()
for t, f in enumerate([1., 5., 2.]):
    sf = ScalarField()
    sf.import_from_arrays([0, 1, 2.], [0, 1.], f*np.arange(6.).reshape(3, 2))
    ts.add_field(sf, time=t)
db = ts.display()
im = db.button_manager.ax.images[0]
assert im.norm.vmax == 25., im.norm.vmax
'''
