property = 'C16'
needs = 'a decomposition restricted to modes that are not the first ones'
breaks = 'the fields of the first modes are given with the temporal evolutions of the asked ones'
edits = [('pod/pod.py', '''                 for i in np.arange(len(wanted_modes))]
        my_decomp.compute_modes(wanted_modes, modes)
''', '''                 for i in np.arange(len(wanted_modes))]
        my_decomp.compute_modes(range(len(modes)), modes)
''')]
demo = '''
import numpy as np
from IMTreatment import ScalarField, TemporalScalarFields
from IMTreatment.pod import modal_decomposition
t = TemporalScalarFields()
for i, v in enumerate([[[0., 1.], [2., 3.]], [[5., 1.], [2., 3.]], [[1., 7.], [2., 3.]]]):
    f = ScalarField()
    f.import_from_arrays([0., 1.], [0., 1.], np.array(v))
    t.add_field(f, time=float(i), unit_times='s')
p = modal_decomposition(t, verbose=False)
q = modal_decomposition(t, wanted_modes=np.array([1]), verbose=False)
assert np.allclose(np.abs(q.modes[0].values), np.abs(p.modes[1].values)), q.modes[0].values
'''
