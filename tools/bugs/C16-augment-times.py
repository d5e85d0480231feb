property = 'C16'
needs = 'augment_temporal_resolution with inplace=False, then a reconstruction'
breaks = 'the returned decomposition keeps the old times, so it is reconstructed at the old times only'
edits = [('pod/pod.py', '''        tmp_pod.times = tmp_pod.temp_evo[0].x
''', '''        tmp_pod.times = self.temp_evo[0].x
''')]
demo = '''
import numpy as np
from IMTreatment import ScalarField, TemporalScalarFields
from IMTreatment.pod import modal_decomposition
t = TemporalScalarFields()
for i, v in enumerate([[[0., 1.], [2., 3.]], [[5., 1.], [2., 3.]], [[1., 7.], [2., 3.]]]):
    f = ScalarField()
    f.import_from_arrays([0., 1.], [0., 1.], np.array(v))
    t.add_field(f, time=float(i), unit_times='s')
p = modal_decomposition(t, verbose=False)
q = p.augment_temporal_resolution(fact=2, inplace=False)
assert len(q.reconstruct().fields) == len(q.temp_evo[0].x) > 3, len(q.reconstruct().fields)
'''
