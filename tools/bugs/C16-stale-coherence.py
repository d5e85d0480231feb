property = 'C16'
needs = 'get_temporal_coherence, then a crop in time, then get_temporal_coherence again'
breaks = 'the coherence is the one of the evolutions before the crop'
edits = [('pod/pod.py', '''            tmp_mf.times = tmp_mf.times[intervt[0]:intervt[1]]
            tmp_mf._ModalFields__temp_coh = None
''', '''            tmp_mf.times = tmp_mf.times[intervt[0]:intervt[1]]
            self.__temp_coh = tmp_mf.__temp_coh
''')]
demo = '''
import numpy as np
from IMTreatment import ScalarField, TemporalScalarFields
from IMTreatment.pod import modal_decomposition
rng = np.random.RandomState(0)
t = TemporalScalarFields()
for i in range(12):
    f = ScalarField()
    f.import_from_arrays([0., 1., 2.], [0., 1., 2.], rng.rand(3, 3))
    t.add_field(f, time=float(i), unit_times='s')
p = modal_decomposition(t, verbose=False)
fresh = p.crop(intervt=[0, 8], ind=True).get_temporal_coherence(raw=True)
p.get_temporal_coherence()
again = p.crop(intervt=[0, 8], ind=True).get_temporal_coherence(raw=True)
assert np.allclose(fresh, again), (fresh, again)
'''
