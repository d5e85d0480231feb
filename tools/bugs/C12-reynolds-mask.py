property = 'C12'
needs = 'points masked in some frames only'
breaks = 'the Reynolds stresses are divided by the number of frames instead of the number of valid values'
edits = [('core/temporalvectorfields.py', '''                    rs_xy[i, j] /= nmb_val
''', '''                    rs_xy[i, j] /= len(turb_vf.fields)
''')]
demo = '''
import numpy as np
from IMTreatment import VectorField, TemporalVectorFields
t = TemporalVectorFields()
us, vs = [1., 3., 5.], [2., -2., 9.]
for i in range(3):
    m = np.zeros((2, 2), bool)
    m[0, 0] = i == 2
    f = VectorField()
    f.import_from_arrays([0., 1.], [0., 1.], np.full((2, 2), us[i]),
                         np.full((2, 2), vs[i]), mask=m)
    t.add_field(f, time=float(i))
xy = t.get_reynolds_stress()[2]
u, v = np.array(us[:2]), np.array(vs[:2])
ref = np.mean((u - u.mean())*(v - v.mean()))
assert abs(xy.values[0, 0] - ref) < 1e-9, (xy.values[0, 0], ref)
'''
