property = 'C15'
needs = 'a text file holding a vector field on a grid finer than 1e-3'
breaks = 'vectors of neighbouring points overwrite each other'
edits = [('file_operation/file_operation.py', '''        #find y index
        for j in np.arange(y_org.shape[0]):
            if y_org[j] == y_tmp:
                y_ind = j
        #put the value at its place
        vx_org''', '''        #find y index
        for j in np.arange(y_org.shape[0]):
            if abs(y_org[j] - y_tmp) < 1e-3:
                y_ind = j
        #put the value at its place
        vx_org''')]
demo = '''
import numpy as np, tempfile, os, shutil
from IMTreatment import VectorField, file_operation as io
d = tempfile.mkdtemp()
fn = os.path.join(d, 'a.txt')
vf = VectorField()
v = np.arange(6.).reshape((2, 3)) + 1
vf.import_from_arrays([0., 1.], [0., 5e-4, 1e-3], v, 2*v)
io.export_to_ascii(vf, fn)
r = io.import_vf_from_ascii(fn)
shutil.rmtree(d)
assert np.allclose(np.array(r.comp_x), v), r.comp_x
'''
