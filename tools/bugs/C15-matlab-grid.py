property = 'C15'
needs = 'a vector field exported to matlab, with masked points'
breaks = 'the mask written in the file is transposed with the grid, so other points are masked when read'
edits = [('file_operation/file_operation.py', '''        comp_y = obj.comp_y
        comp_y = [list(comp) for comp in comp_y]
        mask = obj.mask
''', '''        comp_y = obj.comp_y
        comp_y = [list(comp) for comp in comp_y]
        mask = obj.mask[::-1]
''')]
demo = '''
import os, tempfile, shutil
import numpy as np
from IMTreatment import VectorField
from IMTreatment import file_operation as io
d = tempfile.mkdtemp()
try:
    f = VectorField()
    m = np.zeros((3, 2), dtype=bool)
    m[0, 1] = True
    f.import_from_arrays([0., 1., 2.], [0., 1.], np.arange(6.).reshape(3, 2), np.ones((3, 2)), mask=m)
    p = os.path.join(d, 'a.mat')
    io.export_to_matlab(f, p)
    g = io.import_from_matlab(p, 'VectorField')
    assert np.array_equal(np.array(g.mask, dtype=bool), m), g.mask
finally:
    shutil.rmtree(d)
'''
