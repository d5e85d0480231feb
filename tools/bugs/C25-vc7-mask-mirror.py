property = 'C25'
needs = 'a VC7 file whose x scale is negative, with missing vectors not placed symmetrically'
breaks = 'the vectors are put at their places but the mask is left mirrored along x'
edits = [('file_operation/file_operation.py', '''        Vx = -Vx[::-1, :]
        Vy = Vy[::-1, :]
        mask = mask[::-1, :]
        if add_fields''', '''        Vx = -Vx[::-1, :]
        Vy = Vy[::-1, :]
        if add_fields''')]
demo = '''
import numpy as np, ReadIM, tempfile, os
from IMTreatment import file_operation as io
d = tempfile.mkdtemp()
fn = os.path.join(d, 'a.vc7')
b = ReadIM.core.BufferType()
ReadIM.CreateBuffer(b, 3, 2, 1, 1, 1, 1, 2)
for s, f in ((b.scaleX, -1.), (b.scaleY, 1.), (b.scaleI, 1.)):
    ReadIM.SetBufferScale(s, f, 0., '', 'm')
a, b2 = ReadIM.extra.buffer_as_array(b)
a[...] = 1.
a[:, 0, 0] = 0.
atts = ReadIM.load_AttributeList({'FrameDt0': '1 s'})
ReadIM.WriteIM7(fn, False, b, atts.next)
vf = io.import_from_VC7(fn)
import shutil
shutil.rmtree(d)
# the missing vector is at x = 0, the largest x
assert np.array(vf.mask).astype(int).tolist() == [[0, 0], [0, 0], [1, 0]], vf.mask
'''
