property = 'C29'
needs = 'a series of ten frames or more, and typing a number of two digits'
breaks = 'going to frame 12 goes to another frame'
edits = [('plotlib/plotlib.py', '''                self.tmp_key_number *= 10
                self.tmp_key_number += int(event.key)
''', '''                self.tmp_key_number += 10
                self.tmp_key_number += int(event.key)
''')]
demo = '''
import matplotlib
matplotlib.use('Agg')
import numpy as np
from types import SimpleNamespace
from IMTreatment.core import Points, TemporalPoints
tp = TemporalPoints()
for t in range(30):
    tp.add_pts(Points([[t*1., 2.], [1., 0.]]), time=float(t))
bm = tp.display().button_manager
for key in ['2', '5', 'enter']:
    bm.keyf(SimpleNamespace(key=key))
assert bm.ind == 24, bm.ind
'''
