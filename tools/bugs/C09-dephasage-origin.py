property = 'C09'
needs = 'phase shift between profiles that do not start at the same x'
breaks = 'the offset of the axes is subtracted instead of added'
edits = [('core/profile.py', '''        x += delta_x
''', '''        x = x - delta_x
''')]
demo = '''
import numpy as np
from IMTreatment import Profile
y = np.zeros(12); y[5:7] = [1., 2.]
p = Profile(np.arange(12.), y)
q = Profile(np.arange(12.) + 3, y)
assert abs(p.get_dephasage(q) - 3) < 1e-9, p.get_dephasage(q)
'''
