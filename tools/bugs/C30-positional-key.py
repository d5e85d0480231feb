property = 'C30'
needs = 'the same positional arguments with different keyword arguments'
breaks = 'the second call gives the result of the first one'
edits = [('utils/memoization.py', '''            key = pickle.dumps((args, kwargs))
''', '''            key = pickle.dumps((args, tuple(kwargs)))
''')]
demo = '''
import os, tempfile, shutil
from IMTreatment.utils import memoize_to_file
d = tempfile.mkdtemp()
try:
    f = memoize_to_file(os.path.join(d, 'c'))(lambda a, b=1: a*b)
    assert f(2, b=3) == 6
    assert f(2, b=4) == 8, f(2, b=4)
finally:
    shutil.rmtree(d)
'''
