property = 'C27'
needs = 'the sum of two file sets, and a later look at the first one'
breaks = 'adding two sets of files adds the files of the second one to the first one as well'
edits = [('utils/files.py', '''            tmp_files = self.copy()
            tmp_files.paths += obj.paths''', '''            tmp_files = copy.copy(self)
            tmp_files.paths += obj.paths''')]
demo = '''
import tempfile, os, shutil
from IMTreatment.utils.files import Files
d = tempfile.mkdtemp()
for n in 'ab':
    open(os.path.join(d, n), 'w').close()
a, b = Files(), Files()
a.add_file(os.path.join(d, 'a'))
b.add_file(os.path.join(d, 'b'))
c = a + b
shutil.rmtree(d)
assert len(c.paths) == 2
assert len(a.paths) == 1, a.paths
'''
