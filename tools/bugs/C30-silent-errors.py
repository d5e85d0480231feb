property = 'C30'
needs = 'something written on the errors output after silencing the outputs'
breaks = 'the errors output goes to the standard output'
edits = [('utils/codeinteraction.py', '''        self.save = os.dup(1), os.dup(2)
''', '''        self.save = os.dup(1), os.dup(1)
''')]
demo = '''
import os, subprocess, sys
code = "import os;from IMTreatment.utils import RemoveFortranOutput\\nwith RemoveFortranOutput():\\n    pass\\nos.write(2, b'xyz')"
r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
assert b'xyz' in r.stderr and b'xyz' not in r.stdout, (r.stdout, r.stderr)
'''
