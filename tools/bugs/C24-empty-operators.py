property = 'C24'
needs = 'a malformed unit made of operators or brackets only'
breaks = 'the malformed unit silently becomes dimensionless'
edits = [('utils/units.py', '''    if string == "":
        return unum.Unum({})
    # Replace''', '''    if string.strip(' *()') == "":
        return unum.Unum({})
    # Replace''')]
demo = '''
from IMTreatment import make_unit
try:
    make_unit('()*')
except Exception:
    pass
else:
    raise AssertionError('accepted')
assert (make_unit('m')*2).asNumber() == 2
'''
