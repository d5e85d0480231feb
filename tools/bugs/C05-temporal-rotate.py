property = 'C05'
needs = 'rotating a temporal set of fields (not inplace) by a quarter turn'
breaks = 'the fields are rotated but the axes of the set itself are not'
edits = [('core/fields.py', '''        field.Field.rotate(tmp_field, angle, inplace=True)
''', '''        field.Field.rotate(tmp_field, angle, inplace=inplace)
''')]
demo = '''
from IMTreatment import ScalarField, TemporalScalarFields
f = ScalarField()
f.import_from_arrays([0., 1.], [5., 6., 8.], [[1., 2., 3.], [4., 5., 6.]])
t = TemporalScalarFields()
t.add_field(f, time=0.)
r = t.rotate(90)
assert r.axe_x.tolist() == [-8., -6., -5.], r.axe_x
assert r.fields[0].axe_x.tolist() == [-8., -6., -5.]
'''
