property = 'C10'
needs = 'in-place crop of points on x and on their values at once, the x interval alone excluding some point'
breaks = 'the point whose value is exactly the upper bound is dropped'
edits = [('core/points.py', '''                out_zone = np.logical_or(self.v < intervv[0],
                                         self.v > intervv[1])
                mask = np.logical_or(mask, out_zone)
''', '''                out_zone = np.logical_or(self.v < intervv[0],
                                         self.v >= intervv[1])
                mask = np.logical_or(mask, out_zone)
''')]
needs = 'crop on the values with a point exactly on the upper bound'
demo = '''
from IMTreatment import Points
p = Points([[0., 0.], [1., 1.], [2., 2.]], v=[1., 2., 3.])
q = p.crop(intervv=[1., 2.], inplace=False)
assert len(q.xy) == 2, q.xy
'''
