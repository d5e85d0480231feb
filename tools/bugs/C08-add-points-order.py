property = 'C08'
needs = 'add_points from a profile interleaved with this one, with masked points on one side'
breaks = 'mask flags stay in concatenation order while x and y are sorted, so other points get masked'
edits = [('core/profile.py', '''        self.__y = tmp_y[ind_sort]
        self.mask = tmp_mask[ind_sort]

    def remove_point''', '''        self.__y = tmp_y[ind_sort]
        self.mask = tmp_mask

    def remove_point''')]
demo = '''
from IMTreatment import Profile
p = Profile([0., 2.], [1., 2.], mask=[False, True])
p.add_points(Profile([1., 3.], [5., 6.]))
assert p.x.tolist() == [0., 1., 2., 3.]
assert p.mask.tolist() == [False, False, True, False], p.mask
assert p.y[1] == 5.
'''
