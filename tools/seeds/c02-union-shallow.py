PROP = "C02"
FILE = "computing/d_table.py"
OLD = "        new_dict = copy.deepcopy(self.__data)"
NEW = "        new_dict = dict(self.__data)"
NEEDS = "rows that are mutable objects and a combining function that updates its first argument in place"
BREAKS = "the rows of the left table change when the union is built"
DEMO = '''
from computing.d_table import DTable
a = DTable(True, [(1, [1]), (2, [2])]); b = DTable(True, [(2, [20]), (3, [30])])
def f(x, y):
    x.extend(y)
    return x
r = a.union(b, f)
assert dict(r.collect()) == {1: [1], 2: [2, 20], 3: [30]}
assert dict(a.collect()) == {1: [1], 2: [2]}, list(a.collect())
'''
