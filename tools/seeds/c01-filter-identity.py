PROP = "C01"
FILE = "computing/d_table.py"
OLD = "            if func(k, v) == True:"
NEW = "            if func(k, v) is True:"
NEEDS = "a predicate whose result is true without being the object True (a numpy comparison, 1)"
BREAKS = "filter drops rows for which the predicate is true"
DEMO = '''
from computing.d_table import DTable
t = DTable(True, [("a", np.float64(1.5)), ("b", np.float64(-2.0)), ("c", np.float64(3.0))])
r = t.filter(lambda k, v: v > 0)
assert list(r.collect()) == [("a", 1.5), ("c", 3.0)], list(r.collect())
'''
