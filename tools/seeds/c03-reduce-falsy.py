PROP = "C03"
FILE = "computing/d_table.py"
OLD = """            if ret_val is None:
                ret_val = v"""
NEW = """            if not ret_val:
                ret_val = v"""
NEEDS = "a reduction whose accumulated value is false (zero, an empty string) before the last row, with a function for which that value is not neutral"
BREAKS = "rows reduced so far are forgotten whenever the accumulator is falsy"
DEMO = '''
from computing.d_table import DTable
t = DTable(True, [(1, 0), (2, 5), (3, 7)])
assert t.reduce(lambda a, b: a * b) == 0
assert t.reduce(lambda a, b: min(a, b)) == 0
t = DTable(True, [(1, 0), (2, 5)])
assert t.reduce(lambda a, b: a * b) == 0, t.reduce(lambda a, b: a * b)
'''
