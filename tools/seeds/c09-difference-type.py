PROP = "C09"
FILE = "ml/secureprotol/encrypt_mode.py"
OLD = """            diff = [new_val - old_val for (new_val, old_val) in zip(new_row, old_row)]
            return np.array(diff)"""
NEW = """            diff = [new_val - old_val for (new_val, old_val) in zip(new_row, old_row)]
            return np.array(diff, dtype=new_row.dtype)"""
NEEDS = "fast or balance mode with array rows: a row of whole numbers after a row of fractions under the same key"
BREAKS = "the difference is cut to a whole number, so the ciphertexts decrypt to a mixture of the old and the new row"
DEMO = '''
quiet()
from ml.secureprotol.encrypt_mode import EncryptModeCalculator as E
from computing.d_table import DTable
class Plain:
    def encrypt(self, x): return float(x)
m = E(Plain(), "fast")
for row in (np.array([0.5, 1.25]), np.array([2, 3]), np.array([0.75, -1.5]), np.array([7, 0])):
    got = dict(m.encrypt(DTable(True, [("a", row)])).collect())["a"]
    assert np.allclose(got, row), (row, got)
'''
