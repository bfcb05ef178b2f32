PROP = "C04"
FILE = "ml/secureprotol/fixedpoint.py"
OLD = """        elif self.encoding <= self.max_int:
            # Positive
            mantissa = self.encoding"""
NEW = """        elif self.encoding < self.max_int:
            # Positive
            mantissa = self.encoding"""
NEEDS = "the largest number the range holds"
BREAKS = "the largest encodable number is refused when it is decoded"
DEMO = '''
quiet()
from ml.secureprotol.fixedpoint import FixedPointNumber as F
for n, m in ((None, None), (1000003, 333334)):
    top = F.Q // 3 - 1 if m is None else m
    e = F.encode(top, n, m) if n else F.encode(5)
    assert e.decode() == (top if n else 5)
    if n: assert F.encode(-top, n, m).decode() == -top
'''
