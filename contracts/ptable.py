"""A table seen at one arbitrary key.  The table operations are under contract in contracts/table.py (C01, C02): the
row of the result under a key is the function applied to the rows under that key.  Code that only uses tables through
those contracts can therefore be run on the row of one arbitrary key."""
from .common import *

class _Absent:
    def __repr__(self): return "<no row>"
ABSENT = _Absent()

class PT:
    """row: the value under the arbitrary key, or ABSENT; key: that key"""
    def __init__(self, row, key=None, schema=None, n=None):
        self.__dict__.update(row=row, key=key, schema=schema, n=n)
        if n is None: self.__dict__["n"] = VC.cur.fresh("rows", z3.IntSort())
        VC.cur.fact(self.n >= (0 if row is ABSENT else 1))
    def _r(self, row, n=None): return PT(row, self.key, None, self.n if n is None else n)
    def mapValues(self, f):
        return self._r(ABSENT if self.row is ABSENT else f(self.row))
    def map(self, f):
        return self._r(ABSENT if self.row is ABSENT else f(self.key, self.row))
    def filter(self, f):
        keep = self.row is not ABSENT and bool(f(self.key, self.row))
        n = VC.cur.fresh("rows", z3.IntSort()); VC.cur.fact(z3.And(n >= 0, n <= self.n))
        return self._r(self.row if keep else ABSENT, n)
    def join(self, o, f=None):
        if not isinstance(o, PT): raise Unsupported("join with something else")
        both = self.row is not ABSENT and o.row is not ABSENT
        n = VC.cur.fresh("rows", z3.IntSort()); VC.cur.fact(z3.And(n >= 0, n <= self.n, n <= o.n))
        return self._r((f(self.row, o.row) if f is not None else self.row) if both else ABSENT, n)
    def union(self, o, f=None):
        if not isinstance(o, PT): raise Unsupported("union with something else")
        n = VC.cur.fresh("rows", z3.IntSort()); VC.cur.fact(z3.And(n <= self.n + o.n, n >= self.n, n >= o.n))
        if self.row is ABSENT: return self._r(o.row, n)
        if o.row is ABSENT: return self._r(self.row, n)
        return self._r(f(self.row, o.row) if f is not None else self.row, n)
    def subtractByKey(self, o):
        if not isinstance(o, PT): raise Unsupported("subtraction of something else")
        n = VC.cur.fresh("rows", z3.IntSort()); VC.cur.fact(z3.And(n >= 0, n <= self.n, n >= self.n - o.n))
        return self._r(self.row if o.row is ABSENT else ABSENT, n)
    def count(self): return mkint_(self.n)
    def destroy(self): raise AttributeError("'DTable' object has no attribute 'destroy'")
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        raise Unsupported("table method " + a)

def mkint_(t): return V.mkint(t)
class Obj:
    """a plain stand-in object with the given attributes; anything else is out of reach"""
    def __init__(self, **kw): self.__dict__.update(kw)
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        raise Unsupported("attribute %s of a stand-in" % a)

class LT:
    """contract of a table built from a list of rows numbered from zero (C01): rows keep their order"""
    def __init__(self, include_key, data=None):
        if include_key is not False: raise Unsupported("table of keyed rows")
        if isinstance(data, list): data = V.VList.of(data)
        if isinstance(data, V.SeqView): data = data.to_list()
        if not isinstance(data, V.VList): raise Unsupported("table of %r" % (data,))
        self.__dict__["rows"] = data
    def mapValues(self, f): return LT(False, rt.listcomp(self.rows, f, None))
    def collect(self): return rt.venumerate(self.rows)
    def count(self): return self.rows.vlen()
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        raise Unsupported("table method " + a)
def list_table(w):
    import types
    m = types.ModuleType("computing.d_table"); m.DTable = LT
    return m
