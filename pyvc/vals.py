"""Symbolic values: scalars, containers with write-through locations, records."""
from fractions import Fraction
import numbers
import z3
from .core import VC, Unsupported, Infeasible, PathEnd

def vc():
    return VC.cur

# ------------------------------------------------------------------------------------------------
# types
# ------------------------------------------------------------------------------------------------
_sorts = {}

class Ty:
    key = "?"
    mutable = False
    def __eq__(self, o): return isinstance(o, Ty) and self.key == o.key
    def __hash__(self): return hash(self.key)
    def __repr__(self): return self.key
    @property
    def sort(self):
        s = _sorts.get(self.key)
        if s is None:
            s = self.mksort(); _sorts[self.key] = s
        return s
    def wrap(self, t, loc=None): raise NotImplementedError
    def unwrap(self, v): raise NotImplementedError
    def fresh(self, name):
        t = vc().fresh(name, self.sort)
        for f in self.wf(t): vc().fact(f)
        return t
    def wf(self, t): return []
    def new(self, name="v"):
        return self.wrap(self.fresh(name))

class TypeMismatch(Exception):
    pass

class _TInt(Ty):
    key = "Int"
    def mksort(self): return z3.IntSort()
    def wrap(self, t, loc=None): return mkint(t)
    def unwrap(self, v):
        if isinstance(v, SInt): return v.t
        if isinstance(v, bool): return z3.IntVal(int(v))
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, SBool): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        raise TypeMismatch("%r is not Int" % (v,))

class _TReal(Ty):
    key = "Real"
    def mksort(self): return z3.RealSort()
    def wrap(self, t, loc=None): return mkreal(t)
    def unwrap(self, v):
        if isinstance(v, SReal): return v.t
        if isinstance(v, (SInt,)): return z3.ToReal(v.t)
        if isinstance(v, SBool): return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
        if isinstance(v, (int, float, Fraction, numbers.Real)): return realval(v)
        raise TypeMismatch("%r is not Real" % (v,))

class _TBool(Ty):
    key = "Bool"
    def mksort(self): return z3.BoolSort()
    def wrap(self, t, loc=None): return mkbool(t)
    def unwrap(self, v):
        if isinstance(v, SBool): return v.t
        if isinstance(v, bool): return z3.BoolVal(v)
        raise TypeMismatch("%r is not Bool" % (v,))

_strids = {}
def strid(s):
    if s not in _strids: _strids[s] = len(_strids) + 1
    return _strids[s]
_strnames = {}

class _TStr(Ty):
    key = "Str"
    def mksort(self): return z3.IntSort()
    def wrap(self, t, loc=None):
        t = z3.simplify(t)
        return SStr(t)
    def unwrap(self, v):
        if isinstance(v, SStr): return v.t
        if isinstance(v, str): return z3.IntVal(strid(v))
        raise TypeMismatch("%r is not Str" % (v,))

class _TNone(Ty):
    key = "None"
    def mksort(self): return z3.BoolSort()
    def wrap(self, t, loc=None): return None
    def unwrap(self, v):
        if v is None: return z3.BoolVal(False)
        raise TypeMismatch("not None")

TInt, TReal, TBool, TStr, TNone = _TInt(), _TReal(), _TBool(), _TStr(), _TNone()

class _TBytes(Ty):
    key = "Bytes"
    def mksort(self): return z3.SeqSort(z3.IntSort())
    def wrap(self, t, loc=None): return SBytes(t)
    def unwrap(self, v):
        if isinstance(v, SBytes): return v.t
        if isinstance(v, bytes):
            if len(v) > 64: raise TypeMismatch("long bytes literal")
            u = [z3.Unit(z3.IntVal(b)) for b in v]
            return z3.Empty(self.sort) if not u else u[0] if len(u) == 1 else z3.Concat(*u)
        raise TypeMismatch("%r is not bytes" % (v,))
TBytes = _TBytes()

class TOpaque(Ty):
    def __init__(self, name): self.name = name; self.key = "Op_" + name
    def mksort(self): return z3.DeclareSort(self.name)
    def wrap(self, t, loc=None): return SOpaque(self, t)
    def unwrap(self, v):
        if isinstance(v, SOpaque) and v.ty == self: return v.t
        raise TypeMismatch("%r is not %s" % (v, self.key))

class TTuple(Ty):
    def __init__(self, *ts): self.ts = ts; self.key = "Tup<" + ",".join(t.key for t in ts) + ">"
    def mksort(self):
        d = z3.Datatype(self.key)
        d.declare("mk", *[("f%d" % i, t.sort) for i, t in enumerate(self.ts)])
        return d.create()
    def acc(self, i, t): return z3.simplify(self.sort.accessor(0, i)(t)) if z3.is_app(t) and t.decl().name() == "mk" else self.sort.accessor(0, i)(t)
    def mk(self, *terms): return self.sort.constructor(0)(*terms)
    def wrap(self, t, loc=None):
        return tuple(ty.wrap(self.acc(i, t), FieldLoc(loc, self, i) if (loc is not None and ty.mutable) else None) for i, ty in enumerate(self.ts))
    def unwrap(self, v):
        if isinstance(v, VList) and v.items is not None: v = tuple(v.items)
        if not isinstance(v, tuple) or len(v) != len(self.ts): raise TypeMismatch("%r is not %s" % (v, self.key))
        return self.mk(*[ty.unwrap(x) for ty, x in zip(self.ts, v)])
    def wf(self, t):
        r = []
        for i, ty in enumerate(self.ts): r += ty.wf(self.acc(i, t))
        return r
    @property
    def mutable(self): return any(t.mutable for t in self.ts)

class TOpt(Ty):
    def __init__(self, ty): self.ty = ty; self.key = "Opt<" + ty.key + ">"
    def mksort(self):
        d = z3.Datatype(self.key)
        d.declare("none"); d.declare("some", ("val", self.ty.sort))
        return d.create()
    def is_none(self, t): return self.sort.recognizer(0)(t)
    def val(self, t): return self.sort.accessor(1, 0)(t)
    def none(self): return self.sort.constructor(0)()
    def some(self, t): return self.sort.constructor(1)(t)
    def wrap(self, t, loc=None):
        if vc().fork(self.is_none(t)): return None
        return self.ty.wrap(self.val(t), FieldLoc(loc, self, 0) if (loc is not None and self.ty.mutable) else None)
    def unwrap(self, v):
        if v is None: return self.none()
        return self.some(self.ty.unwrap(v))
    def wf(self, t):
        return [z3.Implies(z3.Not(self.is_none(t)), f) for f in self.ty.wf(self.val(t))]
    @property
    def mutable(self): return self.ty.mutable

class TUnion(Ty):
    """tagged union of pairwise distinguishable types"""
    def __init__(self, *ts): self.ts = ts; self.key = "Uni<" + ",".join(t.key for t in ts) + ">"
    def mksort(self):
        d = z3.Datatype(self.key)
        for i, t in enumerate(self.ts): d.declare("c%d" % i, ("v%d" % i, t.sort))
        return d.create()
    def is_(self, i, t): return self.sort.recognizer(i)(t)
    def val(self, i, t): return self.sort.accessor(i, 0)(t)
    def mk(self, i, t): return self.sort.constructor(i)(t)
    def wrap(self, t, loc=None):
        for i, ty in enumerate(self.ts):
            if i == len(self.ts) - 1 or vc().fork(self.is_(i, t)):
                if i == len(self.ts) - 1: vc().fact(self.is_(i, t))
                return ty.wrap(self.val(i, t))
    def unwrap(self, v):
        for i, ty in enumerate(self.ts):
            try: return self.mk(i, ty.unwrap(v))
            except TypeMismatch: pass
        raise TypeMismatch("%r is not %s" % (v, self.key))
    def wf(self, t):
        return [z3.Implies(self.is_(i, t), f) for i, ty in enumerate(self.ts) for f in ty.wf(self.val(i, t))]

def _qv(name, sort=None):
    VC.cur.nquant += 1
    return z3.Const("%s?%d" % (name, VC.cur.nquant), sort if sort is not None else z3.IntSort())

class TList(Ty):
    mutable = True
    def __init__(self, ty): self.ty = ty; self.key = "List<" + ty.key + ">"
    def mksort(self):
        d = z3.Datatype(self.key)
        d.declare("mk", ("len", z3.IntSort()), ("arr", z3.ArraySort(z3.IntSort(), self.ty.sort)))
        return d.create()
    def len(self, t): return _acc(self.sort.accessor(0, 0), t)
    def arr(self, t): return _acc(self.sort.accessor(0, 1), t)
    def mk(self, n, a): return self.sort.constructor(0)(n, a)
    def at(self, t, i): return z3.Select(self.arr(t), i)
    def wrap(self, t, loc=None): return VList(self.ty, term=t, loc=loc)
    def unwrap(self, v):
        if isinstance(v, VList): return v.to_term(self)
        if isinstance(v, SeqView): return v.to_list().to_term(self)
        if isinstance(v, tuple) : return VList.of(list(v)).to_term(self)
        raise TypeMismatch("%r is not %s" % (type(v), self.key))
    def wf(self, t):
        r = [self.len(t) >= 0]
        j = _qv("j")
        inner = self.ty.wf(self.at(t, j))
        if inner:
            r.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.len(t)), z3.And(*inner)), patterns=[self.at(t, j)]))
        return r

class TDict(Ty):
    mutable = True
    def __init__(self, k, v): self.k, self.v = k, v; self.key = "Dict<%s,%s>" % (k.key, v.key)
    def mksort(self):
        d = z3.Datatype(self.key)
        d.declare("mk", ("n", z3.IntSort()), ("keyat", z3.ArraySort(z3.IntSort(), self.k.sort)),
                  ("pos", z3.ArraySort(self.k.sort, z3.IntSort())), ("val", z3.ArraySort(self.k.sort, self.v.sort)))
        return d.create()
    def n(self, t): return _acc(self.sort.accessor(0, 0), t)
    def keyat(self, t): return _acc(self.sort.accessor(0, 1), t)
    def pos(self, t): return _acc(self.sort.accessor(0, 2), t)
    def vals(self, t): return _acc(self.sort.accessor(0, 3), t)
    def mk(self, n, ka, pos, val): return self.sort.constructor(0)(n, ka, pos, val)
    def has(self, t, k):
        p = z3.Select(self.pos(t), k)
        return z3.And(p >= 0, p < self.n(t), z3.Select(self.keyat(t), p) == k)
    def val(self, t, k): return z3.Select(self.vals(t), k)
    def set(self, t, k, v):
        h = self.has(t, k); n = self.n(t); p = z3.If(h, z3.Select(self.pos(t), k), n)
        return self.mk(z3.If(h, n, n + 1), z3.Store(self.keyat(t), p, k), z3.Store(self.pos(t), k, p), z3.Store(self.vals(t), k, v))
    def delete(self, t, k):
        """without key k: later keys move up"""
        v = vc(); n, p = self.n(t), z3.Select(self.pos(t), k)
        ka, po = v.fresh("ka", z3.ArraySort(z3.IntSort(), self.k.sort)), v.fresh("pos", z3.ArraySort(self.k.sort, z3.IntSort()))
        i, x = _qv("i"), _qv("k", self.k.sort)
        v.fact(z3.ForAll([i], z3.Select(ka, i) == z3.If(i < p, z3.Select(self.keyat(t), i), z3.Select(self.keyat(t), i + 1)), patterns=[z3.Select(ka, i)]))
        v.fact(z3.ForAll([x], z3.Select(po, x) == z3.If(z3.And(x == k), -1, z3.If(z3.Select(self.pos(t), x) > p, z3.Select(self.pos(t), x) - 1, z3.Select(self.pos(t), x))), patterns=[z3.Select(po, x)]))
        return self.mk(n - 1, ka, po, self.vals(t))
    def wrap(self, t, loc=None): return VDict(self, term=t, loc=loc)
    def unwrap(self, v):
        if isinstance(v, VDict): return v.to_term(self)
        raise TypeMismatch("%r is not %s" % (type(v), self.key))
    def wf(self, t):
        j = _qv("j"); k = z3.Select(self.keyat(t), j)
        r = [self.n(t) >= 0,
             z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n(t)), z3.Select(self.pos(t), k) == j), patterns=[k])]
        kk = _qv("k", self.k.sort)
        inner = self.v.wf(self.val(t, kk))
        if inner:
            r.append(z3.ForAll([kk], z3.Implies(self.has(t, kk), z3.And(*inner)), patterns=[self.val(t, kk)]))
        return r
    def empty(self):
        v = vc()
        return self.mk(z3.IntVal(0), v.fresh("ka0", z3.ArraySort(z3.IntSort(), self.k.sort)),
                       v.fresh("pos0", z3.ArraySort(self.k.sort, z3.IntSort())), v.fresh("val0", z3.ArraySort(self.k.sort, self.v.sort)))

class TRec(Ty):
    """record of a repo class: fields (name, type). Mutable, by value + location."""
    mutable = True
    registry = {}
    def __init__(self, name, fields, cls=None):
        self.name, self.fields, self.cls = name, list(fields), cls
        self.key = "Rec_" + name
        self.idx = {f: i for i, (f, _) in enumerate(self.fields)}
        TRec.registry[name] = self
    def mksort(self):
        d = z3.Datatype(self.key)
        d.declare("mk", *[(self.name + "_" + f, t.sort) for f, t in self.fields])
        return d.create()
    def get(self, t, f): return _acc(self.sort.accessor(0, self.idx[f]), t)
    def mk(self, *terms): return self.sort.constructor(0)(*terms)
    def put(self, t, f, v):
        return self.mk(*[v if g == f else self.get(t, g) for g, _ in self.fields])
    def wrap(self, t, loc=None): return SRec(self, term=t, loc=loc)
    def unwrap(self, v):
        if isinstance(v, SRec) and v.ty_.key == self.key: return v.to_term()
        if self.cls is not None and isinstance(v, self.cls) and not isinstance(v, Sym):
            t = self.mk(*[ty.unwrap(object.__getattribute__(v, f) if False else getattr(v, f)) for f, ty in self.fields])
            vc().obj_moved(v)
            return t
        raise TypeMismatch("%r is not %s" % (type(v), self.key))
    def wf(self, t):
        r = []
        for f, ty in self.fields: r += ty.wf(self.get(t, f))
        return r

def _acc(a, t):
    if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        # projection of a constructor application
        for i in range(t.num_args()):
            if a.eq(t.sort().accessor(0, i)): return t.arg(i)
    return a(t)

# ------------------------------------------------------------------------------------------------
# scalars
# ------------------------------------------------------------------------------------------------
def realval(v):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return z3.RealVal(v)
    if isinstance(v, Fraction): return z3.RealVal(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")): raise Unsupported("nan/inf constant")
        return z3.RealVal(Fraction(repr(float(v))))
    return z3.RealVal(Fraction(repr(float(v))))

def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    return SInt(t)

def mkreal(t):
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return SReal(t)

def mkbool(t):
    s = z3.simplify(t)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return SBool(t)

class Sym:
    __slots__ = ("__weakref__",)
    def __hash__(self): raise Unsupported("hash of a symbolic value")
    def __format__(self, spec): return "<sym>"
    def __str__(self): return "<sym>"
    def __repr__(self): return "<%s>" % type(self).__name__

def isnum(v): return isinstance(v, (SInt, SReal, SBool, int, float, Fraction)) or (isinstance(v, numbers.Real) and not isinstance(v, Sym))

def isintlike(v): return isinstance(v, (SInt, SBool, bool, int))

def arith(a, b, op):
    """a op b for numbers; int/real coercion as in Python."""
    if not isnum(a) or not isnum(b): return NotImplemented
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return _conc(a, b, op)
    if op == "/":
        x, y = TReal.unwrap(a), TReal.unwrap(b)
        _nonzero(y == 0)
        return mkreal(x / y)
    if op in ("//", "%"):
        if isintlike(a) and isintlike(b):
            x, y = TInt.unwrap(a), TInt.unwrap(b)
            _nonzero(y == 0)
            return mkint(_fdiv(x, y) if op == "//" else _fmod(x, y))
        x, y = TReal.unwrap(a), TReal.unwrap(b)
        _nonzero(y == 0)
        q = z3.ToInt(x / y)
        return mkreal(z3.ToReal(q)) if op == "//" else mkreal(x - y * z3.ToReal(q))
    if isintlike(a) and isintlike(b):
        x, y = TInt.unwrap(a), TInt.unwrap(b)
        w = mkint
    else:
        x, y = TReal.unwrap(a), TReal.unwrap(b)
        w = mkreal
    return w({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op]())

def _conc(a, b, op):
    if isinstance(a, float) and isinstance(b, Fraction): a = Fraction(repr(a))
    if isinstance(b, float) and isinstance(a, Fraction): b = Fraction(repr(b))
    if op == "+": return a + b
    if op == "-": return a - b
    if op == "*": return a * b
    if op == "/":
        return Fraction(a) / Fraction(b) if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) else a / b
    if op == "//": return a // b
    if op == "%": return a % b

MODFUN = None   # optional uninterpreted (a, n) -> a mod n
def _fdiv(x, y):
    if z3.is_int_value(y) and y.as_long() > 0: return x / y
    if VC.cur.hooks.get("fdiv"):
        r = VC.cur.hooks["fdiv"](x, y)
        if r is not None: return r
    if VC.cur.implied(y > 0): return x / y
    return z3.If(y > 0, x / y, (-x) / (-y))
def _fmod(x, y):
    if VC.cur.hooks.get("fmod"):
        r = VC.cur.hooks["fmod"](x, y)
        if r is not None: return r
    if z3.is_int_value(y) and y.as_long() > 0: return x % y
    if VC.cur.implied(y > 0): return x % y
    return x - y * z3.If(y > 0, x / y, (-x) / (-y))

def _nonzero(c):
    if VC.cur.fork(c): raise ZeroDivisionError("division by zero")

def power(a, b):
    v = VC.cur
    h = v.hooks.get("pow")
    if h is not None:
        r = h(a, b)
        if r is not NotImplemented: return r
    if isinstance(b, SInt):
        s = z3.simplify(b.t)
    if isinstance(b, (float, Fraction)) and b == int(b) and not isinstance(b, bool): 
        b = int(b)
        if not isinstance(a, Sym): return Fraction(a) ** b
        a = SReal(TReal.unwrap(a)) if not isinstance(a, SReal) else a
    if isinstance(b, int) and isinstance(a, (SInt, SReal)) and 0 <= b <= 8:
        if b == 0: return 1
        r = a
        for _ in range(b - 1): r = r * a
        return r
    if isinstance(b, int) and isinstance(a, (SInt, SReal)) and -4 <= b < 0:
        return 1 / power(a, -b)
    if isinstance(b, (float, Fraction)) and Fraction(b) == Fraction(1, 2): 
        return sqrt(a)
    raise Unsupported("power of symbolic values")

def sqrt(a):
    v = VC.cur
    x = TReal.unwrap(a)
    if v.fork(x < 0): raise ValueError("math domain error")
    f = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
    r = f(x)
    v.fact(z3.And(r >= 0, r * r == x))
    return SReal(r)

def compare(a, b, op):
    if not isnum(a) or not isnum(b): return NotImplemented
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()
    for (p, q, o) in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op])):
        if isinstance(q, float) and q in (float("inf"), float("-inf")):
            pos = q > 0
            return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[o]
        if isinstance(q, float) and q != q: return o == "!="
    if isintlike(a) and isintlike(b): x, y = TInt.unwrap(a), TInt.unwrap(b)
    else: x, y = TReal.unwrap(a), TReal.unwrap(b)
    return mkbool({"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y, "==": lambda: x == y, "!=": lambda: x != y}[op]())

class SNum(Sym):
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __add__(self, o): return arith(self, o, "+")
    def __radd__(self, o): return arith(o, self, "+")
    def __sub__(self, o): return arith(self, o, "-")
    def __rsub__(self, o): return arith(o, self, "-")
    def __mul__(self, o): return arith(self, o, "*")
    def __rmul__(self, o): return arith(o, self, "*")
    def __truediv__(self, o): return arith(self, o, "/")
    def __rtruediv__(self, o): return arith(o, self, "/")
    def __floordiv__(self, o): return arith(self, o, "//")
    def __rfloordiv__(self, o): return arith(o, self, "//")
    def __mod__(self, o): return arith(self, o, "%")
    def __rmod__(self, o): return arith(o, self, "%")
    def __pow__(self, o, m=None): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __neg__(self): return arith(0, self, "-")
    def __pos__(self): return self
    def __abs__(self):
        return type(self)(z3.If(self.t >= 0, self.t, -self.t))
    def __lt__(self, o): return compare(self, o, "<")
    def __le__(self, o): return compare(self, o, "<=")
    def __gt__(self, o): return compare(self, o, ">")
    def __ge__(self, o): return compare(self, o, ">=")
    def __eq__(self, o):
        r = compare(self, o, "==")
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = compare(self, o, "!=")
        return True if r is NotImplemented else r
    def __bool__(self): return VC.cur.fork(self.t != 0)
    __hash__ = Sym.__hash__
    def __float__(self): raise Unsupported("concrete float of a symbolic number")
    def __int__(self): raise Unsupported("concrete int of a symbolic number")
    def __round__(self, nd=None): return vround(self, nd)

class SInt(SNum):
    __slots__ = ()
    def __index__(self):
        raise Unsupported("symbolic integer used where CPython needs a concrete one")
    def item(self): return self
    def bit_length(self):
        h = VC.cur.hooks.get("bit_length")
        if h: return h(self)
        raise Unsupported("bit_length")

class SReal(SNum):
    __slots__ = ()
    def __bool__(self): return VC.cur.fork(self.t != 0)
    def item(self): return self

class SBool(Sym):
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __bool__(self): return VC.cur.fork(self.t)
    def __eq__(self, o):
        if isinstance(o, SBool): return mkbool(self.t == o.t)
        if isinstance(o, bool): return mkbool(self.t if o else z3.Not(self.t))
        r = compare(self, o, "==")
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self.__eq__(o)
        return vnot(r)
    __hash__ = Sym.__hash__
    def __and__(self, o): return mkbool(z3.And(self.t, TBool.unwrap(o)))
    def __or__(self, o): return mkbool(z3.Or(self.t, TBool.unwrap(o)))
    __rand__ = __and__; __ror__ = __or__
    def __invert__(self): return mkbool(z3.Not(self.t))
    for _o in ("add", "radd", "sub", "rsub", "mul", "rmul"):
        pass
    def __add__(self, o): return arith(self, o, "+")
    def __radd__(self, o): return arith(o, self, "+")
    def __mul__(self, o): return arith(self, o, "*")
    def __rmul__(self, o): return arith(o, self, "*")
    def __sub__(self, o): return arith(self, o, "-")
    def __rsub__(self, o): return arith(o, self, "-")

def vnot(r):
    if isinstance(r, SBool): return mkbool(z3.Not(r.t))
    return not r

class SStr(Sym):
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __eq__(self, o):
        if isinstance(o, (SStr, str)): return mkbool(self.t == TStr.unwrap(o))
        return False
    def __ne__(self, o): return vnot(self.__eq__(o))
    __hash__ = Sym.__hash__
    def __add__(self, o): raise Unsupported("symbolic string concatenation")
    def __bool__(self): return VC.cur.fork(self.t != strid(""))
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        h = VC.cur.hooks.get(("str", a))
        if h is not None: return lambda *x: h(self, *x)
        if a in ("startswith", "endswith"):         # any relation that holds of a string and itself
            def rel(x, *more):
                if more or not isinstance(x, (SStr, str)): raise Unsupported("str.%s of %r" % (a, x))
                f = z3.Function("str_" + a, z3.IntSort(), z3.IntSort(), z3.BoolSort()); y = TStr.unwrap(x)
                VC.cur.fact(f(self.t, self.t)); VC.cur.fact(z3.Implies(self.t == y, f(self.t, y)))
                return mkbool(f(self.t, y))
            return rel
        raise Unsupported("str.%s on a symbolic string" % a)

class SBytes(Sym):
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __vc_len__(self): return mkint(z3.Length(self.t))
    def __add__(self, o):
        try: return SBytes(z3.Concat(self.t, TBytes.unwrap(o)))
        except TypeMismatch: raise Unsupported("bytes + %s" % type(o).__name__)
    def __radd__(self, o):
        try: return SBytes(z3.Concat(TBytes.unwrap(o), self.t))
        except TypeMismatch: raise Unsupported("%s + bytes" % type(o).__name__)
    def __getitem__(self, i):
        n = z3.Length(self.t)
        if isinstance(i, slice):
            if i.step is not None: raise Unsupported("byte slice step")
            def pos(x, d):
                if x is None: return d
                x = TInt.unwrap(x)
                x = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), x)
                return z3.simplify(z3.If(x > n, n, x))
            a, b = pos(i.start, z3.IntVal(0)), pos(i.stop, n)
            return SBytes(z3.SubSeq(self.t, a, z3.If(b > a, b - a, 0)))
        raise Unsupported("byte element")
    def __bool__(self): return VC.cur.fork(z3.Length(self.t) > 0)
    def __len__(self): raise Unsupported("len of symbolic bytes in CPython")
    def __iter__(self): raise Unsupported("iteration over symbolic bytes")
    def __eq__(self, o):
        try: return mkbool(self.t == TBytes.unwrap(o))
        except TypeMismatch: return False
    def __ne__(self, o): return vnot(self.__eq__(o))
    __hash__ = Sym.__hash__
    def __getattr__(self, a):
        if a.startswith("__") or a == "t": raise AttributeError(a)
        h = VC.cur.hooks.get(("bytes", a))
        if h is not None: return lambda *x: h(self, *x)
        raise Unsupported("bytes.%s on symbolic bytes" % a)

class SOpaque(Sym):
    __slots__ = ("ty", "t", "attrs")
    def __init__(self, ty, t): self.ty, self.t, self.attrs = ty, t, None
    def __bool__(self):
        f = z3.Function("truthy_" + self.ty.name, self.ty.sort, z3.BoolSort())
        return VC.cur.fork(f(self.t))
    def __eq__(self, o):
        if isinstance(o, SOpaque) and o.ty == self.ty: return mkbool(self.t == o.t)
        if isinstance(o, (int, float, str, Fraction)):
            # a row of unknown kind may equal a constant: uninterpreted
            f = z3.Function("eq_%s_%r" % (self.ty.name, o), self.ty.sort, z3.BoolSort())
            return mkbool(f(self.t))
        return False
    def __ne__(self, o): return vnot(self.__eq__(o))
    __hash__ = Sym.__hash__
    def _hook(self, name, *a):
        h = VC.cur.hooks.get(("op", self.ty.name, name))
        if h is None: 
            return NotImplemented
        return h(self, *a)
    def __add__(self, o): return self._hook("add", o)
    def __radd__(self, o): return self._hook("radd", o)
    def __sub__(self, o): return self._hook("sub", o)
    def __rsub__(self, o): return self._hook("rsub", o)
    def __mul__(self, o): return self._hook("mul", o)
    def __rmul__(self, o): return self._hook("rmul", o)
    def __lt__(self, o): return self._hook("lt", o)
    def __getattr__(self, a):
        if a.startswith("__") or a in ("ty", "t", "attrs"): raise AttributeError(a)
        h = VC.cur.hooks.get(("attr", self.ty.name, a))
        if h is None: raise Unsupported("attribute %s of opaque %s" % (a, self.ty.name))
        return h(self)

class Poison:
    """a variable whose value after a loop is not known to the engine"""
    def __init__(self, why): object.__setattr__(self, "why", why)
    def _bad(self, *a, **k): raise Unsupported("use of an untracked loop variable: " + object.__getattribute__(self, "why"))
    __add__ = __radd__ = __sub__ = __mul__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __bool__ = __len__ = __iter__ = __getitem__ = __call__ = __setitem__ = __contains__ = __hash__ = _bad
    def __getattr__(self, a): self._bad()

# ------------------------------------------------------------------------------------------------
# locations
# ------------------------------------------------------------------------------------------------
class ElemLoc:
    def __init__(self, parent, idx): self.parent, self.idx, self.epoch = parent, idx, parent.root().epoch
    def chk(self):
        if self.parent.root().epoch != self.epoch: raise Unsupported("stale element reference")
    def get(self):
        self.chk()
        return z3.Select(self.parent.lty().arr(self.parent.term), self.idx)
    def set(self, t):
        self.chk()
        r = self.parent.root()
        if r.shared: raise Unsupported("mutation of an element that is aliased by another container")
        p = self.parent; ty = p.lty(); old = p.term
        p.term = ty.mk(ty.len(old), z3.Store(ty.arr(old), self.idx, t))
    def root(self): return self.parent.root()

class ValLoc:
    def __init__(self, parent, key): self.parent, self.key, self.epoch = parent, key, parent.root().epoch
    def chk(self):
        if self.parent.root().epoch != self.epoch: raise Unsupported("stale element reference")
    def get(self):
        self.chk(); return self.parent.ty.val(self.parent.term, self.key)
    def set(self, t):
        self.chk()
        if self.parent.root().shared: raise Unsupported("mutation of an element that is aliased by another container")
        p = self.parent; ty = p.ty; old = p.term
        p.term = ty.mk(ty.n(old), ty.keyat(old), ty.pos(old), z3.Store(ty.vals(old), self.key, t))
    def root(self): return self.parent.root()

class FieldLoc:
    """component of a tuple / payload of an optional held at loc"""
    def __init__(self, loc, ty, i): self.loc, self.ty, self.i = loc, ty, i
    def get(self):
        t = self.loc.get()
        return self.ty.acc(self.i, t) if isinstance(self.ty, TTuple) else self.ty.val(t)
    def set(self, v):
        t = self.loc.get()
        if isinstance(self.ty, TTuple):
            self.loc.set(self.ty.mk(*[v if j == self.i else self.ty.acc(j, t) for j in range(len(self.ty.ts))]))
        else: self.loc.set(self.ty.some(v))
    def root(self): return self.loc.root()

class RecLoc:
    def __init__(self, rec, f): self.rec, self.f = rec, f
    def get(self): return self.rec.ty_.get(self.rec.to_term(), self.f)
    def set(self, v): self.rec._settf(self.f, v)
    def root(self): return self.rec.root()

class Container(Sym):
    """a mutable symbolic object"""
    def _init(self, loc):
        v = VC.cur
        v.cellcount += 1
        self.cid = v.cellcount
        self.loc = loc
        self._t = None
        self.epoch = 0
        self.shared = False
    def root(self):
        return self if self.loc is None else self.loc.root()
    @property
    def term(self):
        return self._t if self.loc is None else self.loc.get()
    @term.setter
    def term(self, t):
        if self.loc is None:
            self._t = t
            VC.cur.note_write(self)
        else:
            self.loc.set(t)

def place(v, ty, loc):
    """v has just been stored (by value) at loc: make later mutations through v go there."""
    if isinstance(v, Container):
        if v.loc is None and not getattr(v, "pinned", False):
            v.relocate(ty, loc)
        else:
            VC.cur.note_shared(v.root()); VC.cur.note_shared(loc.root())
    elif isinstance(v, tuple) and isinstance(ty, TTuple):
        for i, (x, t) in enumerate(zip(v, ty.ts)):
            if t.mutable: place(x, t, FieldLoc(loc, ty, i))
    elif isinstance(ty, TOpt) and v is not None:
        place(v, ty.ty, FieldLoc(loc, ty, 0))

# ------------------------------------------------------------------------------------------------
# lists
# ------------------------------------------------------------------------------------------------
class VList(Container):
    def __init__(self, ety=None, items=None, term=None, loc=None):
        self._init(loc)
        self.ety = ety
        self.items = items
        if loc is None: self._t = term
    @staticmethod
    def of(items):
        return VList(None, items=list(items))
    def lty(self): return TList(self.ety)
    @property
    def shape(self): return (self.vlen(),)      # of a one-dimensional array
    # -- symbolic/concrete
    def concrete(self): return self.items is not None
    def elem_type(self):
        ty = None
        for x in self.items:
            t = typeof(x)
            if t is None: return None
            ty = t if ty is None else join(ty, t)
            if ty is None: return None
        return ty
    def to_term(self, ty=None):
        """term of this list at TList type ty (a value copy if ty differs)"""
        if self.items is None:
            if ty is None or ty == self.lty(): return self.term
            return self._recast(ty)
        ety = ty.ty if ty is not None else (self.ety or self.elem_type())
        if ety is None: raise TypeMismatch("list of unknown element type")
        L = TList(ety)
        a = VC.cur.fresh("lst", z3.ArraySort(z3.IntSort(), ety.sort))
        for i, x in enumerate(self.items):
            a = z3.Store(a, i, ety.unwrap(x))
        return L.mk(z3.IntVal(len(self.items)), a)
    def _recast(self, ty):
        # element-wise coercion through a fresh array
        src = self.lty()
        t = self.term
        co = coercion(src.ty, ty.ty)
        if co is None: raise TypeMismatch("%s is not %s" % (src, ty))
        a = VC.cur.fresh("cast", z3.ArraySort(z3.IntSort(), ty.ty.sort))
        j = _qv("j")
        VC.cur.fact(z3.ForAll([j], z3.Select(a, j) == co(src.at(t, j)), patterns=[z3.Select(a, j)]))
        return ty.mk(src.len(t), a)
    def make_symbolic(self, ety=None):
        """turn a concrete-mode list into a symbolic one in place"""
        if self.items is None:
            if ety is not None and ety != self.ety:
                if self.loc is not None: raise Unsupported("type change of a nested list")
                self._t = self._recast(TList(ety)); self.ety = ety
            return
        ety = ety or self.ety or self.elem_type()
        if ety is None: raise Unsupported("list of unknown element type becomes symbolic")
        seen = set()
        for x in self.items:
            for y in mutables(x):
                if id(y) in seen: raise Unsupported("aliased elements in one list")
                seen.add(id(y))
        try: t = self.to_term(TList(ety))
        except TypeMismatch as e: raise Unsupported("list elements: %s" % e)
        items = self.items
        self.items = None; self.ety = ety
        if self.loc is not None: raise Unsupported("nested concrete list")
        self._t = t
        if ety.mutable:
            for i, x in enumerate(items): place(x, ety, ElemLoc(self, z3.IntVal(i)))
    def relocate(self, ty, loc):
        if self.items is not None:
            items = self.items; self.items = None
            self.ety = ty.ty; self.loc = loc; self._t = None
            if ty.ty.mutable:
                for i, x in enumerate(items): place(x, ty.ty, ElemLoc(self, z3.IntVal(i)))
        else:
            self.ety = ty.ty; self.loc = loc; self._t = None
        self.loc = loc
    def havoc(self, ty):
        assert self.loc is None
        self.items = None; self.ety = ty.ty
        self._t = ty.fresh("L")
        self.epoch += 1
    # -- length, access
    @property
    def n(self):
        if self.items is not None: return z3.IntVal(len(self.items))
        return self.lty().len(self.term)
    def vlen(self): return len(self.items) if self.items is not None else mkint(self.n)
    def __len__(self):
        if self.items is not None: return len(self.items)
        r = self.vlen()
        if isinstance(r, int): return r
        raise Unsupported("len of a symbolic list in CPython")
    def __bool__(self):
        if self.items is not None: return bool(self.items)
        return VC.cur.fork(self.n > 0)
    def at(self, i):
        """element at term index i (no bounds check)"""
        if self.items is not None:
            i = z3.simplify(i)
            if z3.is_int_value(i) and 0 <= i.as_long() < len(self.items): return self.items[i.as_long()]
            self.make_symbolic()
        loc = ElemLoc(self, i) if self.ety.mutable else None
        return self.ety.wrap(z3.Select(self.lty().arr(self.term), i), loc)
    def _index(self, i):
        """normalise an index; raises IndexError on the paths where it is out of range"""
        if isinstance(i, bool): i = int(i)
        if not isintlike(i): raise TypeError("list indices must be integers")
        v = VC.cur
        n = self.n
        t = TInt.unwrap(i)
        if isinstance(i, int):
            if i < 0: t = n + i
            if self.items is not None:
                if not (-len(self.items) <= i < len(self.items)): raise IndexError("list index out of range")
                return z3.simplify(t)
        else:
            if not v.implied(t >= 0):
                if v.fork(t < 0): t = t + n
        ok = z3.And(t >= 0, t < n)
        if v.implied(ok): return t
        if v.fork(ok): return t
        raise IndexError("list index out of range")
    def __getitem__(self, i):
        if isinstance(i, slice): return self._slice(i)
        if self.items is not None and isinstance(i, SInt):
            c = z3.simplify(i.t)
            ety = self.ety or self.elem_type()
            if ety is None or len(self.items) == 1:
                t = self._index(i)
                for k in range(len(self.items)):
                    if k == len(self.items) - 1 or VC.cur.fork(t == k):
                        if k == len(self.items) - 1: VC.cur.fact(t == k)
                        return self.items[k]
        t = self._index(i)
        return self.at(t)
    def __setitem__(self, i, x):
        if isinstance(i, slice): raise Unsupported("slice assignment")
        t = self._index(i)
        if self.items is not None:
            t = z3.simplify(t)
            if z3.is_int_value(t):
                VC.cur.note_write(self)
                self.items[t.as_long()] = x
                return
            e = self.elem_type(); ex = typeof(x)
            j = join(e, ex) if e is not None and ex is not None else None
            self.make_symbolic(j)
        self._fit(x)
        v = self._unw(x)
        ty = self.lty(); old = self.term
        self.term = ty.mk(ty.len(old), z3.Store(ty.arr(old), t, v))
        if self.ety.mutable:
            self.root().epoch += 1
            place(x, self.ety, ElemLoc(self, t))
    def _fit(self, x):
        """note a needed element-type widening (applied on the next exploration round)"""
        try:
            self._unw(x)
        except TypeMismatch:
            ex = typeof(x)
            j = join(self.ety, ex) if ex is not None else None
            if j is None or j == self.ety: raise Unsupported("element %r does not fit list of %s" % (x, self.ety))
            if self.loc is None:
                VC.cur.widen(self, TList(j))
                self.make_symbolic(j)
            else: raise Unsupported("element %r does not fit nested list of %s" % (x, self.ety))
    def _unw(self, x):
        return self.ety.unwrap(x)
    def append(self, x):
        if self.items is not None:
            if isinstance(x, Container) and x.loc is not None and False: pass
            VC.cur.note_write(self)
            self.items.append(x); return
        if self.ety is None: raise Unsupported("append to a list of unknown type")
        self._fit(x)
        ty = self.lty(); old = self.term; n = ty.len(old)
        self.term = ty.mk(n + 1, z3.Store(ty.arr(old), n, self._unw(x)))
        if self.ety.mutable: place(x, self.ety, ElemLoc(self, n))
    def extend(self, o):
        o = as_seq(o)
        if o.concrete_items() is not None:
            for x in o.concrete_items(): self.append(x)
            return
        r = concat(self, o)
        if self.items is not None:
            VC.cur.note_write(self)
            self.ety = r.ety; self.items = None
            if self.loc is not None: raise Unsupported("extend nested")
            self._t = r.term
        else: self.term = r.term
    def __iadd__(self, o): self.extend(o); return self
    def __add__(self, o):
        if isinstance(o, (VList,)) :
            if self.items is not None and o.items is not None: return VList.of(self.items + o.items)
            return concat(self, as_seq(o))
        return NotImplemented
    def __radd__(self, o): return NotImplemented
    def __mul__(self, k):
        if self.items is not None and isinstance(k, int): return VList.of(self.items * k)
        if self.items is not None and len(self.items) == 1 and isinstance(k, SInt):
            x = self.items[0]; ety = typeof(x)
            if ety is None or ety.mutable: raise Unsupported("[x]*n of mutable x")
            a = VC.cur.fresh("rep", z3.ArraySort(z3.IntSort(), ety.sort)); t = ety.unwrap(x)
            j = _qv("j")
            VC.cur.fact(z3.ForAll([j], z3.Select(a, j) == t, patterns=[z3.Select(a, j)]))
            n = z3.If(k.t > 0, k.t, 0)
            return VList(ety, term=TList(ety).mk(n, a))
        raise Unsupported("list repetition")
    __rmul__ = __mul__
    def _slice(self, s):
        if s.step is not None and s.step != 1:
            if self.items is not None and all(x is None or isinstance(x, int) for x in (s.start, s.stop, s.step)):
                return VList.of(self.items[s])
            if s.step == -1 and s.start is None and s.stop is None:
                n = self.n
                return SeqView(n, lambda i: self.at(n - 1 - i), ety=self.ety).to_list()
            raise Unsupported("slice step")
        if self.items is not None and all(x is None or isinstance(x, int) for x in (s.start, s.stop)):
            return VList.of(self.items[s.start:s.stop])
        n = self.n
        def norm(x, d):
            if x is None: return d
            t = TInt.unwrap(x)
            if not z3.is_int_value(t) and VC.cur.implied(z3.And(t >= 0, t <= n)): return t
            t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
            return z3.simplify(t)
        lo, hi = norm(s.start, z3.IntVal(0)), norm(s.stop, n)
        if VC.cur.implied(z3.And(lo >= 0, lo <= n, hi <= n, hi >= lo)):
            ln = hi - lo
        else:
            ln = z3.If(hi > lo, hi - lo, 0)
        self_l = self
        if self.items is not None: self.make_symbolic()
        ty = self.lty(); t = self.term
        if self.ety.mutable: VC.cur.note_shared(self.root())
        a = VC.cur.fresh("sl", z3.ArraySort(z3.IntSort(), self.ety.sort))
        j = _qv("j")
        VC.cur.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln), z3.Select(a, j) == z3.Select(ty.arr(t), j + lo)), patterns=[z3.Select(a, j)]))
        r = VList(self.ety, term=ty.mk(z3.simplify(ln), a))
        h = VC.cur.hooks.get("slice")
        if h: h(ty, r.term, t, lo)
        if self.ety.mutable: r.shared = True
        return r
    def pop(self, i=-1):
        if self.items is not None and isinstance(i, int):
            VC.cur.note_write(self)
            return self.items.pop(i)
        if isinstance(i, int) and i == -1:
            t = self._index(-1)
            ty = self.lty(); old = self.term
            if self.ety.mutable:
                x = self.ety.wrap(ty.at(old, t))
            else: x = self.ety.wrap(ty.at(old, t))
            self.term = ty.mk(ty.len(old) - 1, ty.arr(old))
            self.root().epoch += 1 if self.ety.mutable else 0
            return x
        if isinstance(i, (int, SInt)):
            t = self._index(i)
            ty = self.lty(); old = self.term
            x = self.ety.wrap(ty.at(old, t))
            a = VC.cur.fresh("pop", z3.ArraySort(z3.IntSort(), self.ety.sort)); j = _qv("j")
            VC.cur.fact(z3.ForAll([j], z3.Select(a, j) == (z3.Select(ty.arr(old), j + 1) if isinstance(i, int) and i == 0 else z3.If(j < t, z3.Select(ty.arr(old), j), z3.Select(ty.arr(old), j + 1))), patterns=[z3.Select(a, j)]))
            self.term = ty.mk(ty.len(old) - 1, a)
            if self.ety.mutable: self.root().epoch += 1
            return x
        raise Unsupported("pop at symbolic position")
    def insert(self, i, x):
        if self.items is not None and isinstance(i, int):
            VC.cur.note_write(self); self.items.insert(i, x); return
        if isinstance(i, int) and i == 0:
            self._fit(x)
            ty = self.lty(); old = self.term
            a = VC.cur.fresh("ins", z3.ArraySort(z3.IntSort(), self.ety.sort)); j = _qv("j")
            VC.cur.fact(z3.ForAll([j], z3.Implies(j >= 1, z3.Select(a, j) == z3.Select(ty.arr(old), j - 1)), patterns=[z3.Select(a, j)]))
            VC.cur.fact(z3.Select(a, 0) == self._unw(x))
            self.term = ty.mk(ty.len(old) + 1, a)
            if self.ety.mutable: self.root().epoch += 1
            return
        raise Unsupported("insert")
    def reverse(self):
        if self.items is not None:
            VC.cur.note_write(self); self.items.reverse(); return
        ty = self.lty(); old = self.term; n = ty.len(old)
        a = VC.cur.fresh("rev", z3.ArraySort(z3.IntSort(), self.ety.sort)); j = _qv("j")
        VC.cur.fact(z3.ForAll([j], z3.Select(a, j) == z3.Select(ty.arr(old), n - 1 - j), patterns=[z3.Select(a, j)]))
        self.term = ty.mk(n, a)
        h = VC.cur.hooks.get("reverse")
        if h: h(ty, self.term, old)
        if self.ety.mutable: self.root().epoch += 1
    def sort(self, key=None, reverse=False):
        h = VC.cur.hooks.get("sort")
        if self.items is not None and len(self.items) <= 1: return
        if h is None:
            from . import rt
            if self.items is not None: self.make_symbolic()
            r = rt.symsorted(self, key, reverse)
            self.term = r.term
            if self.ety.mutable: self.root().epoch += 1
            return
        h(self, key, reverse)
    def copy(self):
        if self.items is not None: return VList.of(self.items)
        if self.ety.mutable: VC.cur.note_shared(self.root())
        r = VList(self.ety, term=self.term)
        r.shared = self.ety.mutable
        return r
    def clear(self):
        VC.cur.note_write(self.root())
        if self.loc is None: self.items = []; self._t = None
        else: raise Unsupported("clear")
    def index(self, x):
        """the first place of x; ValueError when absent"""
        if self.items is not None:
            for i, y in enumerate(self.items):
                if y is x or y == x: return i
            raise ValueError("not in list")
        v = VC.cur; L = self.lty(); T = self.term
        if self.ety.mutable: raise Unsupported("list.index of mutable elements")
        if not contains(self, x): raise ValueError("not in list")
        t = self.ety.unwrap(x); i = v.fresh("index", z3.IntSort()); j = _qv("j")
        v.fact(z3.And(i >= 0, i < L.len(T), L.at(T, i) == t))
        v.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), L.at(T, j) != t), patterns=[L.at(T, j)]))
        return mkint(i)
    def count(self, x): raise Unsupported("list.count")
    def __contains__(self, x): return bool(contains(self, x))
    def __iter__(self):
        if self.items is not None: return iter(list(self.items))
        r = self.vlen()
        if isinstance(r, int): return iter([self.at(z3.IntVal(i)) for i in range(r)])
        raise Unsupported("uninstrumented iteration over a symbolic list")
    def __eq__(self, o):
        if not isinstance(o, VList): return False
        if self.items is not None and o.items is not None: return self.items == o.items
        if o.items is not None and len(o.items) == 0: return mkbool(self.n == 0)
        if self.items is not None and len(self.items) == 0: return mkbool(o.n == 0)
        ety = self.ety or o.ety
        L = TList(ety); a, b = self.to_term(L), o.to_term(L)
        j = _qv("j")
        return mkbool(z3.And(L.len(a) == L.len(b), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.len(a)), L.at(a, j) == L.at(b, j)))))
    def __ne__(self, o): return vnot(self.__eq__(o))
    __hash__ = Sym.__hash__
    def tolist(self): return self.copy()
    @property
    def shape(self): return (self.vlen(),)
    def astype(self, _): return self.copy()
    def concrete_items(self): return self.items

def contains(seq, x):
    items = seq.concrete_items()
    if items is not None:
        for y in items:
            if y is x or y == x: return True
        return False
    s = as_seq(seq)
    ety = s.ety
    try: t = ety.unwrap(x)
    except TypeMismatch: return False
    if isinstance(seq, VList):
        L = seq.lty(); T = seq.term
        j = _qv("j")
        return mkbool(z3.Exists([j], z3.And(j >= 0, j < L.len(T), L.at(T, j) == t)))
    if s.haskey is not None: return mkbool(s.haskey(t))
    raise Unsupported("membership in a view")

def concat(a, b):
    """a + b as a fresh list"""
    v = VC.cur
    ea = a.ety or (a.elem_type() if a.items is not None and a.items else None)
    eb = b.ety
    if eb is None:
        eb = typeof(b.concrete_items()[0]) if b.concrete_items() else None
    e = ea if eb is None else eb if ea is None else join(ea, eb)
    if e is None: raise Unsupported("concatenation of untyped lists")
    L = TList(e)
    ta = a.to_term(L); lb = b.to_list() if not isinstance(b, VList) else b
    tb = lb.to_term(L)
    r = v.fresh("cat", z3.ArraySort(z3.IntSort(), e.sort))
    n, m = L.len(ta), L.len(tb)
    j = _qv("j")
    v.fact(z3.ForAll([j], z3.Select(r, j) == z3.If(j < n, L.at(ta, j), L.at(tb, j - n)), patterns=[z3.Select(r, j)]))
    j2 = _qv("j")
    v.fact(z3.ForAll([j2], z3.Implies(z3.And(j2 >= 0, j2 < m), z3.Select(r, j2 + n) == L.at(tb, j2)), patterns=[L.at(tb, j2)]))
    res = VList(e, term=L.mk(n + m, r))
    h = v.hooks.get("concat")
    if h: h(L, res.term, ta, tb)
    if e.mutable:
        res.shared = True
        if isinstance(a, Container): v.note_shared(a.root())
        if isinstance(lb, Container): v.note_shared(lb.root())
    return res

def mutables(x):
    if isinstance(x, Container): yield x
    elif isinstance(x, tuple):
        for y in x: yield from mutables(y)

# ------------------------------------------------------------------------------------------------
# sequence views
# ------------------------------------------------------------------------------------------------
class SSet(Sym):
    """a finite set of symbolic values; mem(term) says what is in it"""
    def __init__(self, ety, mem): self.ety, self.mem, self._list = ety, mem, None
    @staticmethod
    def of(x):
        if isinstance(x, SSet): return x
        if isinstance(x, SeqView) and x.kind == "keys": x = x.src
        if isinstance(x, VDict):
            if x.items_ is None:
                D, t0 = x.ty, x.term      # as it is now
                return SSet(D.k, lambda k: D.has(t0, k))
            x = x.keys()
        if isinstance(x, SeqView):
            if x.kind == "range" and x.haskey is not None and x.ety is not None: return SSet(x.ety, x.haskey)
            x = x.to_list()
        if not isinstance(x, VList): x = VList.of(list(x))
        c = x.concrete_items()
        if c is not None and x.items is not None:
            tys = [typeof(y) for y in c]
            if not tys: return SSet(None, lambda k: z3.BoolVal(False))
            ety = tys[0]
            for y in tys[1:]: ety = join(ety, y) if ety and y else None
            if ety is None or ety.mutable: raise Unsupported("set of mixed values")
            ts = [ety.unwrap(y) for y in c]
            return SSet(ety, lambda k: z3.Or(*[k == t for t in ts]))
        if x.ety is None or x.ety.mutable: raise Unsupported("set of containers")
        v = VC.cur; ety, t, n = x.ety, x.term, x.n; L = TList(ety)
        w = z3.Function(v.freshname("where"), ety.sort, z3.IntSort()); m = z3.Function(v.freshname("member"), ety.sort, z3.BoolSort())
        i, k = _qv("i"), _qv("k", ety.sort)
        v.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), m(L.at(t, i))), patterns=[L.at(t, i)]))
        v.fact(z3.ForAll([k], z3.Implies(m(k), z3.And(w(k) >= 0, w(k) < n, L.at(t, w(k)) == k)), patterns=[m(k)]))
        return SSet(ety, m)
    def _bin(self, o, f):
        if not isinstance(o, (SSet, set, frozenset)): raise Unsupported("set operation with %r" % type(o))
        o = SSet.of(o); e = self.ety or o.ety
        if self.ety is not None and o.ety is not None and self.ety != o.ety: raise Unsupported("sets of different types")
        return SSet(e, lambda k: f(self.mem(k), o.mem(k)))
    def __sub__(self, o): return self._bin(o, lambda a, b: z3.And(a, z3.Not(b)))
    def __or__(self, o): return self._bin(o, z3.Or)
    def __and__(self, o): return self._bin(o, z3.And)
    def __rsub__(self, o): return SSet.of(o) - self
    def __ror__(self, o): return SSet.of(o) | self
    def __rand__(self, o): return SSet.of(o) & self
    difference, union, intersection = __sub__, __or__, __and__
    def add(self, x):
        e = self.ety or typeof(x); t = e.unwrap(x); m = self.mem
        self.ety, self._list = e, None; self.mem = lambda k: z3.Or(m(k), k == t)
        if VC.cur.loopstack: raise Unsupported("set modified in a loop")
    def __contains__(self, x):
        if self.ety is None: return False
        try: t = self.ety.unwrap(x)
        except TypeMismatch: return False
        return VC.cur.fork(self.mem(t))
    def seq(self):
        """its elements in some order, each once"""
        if self._list is not None: return self._list
        if self.ety is None: return VList.of([])
        v = VC.cur; L = TList(self.ety); t = L.fresh("elements"); n = L.len(t)
        p = z3.Function(v.freshname("place"), self.ety.sort, z3.IntSort())
        i, k = _qv("i"), _qv("k", self.ety.sort)
        v.fact(n >= 0)
        v.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(self.mem(L.at(t, i)), p(L.at(t, i)) == i)), patterns=[L.at(t, i)]))
        v.fact(z3.ForAll([k], z3.Implies(self.mem(k), z3.And(p(k) >= 0, p(k) < n, L.at(t, p(k)) == k)), patterns=[p(k)]))
        self._list = VList(self.ety, term=t); self.place = p
        v.ghost.setdefault("sets", []).append((self, p, t))
        return self._list
    def __vc_len__(self): return self.seq().vlen()
    def __bool__(self): return VC.cur.fork(self.seq().n > 0)
    def __iter__(self): raise Unsupported("uninstrumented iteration over a symbolic set")

class SeqView(Sym):
    """a lazily indexed read-only sequence"""
    def __init__(self, n, at, ety=None, haskey=None, src=None, kind=""):
        self.n, self._at, self.ety, self.haskey, self.src, self.kind = n, at, ety, haskey, src, kind
        self.pos = None
    def at(self, i): return self._at(i)
    def vlen(self): return mkint(self.n)
    def __len__(self):
        r = self.vlen()
        if isinstance(r, int): return r
        raise Unsupported("len of a symbolic view in CPython")
    def concrete_items(self):
        s = z3.simplify(self.n)
        if z3.is_int_value(s) and s.as_long() <= 64:
            return [self._at(z3.IntVal(i)) for i in range(s.as_long())]
        return None
    def __iter__(self):
        c = self.concrete_items()
        if c is None: raise Unsupported("uninstrumented iteration over a symbolic view")
        return iter(c)
    def __contains__(self, x): return bool(contains(self, x))
    def __getitem__(self, i):
        return self.to_list()[i]
    def to_list(self):
        c = self.concrete_items()
        if c is not None: return VList.of(c)
        ety = self.ety
        v = VC.cur
        j = _qv("j")
        res = v.sub(lambda: self._at(j), scope_vars=[j], guard=z3.And(j >= 0, j < self.n))
        ety, term, facts = merge_results(res, ety)
        a = v.fresh("seq", z3.ArraySort(z3.IntSort(), ety.sort))
        v.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.And(z3.Select(a, j) == term, *facts)), patterns=[z3.Select(a, j)]))
        r = VList(ety, term=TList(ety).mk(self.n, a))
        if ety.mutable: r.shared = True
        return r

def merge_results(res, ety=None):
    """[(conds, facts, value, exc)] -> (type, If-term, facts)"""
    vals = []
    for conds, facts, val, exc in res:
        if exc is not None: raise Unsupported("exception inside a summarised expression: %r" % (exc,))
        vals.append((conds, facts, val))
    if not vals: raise Unsupported("summarised expression has no path")
    if ety is None:
        for _, _, val in vals:
            t = typeof(val)
            if t is None: raise Unsupported("summarised value of unknown type %r" % (type(val),))
            ety = t if ety is None else join(ety, t)
            if ety is None: raise Unsupported("summarised values of different types")
    term = None
    allfacts = []
    for conds, facts, val in reversed(vals):
        try: t = ety.unwrap(val)
        except TypeMismatch as e: raise Unsupported(str(e))
        c = z3.And(*conds) if conds else z3.BoolVal(True)
        term = t if term is None else z3.If(c, t, term)
        for f in facts: allfacts.append(z3.Implies(c, f))
    return ety, z3.simplify(term), allfacts

def as_seq(o):
    if isinstance(o, (VList, SeqView)): return o
    if isinstance(o, VDict): return o.keys()
    if isinstance(o, SSet): return o.seq()
    if isinstance(o, (list, tuple)): return VList.of(o)
    if isinstance(o, Sym) and hasattr(o, "__vc_len__") and hasattr(type(o), "__getitem__"): return SeqView(TInt.unwrap(o.__vc_len__()), lambda i: o[mkint(i)])
    if isinstance(o, (dict,)): return VList.of(list(o))
    if isinstance(o, (set, frozenset, range)) or hasattr(o, "__iter__"): return VList.of(list(o))
    raise TypeError("%r object is not iterable" % type(o).__name__)

# ------------------------------------------------------------------------------------------------
# dicts
# ------------------------------------------------------------------------------------------------
_MISSING = object()

class VDict(Container):
    def __init__(self, ty=None, items=None, term=None, loc=None):
        self._init(loc)
        self.ty = ty
        self.items_ = items       # concrete mode: python dict
        if loc is None: self._t = term
    @staticmethod
    def of(d): return VDict(None, items=dict(d))
    def elem_type(self):
        kt = vt = None
        for k, x in self.items_.items():
            a, b = typeof(k), typeof(x)
            if a is None or b is None: return None
            kt = a if kt is None else join(kt, a); vt = b if vt is None else join(vt, b)
            if kt is None or vt is None: return None
        return TDict(kt, vt) if kt is not None else None
    def to_term(self, ty=None):
        if self.items_ is None:
            if ty is None or ty == self.ty: return self.term
            raise TypeMismatch("%s is not %s" % (self.ty, ty))
        ty = ty or self.ty or self.elem_type()
        if ty is None: raise TypeMismatch("dict of unknown type")
        t = ty.empty()
        for k, x in self.items_.items(): t = ty.set(t, ty.k.unwrap(k), ty.v.unwrap(x))
        return t
    def make_symbolic(self, ty=None):
        if self.items_ is None:
            if ty is not None and ty != self.ty: raise Unsupported("dict type change")
            return
        ty = ty or self.ty or self.elem_type()
        if ty is None: raise Unsupported("dict of unknown type becomes symbolic")
        try: t = self.to_term(ty)
        except TypeMismatch as e: raise Unsupported(str(e))
        d = self.items_; self.items_ = None; self.ty = ty
        if self.loc is not None: raise Unsupported("nested concrete dict")
        self._t = t
        if ty.v.mutable:
            for k, x in d.items(): place(x, ty.v, ValLoc(self, ty.k.unwrap(k)))
    def relocate(self, ty, loc):
        d = self.items_
        self.items_ = None; self.ty = ty; self.loc = loc; self._t = None
        if d is not None and ty.v.mutable:
            for k, x in d.items(): place(x, ty.v, ValLoc(self, ty.k.unwrap(k)))
    def havoc(self, ty):
        self.items_ = None; self.ty = ty; self._t = ty.fresh("D"); self.epoch += 1
    @property
    def n(self): return z3.IntVal(len(self.items_)) if self.items_ is not None else self.ty.n(self.term)
    def vlen(self): return len(self.items_) if self.items_ is not None else mkint(self.n)
    def __len__(self):
        r = self.vlen()
        if isinstance(r, int): return r
        raise Unsupported("len of a symbolic dict in CPython")
    def __bool__(self):
        if self.items_ is not None: return bool(self.items_)
        return VC.cur.fork(self.n > 0)
    def _symkey(self, k):
        return isinstance(k, Sym) or (isinstance(k, tuple) and any(isinstance(x, Sym) for x in k))
    def _ck(self, k):
        """concrete-mode lookup of k: the matching concrete key or _MISSING (forks for symbolic keys)"""
        if not self._symkey(k): 
            if not any(self._symkey(kk) for kk in self.items_):
                return k if k in self.items_ else _MISSING
        for kk in self.items_:
            if kk is k: return kk
        for kk in list(self.items_):
            r = (kk == k)
            if r is True or (isinstance(r, SBool) and VC.cur.fork(r.t)): return kk
        return _MISSING
    def hask(self, k):
        try: t = self.ty.k.unwrap(k)
        except TypeMismatch: return None, False
        return t, self.ty.has(self.term, t)
    def __contains__(self, k):
        if self.items_ is not None: return self._ck(k) is not _MISSING
        t, h = self.hask(k)
        if t is None: return False
        return VC.cur.fork(h)
    def __getitem__(self, k):
        if self.items_ is not None:
            kk = self._ck(k)
            if kk is _MISSING: raise KeyError(k)
            return self.items_[kk]
        t, h = self.hask(k)
        if t is None: raise KeyError("key of another type")
        if not VC.cur.implied(h):
            if not VC.cur.fork(h): raise KeyError("symbolic key")
        return self._wrapv(t)
    def _wrapv(self, t):
        return self.ty.v.wrap(self.ty.val(self.term, t), ValLoc(self, t) if self.ty.v.mutable else None)
    def get(self, k, d=None):
        if k in self: return self[k]
        return d
    def __setitem__(self, k, x):
        if self.items_ is not None:
            if not self._symkey(k) and not any(self._symkey(kk) for kk in self.items_):
                VC.cur.note_write(self, (k, x)); self.items_[k] = x; return
            VC.cur.note_write(self, (k, x))
            if not self.items_ and self.ty is None:
                kt, vt = typeof(k), typeof(x)
                if kt is None or vt is None: raise Unsupported("dict of unknown type")
                self.make_symbolic(TDict(kt, vt))
            else: self.make_symbolic()
        try: tk, tv = self.ty.k.unwrap(k), self.ty.v.unwrap(x)
        except TypeMismatch:
            kt, vt = typeof(k), typeof(x)
            kt = join(kt, self.ty.k) if kt else None; vt = join(vt, self.ty.v) if vt else None
            if kt is None or vt is None: raise Unsupported("dict entry does not fit %s" % self.ty)
            VC.cur.widen(self, TDict(kt, vt))
            raise Unsupported("dict widening")
        self.term = self.ty.set(self.term, tk, tv)
        if self.ty.v.mutable:
            self.root().epoch += 1
            place(x, self.ty.v, ValLoc(self, tk))
    def __delitem__(self, k):
        if self.items_ is not None:
            kk = self._ck(k)
            if kk is _MISSING: raise KeyError(k)
            VC.cur.note_write(self); del self.items_[kk]; return
        t, h = self.hask(k)
        if t is None: raise KeyError("key of another type")
        if not VC.cur.implied(h):
            if not VC.cur.fork(h): raise KeyError("symbolic key")
        if self.ty.v.mutable: raise Unsupported("del on a symbolic dict of containers")
        VC.cur.note_write(self)
        self.term = self.ty.delete(self.term, t)
    def pop(self, k, *d):
        if self.items_ is not None:
            kk = self._ck(k)
            if kk is _MISSING:
                if d: return d[0]
                raise KeyError(k)
            VC.cur.note_write(self); return self.items_.pop(kk)
        raise Unsupported("pop on a symbolic dict")
    def setdefault(self, k, d=None):
        if k in self: return self[k]
        self[k] = d
        return self[k]
    def update(self, o=(), **kw):
        if isinstance(o, VDict) and o.items_ is not None:
            for k, x in o.items_.items(): self[k] = x
        elif isinstance(o, dict):
            for k, x in o.items(): self[k] = x
        elif isinstance(o, VDict):
            ty, b = o.ty, o.term
            if ty.v.mutable or self.loc is not None: raise Unsupported("update from a symbolic dict")
            VC.cur.note_write(self)
            if self.items_ is not None and not self.items_ and self.ty is None:
                self.items_ = None; self.ty = ty; self._t = b; self.epoch += 1
            else:
                if self.items_ is not None: self.make_symbolic(ty)
                if self.ty != ty: raise Unsupported("update from a dict of another type")
                a, r, q = self.term, ty.fresh("U"), _qv("k", ty.k.sort)
                VC.cur.fact(z3.ForAll([q], z3.And(ty.has(r, q) == z3.Or(ty.has(a, q), ty.has(b, q)), ty.val(r, q) == z3.If(ty.has(b, q), ty.val(b, q), ty.val(a, q))), patterns=[ty.pos(r)[q], ty.val(r, q)]))
                self.term = r; self.epoch += 1
        for k, x in kw.items(): self[k] = x
    def copy(self):
        if self.items_ is not None: return VDict.of(self.items_)
        if self.ty.v.mutable: VC.cur.note_shared(self.root())
        r = VDict(self.ty, term=self.term); r.shared = self.ty.v.mutable
        return r
    def deep(self):
        if self.items_ is not None: return VDict.of({k: deepcopy(x) for k, x in self.items_.items()})
        return VDict(self.ty, term=self.term)
    def keyat(self, i): return z3.Select(self.ty.keyat(self.term), i)
    def keys(self):
        if self.items_ is not None: return VList.of(list(self.items_))
        return SeqView(self.n, lambda i: self.ty.k.wrap(self.keyat(i)), ety=self.ty.k, haskey=lambda t: self.ty.has(self.term, t), src=self, kind="keys")
    def values(self):
        if self.items_ is not None: return VList.of(list(self.items_.values()))
        return SeqView(self.n, lambda i: self._wrapv(self.keyat(i)), ety=self.ty.v, src=self, kind="values")
    def items(self):
        if self.items_ is not None: return VList.of(list(self.items_.items()))
        return SeqView(self.n, lambda i: (self.ty.k.wrap(self.keyat(i)), self._wrapv(self.keyat(i))), ety=TTuple(self.ty.k, self.ty.v), src=self, kind="items")
    def __iter__(self):
        if self.items_ is not None: return iter(list(self.items_))
        raise Unsupported("uninstrumented iteration over a symbolic dict")
    def __eq__(self, o):
        if isinstance(o, VDict) and self.items_ is not None and o.items_ is not None: return self.items_ == o.items_
        if o is None or isinstance(o, (str, int, float, Fraction, tuple, bytes, SStr, SInt, SReal, SBool, VList)): return False
        raise Unsupported("dict equality")
    __hash__ = Sym.__hash__
    def concrete_items(self): return list(self.items_) if self.items_ is not None else None

# ------------------------------------------------------------------------------------------------
# records
# ------------------------------------------------------------------------------------------------
class SRec(Container):
    _own = ("cid", "loc", "_t", "epoch", "shared", "ty_", "pinned", "term")
    def __init__(self, ty, term=None, loc=None):
        object.__setattr__(self, "ty_", ty)
        v = VC.cur
        v.cellcount += 1
        for k, x in (("cid", v.cellcount), ("loc", loc), ("_t", term if loc is None else None), ("epoch", 0), ("shared", False)):
            object.__setattr__(self, k, x)
    def to_term(self, ty=None):
        return self._t if self.loc is None else self.loc.get()
    def relocate(self, ty, loc):
        object.__setattr__(self, "loc", loc); object.__setattr__(self, "_t", None)
    def havoc(self, ty):
        object.__setattr__(self, "_t", ty.fresh("rec"))
    def _settf(self, f, v):
        t = self.ty_.put(self.to_term(), f, v)
        if self.loc is None:
            object.__setattr__(self, "_t", t)
            VC.cur.note_write(self)
        else: self.loc.set(t)
    def __getattr__(self, a):
        ty = object.__getattribute__(self, "ty_")
        if a in ty.idx:
            fty = ty.fields[ty.idx[a]][1]
            return fty.wrap(ty.get(self.to_term(), a), RecLoc(self, a) if fty.mutable else None)
        if ty.cls is not None:
            f = getattr(ty.cls, a, None)
            if f is not None and callable(f):
                import types
                raw = ty.cls.__dict__.get(a)
                if isinstance(raw, staticmethod): return f
                return types.MethodType(f, self)
            if f is not None: return f
        raise AttributeError("%s has no attribute %s" % (ty.name, a))
    def __setattr__(self, a, v):
        if a in SRec._own:
            object.__setattr__(self, a, v); return
        ty = self.ty_
        if a not in ty.idx: raise Unsupported("new attribute %s on record %s" % (a, ty.name))
        fty = ty.fields[ty.idx[a]][1]
        try: t = fty.unwrap(v)
        except TypeMismatch as e: raise Unsupported("field %s: %s" % (a, e))
        self._settf(a, t)
        if fty.mutable: place(v, fty, RecLoc(self, a))
    def __eq__(self, o): return self is o
    __hash__ = Sym.__hash__
    def __lt__(self, o):
        f = getattr(self.ty_.cls, "__lt__", None)
        return f(self, o)

def deepcopy(x):
    if isinstance(x, VDict): return x.deep()
    if isinstance(x, VList):
        if x.items is not None: return VList.of([deepcopy(y) for y in x.items])
        return VList(x.ety, term=x.term)
    if isinstance(x, SRec): return SRec(x.ty_, term=x.to_term())
    if isinstance(x, Sym): return x
    if isinstance(x, tuple): return tuple(deepcopy(y) for y in x)
    if isinstance(x, (int, float, str, bytes, bool, type(None), Fraction)): return x
    d = getattr(x, "__dict__", None)
    if d is not None and not callable(x):
        import copy as _c
        n = object.__new__(type(x))
        for k, v in d.items(): n.__dict__[k] = deepcopy(v)
        VC.cur.obj_birth(n)
        return n
    import copy as _c
    return _c.deepcopy(x)

def shallowcopy(x):
    if isinstance(x, (VDict, VList)): return x.copy()
    if isinstance(x, SRec):
        for f, ty in x.ty_.fields:
            if ty.mutable: raise Unsupported("shallow copy of a record with mutable fields")
        return SRec(x.ty_, term=x.to_term())
    if isinstance(x, Sym): return x
    d = getattr(x, "__dict__", None)
    if d is not None:
        n = object.__new__(type(x)); n.__dict__.update(d); VC.cur.obj_birth(n)
        return n
    import copy as _c
    return _c.copy(x)

# ------------------------------------------------------------------------------------------------
# typing of values
# ------------------------------------------------------------------------------------------------
def typeof(v):
    if v is None: return TNone
    if isinstance(v, SInt): return TInt
    if isinstance(v, SReal): return TReal
    if isinstance(v, (SBool, bool)): return TBool
    if isinstance(v, int): return TInt
    if isinstance(v, (float, Fraction)):
        if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))): return None
        return TReal
    if isinstance(v, (SStr, str)): return TStr
    if isinstance(v, (SBytes, bytes)): return TBytes
    if isinstance(v, SOpaque): return v.ty
    if isinstance(v, tuple):
        ts = [typeof(x) for x in v]
        return None if any(t is None for t in ts) else TTuple(*ts)
    if isinstance(v, VList):
        if v.items is None: return TList(v.ety)
        if v.ety is not None: return TList(v.ety)
        if not v.items: return TEmptyList
        e = v.elem_type()
        return None if e is None else TList(e)
    if isinstance(v, VDict):
        if v.ty is not None: return v.ty
        if not v.items_: return TEmptyDict
        return v.elem_type()
    if isinstance(v, SRec): return v.ty_
    if isinstance(v, SeqView): return TList(v.ety) if v.ety is not None else None
    if isinstance(v, numbers.Real): return TReal
    for r in TRec.registry.values():
        if r.cls is not None and type(v) is r.cls: return r
    return None

class _TEmptyList(Ty):
    key = "List<?>"
    mutable = True
class _TEmptyDict(Ty):
    key = "Dict<?>"
    mutable = True
TEmptyList, TEmptyDict = _TEmptyList(), _TEmptyDict()

def incomplete(t):
    """does the type mention an empty list or dictionary of unknown kind?"""
    if isinstance(t, (_TEmptyList, _TEmptyDict)): return True
    if isinstance(t, (TList, TOpt)): return incomplete(t.ty)
    if isinstance(t, TDict): return incomplete(t.k) or incomplete(t.v)
    if isinstance(t, TTuple): return any(incomplete(x) for x in t.ts)
    return False

def join(a, b):
    if a is None or b is None: return None
    if a == b: return a
    if isinstance(a, _TNone): return b if isinstance(b, TOpt) else TOpt(b)
    if isinstance(b, _TNone): return a if isinstance(a, TOpt) else TOpt(a)
    if isinstance(a, TOpt) or isinstance(b, TOpt):
        x = a.ty if isinstance(a, TOpt) else a
        y = b.ty if isinstance(b, TOpt) else b
        j = join(x, y)
        return None if j is None else TOpt(j)
    num = {"Int": 1, "Bool": 0, "Real": 2}
    if a.key in num and b.key in num:
        return a if num[a.key] > num[b.key] else b
    if isinstance(a, _TEmptyList) and isinstance(b, TList): return b
    if isinstance(b, _TEmptyList) and isinstance(a, TList): return a
    if isinstance(a, _TEmptyDict) and isinstance(b, TDict): return b
    if isinstance(b, _TEmptyDict) and isinstance(a, TDict): return a
    if isinstance(a, TList) and isinstance(b, TList):
        j = join(a.ty, b.ty); return None if j is None else TList(j)
    if isinstance(a, TDict) and isinstance(b, TDict):
        k, v = join(a.k, b.k), join(a.v, b.v)
        return None if k is None or v is None else TDict(k, v)
    if isinstance(a, TTuple) and isinstance(b, TTuple) and len(a.ts) == len(b.ts):
        ts = [join(x, y) for x, y in zip(a.ts, b.ts)]
        return None if any(t is None for t in ts) else TTuple(*ts)
    if isinstance(a, TUnion) and b in a.ts: return a
    if isinstance(b, TUnion) and a in b.ts: return b
    return None

def coercion(a, b):
    """function on terms from type a to type b, or None"""
    if a == b: return lambda t: t
    if a == TInt and b == TReal: return lambda t: z3.ToReal(t)
    if a == TBool and b == TInt: return lambda t: z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if a == TBool and b == TReal: return lambda t: z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(b, TOpt) and not isinstance(a, TOpt):
        c = coercion(a, b.ty)
        return None if c is None else (lambda t: b.some(c(t)))
    if isinstance(b, TUnion) and a in b.ts: return lambda t: b.mk(b.ts.index(a), t)
    if isinstance(a, TTuple) and isinstance(b, TTuple) and len(a.ts) == len(b.ts):
        cs = [coercion(x, y) for x, y in zip(a.ts, b.ts)]
        if any(c is None for c in cs): return None
        return lambda t: b.mk(*[c(a.acc(i, t)) for i, c in enumerate(cs)])
    return None

def vround(x, nd=None):
    if not isinstance(x, Sym): return round(x) if nd is None else round(x, nd)
    if isinstance(x, SInt): return x
    if nd is not None: raise Unsupported("round with digits")
    v = VC.cur
    r = v.fresh("round", z3.IntSort())
    d = z3.ToReal(r) - x.t
    v.fact(z3.And(d <= z3.RealVal("1/2"), d >= z3.RealVal("-1/2")))
    return SInt(r)
