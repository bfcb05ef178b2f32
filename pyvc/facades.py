"""Stand-ins for the libraries the code under verification imports (assumed contracts on dependencies)."""
import types, math as _math, copy as _copy, sys as _sys
from fractions import Fraction
import z3
from .core import VC, Unsupported
from . import vals as V
from .vals import *
from . import rt
from .load import Logger

def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m

def ufun(name, x):
    f = z3.Function(name, z3.RealSort(), z3.RealSort())
    return f(TReal.unwrap(x))

def vexp(x):
    if not isinstance(x, Sym): return V.SReal(ufun("exp", x)) if x != 0 else 1
    h = VC.cur.hooks.get("exparg")
    if h: h(x)
    t = ufun("exp", x)
    VC.cur.fact(t > 0)
    return V.SReal(t)

def vlog(x, base=None):
    t = TReal.unwrap(x)
    if base is not None:
        h = VC.cur.hooks.get("log")
        if h is None: raise Unsupported("logarithm to a base")
        if VC.cur.fork(t <= 0): raise ValueError("math domain error")
        return h(x, base)
    if VC.cur.fork(t <= 0): raise ValueError("math domain error")
    return V.SReal(ufun("log", x))

def vfloor(x):
    if not isinstance(x, Sym): return _math.floor(x)
    h = V.VC.cur.hooks.get("floor")
    r = h(x) if h else None
    if r is not None: return r
    if isinstance(x, V.SInt): return x
    return mkint(z3.ToInt(x.t))

def vceil(x):
    if not isinstance(x, Sym): return _math.ceil(x)
    if isinstance(x, V.SInt): return x
    return mkint(-z3.ToInt(-x.t))

def _m1(f, real):
    def g(x, *a):
        if isinstance(x, Sym): return f(x, *a)
        return real(x, *a)
    return g

def math_facade(world=None):
    m = mod("math", **{k: v for k, v in vars(_math).items() if not k.startswith("__")})
    m.exp = _m1(vexp, _math.exp); m.log = _m1(vlog, _math.log); m.floor = vfloor; m.ceil = vceil
    m.sqrt = _m1(V.sqrt, _math.sqrt)
    m.fabs = lambda x: rt.vabs(x)
    def isnan(x):
        return False if isinstance(x, Sym) or isinstance(x, Fraction) else _math.isnan(x)
    m.isnan = isnan
    def frexp(x):
        if not isinstance(x, Sym): return _math.frexp(x)
        v = VC.cur
        t = TReal.unwrap(x)
        e = v.fresh("frexp", z3.IntSort()); fr = v.fresh("frac", z3.RealSort())
        h = v.hooks.get("frexp")
        if h: 
            for f in h(t, fr, e): v.fact(f)
        return V.SReal(fr), V.SInt(e)
    m.frexp = frexp
    return m

def copy_facade(world=None):
    return mod("copy", deepcopy=V.deepcopy, copy=V.shallowcopy)

def logger_facade(world=None):
    L = Logger()
    def make(*a, **k): return L.factory()
    make.build = make
    return mod("ml.utils.logger", LOGGER=L, MyLoggerFactory=make)

def numba_facade(world=None):
    def jit(*a, **k):
        if len(a) == 1 and callable(a[0]): return a[0]
        return lambda f: f
    return mod("numba", jit=jit, njit=jit)

class ndarray(Sym):
    """a one-dimensional array, seen at one arbitrary position (every operation on it is elementwise, so what
    holds at the arbitrary position holds everywhere).  shape is a token: a pair of (name, length term)"""
    __slots__ = ("v", "size", "idx")
    def __init__(self, v, size, idx):
        self.v, self.size, self.idx = v, size, idx
    @staticmethod
    def fresh(name, size):
        """an arbitrary real array of `size` (a z3 term or int) elements: x(i)"""
        vc_ = VC.cur
        n = size if z3.is_expr(size) else z3.IntVal(size)
        idx = vc_.ghost.setdefault("__pos__", {}).get(str(n))
        if idx is None:
            idx = z3.Int("pos_%d" % len(vc_.ghost["__pos__"])); vc_.ghost["__pos__"][str(n)] = idx
            vc_.fact(z3.And(idx >= 0, idx < n))
        F = z3.Function(vc_.freshname(name), z3.IntSort(), z3.RealSort())
        return ndarray(V.SReal(F(idx)), n, idx)
    def like(self, v): return ndarray(v, self.size, self.idx)
    def term(self): return TReal.unwrap(self.v)
    def at(self, i): return TReal.wrap(z3.substitute(self.term(), (self.idx, i)))
    @property
    def shape(self): return ShapeTok(self)
    @property
    def size_(self): return mkint(self.size)
    @property
    def ndim(self): return 1
    def copy(self): return self.like(self.v)
    def astype(self, *_): return self.like(self.v)
    def __getitem__(self, i):
        if isinstance(i, ndarray): raise Unsupported("selection by mask")
        t = TInt.unwrap(i)
        if VC.cur.implied(z3.And(t >= 0, t < self.size)) or VC.cur.fork(z3.And(t >= 0, t < self.size)): return self.at(t)
        if VC.cur.fork(z3.And(t < 0, t >= -self.size)): return self.at(t + self.size)
        raise IndexError("index out of bounds")
    def __setitem__(self, i, x):
        if VC.cur.loopstack: raise Unsupported("array store in a loop")
        if isinstance(i, ndarray):
            if isinstance(x, ndarray): raise Unsupported("array value in a masked store")
            self.v = mkreal(z3.If(TBool.unwrap(i.v), TReal.unwrap(x), self.term())); return
        t = TInt.unwrap(i)
        if not VC.cur.fork(z3.And(t >= 0, t < self.size)):
            if not VC.cur.fork(z3.And(t < 0, t >= -self.size)): raise IndexError("index out of bounds")
            t = t + self.size
        self.v = mkreal(z3.If(self.idx == t, TReal.unwrap(x), self.term()))
    def _b(self, o, f):
        if isinstance(o, ndarray):
            if o.idx is not self.idx and not z3.eq(o.idx, self.idx): raise ValueError("operands could not be broadcast together")
            return self.like(f(self.v, o.v))
        if V.isnum(o): return self.like(f(self.v, o))
        return NotImplemented
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b / a)
    def __pow__(self, o): return self._b(o, lambda a, b: a ** b)
    def __neg__(self): return self.like(0 - self.v)
    def __abs__(self): return self.like(rt.vabs(self.v))
    def __lt__(self, o): return self._b(o, lambda a, b: a < b)
    def __le__(self, o): return self._b(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._b(o, lambda a, b: a > b)
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._b(o, lambda a, b: a == b)
    def __ne__(self, o): return self._b(o, lambda a, b: a != b)
    def __and__(self, o): return self._b(o, lambda a, b: a & b)
    def __or__(self, o): return self._b(o, lambda a, b: a | b)
    def __invert__(self): return self.like(V.vnot(self.v))
    __hash__ = Sym.__hash__
    def __bool__(self):
        if not VC.cur.implied(self.size == 1): raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(self.v)
    def max(self, *a, **k): return np_max(self)
    def sum(self, *a, **k): return np_sum(self)
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        raise Unsupported("array attribute " + a)

class ShapeTok:
    def __init__(self, a): self.a = a
    def __eq__(self, o): return isinstance(o, ShapeTok) and z3.eq(o.a.idx, self.a.idx)
    __hash__ = None
    def __getitem__(self, i): return (mkint(self.a.size),)[i]
    def __len__(self): return 1

def np_max(x, axis=None, keepdims=False, sign=1):
    """the largest element: an upper bound that is attained"""
    v = VC.cur
    m = v.fresh("npmax", z3.RealSort()); w = v.fresh("npargmax", z3.IntSort())
    j = V._qv("j"); t = x.term()
    at = lambda i: z3.substitute(t, (x.idx, i))
    v.fact(z3.And(w >= 0, w < x.size, m == at(w)))
    v.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x.size), at(j) * sign <= m * sign)))
    v.fact(t * sign <= m * sign)
    return V.SReal(m)

def np_sum(x, axis=None, keepdims=False):
    """the sum of the elements, through its partial sums S(0) = 0, S(k+1) = S(k) + x(k); the partial sums are
    recorded so that a contract can reason about them by induction"""
    v = VC.cur
    S = z3.Function(v.freshname("npsum"), z3.IntSort(), z3.RealSort())
    v.ghost.setdefault("sums", []).append((S, x))
    h = v.hooks.get("npsum")
    if h: h(S, x)
    return V.SReal(S(x.size))

def elementwise(f):
    def g(x, *a, **k):
        if isinstance(x, ndarray): return x.like(f(x.v, *a, **k))
        return f(x, *a, **k)
    return g

def np_full(shape, v, *a, **k):
    if isinstance(shape, ShapeTok): return shape.a.like(TReal.wrap(TReal.unwrap(v)))
    raise Unsupported("np.full")

class NumMeta(type):
    def __instancecheck__(cls, x): return cls.check(x)

def numpy_facade(world=None):
    class NT(metaclass=NumMeta):
        pass
    def numtype(name, kind, conv):
        class T(metaclass=NumMeta):
            __vc_num__ = None
            check = staticmethod(lambda x: False)
            def __new__(cls, x=0): return conv(x)
        T.__name__ = name
        return T
    class generic(metaclass=NumMeta):
        """numpy scalars: an opaque value may be declared one through the isinstance hook"""
        check = staticmethod(lambda x: False)
    m = mod("numpy", generic=generic, full=np_full, nan_to_num=elementwise(lambda x: x), copy=lambda x: x.copy(),
        exp=_m1(vexp, _math.exp), log=_m1(vlog, _math.log), sqrt=_m1(V.sqrt, _math.sqrt), abs=rt.vabs, floor=vfloor, ceil=vceil,
        ndarray=ndarray, inf=float("inf"), nan=float("nan"), e=_math.e, pi=_math.pi,
        int8=numtype("int8", "int", rt.vint), int16=numtype("int16", "int", rt.vint), int32=numtype("int32", "int", rt.vint), int64=numtype("int64", "int", rt.vint),
        float16=numtype("float16", "float", rt.vfloat), float32=numtype("float32", "float", rt.vfloat), float64=numtype("float64", "float", rt.vfloat),
        integer=numtype("integer", "int", rt.vint), float_=numtype("float_", "float", rt.vfloat),
        array=lambda x, *a, **k: as_array(x), asarray=lambda x, *a, **k: as_array(x),
        zeros=lambda n, *a, **k: zeros(n), sum=lambda x, *a, **k: np_sum(x, *a, **k) if isinstance(x, globals()["ndarray"]) else rt.vsum(x), max=lambda x, *a, **k: np_max(x, *a, **k) if isinstance(x, globals()["ndarray"]) else rt.vmax(x), min=lambda x, *a, **k: np_max(x, *a, sign=-1, **k) if isinstance(x, globals()["ndarray"]) else rt.vmin(x))
    def tanh(x):
        return V.SReal(ufun("tanh", x))
    m.tanh = _m1(tanh, _math.tanh)
    m.cosh = _m1(lambda x: V.SReal(ufun("cosh", x)), _math.cosh)
    def isnan(x): return False if isinstance(x, Sym) or isinstance(x, Fraction) else _math.isnan(x)
    m.isnan = isnan
    def argmax(x, *a, **k):
        l = as_seq(x)
        items = l.concrete_items()
        idx = rt.vrange(rt.vlen(l))
        return rt.vmax(idx if isinstance(idx, Sym) else list(idx), key=lambda i: l[i])
    m.argmax = argmax
    for k in ("exp", "log", "sqrt", "abs", "tanh", "cosh", "isnan"): setattr(m, k, elementwise(getattr(m, k)))
    m.log1p = elementwise(lambda x: _m1(vlog, _math.log)(1 + x))
    m.hypot = lambda a, b: m.sqrt(a * a + b * b)
    m.sign = elementwise(lambda x: mkint(z3.If(TReal.unwrap(x) > 0, 1, z3.If(TReal.unwrap(x) < 0, -1, 0))))
    m.where = lambda c, a, b: (c if isinstance(c, globals()["ndarray"]) else a).like(mkreal(z3.If(TBool.unwrap(c.v), TReal.unwrap(getattr(a, "v", a)), TReal.unwrap(getattr(b, "v", b)))))
    m.clip = elementwise(lambda x, lo, hi: rt.vmin(rt.vmax(x, lo), hi))
    m.square = lambda x: x * x
    m.power = lambda a, b: a ** b
    m.fabs = m.abs; m.absolute = m.abs
    def unknown(a):
        if a.startswith("__"): raise AttributeError(a)
        return Lazy("numpy." + a)
    m.__getattr__ = unknown
    m.random = Lazy("numpy.random")
    m.maximum = lambda a, b: rt.vmax(a, b)
    m.minimum = lambda a, b: rt.vmin(a, b)
    return m

def as_array(x):
    if isinstance(x, V.VList): return x.copy()
    if isinstance(x, V.SeqView): return x.to_list()
    if isinstance(x, (list, tuple)): return V.VList.of(list(x))
    if isinstance(x, Sym): return x
    return x

def zeros(n):
    if isinstance(n, tuple) and len(n) == 1: n = n[0]
    if isinstance(n, tuple): raise Unsupported("np.zeros of a tuple")
    return V.VList.of([Fraction(0)]) * n

DEFAULT = {"math": math_facade, "copy": copy_facade, "ml.utils.logger": logger_facade, "numba": numba_facade, "numpy": numpy_facade}

# ---- protocol buffer messages: plain records with the fields of the real descriptors --------------------------
_pb_desc = {}
def pb_descriptors(modname):
    """message descriptors of the real generated module (read natively, nothing executed symbolically)"""
    if modname not in _pb_desc:
        import importlib.util, os
        from .load import REPO
        sp = "/opt/venv/lib/python3.12/site-packages"
        if sp not in _sys.path: _sys.path.append(sp)
        p = os.path.join(REPO, *modname.split(".")) + ".py"
        spec = importlib.util.spec_from_file_location("real_" + modname.replace(".", "_"), p)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        _pb_desc[modname] = dict(m.DESCRIPTOR.message_types_by_name)
    return _pb_desc[modname]

class Repeated(V.VList):
    """a repeated message field"""
    def __init__(self, cls):
        V.VList.__init__(self, None, items=[]); self.cls = cls
    def add(self, **kw):
        m = self.cls(**kw); self.append(m); return m
    def MergeFrom(self, o): self.extend(o)

def pb_class(d, by):
    fields = {}
    for f in d.fields:
        rep = f.is_repeated if hasattr(f, "is_repeated") and not callable(f.is_repeated) else f.label == f.LABEL_REPEATED
        mp = rep and f.message_type is not None and f.message_type.GetOptions().map_entry
        fields[f.name] = (f, rep, mp)
    def default(f, rep, mp):
        if mp: return V.VDict.of({})
        if rep: return Repeated(by(f.message_type.name) if f.message_type is not None else None)
        if f.message_type is not None: return by(f.message_type.name)()
        return {1: 0, 2: 0, 3: 0, 4: 0, 5: Fraction(0), 6: Fraction(0), 7: False, 9: ""}.get(f.cpp_type, 0)
    def conv(f, x):
        t = f.cpp_type
        if t in (1, 2, 3, 4):
            if isinstance(x, V.SReal) or isinstance(x, (float, str)) or x is None: raise TypeError("int field")
            if isinstance(x, Fraction): raise TypeError("int field")
            return rt.vint(x)
        if t in (5, 6):
            if not V.isnum(x): raise TypeError("float field")
            return rt.vfloat(x)
        if t == 7: return x
        if t == 9 and (x is None or isinstance(x, (int, float))): raise TypeError("string field")
        return x
    class M:
        _fields = fields
        def __init__(self, **kw):
            VC.cur.obj_birth(self)
            for n, (f, rep, mp) in fields.items(): self.__dict__[n] = default(f, rep, mp)
            for n, x in kw.items():
                if n not in fields: raise ValueError("no field " + n)
                f, rep, mp = fields[n]
                if mp: self.__dict__[n].update(x)
                elif rep: self.__dict__[n].extend(x)
                elif x is not None: self.__dict__[n] = x if f.message_type is not None else conv(f, x)
        def __setattr__(self, n, x):
            if n not in fields: raise AttributeError("no field " + n)
            f, rep, mp = fields[n]
            if rep or f.message_type is not None: raise AttributeError("assignment to a composite field")
            self.__dict__[n] = conv(f, x)
        def CopyFrom(self, o): self.__dict__.update(V.deepcopy(o).__dict__)
        def __getattr__(self, a):
            if a.startswith("__"): raise AttributeError(a)
            if a in ("SerializeToString", "ParseFromString"): raise Unsupported("protobuf serialisation")
            raise AttributeError(a)
    M.__name__ = d.name
    return M

def pb_facade(modname):
    def make(world=None):
        ds = pb_descriptors(modname)
        m = mod(modname)
        def by(n): return m.__dict__[n]
        for n, d in ds.items(): setattr(m, n, pb_class(d, by))
        return m
    return make

class Lazy:
    """a library that only matters at run time: using it is out of reach"""
    def __init__(self, n): self.n = n
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        return Lazy(self.n + "." + a)
    def __call__(self, *a, **k): raise Unsupported("call of library " + self.n)

def lazy_facade(n):
    def make(world=None):
        m = mod(n); m.__getattr__ = lambda a: Lazy(n + "." + a) if not a.startswith("__") else (_ for _ in ()).throw(AttributeError(a))
        return m
    return make

def gmpy2_facade(world=None):
    m = mod("gmpy2", mpz=rt.vint)
    def hooked(name):
        def g(*a):
            h = VC.cur.hooks.get(name)
            if h is None: raise Unsupported("gmpy2." + name)
            return h(*a)
        return g
    for n in ("powmod", "invert", "next_prime", "is_prime", "mpz_random", "mpz_urandomb", "isqrt", "gcd", "is_square", "bit_set"): setattr(m, n, hooked(n))
    m.random_state = lambda *a: None
    return m

DEFAULT.update({"Cryptodome": lazy_facade("Cryptodome"), "Cryptodome.PublicKey": lazy_facade("Cryptodome.PublicKey"), "gmpy2": gmpy2_facade,
    "arch.api.boosting_tree_model_param_pb2": pb_facade("arch.api.boosting_tree_model_param_pb2"), "arch.api.boosting_tree_model_meta_pb2": pb_facade("arch.api.boosting_tree_model_meta_pb2")})
def _factory(self):
    class F:
        def __getattr__(s, a):
            if a.startswith("__"): raise AttributeError(a)
            return lambda *x, **k: self
    return F()
Logger.factory = _factory
