"""Helpers shared by the contracts: quantifiers, the table view, user functions."""
import z3
from pyvc.core import VC, PathEnd, Unsupported, Infeasible
from pyvc import vals as V, rt
from pyvc.vals import *
from pyvc.vals import _qv
from pyvc.driver import contract
qv = _qv

K, A, W, X = TOpaque("Key"), TOpaque("RowA"), TOpaque("RowW"), TOpaque("RowX")

def forall(n, f, lo=0, pats=None, name="j", ms=None):
    j = _qv(name)
    body = f(j)
    p = {}
    if pats is not None:
        q = pats(j) if isinstance(pats(j), (list, tuple)) else [pats(j)]
        q = [x for x in q if patok(x)]
        if q: p["patterns"] = q
    return z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < n), body), **p)

def patok(t):
    """can z3 use t as a trigger?"""
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x): return False
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT): return False
            todo += x.children()
    return not (z3.is_var(t) or t.num_args() == 0)

def forall2(n, m, f, pats=None):
    i, j = _qv("i"), _qv("j")
    p = {"patterns": [pats(i, j)]} if pats is not None else {}
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < m), f(i, j)), **p)

def exists(n, f, lo=0):
    j = _qv("e")
    return z3.Exists([j], z3.And(j >= lo, j < n, f(j)))

def ufn(name, *sorts): return z3.Function(name, *[s.sort if isinstance(s, Ty) else s for s in sorts])

def pyf(F, args, ret):
    """a Python callable for the uninterpreted function F with typed arguments and result"""
    return lambda *a: ret.wrap(F(*[t.unwrap(x) for t, x in zip(args, a)]))

class View:
    """the observable content of a table: ordered key/row pairs"""
    def __init__(self, n, key, val, kty, vty):
        self.n, self.key, self.val, self.kty, self.vty = n, key, val, kty, vty

def dict_attr(o):
    ds = [a for a, x in o.__dict__.items() if isinstance(x, V.VDict)]
    if len(ds) != 1: raise Unsupported("cannot locate the table's storage")
    return ds[0]

def raw_init(c):
    cls = c.get("computing.d_table:DTable")
    return cls

def mk_table(c, kty, vty, name="T"):
    """a table with arbitrary content (built by the real constructor, storage replaced)"""
    cls = c.get("computing.d_table:DTable")
    t = cls(True, V.VList.of([]))
    D = TDict(kty, vty)
    t.__dict__[dict_attr(t)] = V.VDict(D, term=D.fresh(name))
    return t

def storage(t): return t.__dict__[dict_attr(t)]

def view(t, kty, vty):
    s = t.get_kvs()
    return seq_view(s, kty, vty)

def seq_view(s, kty, vty):
    if isinstance(s, V.SeqView) and s.src is not None and isinstance(s.src, V.VDict) and s.kind == "items":
        d = s.src; D = d.ty
        if D != TDict(kty, vty):
            VC.cur.prove("the result holds rows of the specified kind", False)
            raise PathEnd()
        term = d.term
        return View(D.n(term), lambda i: z3.Select(D.keyat(term), i), lambda i: D.val(term, z3.Select(D.keyat(term), i)), kty, vty)
    P = TTuple(kty, vty)
    if isinstance(s, V.VDict): s = s.items()
    if isinstance(s, V.SeqView): s = s.to_list()
    L = TList(P); t = s.to_term(L)
    return View(L.len(t), lambda i: P.acc(0, L.at(t, i)), lambda i: P.acc(1, L.at(t, i)), kty, vty)

def snap(t):
    """(dict type, term) of a table for frame conditions"""
    d = storage(t)
    return d.ty, d.term

def same_table(c, t, s, label):
    d = storage(t)
    ty, term = s
    n, ka = ty.n(term), ty.keyat(term)
    if d.items_ is not None or d.ty != ty:
        c.prove(label, False); return
    u = d.term
    c.prove(label, z3.And(ty.n(u) == n, forall(n, lambda j: z3.And(z3.Select(ty.keyat(u), j) == z3.Select(ka, j), ty.val(u, z3.Select(ka, j)) == ty.val(term, z3.Select(ka, j))))))

def table_init_stub(vc, orig, self, include_key, data=None):
    """contract of the table constructor, used at call sites"""
    if data is None or not isinstance(data, (V.VList, V.SeqView)) or (isinstance(data, V.VList) and data.items is not None):
        return orig(self, include_key, data)
    if isinstance(data, V.SeqView): return orig(self, include_key, data)
    e = data.ety
    orig(self, True, V.VList.of([]))
    if include_key is True:
        if not (isinstance(e, TTuple) and len(e.ts) == 2): raise TypeError("every element in data should be a pair")
        L = data.lty(); t = data.term; n = L.len(t)
        i, j = _qv("i"), _qv("j")
        key = lambda i: e.acc(0, L.at(t, i))
        distinct = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), key(i) != key(j)))
        if not vc.implied(distinct, ms=3000):
            if not vc.fork(distinct): raise ValueError("duplicate key")
        self.__dict__[dict_attr(self)] = rt.dict_from_pairs(data)
    else:
        L = data.lty(); t = data.term; n = L.len(t)
        D = TDict(TInt, e); d = D.fresh("tbl")
        vc.fact(D.n(d) == n)
        vc.fact(forall(n, lambda i: z3.And(z3.Select(D.keyat(d), i) == i, z3.Select(D.pos(d), i) == i, D.val(d, i) == L.at(t, i)), pats=lambda i: z3.Select(D.keyat(d), i)))
        vc.fact(forall(n, lambda i: z3.And(z3.Select(D.keyat(d), i) == i, z3.Select(D.pos(d), i) == i, D.val(d, i) == L.at(t, i)), pats=lambda i: L.at(t, i)))
        self.__dict__[dict_attr(self)] = V.VDict(D, term=d)

TABLE_STUBS = {"computing.d_table:DTable.__init__": table_init_stub}
