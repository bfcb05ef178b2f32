"""C09: every call of the encryption mode calculator returns encryptions of the current rows."""
import types as _types
from .common import *
from .split import iv, rv
from .ptable import *
from pyvc import facades as Fa
from fractions import Fraction
EM = "ml.secureprotol.encrypt_mode:EncryptModeCalculator"
CT = TOpaque("Cipher"); DEC = z3.Function("decrypts_to", CT.sort, z3.RealSort())

class ndarray(V.VList):
    """a one-dimensional array (the engine's list, under numpy's class name)"""
    def copy(self):
        r = V.VList.copy(self); n = ndarray(r.ety, items=r.items, term=None if r.items is not None else r.to_term()); return n
class DType:
    """the element type of an array"""
    def __init__(self, of): self.of = of
def to_typed_array(x, dtype=None, copy=True, **k):
    if k or dtype not in (None, object, "object"): raise Unsupported("array of a given element type")
    return to_array(x)
def to_array(x):
    if isinstance(x, V.SeqView): x = x.to_list()
    if isinstance(x, list): x = V.VList.of(x)
    if not isinstance(x, V.VList): raise Unsupported("array of %r" % (x,))
    return ndarray(x.ety, items=list(x.items) if x.items is not None else None, term=None if x.items is not None else x.to_term())
def np_(w=None):
    m = Fa.numpy_facade(w); m.array = to_typed_array; m.ndarray = ndarray; return m
NP = {"numpy": np_, "random": lambda w: _types.SimpleNamespace(random=rate)}
def rate():
    r = TReal.new("random"); VC.cur.fact(z3.And(r.t >= 0, r.t < 1)); return r

def ciphers(c):
    """an encryption scheme: encrypting a number gives some ciphertext that decrypts to it; adding numbers (C07)"""
    def fresh(x):
        t = VC.cur.fresh("cipher", CT.sort); VC.cur.fact(DEC(t) == x); return CT.wrap(t)
    # inside elementwise code the ciphertext is a function of the position: a fixed function of what is encrypted and of the call
    E = z3.Function("encrypted", z3.RealSort(), z3.IntSort(), CT.sort); x_, i_ = z3.Real("x_"), z3.Int("i_")
    c.vc.fact(z3.ForAll([x_, i_], DEC(E(x_, i_)) == x_, patterns=[E(x_, i_)]))
    ADD = z3.Function("plus", CT.sort, z3.RealSort(), CT.sort); c_ = z3.Const("c_", CT.sort)
    c.vc.fact(z3.ForAll([c_, x_], DEC(ADD(c_, x_)) == DEC(c_) + x_, patterns=[ADD(c_, x_)]))
    ADD2 = z3.Function("plus2", CT.sort, CT.sort, CT.sort); d_ = z3.Const("d_", CT.sort)
    c.vc.fact(z3.ForAll([c_, d_], DEC(ADD2(c_, d_)) == DEC(c_) + DEC(d_), patterns=[ADD2(c_, d_)]))
    def add(s, o):
        if isinstance(o, V.SOpaque) and o.ty == CT: return CT.wrap(ADD2(s.t, o.t))
        return CT.wrap(ADD(s.t, rv(o)))
    def sub(s, o):
        if isinstance(o, V.SOpaque): raise Unsupported("difference of ciphertexts")
        return CT.wrap(ADD(s.t, -rv(o)))
    for nm, f in (("add", add), ("radd", add), ("sub", sub)): c.vc.hooks[("op", "Cipher", nm)] = f
    k = [0]
    class Enc(Obj):
        def encrypt(self, v): return CT.wrap(E(rv(v), z3.IntVal(k[0])))
        def encrypt_list(self, vs): return rt.listcomp(vs, self.encrypt, None)
    c.vc.ghost["turn"] = k
    return Enc()

KINDS = ("number", "pair", "list", "array")
RL = TList(TReal)
def make_row(c, kind, n, name):
    if kind == 0: return TReal.new(name)
    if kind == 1: return (TReal.new(name), TReal.new(name))
    t = RL.fresh(name); c.require(RL.len(t) == n)
    l = V.VList(TReal, term=t)
    return l if kind == 2 else to_array(l)
def same_shape(c, kind, n, row, got, what):
    if kind == 0: return
    if kind == 1: c.prove(what + " keep their shape", isinstance(got, tuple) and len(got) == 2); return
    c.prove(what + " keep their shape", isinstance(got, V.VList) and isinstance(got, ndarray) == (kind == 3))
    c.prove(what + " keep their length", iv(got.vlen()) == n)
def numbers(kind, row):
    """the numbers of a row, as a function of the position"""
    if kind == 0: return [rv(row)]
    if kind == 1: return [rv(x) for x in row]
    t = row.to_term(RL); return lambda j: RL.at(t, j)
def decrypts(c, kind, n, got, want, what):
    same_shape(c, kind, n, want, got, "rows")
    def ok(x): return isinstance(x, V.SOpaque) and x.ty == CT
    if kind < 2:
        gs = [got] if kind == 0 else list(got)
        c.prove("rows come back encrypted", all(ok(g) for g in gs))
        if not all(ok(g) for g in gs): return
        for g, w in zip(gs, want): c.prove(what, DEC(g.t) == w)
        return
    if got.items is not None: c.prove("rows come back encrypted", False); return
    CL = TList(CT)
    if got.ety != CT: c.prove("rows come back encrypted", False); return
    t = got.to_term(CL); j = z3.Int("j0")
    c.prove(what, z3.Implies(z3.And(j >= 0, j < n), DEC(CL.at(t, j)) == want(j)))
def plain_same(c, kind, got, want, what="the table handed in is left alone"):
    now = numbers(kind, got)
    if kind < 2:
        for a, b in zip(now, want): c.prove(what, a == b)
    else:
        j = z3.Int("j0"); c.prove("the table handed in is left alone", now(j) == want(j))

def induct(c, calc, kind, n, row, want, before):
    """the state after a call is that of the last table alone: its rows and ciphertexts of its rows; so what holds for two
    calls in a row from an arbitrary first table holds after any number of calls"""
    for a, x in list(calc.__dict__.items()):
        if not isinstance(x, PT):
            if before is not None and (a not in before or before[a] is not x) and not (a in before and isinstance(x, (str, int, float, type(None))) and x == before.get(a)): raise Unsupported("state the induction over calls does not cover: " + a)
            continue
        c.prove("what is remembered has the keys of the last table", (x.row is ABSENT) == (row is ABSENT))
        if row is ABSENT or x.row is ABSENT: continue
        first = x.row[0] if kind == 1 else x.row
        crypt = isinstance(first, V.SOpaque) or isinstance(first, V.VList) and first.ety == CT
        fits = isinstance(x.row, (V.SReal, V.SOpaque)) if kind == 0 else isinstance(x.row, tuple) and len(x.row) == 2 and all(isinstance(y, (V.SReal, V.SOpaque)) for y in x.row) if kind == 1 else isinstance(x.row, V.VList) and x.row.ety in (CT, TReal)
        if not fits: raise Unsupported("state the induction over calls does not cover: " + a)
        if crypt: decrypts(c, kind, n, x.row, want, "the ciphertexts remembered decrypt to the last rows")
        else: same_shape(c, kind, n, row, x.row, "rows"); plain_same(c, kind, x.row, want, "the rows remembered are the last rows")

def history(mode, kind):
    @contract(EM + ".encrypt", "C09", name="%s mode, rows of kind %s" % (mode, KINDS[kind]), facades=NP, prove_ms=1500)
    def _(c):
        E = ciphers(c); key = K.new("k"); n = TInt.new("width").t; c.require(n >= 1)
        kw = {}
        if mode == "balance" or c.vc.choose(2): kw["re_encrypted_rate"] = TReal.new("rate")
        calc = c.ok(lambda: c.get(EM)(E, mode, **kw)); c.vc.obj_birth(calc)
        before = dict(calc.__dict__)
        for call in range(3):
            c.vc.ghost["turn"][0] = call
            row = make_row(c, kind, n, "row%d" % call) if call == 2 or c.vc.choose(2) else ABSENT
            want = None if row is ABSENT else numbers(kind, row)
            out = c.ok(calc.encrypt, PT(row, key))
            c.prove("the result is a table", isinstance(out, PT))
            c.prove("exactly the same keys", (out.row is ABSENT) == (row is ABSENT))
            if row is not ABSENT and out.row is not ABSENT:
                decrypts(c, kind, n, out.row, want, "call %d: every ciphertext decrypts to the row's current number" % (call + 1))
                plain_same(c, kind, row, want)
            induct(c, calc, kind, n, row, want, before if call else None)
            if call == 0: before = {a: x for a, x in calc.__dict__.items() if not isinstance(x, PT)}
            if row is not ABSENT and out.row is not ABSENT:
                if kind >= 2 and call < 2:
                    # the caller goes on to change its own rows
                    row[0] = TReal.new("changed"); out.row[0] = E.encrypt(TReal.new("other"))
for _m in ("strict", "fast", "balance"):
    for _k in range(4): history(_m, _k)
