"""C04, C05: signed fixed-point numbers modulo n."""
from .common import *
from .split import iv, rv
from .ptable import Obj
F_ = "ml.secureprotol.fixedpoint:FixedPointNumber"
I, R = z3.IntSort(), z3.RealSort()
MOD = z3.Function("residue", I, I)          # the residue of a number modulo the n at hand
P, PI = z3.Function("pow16", I, R), z3.Function("pow16_int", I, I)
T = z3.Function("pow2", I, R)

def lemma_at(c, name, vs, hyps, f, *insts):
    """a lemma over vs, proved on its own, asserted for the given terms"""
    n0 = len(c.vc.pc)
    s = z3.Solver(); s.set("timeout", 20000); s.add(*hyps); s.add(z3.Not(f))
    import time; t = time.time(); r = s.check(); bk = "z3"
    ok = r == z3.unsat
    if not ok:
        from pyvc.core import run_cvc5
        ok = run_cvc5(list(hyps) + [z3.Not(f)], 20) == "unsat"; bk = "cvc5"
    c.vc.record("lemma: " + name, ok, time.time() - t, bk, "", "lemma")
    if ok:
        for i in insts: c.vc.fact(z3.substitute(z3.Implies(z3.And(*hyps), f), *zip(vs, i)))

def pw(c, e):
    """16**e and what is known about it"""
    c.vc.fact(z3.And(P(e) > 0, z3.Implies(e >= 0, z3.And(z3.ToReal(PI(e)) == P(e), PI(e) >= 1)), P(z3.IntVal(0)) == 1, z3.Implies(e == 0, P(e) == 1), P(e) * P(z3.simplify(-e)) == 1, P(z3.simplify(-e)) > 0))
    return P(e)
def padd(c, a, b): 
    """16**(a+b) = 16**a * 16**b"""
    for x in (a, b, z3.simplify(a + b)): pw(c, x)
    c.vc.fact(P(z3.simplify(a + b)) == P(a) * P(b))

class Fx:
    """a modulus n with its signed range M (2M < n), numbers as MOD(m) with |m| <= M"""
    def __init__(self, c, default=False):
        self.c, vc = c, c.vc
        self.F = c.get(F_)
        if default:
            self.n = z3.IntVal(self.F.Q); self.M = z3.IntVal(self.F.Q // 3 - 1); self.args = ()
            self.nv, self.Mv = self.F.Q, self.F.Q // 3 - 1
        else:
            n, M = TInt.new("n"), TInt.new("max_int"); self.nv, self.Mv = n, M
            self.n, self.M = n.t, M.t; c.require(self.M >= 1, 2 * self.M < self.n); self.args = (n, M)
        vc.ghost["pows"] = []
        def fmod(x, y):
            if not (z3.eq(z3.simplify(y), z3.simplify(self.n)) or vc.implied(y == self.n)): return None
            return self.mod(x)
        def power(a, b):
            if a == 16 and not isinstance(a, Sym) and isinstance(b, V.SInt):
                e = z3.simplify(b.t); pw(c, e); vc.ghost["pows"].append(e)
                return SInt(PI(e)) if vc.fork(e >= 0) else V.SReal(P(e))
            return NotImplemented
        vc.hooks.update(fmod=fmod, pow=power, frexp=self.frexp, log=self.log)
    def strip(self, t):
        """an integer polynomial without residues and multiples of n (congruence modulo n is a ring congruence)"""
        if z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED) and t.decl().eq(MOD): return self.strip(t.arg(0))
        if not z3.is_int_value(self.n) and z3.eq(t, self.n): return z3.IntVal(0)
        if t.num_args() and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            return t.decl()(*[self.strip(x) for x in t.children()]) if t.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else (z3.Sum([self.strip(x) for x in t.children()]) if t.decl().kind() == z3.Z3_OP_ADD else z3.Product([self.strip(x) for x in t.children()]))
        return t
    def mod(self, x):
        t = z3.simplify(self.strip(x)); r = MOD(t)
        # the defining properties of the residue, for the numbers within one modulus of zero
        self.c.vc.fact(z3.And(r >= 0, r < self.n, z3.Implies(z3.And(t >= 0, t < self.n), r == t), z3.Implies(z3.And(t < 0, t >= -self.n), r == t + self.n)))
        return r
    def frexp(self, t, fr, e):
        self.c.vc.ghost["frexp"] = (t, e)
        return [z3.Implies(t != 0, z3.And(T(e - 1) <= z3.If(t >= 0, t, -t), z3.If(t >= 0, t, -t) < T(e))), z3.Implies(t == 0, e == 0), T(e - 1) > 0]
    def log(self, x, base):
        if base != 16: raise Unsupported("logarithm to another base")
        l = z3.Function("log16", R, R)(rv(x)); k = z3.ToInt(l)
        # 16**floor(log16 x) <= x < 16**(floor(log16 x) + 1)
        pw(self.c, k); pw(self.c, z3.simplify(-k)); padd(self.c, k, z3.IntVal(1))
        self.c.vc.fact(z3.And(P(k) <= rv(x), rv(x) < P(z3.simplify(k + 1)), P(z3.IntVal(1)) == 16))
        self.c.vc.ghost["logk"] = k
        return V.SReal(l)
    def number(self, name):
        """an encoded number; (object, signed mantissa, exponent)"""
        m, e = TInt.new(name + "_mantissa").t, TInt.new(name + "_exponent")
        self.c.require(m <= self.M, m >= -self.M)
        o = self.F(SInt(self.mod(m)), e, self.nv, self.Mv); self.c.vc.obj_birth(o)
        pw(self.c, e.t)
        return o, m, e.t
    def cen(self, r):
        e = iv(r.encoding); return z3.If(e <= self.M, e, e - self.n)
    def valid(self, r, what=""):
        c = self.c
        c.prove(what + "same modulus and range", z3.And(isinstance(r, self.F), iv(r.n) == self.n, iv(r.max_int) == self.M))
        c.prove(what + "the encoding is a residue", z3.And(iv(r.encoding) >= 0, iv(r.encoding) < self.n))
def vabs(t): return z3.If(t >= 0, t, -t)

def scaled(c, s, m, e):
    """m is s * 16**e rounded, so m * 16**-e is s up to half a unit"""
    r_, s_, p, q = z3.Reals("r_ s_ p_ q_")
    lemma_at(c, "half a unit", [r_, s_, p, q], [r_ - s_ * p <= z3.RealVal("1/2"), r_ - s_ * p >= -z3.RealVal("1/2"), p * q == 1, q > 0], z3.And(r_ * q - s_ <= q / 2, r_ * q - s_ >= -q / 2), (z3.ToReal(m), s, P(e), P(z3.simplify(-e))))

def encode_contract(default, kind):
    @contract(F_ + ".encode", "C04", name="encode and decode, %s, %s modulus" % (kind, "default" if default else "given"))
    def _(c):
        X = Fx(c, default); F = X.F
        s = (TInt if kind == "integers" else TReal).new("scalar"); sr = rv(s)
        kw = {}
        prec, mex = c.vc.choose(2), c.vc.choose(2)
        if prec: kw["precision"] = TReal.new("precision"); c.require(rv(kw["precision"]) > 0)
        if mex: kw["max_exponent"] = TInt.new("max_exponent")
        r, x = c.call(F.encode, s, *X.args, **kw)
        pows = c.vc.ghost["pows"]
        if x is not None:
            # refused
            c.prove("a number is refused for its size only", type(x) is ValueError)
            if kind == "integers" and not kw: c.prove("an integer is refused exactly when it is out of range", vabs(iv(s)) > X.M); return
            e = pows[-1] if pows else z3.IntVal(0); pw(c, e)
            c.prove("a number that fits is encoded", vabs(sr) * P(e) >= z3.ToReal(X.M) - z3.RealVal("1/2"))
            return
        e = iv(r.exponent); X.valid(r)
        m = X.cen(r)
        c.prove("the signed mantissa is in range", z3.And(m <= X.M, m >= -X.M))
        pw(c, e); pw(c, z3.simplify(-e)); scaled(c, sr, m, e)
        tiny = vabs(sr) < z3.RealVal("1/%d" % 10 ** 200)
        one = P(e) * sr
        c.prove("the mantissa is the number scaled and rounded", z3.Or(tiny, z3.And(z3.ToReal(m) - sr * P(e) <= z3.RealVal("1/2"), z3.ToReal(m) - sr * P(e) >= -z3.RealVal("1/2"))))
        c.prove("a number next to zero is zero", z3.Implies(tiny, m == 0))
        d = rv(c.ok(r.decode)); q = P(z3.simplify(-e))
        c.prove("decoding gives the mantissa scaled back", d == z3.ToReal(m) * q)
        c.prove("decoding returns the number within half a unit of the exponent", z3.Or(tiny, z3.And(d - sr <= q / 2, d - sr >= -q / 2)))
        if kind == "integers" and not kw: c.prove("integers come back as they were", z3.And(e == 0, d == sr))
        if prec and "logk" in c.vc.ghost:
            k = c.vc.ghost["logk"]; c.vc.fact(z3.Implies(-e <= k, q <= P(k)))      # powers are monotonic
        if prec: c.prove("the stated precision is honoured", q <= rv(kw["precision"]))
        if mex: c.prove("the stated exponent is reached", e >= iv(kw["max_exponent"]))
        if kind == "reals" and not kw and "frexp" in c.vc.ghost:
            t, fe = c.vc.ghost["frexp"]
            # 2**(fe-1) <= |x|; 16**-e = 2**(-4e); powers of two are monotonic and 2**(a+b) = 2**a * 2**b
            c.vc.fact(z3.And(q == T(-4 * e), z3.Implies(-4 * e <= fe - 50, T(-4 * e) <= T(fe - 50)), T(fe - 50) * 2 ** 49 == T(fe - 1)))
            c.prove("a real is encoded with the relative precision of a double", z3.Implies(t != 0, q * 2 ** 49 <= vabs(t)))
        c.prove("two encodings of a number agree", X.cen(r) == m)
for d in (False, True):
    for k in ("integers", "reals"): encode_contract(d, k)

@contract(F_ + ".decode", "C04")
def _(c):
    X = Fx(c); e, x = TInt.new("encoding"), TInt.new("exponent"); c.require(e.t >= 0)
    o = X.F(e, x, X.nv, X.Mv); pw(c, x.t); pw(c, z3.simplify(-x.t))
    d, ex = c.call(o.decode)
    pos, neg = e.t <= X.M, z3.And(e.t >= X.n - X.M, e.t < X.n)
    if ex is not None:
        c.prove("only residues outside both ranges are refused", z3.Not(z3.Or(pos, neg)))
        c.prove("refused as corrupted or as overflow", type(ex) in (ValueError, OverflowError))
        return
    c.prove("residues outside both ranges are refused", z3.Or(pos, neg))
    c.prove("the positive range", z3.Implies(pos, rv(d) == z3.ToReal(e.t) * P(z3.simplify(-x.t))))
    c.prove("the negative range", z3.Implies(z3.Not(pos), rv(d) == z3.ToReal(e.t - X.n) * P(z3.simplify(-x.t))))
    c.prove("the number is left alone", z3.And(iv(o.encoding) == e.t, iv(o.exponent) == x.t))

def rescale(c, m, e, f, name="rescaling"):
    """m * 16**-e = (m * 16**(f-e)) * 16**-f"""
    padd(c, z3.simplify(f - e), z3.simplify(-f)); pw(c, f); pw(c, e)
    return P(z3.simplify(-e)) == P(z3.simplify(f - e)) * P(z3.simplify(-f))

@contract(F_ + ".increase_exponent_to", ["C04", "C05"])
def _(c):
    X = Fx(c); o, m, e = X.number("x"); f = TInt.new("new_exponent")
    d = z3.simplify(f.t - e); pw(c, d)
    r, x = c.call(o.increase_exponent_to, f)
    if x is not None:
        c.prove("a coarser exponent is refused", z3.And(type(x) is ValueError, f.t < e)); return
    c.prove("only a finer exponent is accepted", f.t >= e)
    X.valid(r); c.prove("the exponent asked for", iv(r.exponent) == f.t)
    fits = z3.And(m * PI(d) <= X.M, m * PI(d) >= -X.M)
    c.prove("the mantissa is scaled", z3.Implies(fits, X.cen(r) == m * PI(d)))
    rescale(c, m, e, f.t)
    v, w = z3.ToReal(m) * P(z3.simplify(-e)), z3.ToReal(X.cen(r)) * P(z3.simplify(-f.t))
    a, b, p, q, s = z3.Reals("a_ b_ p_ q_ s_")
    lemma_at(c, "rescaled value", [a, p, q, s], [s == p * q], a * s == (a * p) * q, (z3.ToReal(m), P(d), P(z3.simplify(-f.t)), P(z3.simplify(-e))))
    c.prove("the value stays the same", z3.Implies(fits, w == v))
    c.prove("the number is left alone", z3.And(iv(o.exponent) == e, iv(o.encoding) == X.mod(m)))

# ---- C05: arithmetic --------------------------------------------------------------------------------------------
def align(c, X, m1, e1, m2, e2):
    """(exact sum of the aligned mantissas as a function of the signs, finer exponent)"""
    f = z3.If(e1 >= e2, e1, e2)
    d1, d2 = z3.simplify(e2 - e1), z3.simplify(e1 - e2)
    pw(c, d1); pw(c, d2)
    a1 = z3.If(e1 >= e2, m1, m1 * PI(d1)); a2 = z3.If(e1 >= e2, m2 * PI(d2), m2)
    # the values agree: m1 * 16**-e1 = a1 * 16**-f
    padd(c, d1, z3.simplify(-e2)); padd(c, d2, z3.simplify(-e1))
    return a1, a2, f

def op_contract(name, f, sign):
    @contract(F_ + "." + name, "C05")
    def _(c):
        X = Fx(c); a, m1, e1 = X.number("a"); b, m2, e2 = X.number("b")
        a1, a2, e = align(c, X, m1, e1, m2, e2)
        s = a1 + a2 if sign > 0 else a1 - a2
        fits = z3.And(s <= X.M, s >= -X.M)
        r = c.ok(f, a, b)
        X.valid(r); c.prove("the finer exponent", iv(r.exponent) == e)
        c.prove("in range, the exact result of the aligned mantissas", z3.Implies(fits, X.cen(r) == s))
        v1, v2 = z3.ToReal(m1) * P(z3.simplify(-e1)), z3.ToReal(m2) * P(z3.simplify(-e2))
        q1, q2 = P(z3.simplify(-e1)), P(z3.simplify(-e2))
        x, y, p, q, u = z3.Reals("x_ y_ p_ q_ u_")
        for (ma, mb, d, qa, qb) in ((z3.ToReal(m1), z3.ToReal(m2), P(z3.simplify(e2 - e1)), q1, q2), (z3.ToReal(m2), z3.ToReal(m1), P(z3.simplify(e1 - e2)), q2, q1)):
            lemma_at(c, "aligning keeps the value", [x, y, p, q, u], [u == p * q], z3.And(x * u == (x * p) * q, (x * p + y) * q == x * u + y * q, (x * p - y) * q == x * u - y * q), (ma, mb, d, qb, qa))
        got = z3.ToReal(X.cen(r)) * P(z3.simplify(-iv(r.exponent)))
        pw(c, iv(r.exponent))
        c.prove("in range, the exact result", z3.Implies(fits, got == (v1 + v2 if sign > 0 else v1 - v2)))
        c.prove("the operands are left alone", z3.And(iv(a.exponent) == e1, iv(b.exponent) == e2, iv(a.encoding) == X.mod(m1), iv(b.encoding) == X.mod(m2)))
op_contract("__add__", lambda a, b: a + b, 1)
op_contract("__sub__", lambda a, b: a - b, -1)

def enc_stub(vc, orig, cls, scalar, n=None, max_int=None, precision=None, max_exponent=None):
    """contract of encode (above), at its call sites"""
    return vc.ghost["enc"](scalar, n, max_int, precision, max_exponent)
TINY = z3.RealVal("1/%d" % 10 ** 200)
class Encoder:
    """contract of encode; remembers what was encoded"""
    def __init__(self, c, X, calls=None):
        self.calls = calls if calls is not None else []; self.refused = []
        def enc(s, n, M, precision, mex):
            if n is None: c.prove("re-encoding in the number's modulus", False); raise PathEnd()
            c.prove("a plain number is encoded in the number's modulus and range", z3.And(iv(n) == X.n, M is not None and iv(M) == X.M))
            x = rv(s); e = TInt.new("enc_exponent").t; m = TInt.new("enc_mantissa").t; pw(c, e); q = P(z3.simplify(-e)); pw(c, z3.simplify(-e))
            fit = z3.And(m <= X.M, m >= -X.M)
            if isinstance(s, (V.SInt, int)) and not isinstance(s, bool) and precision is None and mex is None: c.vc.fact(z3.And(e == 0, m == iv(s)))
            if not c.vc.fork(fit): self.refused.append(x); raise ValueError("Integer needs to be within range")
            c.vc.fact(z3.Or(z3.And(vabs(x) < TINY, m == 0), z3.And(z3.ToReal(m) * q - x <= q / 2, z3.ToReal(m) * q - x >= -q / 2)))
            r = X.F(SInt(X.mod(m)), SInt(e), X.nv, X.Mv); c.vc.obj_birth(r)
            self.calls.append((x, m, e, r)); return r
        c.vc.ghost["enc"] = enc
    def last(self): return self.calls[-1]
ENC = {F_ + ".encode": enc_stub}
def kinds(c): return (TInt if c.vc.choose(2) else TReal).new("plain")
def value(m, e): return z3.ToReal(m) * P(z3.simplify(-e))
def half(c, name, got, want, e):
    q = P(z3.simplify(-e)); pw(c, e)
    c.prove(name, z3.Or(z3.And(vabs(want) < TINY, got == 0), z3.And(got - want <= q / 2, got - want >= -q / 2)))

def aligned_values(c, m1, e1, m2, e2):
    q1, q2 = P(z3.simplify(-e1)), P(z3.simplify(-e2)); x, y, p, q, u = z3.Reals("x_ y_ p_ q_ u_")
    for (ma, mb, d, qa, qb) in ((z3.ToReal(m1), z3.ToReal(m2), P(z3.simplify(e2 - e1)), q1, q2), (z3.ToReal(m2), z3.ToReal(m1), P(z3.simplify(e1 - e2)), q2, q1)):
        lemma_at(c, "aligning keeps the value", [x, y, p, q, u], [u == p * q], z3.And(x * u == (x * p) * q, (x * p + y) * q == x * u + y * q, (x * p - y) * q == x * u - y * q), (ma, mb, d, qb, qa))

def scalar_sum(name, f, sign, right=False):
    @contract(F_ + "." + name, "C05", name=F_ + "." + name + " with a plain number", stubs=ENC)
    def _(c):
        X = Fx(c); a, m1, e1 = X.number("a"); E = Encoder(c, X); s = kinds(c)
        r, x = c.call(f, a, s)
        if x is not None: c.prove("refused only because the plain number does not fit", type(x) is ValueError and not E.calls); return
        c.prove("the plain number is encoded", len(E.calls) == 1)
        w, m2, e2, _ = E.last()
        # the plain number may have been encoded with either sign
        c.prove("the number encoded is the plain number", z3.Or(w == rv(s), w == -rv(s)))
        neg = c.vc.implied(w == -rv(s)) and not c.vc.implied(w == rv(s))
        a1, a2, e = align(c, X, m1, e1, m2, e2)
        t2 = a2 if (sign > 0) != neg else -a2
        t = a1 + t2; fits = z3.And(t <= X.M, t >= -X.M)
        X.valid(r); c.prove("the finer exponent", iv(r.exponent) == e)
        c.prove("in range, the exact result of the aligned mantissas", z3.Implies(fits, X.cen(r) == t))
        aligned_values(c, m1, e1, m2, e2)
        v2 = -value(m2, e2) if neg else value(m2, e2)
        c.prove("in range, the exact result with the value encoded", z3.Implies(fits, value(X.cen(r), iv(r.exponent)) == (value(m1, e1) + v2 if sign > 0 else value(m1, e1) - v2)))
        half(c, "the value encoded is the plain number up to half a unit", v2, rv(s), e2)
        c.prove("the operand is left alone", z3.And(iv(a.exponent) == e1, iv(a.encoding) == X.mod(m1)))
scalar_sum("__add__", lambda a, s: a + s, 1); scalar_sum("__radd__", lambda a, s: s + a, 1); scalar_sum("__sub__", lambda a, s: a - s, -1)

@contract(F_ + ".__rsub__", "C05", stubs=ENC)
def _(c):
    X = Fx(c); a, m1, e1 = X.number("a"); E = Encoder(c, X); s = kinds(c)
    # one step under its contract: the difference with the plain number
    r, x = c.call(lambda a, s: s - a, a, s)
    if not E.calls: c.prove("refused only because the plain number does not fit", type(x) is ValueError); return
    w, m2, e2, _ = E.calls[0]; neg = c.vc.implied(w == -rv(s)) and not c.vc.implied(w == rv(s))
    v2 = -value(m2, e2) if neg else value(m2, e2)
    a1, a2, e = align(c, X, m1, e1, m2, e2)
    t = a1 + a2 if neg else a1 - a2; fits = z3.And(t <= X.M, t >= -X.M)
    aligned_values(c, m1, e1, m2, e2)
    if x is not None:
        c.prove("in range, refused only because the result does not fit when it is encoded again", z3.Implies(fits, type(x) is ValueError)); return
    X.valid(r)
    half(c, "the value encoded is the plain number up to half a unit", v2, rv(s), e2)
    if len(E.calls) == 1:
        c.prove("in range, the exact result", z3.Implies(fits, value(X.cen(r), iv(r.exponent)) == v2 - value(m1, e1))); return
    w2, m3, e3, r3 = E.calls[-1]
    c.prove("the result is what was encoded again", r is r3)
    got = value(m3, e3); want = v2 - value(m1, e1); q = P(z3.simplify(-e3)); pw(c, z3.simplify(-e3))
    c.prove("what is encoded again is the difference", z3.Implies(fits, w2 == want))
    c.prove("in range, the result up to the rounding of one encoding", z3.Implies(fits, z3.Or(vabs(want) < TINY, z3.And(got - want <= q / 2, got - want >= -q / 2))))

def product(name, f, plain):
    @contract(F_ + "." + name, "C05", name=F_ + "." + name + (" with a plain number" if plain else ""), stubs=ENC)
    def _(c):
        X = Fx(c); a, m1, e1 = X.number("a"); E = Encoder(c, X)
        if plain: s = kinds(c); b = s
        else: b, m2, e2 = X.number("b")
        r, x = c.call(f, a, b)
        if plain:
            if not E.calls: c.prove("refused only because the plain number does not fit", type(x) is ValueError); return
            w, m2, e2, _ = E.calls[0]
            c.prove("the number encoded is the plain number", w == rv(s))
        fits = z3.And(m1 * m2 <= X.M, m1 * m2 >= -X.M)
        if x is not None:
            c.prove("in range, refused only because the product does not fit when it is encoded again", z3.Implies(fits, type(x) is ValueError)); return
        X.valid(r)
        c.vc.fact(P(z3.simplify(-(e1 + e2))) == P(z3.simplify(-e1)) * P(z3.simplify(-e2)))
        for e in (e1, e2, z3.simplify(e1 + e2)): pw(c, e)
        y1, y2, p, q, u, z = z3.Reals("y1_ y2_ p_ q_ u_ z_")
        lemma_at(c, "product of values", [y1, y2, p, q, u], [u == p * q], (y1 * y2) * u == (y1 * p) * (y2 * q), (z3.ToReal(m1), z3.ToReal(m2), P(z3.simplify(-e1)), P(z3.simplify(-e2)), P(z3.simplify(-(e1 + e2)))))
        c.vc.fact(z3.ToReal(m1 * m2) == z3.ToReal(m1) * z3.ToReal(m2))
        want = value(m1, e1) * value(m2, e2)
        if len(E.calls) == (1 if plain else 0):
            c.prove("in range, the exact product", z3.Implies(fits, value(X.cen(r), iv(r.exponent)) == want)); return
        w, m3, e3, r3 = E.last()
        c.prove("the result is what was encoded again", r is r3)
        c.prove("what is encoded again is the product", z3.Implies(fits, w == want))
        got = value(m3, e3); h = P(z3.simplify(-e3))
        c.prove("in range, the product up to the rounding of one encoding", z3.Implies(fits, z3.Or(vabs(want) < TINY, z3.And(got - want <= h / 2, got - want >= -h / 2))))
        c.prove("the operands are left alone", z3.And(iv(a.exponent) == e1, iv(a.encoding) == X.mod(m1)))
product("__mul__", lambda a, b: a * b, False); product("__mul__", lambda a, b: a * b, True); product("__rmul__", lambda a, b: b * a, True)

import operator as _op
for _n, _f in (("__lt__", _op.lt), ("__le__", _op.le), ("__gt__", _op.gt), ("__ge__", _op.ge), ("__eq__", _op.eq), ("__ne__", _op.ne)):
    def mk(nm, f):
        @contract(F_ + "." + nm, "C05")
        def _(c):
            X = Fx(c); a, m1, e1 = X.number("a"); other = c.vc.choose(2)
            if other: b, m2, e2 = X.number("b"); y = value(m2, e2)
            else: b = kinds(c); y = rv(b)
            r = c.ok(lambda u, v: getattr(type(u), nm)(u, v), a, b)
            for e in (e1,) + ((e2,) if other else ()): pw(c, e); pw(c, z3.simplify(-e))
            x = value(m1, e1)
            want = {"__lt__": x < y, "__le__": x <= y, "__gt__": x > y, "__ge__": x >= y, "__eq__": x == y, "__ne__": x != y}[nm]
            got = z3.BoolVal(r) if isinstance(r, bool) else TBool.unwrap(r)
            c.prove("the answer is that of the numbers decoded", got == want)
    mk(_n, _f)
