"""C08: the affine cipher. A ciphertext with multiplier k of the encoded number x is congruent to a x + k b modulo n."""
import types as _types
from .common import *
from .split import iv, rv
from .paillier import Poly, _remove, MOD
from pyvc import facades as Fa
AK, AC, AE, AP, GM = "ml.secureprotol.affine:AffineCipherKey", "ml.secureprotol.affine:AffineCiphertext", "ml.secureprotol.affine_encoder:AffineEncoder", "ml.secureprotol.affine:AffineCipher", "ml.secureprotol.gmpy_math:"

class Aff:
    """an arbitrary affine key (a prime to n), numbers modulo n in normal form: a * a_inverse = 1"""
    def __init__(self, c, build=True):
        self.c, vc = c, c.vc
        self.a, self.b, self.nv, self.mult = TInt.new("a"), TInt.new("b"), TInt.new("n"), TInt.new("precision")
        self.n = self.nv.t; c.require(self.n >= 2, self.mult.t >= 1, self.a.t >= 0, self.b.t >= 0)
        for x in (self.a.t, self.b.t, self.n): Poly.of(x)
        self.rules = []; vc.ghost["key"] = self; vc.hooks["fmod"] = self.fmod
        self.refuse = False
        if build: self.key = c.ok(lambda: c.get(AK)(self.a, self.b, self.nv, self.mult)); vc.obj_birth(self.key)
    def invert(self, a, m):
        self.c.prove("the inverse of a modulo n", z3.And(iv(a) == self.a.t, iv(m) == self.n))
        if self.refuse: raise ZeroDivisionError("invert(a, b) no inverse exists")
        x = TInt.new("a_inverse"); Poly.of(x.t); self.c.vc.fact(z3.And(x.t > 0, x.t < self.n))
        self.rules.append((tuple(sorted((self.a.t.get_id(), x.t.get_id()))), 1)); return x
    def canon(self, t):
        todo = Poly(t) if isinstance(t, Poly) else Poly.of(t); out = Poly(); steps = 0
        while todo:
            steps += 1
            if steps > 4000: raise Unsupported("residue normal form")
            m, cf = todo.popitem(); r = self.reduce(m)
            if r is None: out[m] = out.get(m, 0) + cf; (out.pop(m) if not out[m] else None)
            else: todo = Poly.sum([todo, r.scale(cf)])
        return out
    def reduce(self, m):
        if self.n.get_id() in m: return Poly()
        for i in m:
            a = Poly.atoms[i]
            if z3.is_app(a) and a.num_args() == 1 and a.decl().eq(MOD): return Poly({_remove(m, (i,)): 1}).mul(Poly.of(a.arg(0)))
        for mono, v in self.rules:
            rest = _remove(m, mono)
            if rest is not None: return Poly({rest: v})
    def mod(self, x):
        t = self.canon(x).term(); r = MOD(t)
        self.c.vc.fact(z3.And(r >= 0, r < self.n, z3.Implies(z3.And(t >= 0, t < self.n), r == t), z3.Implies(z3.And(t < 0, t >= -self.n), r == t + self.n)))
        return r
    def fmod(self, x, y):
        if z3.eq(z3.simplify(y), self.n) or (not z3.is_int_value(y) and self.c.vc.implied(y == self.n)): return self.mod(x)
        return None
    def cipher(self, name):
        """an arbitrary ciphertext: (object, encoded number, multiplier)"""
        x, k, t = TInt.new(name + "_number"), TInt.new(name + "_multiplier"), TInt.new(name + "_turns")
        o = self.c.get(AC)(SInt(self.a.t * x.t + k.t * self.b.t + self.n * t.t), k); self.c.vc.obj_birth(o)
        return o, x.t, k.t
    def holds(self, o, x, k, what="the result"):
        self.c.prove(what + " is a ciphertext", isinstance(o, self.c.get(AC)))
        self.c.prove(what + " counts the additions of b", iv(o.multiplier) == k)
        self.c.prove(what + " is the ciphertext of the exact result", self.canon(iv(o.cipher)) == self.canon(self.a.t * x + iv(o.multiplier) * self.b.t))
    def fits(self, x): return z3.And(10 * x > -self.n, 10 * x <= 9 * self.n, x < self.n)
HELP = {GM + "invert": lambda vc, orig, a, m: vc.ghost["key"].invert(a, m)}

@contract(AK + ".__init__", "C08", stubs=HELP)
def _(c):
    X = Aff(c, build=False); X.refuse = c.vc.choose(2)
    r, x = c.call(lambda: c.get(AK)(X.a, X.b, X.nv, X.mult))
    if X.refuse: c.prove("a key without an inverse is refused", type(x) is ZeroDivisionError); return
    c.prove("a key with an inverse is accepted", x is None)
    c.prove("the key keeps its numbers", z3.And(iv(r.a) == X.a.t, iv(r.b) == X.b.t, iv(r.n) == X.n))

def trunc(r): return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))

@contract(AE + ".encode", "C08")
def _(c):
    m, t = TInt.new("mult"), TReal.new("trans"); c.require(m.t >= 1)
    E = c.get(AE)(m, t); v = (TInt if c.vc.choose(2) else TReal).new("v")
    r = iv(c.ok(E.encode, v)); w = z3.ToReal(m.t) * (rv(v) + rv(t))
    c.prove("within one unit of the scaled number", z3.And(z3.ToReal(r) - w < 1, z3.ToReal(r) - w > -1))
    c.prove("the encoding does not exceed the scaled number", z3.And(z3.Implies(w >= 0, z3.And(r >= 0, z3.ToReal(r) <= w)), z3.Implies(w <= 0, z3.And(r <= 0, z3.ToReal(r) >= w))))
    d = rv(c.ok(E.decode, SInt(r)))
    c.prove("decoding returns the number within one unit", z3.And((d - rv(v)) * z3.ToReal(m.t) < 1, (d - rv(v)) * z3.ToReal(m.t) > -1))

@contract(AE + ".decode", "C08")
def _(c):
    m, t, x, k = TInt.new("mult"), TReal.new("trans"), TInt.new("x"), TInt.new("k"); c.require(m.t >= 1)
    E = c.get(AE)(m, t)
    d = rv(c.ok(E.decode, x, k)); c.prove("scaled back, the translations taken off", (d + z3.ToReal(k.t) * rv(t)) * z3.ToReal(m.t) == z3.ToReal(x.t))

@contract(AK + ".raw_encrypt", "C08", stubs=HELP)
def _(c):
    X = Aff(c); x = TInt.new("x"); o = c.ok(X.key.raw_encrypt, x)
    X.holds(o, x.t, z3.IntVal(1))

@contract(AK + ".raw_decrypt", "C08", stubs=HELP)
def _(c):
    X = Aff(c); o, x, k = X.cipher("a"); r = iv(c.ok(X.key.raw_decrypt, o))
    c.prove("in range, the encoded number", z3.Implies(X.fits(x), r == x))
    c.prove("the ciphertext is left alone", z3.And(iv(o.multiplier) == k, X.canon(iv(o.cipher)) == X.canon(X.a.t * x + k * X.b.t)))

@contract(AK + ".decrypt", "C08", name="encrypt and decrypt", stubs=HELP)
def _(c):
    X = Aff(c); v = (TInt if c.vc.choose(2) else TReal).new("v"); m = z3.ToReal(X.mult.t)
    o = c.ok(X.key.encrypt, v); w = m * rv(v); x = trunc(w)
    fit = X.fits(x)
    d = rv(c.ok(X.key.decrypt, o))
    c.prove("decryption returns the number up to the precision", z3.Implies(fit, z3.And((d - rv(v)) * m < 1, (d - rv(v)) * m > -1)))
    c.prove("a number the precision can express comes back as it was", z3.Implies(z3.And(fit, z3.IsInt(w)), d == rv(v)))

@contract(AK + ".decrypt", "C08", stubs=HELP)
def _(c):
    X = Aff(c); o, x, k = X.cipher("a"); d = rv(c.ok(X.key.decrypt, o))
    c.prove("in range, the encoded number scaled back", z3.Implies(X.fits(x), d * z3.ToReal(X.mult.t) == z3.ToReal(x)))

def op(name, f, want, ks, plain=False):
    @contract(AC + "." + name, "C08", stubs=HELP)
    def _(c):
        X = Aff(c); a, x, k = X.cipher("a")
        if plain: b = TInt.new("scalar"); y, l = b.t, None
        else: b, y, l = X.cipher("b")
        r = c.ok(f, a, b)
        X.holds(r, want(x, y), ks(k, y if plain else l))
        X.holds(a, x, k, "the operand")
        d = rv(c.ok(X.key.decrypt, r)); w = want(x, y)
        c.prove("in range, the result decrypts to the exact result", z3.Implies(X.fits(w), d * z3.ToReal(X.mult.t) == z3.ToReal(w)))
op("__add__", lambda a, b: a + b, lambda x, y: x + y, lambda k, l: k + l)
op("__sub__", lambda a, b: a - b, lambda x, y: x - y, lambda k, l: k - l)
op("__mul__", lambda a, b: a * b, lambda x, y: x * y, lambda k, l: k * l, True)
op("__rmul__", lambda a, b: b * a, lambda x, y: x * y, lambda k, l: k * l, True)

@contract(AC + ".__radd__", "C08", name="sums start from zero; other numbers are refused", stubs=HELP)
def _(c):
    X = Aff(c); a, x, k = X.cipher("a")
    for f, s in ((lambda: 0 + a, 1), (lambda: a + 0, 1), (lambda: a - 0, 1), (lambda: 0 - a, -1)):
        X.holds(c.ok(f), s * x, s * k)
    n = TInt.new("number"); c.require(n.t != 0)
    for f in (lambda: a + n, lambda: n + a, lambda: a + TReal.new("r"), lambda: a * TReal.new("r"), lambda: a * a, lambda: a + "x"):
        r, e = c.call(f); c.prove("other operands are refused", type(e) is TypeError)

@contract(AP + ".generate_keypair", "C08", stubs=HELP, facades={"math": lambda w: _math(w), "random": lambda w: _types.SimpleNamespace(SystemRandom=Rand)})
def _(c):
    X = Aff(c, build=False); G = z3.Function("gcd", z3.IntSort(), z3.IntSort(), z3.IntSort())
    seen = []
    def gcd(a, b): return SInt(G(iv(a), iv(b)))
    c.vc.hooks["gcd"] = gcd
    def inv(a, m):
        seen.append((iv(a), iv(m))); x = TInt.new("a_inverse"); return x
    X.invert = inv
    bits, prec = TInt.new("key_size"), TInt.new("precision"); c.require(bits.t >= 16, prec.t >= 1)
    k = c.ok(c.get(AP).generate_keypair, bits, prec)
    a, n = iv(k.a), iv(k.n)
    c.prove("a is prime to n", z3.Or(G(n, a) == 1, G(a, n) == 1))
    c.prove("the precision asked for", iv(k.affine_encoder.mult) == prec.t)
class Rand:
    def getrandbits(self, n): r = TInt.new("bits"); VC.cur.fact(r.t >= 0); return r
    def random(self): r = TReal.new("ratio"); VC.cur.fact(z3.And(r.t >= 0, r.t < 1)); return r
def _math(w):
    m = Fa.math_facade(w); m.gcd = lambda a, b: VC.cur.hooks["gcd"](a, b); return m

@contract("ml.secureprotol.encrypt:AffineEncrypt.encrypt", "C08", name="AffineEncrypt")
def _(c):
    class K:
        def encrypt(s, v): return ("enc", s, v)
        def decrypt(s, v): return ("dec", s, v)
    E = c.get("ml.secureprotol.encrypt:AffineEncrypt")(); v, w = TReal.new("v"), TReal.new("w")
    c.prove("without a key nothing is encrypted or decrypted", E.encrypt(v) is None and E.decrypt(v) is None)
    E.key = K(); r, d = E.encrypt(v), E.decrypt(w)
    c.prove("encryption is that of the key", r[0] == "enc" and r[1] is E.key and r[2] is v and d[0] == "dec" and d[1] is E.key and d[2] is w)
