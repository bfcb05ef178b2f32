"""C06, C07: the Paillier cryptosystem.

A ciphertext of m is c = (1 + n m) r**n mod n**2 with r prime to n. The facts about ciphertexts used here (products, powers,
inverses, re-randomising, the two halves of decryption) are proved in lemmas/c06_paillier.lean; residues are kept in a normal
form (ring congruences modulo n, p, q with the known inverses)."""
import types as _types
from .common import *
from .fixed import *
from .fixed import MOD, I, R
PK, SK, EN, KP, GM = ["ml.secureprotol." + x for x in ("fate_paillier:PaillierPublicKey", "fate_paillier:PaillierPrivateKey", "fate_paillier:PaillierEncryptedNumber", "fate_paillier:PaillierKeypair", "gmpy_math:")]
MODF = {"n": MOD, "p": z3.Function("residue_p", I, I), "q": z3.Function("residue_q", I, I)}
R2 = z3.Function("residue_n2", I, I); POWMOD = z3.Function("powmod", I, I, I, I)
PRIME = z3.Function("prime", I, z3.BoolSort())

class Poly(dict):
    """integer polynomial over atoms: {sorted tuple of atom ids: coefficient}"""
    atoms = {}
    @classmethod
    def of(cls, t):
        if isinstance(t, int): return cls({(): t} if t else {})
        if z3.is_int_value(t): return cls.of(t.as_long())
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD: return cls.sum([cls.of(x) for x in t.children()])
        if k == z3.Z3_OP_SUB:
            a, *b = [cls.of(x) for x in t.children()]
            return cls.sum([a] + [x.scale(-1) for x in b])
        if k == z3.Z3_OP_UMINUS: return cls.of(t.arg(0)).scale(-1)
        if k == z3.Z3_OP_MUL:
            r = cls.of(1)
            for x in t.children(): r = r.mul(cls.of(x))
            return r
        if k == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)) and 0 <= t.arg(1).as_long() < 9:
            r = cls.of(1)
            for _ in range(t.arg(1).as_long()): r = r.mul(cls.of(t.arg(0)))
            return r
        cls.atoms[t.get_id()] = t
        return cls({(t.get_id(),): 1})
    @classmethod
    def sum(cls, ps):
        r = cls()
        for p in ps:
            for m, c in p.items():
                r[m] = r.get(m, 0) + c
                if not r[m]: del r[m]
        return r
    def scale(self, k): return Poly({m: c * k for m, c in self.items()}) if k else Poly()
    def mul(self, o):
        r = Poly()
        for m, c in self.items():
            for n, d in o.items():
                k = tuple(sorted(m + n)); r[k] = r.get(k, 0) + c * d
                if not r[k]: del r[k]
        return r
    def minus(self, o): return Poly.sum([self, o.scale(-1)])
    def ids(self): return {i for m in self for i in m}
    def term(self):
        ts = []
        for m in sorted(self, key=lambda m: (len(m), [str(Poly.atoms[i]) for i in m])):
            c = self[m]; fs = [Poly.atoms[i] for i in m]
            ts.append(z3.IntVal(c) if not fs else (z3.Product(fs) if c == 1 else z3.Product([z3.IntVal(c)] + fs)) if len(fs) > 1 or c != 1 else fs[0])
        return z3.IntVal(0) if not ts else z3.Sum(ts) if len(ts) > 1 else ts[0]
def _remove(m, sub):
    """the monomial m without sub, or None"""
    m = list(m)
    for x in sub:
        if x not in m: return None
        m.remove(x)
    return tuple(m)

class Key(Fx):
    """a public key, and the private key when its primes are given"""
    def __init__(self, c, secret=True, name=""):
        self.c, vc = c, c.vc
        self.F = c.get(F_)
        n = TInt.new("n" + name); self.nv = n; self.n = n.t; c.require(self.n >= 6)
        self.M = self.n / 3 - 1; self.args = ()
        self.rules = {"n": [], "p": [], "q": []}; self.reg = {}; self.coprime = set(); self.keep = []
        self.ps = None
        if secret:
            p, q = TInt.new("p"), TInt.new("q"); self.ps = (p, q)
            c.require(p.t >= 2, q.t >= 2, p.t != q.t, p.t * q.t == self.n, PRIME(p.t), PRIME(q.t))
            Poly.of(p.t); Poly.of(q.t); self.pid, self.qid = p.t.get_id(), q.t.get_id()
        Poly.of(self.n); self.nid = self.n.get_id()
        vc.ghost["pows"] = []; vc.ghost["key"] = self
        def power(a, b):
            if a == 16 and not isinstance(a, Sym) and isinstance(b, V.SInt):
                e = z3.simplify(b.t); pw(c, e); vc.ghost["pows"].append(e)
                return SInt(PI(e)) if vc.fork(e >= 0) else V.SReal(P(e))
            return NotImplemented
        vc.hooks.update(pow=power, fmod=self.fmod, fdiv=self.fdiv, frexp=self.frexp, log=self.log, powmod=self.powmod)
        self.pub = c.get(PK)(n); vc.obj_birth(self.pub)
        self.Mv = self.pub.max_int
    # ---- residues
    def which(self, y):
        """the modulus meant by the term y: n, p, q, n2, p2, q2"""
        py = Poly.of(y); N = Poly.of(self.n)
        cands = [("n", N), ("n2", N.mul(N))]
        if self.ps:
            p, q = Poly.of(self.ps[0].t), Poly.of(self.ps[1].t); pq = p.mul(q)
            cands += [("p", p), ("q", q), ("p2", p.mul(p)), ("q2", q.mul(q)), ("n", pq), ("n2", pq.mul(pq)), ("n2", pq.mul(N))]
        for w, x in cands:
            if x == py: return w
        return None
    def canon(self, t, w):
        """normal form of t modulo w"""
        todo = Poly(t) if isinstance(t, Poly) else Poly.of(t); out = Poly(); steps = 0
        while todo:
            steps += 1
            if steps > 4000: raise Unsupported("residue normal form")
            m, c = todo.popitem()
            r = self.reduce(m, w)
            if r is None: out[m] = out.get(m, 0) + c; (out.pop(m) if not out[m] else None)
            else: todo = Poly.sum([todo, r.scale(c)])
        return out
    def reduce(self, m, w):
        """one step on a monomial: a polynomial, or None"""
        if w == "n":
            if self.nid in m: return Poly()
            if self.ps and self.pid in m and self.qid in m: return Poly()
        else:
            if self.nid in m: return Poly()                          # p | n
            if {"p": self.pid, "q": self.qid}[w] in m: return Poly()
        for i in m:
            a = Poly.atoms[i]
            if z3.is_app(a) and a.num_args() == 1 and (a.decl().eq(MODF[w]) or (w != "n" and a.decl().eq(MOD))):
                return Poly({_remove(m, (i,)): 1}).mul(Poly.of(a.arg(0)))
        for mono, val in self.rules[w]:
            rest = _remove(m, mono)
            if rest is not None: return Poly({rest: val})
        return None
    def residue(self, poly, w):
        if w == "n" and self.ps:
            # Chinese remainders: congruent modulo p and modulo q
            a, b = self.canon(poly, "p"), self.canon(poly, "q")
            if a == b: poly = a
        t = poly.term(); r = MODF[w](t); m = {"n": self.n, "p": self.ps and self.ps[0].t, "q": self.ps and self.ps[1].t}[w]
        self.c.vc.fact(z3.And(r >= 0, r < m, z3.Implies(z3.And(t >= 0, t < m), r == t), z3.Implies(z3.And(t < 0, t >= -m), r == t + m)))
        return r
    def mod(self, x): return self.residue(self.canon(x, "n"), "n")
    def resolve(self, y):
        w = self.which(y)
        if w is None:
            ms = [("n", self.n)] + ([("p", self.ps[0].t), ("q", self.ps[1].t)] if self.ps else [])
            for k, x in ms:
                if not z3.is_int_value(y) and self.c.vc.implied(y == x): return k
        return w
    def fmod(self, x, y):
        w = self.resolve(y)
        if w is None: return None
        if w in self.rules: return self.residue(self.canon(x, w), w)
        if w == "n2":
            m = self.plaintext(x); r = R2(Poly.of(x).term())
            self.c.vc.fact(z3.And(r >= 0, r < self.n * self.n))
            if m is not None: self.know(r, m)
            return r
        return None
    def fdiv(self, x, y):
        px, py = Poly.of(x), Poly.of(y)
        if len(py) == 1 and self.c.vc.implied(y > 0):
            (my, cy), = py.items(); out = Poly()
            for m, c in px.items():
                r = _remove(m, my)
                if r is None or c % cy: return None
                out[r] = c // cy
            return out.term()
        return None
    # ---- ciphertexts
    def know(self, t, m):
        t = z3.simplify(t); self.keep.append(t); Poly.of(t)
        self.reg[t.get_id()] = self.canon(m, "n")
    def cipher(self, name, m=None):
        """an arbitrary ciphertext of m"""
        cv = TInt.new(name); m = m if m is not None else TInt.new(name + "_plaintext").t
        self.c.require(cv.t > 0, cv.t < self.n * self.n); self.know(cv.t, m); return cv, m
    def plaintext(self, t):
        """what the integer t is a ciphertext of, modulo n**2 (None: not known to be one)"""
        p = t if isinstance(t, Poly) else Poly.of(t)
        if not p: return None
        total = Poly(); first = sorted(min(p, key=len))
        for i in set(first):
            if i in self.reg:
                while all(_remove(m, (i,)) is not None for m in p):
                    p = Poly({_remove(m, (i,)): c for m, c in p.items()}); total = Poly.sum([total, self.reg[i]])
        # 1 + n * rest
        if p.get((), 0) != 1: return None
        rest = Poly()
        for m, c in p.items():
            if not m: continue
            r = _remove(m, (self.nid,))
            if r is None: return None
            rest[r] = c
        return self.canon(Poly.sum([total, rest]), "n")
    def is_coprime(self, t):
        p = Poly.of(t); return (len(p) == 1 and all(abs(c) == 1 and m and all(i in self.coprime for i in m) for m, c in p.items())) or p == Poly.of(1)
    def powmod(self, a, b, m):
        """contract of gmpy_math.powmod"""
        ta, tb, tm = iv(a), iv(b), iv(m)
        w = self.which(tm) or self.resolve(tm); pb = Poly.of(tb)
        self.c.prove("powers have exponents of at least zero", tb >= 0)
        self.c.prove("powers have a positive modulus", tm > 0)
        r = POWMOD(ta, tb, tm); self.c.vc.fact(z3.And(r >= 0, r < tm))
        pt = self.plaintext(ta)
        if w == "n2":
            if pt is not None: self.know(r, self.canon(pt.mul(pb), "n"))
            elif self.is_coprime(ta) and pb == Poly.of(self.n): self.know(r, Poly())          # r**n encrypts zero
        elif w in ("p2", "q2") and pt is not None:
            p, q = self.ps if w == "p2" else self.ps[::-1]; k = w[0]
            if pb == Poly.of(p.t - 1):
                x = self.residue(self.canon(pt.mul(Poly.of(q.t * (p.t - 1))), k), k)
                return SInt(1 + p.t * x)
        return SInt(r)
    def invert(self, a, m):
        """contract of gmpy_math.invert"""
        ta, tm = iv(a), iv(m); w = self.resolve(tm)
        x = TInt.new("inverse").t; Poly.of(x); ok = False
        if w == "n2":
            pt = self.plaintext(ta)
            if pt is not None: self.know(x, pt.scale(-1)); ok = True
        elif w in ("p", "q"):
            pa = self.canon(ta, w); other = self.qid if w == "p" else self.pid
            if len(pa) == 1:
                (mono, cf), = pa.items()
                if abs(cf) == 1 and set(mono) <= {other}:          # a product of the other prime: a unit
                    self.rules[w].append((tuple(sorted(mono + (x.get_id(),))), cf)); ok = True
        if not ok and self.c.vc.choose(2): raise ZeroDivisionError("invert(a, b) no inverse exists")
        self.c.vc.fact(z3.And(x > 0, x < tm)); return SInt(x)
    def number(self, name, e=None):
        """an arbitrary encrypted number: (object, mantissa, exponent)"""
        cv, m = self.cipher(name); e = e or TInt.new(name + "_exponent")
        self.c.require(m <= self.M, m >= -self.M); self.know(cv.t, m)
        o = self.c.get(EN)(self.pub, cv, e); self.c.vc.obj_birth(o); pw(self.c, e.t); return o, m, e.t
    def dec(self, o, what="the result"):
        """the residue the encrypted number decrypts to"""
        t = iv(o.ciphertext(False)); pt = self.plaintext(z3.simplify(t))
        if pt is None: self.c.prove(what + " is a ciphertext under the key", False); raise PathEnd()
        self.c.prove(what + " is a ciphertext under the key", o.public_key is self.pub or iv(o.public_key.n) == self.n)
        return self.mod(pt.term())
    def cenr(self, r): return z3.If(r <= self.M, r, r - self.n)
    def secret(self, swap=True):
        p, q = self.ps
        a, b = (p, q) if not swap or self.c.vc.choose(2) else (q, p)
        if not swap: self.c.require(p.t < q.t)
        return self.c.ok(lambda: self.c.get(SK)(self.pub, a, b))

def st_powmod(vc, orig, a, b, m): return vc.ghost["key"].powmod(a, b, m)
def st_invert(vc, orig, a, m): return vc.ghost["key"].invert(a, m)
HELP = {GM + "powmod": st_powmod, GM + "invert": st_invert}
class SysRandom:
    """the operating system's random numbers: any number of the range; prime to n (a number that is not would factor the key)"""
    def randrange(self, a, b):
        r = TInt.new("random"); vc = VC.cur; vc.fact(z3.And(r.t >= iv(a), r.t < iv(b)))
        k = vc.ghost["key"]; vc.prove("randomisers are drawn from [1, n)", z3.And(iv(a) >= 1, iv(b) <= k.n)); Poly.of(r.t); k.coprime.add(r.t.get_id()); return r
    def getrandbits(self, n): r = TInt.new("bits"); VC.cur.fact(r.t >= 0); return r
def rnd(w=None): return _types.SimpleNamespace(SystemRandom=SysRandom)
RND = {"random": rnd}
def randomiser(c, X, none=True):
    """a caller's randomiser: prime to n, or none"""
    if none and c.vc.choose(2) == 0: return None
    r = TInt.new("randomiser"); c.require(r.t >= 1, r.t < X.n); Poly.of(r.t); X.coprime.add(r.t.get_id()); return r

@contract(PK + ".raw_encrypt", ["C06", "C07"], stubs=HELP, facades=RND)
def _(c):
    X = Key(c, secret=False); m = TInt.new("m"); r = randomiser(c, X)
    bad = c.vc.choose(2)
    if bad:
        v, x = c.call(X.pub.raw_encrypt, TReal.new("real")); c.prove("only integers are encrypted", type(x) is TypeError); return
    Poly.of(m.t)
    v = c.ok(X.pub.raw_encrypt, m, r)
    pt = X.plaintext(iv(v)); c.prove("the result is a ciphertext", pt is not None)
    if pt is None: return
    c.prove("it encrypts the plaintext", pt == X.canon(m.t, "n"))
    c.prove("the ciphertext is a residue modulo n squared", z3.And(iv(v) >= 0, iv(v) < X.n * X.n))

@contract(PK + ".apply_obfuscator", ["C06", "C07"], stubs=HELP, facades=RND)
def _(c):
    X = Key(c, secret=False); cv, m = X.cipher("c"); r = randomiser(c, X)
    v = c.ok(X.pub.apply_obfuscator, cv, r)
    pt = X.plaintext(iv(v)); c.prove("re-randomising keeps the plaintext", pt == X.canon(m, "n"))
    c.prove("the ciphertext is a residue modulo n squared", z3.And(iv(v) >= 0, iv(v) < X.n * X.n))

@contract(SK + ".raw_decrypt", "C06", stubs=HELP)
def _(c):
    X = Key(c); s = X.secret()
    if c.vc.choose(2):
        v, x = c.call(s.raw_decrypt, TReal.new("real")); c.prove("only integers are decrypted", type(x) is TypeError); return
    cv, m = X.cipher("c")
    r = c.ok(s.raw_decrypt, cv)
    c.prove("decryption returns the plaintext modulo n", iv(r) == X.mod(m))

@contract(SK + ".__init__", "C06", stubs=HELP)
def _(c):
    X = Key(c); p, q = TInt.new("a"), TInt.new("b"); k = c.vc.choose(3)
    if k == 0:
        c.require(p.t * q.t != X.n); v, x = c.call(lambda: c.get(SK)(X.pub, p, q))
        c.prove("factors that do not belong to the public key are refused", type(x) is ValueError)
    elif k == 1:
        c.require(p.t * p.t == X.n); v, x = c.call(lambda: c.get(SK)(X.pub, p, p))
        c.prove("equal factors are refused", type(x) is ValueError)
    else: s = X.secret(); c.prove("the private key is that of the public key", s.public_key is X.pub)

def crypt_number(kind):
    @contract(PK + ".encrypt", "C06", name="encrypt and decrypt, " + kind, stubs={**HELP, **ENC}, facades=RND)
    def _(c):
        X = Key(c); E = Encoder(c, X); s = X.secret(False)
        x = (TInt if kind == "integers" else TReal).new("value"); kw = {}
        if c.vc.choose(2): kw["precision"] = TReal.new("precision")
        r = randomiser(c, X)
        if r is not None: kw["random_value"] = r
        o, ex = c.call(X.pub.encrypt, x, **kw)
        if ex is not None: c.prove("refused only because the number does not fit", type(ex) is ValueError and not E.calls); return
        c.prove("the number is encoded once", len(E.calls) == 1 and isinstance(o, c.get(EN)))
        w, m, e, _ = E.last()
        c.prove("the number encoded is the number", w == rv(x))
        c.prove("the exponent is that of the encoding", iv(o.exponent) == e)
        c.prove("the ciphertext is that of the encoding", X.dec(o) == X.mod(m))
        k = c.vc.choose(3)
        if k == 1: c.ok(o.apply_obfuscator)
        if k == 2: c.prove("reading the ciphertext gives a ciphertext of the encoding", X.plaintext(z3.simplify(iv(c.ok(o.ciphertext)))) == X.canon(m, "n"))
        d = c.ok(s.decrypt, o)
        pw(c, z3.simplify(-e))
        c.prove("decryption returns the number as encoded", rv(d) == value(m, e))
        half(c, "decryption returns the number up to half a unit", rv(d), rv(x), e)
        if kind == "integers" and not "precision" in kw: c.prove("integers come back as they were", rv(d) == rv(x))
for _k in ("integers", "reals"): crypt_number(_k)

@contract(SK + ".decrypt", "C06", stubs=HELP, facades=RND)
def _(c):
    X = Key(c); s = X.secret(); k = c.vc.choose(3)
    if k == 0:
        for v in (TInt.new("a number"), 3, None, "text"):
            r, x = c.call(s.decrypt, v); c.prove("only encrypted numbers are decrypted", type(x) is TypeError)
    elif k == 1:
        n2 = TInt.new("other_n"); c.require(n2.t >= 6, n2.t != X.n); other = c.get(PK)(n2); o = c.get(EN)(other, TInt.new("c"), TInt.new("e"))
        r, x = c.call(s.decrypt, o); c.prove("a ciphertext under another key is refused", type(x) is ValueError)
    else:
        o, m, e = X.number("a"); pw(c, z3.simplify(-e))
        c.prove("the plaintext decrypted", rv(c.ok(s.decrypt, o)) == value(m, e))
        c.prove("the ciphertext and its exponent are left alone", z3.And(iv(o.exponent) == e, X.dec(o) == X.mod(m)))

# ---- keys and helpers ---------------------------------------------------------------------------------------------
def gm(c, **hooks):
    """gmpy2's functions under their documentation"""
    c.vc.hooks.update(hooks)

@contract(GM + "powmod", "C06")
def _(c):
    a, b, m = TInt.new("a"), TInt.new("b"), TInt.new("c"); c.require(m.t > 0, b.t >= 0)
    def pm(x, y, z):
        c.vc.prove("asked with a positive modulus", iv(z) > 0)
        r = POWMOD(iv(x), iv(y), iv(z)); return SInt(r)
    c.vc.hooks["powmod"] = pm
    r = c.ok(c.get(GM + "powmod"), a, b, m)
    c.vc.fact(z3.Implies(a.t == 1, POWMOD(a.t, b.t, m.t) == 1 % m.t))          # 1**b mod c
    c.prove("a**b modulo c", iv(r) == POWMOD(a.t, b.t, m.t))

@contract(GM + "invert", "C06")
def _(c):
    a, m = TInt.new("a"), TInt.new("b"); c.require(m.t > 1)
    exists_ = z3.Bool("has_inverse"); INV = TInt.new("inverse"); k = c.vc.choose(2)
    c.vc.fact(z3.Implies(exists_, z3.And(INV.t > 0, INV.t < m.t)))
    def inv(x, y):
        c.vc.prove("the inverse of the first number modulo the second", z3.And(iv(x) == a.t, iv(y) == m.t))
        if c.vc.fork(exists_): return INV
        if k: raise ZeroDivisionError("invert() no inverse exists")             # gmpy2 2.1
        return 0                                                                # gmpy2 2.0
    c.vc.hooks["invert"] = inv
    r, x = c.call(c.get(GM + "invert"), a, m)
    if x is not None: c.prove("refused exactly when there is no inverse", z3.And(type(x) is ZeroDivisionError, z3.Not(exists_))); return
    c.prove("the inverse is returned", z3.And(exists_, iv(r) == INV.t))

@contract(GM + "isqrt", "C06")
def _(c):
    n = TInt.new("n"); c.require(n.t >= 0)
    def isq(x):
        r = TInt.new("root"); c.vc.fact(z3.And(r.t >= 0, r.t * r.t <= iv(x), iv(x) < (r.t + 1) * (r.t + 1))); return r
    c.vc.hooks["isqrt"] = isq
    r = iv(c.ok(c.get(GM + "isqrt"), n))
    c.prove("the integer square root", z3.And(r >= 0, r * r <= n.t, n.t < (r + 1) * (r + 1)))

POW2 = z3.Function("two_to_the", I, I)
@contract(GM + "getprimeover", "C06", facades=RND)
def _(c):
    n = TInt.new("bits"); c.require(n.t >= 1)
    def bit_set(x, i):
        # the bit set: at least 2**i
        r = TInt.new("with_bit"); c.vc.fact(z3.And(r.t >= iv(x), r.t >= POW2(iv(i)))); return r
    def nxt(x):
        r = TInt.new("next"); c.vc.fact(z3.And(r.t > iv(x), PRIME(r.t))); return r
    c.vc.hooks.update(bit_set=bit_set, next_prime=nxt)
    r = iv(c.ok(c.get(GM + "getprimeover"), n))
    c.prove("a prime of at least the bits asked for", z3.And(PRIME(r), r >= POW2(n.t - 1)))

@contract(KP + ".generate_keypair", "C06", stubs={GM + "getprimeover": lambda vc, orig, n: vc.ghost["prime"](n), SK + ".__init__": lambda vc, orig, o, pub, p, q: vc.ghost["sk"](o, pub, p, q)})
def _(c):
    bits = TInt.new("n_length"); c.require(bits.t >= 8); BL = z3.Function("bit_length", I, I)
    def prime(n):
        r = TInt.new("prime"); c.vc.fact(z3.And(PRIME(r.t), r.t >= 2)); c.vc.prove("primes of half the length", iv(n) == bits.t / 2); return r
    def sk(o, pub, p, q):
        c.vc.prove("the private key's factors give the public key", z3.And(iv(p) * iv(q) == iv(pub.n), iv(p) != iv(q), PRIME(iv(p)), PRIME(iv(q))))
        o.public_key, o.p, o.q = pub, p, q
    c.vc.ghost.update(prime=prime, sk=sk)
    c.vc.hooks["bit_length"] = lambda x: SInt(BL(x.t))
    def tmpl(S):
        import itertools
        O = TOpt(TInt); opts = [x for _, x in S.of(O, mod=True)]; ints = [x for _, x in S.of(TInt, mod=True)]; some = lambda o: z3.Not(O.is_none(o))
        yield from (("prime %d" % i, z3.Or(z3.Not(some(o)), PRIME(O.val(o)))) for i, o in enumerate(opts))
        yield from (("prime %d" % i, PRIME(o)) for i, o in enumerate(ints))
        for l in ints:
            for a, b, d in itertools.permutations(range(len(opts)), 3):
                if b > d: continue
                n, p, q = opts[a], opts[b], opts[d]
                yield "length %d" % a, z3.Or(l == 0, z3.And(some(n), some(p), some(q), O.val(n) == O.val(p) * O.val(q), O.val(p) != O.val(q), l == BL(O.val(n))))
    c.vc.inv_templates.append(tmpl)
    pub, sec = c.ok(c.get(KP).generate_keypair, bits)
    c.prove("a key of the length asked for", BL(iv(pub.n)) == bits.t)
    c.prove("the two keys belong together", sec.public_key is pub)

PE = "ml.secureprotol.encrypt:PaillierEncrypt"
class Plain(Obj): pass
@contract(PE + ".encrypt", "C06", name="PaillierEncrypt")
def _(c):
    log = []
    class K:
        def __init__(s, n): s.n = n
        def encrypt(s, v): log.append((s, "e", v)); return ("enc", v)
        def decrypt(s, v): log.append((s, "d", v)); return ("dec", v)
    E = c.get(PE)(); pub, sec = K("pub"), K("sec"); v, w = TReal.new("v"), TReal.new("w")
    c.prove("without keys nothing is encrypted or decrypted", E.encrypt(v) is None and E.decrypt(v) is None)
    E.set_public_key(pub); E.set_privacy_key(sec)
    c.prove("the keys handed over are the keys in use", E.get_public_key() is pub and E.get_privacy_key() is sec and E.get_key_pair() == (pub, sec))
    r = E.encrypt(v); d = E.decrypt(w)
    c.prove("encryption is that of the public key", r[0] == "enc" and r[1] is v and log[0][0] is pub and d[0] == "dec" and d[1] is w and log[1][0] is sec)

# ---- C07: arithmetic on ciphertexts -----------------------------------------------------------------------------------
def fits(X, m): return z3.And(m <= X.M, m >= -X.M)
def outcome(c, X, r, m, e, want, name="in range, the result decrypts to the exact result"):
    """r decrypts to the mantissa m at exponent e, whose value is want, when m is in range"""
    c.prove("the result is an encrypted number", isinstance(r, c.get(EN)))
    c.prove("the exponent of the result", iv(r.exponent) == e)
    d = X.cenr(X.dec(r)); pw(c, iv(r.exponent)); pw(c, z3.simplify(-e))
    c.prove("in range, the aligned mantissa", z3.Implies(fits(X, m), d == m))
    if want is not None: c.prove(name, z3.Implies(fits(X, m), value(d, iv(r.exponent)) == want))

def alone(c, X, o, m, e):
    c.prove("the operands are left alone", z3.And(iv(o.exponent) == e, X.dec(o, "the operand") == X.mod(m)))

def enc_sum(name, f, sign):
    @contract(EN + "." + name, "C07", name=EN + "." + name + " of ciphertexts", stubs={**HELP, **ENC}, facades=RND)
    def _(c):
        X = Key(c, secret=False); E = Encoder(c, X)
        a, m1, e1 = X.number("a"); b, m2, e2 = X.number("b")
        r, x = c.call(f, a, b)
        a1, a2, e = align(c, X, m1, e1, m2, e2); t = a1 + a2 if sign > 0 else a1 - a2
        if x is not None:
            d1, d2 = PI(z3.simplify(e2 - e1)), PI(z3.simplify(e1 - e2))
            c.prove("refused only because the factor between the exponents does not fit", z3.And(type(x) is ValueError, z3.Or(z3.And(e1 < e2, d1 > X.M), z3.And(e2 < e1, d2 > X.M)))); return
        aligned_values(c, m1, e1, m2, e2)
        v1, v2 = value(m1, e1), value(m2, e2)
        outcome(c, X, r, t, e, v1 + v2 if sign > 0 else v1 - v2)
        alone(c, X, a, m1, e1); alone(c, X, b, m2, e2)
enc_sum("__add__", lambda a, b: a + b, 1); enc_sum("__sub__", lambda a, b: a - b, -1)

def enc_scalar(name, f, sa, sb):
    """sa * the ciphertext + sb * the plain number"""
    @contract(EN + "." + name, "C07", name=EN + "." + name + " with a plain number", stubs={**HELP, **ENC}, facades=RND)
    def _(c):
        X = Key(c, secret=False); E = Encoder(c, X); a, m1, e1 = X.number("a"); s = kinds(c)
        r, x = c.call(f, a, s)
        calls = [k for k in E.calls if k[0] is not None]
        hit = [k for k in calls if c.vc.implied(z3.Or(k[0] == rv(s), k[0] == -rv(s))) and k[3] is not None and z3.eq(z3.simplify(k[0]), z3.simplify(rv(s))) or z3.eq(z3.simplify(k[0]), z3.simplify(-rv(s)))]
        if x is not None:
            w = E.refused[-1] if E.refused else z3.RealVal(0)
            c.prove("refused only because the plain number, or the factor between the exponents, does not fit", z3.And(type(x) is ValueError, bool(E.refused), z3.Or(w == rv(s), w == -rv(s), w > z3.ToReal(X.M)))); return
        c.prove("the plain number is encoded once", len(hit) == 1)
        if len(hit) != 1: return
        w, m2, e2, _ = hit[0]; neg = not z3.eq(z3.simplify(w), z3.simplify(rv(s)))
        n2 = m2 if (sb > 0) != neg else -m2; n1 = m1 if sa > 0 else -m1
        a1, a2, e = align(c, X, n1, e1, n2, e2)
        aligned_values(c, n1, e1, n2, e2)
        outcome(c, X, r, a1 + a2, e, value(n1, e1) + value(n2, e2), "in range, the result decrypts to the exact result with the value encoded")
        half(c, "the value encoded is the plain number up to half a unit", value(n2, e2), rv(s) if sb > 0 else -rv(s), e2)
        alone(c, X, a, m1, e1)
enc_scalar("__add__", lambda a, s: a + s, 1, 1); enc_scalar("__radd__", lambda a, s: s + a, 1, 1)
enc_scalar("__sub__", lambda a, s: a - s, 1, -1); enc_scalar("__rsub__", lambda a, s: s - a, -1, 1)

def enc_scale(name, f, div=False):
    @contract(EN + "." + name, "C07", stubs={**HELP, **ENC}, facades=RND)
    def _(c):
        X = Key(c, secret=False); E = Encoder(c, X); a, m1, e1 = X.number("a"); s = kinds(c)
        if div: c.require(rv(s) != 0)
        r, x = c.call(f, a, s)
        if x is not None:
            c.prove("refused only because the plain number does not fit", z3.And(type(x) is ValueError, not E.calls)); return
        c.prove("the plain number is encoded once", len(E.calls) == 1)
        w, m2, e2, _ = E.last()
        c.prove("the number encoded is the factor", w == (1 / rv(s) if div else rv(s)))
        c.vc.fact(P(z3.simplify(-(e1 + e2))) == P(z3.simplify(-e1)) * P(z3.simplify(-e2)))
        for e in (e1, e2, z3.simplify(e1 + e2)): pw(c, e)
        y1, y2, p, q, u = z3.Reals("y1_ y2_ p_ q_ u_")
        lemma_at(c, "product of values", [y1, y2, p, q, u], [u == p * q], (y1 * y2) * u == (y1 * p) * (y2 * q), (z3.ToReal(m1), z3.ToReal(m2), P(z3.simplify(-e1)), P(z3.simplify(-e2)), P(z3.simplify(-(e1 + e2)))))
        c.vc.fact(z3.ToReal(m1 * m2) == z3.ToReal(m1) * z3.ToReal(m2))
        outcome(c, X, r, m1 * m2, e1 + e2, value(m1, e1) * value(m2, e2), "in range, the result decrypts to the exact product with the value encoded")
        alone(c, X, a, m1, e1)
enc_scale("__mul__", lambda a, s: a * s); enc_scale("__rmul__", lambda a, s: s * a); enc_scale("__truediv__", lambda a, s: a / s, True)

@contract(EN + ".increase_exponent_to", "C07", stubs={**HELP, **ENC}, facades=RND)
def _(c):
    X = Key(c, secret=False); E = Encoder(c, X); a, m, e = X.number("a"); f = TInt.new("new_exponent")
    r, x = c.call(a.increase_exponent_to, f); d = z3.simplify(f.t - e); pw(c, d)
    if x is not None:
        c.prove("refused only when coarser or when the factor does not fit", z3.And(type(x) is ValueError, z3.Or(f.t < e, PI(d) > X.M))); return
    c.prove("only a finer exponent is accepted", f.t >= e)
    rescale(c, m, e, f.t)
    v = value(m, e); a_, p, q, s = z3.Reals("a_ p_ q_ s_")
    lemma_at(c, "rescaled value", [a_, p, q, s], [s == p * q], a_ * s == (a_ * p) * q, (z3.ToReal(m), P(d), P(z3.simplify(-f.t)), P(z3.simplify(-e))))
    outcome(c, X, r, m * PI(d), f.t, v, "the value stays the same")
    alone(c, X, a, m, e)

@contract(EN + ".__add__", "C07", name="different keys are refused", stubs={**HELP, **ENC}, facades=RND)
def _(c):
    X = Key(c, secret=False); E = Encoder(c, X); a, m, e = X.number("a")
    n2 = TInt.new("other_n"); c.require(n2.t >= 6, n2.t != X.n); other = c.get(PK)(n2)
    c2 = TInt.new("c2"); Poly.of(c2.t)
    b = c.get(EN)(other, c2, TInt.new("e2")); c.vc.obj_birth(b)
    for f in ((lambda a, b: a + b), (lambda a, b: b + a)):
        r, x = c.call(f, a, b); c.prove("ciphertexts of different keys are not added", type(x) is ValueError)

@contract(EN + ".__init__", "C07", facades=RND)
def _(c):
    X = Key(c, secret=False)
    for args in ((X.pub, TReal.new("r")), (X.pub, None), (None, TInt.new("c")), (3, TInt.new("c"))):
        r, x = c.call(lambda: c.get(EN)(*args)); c.prove("only integers under a public key are ciphertexts", type(x) is TypeError)
