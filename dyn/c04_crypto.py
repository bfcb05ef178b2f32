"""C04-C09 on the real ciphers, against exact rational arithmetic."""
from .base import *
from fractions import Fraction as Q
import math
FF = ("ml/secureprotol/fixedpoint.py",); FP = ("ml/secureprotol/fate_paillier.py", "ml/secureprotol/fixedpoint.py"); FA = ("ml/secureprotol/affine.py", "ml/secureprotol/affine_encoder.py")
FE = ("ml/secureprotol/encrypt_mode.py",)
def FPN(): return api("ml.secureprotol.fixedpoint:FixedPointNumber")
def key(rng, small=False):
    """(n, max_int): None for the default modulus"""
    r = rng.random()
    if r < .35: return None
    n = rng.randint(9, 400) if small and r < .5 else rng.getrandbits(rng.choice([40, 64, 100, 160, 256, 512])) | 1 | (1 << 39)
    return n, n // 3 - 1
def np_(): import numpy; return numpy
def number(rng, hi=10 ** 9):
    """a signed plain number of every kind the code accepts"""
    np = np_(); r = rng.random()
    ints, floats, _ = mined(*FF)
    if r < .08: return rng.choice([0, 0.0, -0.0, 1, -1, 1.0, -1.0, 0.5, -0.5])
    if r < .3: return rng.randint(-hi, hi)
    if r < .36: return np.int32(rng.randint(-2 ** 31, 2 ** 31 - 1) % max(1, min(hi, 2 ** 31 - 1))) * rng.choice([1, -1])
    if r < .4: return np.int64(rng.randint(-min(hi, 2 ** 60), min(hi, 2 ** 60)))
    if r < .43: return np.int16(rng.randint(-min(hi, 32000), min(hi, 32000)))
    if r < .5: return rng.choice([rng.choice(ints or [1]), rng.choice([x for x in floats if 1e-150 < abs(x) < hi] or [1.5])])
    if r < .57: return np.float32(rng.uniform(-100, 100)) if hi > 100 else np.float32(rng.random())
    if r < .62: return np.float64(rng.uniform(-1, 1))
    if r < .64: return np.float16(rng.uniform(-5, 5))
    if r < .8: return rng.uniform(-1, 1) * 10 ** rng.randint(-12, 3)
    return rng.uniform(-1, 1) * min(hi, 1000)
def plain(rng, hi):
    x = number(rng, hi)
    return x.item() if hasattr(x, "item") else x
def exact(x): return Q(int(x)) if isinstance(x, (int,)) or "int" in type(x).__name__ else Q(float(x))
def isint(x): return isinstance(x, int) or type(x).__name__ in ("int16", "int32", "int64")
def centred(e, n): return e if e <= n // 2 else e - n
def value(f): return Q(centred(f.encoding, f.n)) / Q(16) ** f.exponent if f.exponent >= 0 else Q(centred(f.encoding, f.n)) * Q(16) ** -f.exponent
def pw(e): return Q(16) ** e
def enc(rng, F, x, k, **kw): return F.encode(x, **kw) if k is None else F.encode(x, k[0], k[1], **kw)
def close(got, want, tol): return abs(Q(got) - want) <= tol + abs(want) * Q(1, 2 ** 51)

@dyn("C04", 15000, 300000)
def encode_decode(rng, case):
    F = FPN(); k = key(rng, True); n, M = k or (F.Q, F.Q // 3 - 1)
    x = number(rng); X = exact(x); kw = {}
    if rng.random() < .2: kw["precision"] = 10.0 ** rng.uniform(-9, -.1)
    elif rng.random() < .2: kw["max_exponent"] = rng.randint(-2, 15)
    try: f = enc(rng, F, x, k, **kw)
    except ValueError:
        # refused: then it does not fit
        e = 0 if isint(x) or x == 0 else math.floor((53 - math.frexp(float(x))[1]) / 4)
        if "precision" in kw: e = max(1, math.ceil(-math.log(kw["precision"], 16)))
        if "max_exponent" in kw: e = max(e, kw["max_exponent"])
        expect(abs(X) * pw(e) > M - 1, "a number that fits is encoded", x=x, n=n, kw=kw); return
    expect(f.n == n and f.max_int == M, "the encoding is in the modulus asked for", x=x, n=n, got=(f.n, f.max_int))
    expect(0 <= f.encoding < n, "the encoding is a residue", x=x, enc=f.encoding, n=n)
    expect(abs(centred(f.encoding, n)) <= M, "no encoding outside the signed range", x=x, enc=f.encoding, n=n)
    d = f.decode()
    half = pw(-f.exponent) / 2 if not (isint(x) and not kw) else 0
    if isint(x) and f.exponent >= 0: half = 0
    expect(close(d, X, half), "decode(encode(x)) is x up to half a unit of the exponent", x=x, got=d, exponent=f.exponent, kw=kw)
    if isint(x) and not kw: expect(d == int(x) and f.exponent == 0, "integers round-trip exactly", x=x, got=d)
    if not isint(x) and "precision" not in kw and X and abs(X) < 1e100 and abs(X) > Q(1, 10 ** 100): expect(pw(-f.exponent) <= abs(X) * Q(16, 2 ** 52), "reals are encoded with a relative precision of a double", x=x, exponent=f.exponent)
    if "precision" in kw: expect(abs(Q(d) - X) <= Q(kw["precision"]) + abs(X) * Q(1, 2 ** 51), "the stated precision is honoured", x=x, got=d, **kw)
    if "max_exponent" in kw: expect(f.exponent >= kw["max_exponent"], "the stated exponent is reached", x=x, exponent=f.exponent, **kw)
    e2 = f.exponent + rng.randint(0, 6)
    if abs(centred(f.encoding, n)) * 16 ** (e2 - f.exponent) <= M:
        g = f.increase_exponent_to(e2)
        expect(g.exponent == e2 and g.n == n and g.max_int == M and value(g) == value(f), "a finer exponent keeps the value", x=x, exponent=f.exponent, to=e2, got=(g.encoding, g.exponent, g.n))
        expect(close(g.decode(), value(f), 0), "a finer exponent decodes to the same number", x=x, to=e2, got=g.decode(), want=d)
    expect(value(f) == Q(centred(f.encoding, n)) * pw(-f.exponent) and f.encoding == enc(rng, F, x, k, **kw).encoding, "aligning leaves the number alone", x=x)
    if f.exponent > -50:
        try: f.increase_exponent_to(f.exponent - 1)
        except ValueError: pass
        else: expect(False, "a coarser exponent is refused", x=x)

@dyn("C04", 3000, 50000)
def range_edges(rng, case):
    F = FPN(); k = key(rng, True); n, M = k or (F.Q, F.Q // 3 - 1)
    for x in {M, -M, M - 1, -M + 1, M + 1, -M - 1, M + rng.randint(1, n), -M - rng.randint(1, n), n, -n, n - 1, 2 * n, n - M}:
        try: f = enc(rng, F, x, k); ok = True
        except ValueError: ok = False
        expect(ok == (abs(x) <= M), "exactly the numbers within the signed range are encoded", x=x, n=n, M=M, accepted=ok)
        if ok: expect(f.decode() == x, "the ends of the range round-trip", x=x, n=n, got=f.decode())
    for e in {0, M, M + 1, n - M, n - M - 1, n - 1, n, n + 1, n + M, rng.randint(0, n - 1), rng.randint(n, 2 * n), (n + 1) // 2}:
        f = F(e, 0, n, M)
        try: d = f.decode()
        except (ValueError, OverflowError): d = None
        want = e if e <= M else e - n if n - M <= e < n else None
        expect(d == want, "decode accepts exactly the two signed ranges", encoding=e, n=n, M=M, got=d)
    s = rng.uniform(.5, 1) * rng.choice([1, -1]); big = s * 2.0 ** rng.randint(n.bit_length(), n.bit_length() + 40)
    for x in (big, 1e300, -1e300):
        if abs(Q(x)) > 4 * M:
            try: f = enc(rng, F, x, k)
            except (ValueError, OverflowError): continue
            expect(abs(Q(f.decode()) - Q(x)) <= abs(Q(x)) / 1000, "a number out of range is refused", x=x, n=n, got=f.decode())

OPS = [("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b)]
@dyn("C05", 15000, 300000)
def arithmetic(rng, case):
    F = FPN(); k = key(rng); n, M = k or (F.Q, F.Q // 3 - 1)
    hi = max(2, min(10 ** 6, math.isqrt(M) // 4096))
    def one():
        x = number(rng, hi)
        kw = {"max_exponent": rng.randint(0, 8)} if rng.random() < .3 else {}
        if rng.random() < .3: kw = {"precision": 10.0 ** rng.uniform(-5, -.2)}
        return x, enc(rng, F, x, k, **kw)
    try: (x, a), (y, b) = one(), one()
    except ValueError: return
    if rng.random() < .25 and abs(centred(a.encoding, n)) * 16 ** 3 < M: a = a.increase_exponent_to(a.exponent + rng.randint(0, 3))
    va, vb = value(a), value(b); ea, eb = (a.encoding, a.exponent, a.n), (b.encoding, b.exponent, b.n)
    e = max(a.exponent, b.exponent)
    for nm, op in OPS:
        w = op(va, vb)
        if nm == "*":
            if abs(centred(a.encoding, n) * centred(b.encoding, n)) > M: continue
        elif abs(w) * pw(e) > M: continue
        try: r = op(a, b)
        except (ValueError, OverflowError) as ex:
            if nm == "*": continue
            expect(False, "a %s b in range is computed" % nm, a=ea, b=eb, n=n, error=ex)
        expect(r.n == n and r.max_int == M and 0 <= r.encoding < n, "a %s b is an encoding in the same modulus" % nm, a=ea, b=eb, n=n, got=(r.encoding, r.n))
        tol = 0 if nm != "*" else (pw(-r.exponent) / 2 + abs(w) * Q(1, 2 ** 51))
        expect(abs(value(r) - w) <= tol, "a %s b is the exact result" % nm, a=float(va), b=float(vb), ea=a.exponent, eb=b.exponent, got=float(value(r)), n=n)
        expect(close(r.decode(), w, tol), "a %s b decodes to the result" % nm, a=float(va), b=float(vb), got=r.decode())
    # with plain numbers, on both sides
    p = number(rng, hi)
    try: ep = enc(rng, F, p, k)
    except ValueError: return
    vp = value(ep); e = max(a.exponent, ep.exponent)
    for nm, op in OPS:
        for side in (0, 1):
            w = op(va, vp) if side == 0 else op(vp, va)
            lim = abs(centred(a.encoding, n) * centred(ep.encoding, n)) if nm == "*" else abs(w) * pw(e)
            if lim > M: continue
            pl = p if isinstance(p, (int, float)) and not hasattr(p, "dtype") else (int(p) if isint(p) else float(p))
            try: r = op(a, pl) if side == 0 else op(pl, a)
            except ValueError:
                if nm == "*" or side == 1: continue
                raise
            expect(r.n == n and r.max_int == M and 0 <= r.encoding < n, "%s with a plain number stays in the modulus" % nm, a=ea, p=pl, side=side, n=n, got=(r.encoding, r.n))
            tol = 0 if nm == "+" or (nm == "-" and side == 0) else pw(-r.exponent) / 2 + abs(w) * Q(1, 2 ** 51)
            expect(abs(value(r) - w) <= tol, "%s with a plain number" % nm, a=float(va), p=pl, side=side, got=float(value(r)), want=float(w), n=n)
    expect((a.encoding, a.exponent, a.n) == ea and (b.encoding, b.exponent, b.n) == eb, "the operands are left alone", a=ea, b=eb)
    # division
    if vb != 0 and abs(va / vb) < hi and abs(vb) > Q(1, 10 ** 6):
        for r in ([lambda: a / b, lambda: a / float(vb)]):
            try: r = r()
            except (ValueError, OverflowError): continue
            expect(r.n == n and abs(value(r) - va / vb) <= abs(va / vb) * Q(1, 10 ** 9) + Q(1, 10 ** 9) or abs(centred(a.encoding, n)) * 2 ** 60 > M, "a / b", a=float(va), b=float(vb), got=float(value(r)), n=n)

@dyn("C05", 5000, 80000)
def comparisons(rng, case):
    F = FPN(); k = key(rng); k2 = k if rng.random() < .8 else key(rng)
    x, y = number(rng, 10 ** 5), number(rng, 10 ** 5)
    if rng.random() < .3: y = x
    try: a, b = enc(rng, F, x, k), enc(rng, F, y, k2)
    except ValueError: return
    for _ in range(2):
        if rng.random() < .4 and abs(centred(a.encoding, a.n)) * 16 ** 2 < a.max_int: a = a.increase_exponent_to(a.exponent + rng.randint(0, 2))
        da, db = a.decode(), b.decode()
        for nm, f in (("<", lambda u, v: u < v), (">", lambda u, v: u > v), ("<=", lambda u, v: u <= v), (">=", lambda u, v: u >= v), ("==", lambda u, v: u == v), ("!=", lambda u, v: u != v)):
            expect(bool(f(a, b)) == f(da, db), "a %s b compares the decoded numbers" % nm, a=da, b=db, got=f(a, b))
            expect(bool(f(a, db)) == f(da, db), "a %s plain compares the decoded number" % nm, a=da, b=db, got=f(a, db))

# ---- Paillier ------------------------------------------------------------------------------------
PRIMES = [p for p in range(3, 120) if all(p % q for q in range(2, p))]
def _pp(rng, bits):
    g = api("ml.secureprotol.gmpy_math")
    import gmpy2
    while True:
        p = gmpy2.next_prime(rng.getrandbits(bits) | (1 << (bits - 1)))
        return int(p)
def keypair(rng, tiny=False, bits=None):
    PK, SK = api("ml.secureprotol.fate_paillier:PaillierPublicKey"), api("ml.secureprotol.fate_paillier:PaillierPrivateKey")
    while True:
        if tiny: p, q = rng.choice(PRIMES), rng.choice(PRIMES)
        else: p, q = _pp(rng, bits or rng.choice([64, 80, 128])), _pp(rng, bits or rng.choice([64, 80, 128]))
        n = p * q
        if p != q and math.gcd(n, (p - 1) * (q - 1)) == 1 and n >= 15: break
    pub = PK(n)
    return pub, SK(pub, p, q), p, q

@dyn("C06", 1500, 20000)
def tiny_keys(rng, case):
    pub, sec, p, q = keypair(rng, True); n = pub.n
    EN = api("ml.secureprotol.fate_paillier:PaillierEncryptedNumber")
    for _ in range(40):
        m = rng.randrange(n) if rng.random() < .7 else rng.choice([0, 1, n - 1, n // 3, n // 3 - 1, n - n // 3, n - n // 3 + 1, p, q, n - p])
        m %= n
        r = rng.randrange(1, n)
        if math.gcd(r, n) > 1: r = None if rng.random() < .5 else 1
        if r is None:
            c = pub.raw_encrypt(m, 1)
        else: c = pub.raw_encrypt(m, r)
        expect(0 <= c < n * n, "the ciphertext is a residue", n=n, m=m, r=r, c=c)
        expect(sec.raw_decrypt(c) == m, "decrypt(encrypt(m)) is m", p=p, q=q, m=m, r=r, got=sec.raw_decrypt(c))
        M = n // 3 - 1
        v = rng.randint(-M, M)
        e = pub.encrypt(v, random_value=r or 1)
        expect(sec.decrypt(e) == v, "decrypt(encrypt(v)) is v", p=p, q=q, v=v, r=r, got=sec.decrypt(e))

@dyn("C06", 500, 8000)
def real_keys(rng, case):
    pub, sec, p, q = keypair(rng); n = pub.n
    for _ in range(3):
        v = number(rng, 10 ** 6)
        kw = {}
        if rng.random() < .2: kw["precision"] = 1e-6
        if rng.random() < .2: kw["random_value"] = rng.randrange(1, n)
        e = pub.encrypt(v, **kw)
        f = api("ml.secureprotol.fixedpoint:FixedPointNumber").encode(v, n, pub.max_int, kw.get("precision"))
        d = sec.decrypt(e)
        expect(d == f.decode(), "decryption returns the encoded plaintext", v=v, got=d, want=f.decode(), n=n)
        c1 = e.ciphertext(); expect(sec.decrypt(e) == d, "reading the ciphertext keeps the plaintext", v=v)
        e.apply_obfuscator(); expect(sec.decrypt(e) == d and (e.ciphertext(False) != c1), "re-randomising changes the ciphertext and keeps the plaintext", v=v, got=sec.decrypt(e))
        e2 = pub.encrypt(v)
        expect(e2.ciphertext() != pub.encrypt(v).ciphertext(), "encryption is randomised", v=v)
        raw = rng.choice([rng.randrange(n), 0, 1, n - 1, pub.max_int, n - pub.max_int, n - pub.max_int - 1])
        expect(sec.raw_decrypt(pub.raw_encrypt(raw)) == raw, "raw round trip", raw=raw, n=n)
        pub2, sec2, _, _ = keypair(rng, bits=64)
        for a, b in ((sec2, e),):
            try: a.decrypt(b)
            except ValueError: pass
            else: expect(False, "a ciphertext under another key is refused", n=n, n2=pub2.n)
    E = api("ml.secureprotol.encrypt:PaillierEncrypt")(); E.set_public_key(pub); E.set_privacy_key(sec)
    vs = [number(rng, 10 ** 6) for _ in range(3)]
    got = E.decrypt_list(E.encrypt_list(vs))
    expect(len(got) == 3 and all(close(a, exact(b), Q(1, 10 ** 9)) for a, b in zip(got, vs)), "encrypt_list / decrypt_list", got=got, want=vs)
    T = api("computing.d_table:DTable")(True, [(i, v) for i, v in enumerate(vs)])
    got = dict(E.distribute_decrypt(E.distribute_encrypt(T)).collect())
    expect(sorted(got) == [0, 1, 2] and all(close(got[i], exact(v), Q(1, 10 ** 9)) for i, v in enumerate(vs)), "distribute_encrypt / distribute_decrypt", got=got, want=vs)

@dyn("C06", 1500, 20000)
def helpers(rng, case):
    g = api("ml.secureprotol.gmpy_math")
    for _ in range(10):
        bits = rng.choice([3, 8, 30, 64, 65, 130])
        a, b, c = rng.getrandbits(bits), rng.getrandbits(min(bits, rng.choice([4, 64, 130]))), rng.getrandbits(bits) + 1
        if rng.random() < .2: a = rng.choice([0, 1, 2, c - 1, c, c + 1])
        expect(g.powmod(a, b, c) == pow(a, b, c), "powmod", a=a, b=b, c=c, got=g.powmod(a, b, c))
        m = rng.getrandbits(bits) + 2
        try: x = g.invert(a, m)
        except ZeroDivisionError: x = None
        expect((x is None) == (math.gcd(a, m) != 1), "invert exists exactly for coprime numbers", a=a, m=m, got=x)
        if x is not None: expect(a * x % m == 1 % m, "invert", a=a, m=m, got=x)
        s = rng.getrandbits(bits * 2); r = g.isqrt(s)
        expect(r * r <= s < (r + 1) ** 2, "isqrt", n=s, got=r)
    import gmpy2
    b = rng.randint(4, 200); p = g.getprimeover(b)
    expect(gmpy2.is_prime(p) and p.bit_length() in (b, b + 1), "getprimeover returns an n-bit prime", bits=b, got=p)

@dyn("C06", 12, 60)
def generated(rng, case):
    G = api("ml.secureprotol.fate_paillier:PaillierKeypair"); b = rng.choice([64, 100, 128, 192])
    pub, sec = G.generate_keypair(b); pub2, sec2 = G.generate_keypair(b)
    expect(pub.n.bit_length() == b and pub.n != pub2.n, "keys of the requested length", bits=b, n=pub.n)
    if math.gcd(pub.n, (sec.p - 1) * (sec.q - 1)) != 1: return
    for v in (0, 1, -1, pub.max_int, -pub.max_int): expect(sec.decrypt(pub.encrypt(v)) == v, "a generated key round-trips", v=v, n=pub.n)
    try: sec2.decrypt(pub.encrypt(3))
    except ValueError: pass
    else: expect(False, "a ciphertext under another key is refused", n=pub.n)

@dyn("C07", 800, 10000)
def homomorphic(rng, case):
    pub, sec, p, q = keypair(rng, bits=128); n, M = pub.n, pub.max_int
    Fx = api("ml.secureprotol.fixedpoint:FixedPointNumber")
    def e(x): return Fx.encode(x, n, M)
    def dec(c): return Q(centred(sec.raw_decrypt(c.ciphertext(False)), n)) / pw(c.exponent)
    x, y, s = (number(rng, 10 ** 5) for _ in range(3))
    A, B = pub.encrypt(x), pub.encrypt(y)
    vx, vy, vs = value(e(x)), value(e(y)), value(e(s))
    if rng.random() < .4: k = rng.randint(0, 5); A = A.increase_exponent_to(A.exponent + k)
    expect(dec(A) == vx, "a finer exponent keeps the plaintext", x=x, got=float(dec(A)))
    top = max(A.exponent, B.exponent)
    def chk(nm, f, want, a=None, lim=None):
        if lim is None: lim = abs(want) * pw(max(top, e(s).exponent))
        if lim > M: return
        r = f()
        expect(r.public_key == pub, "%s keeps the key" % nm)
        d = dec(r)
        expect(abs(d - want) <= abs(want) * Q(1, 10 ** 12), "%s decrypts to the same operation on the plaintexts" % nm, x=x, y=y, s=s, ex=A.exponent, ey=B.exponent, got=float(d), want=float(want))
        return r
    cA, cB = (A.ciphertext(False), A.exponent), (B.ciphertext(False), B.exponent)
    chk("E(x) + E(y)", lambda: A + B, vx + vy); chk("E(y) + E(x)", lambda: B + A, vx + vy)
    chk("E(x) - E(y)", lambda: A - B, vx - vy); chk("E(x) + s", lambda: A + s, vx + vs); chk("s + E(x)", lambda: (float(s) if not isint(s) else int(s)) + A, vx + vs)
    chk("E(x) - s", lambda: A - s, vx - vs); chk("s - E(x)", lambda: (float(s) if not isint(s) else int(s)) - A, vs - vx)
    ml = abs(vx * vs) * pw(A.exponent + e(s).exponent)
    chk("E(x) * s", lambda: A * s, vx * vs, lim=ml); chk("s * E(x)", lambda: (float(s) if not isint(s) else int(s)) * A, vx * vs, lim=ml)
    if abs(vs) > Q(1, 1000):
        inv = value(e(1 / s)); chk("E(x) / s", lambda: A / s, vx * inv, lim=abs(vx * inv) * pw(A.exponent + e(1 / s).exponent))
    for t in (0, 1, -1, 0.0): chk("E(x) * %r" % t, lambda: A * t, vx * exact(t), lim=0)
    expect((A.ciphertext(False), A.exponent) == cA and (B.ciphertext(False), B.exponent) == cB, "the operands are left alone", x=x, y=y)
    A.apply_obfuscator(); chk("E(x) + E(y) after re-randomising", lambda: A + B, vx + vy)
    # sums, as the histograms build them
    acc, want = 0, Q(0)
    for _ in range(rng.randint(1, 5)):
        z = number(rng, 1000); acc = acc + pub.encrypt(z); want += value(e(z))
    if abs(want) * pw(acc.exponent) <= M: expect(dec(acc) == want, "a sum of ciphertexts starting from 0", got=float(dec(acc)), want=float(want))
    pub2, _, _, _ = keypair(rng, bits=64)
    try: A + pub2.encrypt(1)
    except ValueError: pass
    else: expect(False, "ciphertexts of different keys are not combined", n=n, n2=pub2.n)
    try: pub2.encrypt(1) - A
    except ValueError: pass
    else: expect(False, "ciphertexts of different keys are not combined", n=n, n2=pub2.n)

@dyn("C08", 4000, 50000)
def affine(rng, case):
    K = api("ml.secureprotol.affine:AffineCipherKey"); C = api("ml.secureprotol.affine:AffineCipher")
    bits = rng.choice([256, 512, 1024])
    if rng.random() < .3: key = C.generate_keypair(key_size=bits, a_ratio=rng.uniform(.05, 1), b_ratio=rng.uniform(.05, 1)); n = key.n; prec = 2 ** 100
    else:
        n = rng.getrandbits(bits) | (1 << (bits - 1)); prec = rng.choice([2 ** 100, 2 ** 53, 2 ** 64, 10 ** 12])
        while True:
            a = rng.randrange(1, n)
            if math.gcd(a, n) == 1: break
        key = K(a, rng.randrange(n), n, prec)
    if n.bit_length() < 200: return
    xs = [plain(rng, 10 ** 6) for _ in range(3)]; X = [exact(x) for x in xs]
    es = [key.encrypt(x) for x in xs]
    d = lambda c: Q(key.decrypt(c))
    tol = Q(1, prec)
    def near(got, want, t): return abs(got - want) <= t + abs(want) * Q(1, 2 ** 50)
    for x, v, c in zip(xs, X, es):
        expect(near(d(c), v, tol), "decrypt(encrypt(x)) is x", x=x, got=float(d(c)), n=n)
        if isint(x): expect(d(c) == v, "integers round-trip exactly", x=x, got=float(d(c)))
    chk = [("a + b", lambda: es[0] + es[1], X[0] + X[1], 2), ("a - b", lambda: es[0] - es[1], X[0] - X[1], 2), ("a - a", lambda: es[0] - es[0], Q(0), 0), ("a + b - c", lambda: es[0] + es[1] - es[2], X[0] + X[1] - X[2], 3), ("sum", lambda: sum(es), sum(X), 3), ("a + 0", lambda: es[0] + 0, X[0], 1)]
    s = rng.choice([0, 1, -1, 2, -7, rng.randint(-1000, 1000)])
    chk += [("a * s", lambda: es[0] * s, X[0] * s, abs(s)), ("s * a", lambda: s * es[0], X[0] * s, abs(s)), ("s * a + b * t", lambda: s * es[0] + es[1] * 3, X[0] * s + X[1] * 3, abs(s) + 3), ("(a + b) * s", lambda: (es[0] + es[1]) * s, (X[0] + X[1]) * s, 2 * abs(s))]
    for nm, f, w, t in chk:
        expect(near(d(f()), w, tol * t), "%s decrypts to the same operation" % nm, xs=xs, s=s, got=float(d(f())), want=float(w), n=n)
    for x, v, c in zip(xs, X, es): expect(near(d(c), v, tol), "the operands are left alone", x=x, got=float(d(c)))

@dyn("C09", 500, 8000)
def modes(rng, case):
    np = np_()
    Calc = api("ml.secureprotol.encrypt_mode:EncryptModeCalculator"); T = api("computing.d_table:DTable")
    pub, sec, _, _ = keypair(rng, bits=128)
    E = api("ml.secureprotol.encrypt:PaillierEncrypt")(); E.set_public_key(pub); E.set_privacy_key(sec)
    mode = rng.choice(["strict", "fast", "balance"]); rate = rng.choice([0, 1, .5, .3, 1e-9, -1, -.5, 2, 100])
    kw = dict(encrypter=E, mode=mode)
    if rng.random() < .7 or mode == "balance": kw["re_encrypted_rate"] = rate
    calc = Calc(**kw)
    kind = rng.randrange(4); keys = ["k%d" % i for i in range(rng.randint(1, 4))]
    def num(): return rng.choice([0, 1, -2, 0.0]) if rng.random() < .2 else rng.uniform(-5, 5) if rng.random() < .7 else rng.randint(-9, 9)
    def row():
        if kind == 0: return num()
        if kind == 1: return (num(), num())
        if kind == 2: return [num(), num(), num()]
        return np.array([float(num()), float(num())]) if rng.random() < .6 else np.array([rng.randint(-9, 9), rng.randint(-9, 9)])
    rows = {k: row() for k in keys}
    hist = []
    for call in range(rng.randint(1, 5)):
        c = rng.random()
        if call:
            if c < .4: rows = {k: row() for k in keys}
            elif c < .55 and kind in (2, 3):
                for k in keys: rows[k][rng.randrange(2)] = float(num())
            elif c < .65: keys = list(keys) + ["n%d" % call]; rows = {k: row() for k in keys}
            elif c < .75 and len(keys) > 1: keys = keys[1:]; rows = {k: rows[k] for k in keys}
            elif c < .8: rng.shuffle(keys); rows = {k: row() for k in keys}
        hist.append({k: list(v) if kind else v for k, v in rows.items()})
        t = T(True, [(k, rows[k]) for k in keys])
        out = calc.encrypt(t)
        got = dict(out.collect())
        expect(set(got) == set(keys) and out.count() == len(keys), "the same keys come back", mode=mode, rate=rate, call=call, got=list(got), want=keys)
        for k in keys:
            if kind: 
                expect(type(got[k]) is type(rows[k]) and len(got[k]) == len(rows[k]), "rows keep their shape", got=type(got[k]), want=type(rows[k]))
                d = [sec.decrypt(x) for x in got[k]]; w = list(rows[k])
            else: d, w = [sec.decrypt(got[k])], [rows[k]]
            expect(all(abs(a - b) < 1e-6 for a, b in zip(d, w)), "row %s decrypts to the current numbers" % k, mode=mode, rate=rate, call=call, got=d, want=w, history=hist)
        expect({k: list(v) if kind else v for k, v in t.collect()} == hist[-1], "the input table is left alone")

@dyn("C09", 40, 200)
def mode_names(rng, case):
    P = api("ml.param.encrypted_mode_calculation_param:EncryptedModeCalculatorParam")
    for m in ("strict", "fast", "balance", "confusion_opt", "", "none", "faster", None, 3, "STRICT"):
        try: P(mode=m, re_encrypted_rate=1).check(); ok = True
        except (ValueError, TypeError, AttributeError): ok = False
        documented = isinstance(m, str) and m.lower() in ("strict", "fast", "balance")
        if not documented: expect(not ok or (m == "confusion_opt"), "an unknown mode is rejected", mode=m)
        if documented: expect(ok, "a documented mode is accepted", mode=m)
