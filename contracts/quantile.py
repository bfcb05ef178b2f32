"""C11: quantile summaries account for every value and answer within their rank error."""
from .common import *
from .ptable import *
from .split import iv, rv
QM = "ml.feature.quantile_summaries:"; QS = QM + "QuantileSummaries"; SQ = QM + "SparseQuantileSummaries"
I, R = z3.IntSort(), z3.RealSort()
RL = TList(TReal)

class G:
    """the sum of the weights of the first i retained entries (W) and the number of the first i buffered values that are at
    most / below x (CLE, CLT), defined by recursion; the facts about stores, slices, concatenations and reversals are proved
    by induction in lemmas/c11_sums.lean"""
    def __init__(self, c, err=None, exact=True):
        vc = self.vc = c.vc
        self.T = TRec("Stats", [("value", TReal), ("g", TInt), ("delta", TInt)], c.get(QM + "Stats")); self.L = TList(self.T)
        AS = z3.ArraySort(I, self.T.sort); RA = z3.ArraySort(I, R)
        W = self.W = z3.Function("weight_of_first", AS, I, I)
        a, i, n, e = z3.Const("a?w", AS), qv("i"), qv("n"), z3.Const("e?w", self.T.sort)
        z = z3.IntVal(0)
        vc.fact(z3.ForAll([a, i], W(a, z) == 0, patterns=[W(a, i)]))
        vc.fact(z3.ForAll([a, i], z3.Implies(i >= 0, W(a, i + 1) == W(a, i) + self.T.get(a[i], "g")), patterns=[z3.MultiPattern(W(a, i), a[i])]))
        vc.fact(z3.ForAll([a, n, e, i], z3.And(z3.Implies(i <= n, W(z3.Store(a, n, e), i) == W(a, i)), z3.Implies(z3.And(n >= 0, i == n + 1), W(z3.Store(a, n, e), i) == W(a, n) + self.T.get(e, "g"))), patterns=[W(z3.Store(a, n, e), i)]))
        C = self.C = {}
        b, x, y = z3.Const("b?c", RA), z3.Const("x?c", R), z3.Const("y?c", R)
        for nm, op in (("le", lambda u, v: u <= v), ("lt", lambda u, v: u < v)):
            f = C[nm] = z3.Function("buffered_" + nm, RA, I, R, I)
            vc.fact(z3.ForAll([b, n, x], f(b, z, x) == 0, patterns=[f(b, n, x)]))
            vc.fact(z3.ForAll([b, n, y, i, x], z3.And(z3.Implies(i <= n, f(z3.Store(b, n, y), i, x) == f(b, i, x)), z3.Implies(z3.And(n >= 0, i == n + 1), f(z3.Store(b, n, y), i, x) == f(b, n, x) + z3.If(op(y, x), 1, 0))), patterns=[f(z3.Store(b, n, y), i, x)]))
            vc.fact(z3.ForAll([b, n, x], z3.Implies(n >= 0, f(b, n + 1, x) == f(b, n, x) + z3.If(op(b[n], x), 1, 0)), patterns=[z3.MultiPattern(f(b, n, x), b[n])]))
        le, lt = C["le"], C["lt"]
        vc.fact(z3.ForAll([b, n, x], z3.Implies(n >= 0, z3.And(lt(b, n, x) >= 0, lt(b, n, x) <= le(b, n, x), le(b, n, x) <= n)), patterns=[le(b, n, x)]))
        vc.fact(z3.ForAll([b, n, x], z3.Implies(n >= 0, z3.And(lt(b, n, x) >= 0, lt(b, n, x) <= le(b, n, x), le(b, n, x) <= n)), patterns=[lt(b, n, x)]))
        # floor(2 * error * n), the allowed uncertainty of n values
        self.err = (err or TReal.new("error")); ev = self.err.t
        c.require(ev > 0, ev < 1)
        F = self.F = z3.Function("allowance", I, I)
        m = qv("m")
        if exact: vc.fact(z3.ForAll([n], F(n) == z3.ToInt(2 * ev * z3.ToReal(n)), patterns=[F(n)]))
        else:
            def floor(x):               # floor(2 * error * n) is F(n), whatever n
                k = qv("k"); t = z3.simplify(rv(x), som=True)
                for e in subterms(rv(x)):
                    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_true(z3.simplify(rv(x) == 2 * ev * e, som=True)): return V.mkint(F(e.arg(0)))
            vc.hooks["floor"] = floor
            vc.fact(z3.ForAll([m, n], z3.Implies(z3.And(m >= 0, n >= 0), F(m) + F(n) <= F(m + n)), patterns=[z3.MultiPattern(F(m), F(n))]) if exact is None else z3.BoolVal(True))
        vc.fact(z3.ForAll([m, n], z3.Implies(z3.And(m >= 0, m <= n), z3.And(F(m) >= 0, F(m) <= F(n))), patterns=[z3.MultiPattern(F(m), F(n))]))
        L = self.L; self.cuts = []
        def cat(ty, r, p, q):
            if ty != L: return
            self.cuts.append((r, p, L.len(p)))
            r, p, q, n, m = L.arr(r), L.arr(p), L.arr(q), L.len(p), L.len(q)
            j = qv("j")
            vc.fact(z3.ForAll([j], z3.Implies(j <= n, W(r, j) == W(p, j)), patterns=[W(r, j)]))
            vc.fact(z3.ForAll([j], z3.Implies(z3.And(j >= n, j <= n + m), W(r, j) == W(p, n) + W(q, j - n)), patterns=[W(r, j)]))
        def sl(ty, r, s, lo):
            if ty != L: return
            j = qv("j"); A, B, n = L.arr(r), L.arr(s), L.len(r)
            vc.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= n, lo >= 0), W(A, j) == W(B, lo + j) - W(B, lo)), patterns=[W(A, j)]))
        def rev(ty, r, s):
            if ty != L: return
            j = qv("j"); A, B, n = L.arr(r), L.arr(s), L.len(s)
            vc.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= n), W(A, j) == W(B, n) - W(B, n - j)), patterns=[W(A, j)]))
        vc.hooks.update(concat=cat, slice=sl, reverse=rev)
    def w(self, t, i): return self.W(self.L.arr(t), i)
    def g(self, t, i, f): return self.T.get(self.L.at(t, i), f)
    def sorted_buffer(self):
        """sorted(buffer): the same values in order; the counts of an ordered list (lemmas/c11_sums.lean)"""
        vc, C = self.vc, self.C
        def srt(x, key, reverse):
            if key is not None or reverse is not False or not isinstance(x, V.VList): raise Unsupported("sort order")
            s = x.to_term(RL); r = RL.fresh("sorted"); n = RL.len(s)
            vc.fact(RL.len(r) == n)
            i, j, v = qv("i"), qv("j"), z3.Const("x?s", R); A, B = RL.arr(r), RL.arr(s)
            vc.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < n), A[i] <= A[j]), patterns=[z3.MultiPattern(A[i], A[j])]))
            for k, f in C.items():
                vc.fact(z3.ForAll([v], f(B, n, v) == f(A, n, v), patterns=[f(B, n, v)]))
                cmp_ = (lambda p, q: p <= q) if k == "le" else (lambda p, q: p < q)
                vc.fact(z3.ForAll([i, v], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Implies(cmp_(A[i], v), f(A, n, v) >= i + 1), z3.Implies(z3.Not(cmp_(A[i], v)), f(A, n, v) <= i))), patterns=[z3.MultiPattern(A[i], f(B, n, v)), z3.MultiPattern(A[i], f(A, n, v))]))
            self.sorted_term = r
            return V.VList(TReal, term=r)
        vc.hooks["sorted"] = srt
        vc.hooks["sort"] = lambda l, key, reverse: setattr(l, "term", srt(l, key, reverse).term)

def subterms(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); yield x
        todo += x.children()

class Truth:
    """how many of the n values represented are at most / below x"""
    def __init__(self, c, name, n):
        self.n = n
        LE, LT = self.LE, self.LT = z3.Function(name + "_le", R, I), z3.Function(name + "_lt", R, I)
        x, y = z3.Const("x?t", R), z3.Const("y?t", R); f = c.vc.fact
        f(z3.ForAll([x], z3.And(LE(x) >= LT(x), LT(x) >= 0, LE(x) <= n), patterns=[LE(x)]))
        f(z3.ForAll([x], z3.And(LE(x) >= LT(x), LT(x) >= 0, LE(x) <= n), patterns=[LT(x)]))
        f(z3.ForAll([x, y], z3.Implies(x <= y, LE(x) <= LE(y)), patterns=[z3.MultiPattern(LE(x), LE(y))]))
        f(z3.ForAll([x, y], z3.Implies(x <= y, LT(x) <= LT(y)), patterns=[z3.MultiPattern(LT(x), LT(y))]))
        f(z3.ForAll([x, y], z3.Implies(x < y, LE(x) <= LT(y)), patterns=[z3.MultiPattern(LE(x), LT(y))]))
class Both:
    """the values of two collections together"""
    def __init__(self, a, b): self.a, self.b, self.n = a, b, a.n + b.n
    def LE(self, x): return self.a.LE(x) + self.b.LE(x)
    def LT(self, x): return self.a.LT(x) + self.b.LT(x)
class Whole(Truth):
    """the values of N under a name of their own (what it stands for is told at the end: `tell`)"""
    def __init__(self, vc, N):
        n = vc.fresh("values", I); vc.fact(n == N.n); self.vc, self.N = vc, N
        class C: pass
        c = C(); c.vc = vc
        Truth.__init__(self, c, vc.freshname("flushed"), n)
    def tell(self):
        x = z3.Const("x?w", R)
        for f, F in ((self.LE, self.N.LE), (self.LT, self.N.LT)): self.vc.fact(z3.ForAll([x], f(x) == F(x), patterns=[f(x)]))
def tell(N):
    if isinstance(N, Whole): N.tell()
    elif isinstance(N, Both): tell(N.a); tell(N.b)
class Buffer:
    """the values waiting in the head buffer b"""
    def __init__(self, g, b): self.g, self.b, self.n = g, b, RL.len(b)
    def LE(self, x): return self.g.C["le"](RL.arr(self.b), self.n, x)
    def LT(self, x): return self.g.C["lt"](RL.arr(self.b), self.n, x)

def entry(g, t, k, T, F):
    """entry k of the retained list t is right about the values T; W-prefix sums are ranks"""
    v, gg, d = g.g(t, k, "value"), g.g(t, k, "g"), g.g(t, k, "delta")
    return rank(T, v, gg, d, g.w(t, k + 1), F)
def rank(T, v, gg, d, r, F):
    return z3.And(gg >= 1, d >= 0, gg + d <= F + 1, T.LE(v) >= r, T.LT(v) <= r + d - 1, T.LE(v) >= T.LT(v) + 1)
def parts(g, t, T, F):
    n = g.L.len(t)
    i, j = qv("i"), qv("j")
    return [("the weights add up to the number of values", g.w(t, n) == T.n),
        ("values in order", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < n), g.g(t, i, "value") <= g.g(t, j, "value")), patterns=[z3.MultiPattern(g.L.at(t, i), g.L.at(t, j))])),
        ("retained values are inserted ones, at a rank within their bounds", forall(n, lambda k: entry(g, t, k, T, F), pats=lambda k: g.L.at(t, k))),
        ("the least value is kept exactly", z3.Implies(n > 0, z3.And(g.g(t, z3.IntVal(0), "g") == 1, g.g(t, z3.IntVal(0), "delta") == 0))),
        ("something is retained", (n > 0) == (T.n > 0))]
def good(g, t, T, F): return z3.And(*[f for _, f in parts(g, t, T, F)])

def summary(c, g, name="S", sparse=False, buffered=None):
    """an arbitrary summary: n values retained under the invariant, others in the buffer"""
    o = c.get(SQ if sparse else QS)(TInt.new("compress_thres"), TInt.new("head_size"), g.err, V.VList.of([]))
    n = TInt.new(name + "_count"); T = Truth(c, name, n.t); s = g.L.new(name + "_sampled")
    c.require(n.t >= 0, good(g, s.term, T, g.F(n.t)))
    if not ("sampled" in o.__dict__ and "count" in o.__dict__ and "head_sampled" in o.__dict__ and "error" in o.__dict__): raise Unsupported("summary kept in another form")
    o.__dict__.update(sampled=s, count=n)
    b = None
    if (c.vc.choose(2) == 0 if buffered is None else buffered): b = RL.new(name + "_buffer"); o.__dict__["head_sampled"] = b; c.require(RL.len(b.term) > 0)
    o.__dict__["_T"] = T
    return o, T, Both(T, Buffer(g, b.term)) if b is not None else T

def flushed(c, g, o, T, label=""):
    t = o.sampled.to_term(g.L)
    c.prove(label + "the count is the number of values", z3.And(iv(o.count) == T.n))
    for lab, f in parts(g, t, T, g.F(T.n)): c.prove(label + lab, f)
    h = o.head_sampled
    c.prove(label + "the buffer is empty", (V.TInt.unwrap(h.vlen()) == 0))

@contract(QS + "._insert_head_buffer", "C11", prove_ms=10000)
def _(c):
    g = G(c, exact=False); g.sorted_buffer()
    o, T, N = summary(c, g)
    old, n = o.sampled.term, T.n; b = o.head_sampled.to_term(RL) if N is not T else RL.mk(z3.IntVal(0), z3.K(I, z3.RealVal(0))); m = RL.len(b)
    L = g.L; S0 = L.len(old)
    F = g.F(n + m)
    def inv(S):
        hd = getattr(g, "sorted_term", b)
        A = lambda k: RL.at(hd, k)
        ints = [(p, x) for p, x in S.of(TInt) if "." not in p]
        lists = list(S.of(L, mod=True))
        for p, x in ints:
            yield p + " not negative", x >= 0
            yield p + " at most the buffer", x <= m
            yield p + " at most the retained", x <= S0
            for q, y in ints:
                if p != q: yield p + " counts " + q, z3.And(x == n + y, g.F(x) <= F)
        for pl, x in lists:
            ln = L.len(x)
            yield pl + " first is exact", z3.Implies(ln > 0, z3.And(g.g(x, z3.IntVal(0), "g") == 1, g.g(x, z3.IntVal(0), "delta") == 0))
            i, j = qv("i"), qv("j")
            yield pl + " in order", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < ln), g.g(x, i, "value") <= g.g(x, j, "value")), patterns=[z3.MultiPattern(L.at(x, i), L.at(x, j))])
            yield pl + " ranks", forall(ln, lambda k: entry(g, x, k, N, F), pats=lambda k: L.at(x, k))
            for p, s in ints:
                yield pl + " below the retained from " + p, z3.Implies(s < S0, forall(ln, lambda k: g.g(x, k, "value") <= g.g(old, s, "value"), pats=lambda k: L.at(x, k)))
                yield pl + " below the buffered from " + p, z3.Implies(s < m, forall(ln, lambda k: g.g(x, k, "value") <= A(s), pats=lambda k: L.at(x, k)))
                for q, h in ints:
                    if p == q: continue
                    yield pl + " length %s %s" % (p, q), ln == s + h
                    yield pl + " weight %s %s" % (p, q), g.w(x, ln) == g.w(old, s) + h
        for p, s in ints:
            for q, h in ints:
                if p == q: continue
                yield "buffered before %s below retained from %s" % (q, p), z3.Implies(z3.And(s < S0, h > 0), A(h - 1) < g.g(old, s, "value"))
                yield "retained before %s below buffered from %s" % (p, q), z3.Implies(z3.And(h < m, s > 0), g.g(old, s - 1, "value") <= A(h))
    c.vc.inv_templates = [inv]; c.vc.auto_filter = False
    c.ok(o._insert_head_buffer)
    c.require(z3.And(F >= g.F(n)))
    flushed(c, g, o, N)

@contract(QS + "._compress_immut", "C11", prove_ms=10000)
def _(c):
    g = G(c); L = g.L
    o, T, _n = summary(c, g, buffered=False)
    old = o.sampled.term; n = T.n; F = g.F(n); S0 = L.len(old)
    val = lambda t, k: g.g(t, k, "value")
    def inv(S):
        ints = [(p, x) for p, x in S.of(TInt) if "." not in p]
        heads = [(p, x) for p, x in S.of(g.T) if p in S.mod]
        lists = list(S.of(L, mod=True))
        for p, x in ints:
            yield p + " from the start", z3.Implies(S0 > 1, x >= 0)
            yield p + " within", x <= S0 - 2
        for ph, h in heads:
            f = lambda a: g.T.get(h, a)
            for pl, x in lists:
                ln = L.len(x); w = g.w(x, ln); r = n - w
                yield "%s %s the last entry is the greatest" % (ph, pl), z3.Implies(S0 == 1, z3.And(ln == 0, h == L.at(old, z3.IntVal(0))))
                yield "%s right after %s" % (ph, pl), rank(T, f("value"), f("g"), f("delta"), r, F)
                yield "%s before %s" % (ph, pl), forall(ln, lambda k: f("value") <= val(x, k), pats=lambda k: L.at(x, k))
                for p, i in ints:
                    yield "%s %s weight %s" % (ph, pl, p), z3.Implies(S0 > 1, f("g") + w + g.w(old, i + 1) == n)
                    yield "%s after %s" % (ph, p), z3.Implies(S0 > 1, val(old, i) <= f("value"))
        for pl, x in lists:
            ln = L.len(x)
            i, j = qv("i"), qv("j")
            yield pl + " in falling order", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < ln), val(x, i) >= val(x, j)), patterns=[z3.MultiPattern(L.at(x, i), L.at(x, j))])
            yield pl + " ranks", forall(ln, lambda k: rank(T, val(x, k), g.g(x, k, "g"), g.g(x, k, "delta"), n - g.w(x, k), F), pats=lambda k: L.at(x, k))
    c.vc.inv_templates = [inv]; c.vc.auto_filter = False
    thr = 2 * g.err * V.mkint(n)
    before = old
    r = c.ok(o._compress_immut, thr)
    t = r.to_term(L)
    for lab, f in parts(g, t, T, F): c.prove(lab, f)
    c.prove("the summary is left alone", o.sampled.to_term(L) == before)

# ---- callers: the contracts proved above stand for the bodies ----------------------------------------
def put(o, t, N):
    rt.RT_.setattr(o, "sampled", V.VList(o.__dict__["_g"].L, term=t) if False else t); rt.RT_.setattr(o, "_T", N)
def flush(g, o):
    """what _insert_head_buffer and compress promise: everything is retained under the invariant, the buffer is empty"""
    vc = g.vc; h = o.head_sampled; N = Both(o.__dict__["_T"], Buffer(g, h.to_term(RL))) if h.items is None or h.items else o.__dict__["_T"]
    s = g.L.new("sampled")
    if isinstance(N, Both): N = Whole(vc, N)
    for a, x in (("sampled", s), ("head_sampled", V.VList.of([])), ("count", V.mkint(N.n)), ("_T", N)): rt.RT_.setattr(o, a, x)
    vc.fact(good(g, s.term, N, g.F(N.n)))
def state(c, g, o, N, label=""):
    """o represents the values N"""
    t = o.sampled.to_term(g.L); T = o.__dict__["_T"]
    c.prove(label + "the count is the number of values retained", iv(o.count) == T.n)
    for lab, f in parts(g, t, T, g.F(T.n)): c.prove(label + lab, f)
    B = Both(T, Buffer(g, o.head_sampled.to_term(RL))) if o.head_sampled.items is None or o.head_sampled.items else T
    y = TReal.new("y").t
    tell(T)
    c.prove(label + "every value is represented once", z3.And(B.n == N.n, B.LE(y) == N.LE(y), B.LT(y) == N.LT(y)))
def stubs(which, cls=QS):
    """call-site contracts; the contract under proof installs g"""
    def fl(vc, orig, self): flush(vc.g, self)
    def immut(vc, orig, self, thr):
        g = vc.g; N = vc.whole(self); t = self.sampled.to_term(g.L)
        vc.prove("to be compressed: the threshold is twice the error times the count", rv(thr) == 2 * g.err.t * z3.ToReal(N.n))
        x, chain = t, []
        for r, p, n in reversed(g.cuts):                # a concatenation: piece by piece
            if r.eq(x): chain.insert(0, (r, p, n)); x = p
        L, F = g.L, g.F(N.n)
        for d, (r, p, n) in enumerate(chain):
            A, B = L.arr(r), L.arr(p); j = qv("j")
            first = forall(n, lambda k: entry(g, p, k, N, F), pats=lambda k: L.at(p, k))
            f = forall(n, lambda k: entry(g, r, k, N, F), pats=lambda k: L.at(r, k))
            vc.prove_from("to be compressed: piece %d" % d, [first, forall(n, lambda k: A[k] == B[k], pats=lambda k: A[k]), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= n), g.W(A, j) == g.W(B, j)), patterns=[g.W(A, j)])], f); vc.fact(f)
            f = forall(L.len(r), lambda k: entry(g, r, k, N, F), lo=n, pats=lambda k: L.at(r, k))
            vc.prove("to be compressed: rest %d" % d, f); vc.fact(f)
        for lab, f in parts(g, t, N, g.F(N.n)): vc.prove("to be compressed: " + lab, f)
        r = g.L.new("compressed"); vc.fact(good(g, r.term, N, g.F(N.n)))
        return r
    return {k: s for k, s in ((QS + "._insert_head_buffer", fl), (QS + ".compress", fl), (QS + "._compress_immut", immut)) if k.split(".")[-1] in which}

@contract(QS + ".compress", "C11", stubs=stubs({"_insert_head_buffer", "_compress_immut"}))
def _(c):
    g = G(c); c.vc.g = g; c.vc.whole = lambda s: s.__dict__["_T"]
    o, T, N = summary(c, g)
    c.ok(o.compress)
    c.prove("the buffer is empty", V.TInt.unwrap(o.head_sampled.vlen()) == 0); state(c, g, o, N)

class Plus:
    """one value more"""
    def __init__(self, N, x): self.N, self.x, self.n = N, x, N.n + 1
    def LE(self, y): return self.N.LE(y) + z3.If(self.x <= y, 1, 0)
    def LT(self, y): return self.N.LT(y) + z3.If(self.x < y, 1, 0)

@contract(QS + ".insert", "C11", stubs=stubs({"_insert_head_buffer", "compress"}))
def _(c):
    g = G(c); c.vc.g = g
    o, T, N = summary(c, g)
    ab = RL.new("abnormal"); o.__dict__["abnormal_list"] = ab; at = ab.term
    x = TReal.new("x"); out = z3.Exists([qv("e")], z3.BoolVal(True))
    j = qv("j"); out = z3.Exists([j], z3.And(j >= 0, j < RL.len(at), RL.at(at, j) == x.t))
    c.ok(o.insert, x)
    if c.vc.implied(out): state(c, g, o, N, "an abnormal value is skipped: ")
    else:
        c.prove("a value that is not abnormal is taken", z3.Not(out))
        state(c, g, o, Plus(N, x.t))

@contract(QS + ".insert", "C11", name="what is no number is skipped", stubs=stubs({"_insert_head_buffer", "compress"}))
def _(c):
    g = G(c); c.vc.g = g
    o, T, N = summary(c, g)
    o.__dict__["abnormal_list"] = V.VList.of([])
    def no(x): raise ValueError("could not convert string to float")
    c.vc.hooks["float"] = no
    c.ok(o.insert, TOpaque("Text").new("x"))
    state(c, g, o, N)

def merging(wa, wb):
    @contract(QS + ".merge", "C11", name="%s.merge (values waiting: %s, %s)" % (QS, wa, wb), stubs=stubs({"_insert_head_buffer", "compress", "_compress_immut"}), prove_ms=10000, inv_ms=1500, budget=500)
    def _(c):
        g = G(c, exact=False); c.vc.g = g; L = g.L
        a, Ta, Na = summary(c, g, "A", buffered=wa); b, Tb, Nb = summary(c, g, "B", buffered=wb)
        val = lambda t, k: g.g(t, k, "value")
        gh = lambda o: o.__dict__["_T"]
        def whole(o):
            if o is not a: raise Unsupported("compression of another summary")
            a.__dict__["_T"] = N = Both(gh(a), gh(b))
            return N
        c.vc.whole = whole
        def inv(S):
            A, B = a.sampled.to_term(L), b.sampled.to_term(L); N = Both(gh(a), gh(b)); F = g.F(N.n)
            SA, SB = L.len(A), L.len(B); z = z3.IntVal(0)
            ints = [(p, x) for p, x in S.of(TInt, mod=True)]
            F0 = g.F(gh(a).n) + g.F(gh(b).n) <= F
            c.vc.fact(F0)
            for p, x in ints:
                yield p + " not negative", x >= 0
                yield p + " within the first", x <= SA
                yield p + " within the second", x <= SB
                for q, y in ints:
                    if p == q: continue
                    yield p + " first taken, second left " + q, z3.Implies(z3.And(x > 0, y < SB), val(A, x - 1) <= val(B, y))
                    yield q + " second taken, first left " + p, z3.Implies(z3.And(y > 0, x < SA), val(B, y - 1) <= val(A, x))
            for pl, x in S.of(L, mod=True):
                ln = L.len(x); i, j = qv("i"), qv("j")
                yield pl + " in order", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < ln), val(x, i) <= val(x, j)), patterns=[z3.MultiPattern(L.at(x, i), L.at(x, j))])
                yield pl + " ranks", forall(ln, lambda k: entry(g, x, k, N, F), pats=lambda k: L.at(x, k))
                yield pl + " first is exact", z3.Implies(ln > 0, z3.And(g.g(x, z, "g") == 1, g.g(x, z, "delta") == 0))
                for p, s in ints:
                    yield pl + " below the first from " + p, z3.Implies(s < SA, forall(ln, lambda k: val(x, k) <= val(A, s), pats=lambda k: L.at(x, k)))
                    yield pl + " below the second from " + p, z3.Implies(s < SB, forall(ln, lambda k: val(x, k) <= val(B, s), pats=lambda k: L.at(x, k)))
                    for q, h in ints:
                        if p == q: continue
                        yield pl + " length %s %s" % (p, q), ln == s + h
                        yield pl + " weight %s %s" % (p, q), g.w(x, ln) == g.w(A, s) + g.w(B, h)
        c.vc.inv_templates = [inv]; c.vc.auto_filter = False
        c.ok(a.merge, b)
        if c.vc.implied(gh(b).n == 0): c.prove("an empty summary changes nothing", gh(b).n == 0)
        elif gh(a) is Ta or not isinstance(gh(a), Both) or gh(a).b is not gh(b): a.__dict__["_T"] = Both(gh(a), gh(b))
        state(c, g, a, Both(Na, Nb), "merged: ")
        state(c, g, b, Nb, "the other: ")
for wa in (True, False):
    for wb in (True, False): merging(wa, wb)

@contract(QS + ".query", "C11", stubs=stubs({"_insert_head_buffer", "compress"}), prove_ms=10000)
def _(c):
    g = G(c); c.vc.g = g; L = g.L
    o, T, N = summary(c, g)
    q = TReal.new("quantile"); n = N.n
    en, qn = g.err.t * z3.ToReal(n), q.t * z3.ToReal(n)
    ceil = lambda x: -z3.ToInt(-x)
    te, rank_ = ceil(en), ceil(qn)
    c.vc.fact(z3.Implies(z3.And(q.t > g.err.t, n > 0), qn > en)); c.vc.fact(z3.Implies(z3.And(q.t < 1, n > 0), qn < z3.ToReal(n))); c.vc.fact(z3.Implies(z3.And(q.t >= 1 - g.err.t, n >= 0), qn >= z3.ToReal(n) - en))
    c.vc.fact(z3.Implies(q.t >= 0, qn >= 0)); c.vc.fact(z3.Implies(z3.And(q.t <= g.err.t), qn <= en)); c.vc.fact(z3.Implies(z3.And(q.t <= 1, n >= 0), qn <= z3.ToReal(n)))
    def inv(S):
        A = o.sampled.to_term(L); SA = L.len(A)
        ints = [(p, x) for p, x in S.of(TInt, mod=True)]
        for p, x in ints:
            yield p + " from one", x >= 1
            yield p + " within", z3.Or(x == 1, x <= SA - 1)
            for r, y in ints:
                if p == r: continue
                yield "%s rank of %s" % (r, p), y == g.w(A, x) - 1
                yield "%s too low for %s" % (r, p), z3.Or(x == 1, y + te < rank_)
    c.vc.inv_templates = [inv]; c.vc.auto_filter = False
    v, exc = c.call(o.query, q)
    bad = z3.Or(q.t < 0, q.t > 1)
    if exc is not None:
        c.prove("refused only outside [0, 1]", z3.And(bad, z3.BoolVal(isinstance(exc, ValueError)))); return
    c.prove("a quantile outside [0, 1] is refused", z3.Not(bad))
    state(c, g, o, N)
    if c.vc.implied(n == 0): c.prove("nothing inserted: zero", rv(v) == 0); return
    x = rv(v)
    c.prove("the answer is an inserted value", N.LE(x) > N.LT(x))
    c.prove("not above the wanted rank by more than its error", N.LT(x) + 1 <= rank_ + te + 1)
    c.prove("not below the wanted rank by more than its error", N.LE(x) >= rank_ - te - 1)

@contract(QS + ".merge", "C11", name="lemma: the allowances of two summaries are allowed together")
def _(c):
    g = G(c); m, n = TInt.new("m").t, TInt.new("n").t; c.require(m >= 0, n >= 0)
    c.prove("floor(2em) + floor(2en) is at most floor(2e(m+n))", g.F(m) + g.F(n) <= g.F(m + n))
@contract(QS + ".merge", "C11", name="lemma: the allowance grows with the count")
def _(c):
    e, m, n = TReal.new("error").t, TInt.new("m").t, TInt.new("n").t; c.require(e > 0, m >= 0, m <= n)
    c.require(2 * e * z3.ToReal(n) == 2 * e * z3.ToReal(m) + 2 * e * z3.ToReal(n - m))
    F = lambda k: z3.ToInt(2 * e * z3.ToReal(k))
    c.prove("not negative", F(m) >= 0); c.prove("grows", F(m) <= F(n))

# ---- sparse columns ----------------------------------------------------------------------------------
@contract(SQ + ".insert", "C11", stubs={QS + ".insert": lambda vc, orig, self, x: vc.taken.append(x)})
def _(c):
    g = G(c); o, T, N = summary(c, g, sparse=True); c.vc.taken = []
    x, s, b = TReal.new("x"), TInt.new("smaller"), TInt.new("bigger"); o.__dict__.update(smaller_num=s, bigger_num=b)
    c.ok(o.insert, x)
    z = rv(c.get("ml.utils.consts:FLOAT_ZERO"))
    c.prove("the value is inserted once", z3.And(len(c.vc.taken) == 1, *[rv(y) == x.t for y in c.vc.taken]))
    c.prove("and counted on its side of zero", z3.And(iv(o.smaller_num) == s.t + z3.If(x.t < z, 1, 0), iv(o.bigger_num) == b.t + z3.If(x.t >= z, 1, 0)))

@contract(SQ + ".merge", "C11", stubs={QS + ".merge": lambda vc, orig, self, other: vc.taken.append((self, other))})
def _(c):
    g = G(c); c.vc.taken = []
    o, T, N = summary(c, g, "A", sparse=True, buffered=False); p, T2, N2 = summary(c, g, "B", sparse=True, buffered=False)
    cs = [TInt.new(x) for x in ("smaller_a", "bigger_a", "smaller_b", "bigger_b")]
    o.__dict__.update(smaller_num=cs[0], bigger_num=cs[1]); p.__dict__.update(smaller_num=cs[2], bigger_num=cs[3])
    c.ok(o.merge, p)
    c.prove("the values are merged once", len(c.vc.taken) == 1 and c.vc.taken[0][0] is o and c.vc.taken[0][1] is p)
    c.prove("and both sides of zero are counted together", z3.And(iv(o.smaller_num) == cs[0].t + cs[2].t, iv(o.bigger_num) == cs[1].t + cs[3].t, iv(p.smaller_num) == cs[2].t, iv(p.bigger_num) == cs[3].t))

def sparse_query(vc, orig, self, quantile):
    vc.asked.append(quantile); vc.answer = vc.fresh("answer", R); return V.SReal(vc.answer)
@contract(SQ + ".query", "C11", stubs={QS + ".query": sparse_query}, prove_ms=10000)
def _(c):
    g = G(c); o, T, N = summary(c, g, sparse=True, buffered=False); c.vc.asked = []
    s, b, t, n, q = TInt.new("smaller"), TInt.new("bigger"), TInt.new("total"), T.n, TReal.new("quantile")
    o.__dict__.update(smaller_num=s, bigger_num=b); c.ok(o.set_total_count, t)
    c.require(s.t >= 0, b.t >= 0, s.t + b.t == n, n <= t.t, t.t > 0, q.t >= 0, q.t <= 1)
    r = z3.ToReal; zeros = t.t - n; qt = q.t * r(t.t)
    # dividing by the total and multiplying again
    D = lambda a, b_: z3.If(b_ == 0, z3.RealVal(0), a / b_)
    for a in (s.t, s.t + zeros, n, zeros): c.vc.fact((r(a) / r(t.t)) * r(t.t) == r(a))
    c.vc.fact(z3.Implies(q.t < r(s.t) / r(t.t), qt < r(s.t))); c.vc.fact(z3.Implies(q.t >= r(s.t) / r(t.t), qt >= r(s.t)))
    c.vc.fact(z3.Implies(q.t > r(s.t + zeros) / r(t.t), qt > r(s.t + zeros))); c.vc.fact(z3.Implies(q.t <= r(s.t + zeros) / r(t.t), qt <= r(s.t + zeros)))
    c.vc.fact(qt <= r(t.t))
    v = c.ok(o.query, q)
    if not c.vc.asked:
        c.prove("zero is answered for the ranks of the zeros", z3.And(rv(v) == 0, qt >= r(s.t), qt <= r(s.t + zeros)))
    else:
        p = rv(c.vc.asked[-1]); k = p * r(n)
        c.prove("the stored values are asked once", len(c.vc.asked) == 1)
        c.prove("there are stored values", n > 0); c.prove("their answer is given", rv(v) == c.vc.answer)
        c.prove("below the zeros: the same rank", z3.Implies(qt < r(s.t), k == qt))
        c.prove("above the zeros: the rank without them", z3.Implies(qt >= r(s.t), k == qt - r(zeros)))
        c.prove("the rank lies on the side asked", z3.Implies(qt >= r(s.t), qt > r(s.t + zeros)))
        c.prove("a quantile between 0 and 1 is asked", z3.And(p >= 0, p <= 1))

# ---- split points ------------------------------------------------------------------------------------
QB = "ml.feature.binning.quantile_binning:QuantileBinning"; BB = "ml.feature.binning.base_binning:Binning"
SUM = TOpaque("Summary"); SD = TDict(TStr, SUM); SPD = TDict(TStr, RL)
QF = z3.Function("quantile_of", SUM.sort, R, R)
def initialised(vc, orig, self, data): vc.inits.append(data)
def fitting(known, sparse):
    @contract(QB + ".fit_split_points", "C11", name=QB + ".fit_split_points" + (" (sparse)" if sparse else " (summaries known)" if known else ""),
        stubs={BB + "._init_cols": initialised, "ml.statistic.data_overview:is_sparse_data": lambda vc, orig, d: vc.sparse, QB + ".approxiQuantile": lambda vc, orig, *a, **k: vc.local(a, k), QB + ".merge_summary_dict": lambda vc, orig, a, b: vc.merged.append((a, b)) or "merged"}, inv_ms=3000)
    def _(c):
        vc = c.vc; vc.inits, vc.merged, vc.reduced, vc.mapped = [], [], None, None
        bins = TInt.new("bins"); c.require(bins.t >= 2)
        P = Obj(bin_num=bins, cols=-1); vc.obj_birth(P)
        o = c.get(QB)(P)
        sd = SD.new("summaries"); d = sd.term; nc = SD.n(d); m = bins.t - 1
        told = z3.Function("told_total", SUM.sort, I); asked = []
        vc.hooks[("attr", "Summary", "query")] = lambda x: lambda q: V.SReal(QF(x.t, rv(q)))
        ghost = Obj(told=TInt.new("told_zero")); vc.obj_birth(ghost)
        s0 = SUM.new("s0"); c.require(ghost.told.t == 0); vc.ghost.setdefault("spec_roots", []).append(ghost)
        total = TInt.new("rows")
        def tell(x, k): rt.RT_.setattr(ghost, "told", V.mkint(z3.If(x.t == s0.t, iv(k), ghost.told.t)))
        vc.hooks[("attr", "Summary", "set_total_count")] = lambda x: lambda k: tell(x, k)
        vc.sparse = sparse
        class Data:
            def mapPartitions(self, f): vc.mapped = f; return Parts()
            def count(self): return total
        class Parts:
            def reduce(self, f): vc.reduced = f; return sd
        data = Data()
        if known: o.__dict__["summary_dict"] = sd
        rate = lambda k: z3.ToReal(k + 1) * (z3.RealVal(1) / z3.ToReal(bins.t))
        k0 = TStr.new("column").t; at = SD.pos(d); w = z3.Select(SD.pos(d), k0)
        S0 = SD.val(d, k0)
        c.require(SD.has(d, k0), z3.Implies(vc.sparse, s0.t == S0))
        key = lambda i: z3.Select(SD.keyat(d), i)
        kq = TInt.new("quantile_number").t; c.require(kq >= 0, kq < m)
        def members(x, s, n):
            """the entries of x are answers for the first n quantiles; each of them is there"""
            i, j = qv("i"), qv("j")
            e = lambda i: exists(n, lambda k: RL.at(x, i) == QF(s, rate(k)))
            return [("answers", forall(RL.len(x), e, pats=lambda i: RL.at(x, i))), ("every answer", z3.Implies(kq < n, exists(RL.len(x), lambda i: RL.at(x, i) == QF(s, rate(kq)))))]
        def apart(x): 
            i, j = qv("i"), qv("j"); return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < RL.len(x)), RL.at(x, i) != RL.at(x, j)), patterns=[z3.MultiPattern(RL.at(x, i), RL.at(x, j))])
        def rising(x):
            i, j = qv("i"), qv("j"); return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < RL.len(x)), RL.at(x, i) < RL.at(x, j)), patterns=[z3.MultiPattern(RL.at(x, i), RL.at(x, j))])
        def inv(S):
            for p, x in S.of(RL, mod=True):
                for q, s in S.of(SUM):
                    for lab, f in members(x, s, S.it): yield "%s %s %s" % (p, q, lab), f
                yield p + " apart", apart(x)
            for p, x in S.of(SPD, mod=True):
                i = qv("i")
                yield p + " columns so far", z3.And(SPD.n(x) == S.it, forall(S.it, lambda i: z3.Select(SPD.keyat(x), i) == key(i), pats=lambda i: z3.Select(SPD.keyat(x), i)))
                yield p + " in step", forall(S.it, lambda i: SPD.has(x, key(i)), pats=lambda i: key(i))
                yield p + " rising", z3.Implies(w < S.it, rising(SPD.val(x, k0)))
                for lab, f in members(SPD.val(x, k0), S0, m): yield p + " " + lab, z3.Implies(w < S.it, f)
            if vc.sparse and not known:
                for p, x in S.of(TInt, mod=True):
                    if p.startswith("$"): yield p + " told", z3.Implies(w < S.it, x == total.t)
        vc.inv_templates = [inv]
        c.ok(o.fit_split_points, data)
        if not known:
            if vc.sparse: c.prove("a sparse summary is told how many rows there are", ghost.told.t == total.t)
            c.prove("the columns are known before", len(vc.inits) >= 1 and all(x is data for x in vc.inits))
            c.prove("the parts are merged", vc.reduced is not None and vc.reduced("a", "b") == "merged" and vc.merged == [("a", "b")])
            got = []
            vc.local = lambda a, k: got.append((a, k)) or V.VList.of([])
            rows = TOpaque("Rows").new("rows")
            try: vc.mapped(rows)
            except TypeError: raise Unsupported("parts summarised in another way")
            c.prove("every part is summarised", len(got) == 1 and any(x is rows for x in list(got[0][0]) + list(got[0][1].values())))
        sp = o.split_points
        if not isinstance(sp, V.VDict): raise Unsupported("split points kept in another form")
        u = sp.to_term(SPD)
        c.prove("split points for the column", SPD.has(u, k0))
        x = SPD.val(u, k0)
        c.prove("in increasing order, without repetition", rising(x))
        (_, f), (_, h) = members(x, S0, m)
        c.prove("each is the answer for one of the quantiles", f); c.prove("every quantile's answer is one of them", h)
for known, sparse in ((False, False), (False, True), (True, False)): fitting(known, sparse)

ROW = TOpaque("Instance"); KROW = TTuple(K, ROW); ROWS = TList(KROW); CD = TDict(TStr, TInt)
class Instance: pass
FEATS = z3.Function("features_of", ROW.sort, RL.sort); MV = TDict(TInt, TReal); STORED = z3.Function("stored_of", ROW.sort, MV.sort)
def inserting(sparse, bare=False):
    """one column (name k0): what its summary receives, in which order"""
    @contract(QB + ".insert_datas", "C11", name=QB + ".insert_datas (%s)" % ("sparse" if sparse else "rows that are lists" if bare else "dense"), prove_ms=10000)
    def _(c):
        vc = c.vc
        rows = ROWS.new("rows"); t = rows.term; n = ROWS.len(t)
        sd = SD.new("summaries"); d = sd.term; cd = CD.new("columns"); hd = TList(TStr).new("header"); h = hd.term; HL = TList(TStr)
        k0 = TStr.new("column").t; has0 = SD.has(d, k0); key = lambda i: z3.Select(SD.keyat(d), i); w = z3.Select(SD.pos(d), k0)
        S0 = SD.val(d, k0); c0 = CD.val(cd.term, k0)
        i, j = qv("i"), qv("j")
        COL, IDX = z3.Function("column_of", SUM.sort, TStr.sort), z3.Function("index_of", TStr.sort, I); nm = z3.Const("name?q", TStr.sort)
        c.require(has0, z3.ForAll([nm], z3.Implies(SD.has(d, nm), COL(SD.val(d, nm)) == nm), patterns=[SD.val(d, nm)]))    # no two columns share a summary
        c.require(forall(SD.n(d), lambda i: z3.And(CD.has(cd.term, key(i)), CD.val(cd.term, key(i)) >= 0, CD.val(cd.term, key(i)) < HL.len(h), HL.at(h, CD.val(cd.term, key(i))) == key(i)), pats=lambda i: key(i)))
        c.require(forall(HL.len(h), lambda i: IDX(HL.at(h, i)) == i, pats=lambda i: HL.at(h, i)))      # nor a name
        row = lambda r: KROW.acc(1, ROWS.at(t, r)); x = z3.Const("row?q", ROW.sort)
        c.require(z3.ForAll([x], RL.len(FEATS(x)) == HL.len(h), patterns=[FEATS(x)]))
        E = ghostlist(c); log = root(c, log=E.wrap(E.start))
        def insert(s, v): rt.RT_.setattr(log, "log", E.wrap(z3.If(s.t == S0, E.put(log.log.t, rv(v)), log.log.t)))
        vc.hooks[("attr", "Summary", "insert")] = lambda s: lambda v: insert(s, v)
        if not bare: vc.hooks[("type", "Instance")] = Instance
        class Sp:
            def __init__(self, t): self.t = t
            def get_all_data(self): return V.VDict(MV, term=STORED(self.t)).items()
        vc.hooks[("attr", "Instance", "features")] = lambda o: Sp(o.t) if sparse else V.VList(TReal, term=FEATS(o.t))
        if bare: rows = V.VList(TTuple(K, RL), term=TList(TTuple(K, RL)).fresh("rows")); LL = TList(TTuple(K, RL)); t = rows.term; n = LL.len(t); feats = lambda r: TTuple(K, RL).acc(1, LL.at(t, r)); c.require(forall(n, lambda r: RL.len(feats(r)) == HL.len(h), pats=lambda r: LL.at(t, r)))
        else: feats = lambda r: FEATS(row(r))
        if not sparse:
            cnt = lambda r: r
            have = lambda r: z3.BoolVal(True); value = lambda r: RL.at(feats(r), c0)
        else:
            cnt, src = z3.Function("kept", I, I), z3.Function("kept_row", I, I)
            m = lambda r: STORED(row(r)); have = lambda r: MV.has(m(r), c0); value = lambda r: MV.val(m(r), c0)
            x_ = STORED(x); kk = z3.Select(MV.keyat(x_), j)
            c.require(cnt(0) == 0, z3.ForAll([x], z3.And(*MV.wf(x_)), patterns=[x_]), z3.ForAll([x, j], z3.Implies(z3.And(j >= 0, j < MV.n(x_)), z3.And(kk >= 0, kk < HL.len(h))), patterns=[kk]))
            c.require(forall(n, lambda r: z3.And(cnt(r) >= 0, cnt(r + 1) == cnt(r) + z3.If(have(r), 1, 0), z3.Implies(have(r), src(cnt(r)) == r)), pats=lambda r: ROWS.at(t, r)))
        def ok(l, r): return z3.And(E.len(l) == cnt(r), forall(r, lambda q: z3.Implies(have(q), E.at(l, cnt(q)) == value(q)), pats=lambda q: LL.at(t, q) if bare else ROWS.at(t, q)))
        def inv(S):
            st = VC.cur.loopstack; k = st.index(S.loop) if S.loop in st else len(st)
            pos = [x.it for x in st[:k]] + [S.it]
            for p, l in S.of(E, mod=True):
                if len(pos) == 1: yield p + " so far", ok(l, pos[0])
                elif len(pos) == 2:
                    r, it = pos; q = w if not sparse else z3.Select(MV.pos(m(r)), c0)
                    yield p + " earlier rows", forall(r, lambda q: z3.Implies(have(q), E.at(l, cnt(q)) == value(q)), pats=lambda q: LL.at(t, q) if bare else ROWS.at(t, q))
                    yield p + " this row", z3.If(z3.And(have(r), q < it), z3.And(E.len(l) == cnt(r) + 1, E.at(l, cnt(r)) == value(r)), E.len(l) == cnt(r))
        vc.inv_templates = [inv]; vc.auto_filter = False
        c.ok(c.get(QB).insert_datas, rows, sd, cd, hd, sparse)
        l = log.log.t
        c.prove("a column's summary receives the column's values, once each", ok(l, n))
def ghostlist(c):
    class TLog(TOpaque):
        def mksort(self): return RL.sort
    E = TLog("Log")
    E.start = RL.mk(z3.IntVal(0), z3.K(I, z3.RealVal(0)))
    E.len, E.at = RL.len, RL.at
    E.put = lambda l, v: RL.mk(RL.len(l) + 1, z3.Store(RL.arr(l), RL.len(l), v))
    return E

class _A(TOpaque):
    def __init__(self, name, dom, rng): TOpaque.__init__(self, name); self.d, self.r = dom, rng
    def mksort(self): return z3.ArraySort(self.d, self.r)
DONE = _A("Done", SUM.sort, I); MERGED = _A("Merged", SUM.sort, SUM.sort)
def root(c, **kw):
    o = Obj(**kw); c.vc.obj_birth(o); c.vc.ghost.setdefault("spec_roots", []).append(o); return o

inserting(False); inserting(True); inserting(False, True)

@contract(QB + ".merge_summary_dict", "C11")
def _(c):
    vc = c.vc
    a, b = SD.new("first"), SD.new("second"); d, e = a.term, b.term; key = lambda i: z3.Select(SD.keyat(d), i); i, j = qv("i"), qv("j"); n = SD.n(d)
    c.require(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), SD.val(d, key(i)) != SD.val(d, key(j))), patterns=[z3.MultiPattern(key(i), key(j))]), forall(n, lambda i: SD.has(e, key(i)), pats=lambda i: key(i)))
    m0 = z3.Const("merged0", MERGED.sort)
    o = root(c, times=DONE.wrap(z3.K(SUM.sort, z3.IntVal(0))), what=MERGED.wrap(m0))
    def merge(s, x):
        rt.RT_.setattr(o, "times", DONE.wrap(z3.Store(o.times.t, s.t, z3.Select(o.times.t, s.t) + 1))); rt.RT_.setattr(o, "what", MERGED.wrap(z3.Store(o.what.t, s.t, x.t)))
    vc.hooks[("attr", "Summary", "merge")] = lambda s: lambda x: merge(s, x)
    k0 = TStr.new("column").t; c.require(SD.has(d, k0)); w = z3.Select(SD.pos(d), k0); S0 = SD.val(d, k0)
    def inv(S):
        for p, x in S.of(DONE, mod=True): yield p + " times", z3.Select(x, S0) == z3.If(w < S.it, 1, 0)
        for p, x in S.of(MERGED, mod=True): yield p + " what", z3.Implies(w < S.it, z3.Select(x, S0) == SD.val(e, k0))
        for p, x in S.of(SD, mod=True):
            yield p + " columns", z3.And(SD.n(x) == S.it, forall(S.it, lambda i: z3.Select(SD.keyat(x), i) == key(i), pats=lambda i: key(i)))
            yield p + " columns back", forall(S.it, lambda i: z3.Select(SD.keyat(x), i) == key(i), pats=lambda i: z3.Select(SD.keyat(x), i))
            yield p + " column", z3.And(SD.has(x, k0) == (w < S.it), z3.Implies(w < S.it, SD.val(x, k0) == S0))
    vc.inv_templates = [inv]
    f = c.get(QB).merge_summary_dict
    which = vc.choose(4)
    if which == 1: c.prove("nothing to merge", c.ok(f, None, None) is None)
    elif which == 2: c.prove("the other one alone", c.ok(f, None, b) is b)
    elif which == 3: c.prove("the first one alone", c.ok(f, a, None) is a)
    else:
        r = c.ok(f, a, b)
        if not isinstance(r, V.VDict): raise Unsupported("result is another structure")
        u = r.to_term(SD)
        c.prove("every column is kept", z3.And(SD.n(u) == n, SD.has(u, k0)))
        if c.vc.implied(SD.val(u, k0) == S0): c.prove("the column's summaries are merged once", z3.And(z3.Select(o.times.t, S0) == 1, z3.Select(o.what.t, S0) == SD.val(e, k0)))
        else: c.prove("the column's summary is kept", SD.val(u, k0) == S0)

BORN = z3.Function("born_number", SUM.sort, I); PART = z3.Function("inserted_part", SUM.sort, I)
def making(kind):
    def make(vc, orig, compress_thres=None, head_size=None, error=None, abnormal_list=None):
        x = SUM.fresh("summary"); g = vc.born
        x = x.t if hasattr(x, 't') else x; vc.fact(BORN(x) == iv(g.number))
        vc.made.append((kind, compress_thres, head_size, error, abnormal_list))
        ok = z3.And(iv(compress_thres) == iv(vc.P.compress_thres), iv(head_size) == iv(vc.P.head_size), rv(error) == rv(vc.P.error), z3.BoolVal(abnormal_list is vc.abnormal))
        if compress_thres is None: raise Unsupported("summary made in another way")
        vc.prove("the column's summary is of the kind and has the settings asked", z3.And(ok, z3.BoolVal(kind == vc.sparse)))
        rt.RT_.setattr(g, "number", V.mkint(iv(g.number) + 1))
        return SUM.wrap(x)
    return make
def summarising(sparse):
    def inserted(vc, orig, *a, **k): vc.ins.append((a, k))
    @contract(QB + ".approxiQuantile", "C11", name=QB + ".approxiQuantile" + (" (sparse)" if sparse else ""),
        stubs={QB + ".insert_datas": inserted, "ml.feature.binning.quantile_binning:QuantileSummaries": making(False), "ml.feature.binning.quantile_binning:SparseQuantileSummaries": making(True)})
    def _(c):
        vc = c.vc; vc.ins, vc.made = [], []; vc.sparse = sparse; vc.abnormal = []
        P = vc.P = Obj(compress_thres=TInt.new("thres"), head_size=TInt.new("head"), error=TReal.new("error"), bin_num=TInt.new("bins"), cols=-1); vc.obj_birth(P)
        cd = CD.new("columns"); d = cd.term; n = CD.n(d); key = lambda i: z3.Select(CD.keyat(d), i)
        k0, k1 = TStr.new("column").t, TStr.new("other").t; c.require(CD.has(d, k0), CD.has(d, k1), k0 != k1)
        w, w1 = z3.Select(CD.pos(d), k0), z3.Select(CD.pos(d), k1)
        g = vc.born = root(c, number=TInt.new("made_zero"), pressed=DONE.wrap(z3.K(SUM.sort, z3.IntVal(0))))
        c.require(g.number.t == 0)
        def press(s): rt.RT_.setattr(g, "pressed", DONE.wrap(z3.Store(g.pressed.t, s.t, z3.Select(g.pressed.t, s.t) + 1)))
        vc.hooks[("attr", "Summary", "compress")] = lambda s: lambda: press(s)
        def inv(S):
            for p, x in S.of(TInt):
                if p.startswith("$"): yield p + " made", x == S.it
            for p, x in S.of(SD, mod=True):
                yield p + " columns", z3.And(SD.n(x) == S.it, forall(S.it, lambda i: z3.Select(SD.keyat(x), i) == key(i), pats=lambda i: key(i)))
                yield p + " columns back", forall(S.it, lambda i: z3.Select(SD.keyat(x), i) == key(i), pats=lambda i: z3.Select(SD.keyat(x), i))
                for k, u in ((k0, w), (k1, w1)): yield p + " column %s" % k, z3.And(SD.has(x, k) == (u < S.it), z3.Implies(u < S.it, BORN(SD.val(x, k)) == u))
            for p, x in S.of(DONE, mod=True):
                for q, u in S.of(SD): yield p + " pressed " + q, z3.And(z3.Select(x, SD.val(u, k0)) >= 0, z3.Implies(z3.Select(SD.pos(u), k0) < S.it, z3.Select(x, SD.val(u, k0)) >= 1))
        vc.inv_templates = [inv]
        rows, header = TOpaque("Rows").new("rows"), TList(TStr).new("header")
        r = c.ok(c.get(QB).approxiQuantile, rows, P, cd, vc.abnormal, header, sparse)
        items = r.items if isinstance(r, V.VList) else r
        if not isinstance(items, (list, tuple)): raise Unsupported("result in another form")
        c.prove("one dictionary", len(items) == 1)
        sd = items[0]
        if not isinstance(sd, V.VDict): raise Unsupported("result in another form")
        u = sd.to_term(SD)
        c.prove("every column has a summary", z3.And(SD.n(u) == n, SD.has(u, k0)))
        c.prove("its buffer is flushed", z3.Select(g.pressed.t, SD.val(u, k0)) >= 1)
        c.prove("no two columns share one", SD.val(u, k0) != SD.val(u, k1))
        a, k = vc.ins[0] if vc.ins else ((), {})
        c.prove("the rows are inserted once", len(vc.ins) == 1)
        names = ("data_instances", "summary_dict", "cols_dict", "header", "is_sparse"); got = dict(zip(names, a), **k)
        c.prove("the rows of this part, for these columns", got.get("data_instances") is rows and got.get("cols_dict") is cd and got.get("header") is header and got.get("is_sparse") == sparse and got.get("summary_dict") is sd)
summarising(False); summarising(True)
