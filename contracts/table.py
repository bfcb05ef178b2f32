"""C01-C03: the table."""
from .common import *

M = "computing.d_table:DTable."

# ---- templates ---------------------------------------------------------------------------------
def pairs_inv(pair, kty, vty):
    """a list of pairs built in step with the iteration: its j-th element is pair(j)"""
    P = TTuple(kty, vty)
    def g(S):
        for p, t in S.of(TList(P), mod=True):
            L = TList(P)
            yield "%s copies" % p, forall(S.it, lambda j: L.at(t, j) == P.mk(*pair(j)), pats=lambda j: L.at(t, j))
        D = TDict(kty, vty)
        for p, t in S.of(D, mod=True):
            yield "%s dict copies" % p, z3.And(D.n(t) == S.it, forall(S.it, lambda j: z3.And(z3.Select(D.keyat(t), j) == pair(j)[0], D.val(t, pair(j)[0]) == pair(j)[1]), pats=lambda j: z3.Select(D.keyat(t), j)))
    return g

def filt_funs(c, n, cond):
    # cnt and src are defined by the recursion cnt(0) = 0, cnt(j+1) = cnt(j) + [cond(j)], src(i) = the j with
    # cond(j) and cnt(j) = i; the facts below are their elementary consequences (monotone, inverse); they are
    # definitional for any predicate, so they constrain nothing else
    """position bookkeeping of a filter: cnt(j) kept among the first j, src(i) origin of the i-th kept"""
    v = c.vc
    I = z3.IntSort()
    cnt, src = z3.Function(v.freshname("cnt"), I, I), z3.Function(v.freshname("src"), I, I)
    v.fact(cnt(0) == 0)
    v.fact(forall(n + 1, lambda j: z3.And(cnt(j) >= 0, cnt(j) <= j), pats=lambda j: cnt(j)))
    v.fact(forall(n, lambda j: z3.Implies(cond(j), z3.And(src(cnt(j)) == j, cnt(j) < cnt(n))), pats=lambda j: cnt(j)))
    def hint(S):
        yield z3.Implies(z3.And(S.it >= 0, S.it < n), cnt(S.it + 1) == cnt(S.it) + z3.If(cond(S.it), 1, 0))
    v.hint_templates = v.hint_templates + [hint]
    v.ghost.setdefault("filters", []).append((n, cond, cnt, src))
    v.fact(forall(cnt(n), lambda i: z3.And(src(i) >= 0, src(i) < n, cond(src(i)), cnt(src(i)) == i), pats=lambda i: src(i)))
    v.fact(z3.And(cnt(n) >= 0, cnt(n) <= n))
    i, j = qv("i"), qv("j")
    v.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j <= n), cnt(i) <= cnt(j)), patterns=[z3.MultiPattern(cnt(i), cnt(j))]))
    v.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < cnt(n)), src(i) < src(j)), patterns=[z3.MultiPattern(src(i), src(j))]))
    return cnt, src

def filt_inv(cnt, src, pair, kty, vty):
    P = TTuple(kty, vty); L = TList(P)
    def g(S):
        for p, t in S.of(L, mod=True):
            yield "%s length" % p, L.len(t) == cnt(S.it)
            yield "%s kept" % p, forall(cnt(S.it), lambda i: L.at(t, i) == P.mk(*pair(src(i))), pats=lambda i: L.at(t, i))
        D = TDict(kty, vty)
        for p, t in S.of(D, mod=True):
            yield "%s dlength" % p, D.n(t) == cnt(S.it)
            yield "%s dkept" % p, forall(cnt(S.it), lambda i: z3.And(z3.Select(D.keyat(t), i) == pair(src(i))[0], D.val(t, pair(src(i))[0]) == pair(src(i))[1]), pats=lambda i: z3.Select(D.keyat(t), i))
    return g

def proved_view(c, what, out, n, pair, kty, vty):
    try: o = view(out, kty, vty)
    except (TypeMismatch, AttributeError) as e:
        if isinstance(e, TypeMismatch) and getattr(storage(out), "items_", None) == {} :
            c.prove(what + ": one row per input row", n == 0); return
        raise Unsupported("result view: %s" % e)
    c.prove(what + ": one row per input row", o.n == n)
    c.prove(what + ": keys and rows as specified", forall(n, lambda j: z3.And(o.key(j) == pair(j)[0], o.val(j) == pair(j)[1])))

def setup(c, f=True):
    t = mk_table(c, K, A)
    s = snap(t)
    D, term = s
    n = D.n(term)
    key = lambda j: z3.Select(D.keyat(term), j)
    val = lambda j: D.val(term, key(j))
    return t, s, n, key, val

# ---- constructor ---------------------------------------------------------------------------------
@contract(M + "__init__", "C01", name="DTable.__init__ keyed")
def _(c):
    P = TTuple(K, A); L = TList(P)
    data = L.new("data"); d = data.term
    pair = lambda j: (P.acc(0, L.at(d, j)), P.acc(1, L.at(d, j)))
    def inv(S):
        D = TDict(K, A)
        for p, t in S.of(D, mod=True):
            yield p + " copies", z3.And(D.n(t) == S.it, forall(S.it, lambda j: z3.And(z3.Select(D.keyat(t), j) == pair(j)[0], D.val(t, pair(j)[0]) == pair(j)[1]), pats=lambda j: L.at(d, j)))
            yield p + " from", forall(S.it, lambda j: z3.And(z3.Select(D.keyat(t), j) == pair(j)[0], D.val(t, pair(j)[0]) == pair(j)[1]), pats=lambda j: z3.Select(D.keyat(t), j))
    c.vc.inv_templates = [inv]
    n = L.len(d)
    cls = c.get("computing.d_table:DTable")
    r, e = c.call(cls, True, data)
    i, j = qv("i"), qv("j")
    distinct = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), pair(i)[0] != pair(j)[0]))
    if e is not None:
        c.prove("refuses only duplicate keys", z3.And(z3.BoolVal(isinstance(e, ValueError)), z3.Not(distinct)))
        return
    c.prove("accepts only distinct keys", distinct)
    proved_view(c, "construct", r, n, pair, K, A)

@contract(M + "__init__", "C01", name="DTable.__init__ positional")
def _(c):
    L = TList(A); data = L.new("data"); d = data.term; n = L.len(d)
    pair = lambda j: (j, L.at(d, j))
    def inv(S):
        D = TDict(TInt, A)
        k = qv("k")
        for p, t in S.of(D, mod=True):
            yield p + " numbers", z3.And(D.n(t) == S.it, z3.ForAll([k], D.has(t, k) == z3.And(k >= 0, k < S.it), patterns=[z3.Select(D.pos(t), k)]))
            yield p + " order", forall(S.it, lambda j: z3.Select(D.keyat(t), j) == j, pats=lambda j: z3.Select(D.keyat(t), j))
            yield p + " rows", forall(S.it, lambda j: D.val(t, j) == L.at(d, j), pats=lambda j: D.val(t, j))
    c.vc.inv_templates = [inv]
    r = c.ok(c.get("computing.d_table:DTable"), False, data)
    proved_view(c, "construct", r, n, pair, TInt, A)

# ---- row transforms ------------------------------------------------------------------------------
@contract(M + "map", "C01", stubs=TABLE_STUBS)
def _(c):
    t, s, n, key, val = setup(c)
    F = ufn("f", K, A, W)
    pair = lambda j: (key(j), F(key(j), val(j)))
    c.vc.inv_templates = [pairs_inv(pair, K, W)]
    r = c.ok(t.map, pyf(F, (K, A), W))
    proved_view(c, "map", r, n, pair, K, W)
    same_table(c, t, s, "map: input table unchanged")

@contract(M + "mapValues", "C01", stubs=TABLE_STUBS)
def _(c):
    t, s, n, key, val = setup(c)
    F = ufn("f", A, W)
    pair = lambda j: (key(j), F(val(j)))
    c.vc.inv_templates = [pairs_inv(pair, K, W)]
    r = c.ok(t.mapValues, pyf(F, (A,), W))
    proved_view(c, "mapValues", r, n, pair, K, W)
    same_table(c, t, s, "mapValues: input table unchanged")

@contract(M + "filter", "C01", stubs=TABLE_STUBS)
def _(c):
    t, s, n, key, val = setup(c)
    F = ufn("p", K, A, z3.BoolSort())
    cond = lambda j: F(key(j), val(j))
    cnt, src = filt_funs(c, n, cond)
    c.vc.inv_templates = [filt_inv(cnt, src, lambda j: (key(j), val(j)), K, A)]
    r = c.ok(t.filter, pyf(F, (K, A), TBool))
    o = view(r, K, A)
    c.prove("filter: every kept row satisfies the predicate and comes from the table", forall(o.n, lambda i: z3.And(src(i) >= 0, src(i) < n, o.key(i) == key(src(i)), o.val(i) == val(src(i)), cond(src(i)))))
    c.prove("filter: every row satisfying the predicate is kept, in order", z3.And(o.n == cnt(n), forall(n, lambda j: z3.Implies(cond(j), z3.And(cnt(j) < o.n, o.key(cnt(j)) == key(j), o.val(cnt(j)) == val(j))), pats=lambda j: cnt(j))))
    same_table(c, t, s, "filter: input table unchanged")

@contract(M + "count", "C01")
def _(c):
    t, s, n, key, val = setup(c)
    r = c.ok(t.count)
    c.prove("count is the number of rows", TInt.unwrap(r) == n)
    same_table(c, t, s, "count: input table unchanged")

@contract(M + "take", "C01", stubs=TABLE_STUBS)
def _(c):
    t, s, n, key, val = setup(c)
    m = TInt.new("m"); mt = TInt.unwrap(m)
    pair = lambda j: (key(j), val(j))
    c.vc.inv_templates = [pairs_inv(pair, K, A)]
    r = c.ok(t.take, m)
    P = TTuple(K, A); L = TList(P); rr = r.to_term(L)
    want = z3.If(mt <= 0, 0, z3.If(mt < n, mt, n))
    c.prove("take returns min(n, count) rows", L.len(rr) == want)
    c.prove("take returns the first rows in order", forall(want, lambda j: L.at(rr, j) == P.mk(*pair(j))))
    same_table(c, t, s, "take: input table unchanged")

@contract(M + "first", "C01")
def _(c):
    t, s, n, key, val = setup(c)
    r = c.ok(t.first)
    if r is None: c.prove("first is empty only for an empty table", n == 0)
    else: c.prove("first is the first row", z3.And(n > 0, A.unwrap(r) == val(z3.IntVal(0))))
    same_table(c, t, s, "first: input table unchanged")

@contract(M + "get_kvs", "C01", name="DTable views")
def _(c):
    t, s, n, key, val = setup(c)
    for meth in ("collect", "get_kvs"):
        o = seq_view(c.ok(getattr(t, meth)), K, A)
        c.prove(meth + " yields every row under its key, in order", z3.And(o.n == n, forall(n, lambda j: z3.And(o.key(j) == key(j), o.val(j) == val(j)))))
    ks = c.ok(t.get_keys); L = TList(K); kt = ks.to_list().to_term(L) if isinstance(ks, V.SeqView) else ks.to_term(L)
    c.prove("get_keys yields every key in order", z3.And(L.len(kt) == n, forall(n, lambda j: L.at(kt, j) == key(j))))
    vs = c.ok(t.get_values); L2 = TList(A); vt = vs.to_list().to_term(L2) if isinstance(vs, V.SeqView) else vs.to_term(L2)
    c.prove("get_values yields every row in order", z3.And(L2.len(vt) == n, forall(n, lambda j: L2.at(vt, j) == val(j))))
    same_table(c, t, s, "views: table unchanged")

@contract(M + "mapPartitions", ["C01", "C03"], stubs=TABLE_STUBS)
def _(c):
    t, s, n, key, val = setup(c)
    out = TList(W).new("mapped"); o = out.term; L = TList(W)
    seen = []
    def func(kvs):
        seen.append(kvs); return out
    r = c.ok(t.mapPartitions, func)
    c.prove("the mapper is called once", len(seen) == 1)
    if len(seen) == 1:
        q = seq_view(seen[0], K, A)
        c.prove("the mapper sees every row once, in order", z3.And(q.n == n, forall(n, lambda j: z3.And(q.key(j) == key(j), q.val(j) == val(j)))))
    proved_view(c, "mapPartitions", r, L.len(o), lambda j: (j, L.at(o, j)), TInt, W)
    same_table(c, t, s, "mapPartitions: input table unchanged")

# ---- two tables ------------------------------------------------------------------------------------
def setup2(c):
    t, u = mk_table(c, K, A, "T"), mk_table(c, K, X, "U")
    s, w = snap(t), snap(u)
    class T_: pass
    def info(s):
        D, term = s
        o = T_(); o.D, o.term, o.n = D, term, D.n(term)
        o.key = lambda j: z3.Select(D.keyat(term), j)
        o.val = lambda k: D.val(term, k)
        o.has = lambda k: D.has(term, k)
        return o
    return t, u, s, w, info(s), info(w)

def out_map(c, r, vty):
    """(has, val, n) of a result table"""
    d = storage(r)
    D = TDict(K, vty)
    if d.items_ is not None and not d.items_:
        return (lambda k: z3.BoolVal(False)), None
    if d.items_ is not None: raise Unsupported("concrete result")
    if d.ty != D:
        c.prove("the result holds rows of the specified kind", False)
        raise PathEnd()
    t = d.term
    return (lambda k: D.has(t, k)), (lambda k: D.val(t, k))

def prove_keys(c, what, r, vty, want_has, want_val):
    k = z3.Const("k*", K.sort)
    has, val = out_map(c, r, vty)
    c.prove(what + ": no key outside", z3.Implies(has(k), want_has(k)))
    c.prove(what + ": every key is there", z3.Implies(want_has(k), has(k)))
    if val is not None:
        c.prove(what + ": combined rows", z3.Implies(z3.And(has(k), want_has(k)), val(k) == want_val(k)))

@contract(M + "join", "C02", stubs=TABLE_STUBS)
def _(c):
    t, u, s, w, a, b = setup2(c)
    F = ufn("f", A, X, W)
    ca, sa = filt_funs(c, a.n, lambda j: b.has(a.key(j)))
    cb, sb = filt_funs(c, b.n, lambda j: a.has(b.key(j)))
    pair = lambda k: (k, F(a.val(k), b.val(k)))
    c.vc.inv_templates = [filt_inv(cb, sb, lambda j: pair(b.key(j)), K, W), filt_inv(ca, sa, lambda j: pair(a.key(j)), K, W)]
    r = c.ok(t.join, u, pyf(F, (A, X), W))
    k = z3.Const("k*", K.sort)
    # ground instances for the trigger-driven solver
    c.require(z3.Implies(b.has(k), cb(z3.Select(b.D.pos(b.term), k)) >= 0), z3.Implies(a.has(k), ca(z3.Select(a.D.pos(a.term), k)) >= 0))
    prove_keys(c, "join", r, W, lambda k: z3.And(a.has(k), b.has(k)), lambda k: F(a.val(k), b.val(k)))
    same_table(c, t, s, "join: left table unchanged"); same_table(c, u, w, "join: right table unchanged")

@contract(M + "join", "C02", name="DTable.join default", stubs=TABLE_STUBS)
def _(c):
    t, u, s, w, a, b = setup2(c)
    ca, sa = filt_funs(c, a.n, lambda j: b.has(a.key(j)))
    cb, sb = filt_funs(c, b.n, lambda j: a.has(b.key(j)))
    pair = lambda k: (k, a.val(k))
    c.vc.inv_templates = [filt_inv(cb, sb, lambda j: pair(b.key(j)), K, A), filt_inv(ca, sa, lambda j: pair(a.key(j)), K, A)]
    r = c.ok(t.join, u)
    k = z3.Const("k*", K.sort)
    c.require(z3.Implies(b.has(k), cb(z3.Select(b.D.pos(b.term), k)) >= 0), z3.Implies(a.has(k), ca(z3.Select(a.D.pos(a.term), k)) >= 0))
    prove_keys(c, "join", r, A, lambda k: z3.And(a.has(k), b.has(k)), lambda k: a.val(k))

@contract(M + "subtractByKey", "C02", stubs=TABLE_STUBS)
def _(c):
    t, u, s, w, a, b = setup2(c)
    ca, sa = filt_funs(c, a.n, lambda j: z3.Not(b.has(a.key(j))))
    c.vc.inv_templates = [filt_inv(ca, sa, lambda j: (a.key(j), a.val(a.key(j))), K, A)]
    r = c.ok(t.subtractByKey, u)
    k = z3.Const("k*", K.sort)
    c.require(z3.Implies(a.has(k), ca(z3.Select(a.D.pos(a.term), k)) >= 0))
    prove_keys(c, "subtract", r, A, lambda k: z3.And(a.has(k), z3.Not(b.has(k))), lambda k: a.val(k))
    same_table(c, t, s, "subtract: left table unchanged"); same_table(c, u, w, "subtract: right table unchanged")

def union_body(c, default):
    t, u = mk_table(c, K, A, "T"), mk_table(c, K, A, "U")
    s, w = snap(t), snap(u)
    D, ta = s; _, tb = w
    F = ufn("f", A, A, A)
    fv = (lambda x, y: x) if default else F
    def inv(S):
        k = qv("k", K.sort)
        inb = lambda k, n: z3.And(D.has(tb, k), z3.Select(D.pos(tb), k) < n)
        for p, d in S.of(D, mod=True):
            yield p + " keys", z3.ForAll([k], D.has(d, k) == z3.Or(D.has(ta, k), inb(k, S.it)), patterns=[z3.Select(D.pos(d), k)])
            yield p + " rows", z3.ForAll([k], z3.Implies(D.has(d, k), D.val(d, k) == z3.If(D.has(ta, k), z3.If(inb(k, S.it), fv(D.val(ta, k), D.val(tb, k)), D.val(ta, k)), D.val(tb, k))), patterns=[D.val(d, k)])
    c.vc.inv_templates = [inv]
    r = c.ok(t.union, u) if default else c.ok(t.union, u, pyf(F, (A, A), A))
    k = z3.Const("k*", K.sort)
    prove_keys(c, "union", r, A, lambda k: z3.Or(D.has(ta, k), D.has(tb, k)),
               lambda k: z3.If(z3.And(D.has(ta, k), D.has(tb, k)), fv(D.val(ta, k), D.val(tb, k)), z3.If(D.has(ta, k), D.val(ta, k), D.val(tb, k))))
    same_table(c, t, s, "union: left table unchanged"); same_table(c, u, w, "union: right table unchanged")

@contract(M + "union", "C02", stubs=TABLE_STUBS)
def _(c): union_body(c, False)
@contract(M + "union", "C02", name="DTable.union default", stubs=TABLE_STUBS)
def _(c): union_body(c, True)

# ---- reductions ------------------------------------------------------------------------------------
@contract(M + "reduce", "C03")
def _(c):
    t, s, n, key, val = setup(c)
    F = ufn("f", A, A, A)
    R = z3.Function("fold", z3.IntSort(), A.sort)    # fold of the first i >= 1 rows
    c.require(R(1) == val(z3.IntVal(0)))
    c.require(z3.ForAll([z3.Int("i?r")], z3.Implies(z3.Int("i?r") >= 1, R(z3.Int("i?r") + 1) == F(R(z3.Int("i?r")), val(z3.Int("i?r")))), patterns=[R(z3.Int("i?r"))]))
    O = TOpt(A)
    def inv(S):
        for p, o in S.of(O, mod=True):
            yield p + " fold", z3.If(S.it == 0, O.is_none(o), o == O.some(R(S.it)))
            yield p + " fold+1", o == O.some(R(S.it + 1))
        for p, o in S.of(A, mod=True):
            yield p + " fold", o == R(S.it)
            yield p + " fold+1", o == R(S.it + 1)
    c.vc.inv_templates = [inv]
    r = c.ok(t.reduce, pyf(F, (A, A), A))
    if r is None: c.prove("reduce gives nothing only for an empty table", n == 0)
    else: c.prove("reduce is the fold of all rows in order", z3.And(n > 0, A.unwrap(r) == R(n)))
    same_table(c, t, s, "reduce: table unchanged")

@contract(M + "mapReducePartitions", "C03", stubs=TABLE_STUBS)
def _(c):
    t, s, n, key, val = setup(c)
    P = TTuple(K, W); L = TList(P)
    out = L.new("emitted"); m = out.term; nm = L.len(m)
    ek, ev = (lambda i: P.acc(0, L.at(m, i))), (lambda i: P.acc(1, L.at(m, i)))
    F = ufn("red", W, W, W)
    O = TOpt(W)
    R = z3.Function("fold", K.sort, z3.IntSort(), O.sort)
    def step(k, i): return z3.If(ek(i) == k, z3.If(O.is_none(R(k, i)), O.some(ev(i)), O.some(F(O.val(R(k, i)), ev(i)))), R(k, i))
    k = qv("k", K.sort)
    c.require(z3.ForAll([k], R(k, 0) == O.none(), patterns=[R(k, 0)]))
    D = TDict(K, W)
    def inv(S):
        for p, d in S.of(D, mod=True):
            yield p + " keys", z3.ForAll([k], D.has(d, k) == z3.Not(O.is_none(R(k, S.it))), patterns=[z3.Select(D.pos(d), k)])
            yield p + " folds", z3.ForAll([k], z3.Implies(D.has(d, k), R(k, S.it) == O.some(D.val(d, k))), patterns=[D.val(d, k)])
    def hint(S): yield z3.ForAll([k], R(k, S.it + 1) == step(k, S.it), patterns=[R(k, S.it + 1)])
    c.vc.inv_templates = [inv]; c.vc.hint_templates = [hint]
    seen = []
    def mapper(kvs): seen.append(kvs); return out
    r = c.ok(t.mapReducePartitions, mapper, pyf(F, (W, W), W))
    c.prove("the mapper is called once", len(seen) == 1)
    q = seq_view(seen[0], K, A)
    c.prove("the mapper sees every row once, in order", z3.And(q.n == n, forall(n, lambda j: z3.And(q.key(j) == key(j), q.val(j) == val(j)))))
    prove_keys(c, "mapReducePartitions", r, W, lambda k: z3.Not(O.is_none(R(k, nm))), lambda k: O.val(R(k, nm)))
    same_table(c, t, s, "mapReducePartitions: table unchanged")
