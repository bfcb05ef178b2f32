"""C23: csv files are read row by row; splits hold every row once and agree between the parties."""
import types as _types
from .common import *
from .split import iv, rv
from .ptable import *
from .modes import to_array
from pyvc import facades as Fa
I, R = z3.IntSort(), z3.RealSort()
IO = "i_o.utils:"
SL, RL = TList(TStr), TList(TReal); FL = TList(RL)
LINE, TEXT = TOpaque("Line"), TOpaque("Text")       # a line with, and without its end
LL = TList(LINE)

class Shut:
    """an open file: its lines, once"""
    def __init__(self, vc, lines): self.vc, self.lines, self.shut = vc, lines, False
    def __enter__(self): return self
    def __exit__(self, *a): self.shut = True; return False
    def __vc_iter__(self): return self.lines
    def __iter__(self): raise Unsupported("file read in another way")
    def readlines(self): return self.lines
    def close(self): self.shut = True

def np_(w=None):
    m = Fa.numpy_facade(w); m.array = lambda x, dtype=None, **k: to_array(x) if not k and dtype in (None, float) else (_ for _ in ()).throw(Unsupported("array of a given element type")); return m

def reading(name, labelled):
    first = 2 if labelled else 1
    @contract(IO + name, "C23", facades={"numpy": np_}, prove_ms=10000)
    def _(c):
        vc = c.vc
        TXT = z3.Function("without_end", LINE.sort, TEXT.sort); FIELDS = z3.Function("fields_of", TEXT.sort, SL.sort); NUM = z3.Function("number_written", TStr.sort, R)
        lines = LL.new("lines"); t = lines.term; n = LL.len(t)
        f = lambda r: FIELDS(TXT(LL.at(t, r))); i, j = qv("i"), qv("j")
        w = SL.len(f(z3.IntVal(0)))
        c.require(n >= 1, w >= first, forall(n, lambda r: SL.len(f(r)) == w, pats=lambda r: LL.at(t, r)))
        def rstrip(x):
            def strip(*a):
                if a not in (("\n",), ("\r\n",)): raise Unsupported("line end removed in another way")
                return TEXT.wrap(TXT(x.t))
            return strip
        def split(x):
            def cut(sep=None, *a):
                if sep != "," or a: raise Unsupported("fields separated in another way")
                return V.VList(TStr, term=FIELDS(x.t))
            return cut
        vc.hooks[("attr", "Line", "rstrip")] = rstrip; vc.hooks[("attr", "Text", "split")] = split
        vc.hooks["float"] = lambda x: V.SReal(NUM(x.t)) if isinstance(x, V.SStr) else None
        fn = c.get(IO + name)
        opened = []
        def open_(path, mode="r", *a, **k):
            if mode not in ("r", "rt"): raise Unsupported("file opened in mode %r" % (mode,))
            opened.append(path); h = Shut(vc, lines); vc.handle = h; return h
        (fn.__wrapped__ if hasattr(fn, "__wrapped__") else fn).__globals__["open"] = open_
        def row_ok(x, r): return z3.And(RL.len(x) == w - first, forall(w - first, lambda k: RL.at(x, k) == NUM(SL.at(f(r), k + first)), pats=lambda k: RL.at(x, k)))
        TL = TList(TEXT)
        def inv(S):
            st = VC.cur.loopstack; k = st.index(S.loop) if S.loop in st else len(st); outer = [x.it for x in st[:k]]
            for p, x in S.of(TL, mod=True): yield p + " lines so far", z3.And(TL.len(x) == S.it, forall(S.it, lambda r: TL.at(x, r) == TXT(LL.at(t, r)), pats=lambda r: TL.at(x, r)))
            if outer:
                for p, x in S.of(RL, mod=True): yield p + " numbers so far", z3.And(RL.len(x) == S.it, forall(S.it, lambda k: RL.at(x, k) == NUM(SL.at(f(outer[-1] + 1), k + first)), pats=lambda k: RL.at(x, k)))
            else:
                for p, x in S.of(SL, mod=True):
                    for q in range(first): yield "%s column %d so far" % (p, q), z3.And(SL.len(x) == S.it, forall(S.it, lambda r: SL.at(x, r) == SL.at(f(r + 1), q), pats=lambda r: SL.at(x, r)))
                for p, x in S.of(FL, mod=True):
                    yield p + " rows so far", z3.And(FL.len(x) == S.it, forall(S.it, lambda r: row_ok(FL.at(x, r), r + 1), pats=lambda r: FL.at(x, r)))
        vc.inv_templates = [inv]; vc.auto_filter = False
        path = TStr.new("path")
        r = c.ok(fn, path)
        c.prove("the file asked for is read", len(opened) == 1 and opened[0] is path)
        if not isinstance(r, tuple): raise Unsupported("result in another form")
        c.prove("header, identifiers, features" + (", labels" if labelled else ""), len(r) == first + 2)
        def strings(x):
            if not isinstance(x, V.VList): raise Unsupported("result in another form")
            return x.to_term(SL)
        h, ids = strings(r[0]), strings(r[1]); m = n - 1
        c.prove("the header names the feature columns, in order", z3.And(SL.len(h) == w - first, forall(w - first, lambda k: SL.at(h, k) == SL.at(f(z3.IntVal(0)), k + first), pats=lambda k: SL.at(h, k))))
        c.prove("one identifier per data line", SL.len(ids) == m)
        c.prove("the first field is the identifier", forall(m, lambda r: SL.at(ids, r) == SL.at(f(r + 1), 0), pats=lambda r: SL.at(ids, r)))
        if not isinstance(r[2], V.VList): raise Unsupported("result in another form")
        x = r[2].to_term(FL)
        c.prove("one row of features per data line", FL.len(x) == m)
        c.prove("the other fields are the features, in column order and unchanged", forall(m, lambda r: row_ok(FL.at(x, r), r + 1), pats=lambda r: FL.at(x, r)))
        if labelled:
            y = strings(r[3])
            c.prove("the second field is the label", z3.And(SL.len(y) == m, forall(m, lambda r: SL.at(y, r) == SL.at(f(r + 1), 1), pats=lambda r: SL.at(y, r))))
reading("read_from_csv_with_lable", True); reading("read_from_csv_with_no_lable", False)

# ---- splits ------------------------------------------------------------------------------------------
INST = TOpaque("Inst"); IL = TList(INST)
SEEDED, PERM, INV, NEXT = z3.Function("state_of_seed", I, I), z3.Function("shuffled_from", I, I, I, I), z3.Function("shuffled_to", I, I, I, I), z3.Function("next_state", I, I, I)
class Rng:
    """the random module: what a shuffle does depends on the state and the number of elements"""
    def __init__(self, seed=None):
        self.state = None
        if seed is not None: self.seed(seed)
    def seed(self, s=None, *a):
        if a: raise Unsupported("seed in another way")
        self.state = VC.cur.fresh("state", I) if s is None else SEEDED(iv(s))
    def shuffle(self, l):
        vc = VC.cur
        if not isinstance(l, V.VList): raise Unsupported("shuffle of %r" % (l,))
        if self.state is None: self.state = vc.fresh("state", I)
        t = l.to_term(IL); n = IL.len(t); s = self.state; r = IL.fresh("shuffled"); i = qv("i")
        vc.fact(IL.len(r) == n)
        vc.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), IL.at(r, i) == IL.at(t, PERM(s, n, i))), patterns=[IL.at(r, i)]))
        for p, q in ((PERM, INV), (INV, PERM)):
            vc.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(p(s, n, i) >= 0, p(s, n, i) < n, q(s, n, p(s, n, i)) == i)), patterns=[p(s, n, i)]))
        vc.shuffles.append((s, n)); self.state = NEXT(s, n); l.term = r
    def Random(self, s=None): return Rng(s)
    def __getattr__(self, a): raise Unsupported("random." + a)
def split_of(vc, r, n):
    """the two parts of a result"""
    if not isinstance(r, tuple) or len(r) != 2: raise Unsupported("result in another form")
    out = []
    for x in r:
        if not isinstance(x, (V.VList, V.SeqView)): raise Unsupported("result in another form")
        if isinstance(x, V.SeqView): x = x.to_list()
        out.append(IL.mk(z3.IntVal(0), z3.K(I, z3.Const("none", INST.sort))) if x.items is not None and not x.items else x.to_term(IL))
    return out
def call_split(c, mod, rows, ratio, shuffle, seed):
    vc = c.vc; vc.shuffles = []; t = rows.term
    r = c.ok(c.get(mod + ":data_split"), rows, ratio, shuffle, seed)
    return split_of(vc, r, IL.len(t))
for mod in ("guest", "host"):
    @contract(mod + ":data_split", "C23", facades={"random": lambda w: Rng()})
    def _(c, mod=mod):
        vc = c.vc; rows = IL.new("rows"); t = rows.term; n = IL.len(t); ratio = TReal.new("ratio"); c.require(ratio.t >= 0, ratio.t <= 1)
        sh = vc.choose(3); seed = TInt.new("seed") if sh == 2 else None
        a, b = call_split(c, mod, rows, ratio, sh > 0, seed)
        la, lb = IL.len(a), IL.len(b)
        c.prove("together as many as there are", la + lb == n)
        if vc.shuffles:
            c.prove("shuffled once", len(vc.shuffles) == 1); s = vc.shuffles[0][0]; src, back = (lambda k: PERM(s, n, k)), (lambda k: INV(s, n, k))
        else: src = back = lambda k: k
        whole = lambda k: z3.If(k < la, IL.at(a, k), IL.at(b, k - la))
        c.prove("every row of a part is one of the rows", forall(n, lambda k: whole(k) == IL.at(t, src(k)), pats=lambda k: src(k) if vc.shuffles else IL.at(t, k)))
        r0 = TInt.new("row").t; c.require(r0 >= 0, r0 < n)
        at = back(r0)
        c.prove("every row is in one part, once", z3.And(at >= 0, at < n, whole(at) == IL.at(t, r0), src(at) == r0, back(src(at)) == at))
@contract("guest:data_split", "C23", name="the split of the guest and of a host agree", facades={"random": lambda w: Rng()})
def _(c):
    vc = c.vc; A, B = IL.new("guest_rows"), IL.new("host_rows"); a, b = A.term, B.term; n = IL.len(a); ratio, seed = TReal.new("ratio"), TInt.new("seed")
    MATE = z3.Function("same_identifier", INST.sort, INST.sort)
    c.require(ratio.t >= 0, ratio.t <= 1, IL.len(b) == n, forall(n, lambda k: IL.at(b, k) == MATE(IL.at(a, k)), pats=lambda k: [IL.at(a, k), IL.at(b, k)]))
    x = call_split(c, "guest", A, ratio, True, seed); y = call_split(c, "host", B, ratio, True, seed)
    for lab, p, q in (("training", x[0], y[0]), ("test", x[1], y[1])):
        c.prove("as many %s rows" % lab, IL.len(p) == IL.len(q))
        c.prove("the same identifiers in the %s rows" % lab, forall(IL.len(p), lambda k: IL.at(q, k) == MATE(IL.at(p, k)), pats=lambda k: [IL.at(q, k)]))
