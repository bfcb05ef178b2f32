"""C18: framing over a byte stream cut at arbitrary places, addressing of hosts."""
from .common import *
from pyvc import facades as Fa
I, R = z3.IntSort(), z3.RealSort()
BY = TBytes.sort
M = "federation.transfer_inst:"
OBJ = TOpaque("Object")
dumps, loads = z3.Function("pickled", OBJ.sort, BY), z3.Function("unpickled", BY, OBJ.sort)
hdr, num = z3.Function("header", I, BY), z3.Function("number_in", BY, I)
LIM = 10 ** 16

def codec(c):
    """assumed contracts of pickle, of f-string padding, of bytes/int"""
    fstr = {}
    def fs(parts):
        if len(parts) == 1 and parts[0][0] == "v" and parts[0][2] == -1 and parts[0][3] in ("<16", "16", ">16", "016", "^16") and isinstance(parts[0][1], V.SInt):
            return SOpaque(TOpaque("Text"), z3.Function("text16" + parts[0][3], I, TOpaque("Text").sort)(parts[0][1].t))
        return None
    c.vc.hooks["fstr"] = fs
    T = TOpaque("Text").sort
    def tobytes(x, enc="utf-8", *a):
        if not isinstance(x, SOpaque) or enc not in ("utf-8", "ascii", "utf8"): raise Unsupported("bytes()")
        f = x.t.decl(); n = x.t.arg(0)
        g = z3.Function("bytes_" + f.name(), I, BY)
        if f.name() in ("text16<16",): r = hdr(n)
        else: r = g(n)
        c.vc.fact(z3.Implies(z3.And(n >= 0, n < LIM), z3.And(z3.Length(r) == 16, num(r) == n)))
        c.vc.ghost.setdefault("headers", []).append(r)
        return V.SBytes(r)
    c.vc.hooks["bytes"] = tobytes
    c.vc.hooks[("attr", "Text", "encode")] = lambda x: (lambda *a: tobytes(x, *a))
    def toint(x):
        if not isinstance(x, V.SBytes): raise Unsupported("int()")
        return mkint(num(x.t))
    c.vc.hooks["int"] = toint
    for a in ("strip", "rstrip", "lstrip", "decode"): c.vc.hooks[("bytes", a)] = lambda x, *z: x
def pickle_facade(w):
    def d(x, *a, **k):
        t = dumps(OBJ.unwrap(x)); VC.cur.fact(loads(t) == OBJ.unwrap(x)); return V.SBytes(t)
    def l(b, *a, **k): return SOpaque(OBJ, loads(TBytes.unwrap(b)))
    return Fa.mod("pickle", dumps=d, loads=l, HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=4)
FAC = {"pickle": pickle_facade, "socket": lambda w: Fa.mod("socket", socket=None, AF_INET=2, SOCK_STREAM=1, MSG_WAITALL=256, error=OSError)}

class Out:
    """the sending end of a connection: what has been written so far"""
    def __init__(self): self.sent = b""
    def sendall(self, b): rt.RT_.setattr(self, "sent", self.sent + b if isinstance(b, V.SBytes) or isinstance(self.sent, V.SBytes) else self.sent + b)
    def send(self, b):
        """writes some non-empty part"""
        b = b if isinstance(b, V.SBytes) else V.SBytes(TBytes.unwrap(b))
        k = TInt.new("written"); n = z3.Length(b.t)
        VC.cur.fact(z3.And(k.t >= z3.If(n > 0, 1, 0), k.t <= n))
        self.sendall(b[:k]); return k
@contract(M + "TransferInst.send_data", "C18", name="a message is written as header and pickled object", facades=FAC)
def _(c):
    codec(c)
    o = OBJ.new("data"); s = Out()
    c.vc.obj_birth(s)
    n = z3.Length(dumps(o.t))
    c.require(n < LIM)
    c.ok(c.get(M + "TransferInst.send_data"), s, o)
    w = s.sent
    if not isinstance(w, V.SBytes): c.prove("something is written", False); return
    h = z3.SubSeq(w.t, 0, 16)
    c.prove("the whole message is written", z3.Length(w.t) == 16 + n)
    c.prove("the pickled object follows the 16 byte header", z3.SubSeq(w.t, 16, n) == dumps(o.t))
    # the first 16 bytes of a concatenation whose first part has 16 bytes are that part
    if z3.is_app_of(w.t, z3.Z3_OP_SEQ_CONCAT) and c.vc.implied(z3.Length(w.t.arg(0)) == 16, ms=4000): h = w.t.arg(0)
    hs = [r for r in c.vc.ghost.get("headers", ()) if c.vc.implied(h == r, ms=8000)]
    c.prove("the header states the length of the pickled object", num(hs[0] if hs else h) == n)

class In:
    """the receiving end: the stream `data`, closed by the peer at its end; each read returns any non-empty part of what was asked"""
    def __init__(self, c, data, pos): self.c, self.data, self.pos, self.eof = c, data, pos, False
    def recv(self, n, flags=0):
        c = self.c; S = self.data.t
        n = TInt.unwrap(n); p = TInt.unwrap(self.pos)
        c.prove("reads ask for at least one byte", n >= 1)
        c.prove("no read after the end of the stream", z3.Not(TBool.unwrap(self.eof)))
        k = TInt.new("received")
        left = z3.Length(S) - p
        if flags == 256: c.require(k.t == z3.If(n < left, n, left))
        elif flags != 0: raise Unsupported("recv flags")
        c.require(k.t >= 0, k.t <= n, k.t <= left, z3.Implies(left > 0, k.t > 0))
        rt.RT_.setattr(self, "pos", mkint(z3.simplify(p + k.t)))
        rt.RT_.setattr(self, "eof", mkbool(left == 0))
        return V.SBytes(z3.SubSeq(S, p, k.t))
def recv_inv(sock, S0):
    def g(S):
        ps = [t for p, (ty, t) in S.items.items() if p.endswith(".pos") and ty == TInt]
        es = [t for p, (ty, t) in S.items.items() if p.endswith(".eof") and ty == TBool]
        if len(ps) < 1: return
        pos = ps[0]
        e = [t for p, (ty, t) in S.entry.items() if p.endswith(".pos") and ty == TInt][0]
        yield "position", z3.And(pos >= e, pos <= z3.Length(S0))
        for x in es[:1]: yield "not at the end", z3.Not(x)
        for p, b in S.of(TBytes, mod=True):
            yield p + " holds what was read", b == z3.SubSeq(S0, e, pos - e)
        for p, i in S.of(TInt, mod=True):
            if not p.endswith(".pos"):
                yield p + " counts what was read", i == pos - e
                for q, j in S.of(TInt):
                    if q != p and not q.endswith(".pos"): yield "%s + read = %s" % (p, q), i + (pos - e) == j
                yield p + " counts what is missing", i + (pos - e) == S.entry[p][1] if p in S.entry else z3.BoolVal(True)
        for q, j in S.of(TInt):
            if not q.endswith(".pos"): yield "read at most " + q, pos - e <= z3.If(j >= 0, j, 0)
    return g
def a_stream(c):
    s = TBytes.new("stream"); p = TInt.new("position")
    c.require(p.t >= 0, p.t <= z3.Length(s.t))
    k = In(c, s, p); c.vc.obj_birth(k)
    c.vc.inv_templates = [recv_inv(k, s.t)]
    return k, s.t, p.t

@contract(M + "TransferInst.recv_exactly", "C18", name="exactly the requested bytes are read, whatever the pieces", facades=FAC)
def _(c):
    k, S, p = a_stream(c)
    n = TInt.new("length"); c.require(n.t >= 0)
    r, e = c.call(c.get(M + "TransferInst.recv_exactly"), k, n)
    if e is not None:
        c.prove("fails only with a connection error when the stream ends too early", isinstance(e, OSError) and z3.Length(S) - p < n.t); return
    c.prove("never returns less when the connection closes early", z3.Length(S) - p >= n.t)
    c.prove("the bytes read are the next ones of the stream", TBytes.unwrap(r) == z3.SubSeq(S, p, n.t))
    c.prove("nothing beyond them is consumed", TInt.unwrap(k.pos) == p + n.t)

def exactly(vc, orig, cs, length):
    """contract of recv_exactly at call sites"""
    S, p, n = cs.data.t, TInt.unwrap(cs.pos), TInt.unwrap(length)
    vc.prove("a non-negative number of bytes is requested", n >= 0)
    if vc.fork(z3.Length(S) - p < n): raise ConnectionError("closed")
    rt.RT_.setattr(cs, "pos", mkint(z3.simplify(p + n)))
    return V.SBytes(z3.SubSeq(S, p, n))
def recv_contract(name, stubs):
    @contract(M + "TransferInst.recv_data", "C18", name=name, facades=FAC, stubs=stubs)
    def _(c):
        codec(c)
        k, S, p = a_stream(c)
        o = OBJ.new("data"); n = z3.Length(dumps(o.t)); h = z3.Const("head", BY)
        c.require(loads(dumps(o.t)) == o.t, z3.Length(h) == 16, num(h) == n, n < LIM)
        # the stream goes on with one message, possibly cut off by the peer's closing
        left = z3.Length(S) - p
        c.require(z3.Implies(left >= 16, z3.SubSeq(S, p, 16) == h), z3.Implies(left >= 16 + n, z3.SubSeq(S, p + 16, n) == dumps(o.t)))
        r, e = c.call(c.get(M + "TransferInst.recv_data"), k)
        if e is not None:
            c.prove("an error is raised only when the connection closes inside the message", left < 16 + n)
            c.prove("it is a connection error", isinstance(e, (OSError, EOFError)) if not isinstance(e, z3.Z3Exception) else False); return
        c.prove("a truncated message is never delivered", left >= 16 + n)
        c.prove("the object received is the object sent", OBJ.unwrap(r) == o.t)
        c.prove("the next message starts where this one ends", TInt.unwrap(k.pos) == p + 16 + n)
recv_contract("a message is read whole", {M + "TransferInst.recv_exactly": exactly})

# ---- addressing -----------------------------------------------------------------------------------
SK, MS = TOpaque("Socket"), TOpaque("Message")
recvd = z3.Function("received_from", SK.sort, MS.sort)
def log_send(vc, orig, cs, data):
    g = vc.ghost["log"]
    vc.prove("the given data is sent", data is vc.ghost["data"])
    g.l.append(cs)
def log_recv(vc, orig, cs):
    g = vc.ghost["log"]
    g.l.append(cs)
    return SOpaque(MS, recvd(SK.unwrap(cs)))
class Log:
    def __init__(self):
        self.l = V.VList(SK, term=TList(SK).mk(z3.IntVal(0), z3.K(I, z3.Const("no socket", SK.sort))))
def guest(c):
    cls = c.get(M + "TransferInstGuest")
    o = cls.__new__(cls)
    L = TList(SK); l = L.new("conns"); o.__dict__["conns"] = l
    c.vc.obj_birth(o)
    g = Log(); c.vc.obj_birth(g); c.vc.ghost["log"] = g; c.vc.ghost["spec_roots"] = (g,)
    return o, l.term, L, g
def addr_inv(t, L):
    def g(S):
        for p, x in S.of(L, mod=True):
            if not p.startswith("$"): continue
            yield p + " one each", z3.And(L.len(x) == S.it, forall(S.it, lambda j: L.at(x, j) == L.at(t, j), pats=lambda j: L.at(x, j)))
        for p, x in S.of(TList(MS), mod=True):
            M_ = TList(MS)
            yield p + " replies", z3.And(M_.len(x) == S.it, forall(S.it, lambda j: M_.at(x, j) == recvd(L.at(t, j)), pats=lambda j: M_.at(x, j)))
    return g
@contract(M + "TransferInstGuest.send_data_to_hosts", "C18", name="a message reaches the addressed hosts only", facades=FAC, stubs={M + "TransferInst.send_data": log_send})
def _(c):
    o, t, L, g = guest(c); n = L.len(t)
    d = OBJ.new("data"); c.vc.ghost["data"] = d
    i = TInt.new("index")
    c.vc.inv_templates = [addr_inv(t, L)]
    r, e = c.call(o.send_data_to_hosts, d, i)
    x = g.l.to_term(L); m = L.len(x)
    if e is not None:
        c.prove("refused only for an unknown host", isinstance(e, (ValueError, IndexError)) and z3.Or(i.t < -1, i.t >= n)); c.prove("nothing is sent then", m == 0); return
    c.prove("an unknown host is refused", z3.And(i.t >= -1, i.t < n))
    c.prove("all: each host once, in order", z3.Implies(i.t == -1, z3.And(m == n, forall(n, lambda j: L.at(x, j) == L.at(t, j)))))
    c.prove("one: that host only, once", z3.Implies(i.t >= 0, z3.And(m == 1, L.at(x, 0) == L.at(t, i.t))))
@contract(M + "TransferInstGuest.recv_data_from_hosts", "C18", name="replies are collected in host order", facades=FAC, stubs={M + "TransferInst.recv_data": log_recv})
def _(c):
    o, t, L, g = guest(c); n = L.len(t)
    i = TInt.new("index")
    c.vc.inv_templates = [addr_inv(t, L)]
    r, e = c.call(o.recv_data_from_hosts, i)
    x = g.l.to_term(L); m = L.len(x)
    if e is not None:
        c.prove("refused only for an unknown host", isinstance(e, (ValueError, IndexError)) and z3.Or(i.t < -1, i.t >= n)); return
    c.prove("an unknown host is refused", z3.And(i.t >= -1, i.t < n))
    c.prove("all: every connection is read once, in order", z3.Implies(i.t == -1, z3.And(m == n, forall(n, lambda j: L.at(x, j) == L.at(t, j)))))
    if isinstance(r, V.VList):
        ML = TList(MS); u = r.to_term(ML)
        c.prove("all: the replies are in host order", z3.And(i.t == -1, ML.len(u) == n, forall(n, lambda j: ML.at(u, j) == recvd(L.at(t, j)))))
    else:
        c.prove("one: the reply of that host", z3.And(i.t >= 0, m == 1, MS.unwrap(r) == recvd(L.at(t, i.t))))
@contract(M + "TransferInstHost.send_data_to_guest", "C18", name="a host talks to its guest", facades=FAC, stubs={M + "TransferInst.send_data": log_send, M + "TransferInst.recv_data": log_recv})
def _(c):
    cls = c.get(M + "TransferInstHost"); o = cls.__new__(cls)
    s = SK.new("guest"); o.__dict__["client_socket"] = s; c.vc.obj_birth(o)
    g = Log(); c.vc.obj_birth(g); c.vc.ghost["log"] = g
    d = OBJ.new("data"); c.vc.ghost["data"] = d
    c.ok(o.send_data_to_guest, d)
    L = TList(SK); x = g.l.to_term(L)
    c.prove("sent once to the guest", z3.And(L.len(x) == 1, L.at(x, 0) == s.t))
    r = c.ok(o.recv_data_from_guest)
    y = g.l.to_term(L)
    c.prove("received once from the guest", z3.And(L.len(y) == 2, L.at(y, 1) == s.t, MS.unwrap(r) == recvd(s.t)))
