"""C18 on the real transport: scripted sockets (every fragmentation, closure at every byte) and real loopback connections."""
from .base import *
import pickle, socket, threading, copy
import numpy as np
class Closed(Exception): pass
class FakeSocket:
    """a stream cut into pieces by a schedule; recv gives at most what it is asked for; after the end it gives b''"""
    def __init__(self, rng=None, stream=b"", cut=None):
        self.out = b""; self.stream = stream; self.pos = 0; self.rng = rng; self.cut = cut; self.eofs = 0
    def sendall(self, b): self.out += bytes(b)
    def send(self, b):
        n = len(b) if self.rng is None else self.rng.randint(1, len(b)) if len(b) else 0
        self.out += bytes(b[:n]); return n
    def recv(self, n, flags=0):
        if n < 0: raise ValueError("negative buffersize in recv")
        if n == 0: return b""
        left = len(self.stream) - self.pos
        if left == 0:
            self.eofs += 1
            if self.eofs > 50: raise Closed("reads on although the connection is closed")
            return b""
        k = min(n, left)
        if self.cut == 1: k = 1
        elif self.cut != "all": k = self.rng.randint(1, k) if self.rng.random() < .7 else k
        r = self.stream[self.pos:self.pos + k]; self.pos += k
        return r
    def recv_into(self, buf, nbytes=0, flags=0):
        r = self.recv(nbytes or len(buf)); buf[:len(r)] = r; return len(r)
    def makefile(self, mode="rb", *a, **k):
        import io
        outer = self
        class R(io.RawIOBase):
            def readable(self): return True
            def readinto(self, b): return outer.recv_into(b)
        return io.BufferedReader(R())
    def close(self): pass
    def setsockopt(self, *a): pass
    def settimeout(self, *a): pass
def payload(rng):
    r = rng.randrange(9)
    if r == 0: return None
    if r == 1: return rng.choice([True, False, 0, -1, 10 ** 40, 1.5, float(rng.random())])
    if r == 2: return "".join(rng.choice("abc \n0123456789ä") for _ in range(rng.choice([0, 1, 15, 16, 17, 40])))
    if r == 3: return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 16, 100, 4096])))
    if r == 4: return [payload(rng) for _ in range(rng.randint(0, 3))]
    if r == 5: return {rng.randint(0, 9): payload(rng) for _ in range(rng.randint(0, 3))}
    if r == 6: return tuple(rng.randint(0, 9) for _ in range(rng.randint(0, 4)))
    if r == 7: return b"x" * rng.choice([10, 200, 1000, 65536, 70000, 99, 1023, 1024, 1025])
    T = api("computing.d_table:DTable")
    return ["table", T(True, [(i, (i, [i])) for i in range(rng.randint(0, 5))]).collect().__class__ is None]
def cls(): return api("federation.transfer_inst:TransferInst"), api("federation.transfer_inst:TransferInstGuest"), api("federation.transfer_inst:TransferInstHost")
def bare(c, **kw):
    o = c.__new__(c)
    for k, v in kw.items(): setattr(o, k, v)
    return o
@dyn("C18", 400, 8000, limit=20)
def stream(rng, case):
    TI, _, _ = cls()
    objs = [payload(rng) for _ in range(rng.randint(1, 4))]
    s = FakeSocket(rng)
    for o in objs: TI.send_data(s, o)
    r = FakeSocket(rng, s.out, rng.choice([None, None, 1, "all"]))
    for k, o in enumerate(objs):
        try: got = TI.recv_data(r)
        except Closed as e: expect(False, str(e), objects=objs)
        expect(type(got) is type(o) and got == o, "the object received is not the object sent", number=k, got=got, want=o)
    expect(r.pos == len(s.out), "bytes are left over", left=len(s.out) - r.pos)
@dyn("C18", 200, 4000, limit=20)
def closed_early(rng, case):
    TI, _, _ = cls()
    o = payload(rng); s = FakeSocket(rng); TI.send_data(s, o)
    at = rng.randrange(min(len(s.out), 24)) if rng.random() < .6 else rng.randrange(len(s.out))
    if at == len(s.out): at -= 1
    r = FakeSocket(rng, s.out[:at], rng.choice([None, 1, "all"]))
    try: got = TI.recv_data(r)
    except Closed: expect(False, "a connection closed in the middle of a message is waited on for ever", closed_after=at, of=len(s.out))
    except Exception: return
    expect(False, "a connection closed in the middle of a message is not reported", closed_after=at, of=len(s.out), got=got)
@dyn("C18", 300, 4000, limit=20)
def addressing(rng, case):
    TI, TG, TH = cls()
    n = rng.randint(1, 4)
    socks = [FakeSocket(rng) for _ in range(n)]
    g = bare(TG, conns=socks, server_socket=None)
    want = [[] for _ in range(n)]
    for _ in range(rng.randint(1, 6)):
        o = payload(rng); i = rng.choice([-1] + list(range(n)) + [n, -2, n + 3])
        if i == -1:
            g.send_data_to_hosts(o, -1)
            for w in want: w.append(o)
        elif 0 <= i < n: g.send_data_to_hosts(o, i); want[i].append(o)
        else:
            out = [s.out for s in socks]
            try: g.send_data_to_hosts(o, i)
            except Exception: expect(out == [s.out for s in socks], "a refused message was sent nevertheless", index=i); continue
            expect(False, "an unknown host is not refused", index=i, hosts=n)
    for k in range(n):
        h = bare(TH, client_socket=FakeSocket(rng, socks[k].out))
        for o in want[k]: expect(h.recv_data_from_guest() == o, "a host receives something else than was addressed to it", host=k, want=want[k])
        expect(h.client_socket.pos == len(socks[k].out), "a host receives more than was addressed to it", host=k)
    rep = [payload(rng) for _ in range(n)]
    for k in range(n):
        h = bare(TH, client_socket=FakeSocket(rng)); h.send_data_to_guest(rep[k]); socks[k].stream = h.client_socket.out; socks[k].pos = 0
    if rng.random() < .6:
        got = g.recv_data_from_hosts(-1)
        expect(list(got) == rep, "replies are not collected in host order", got=got, want=rep)
    else:
        for k in rng.sample(range(n), n): expect(g.recv_data_from_hosts(k) == rep[k], "the reply of one host is another's", host=k)
    for i in (n, -2, n + 3):
        try: g.recv_data_from_hosts(i)
        except Closed: pass
        except Exception: continue
        expect(False, "an unknown host is not refused", index=i, hosts=n)
@dyn("C18", 3, 20, limit=60)
def sockets(rng, case):
    """over loopback: connections in order of arrival, large objects both ways at once"""
    TI, TG, TH = cls()
    s = socket.socket(); s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]; s.close()
    n = rng.randint(1, 3); got = {}
    box = {}
    t = threading.Thread(target=lambda: box.update(g=TG(port, n)), daemon=True); t.start()
    import time
    hosts = []
    for k in range(n):
        for _ in range(200):
            try: hosts.append(TH("127.0.0.1", port)); break
            except OSError: time.sleep(.01)
    t.join(20); expect("g" in box and len(hosts) == n, "the connections are not made")
    g = box["g"]
    big = [bytes(rng.randrange(256) for _ in range(1000)) * rng.choice([1, 300, 2000]) for _ in range(3)]
    def host(k):
        r = [hosts[k].recv_data_from_guest() for _ in range(3)]; hosts[k].send_data_to_guest((k, r[0], r[2])); got[k] = r
    ts = [threading.Thread(target=host, args=(k,), daemon=True) for k in range(n)]
    for t in ts: t.start()
    g.send_data_to_hosts(big[0], -1)
    for k in range(n): g.send_data_to_hosts((k, big[1]), k)
    g.send_data_to_hosts(big[2], -1)
    rep = g.recv_data_from_hosts(-1)
    for t in ts: t.join(20)
    expect([r[0] for r in rep] == list(range(n)) and all(r[1] == big[0] and r[2] == big[2] for r in rep) and all(got[k] == [big[0], (k, big[1]), big[2]] for k in range(n)), "messages over real connections are changed or misplaced")
    for h in hosts: h.client_socket.close()
    for c in g.conns: c.close()
    g.server_socket.close()
