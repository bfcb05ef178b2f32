"""In-process federation: guest in the calling thread, hosts in threads, messages pickled as on the wire."""
import pickle, queue, threading, copy
from fractions import Fraction as Fr
from .env import api
import numpy as np

class Abort(Exception): pass
class Bus:
    def __init__(self, n):
        self.n = n; self.to_host = [queue.Queue() for _ in range(n)]; self.to_guest = [queue.Queue() for _ in range(n)]
        self.log = []     # (direction, host, object)
        self.failed = None
    def put(self, q, d, i, obj):
        b = pickle.dumps(obj); self.log.append((d, i, b)); q.put(b)
    def get(self, q):
        while True:
            try: b = q.get(timeout=25)
            except queue.Empty: raise RuntimeError("the parties wait for each other for ever")
            if b is None:
                q.put(None); raise Abort()
            return pickle.loads(b)
    def abort(self):
        for q in self.to_host + self.to_guest: q.put(None)
class GuestLink:
    def __init__(self, bus): self.bus = bus
    def send_data_to_hosts(self, data, index):
        for i in (range(self.bus.n) if index == -1 else [index]): self.bus.put(self.bus.to_host[i], "guest->host", i, data)
    def recv_data_from_hosts(self, index):
        if index == -1: return [self.bus.get(q) for q in self.bus.to_guest]
        return self.bus.get(self.bus.to_guest[index])
class HostLink:
    def __init__(self, bus, i): self.bus, self.i = bus, i
    def send_data_to_guest(self, data): self.bus.put(self.bus.to_guest[self.i], "host->guest", self.i, data)
    def recv_data_from_guest(self): return self.bus.get(self.bus.to_host[self.i])

def run(bus, guest_fn, host_fns):
    errs = [None] * len(host_fns)
    def go(i):
        try: host_fns[i]()
        except Abort: pass
        except BaseException as e:
            errs[i] = e; bus.abort()
    ts = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(len(host_fns))]
    for t in ts: t.start()
    try: r = guest_fn()
    except BaseException as e:
        bus.abort()
        for t in ts: t.join(30)
        for x in errs:
            if x is not None: raise x
        raise
    for t in ts: t.join(30)
    for x in errs:
        if x is not None: raise x
    if any(t.is_alive() for t in ts):
        bus.abort(); raise RuntimeError("a host does not finish")
    left = [i for i in range(bus.n) if not bus.to_host[i].empty() or not bus.to_guest[i].empty()]
    if left: raise RuntimeError("messages of host %s were never received" % left)
    return r

class Enc:
    """stand-in ciphertext: adds and subtracts, tells nothing"""
    def __init__(self, v): self.v = v
    def __add__(self, o): return Enc(self.v + (o.v if isinstance(o, Enc) else o))
    __radd__ = __add__
    def __sub__(self, o): return Enc(self.v - (o.v if isinstance(o, Enc) else o))
    def __rsub__(self, o): return Enc((o.v if isinstance(o, Enc) else o) - self.v)
    def __mul__(self, o): return Enc(self.v * o)
    __rmul__ = __mul__
    def __repr__(self): return "Enc(%s)" % (self.v,)
    def _no(self, *a): raise TypeError("a ciphertext cannot be compared")
    __lt__ = __le__ = __gt__ = __ge__ = _no
    def __bool__(self): raise TypeError("a ciphertext has no truth value")
class Encrypter:
    def encrypt(self, v): return Enc(v)
    def decrypt(self, c):
        if not isinstance(c, Enc): raise TypeError("decrypting %r" % (c,))
        return c.v
class Calculator:
    def __init__(self, e): self.e = e
    def encrypt(self, t): return t.mapValues(lambda v: tuple(self.e.encrypt(x) for x in v))
