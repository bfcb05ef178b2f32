"""Loads the real modules of /repo, instrumented, with the engine's builtins and facades."""
import builtins as B
import importlib, os, sys, types
from .instr import instrument
from . import rt
from .core import VC, Unsupported

REPO = os.environ.get("PYVC_REPO", "/repo")
TOPS = ("computing", "federation", "ml", "i_o", "arch", "xgboost", "guest", "host")

class Logger:
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        return lambda *x, **k: None

class World:
    """one set of instrumented modules"""
    def __init__(self, facades=None, stubs=None):
        self.modules = {}
        self.facades = dict(facades or {})
        self.stubs = dict(stubs or {})       # "mod:qualname" -> stub(vc, orig, *a, **k)
        self.raw = {}
        self.stub_used = set()
        b = dict(vars(B))
        b.update(rt.OVERRIDES)
        b["__import__"] = self.imp
        b["__vc__"] = rt.RT_
        self.builtins = b

    def path(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p): return p, True
        if os.path.isfile(p + ".py"): return p + ".py", False
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None: return m
        if name in self.facades:
            m = self.facades[name]
            if callable(m) and not isinstance(m, types.ModuleType): m = m(self)
            self.modules[name] = m
            return m
        p, pkg = self.path(name)
        if p is None: raise ImportError("no module %s in repo" % name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__vc__"] = rt.RT_
        self.modules[name] = m
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            setattr(parent, name.rsplit(".", 1)[1], m)
        if pkg:
            m.__path__ = [p]
            ini = os.path.join(p, "__init__.py")
            if os.path.isfile(ini):
                self._exec(m, ini, name)
            return m
        self._exec(m, p, name)
        return m

    def _exec(self, m, p, name):
        with open(p, encoding="utf-8") as f: src = f.read()
        try: code = instrument(src, name, p)
        except SyntaxError as e: raise Unsupported("syntax error in %s: %s" % (p, e))
        exec(code, m.__dict__)
        self._wrap(m, name)

    def _wrap(self, m, name):
        for key, stub in self.stubs.items():
            mod, q = key.split(":")
            if mod != name: continue
            parts = q.split(".")
            o = m
            for x in parts[:-1]: o = getattr(o, x, None)
            if o is None: continue
            raw = o.__dict__.get(parts[-1])
            if raw is None: continue
            self.raw[key] = raw
            setattr(o, parts[-1], self._wrapper(key, raw, stub))

    def _wrapper(self, key, raw, stub):
        world = self
        static = isinstance(raw, staticmethod)
        clsm = isinstance(raw, classmethod)
        f = raw.__func__ if (static or clsm) else raw
        def w(*a, **k):
            if VC.cur is not None and VC.cur.direct == key:
                VC.cur.direct = None
                return f(*a, **k)
            world.stub_used.add(key)
            VC.cur.contract_uses.add(key)
            return stub(VC.cur, f, *a, **k)
        w.__name__ = getattr(f, "__name__", "f")
        w.__wrapped__ = f
        return staticmethod(w) if static else classmethod(w) if clsm else w

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__name__", "")
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - level]) if not hasattr(self.modules.get(pkg), "__path__") else ".".join(parts[:len(parts) - level + 1])
            name = base + ("." + name if name else "")
        top = name.split(".")[0]
        if name in self.facades or top in TOPS:
            m = self.load(name)
            if fromlist:
                for x in fromlist:
                    if x != "*" and not hasattr(m, x):
                        try: self.load(name + "." + x)
                        except ImportError: pass
                return m
            return self.load(top)
        if top in self.facades:
            m = self.load(top)
            for part in name.split(".")[1:]:
                m2 = getattr(m, part, None)
                if m2 is None: break
                m = m2
            return m if fromlist else self.load(top)
        return B.__import__(name, globals, locals, fromlist, 0)

    def get(self, key):
        """'mod:Class.method' -> raw (instrumented) attribute"""
        mod, q = key.split(":")
        o = self.load(mod)
        for x in q.split("."): o = getattr(o, x)
        return o
VC.direct = None
