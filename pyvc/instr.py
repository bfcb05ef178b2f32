"""Mechanical instrumentation of the real source.

What it changes, and nothing else:
  * for / while loops inside functions become loops whose head calls the engine (cut point);
  * list/dict/set displays and comprehensions build engine containers;
  * attribute stores go through the engine (write log);
  * `is` / `is not` go through the engine (identity of symbolic booleans; other symbolic scalars: unsupported);
  * annotations are dropped (never evaluated);
  * a generator function returns the list of what it yields (run eagerly).
Everything else is executed by CPython as written.
"""
import ast

def mangle(name, cls):
    if cls and name.startswith("__") and not name.endswith("__"):
        c = cls.lstrip("_")
        if c: return "_" + c + name
    return name

def assigned_names(nodes):
    """names bound by the statements (not descending into nested functions/classes)"""
    out = set()
    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n): out.add(n.name)
        visit_AsyncFunctionDef = visit_FunctionDef
        def visit_ClassDef(self, n): out.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        def visit_ExceptHandler(self, n):
            if n.name: out.add(n.name)
            self.generic_visit(n)
        def visit_Import(self, n):
            for a in n.names: out.add((a.asname or a.name).split(".")[0])
        visit_ImportFrom = visit_Import
    v = V()
    for n in nodes: v.visit(n)
    return sorted(out)

def name(id, ctx=None): return ast.Name(id=id, ctx=ctx or ast.Load())
def call(f, *args): return ast.Call(func=ast.Attribute(value=name("__vc__"), attr=f, ctx=ast.Load()), args=list(args), keywords=[])
def const(v): return ast.Constant(value=v)

class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.cls = []
        self.fn = []
        self.k = 0
        self.loopidx = {}
        self.gen = []

    def qual(self): return ".".join(self.cls + self.fn)

    def loopid(self, kind):
        q = self.modname + ":" + self.qual()
        n = self.loopidx.get(q, 0); self.loopidx[q] = n + 1
        return "%s#%s%d" % (q, kind, n)

    def tmp(self, s):
        self.k += 1
        return "_vc_%s%d" % (s, self.k)

    # -- definitions
    def visit_ClassDef(self, n):
        self.cls.append(n.name); fn, self.fn = self.fn, []
        n.body = self.stmts(n.body)
        n.bases = [self.visit(b) for b in n.bases]
        self.cls.pop(); self.fn = fn
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs: x.annotation = None
        if a.vararg: a.vararg.annotation = None
        if a.kwarg: a.kwarg.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.fn.append(n.name)
        gen = self.eager(n)
        n.body = self.stmts(n.body)
        if gen: n.body = [ast.Assign(targets=[name("vc_yielded", ast.Store())], value=call("mklist", ast.List(elts=[], ctx=ast.Load())))] + n.body + [ast.Return(value=name("vc_yielded"))]
        self.fn.pop()
        return n

    def eager(self, n):
        """a generator function becomes one that returns the list of what it yields"""
        ys = []
        class Y(ast.NodeVisitor):
            def visit_FunctionDef(self, m):
                if m is n: self.generic_visit(m)
            def visit_Lambda(self, m): pass
            def visit_Yield(self, m): ys.append(m); self.generic_visit(m)
            def visit_YieldFrom(self, m): ys.append(m)
        Y().visit(n)
        if not ys: return False
        class T(ast.NodeTransformer):
            def visit_FunctionDef(self, m):
                if m is n: self.generic_visit(m)
                return m
            def visit_Lambda(self, m): return m
            def visit_Expr(self, m):
                if isinstance(m.value, ast.Yield):
                    ys.remove(m.value)
                    return ast.Expr(value=ast.Call(func=ast.Attribute(value=name("vc_yielded"), attr="append", ctx=ast.Load()), args=[m.value.value or const(None)], keywords=[]))
                return m
            def visit_Return(self, m): return ast.Return(value=name("vc_yielded"))
        keep = list(ys)
        import copy
        body = copy.deepcopy(n.body)
        T().visit(n)
        if ys:       # other uses of yield stay what they are
            n.body = body
            return False
        return True

    def visit_Lambda(self, n):
        n.body = self.visit(n.body)
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        return n

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None: continue
            if isinstance(r, list): out.extend(r)
            else: out.append(r)
        return out or [ast.Pass()]

    # -- loops
    def updates(self, u, names):
        r = []
        for x in names:
            r.append(ast.If(test=ast.Compare(left=const(x), ops=[ast.In()], comparators=[name(u)]),
                            body=[ast.Assign(targets=[name(x, ast.Store())], value=ast.Subscript(value=name(u), slice=const(x), ctx=ast.Load()))], orelse=[]))
        return r

    def visit_For(self, n):
        if not self.fn:
            n.iter = self.visit(n.iter); n.body = self.stmts(n.body); n.orelse = self.stmts(n.orelse) if n.orelse else []
            return n
        L, u = self.tmp("L"), self.tmp("u")
        names = assigned_names(n.body + [n.target])
        lid = self.loopid("for")
        it = self.visit(n.iter)
        tgt_store = self.assign_to(n.target, ast.Attribute(value=name(L), attr="item", ctx=ast.Load()))
        body = self.stmts(n.body)
        orelse = self.stmts(n.orelse) if n.orelse else []
        init = ast.Assign(targets=[name(L, ast.Store())], value=call("floop", const(lid), it, ast.Tuple(elts=[const(x) for x in names], ctx=ast.Load())))
        head = ast.Assign(targets=[name(u, ast.Store())], value=ast.Call(func=ast.Attribute(value=name(L), attr="head", ctx=ast.Load()), args=[ast.Call(func=name("locals"), args=[], keywords=[])], keywords=[]))
        test = ast.If(test=ast.Attribute(value=name(L), attr="done", ctx=ast.Load()), body=orelse + [ast.Break()], orelse=[])
        # `break` inside the else clause would leave an outer loop; not used in practice
        return [init, ast.While(test=const(True), body=[head] + self.updates(u, names) + [test] + tgt_store + body, orelse=[])]

    def visit_While(self, n):
        if not self.fn:
            n.test = self.visit(n.test); n.body = self.stmts(n.body)
            return n
        L, u = self.tmp("L"), self.tmp("u")
        names = assigned_names(n.body)
        lid = self.loopid("while")
        cond = self.visit(n.test)
        body = self.stmts(n.body)
        orelse = self.stmts(n.orelse) if n.orelse else []
        lam = lambda: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=cond)
        ct = isinstance(n.test, ast.Constant) and bool(n.test.value)
        init = ast.Assign(targets=[name(L, ast.Store())], value=call("wloop", const(lid), const(ct), ast.Tuple(elts=[const(x) for x in names], ctx=ast.Load())))
        head = ast.Assign(targets=[name(u, ast.Store())], value=ast.Call(func=ast.Attribute(value=name(L), attr="head", ctx=ast.Load()), args=[ast.Call(func=name("locals"), args=[], keywords=[]), lam()], keywords=[]))
        test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=ast.Call(func=ast.Attribute(value=name(L), attr="test", ctx=ast.Load()), args=[lam()], keywords=[])), body=orelse + [ast.Break()], orelse=[])
        return [init, ast.While(test=const(True), body=[head] + self.updates(u, names) + [test] + body, orelse=[])]

    # -- assignment
    def assign_to(self, target, value):
        """statements assigning value (already transformed) to target (original)"""
        if isinstance(target, ast.Attribute):
            obj = self.visit(target.value)
            return [ast.Expr(value=call("setattr", obj, const(mangle(target.attr, self.cls[-1] if self.cls else None)), value))]
        if isinstance(target, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in target.elts):
                return [ast.Assign(targets=[self.visit(target)], value=value)]
            t = self.tmp("t")
            r = [ast.Assign(targets=[name(t, ast.Store())], value=call("unpack", value, const(len(target.elts))))]
            for i, e in enumerate(target.elts):
                r += self.assign_to(e, ast.Subscript(value=name(t), slice=const(i), ctx=ast.Load()))
            return r
        if isinstance(target, ast.Subscript):
            return [ast.Assign(targets=[ast.Subscript(value=self.visit(target.value), slice=self.visit(target.slice), ctx=ast.Store())], value=value)]
        return [ast.Assign(targets=[target], value=value)]

    def visit_Assign(self, n):
        v = self.visit(n.value)
        if len(n.targets) == 1:
            return self.assign_to(n.targets[0], v)
        t = self.tmp("v")
        r = [ast.Assign(targets=[name(t, ast.Store())], value=v)]
        for g in n.targets: r += self.assign_to(g, name(t))
        return r

    def visit_AnnAssign(self, n):
        if n.value is None: return None
        return self.assign_to(n.target, self.visit(n.value))

    def visit_AugAssign(self, n):
        ops = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&", ast.LShift: "<<", ast.RShift: ">>", ast.BitXor: "^"}
        v = self.visit(n.value)
        if isinstance(n.target, ast.Attribute):
            import copy
            o1 = self.visit(copy.deepcopy(n.target.value)); o2 = self.visit(copy.deepcopy(n.target.value))
            load = ast.Attribute(value=o1, attr=n.target.attr, ctx=ast.Load())
            return [ast.Expr(value=call("setattr", o2, const(mangle(n.target.attr, self.cls[-1] if self.cls else None)), call("iop", const(ops[type(n.op)]), load, v)))]
        if isinstance(n.target, ast.Name):
            return [ast.Assign(targets=[n.target], value=call("iop", const(ops[type(n.op)]), name(n.target.id), v))]
        n.value = v
        n.target = ast.Subscript(value=self.visit(n.target.value), slice=self.visit(n.target.slice), ctx=ast.Store())
        return n

    # -- displays
    def visit_List(self, n):
        if not isinstance(n.ctx, ast.Load): return self.generic_visit(n)
        n.elts = [self.visit(e) for e in n.elts]
        return call("mklist", n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            return call("is_" if isinstance(n.ops[0], ast.Is) else "isnot", self.visit(n.left), self.visit(n.comparators[0]))
        return self.generic_visit(n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(call("pct", n.left, n.right), n)
        return n
    def visit_JoinedStr(self, n):
        parts = []
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                sp = self.visit(x.format_spec) if x.format_spec is not None else const("")
                parts.append(ast.Tuple(elts=[const("v"), self.visit(x.value), const(x.conversion), sp], ctx=ast.Load()))
            else: parts.append(ast.Tuple(elts=[const("s"), x], ctx=ast.Load()))
        return call("fstr", ast.Tuple(elts=parts, ctx=ast.Load()))

    def visit_Dict(self, n):
        if any(k is None for k in n.keys): return self.generic_visit(n)
        items = [ast.Tuple(elts=[self.visit(k), self.visit(v)], ctx=ast.Load()) for k, v in zip(n.keys, n.values)]
        return call("mkdict", ast.Tuple(elts=items, ctx=ast.Load()))

    def visit_Set(self, n):
        return call("mkset", ast.Tuple(elts=[self.visit(e) for e in n.elts], ctx=ast.Load()))

    # -- comprehensions
    def tlambda(self, target, body):
        A = lambda names: ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[])
        if isinstance(target, ast.Name):
            return ast.Lambda(args=A([target.id]), body=body)
        t = self.tmp("c")
        names, subs = [], []
        for e in target.elts:
            if isinstance(e, ast.Name): names.append(e.id)
            else:
                x = self.tmp("c"); names.append(x); subs.append((x, e))
        for x, e in reversed(subs):
            body = ast.Call(func=self.tlambda(e, body), args=[name(x)], keywords=[])
        return ast.Lambda(args=A([t]), body=ast.Call(func=ast.Lambda(args=A(names), body=body), args=[ast.Starred(value=call("unpack", name(t), const(len(names))), ctx=ast.Load())], keywords=[]))

    def comp(self, gens, elt):
        """expression producing the flat list"""
        g = gens[0]
        it = self.visit(g.iter)
        import copy
        conds = None
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=list(g.ifs))
            conds = self.tlambda(g.target, self.visit(c))
        inner = elt if len(gens) == 1 else self.comp(gens[1:], elt)
        f = self.tlambda(g.target, inner)
        return call("listcomp" if len(gens) == 1 else "flatcomp", const(self.loopid("comp")), it, f, conds or const(None))

    def visit_ListComp(self, n): return self.comp(n.generators, self.visit(n.elt))
    def visit_GeneratorExp(self, n): return self.comp(n.generators, self.visit(n.elt))
    def visit_SetComp(self, n): return call("setof", self.comp(n.generators, self.visit(n.elt)))
    def visit_DictComp(self, n):
        e = ast.Tuple(elts=[self.visit(n.key), self.visit(n.value)], ctx=ast.Load())
        return call("dictof", self.comp(n.generators, e))

def instrument(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Instr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")
