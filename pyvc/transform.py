"""Mechanical AST transformation of the repository's modules (applied on every run).

What it changes: numeric float literals become exact rationals; '/', '**', stores to attributes / items, augmented
assignments, list displays, comprehensions and loops go through the runtime (rt.PV) so that they also work on symbolic
values.  What it drops: docstrings, type annotations, asserts' messages are kept.  Statement order, control flow, names,
calls and expressions are those of the source."""
import ast

OPN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow", ast.Mod: "mod", ast.FloorDiv: "floordiv",
       ast.MatMult: "matmul", ast.BitAnd: "and_", ast.BitOr: "or_", ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift"}


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def call(f, *args):
    return ast.Call(ast.Attribute(name("_pv_"), f, ast.Load()), list(args), [])


def const(v):
    return ast.Constant(v)


class Assigned(ast.NodeVisitor):
    """names bound in a statement list (not inside nested functions/classes/comprehensions)"""

    def __init__(self):
        self.n = {}

    def visit_Name(self, x):
        if isinstance(x.ctx, (ast.Store, ast.Del)):
            self.n[x.id] = 1

    def visit_FunctionDef(self, x):
        self.n[x.name] = 1

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, x):
        self.n[x.name] = 1

    def visit_Lambda(self, x):
        pass

    def visit_Import(self, x):
        for a in x.names:
            self.n[a.asname or a.name.split(".")[0]] = 1

    def visit_ImportFrom(self, x):
        for a in x.names:
            self.n[a.asname or a.name] = 1

    def visit_ExceptHandler(self, x):
        if x.name:
            self.n[x.name] = 1
        self.generic_visit(x)

    def _comp(self, x):
        for g in x.generators:
            self.visit(g.iter)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp


def assigned(stmts):
    v = Assigned()
    for s in stmts:
        v.visit(s)
    return list(v.n)


def has_yield(stmts):
    st = list(stmts)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


class Fn:
    def __init__(self, kind, node=None):
        self.kind = kind
        self.loopdepth = 0
        self.loopvars = {}
        self.globals = set()
        self.nonlocals = set()


class Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fns = [Fn("module")]
        self.qual = []
        self.cls = []
        self.k = 0

    def tmp(self, p="t"):
        self.k += 1
        return "__%s%d" % (p, self.k)

    # ------------------------------------------------------------ expressions
    def visit_Constant(self, x):
        if type(x.value) is float:
            return ast.copy_location(call("Q", const(repr(x.value))), x)
        if type(x.value) is complex:
            return ast.copy_location(call("QJ", const(repr(x.value.imag))), x)
        return x

    def visit_JoinedStr(self, x):
        vs = []
        for v in x.values:
            if isinstance(v, ast.FormattedValue):
                vs.append(ast.FormattedValue(call("fmt", self.visit(v.value)), -1, None))
            else:
                vs.append(v)
        return ast.JoinedStr(vs)

    def visit_BinOp(self, x):
        self.generic_visit(x)
        if isinstance(x.op, ast.Div):
            return ast.copy_location(call("div", x.left, x.right), x)
        if isinstance(x.op, ast.Pow):
            return ast.copy_location(call("pow", x.left, x.right), x)
        return x

    def visit_Compare(self, x):
        self.generic_visit(x)
        if len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)):
            r = call("contains", x.comparators[0], x.left)
            return ast.UnaryOp(ast.Not(), r) if isinstance(x.ops[0], ast.NotIn) else r
        return x

    def visit_List(self, x):
        self.generic_visit(x)
        if isinstance(x.ctx, ast.Load):
            return ast.copy_location(call("L", x), x)
        return x

    def _comp_lambda(self, target, body):
        if isinstance(target, ast.Name):
            return ast.Lambda(ast.arguments([], [ast.arg(target.id)], None, [], [], None, []), body)
        names = []

        def pat(t):
            if isinstance(t, ast.Name):
                names.append(t.id)
                return const(None)
            if isinstance(t, (ast.Tuple, ast.List)):
                return ast.Tuple([pat(e) for e in t.elts], ast.Load())
            raise NotImplementedError("comprehension target")
        p = pat(target)
        inner = ast.Lambda(ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), body)
        return ast.Lambda(ast.arguments([], [ast.arg("__x")], None, [], [], None, []),
                          ast.Call(inner, [ast.Starred(call("flat", p, name("__x")), ast.Load())], []))

    def _gens(self, elt, gens):
        g = gens[0]
        it = self.visit(g.iter)
        if len(gens) == 1:
            body = self.visit(elt)
        else:
            body = self._gens(elt, gens[1:])
        ifs = [self._comp_lambda(g.target, self.visit(c)) for c in g.ifs]
        return call("comp", self._comp_lambda(g.target, body), it, ast.Tuple(ifs, ast.Load()), const(len(gens) > 1))

    def visit_ListComp(self, x):
        return ast.copy_location(call("listof", self._gens(x.elt, x.generators)), x)

    def visit_GeneratorExp(self, x):
        return ast.copy_location(self._gens(x.elt, x.generators), x)

    def _natcomp(self, x):
        self.generic_visit(x)
        for g in x.generators:
            g.iter = call("it", g.iter)
        return x

    visit_SetComp = visit_DictComp = _natcomp

    def visit_Lambda(self, x):
        for i, d in enumerate(x.args.defaults):
            x.args.defaults[i] = self.visit(d)
        x.body = self.visit(x.body)
        return x

    # ------------------------------------------------------------ assignment
    def mangle(self, a):
        if self.cls and a.startswith("__") and not a.endswith("__"):
            return "_%s%s" % (self.cls[-1].lstrip("_"), a)
        return a

    def store(self, target, value):
        """statements storing expression node value into target"""
        if isinstance(target, ast.Name):
            return [ast.Assign([target], value)]
        if isinstance(target, ast.Attribute):
            return [ast.Expr(call("setattr", self.visit(target.value), const(self.mangle(target.attr)), value))]
        if isinstance(target, ast.Subscript):
            return [ast.Expr(call("setitem", self.visit(target.value), self.visit(target.slice), value))]
        if isinstance(target, (ast.Tuple, ast.List)):
            if all(isinstance(e, ast.Name) or (isinstance(e, ast.Starred) and isinstance(e.value, ast.Name)) for e in target.elts):
                star = any(isinstance(e, ast.Starred) for e in target.elts)
                if not star:
                    value = call("unpack", const(len(target.elts)), value)
                return [ast.Assign([target], value)]
            ts, post = [], []
            for e in target.elts:
                t = self.tmp()
                if isinstance(e, ast.Starred):
                    ts.append(ast.Starred(name(t, ast.Store()), ast.Store()))
                    e = e.value
                else:
                    ts.append(name(t, ast.Store()))
                post += self.store(e, name(t))
            return [ast.Assign([ast.Tuple(ts, ast.Store())], call("unpack", const(len(ts)), value) if not any(isinstance(t, ast.Starred) for t in ts) else value)] + post
        raise NotImplementedError(ast.dump(target))

    def visit_Assign(self, x):
        v = self.visit(x.value)
        if len(x.targets) == 1:
            r = self.store(x.targets[0], v)
        else:
            t = self.tmp()
            r = [ast.Assign([name(t, ast.Store())], v)]
            for tg in x.targets:
                r += self.store(tg, name(t))
        return [ast.copy_location(s, x) for s in r]

    def visit_AnnAssign(self, x):
        if x.value is None:
            return ast.Pass()
        return [ast.copy_location(s, x) for s in self.store(x.target, self.visit(x.value))]

    def visit_AugAssign(self, x):
        v = self.visit(x.value)
        op = const(OPN[type(x.op)])
        t = x.target
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign([t], call("iop", op, name(t.id), v)), x)
        if isinstance(t, ast.Attribute):
            return ast.copy_location(ast.Expr(call("aug_attr", self.visit(t.value), const(self.mangle(t.attr)), op, v)), x)
        return ast.copy_location(ast.Expr(call("aug_item", self.visit(t.value), self.visit(t.slice), op, v)), x)

    def visit_Delete(self, x):
        r = []
        for t in x.targets:
            if isinstance(t, ast.Attribute):
                r.append(ast.Expr(call("delattr", self.visit(t.value), const(self.mangle(t.attr)))))
            elif isinstance(t, ast.Subscript):
                r.append(ast.Expr(call("delitem", self.visit(t.value), self.visit(t.slice))))
            else:
                r.append(ast.Delete([t]))
        return [ast.copy_location(s, x) for s in r]

    # ------------------------------------------------------------ definitions
    def visit_FunctionDef(self, x):
        fn = Fn("func")
        x.decorator_list = [self.visit(d) for d in x.decorator_list]
        a = x.args
        for l in (a.posonlyargs, a.args, a.kwonlyargs):
            for q in l:
                q.annotation = None
        for q in (a.vararg, a.kwarg):
            if q:
                q.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        x.returns = None
        for s in ast.walk(x):
            if isinstance(s, ast.Global):
                fn.globals |= set(s.names)
            if isinstance(s, ast.Nonlocal):
                fn.nonlocals |= set(s.names)
        self.fns.append(fn)
        self.qual.append(x.name)
        body = x.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        x.body = self.block(body) or [ast.Pass()]
        q = "%s:%s" % (self.mod, ".".join(self.qual))
        pre = [ast.Expr(call("enter", const(q)))]
        lv = [n for n in fn.loopvars if n not in fn.globals and n not in fn.nonlocals]
        if lv:
            pre.append(ast.If(const(False), [ast.Assign([name(n, ast.Store()) for n in lv], const(None))], []))
        # nonlocal/global statements must come first
        decl = [s for s in x.body if isinstance(s, (ast.Global, ast.Nonlocal))]
        x.body = decl + pre + [s for s in x.body if not isinstance(s, (ast.Global, ast.Nonlocal))]
        self.qual.pop()
        self.fns.pop()
        return x

    def visit_ClassDef(self, x):
        self.qual.append(x.name)
        self.cls.append(x.name)
        self.fns.append(Fn("class"))
        x.bases = [self.visit(b) for b in x.bases]
        x.decorator_list = [self.visit(b) for b in x.decorator_list]
        x.body = [s for s in x.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))] or [ast.Pass()]
        nb = []
        for s in x.body:
            if isinstance(s, ast.AnnAssign) and s.value is None:
                continue
            if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
                s.value = self.visit(s.value)
                nb.append(s)
                continue
            r = self.visit(s)
            nb += r if isinstance(r, list) else [r]
        x.body = nb or [ast.Pass()]
        self.fns.pop()
        self.cls.pop()
        self.qual.pop()
        return x

    def block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            r = self.visit(s)
            if r is None:
                continue
            out += r if isinstance(r, list) else [r]
        return out

    def visit_If(self, x):
        x.test = self.visit(x.test)
        x.body = self.block(x.body) or [ast.Pass()]
        x.orelse = self.block(x.orelse)
        return x

    def visit_With(self, x):
        pre = []
        for it in x.items:
            it.context_expr = self.visit(it.context_expr)
        x.body = self.block(x.body) or [ast.Pass()]
        return x

    def visit_Try(self, x):
        x.body = self.block(x.body) or [ast.Pass()]
        for h in x.handlers:
            if h.type is None:
                h.type = name("Exception")
            else:
                h.type = self.visit(h.type)
            h.body = self.block(h.body) or [ast.Pass()]
        x.orelse = self.block(x.orelse)
        x.finalbody = self.block(x.finalbody)
        return x

    # ------------------------------------------------------------ loops
    def visit_Return(self, x):
        fn = self.fns[-1]
        v = self.visit(x.value) if x.value is not None else const(None)
        if fn.loopdepth:
            return ast.copy_location(ast.Return(ast.Tuple([const("ret"), v], ast.Load())), x)
        return ast.copy_location(ast.Return(v), x)

    def visit_Break(self, x):
        if self.fns[-1].loopdepth and not getattr(self, "natloop", 0):
            return ast.copy_location(ast.Return(ast.Tuple([const("brk"), const(None)], ast.Load())), x)
        return x

    def visit_Continue(self, x):
        if self.fns[-1].loopdepth and not getattr(self, "natloop", 0):
            return ast.copy_location(ast.Return(const(None)), x)
        return x

    def _native_loop(self, x):
        o = getattr(self, "natloop", 0)
        self.natloop = 1
        if isinstance(x, ast.For):
            x.iter = call("it", self.visit(x.iter))
            t = self.tmp()
            pre = self.store(x.target, name(t))
            x.target = name(t, ast.Store())
            x.body = pre + self.block(x.body)
        else:
            x.test = self.visit(x.test)
            x.body = self.block(x.body)
        self.natloop = o
        x.orelse = self.block(x.orelse)
        return x

    def _loop(self, x, kind):
        fn = self.fns[-1]
        if fn.kind == "class" or has_yield(x.body) or getattr(self, "natloop", 0):
            return self._native_loop(x)
        names = assigned(x.body + ([ast.Assign([x.target], const(None))] if kind == "for" else []))
        for s in ast.walk(x):
            if isinstance(s, ast.NamedExpr):
                names.append(s.target.id)
        names = [n for n in dict.fromkeys(names)]
        glob = [n for n in names if n in fn.globals] if fn.kind == "func" else names
        loc = [n for n in names if n not in glob]
        for n in loc:
            fn.loopvars[n] = 1
        bname, sname, rname = self.tmp("body"), self.tmp("set"), self.tmp("r")
        if kind == "for":
            itx = self.visit(x.iter)
        else:
            test = self.visit(x.test)
        fn.loopdepth += 1
        outer = self.natloop if hasattr(self, "natloop") else 0
        n0 = self.k
        body = []
        if kind == "for":
            body += self.store(x.target, name("__x"))
        body += self.block(x.body)
        fn.loopdepth -= 1
        tmps = [n for n in assigned(body) if n.startswith("__") and n not in names]
        decl = []
        if loc:
            decl.append(ast.Nonlocal(list(loc)))
        if glob:
            decl.append(ast.Global(list(glob)))
        body.append(ast.Return(const(None)))
        fbody = ast.FunctionDef(bname, ast.arguments([], [ast.arg("__x")], None, [], [], None, [const(None)]), decl + body, [], None, None, type_params=[])
        sb = []
        for i, n in enumerate(names):
            sb.append(ast.If(ast.Compare(name("__k"), [ast.Eq()], [const(i)]), [
                ast.If(ast.Compare(name("__v"), [ast.Is()], [ast.Attribute(name("_pv_"), "UNBOUND", ast.Load())]),
                       [ast.Delete([name(n, ast.Del())])], [ast.Assign([name(n, ast.Store())], name("__v"))])], []))
        fset = ast.FunctionDef(sname, ast.arguments([], [ast.arg("__k"), ast.arg("__v")], None, [], [], None, []), decl + (sb or [ast.Pass()]), [], None, None, type_params=[])
        import copy as cp
        fset.body = [cp.deepcopy(s) for s in fset.body]
        noarg = ast.arguments([], [], None, [], [], None, [])
        vs = ast.Tuple([ast.Tuple([const(n), ast.Lambda(noarg, name(n))], ast.Load()) for n in names], ast.Load())
        where = const("%s:%s:%d" % (self.mod, ".".join(self.qual), x.lineno))
        if kind == "for":
            c = call("for_", itx, name(bname), vs, name(sname), where)
        else:
            c = call("while_", ast.Lambda(noarg, test), name(bname), vs, name(sname), where)
        out = [fbody, fset, ast.Assign([name(rname, ast.Store())], c)]
        has_ret = any(isinstance(s, ast.Return) for s in ast.walk(ast.Module(x.body, [])))
        # propagate 'return'
        isret = ast.BoolOp(ast.And(), [ast.Compare(name(rname), [ast.IsNot()], [const(None)]),
                                       ast.Compare(ast.Subscript(name(rname), const(0), ast.Load()), [ast.Eq()], [const("ret")])])
        if fn.kind == "func":
            val = name(rname) if fn.loopdepth else ast.Subscript(name(rname), const(1), ast.Load())
            out.append(ast.If(isret, [ast.Return(val)], []))
        if x.orelse:
            out.append(ast.If(ast.Compare(name(rname), [ast.Is()], [const(None)]), self.block(x.orelse), []))
        return [ast.copy_location(s, x) for s in out]

    def visit_For(self, x):
        return self._loop(x, "for")

    def visit_While(self, x):
        return self._loop(x, "while")


def transform(src, modname, filename):
    tree = ast.parse(src, filename)
    tx = Tx(modname)
    tree.body = tx.block(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")
