"""Loops: concrete ones run natively; loops of symbolic length are summarised by a derived invariant.

The body is executed once for an arbitrary iteration k from an arbitrary (havocked) state, on all its paths.  The state
before iteration k is then given in closed form (the loop invariant): value written in the previous iteration, sum of
increments, last conditional write, conjunction / disjunction of flags, list segment.  The closed form is checked by
construction: it holds for k = 0 and one more execution of the body preserves it.  Anything else becomes a poison value
whose use puts the obligation outside the verifier's reach."""
from .sym import *
from . import sym
from .terms import *
from . import terms as tm
from .tensor import T, Sto, MS, conv_kind, subst_S, DEFAULT
from .builtins_ import *
from .builtins_ import SList, View, Poison, PoisonUse, UNBOUND
import builtins as nb
from .zsolve import replace_atom
from dotmap import DotMap


# ------------------------------------------------------------------ values
def freeze(v, memo=None):
    """value with array contents fixed to their present state"""
    if isinstance(v, T):
        r = T.of(v.reader(), v.shp, v.dt, v.lib)
        r.nanp, r.mx, r.requires_grad = v.nanp, v.mx, v.requires_grad
        r.origin = v.sto
        return r
    if isinstance(v, SList):
        r = SList([freeze(x) for x in v.raw()])
        if v.segs is not None:
            r.segs = [(s[0], [freeze(x) for x in s[1]]) if s[0] == "c" else s for s in v.segs]
        r.ro = v.ro
        return r
    if type(v) is nb.tuple:
        return nb.tuple(freeze(x) for x in v)
    if type(v) is nb.list:
        return [freeze(x) for x in v]
    if type(v) is dict:
        return {k: freeze(x) for k, x in v.items()}
    return v


def map_val(v, f):
    """apply f: S -> S to every scalar of a frozen value"""
    if isinstance(v, S):
        return f(v)
    if isinstance(v, T):
        rd = v.reader()

        def fn(idx):
            ph = [fresh_tmp() for _ in idx]
            s = f(rd(nb.tuple(ph)))
            return subst_S(s, {p.single_atom(): q for p, q in nb.zip(ph, idx)})
        r = T.of(fn, [f(S("i", p)).v for p in v.shp], v.dt, v.lib)
        if v.nanp is not None:
            np_ = v.nanp
            r.nanp = lambda idx: f(S("b", np_(idx))).v
        return r
    if isinstance(v, SList):
        r = SList([map_val(x, f) for x in v.raw()])
        if v.segs is not None:
            r.segs = [(s[0], [map_val(x, f) for x in s[1]]) if s[0] == "c" else
                      ("s", f(S("i", s[1])).v, (lambda g: lambda j: map_seg(g, j, f))(s[2])) for s in v.segs]
        return r
    if type(v) is nb.tuple:
        return nb.tuple(map_val(x, f) for x in v)
    if type(v) is nb.list:
        return [map_val(x, f) for x in v]
    if type(v) is dict:
        return {k: map_val(x, f) for k, x in v.items()}
    if isinstance(v, (str, int, float, type(None))) or isinstance(v, nb.type) or callable(v):
        return v
    if isinstance(v, PyType) or v is UNBOUND or isinstance(v, Poison):
        return v
    if isinstance(v, DotMap):
        return v
    mv = getattr(type(v), "sym_map", None)
    if mv:
        return mv(v, f)
    return v


def map_seg(g, j, f):
    ph = fresh_tmp()
    v = map_val(g(ph), f)
    return map_val(v, lambda s: subst_S(s, {ph.single_atom(): j}))


def subst_val(v, m):
    return map_val(v, lambda s: subst_S(s, m))


def mergeable_scalar(x):
    return isinstance(x, (S, int, float, complex, Fr, bool))


def merge_val(c, a, b):
    """ite(c, a, b) on frozen values"""
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if mergeable_scalar(a) and mergeable_scalar(b):
        if type(a) is type(b) and not isinstance(a, S) and a == b:
            return a
        return s_ite(c, lift(a), lift(b))
    if isinstance(a, T) or isinstance(b, T):
        if not (isinstance(a, T) and isinstance(b, T)):
            t, s = (a, b) if isinstance(a, T) else (b, a)
            if not t.shp and mergeable_scalar(s):
                a, b = (x if isinstance(x, T) else T.of((lambda q: lambda i: conv_kind(lift(q), t.dt.kind))(x), [], t.dt, t.lib) for x in (a, b))
            else:
                raise Unsupported("merging values of different kinds")
        if len(a.shp) != len(b.shp):
            raise Unsupported("merging arrays of different shapes")
        for x, y in nb.zip(a.shp, b.shp):
            if x is not y and not E().prover.entails(E().pc, beq(x, y)):
                raise Unsupported("merging arrays of different shapes")
        ra, rb = a.reader(), b.reader()
        dt = a.dt if a.dt is b.dt else DEFAULT[jk(a.dt.kind, b.dt.kind)]
        r = T.of(lambda i: s_ite(c, conv_kind(ra(i), dt.kind), conv_kind(rb(i), dt.kind)), a.shp, dt, a.lib)
        return r
    if isinstance(a, SList) and isinstance(b, SList) and a.segs is None and b.segs is None and nb.len(a.raw()) == nb.len(b.raw()):
        return SList([merge_val(c, x, y) for x, y in nb.zip(a.raw(), b.raw())])
    if type(a) is nb.tuple and type(b) is nb.tuple and nb.len(a) == nb.len(b):
        return nb.tuple(merge_val(c, x, y) for x, y in nb.zip(a, b))
    if type(a) is type(b) and isinstance(a, (str, int)) and a == b:
        return a
    raise Unsupported("merging values of different kinds (%s / %s)" % (type(a).__name__, type(b).__name__))


# ------------------------------------------------------------------ running all paths of a piece of code
def run_paths(fn):
    """-> [(condition, flow)] with flow ('ret', frozen value) | ('raise', exc)"""
    e = E()

    def go():
        try:
            return ("ret", freeze(fn()))
        except Exception as ex:
            if isinstance(ex, TooBig):
                raise Unsupported("term too large")
            return ("raise", ex)
    outs = e.explore(go)
    return [(band(*extra) if extra else TRUE, r[1]) for extra, r in outs]


def merge_outcomes(outs):
    if not outs:
        raise PathEnd("no feasible path")
    bad = [o for o in outs if o[1][0] == "raise"]
    if bad:
        if len(bad) == len(outs):
            raise bad[0][1][1]
        # exceptional behaviour for some elements: fork on it
        c = bor(*[b[0] for b in bad])
        raise Unsupported("an element of a symbolic sequence may raise %r" % (bad[0][1][1],))
    v = outs[-1][1][1]
    for c, (_, w) in reversed(outs[:-1]):
        v = merge_val(c, w, v)
    return v


# ------------------------------------------------------------------ rewriting of havoc symbols
def rewrite(x, tab, memo=None):
    """replace app / bv symbols by tab[name](args)"""
    if memo is None:
        memo = {}

    def go(y):
        r = memo.get(y)
        if r is not None:
            return r
        if isinstance(y, Poly):
            r = ZERO
            for mono, c in y.t.items():
                q = num(c)
                for a, ex in mono:
                    q = pmul(q, ppow(goa(a), ex))
                r = padd(r, q)
        elif y.op == "bv" and y.args[0] in tab:
            r = tab[y.args[0]](nb.tuple(go(z) if isinstance(z, (Poly, B)) else z for z in y.args[1:]))
        else:
            r = rebuild_b(y, go)
        memo[y] = r
        return r

    def goa(a):
        r = memo.get(a)
        if r is not None:
            return r
        if a.op == "app" and a.args[0] in tab:
            r = tab[a.args[0]](nb.tuple(go(z) if isinstance(z, (Poly, B)) else z for z in a.args[1:]))
        elif nb.any(isinstance(z, (Poly, B)) for z in a.args):
            r = rebuild_atom(a, go)
        else:
            r = of_atom(a)
        memo[a] = r
        return r
    return go(x)


def rw_S(s, tab):
    if not tab:
        return s
    if s.kind == "c":
        return S("c", (rewrite(s.v[0], tab), rewrite(s.v[1], tab)))
    return S(s.kind, rewrite(s.v, tab))


def symbols(x):
    """names of app / bv symbols occurring in x"""
    out = set()
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, Poly):
            for m in y.t:
                for a, _ in m:
                    if a.op == "app":
                        out.add(a.args[0])
                    for z in a.args:
                        if isinstance(z, (Poly, B)):
                            st.append(z)
        elif isinstance(y, B):
            if y.op == "bv":
                out.add(y.args[0])
            for z in y.args:
                if isinstance(z, (Poly, B)):
                    st.append(z)
    return out


# ------------------------------------------------------------------ locations
class Loc:
    def __init__(self, key, obj, loop):
        self.key, self.obj, self.loop = key, obj, loop
        self.sym = False       # havocked symbolically (recurrent) or poison
        self.kind = None
        self.closed = None     # fn(k Poly) -> value
        self.name = None
        self.init = UNBOUND

    def get(self):
        t = self.key[0]
        if t == "var":
            try:
                return self.loop.vs[self.key[1]][1]()
            except NameError:
                return UNBOUND
        if t == "attr":
            d = getattr(self.obj, "__dict__", {})
            return d.get(self.key[2], UNBOUND)
        if t == "item":
            return self.obj[self.key[2]] if self.key[2] in self.obj else UNBOUND
        raise AssertionError(t)

    def set(self, v):
        from .rt import PV
        t = self.key[0]
        if t == "var":
            if v is UNBOUND and self.get() is UNBOUND:
                return
            self.loop.setter(self.key[1], v)
        elif t == "attr":
            if v is UNBOUND:
                if self.key[2] in self.obj.__dict__:
                    PV.delattr(self.obj, self.key[2])
            else:
                PV.setattr(self.obj, self.key[2], v)
        elif t == "item":
            if v is UNBOUND:
                if self.key[2] in self.obj:
                    PV.delitem(self.obj, self.key[2])
            else:
                PV.setitem(self.obj, self.key[2], v)

    def label(self):
        if self.key[0] == "var":
            return self.loop.vs[self.key[1]][0]
        return str(self.key[2] if len(self.key) > 2 else self.key[0])


class Fail(Exception):
    pass


_loopc = [0]


def stamp_of(o):
    if isinstance(o, dict):
        return None
    s = getattr(o, "serial", None)
    if s is None and hasattr(o, "__dict__"):
        s = o.__dict__.get("_pv__serial")
    return s


class Loop:
    def __init__(self, n, item, body, vs, setter, where):
        self.n, self.item, self.body, self.vs, self.setter, self.where = n, item, body, vs, setter, where
        self.id = int((E().fresh_name("loop").split("!") + ["0"])[1]) + 1
        self.outer = nb.list(E().loopvars)
        self.locs = {}
        self.tab = {}

    # -- snapshot of locals
    def snap(self):
        out = []
        for i, (nm, g) in nb.enumerate(self.vs):
            try:
                out.append(g())
            except NameError:
                out.append(UNBOUND)
        return out

    def restore(self, s):
        for i, v in nb.enumerate(s):
            try:
                cur = self.vs[i][1]()
            except NameError:
                cur = UNBOUND
            if cur is not v:
                self.setter(i, v)

    # -- havoc
    def pre_scalar(self, name, kind, idx, k):
        args = self.outer + [k] + nb.list(idx)
        if kind == "b":
            return S("b", B("bv", (name,) + nb.tuple(args)))
        if kind == "c":
            return S("c", (app(name + "_re", args, "r"), app(name + "_im", args, "r")))
        return S(kind, app(name, args, kind))

    def havoc(self, k):
        for l in self.locs.values():
            t = l.key[0]
            nm = l.name
            if t == "sto":
                kd = l.kind
                l.read_at = ra = set()

                def read(idx, nm=nm, kd=kd, ra=ra):
                    ra.add(nb.len(idx))
                    return self.pre_scalar(nm, kd, idx, k)
                l.obj.set(read)
            elif t == "lst":
                l.obj._log()
                nb.list.__setitem__(l.obj, slice(None), [])
                l.obj.segs = None
                old = l.obj.ro
                E().log(lambda l=l, old=old: setattr(l.obj, "ro", old))
                l.obj.ro = l.init_len if l.wmode else l.init_len + S("i", k)
                ow = l.obj.wr
                E().log(lambda l=l, ow=ow: setattr(l.obj, "wr", ow))
                l.obj.wr = ()
            elif l.sym:
                v = l.init
                if isinstance(v, T) or l.kind == "T":
                    if l.shape is None:
                        raise Unsupported("loop-carried array of unknown shape (%s)" % l.label())
                    r = T.of((lambda nm, kd: lambda idx: self.pre_scalar(nm, kd, idx, k))(nm, l.dt.kind), l.shape, l.dt, l.lib)
                    l.set(r)
                else:
                    l.set(self.pre_scalar(nm, l.kind, (), k))
            else:
                l.set(Poison("%s carried over from an earlier iteration (%s)" % (l.label(), self.where), l.key))

    # -- one exploration of the body
    def explore(self, k, havoc=True):
        e = E()
        snap = self.snap()
        e.pc_mark = nb.len(e.pc)
        m0 = nb.len(e.pc)
        mut = {}

        def go():
            try:
                if havoc:
                    self.havoc(k)
                pre = self.snap()
                e.mutated.append(mut)
                try:
                    try:
                        r = self.body(self.item(k))
                        flow = ("next",) if r is None else r
                    except Exception as ex:
                        if isinstance(ex, TooBig):
                            raise Unsupported("term too large")
                        flow = ("raise", ex)
                    finally:
                        e.mutated.pop()
                    for i, (a, b) in nb.enumerate(nb.zip(pre, self.snap())):
                        if a is not b:
                            mut[("var", i)] = None
                    post = {}
                    for key, l in self.locs.items():
                        if key[0] == "sto":
                            post[key] = l.obj.snapshot()
                        elif key[0] == "lst":
                            if l.obj.segs is not None or l.obj.ro is None or (l.obj.wr and l.obj.raw()):
                                post[key] = Fail
                            elif l.obj.wr:
                                post[key] = ("w", [(p, freeze(x)) for p, x in l.obj.wr])
                            else:
                                post[key] = [freeze(x) for x in l.obj.raw()]
                        else:
                            post[key] = freeze(l.get())
                    return flow, post
                finally:
                    pass
            finally:
                self.restore(snap)
        e.pc += [bge(k, ZERO), blt(k, self.n)] if self.n is not None else [bge(k, ZERO)]
        e.loopvars_stack_push(k)
        try:
            outs = e.explore(go)
        finally:
            e.loopvars_stack_pop()
            del e.pc[m0:]
        return [(band(*x) if x else TRUE, r[1]) for x, r in outs], mut

    def add_locs(self, mut, serial0):
        new = False
        for key, obj in mut.items():
            if key in self.locs:
                continue
            if key[0] in ("sto", "lst", "attr", "item"):
                s = stamp_of(obj)
                if s is not None and s > serial0:
                    continue
            l = Loc(key, obj, self)
            l.name = "!h%d_%d" % (self.id, nb.len(self.locs))
            if key[0] == "sto":
                l.kind = obj.kind
                l.init = obj.snapshot()
            elif key[0] == "lst":
                l.wmode = False
                l.init_len = b_len(obj)
                l.init_segs = seq_segs(obj)
                if not isinstance(l.init_len, S):
                    l.init_len = S("i", num(l.init_len))
            else:
                l.init = l.get()
                l.init_frozen = freeze(l.init)
            self.locs[key] = l
            new = True
        return new

    def make_sym(self, key, post=None):
        l = self.locs[key]
        v = l.init
        cand = [v] + ([post] if post is not None else [])
        if isinstance(v, T):
            l.sym, l.kind, l.shape, l.dt, l.lib = True, "T", nb.list(v.shp), v.dt, v.lib
            return True
        if mergeable_scalar(v):
            l.sym = True
            l.kind = lift(v).kind
            return True
        return False

    # -- derive the closed forms
    def run(self):
        e = E()
        serial0 = sym.SERIAL[0]
        k = var("k%d" % self.id, "i")
        self.k = k
        rounds = 0
        outs = None
        while True:
            rounds += 1
            if rounds > 14:
                raise Unsupported("loop state does not stabilise (%s)" % self.where)
            try:
                outs, mut = self.explore(k)
            except PoisonUse as p:
                if p.loc in self.locs and not self.locs[p.loc].sym and self.make_sym(p.loc):
                    continue
                raise
            if self.add_locs(mut, serial0):
                continue
            # kinds of carried scalars
            again = False
            for key, l in self.locs.items():
                if l.sym and l.kind != "T":
                    for c, (flow, post) in outs:
                        if flow[0] == "next":
                            pv = post[key]
                            if l.kind == "T":
                                break
                            if mergeable_scalar(pv):
                                nk = jk(l.kind, lift(pv).kind)
                                if nk != l.kind:
                                    l.kind = nk
                                    again = True
                            elif isinstance(pv, T) and not pv.shp:
                                l.kind, l.shape, l.dt, l.lib = "T", [], pv.dt, pv.lib
                                iv = l.init
                                l.init_frozen = T.of((lambda q, kk: lambda i: conv_kind(lift(q), kk))(iv, pv.dt.kind), [], pv.dt, pv.lib)
                                again = True
                            else:
                                raise Unsupported("loop-carried %s changes its type" % l.label())
                if key[0] == "lst" and not l.wmode and nb.any(isinstance(post[key], nb.tuple) for c, (flow, post) in outs if flow[0] == "next" and key in post):
                    l.wmode = again = True
                    continue
                if l.sym and l.kind == "T":
                    for c, (flow, post) in outs:
                        if flow[0] == "next":
                            pv = post[key]
                            if isinstance(pv, T):
                                if nb.len(pv.shp) != nb.len(l.shape) or nb.any(x is not y and not e.prover.entails(e.pc, beq(x, y)) for x, y in nb.zip(pv.shp, l.shape)):
                                    if isinstance(l.init, T) and nb.len(l.init.shp) == 0:
                                        l.shape = nb.list(pv.shp)
                                        l.shape_changed = True
                                        again = True
                                    else:
                                        raise Unsupported("loop-carried array %s changes its shape" % l.label())
                                if pv.dt is not l.dt and "birc".index(pv.dt.kind) > "birc".index(l.dt.kind):
                                    l.dt = pv.dt
                                    again = True
                if key[0] in ("var", "attr", "item") and not l.sym and l.init is not UNBOUND:
                    # left unchanged on some paths: carried over
                    ps = [post[key] for c, (flow, post) in outs if flow[0] == "next"]
                    if nb.any(isinstance(p, Poison) for p in ps) and self.make_sym(key):
                        again = True
            if again:
                continue
            if rounds < 10 and self.unswitch(outs):
                continue
            break
        normal = [(c, post) for c, (flow, post) in outs if flow[0] == "next"]
        exits = [(c, flow) for c, (flow, post) in outs if flow[0] != "next"]
        self.aliases(normal, serial0)
        self.solve(normal, k)
        exitc = FALSE
        if exits:
            exitc = rewrite(bor(*[c for c, _ in exits]), self.tab)
            bad = symbols(exitc) & self.hnames()
            if bad:
                raise Unsupported("exit of the loop depends on loop-carried values (%s)" % self.where)
        return self.finish(exitc, normal)

    def unswitch(self, outs):
        """a branch that decides whether the loop appends, on a condition the loop does not change: decided outside the loop"""
        outs = [(c, post) for c, (flow, post) in outs if flow[0] == "next"]
        hn = self.hnames() | {self.k.single_atom().args[0]}
        for key in self.locs:
            if key[0] != "lst" or nb.any(post[key] is Fail or isinstance(post[key], nb.tuple) for _, post in outs):
                continue
            if nb.len({nb.len(post[key]) for _, post in outs}) < 2:
                continue
            for c, _ in outs:
                for x in (c.args if c.op == "and" else [c]):
                    if not (symbols(x) & hn) and self.k.single_atom() not in atoms_rec(x) and not E().prover.entails(E().pc, x) and not E().prover.entails(E().pc, bnot(x)):
                        E().decide(x)
                        return True
        return False

    def aliases(self, normal, serial0):
        """a carried array must not alias storage that the loop mutates"""
        mutated = {id(l.obj) for key, l in self.locs.items() if key[0] == "sto"}
        for c, post in normal:
            for key, l in self.locs.items():
                vals = post[key] if key[0] == "lst" and post[key] is not Fail else [post[key]] if key[0] not in ("sto", "lst") else []
                for v in vals:
                    st = [v]
                    while st:
                        x = st.pop()
                        if isinstance(x, T):
                            if id(getattr(x, "origin", None)) in mutated:
                                if key[0] == "lst":
                                    raise Unsupported("a stored array is modified by later iterations")
                                l.alias = True
                        elif isinstance(x, (nb.tuple, nb.list)):
                            st.extend(x if not isinstance(x, SList) else x.raw())

    def hnames(self):
        out = set()
        for l in self.locs.values():
            if l.name:
                out |= {l.name, l.name + "_re", l.name + "_im"}
        return out

    def merged_post(self, key, normal, getter):
        vals = [(c, getter(post[key])) for c, post in normal]
        if nb.len(vals) > 2 and nb.all(isinstance(x, (int, Fr)) or (isinstance(x, S) and x.kind in "ir") for _, x in vals):
            # one case per value; the case whose condition mentions the loop state goes last (it is then implied)
            groups = []
            for c, x in vals:
                p = lift(x)
                for g in groups:
                    if g[1].kind == p.kind and g[1].v is p.v:
                        g[0] = bor(g[0], c)
                        break
                else:
                    groups.append([c, p])
            hn = self.hnames()
            groups.sort(key=lambda g: bool(symbols(g[0]) & hn))
            vals = groups
        v = vals[-1][1]
        for c, x in reversed(vals[:-1]):
            v = merge_val(c, x, v)
        return v

    def solve(self, normal, k):
        """closed forms for all locations, in dependency order"""
        e = E()
        self.rep = {}
        work = []
        if not normal:
            for key, l in self.locs.items():
                l.closed_pre = lambda kk, l=l: Poison("loop state")
                l.final = lambda nn, l=l: Poison("loop state")
            return
        for key, l in self.locs.items():
            try:
                if key[0] == "sto":
                    def mk(gets, conds, kind):
                        def rd(idx):
                            v = conv_kind(gets[-1](idx), kind)
                            for c, g in nb.zip(reversed(conds[:-1]), reversed(gets[:-1])):
                                v = s_ite(c, conv_kind(g(idx), kind), v)
                            return v
                        return rd
                    l.post = mk([p[key] for _, p in normal], [c for c, _ in normal], l.kind)
                    l.rank = None
                elif key[0] == "lst":
                    ps = [p[key] for _, p in normal]
                    if nb.any(isinstance(p, nb.tuple) for p in ps):
                        if not nb.all(isinstance(p, nb.tuple) or p == [] for p in ps) or nb.any(isinstance(p, nb.tuple) and nb.len(p[1]) != 1 for p in ps):
                            raise Unsupported("several writes to a list per iteration")
                        l.post = ("w", [(c, p[1][0][0], p[1][0][1]) for (c, _), p in nb.zip(normal, ps) if isinstance(p, nb.tuple)])
                        continue
                    if nb.any(p is Fail for p in ps) or nb.len({nb.len(p) for p in ps}) != 1:
                        raise Unsupported("conditional append")
                    items = nb.list(ps[-1])
                    try:
                        for c, p in nb.zip(reversed([c for c, _ in normal][:-1]), reversed(ps[:-1])):
                            items = [merge_val(c, a, b) for a, b in nb.zip(p, items)]
                        l.post = items
                    except Unsupported:
                        if nb.len(items) != 1:
                            raise
                        l.post = ("alt", [(c, None, p[0]) for (c, _), p in nb.zip(normal, ps)])
                else:
                    l.post = self.merged_post(key, normal, lambda v: v)
            except Unsupported as u:
                l.post = Fail
                l.why = str(u)
        hn = self.hnames()
        pending = [l for l in self.locs.values()]
        progress = True
        while pending and progress:
            progress = False
            for l in nb.list(pending):
                if l.post is Fail:
                    l.closed = None
                    pending.remove(l)
                    continue
                if l.key[0] == "lst":
                    continue
                r = self.solve_loc(l, k, hn)
                if r:
                    pending.remove(l)
                    progress = True
        for l in pending:
            if l.key[0] != "lst":
                l.post = Fail
                l.why = "recurrence without a closed form"

    def solve_loc(self, l, k, hn):
        """True when solved (l.closed set) or hopeless; False: depends on unsolved locations"""
        if l.key[0] == "sto":
            rd, init, kind = l.post, l.init, l.kind
            if getattr(l, "nd", None) is None:
                l.nd = self.sto_rank(l)
            if l.nd is None:
                # lazily: number of indices is known only on access
                l.closed = LazySto(self, l, k, hn)
                dep = None
                return True
            return self.solve_array(l, rd, init, kind, l.nd, k, hn)
        v = l.post
        if not l.sym:
            # written before read in every iteration
            syms = val_symbols(v) & hn
            if syms - set(self.tab):
                return False
            tmpl = map_val(v, lambda s: rw_S(s, self.tab))
            l.tmpl = tmpl
            l.mode = "assign"
            return True
        if l.kind == "T":
            if not isinstance(v, T):
                if mergeable_scalar(v) and not l.shape:
                    vv = conv_kind(lift(v), l.dt.kind)
                    v = T.of(lambda i: vv, [], l.dt, l.lib)
                else:
                    l.post, l.why = Fail, "array replaced by something else"
                    return True
            ini = l.init_frozen
            if getattr(l, "shape_changed", False):
                ir = ini.reader()
                init = lambda idx: ir(())
            else:
                init = ini.reader()
            l.mode = "array"
            return self.solve_array(l, v.reader(), init, l.dt.kind, nb.len(l.shape), k, hn)
        s = conv_kind(lift(v), l.kind)
        init = conv_kind(lift(l.init), l.kind)
        l.mode = "scalar"
        return self.solve_array(l, lambda idx: s, lambda idx: init, l.kind, 0, k, hn)

    def sto_rank(self, l):
        r = getattr(l.obj, "rank", None)
        seen = getattr(l, "read_at", ())
        return nb.next(nb.iter(seen)) if r is None and nb.len(seen) == 1 else r

    def solve_array(self, l, post, init, kind, nd, k, hn):
        ph = nb.tuple(fresh_tmp() for _ in nb.range(nd))
        pv = rw_S(conv_kind(post(ph), kind), self.tab)
        iv = conv_kind(init(ph), kind)
        outer = self.outer
        no = nb.len(outer)
        ka = k.single_atom()
        pa = [p.single_atom() for p in ph]
        cells = []
        if kind == "c":
            cells = [(l.name + "_re", pv.v[0], iv.v[0]), (l.name + "_im", pv.v[1], iv.v[1])]
        else:
            cells = [(l.name, pv.v, iv.v)]
        mine = {c[0] for c in cells}
        res = []
        for nm, p, i0 in cells:
            dep = (symbols(p) & hn) - {nm}
            if dep - mine:
                return False
            args = nb.list(outer) + [k] + nb.list(ph)
            f = None if dep else self.cell_b(nm, p, i0, k, args) if kind == "b" else self.cell(nm, p, i0, k, args)
            if f is None and kind != "b" and nd:
                f = self.single_write(nm, p, i0, k, ph, args, {c[0]: c[2] for c in cells})
            if f is None:
                l.post, l.why = Fail, "recurrence without a closed form"
                return True
            res.append((nm, f))
        for nm, f in res:
            def at(args, f=f):
                kk, ix = args[no], args[no + 1:]
                t = fresh_tmp()
                x = f(t)
                m = {t.single_atom(): kk}
                m.update({a: b for a, b in nb.zip(pa, ix)})
                m.update({o.single_atom(): a for o, a in nb.zip(outer, args[:no]) if o.single_atom() is not None and o is not a})
                return subst(x, m)
            self.tab[nm] = at

        def closed(kk, idx):
            args = nb.tuple(outer) + (kk,) + nb.tuple(idx)
            if kind == "c":
                return S("c", (self.tab[res[0][0]](args), self.tab[res[1][0]](args)))
            return S(kind, self.tab[res[0][0]](args))
        l.closed = closed
        return True

    # closed forms: functions of the number of iterations done (a Poly)
    def cell(self, nm, p, i0, k, args):
        pre = app(nm, args, "i" if (p.is_int and i0.is_int and False) else None) if False else None
        ka = k.single_atom()
        pre = self.pre_atom(p, nm)
        at = lambda x, e_: subst(x, {ka: e_})
        if pre is None:
            # written in every iteration
            return lambda n: pite(ble(n, ZERO), i0, at(p, psub(n, ONE)))
        preP = of_atom(pre)
        if preP.single_atom().args[1:] != nb.tuple(args):
            preP = app(nm, nb.list(args), "i" if preP.is_int else "r")
        leaves = tree(p, nm)
        if leaves is not None:
            leaves = [(c, self.at_cell(c, v, nm, preP, args)) for c, v in leaves]
            if nb.any(v is None for c, v in leaves):
                return None
        if leaves is None:
            r = self.cell_minmax(nm, p, i0, k, preP)
            return r
        if nb.all(nm not in symbols(psub(v, preP)) for c, v in leaves):
            d = ZERO
            for c, v in reversed(leaves):
                d = pite(c, psub(v, preP), d)
            j = fresh_tmp()
            iv = self.interval(at(d, j), j)
            if iv is not None:
                return lambda n: padd(i0, iv(n))
            return lambda n: padd(i0, iter_sum(j, n, at(d, j)))
        if nb.all(v is preP or nm not in symbols(v) for c, v in leaves):
            wr = [(c, v) for c, v in leaves if v is not preP]
            C = bor(*[c for c, v in wr])
            val = wr[-1][1]
            for c, v in reversed(wr[:-1]):
                val = pite(c, v, val)
            g = tm._split_guard(C, ka)
            if g is not None:
                ev, rest = g
                if ev.is_int:
                    rest_e, val_e = at(rest, ev), at(val, ev)
                    return lambda n: pite(band(bge(ev, ZERO), blt(ev, n), rest_e), val_e, i0)
            j = fresh_tmp()
            if ka not in val.fv:
                return lambda n: pite(bnot(forall(j, n, bnot(at(C, j)))), val, i0)
            def last(n):
                lv, (bd,) = abstract(j, at(C, psub(psub(n, ONE), j)))
                J = of_atom(Atom("first", (lv, n, bd), "i"))
                return pite(blt(J, n), at(val, psub(psub(n, ONE), J)), i0)
            return last
        # geometric: pre * q(k)?  not described
        return self.cell_minmax(nm, p, i0, k, preP)

    def single_write(self, nm, p, i0, k, ph, args, inits):
        """every cell is written in at most one iteration (k = ev), from its own old value, which is then still the initial one"""
        e = E()
        ka = k.single_atom()
        own = nb.tuple(args)
        cand, todo, seen = [], [p], nb.set()
        while todo:
            y = todo.pop()
            if nb.id(y) in seen:
                continue
            seen.add(nb.id(y))
            if isinstance(y, tm.B):
                if y.op == "eq" and not y.lvl:
                    g = tm._split_guard(y, ka)
                    if g is not None and g[0].is_int and nb.any(q.single_atom() in g[0].fv for q in ph) and g[0] not in cand:
                        cand.append(g[0])
                todo += [z for z in y.args if isinstance(z, (tm.B, tm.Poly))]
            elif isinstance(y, tm.Poly):
                for m in y.t:
                    for a, _ in m:
                        if a.op == "ite":
                            todo += nb.list(a.args)
        reads = [a for a in atoms_rec(p) if a.op == "app" and a.args[0] in inits]
        same = []
        for a in reads:
            ix = a.args[1:]
            if nb.len(ix) != nb.len(own) or nb.any(getattr(x, "lvl", 0) for x in ix):
                return None
            same += [beq(x, y) for x, y in nb.zip(ix, own) if x is not y]
        pre = app(nm, nb.list(args), "i" if p.is_int else "r")
        for ev in cand:
            C = band(beq(k, ev), *same)
            rng = [bge(k, ZERO)] + ([blt(k, self.n)] if self.n is not None else [])
            if e.prover.prove(e.pc + rng + [bnot(C)], beq(p, pre), 4.0)[0] != "proved":
                continue
            val = rewrite(p, {x: (lambda a, v=v: v) for x, v in inits.items()})
            val, cond = subst(val, {ka: ev}), subst(band(*same), {ka: ev})
            return lambda n: pite(band(bge(ev, ZERO), blt(ev, n), cond), val, i0)
        return None

    def at_cell(self, c, v, nm, preP, args):
        """reads of the same cell under another name of its index (equal under the leaf's condition) become the cell itself"""
        own = preP.single_atom()
        for _ in nb.range(6):
            bad = [a for a in atoms_rec(v) if a.op == "app" and a.args[0] == nm and a is not own]
            if not bad:
                return v
            a = bad[0]
            e = E()
            if nb.len(a.args) - 1 != nb.len(args) or not nb.all(x is y or e.prover.entails(e.pc + [c], beq(x, y)) for x, y in nb.zip(a.args[1:], args)):
                return None
            v = replace_atom(v, a, preP)
        return None

    def pre_atom(self, p, nm):
        for a in atoms_rec(p):
            if a.op == "app" and a.args[0] == nm:
                return a
        return None

    def cell_minmax(self, nm, p, i0, k, preP):
        a = p.single_atom()
        if a is None or a.op != "ite":
            return None
        c, x, y = a.args
        ka = k.single_atom()
        for v, other in ((x, y), (y, x)):
            if other is preP and nm not in symbols(v):
                pos = v is x
                less = (blt(v, preP), ble(v, preP))
                greater = (bgt(v, preP), bge(v, preP))
                cc = c if pos else bnot(c)
                which = "argmin" if cc in less else "argmax" if cc in greater else None
                if which is None:
                    return None
                j = fresh_tmp()

                def f(n, which=which, v=v):
                    _, m = ext(j, n, subst(v, {ka: j}), which)
                    b = ble(m, i0) if which == "argmin" else bge(m, i0)
                    return pite(ble(n, ZERO), i0, pite(b, m, i0))
                return f
        return None

    def cell_b(self, nm, p, i0, k, args):
        ka = k.single_atom()
        at = lambda x, e_: subst(x, {ka: e_})
        if nm not in symbols(p):
            return lambda n: bite(ble(n, ZERO), i0, at(p, psub(n, ONE)))
        b1 = rewrite(p, {nm: lambda a: TRUE})
        b0 = rewrite(p, {nm: lambda a: FALSE})
        j = fresh_tmp()
        if b1 is b0:
            return lambda n: bite(ble(n, ZERO), i0, at(b1, psub(n, ONE)))
        if b1 is TRUE:
            return lambda n: bor(i0, bnot(forall(j, n, bnot(at(b0, j)))))
        if b0 is FALSE:
            return lambda n: band(i0, forall(j, n, at(b1, j)))
        return None

    # ------------------------------------------------------------ installing a state
    def install(self, kk):
        """state after kk iterations (kk >= 0)"""
        e = E()
        at_least_one = None
        for key, l in self.locs.items():
            t = key[0]
            if l.post is Fail and t != "lst":
                if t == "sto":
                    why = getattr(l, "why", "")

                    def bad(idx, why=why, l=l):
                        raise Unsupported("array contents after a loop (%s): %s" % (self.where, why))
                    l.obj.set(bad)
                else:
                    l.set(Poison("%s after the loop at %s: %s" % (l.label(), self.where, getattr(l, "why", ""))))
                continue
            if t == "sto":
                cl = l.closed
                l.obj.set((lambda cl: lambda idx: cl(kk, idx))(cl))
            elif t == "lst":
                l.obj._log()
                if l.post is Fail:
                    old = l.obj.ro
                    e.log(lambda l=l, old=old: setattr(l.obj, "ro", old))
                    l.obj.ro = True
                    continue
                if isinstance(l.post, nb.tuple):
                    r = self.written(l, kk)
                    if r is None:
                        old = l.obj.ro
                        e.log(lambda l=l, old=old: setattr(l.obj, "ro", old))
                        l.obj.ro = True
                        continue
                    nb.list.__setitem__(l.obj, slice(None), [])
                    l.obj.segs = r
                    continue
                segs = nb.list(l.init_segs)
                m = nb.len(l.post)
                nb.list.__setitem__(l.obj, slice(None), [])
                if m == 0:
                    pass
                elif m == 1:
                    tm_ = map_val(l.post[0], lambda s: rw_S(s, self.tab))
                    if val_symbols(tm_) & self.hnames():
                        old = l.obj.ro
                        e.log(lambda l=l, old=old: setattr(l.obj, "ro", old))
                        l.obj.ro = True
                        continue
                    segs.append(("s", kk, (lambda tm_: lambda j: subst_val(tm_, {self.k.single_atom(): j}))(tm_)))
                else:
                    raise Unsupported("several appends per iteration")
                l.obj.segs = segs
            elif not l.sym:
                v = l.tmpl
                if getattr(l, "alias", False):
                    l.set(Poison("%s aliases an array the loop modifies" % l.label()))
                    continue
                post = subst_val(v, {self.k.single_atom(): psub(kk, ONE)}) if describable(v) else (v if not depends(v, self.k) else Poison("%s after the loop" % l.label()))
                if kk is self.n:
                    l.set(post)
                else:
                    # kk may be zero
                    if e.decide(ble(kk, ZERO)):
                        l.set(l.init_frozen)
                    else:
                        l.set(post)
            elif l.mode == "array":
                cl = l.closed
                r = T.of((lambda cl: lambda idx: cl(kk, idx))(cl), [subst(p, {}) for p in l.shape], l.dt, l.lib)
                l.set(r)
            else:
                l.set(to_native_int(l.closed(kk, ())))

    def interval(self, d, j):
        """sum over j of an increment that is constant inside and outside one interval of iterations, as a function of the count"""
        e = E()
        a = d.single_atom()
        if a is None or a.op != "ite":
            return None
        b, x, y = a.args
        if x.const() is None or y.const() is None:
            return None
        ja = j.single_atom()
        pts = []
        for q in linear_parts(b):
            m = ((ja, 1),)
            cf = q.t.get(m)
            rest = psub(q, pscale(j, cf)) if cf is not None else None
            if cf in (1, -1) and rest is not None and ja not in atoms_rec(rest):
                p = pscale(rest, Fr(-1) / cf)
                pts += [p, padd(p, ONE)]
        pts = nb.list({id(p): p for p in [ZERO] + pts}.values())[:8]
        pc = e.pc + [bge(j, ZERO)] + ([blt(j, self.n)] if self.n is not None else [])
        for lo in pts:
            for hi in pts + [None]:
                if lo is hi:
                    continue
                inside = bge(j, lo) if hi is None else band(bge(j, lo), blt(j, hi))
                for cond, v, w in ((b, x, y), (bnot(b), y, x)):
                    if e.prover.entails(pc, biff(cond, inside)):
                        def cl(n, lo=lo, hi=hi, v=v, w=w):
                            top = n if hi is None else pite(ble(hi, n), hi, n)
                            bot = pite(ble(lo, ZERO), ZERO, lo)
                            cnt = pite(ble(top, bot), ZERO, psub(top, bot))
                            return padd(pmul(w, n), pmul(psub(v, w), cnt))
                        return cl
        return None

    def settle(self, c, p):
        """resolve case distinctions of p that condition c decides"""
        e = E()
        for _ in nb.range(4):
            its = [a for a in atoms_rec(p) if a.op == "ite"]
            for a in its:
                b, x, y = a.args
                pc = e.pc + [c, bge(self.k, ZERO)]
                if e.prover.entails(pc, bor(bnot(b), beq(x, y))):
                    p = replace_atom(p, a, y)
                    break
                if e.prover.entails(pc, bor(b, beq(x, y))):
                    p = replace_atom(p, a, x)
                    break
            else:
                break
        return p

    def written(self, l, kk):
        """contents after kk iterations of a list the loop assigns items of (index k + constant, one write per iteration)"""
        hn, ka = self.hnames(), self.k.single_atom()
        ws, off = [], None
        for c, p, v in l.post[1]:
            c = rewrite(c, self.tab)
            v = map_val(v, lambda s: rw_S(s, self.tab))
            if l.post[0] == "alt":
                if (symbols(c) | val_symbols(v)) & hn:
                    return None
                ws.append((c, v))
                continue
            p = self.settle(c, rewrite(p, self.tab))
            d = psub(p, self.k)
            if (symbols(c) | symbols(p) | val_symbols(v)) & hn or ka in atoms_rec(d) or (off is not None and off is not d):
                return None
            off = d
            ws.append((c, v))
        if l.post[0] == "alt":
            def pick(j):
                for c, v in ws[:-1]:
                    if E().decide(subst(c, {ka: j})):
                        return subst_val(v, {ka: j})
                return subst_val(ws[-1][1], {ka: j})
            return nb.list(l.init_segs) + [("s", kk, pick)]
        init = SList()
        init.segs = l.init_segs

        def item(j):
            k = psub(j, off)
            if E().decide(band(bge(k, ZERO), blt(k, kk))):
                for c, v in ws:
                    if E().decide(subst(c, {ka: k})):
                        return subst_val(v, {ka: k})
            return init.sym_item(j)
        return [("s", dimP(l.init_len), item)]

    def finish(self, exitc, normal):
        e = E()
        n, k = self.n, self.k
        if exitc is not FALSE:
            j = fresh_tmp()
            no = bnot(subst(exitc, {k.single_atom(): j}))
            if n is not None:
                last = subst(exitc, {k.single_atom(): psub(n, ONE)})
                if e.prover.entails(e.pc + [bge(n, ONE)], last):
                    leaves = e.decide(bge(n, ONE))  # the last iteration leaves if none before does
                else:
                    leaves = not e.decide(forall(j, n, no))
            else:
                leaves = True
                e.note("termination of the loop at %s is assumed" % self.where)
            if leaves:
                K = e.fresh("K%d" % self.id, "i")
                e.assume(bge(K, ZERO))
                if n is not None:
                    e.assume(blt(K, n))
                e.assume(subst(exitc, {k.single_atom(): K}))
                e.assume(forall(j, K, no))
                self.install(K)
                r = self.body(self.item(K))
                if r is None:
                    raise PathEnd("exit iteration continues")
                return r
        if n is None:
            raise PathEnd("loop does not end")
        if not normal:
            raise PathEnd("no iteration completes")
        self.install(n)
        return None


def iter_sum(j, n, body):
    """sum over the iterations j < n (n >= 0); a body in j + c only is shifted to start at index c"""
    ja = j.single_atom()
    offs, st = set(), [body]
    while st and offs is not None:
        p = st.pop()
        for m, _ in p.t.items():
            for a, _e in m:
                if a is ja:
                    offs = None
                    break
                if ja not in of_atom(a).fv:
                    continue
                if a.op != "app":
                    offs = None
                    break
                for x in a.args:
                    if isinstance(x, Poly) and ja in x.fv:
                        c = psub(x, j).const()
                        if c is None or type(c) is not int:
                            offs = None
                            break
                        offs.add(c)
                if offs is None:
                    break
            if offs is None:
                break
    if offs and min(offs) >= 1 and min(offs) <= 3:
        c = min(offs)
        sh = subst(body, {ja: psub(j, num(c))})
        r = mk_sum(j, padd(n, num(c)), sh)
        for i in range(c):
            r = psub(r, subst(sh, {ja: num(i)}))
        return r
    return mk_sum(j, n, body)


def linear_parts(b):
    """polynomials of the comparisons in a formula"""
    out, st = [], [b]
    while st:
        x = st.pop()
        if x.op in ("le", "lt", "eq"):
            out.append(x.args[0])
        elif x.op in ("and", "or", "not"):
            st.extend(x.args)
    return out


def describable(v):
    if isinstance(v, (S, T, SList, str, int, float, type(None), bool)) or v is UNBOUND:
        return True
    if isinstance(v, (nb.tuple, nb.list)):
        return nb.all(describable(x) for x in v)
    return False


def depends(v, k):
    return True


class LazySto:
    """closed form of storage contents, solved per number of indices on first access"""

    def __init__(self, loop, l, k, hn):
        self.loop, self.l, self.k, self.hn = loop, l, k, hn
        self.by = {}

    def __call__(self, kk, idx):
        nd = nb.len(idx)
        f = self.by.get(nd)
        if f is None:
            l2 = Loc(self.l.key, self.l.obj, self.loop)
            l2.name, l2.kind = self.l.name, self.l.kind
            l2.post = self.l.post
            ok = self.loop.solve_array(l2, self.l.post, self.l.init, self.l.kind, nd, self.k, self.hn)
            if not ok or l2.post is Fail or l2.closed is None:
                raise Unsupported("array contents after a loop (%s): %s" % (self.loop.where, getattr(l2, "why", "depends on other loop-carried values")))
            f = self.by[nd] = l2.closed
        return f(kk, idx)


def val_symbols(v):
    if isinstance(v, S):
        if v.kind == "c":
            return symbols(v.v[0]) | symbols(v.v[1])
        return symbols(v.v)
    if isinstance(v, T):
        s = v.reader()(nb.tuple(fresh_tmp() for _ in v.shp))
        out = val_symbols(s)
        for p in v.shp:
            out |= symbols(p)
        return out
    if isinstance(v, SList):
        out = set()
        for x in v.raw():
            out |= val_symbols(x)
        if v.segs is not None:
            for s in v.segs:
                if s[0] == "s":
                    out |= symbols(s[1]) | val_symbols(s[2](fresh_tmp()))
                else:
                    for x in s[1]:
                        out |= val_symbols(x)
        return out
    if isinstance(v, (nb.tuple, nb.list)):
        out = set()
        for x in v:
            out |= val_symbols(x)
        return out
    return set()


def tree(p, nm, depth=0):
    """decision list [(cond, leaf)] of p w.r.t. ites whose branches mention symbol nm; None if conditions do"""
    if depth > 12:
        return None
    for m, c in p.t.items():
        for a, ex in m:
            if a.op == "ite" and nm in symbols(of_atom(a)):
                cnd = a.args[0]
                if nm in symbols(cnd):
                    return None
                if cnd.lvl:
                    return None
                t = tree(assign_cond(p, cnd, True), nm, depth + 1)
                f = tree(assign_cond(p, cnd, False), nm, depth + 1)
                if t is None or f is None:
                    return None
                return [(band(cnd, c1), v) for c1, v in t] + [(band(bnot(cnd), c1), v) for c1, v in f]
    return [(TRUE, p)]


# ------------------------------------------------------------------ entry points
def for_(it, body, vs, setter, where):
    if is_symseq(it) and isinstance(b_len(it), S):
        n = dimP(b_len(it))
        e = E()
        if not e.decide(bge(n, ONE)):
            return None
        h = e.hooks.get("loop")
        if h is not None:
            r = h(n, it, body, vs, setter, where)
            if r is not NotImplemented:
                return r
        src = it
        if isinstance(it, SList):
            src = it[:]
        lp = Loop(n, lambda p: seq_item(src, p), body, vs, setter, where)
        return lp.run()
    for x in it:
        r = body(x)
        if r is not None:
            return r
    return None


def while_(cond, body, vs, setter, where):
    e = E()
    for _ in range(2000):
        # concrete conditions run natively
        outs = None
        c = cond()
        if not isinstance(c, S) and not hasattr(c, "sym_tensor"):
            if not c:
                return None
        else:
            s = c if isinstance(c, S) else c.sym_scalar()
            cc = s.const()
            if cc is None:
                break
            if not cc:
                return None
        r = body(None)
        if r is not None:
            return r

    def wbody(_):
        if not bool(cond()):
            return ("brk", "cond")
        return body(None)
    lp = Loop(None, lambda p: None, wbody, vs, setter, where)
    r = lp.run()
    if r is not None and r[0] == "brk" and r[1] == "cond":
        return None
    return r


# ------------------------------------------------------------------ loops with an invariant given by the contract
class Inductive(Loop):
    """The contract describes the state before iteration k (spec.install / spec.check, over its ghost functions).
    Obligations: the state at entry is state 0; one execution of the body, from state k for arbitrary k, ends in state k+1.
    Local scalars are matched to the contract's candidate values (spec.values) by elimination; any other location the body
    changes is unknown afterwards."""

    def soft(self, a, b):
        try:
            if isinstance(a, T):
                if a.shp:
                    return False
                a = a.sym_scalar()
            if not mergeable_scalar(a) or not mergeable_scalar(b):
                return a is b
            return E().prover.prove(nb.list(E().pc), s_eqb(lift(a), lift(b)), timeout=2.0)[0] == "proved"
        except Unsupported:
            return False

    def induct(self, spec):
        e, c = E(), spec.c
        serial0 = sym.SERIAL[0]
        spec.check(S("i", ZERO), "at the start")
        v0 = spec.values(S("i", ZERO))
        start = self.snap()
        cand = {}
        for i, v in nb.enumerate(start):
            if isinstance(v, (S, T)) or (mergeable_scalar(v) and not isinstance(v, bool)):
                cs = [nm for nm, x in v0.items() if self.soft(v, x)]
                if cs:
                    cand[i] = cs
        changed, muts = set(), {}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 8:
                raise Unsupported("annotated loop does not stabilise")
            mark = nb.len(c.obs)
            st = {"again": False}

            def step():
                try:
                    kp = var(e.fresh_name("!k"), "i")
                    k = S("i", kp)
                    e.assume(bge(kp, ZERO))
                    e.assume(blt(kp, self.n))
                    spec.assume(k)
                    if not e.prover.feasible(e.pc, TRUE):
                        raise PathEnd()
                    spec.install(k)
                    self.put(spec, k, cand, changed, muts)
                    pre = self.snap()
                    new = {}
                    e.mutated.append(new)
                    try:
                        try:
                            r = self.body(self.item(kp))
                        finally:
                            e.mutated.pop()
                    except (Unsupported, PathEnd, Budget):
                        raise
                    except Exception as ex:
                        if type(ex).__name__ in ("Missing", "Skip", "Failed") or isinstance(ex, TooBig):
                            raise
                        c.check("no exception leaves the loop (%s: %s)" % (type(ex).__name__, str(ex)[:60]), False)
                        raise PathEnd()
                    if r is not None:
                        raise Unsupported("early exit from an annotated loop")
                    post = self.snap()
                    for i, (a, b) in nb.enumerate(nb.zip(pre, post)):
                        if a is not b and i not in changed:
                            changed.add(i)
                            st["again"] = "frame"
                    for key, obj in new.items():
                        s = stamp_of(obj)
                        if key in muts or (s is not None and s > serial0) or spec.owns(key, obj):
                            continue
                        muts[key] = obj
                        st["again"] = "frame"
                    if st["again"] == "frame":
                        raise PathEnd()
                    k1 = S("i", padd(kp, ONE))
                    v1 = spec.values(k1)
                    for i, cs in cand.items():
                        if i not in changed:
                            continue
                        for nm in nb.list(cs):
                            if not self.soft(post[i], v1[nm]):
                                cs.remove(nm)
                                st["again"] = True
                    if st["again"]:
                        raise PathEnd()
                    spec.after(k)
                    spec.check(k1, "after an iteration")
                finally:
                    self.restore(start)
            e.explore(step)
            if not st["again"]:
                break
            del c.obs[mark:]
        n = S("i", self.n)
        spec.install(n)
        self.put(spec, n, cand, changed, muts)
        return None

    def put(self, spec, k, cand, changed, muts):
        vals = spec.values(k)
        for i in changed:
            if cand.get(i):
                self.setter(i, vals[cand[i][0]])
            else:
                self.setter(i, Poison("%s carried over by the loop at %s" % (self.vs[i][0], self.where)))
        for key, obj in muts.items():
            why = "%s changed by the loop at %s" % (key[-1] if key[0] in ("attr", "item") else "an array or list", self.where)
            if key[0] == "sto":
                def bad(idx, why=why):
                    raise Unsupported(why)
                obj.set(bad)
            elif key[0] == "lst":
                obj.forget(k)
            else:
                l = Loc(key, obj, self)
                l.set(Poison(why))


def annotate(spec):
    """hook for for_: the first symbolic loop met is the annotated one"""
    e = E()

    def h(n, it, body, vs, setter, where):
        if spec.busy:
            return NotImplemented
        spec.busy = True
        try:
            src = it[:] if isinstance(it, SList) else it
            return Inductive(n, lambda p: seq_item(src, p), body, vs, setter, where).induct(spec)
        finally:
            spec.busy = False
    e.hooks["loop"] = h
