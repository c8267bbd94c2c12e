"""Contracts: one Python function per contract, run in two modes.

 symbolic (SymC): inputs are symbolic (all sizes, all values), the repository's functions are executed from their current
   source by the verifier, every c.check/c.eq becomes an obligation under the path condition, discharged by normalisation / z3.
 concrete (ConC): the same contract text executed against the real package (CPython, torch) on given inputs: replay of
   counter-models and the labelled-bounded stand-in."""
import builtins as nb
import os, contextlib, functools, inspect, math, random, time, traceback, importlib, sys
from fractions import Fraction as Fr

REG = {}


class Contract:
    def __init__(self, pid, fn, name, trials, budget, mode, timeout, thorough, maxpaths):
        self.pid, self.fn, self.name, self.trials, self.budget, self.mode, self.timeout = pid, fn, name, trials, budget, mode, timeout
        self.doc = (fn.__doc__ or "").strip()
        self.thorough = thorough
        self.maxpaths = maxpaths


def contract(pid, name=None, trials=30, budget=100.0, mode="proof", timeout=8.0, thorough=8, maxpaths=600):
    """mode: 'proof' (symbolic + concrete) or 'bounded' (concrete only)"""
    def d(fn):
        REG.setdefault(pid, []).append(Contract(pid, fn, name or fn.__name__, trials, budget, mode, timeout, thorough, maxpaths))
        return fn
    return d


class Missing(Exception):
    """the function a contract speaks about does not exist (or has another signature) in this tree"""


class Skip(Exception):
    """concrete inputs outside the precondition"""


def abstracted(g):
    from .terms import atoms_rec
    return nb.any(a.op == "sum" or a.op == "app" and str(a.args[0]).startswith(("!mv", "!inv")) for a in atoms_rec(g))


class Failed(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, name)
        self.name, self.detail = name, detail


class Outcome:
    def __init__(self, exc=None, value=None):
        self.exc = type(exc).__name__ if exc is not None else None
        self.err = exc
        self.value = value

    @property
    def ok(self):
        return self.exc is None


def get_fn(mod, path):
    o = mod
    for p in path.split("."):
        if not hasattr(o, p):
            raise Missing("%s.%s" % (mod.__name__, path))
        o = getattr(o, p)
    return o


class Base:
    Missing = Missing

    def fn(self, mod, path):
        """function `path` of module `mod` (anchor); Missing when a refactoring moved it"""
        try:
            m = self.mod(mod)
        except ImportError as ex:
            raise Missing(str(ex))
        return get_fn(m, path)

    def outcome(self, f, *a, **k):
        try:
            return Outcome(None, self.call(f, *a, **k))
        except (Missing, Skip, Failed):
            raise
        except Exception as ex:
            ex._pv_expected = True
            return Outcome(ex)

    def call(self, f, *a, **k):
        try:
            sig = inspect.signature(f)
        except (TypeError, ValueError):
            sig = None
        if sig is not None:
            try:
                sig.bind(*a, **k)
            except TypeError as ex:
                raise Missing("%s: signature changed (%s)" % (getattr(f, "__qualname__", f), ex))
        return f(*a, **k)

    def raises(self, name, exc, f, *a, **k):
        o = self.outcome(f, *a, **k)
        self.check(name, o.exc == exc, "raised %s, expected %s" % (o.exc, exc))
        return o

    def matrix(self, name, n, *idx):
        """arbitrary complex n x n matrix, one per value of the indices"""
        r = self.array([n, n], lambda i, j: self.mkc(self.uf(name + "_re", *idx, i, j), self.uf(name + "_im", *idx, i, j)), kind="c")
        if self.symbolic:
            from . import ncpoly
            r.mx = ncpoly.base(name, *[self.sym.lift(self.scalar(i)).poly() for i in idx])
        return r

    def cut_loop(self, f, k, mode):
        """f with its (unbounded) loop cut: mode "base" leaves the state before the loop, "pre" an arbitrary state of the matrices the loop
        carries, "post" that arbitrary state after one more iteration, number k"""
        from .loops import is_symseq, seq_item
        from .tensor import T
        from .sym import Unsupported
        cuts = []

        def h(n, it, body, vs, setter, where):
            cuts.append(self.sym.S("i", n))
            if nb.len(cuts) > 1:
                raise Unsupported("more than one loop to cut")
            if mode == "base":
                return None
            for i, (nm, g) in nb.enumerate(vs):
                try:
                    v = g()
                except NameError:
                    continue
                if v is self.bi.UNBOUND:
                    continue
                if not isinstance(v, T) or nb.len(v.shp) != 2:
                    raise Unsupported("loop carries %s, which is not a matrix" % nm)
                setter(i, self.matrix("loop " + nm, self.sym.S("i", v.shp[0])))
            if mode == "pre":
                return None
            if body(seq_item(it, self.sym.lift(k).poly())) is not None:
                raise Unsupported("loop left early")
            return None

        def g(*a, **kw):
            old = self.e.hooks.get("loop")
            self.e.hooks["loop"] = h
            try:
                r = f(*a, **kw)
            finally:
                self.e.hooks["loop"] = old
            if nb.len(cuts) != 1:
                raise Unsupported("no loop over the layers found")
            from . import ncpoly
            if mode == "pre" and not ncpoly.generic(r):
                raise Unsupported("the loop carries more than the result")
            return r, cuts[0]
        return g

    def le(self, name, a, b, tol=1e-9):
        self.check(name, self._le(a, b, tol), (a, b))

    def lt(self, name, a, b, tol=1e-9):
        self.check(name, self._lt(a, b, tol), (a, b))

    def cfg(self, **kw):
        from dotmap import DotMap
        d = DotMap()
        for k, v in kw.items():
            d[k] = v
        return d

    @contextlib.contextmanager
    def stub(self, mod, **kw):
        """replace names of a repository module by contract stand-ins of the callees"""
        m = self.mod(mod) if isinstance(mod, str) else mod
        old = {}
        for k, v in kw.items():
            if not hasattr(m, k):
                raise Missing("%s.%s" % (getattr(m, "__name__", m), k))
            old[k] = getattr(m, k)
            setattr(m, k, named(old[k], v))
        try:
            yield
        finally:
            for k, v in old.items():
                setattr(m, k, v)


def named(real, stub):
    """the stand-in accepts the parameter names of the function it stands for"""
    try:
        rp = nb.list(inspect.signature(real).parameters)
        sp = inspect.signature(stub).parameters
    except (TypeError, ValueError):
        return stub
    if not inspect.isfunction(stub) or nb.any(x.kind in (x.VAR_KEYWORD, x.VAR_POSITIONAL) for x in sp.values()):
        return stub
    names = nb.list(sp)

    @functools.wraps(stub)
    def call(*a, **k):
        out = {}
        for q, x in k.items():
            if q not in sp and q in rp and rp.index(q) < nb.len(names):
                q = names[rp.index(q)]
            out[q] = x
        return stub(*a, **out)
    return call


# =============================================================================================== symbolic
class SymC(Base):
    symbolic = True

    def __init__(self, engine, loader, obs, tier="quick"):
        from . import sym, tensor, builtins_, terms, libs
        self.e, self.loader, self.obs, self.tier = engine, loader, obs, tier
        self.sym, self.tt, self.bi, self.tm, self.libs = sym, tensor, builtins_, terms, libs
        self.inputs = {}
        self.pi = sym.S("r", libs.PI_P)
        self.memo_mod = {}

    def mod(self, name):
        return self.loader.load(name)

    # ---- inputs
    def _bounds(self, x, lo, hi, gt, lt):
        tm = self.tm
        P = lambda v: self.sym.lift(v).poly()
        out = []
        if lo is not None:
            out.append(tm.bge(x, P(lo)))
        if hi is not None:
            out.append(tm.ble(x, P(hi)))
        if gt is not None:
            out.append(tm.bgt(x, P(gt)))
        if lt is not None:
            out.append(tm.blt(x, P(lt)))
        return out

    def int(self, name, lo=0, hi=None, cmax=5):
        v = self.tm.var(name, "i")
        self.inputs[name] = ("int", lo, hi)
        for b in self._bounds(v, lo, hi, None, None):
            self.e.assume(b)
        return self.sym.S("i", v)

    def real(self, name, lo=None, hi=None, gt=None, lt=None, near=None, cond=None):
        v = self.tm.var(name, "r")
        self.inputs[name] = ("real",)
        for b in self._bounds(v, lo, hi, gt, lt):
            self.e.assume(b)
        return self.sym.S("r", v)

    def cplx(self, name):
        self.inputs[name] = ("cplx",)
        return self.sym.S("c", (self.tm.var(name + ".re", "r"), self.tm.var(name + ".im", "r")))

    def bool(self, name):
        self.inputs[name] = ("bool",)
        return self.sym.S("b", self.tm.bvar(name))

    def choice(self, name, options):
        """one of finitely many Python values: every one is explored"""
        options = nb.list(options)
        v = self.tm.var(name, "i")
        self.inputs[name] = ("choice", len(options))
        self.e.assume(self.tm.bge(v, self.tm.ZERO))
        self.e.assume(self.tm.blt(v, self.tm.num(len(options))))
        for i in range(len(options) - 1):
            if self.e.decide(self.tm.beq(v, self.tm.num(i))):
                return options[i]
        self.e.assume(self.tm.beq(v, self.tm.num(len(options) - 1)))
        return options[-1]

    def _elem(self, name, kind, lo, hi, gt, lt, cond=None):
        from . import zsolve
        tm, S = self.tm, self.sym.S
        if kind == "c":
            def f(idx):
                return S("c", (tm.app(name + ".re", nb.list(idx), "r"), tm.app(name + ".im", nb.list(idx), "r")))
            return f
        sort = "i" if kind == "i" else "r"
        bs = (lo, hi, gt, lt)
        if any(b is not None for b in bs):
            zsolve.DOM[name] = lambda x: self._bounds(x, *bs)
        else:
            zsolve.DOM.pop(name, None)
        if kind == "b":
            def f(idx):
                return S("b", tm.bge(tm.app(name, nb.list(idx), "r"), tm.ZERO))
            return f

        def f(idx):
            return S(kind, tm.app(name, nb.list(idx), sort))
        return f

    def tensor(self, name, shape, kind="r", lib="torch", lo=None, hi=None, gt=None, lt=None, dtype=None, special=None):
        self.inputs[name] = ("tensor", kind, len(shape))
        f = self._elem(name, kind, lo, hi, gt, lt)
        dt = self.tt.DEFAULT[kind] if dtype is None else getattr(self.tt, dtype)
        return self.tt.T.of(f, nb.list(shape), dt, lib)

    def list(self, name, n, kind="r", lo=None, hi=None, gt=None, lt=None, wrap=None):
        """Python list of n symbolic scalars"""
        self.inputs[name] = ("list", kind)
        f = self._elem(name, kind, lo, hi, gt, lt)
        return self.seq(n, lambda i: (wrap or (lambda v: v))(f((self.sym.lift(i).poly(),))))

    def seq(self, n, item):
        """list of n values item(i) (0-based)"""
        r = self.bi.SList()
        c = self.sym.lift(n).const()
        if c is not None:
            return self.bi.SList([item(i) for i in range(int(c))])
        S = self.sym.S
        r.segs = [("s", self.sym.lift(n).poly(), lambda p: item(S("i", p)))]
        return r

    def fixed(self, items):
        return self.bi.SList(items)

    def array(self, shape, fn, kind="r", lib="torch"):
        S = self.sym.S
        lift = self.sym.lift
        return self.tt.T.of(lambda idx: self.tt.conv_kind(lift(self.scalar(fn(*[S("i", p) for p in idx]))), kind), nb.list(shape), self.tt.DEFAULT[kind], lib)

    def uf(self, name, *args, kind="r", lo=None, hi=None, gt=None, lt=None):
        """value of an unknown function (the same for equal arguments)"""
        self.inputs.setdefault(name, ("uf", kind, len(args)))
        return self._elem(name, kind, lo, hi, gt, lt)([self.sym.lift(self.scalar(a)).poly() for a in args])

    def number_as(self, x, lib="torch"):
        return self.tt.T.of(lambda i: self.sym.lift(x), [], self.tt.DEFAULT[self.sym.lift(x).kind], lib)

    # ---- logic
    def assume(self, b):
        b = self._b(b)
        self.e.assume(b)

    def _b(self, b):
        if isinstance(b, self.sym.S):
            return b.as_bool()
        if isinstance(b, nb.bool):
            return self.tm.mkbool(b)
        if isinstance(b, self.tm.B):
            return b
        if hasattr(b, "sym_tensor"):
            if not b.shp:
                return b.sym_scalar().as_bool()
        raise TypeError("condition expected, got %r" % (type(b),))

    def and_(self, *a):
        return self.sym.S("b", self.tm.band(*[self._b(x) for x in a]))

    def or_(self, *a):
        return self.sym.S("b", self.tm.bor(*[self._b(x) for x in a]))

    def not_(self, a):
        return self.sym.S("b", self.tm.bnot(self._b(a)))

    def implies(self, a, b):
        return self.sym.S("b", self.tm.bimp(self._b(a), self._b(b)))

    def iff(self, a, b):
        return self.sym.S("b", self.tm.biff(self._b(a), self._b(b)))

    def ite(self, c, a, b):
        return self.sym.s_ite(self._b(c), self.scalar(a), self.scalar(b))

    def _le(self, a, b, tol=0):
        a, b = self.sym.lift(self.scalar(a)), self.sym.lift(self.scalar(b))
        return self.sym.S("b", self.tm.ble(a.poly(), b.poly()))

    def _lt(self, a, b, tol=0):
        a, b = self.sym.lift(self.scalar(a)), self.sym.lift(self.scalar(b))
        return self.sym.S("b", self.tm.blt(a.poly(), b.poly()))

    def all(self, n, fn):
        """quantified condition (a term, no branching on i in fn)"""
        n = self.sym.lift(n).poly()
        k, v = self.bi.with_index(n, lambda k: self.sym.S("b", self._b(fn(self.sym.S("i", k)))))
        return self.sym.S("b", self.tm.forall(k, n, v.as_bool()))

    def any(self, n, fn):
        return self.not_(self.all(n, lambda i: self.not_(fn(i))))

    def assume_all(self, n, fn):
        self.e.assume(self.all(n, fn))

    def forall(self, dims, fn, name="i"):
        """obligations inside fn for arbitrary indices in range"""
        if not isinstance(dims, (nb.list, tuple)):
            dims = [dims]
        e, tm, S = self.e, self.tm, self.sym.S

        def go():
            idx = []
            for d in dims:
                k = tm.var(e.fresh_name("!" + name), "i")
                e.assume(tm.bge(k, tm.ZERO))
                e.assume(tm.blt(k, self.sym.lift(d).poly()))
                idx.append(S("i", k))
            if not e.prover.feasible(e.pc, tm.TRUE):
                raise self.sym.PathEnd()
            fn(*idx)
        e.explore(go)

    def sum(self, n, fn):
        n = self.sym.lift(n).poly()
        k, v = self.bi.with_index(n, lambda k: self.sym.lift(self.scalar(fn(self.sym.S("i", k)))))
        return self.bi.sum_S(k, n, v)

    def prod_range(self, *a):
        raise self.sym.Unsupported("prod")

    def min_over(self, n, fn):
        n = self.sym.lift(n).poly()
        k, v = self.bi.with_index(n, lambda k: self.sym.lift(self.scalar(fn(self.sym.S("i", k)))))
        return self.sym.S(v.kind, self.bi.ext(k, n, v.poly(), "argmin")[1])

    # ---- access
    def scalar(self, x):
        if hasattr(x, "sym_tensor"):
            return x.sym_scalar()
        return x

    def at(self, t, *idx):
        if hasattr(t, "sym_tensor"):
            if len(idx) != len(t.shp):
                raise Failed("rank", "expected rank %d, got %d" % (len(idx), len(t.shp)))
            return t.at(tuple(self.sym.lift(i).poly() for i in idx))
        x = t
        for i in idx:
            x = self.bi.seq_item(x, self.sym.lift(i).poly()) if not hasattr(x, "sym_tensor") else x[i]
        return self.scalar(x)

    def item(self, seq, i):
        return self.bi.seq_item(seq, self.sym.lift(i).poly())

    def len(self, x):
        return self.bi.b_len(x)

    def shape(self, t):
        if hasattr(t, "sym_tensor"):
            return tuple(t.shape)
        raise Failed("shape", "a tensor was expected, got %r" % type(t))

    def is_tensor(self, t):
        return hasattr(t, "sym_tensor")

    def snapshot(self, t):
        if hasattr(t, "sym_tensor"):
            return t.copy()
        if isinstance(t, self.bi.SList):
            r = self.bi.SList()
            r.segs = nb.list(self.bi.seq_segs(t))
            return r
        import copy
        return copy.deepcopy(t)

    def snap_dict(self, d):
        return dict(d)

    def has_segs(self, x):
        return isinstance(x, self.bi.SList)

    # ---- arithmetic helpers
    def q(self, s):
        return self.sym.S("r", self.tm.num(Fr(str(s))))

    def div(self, a, b):
        return self.sym.s_div_total(self.sym.lift(self.scalar(a)), self.sym.lift(self.scalar(b)))

    def pow(self, a, b):
        return self.sym.s_pow(self.sym.lift(self.scalar(a)), self.sym.lift(self.scalar(b)), True)

    def abs(self, x):
        return self.sym.s_abs(self.sym.lift(self.scalar(x)))

    def sqrt(self, x):
        return self.sym.s_sqrt(self.sym.lift(self.scalar(x)))

    def exp(self, x):
        return self.sym.s_exp(self.sym.lift(self.scalar(x)))

    def sin(self, x):
        return self.sym.S("r", self.sym.p_sin(self.sym.lift(self.scalar(x)).poly()))

    def cos(self, x):
        return self.sym.S("r", self.sym.p_cos(self.sym.lift(self.scalar(x)).poly()))

    def mkc(self, re, im):
        L = self.sym.lift
        return self.sym.S("c", (L(self.scalar(re)).poly(), L(self.scalar(im)).poly()))

    def re(self, x):
        return self.sym.S("r", self.sym.lift(self.scalar(x)).cplx()[0])

    def im(self, x):
        return self.sym.S("r", self.sym.lift(self.scalar(x)).cplx()[1])

    def conj(self, x):
        return self.sym.lift(self.scalar(x)).conjugate()

    def floor(self, x):
        return self.sym.S("i", self.sym.p_floor(self.sym.lift(self.scalar(x)).poly()))

    def trunc(self, x):
        return self.sym.S("i", self.sym.p_trunc(self.sym.lift(self.scalar(x)).poly()))

    def idiv(self, a, b):
        return self.sym.S("i", self.sym.p_idiv(self.sym.lift(a).poly(), self.sym.lift(b).poly()))

    def min(self, a, b):
        return self.sym.s_min(self.scalar(a), self.scalar(b))

    def max(self, a, b):
        return self.sym.s_max(self.scalar(a), self.scalar(b))

    def isint(self, x):
        return isinstance(x, nb.int) or (isinstance(x, self.sym.S) and x.kind == "i")

    # ---- obligations
    def record(self, name, status, how, dt, pc=None, goal=None):
        self.obs.append({"check": name, "status": status, "how": how, "time": round(dt, 3), "pc": pc, "goal": goal, "inputs": dict(self.inputs)})

    def check(self, name, cond, detail=None):
        g = self._b(cond)
        t = time.time()
        if time.time() > self.e.deadline:
            raise self.sym.Budget("time budget")
        st, how = self.e.prover.prove(nb.list(self.e.pc), g)
        model = None
        if st == "refuted":
            model, how = how, "counter-model"
            if abstracted(g):  # holds of an arbitrary function standing for a sum or a matrix-vector product: only a concrete case can confirm it
                st, how = "unknown", "counter-model of the abstraction, not confirmed"
        self.record(name, st, str(how), time.time() - t, nb.list(self.e.pc), g)
        if model is not None:
            self.obs[-1]["model"] = model

    def lemma(self, name, cond):
        """proved here, available to the obligations that follow"""
        self.check(name, cond)
        if self.obs[-1]["status"] == "proved":
            self.e.assume(self._b(cond))

    def from_only(self, facts, fn):
        """obligations of fn from the given facts alone, each of which must follow from the path condition"""
        fs = [self._b(f) for f in facts]
        ok = nb.all(self.e.prover.prove(nb.list(self.e.pc), f)[0] == "proved" for f in fs)
        old = nb.list(self.e.pc)
        if ok:
            self.e.pc[:] = fs
        try:
            fn()
        finally:
            self.e.pc[:] = old

    def eq(self, name, a, b, tol=None):
        a, b = self.scalar(a), self.scalar(b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return self.check(name, a == b, (a, b))
        a, b = self.sym.lift(a), self.sym.lift(b)
        if a.kind == "c" or b.kind == "c":
            x, y = a.cplx(), b.cplx()
            self.check(name + (".re"), self.sym.S("b", self.tm.beq(x[0], y[0])))
            self.check(name + (".im"), self.sym.S("b", self.tm.beq(x[1], y[1])))
            return
        self.check(name, self.sym.S("b", self.sym.s_eqb(a, b)))

    def eq_tensor(self, name, a, b, tol=None):
        """same shape and same elements"""
        sa, sb = self.shape(a), self.shape(b)
        self.check(name + ".rank", len(sa) == len(sb), (sa, sb))
        if len(sa) != len(sb):
            return
        for i, (x, y) in enumerate(zip(sa, sb)):
            self.eq(name + ".dim%d" % i, x, y)
        self.forall(nb.list(sb), lambda *i: self.eq(name, self.at(a, *i), self.at(b, *i)))

    def mat_eq(self, name, a, b, tol=None):
        """equality of matrices by the (non-commutative) matrix algebra, for all sizes and all invertible values"""
        from . import ncpoly
        t = time.time()
        if time.time() > self.e.deadline:
            raise self.sym.Budget("time budget")
        self.isshape(name + " (shape)", a, *self.shape(b))
        r = ncpoly.equal(a, b)
        self.record(name, "proved" if r else "unknown", "matrix normal form", time.time() - t)

    def isshape(self, name, t, *dims):
        sh = self.shape(t)
        self.check(name + ".rank", len(sh) == len(dims), "shape %s" % (sh,))
        if len(sh) == len(dims):
            for i, (x, y) in enumerate(zip(sh, dims)):
                self.eq("%s.dim%d" % (name, i), x, y)
        else:
            raise self.sym.PathEnd()

    def reachable(self):
        return True

    def annotate(self, spec):
        """the next loop of symbolic length is proved by induction with the invariant spec describes"""
        from . import loops
        spec.c, spec.busy = self, False
        loops.annotate(spec)

    def setattr(self, o, a, v):
        from .rt import PV
        PV.setattr(o, a, v)

    def setitem(self, o, k, v):
        from .rt import PV
        PV.setitem(o, k, v)

    def fill(self, t, fn):
        """overwrite the contents of an array in place"""
        t.assign(self.array(nb.list(t.shape), fn, kind=t.dt.kind, lib=t.lib))

    def resize(self, lst, n, item):
        """in place: lst becomes the list item(0), ..., item(n-1)"""
        lst._log()
        nb.list.__setitem__(lst, slice(None), [])
        S = self.sym.S
        c = self.sym.lift(n).const()
        if c is not None:
            lst.segs = None
            nb.list.extend(lst, [item(i) for i in range(int(c))])
        else:
            lst.segs = [("s", self.sym.lift(n).poly(), lambda p: item(S("i", p)))]

    def torch_(self):
        return self.libs.lib_module("torch")

    def is_(self, a, b):
        return a is b

    def inf(self):
        return self.sym.S("r", self.sym.special(float("inf")))

    def hook(self, name, f):
        self.e.hooks[name] = f


# =============================================================================================== concrete
BOOST = float(os.environ.get("PYVC_BOOST", "0.3"))


class ConC(Base):
    symbolic = False

    def __init__(self, rng, given=None, tier="quick"):
        import torch, numpy
        self.torch, self.np = torch, numpy
        self.rng, self.given, self.tier = rng, given or {}, tier
        self.used = {}
        self.nchecks = 0
        self.pi = math.pi
        # every few cases one size is larger than usual
        self.boost = 1 if (not given and rng.random() < BOOST) else 0

    def mod(self, name):
        return importlib.import_module(name)

    def _use(self, name, v):
        self.used[name] = v
        return v

    def int(self, name, lo=0, hi=None, cmax=5):
        if name in self.given:
            v = self.given[name]
            if v < lo or (hi is not None and v > hi) or v > nb.max(60, cmax):
                raise Skip(name)
            return self._use(name, nb.int(v))
        top = lo + cmax if hi is None else nb.min(hi, lo + cmax)
        if self.boost and hi is None and cmax > 1 and self.rng.random() < 0.3:
            top, self.boost = lo + 2 * cmax + 6, self.boost - 1
            return self._use(name, self.rng.randint(lo + cmax, top))
        return self._use(name, self.rng.randint(lo, top))

    def _draw(self, lo, hi, gt, lt, special=None):
        lo = None if lo is None else float(lo)
        hi = None if hi is None else float(hi)
        gt = None if gt is None else float(gt)
        lt = None if lt is None else float(lt)
        l = lo if lo is not None else gt
        h = hi if hi is not None else lt
        r = self.rng.random()
        if special and r < 0.3:
            return float(self.rng.choice(special))
        if r < 0.16:
            c = [x for x in (0.0, 1.0, -1.0, 2.0, 0.5, lo, hi) if x is not None and self._ok(x, lo, hi, gt, lt)]
            if c:
                return float(self.rng.choice(c))
        if l is None and h is None:
            l, h = -3.0, 3.0
        elif l is None:
            l = h - 4.0
        elif h is None:
            h = l + 4.0
        for _ in range(50):
            x = self.rng.uniform(l, h)
            if self._ok(x, lo, hi, gt, lt):
                return x
        return (l + h) / 2

    @staticmethod
    def _ok(x, lo, hi, gt, lt):
        return not ((lo is not None and x < lo) or (hi is not None and x > hi) or (gt is not None and x <= gt) or (lt is not None and x >= lt))

    def real(self, name, lo=None, hi=None, gt=None, lt=None, near=None, cond=None):
        if name in self.given:
            return self._use(name, float(self.given[name]))
        if near is not None and self.rng.random() < 0.7:
            a, b = near
            x = self.rng.uniform(float(a), float(b))
            if self._ok(x, lo, hi, gt, lt):
                return self._use(name, x)
        return self._use(name, self._draw(lo, hi, gt, lt))

    def cplx(self, name):
        if name in self.given:
            return self._use(name, complex(self.given[name]))
        return self._use(name, complex(self._draw(None, None, None, None), self._draw(None, None, None, None)))

    def bool(self, name):
        if name in self.given:
            return self._use(name, nb.bool(self.given[name]))
        return self._use(name, self.rng.random() < 0.5)

    def choice(self, name, options):
        options = nb.list(options)
        if name in self.given:
            i = nb.int(self.given[name])
            if not 0 <= i < len(options):
                raise Skip(name)
        else:
            i = self.rng.randrange(len(options))
        self.used[name] = i
        return options[i]

    def _elemv(self, name, kind, idx, lo, hi, gt, lt, special=None):
        g = self.given.get(name)
        if g is not None:
            v = g(idx) if callable(g) else g.get(",".join(map(str, idx)))
            if v is not None:
                v = nb.int(v) if kind == "i" else complex(v) if kind == "c" else v >= 0 if kind == "b" and not isinstance(v, nb.bool) else v if kind == "b" else float(v)
                self.used.setdefault(name, {})[",".join(map(str, idx))] = v
                return v
        if kind == "c":
            v = complex(self._draw(lo, hi, gt, lt), self._draw(None, None, None, None) if lo is None else self._draw(lo, hi, gt, lt))
        elif kind == "i":
            v = self.rng.randint(nb.int(lo) if lo is not None else -3, nb.int(hi) if hi is not None else 5)
        elif kind == "b":
            v = self.rng.random() < 0.5
        else:
            v = self._draw(lo, hi, gt, lt, special)
        self.used.setdefault(name, {})[",".join(map(str, idx))] = v
        return v

    def tensor(self, name, shape, kind="r", lib="torch", lo=None, hi=None, gt=None, lt=None, dtype=None, special=None):
        np = self.np
        dt = {"r": np.float64, "c": np.complex128, "i": np.int64, "b": nb.bool}[kind]
        a = np.zeros([nb.int(s) for s in shape], dtype=dt)
        for idx in np.ndindex(*a.shape):
            a[idx] = self._elemv(name, kind, idx, lo, hi, gt, lt, special)
        if lib == "numpy":
            return a if dtype is None else a.astype(getattr(np, dtype))
        t = self.torch.from_numpy(a)
        if dtype is not None:
            t = t.to(getattr(self.torch, dtype))
        return t

    def list(self, name, n, kind="r", lo=None, hi=None, gt=None, lt=None, wrap=None):
        w = wrap or (lambda v: v)
        return [w(self._elemv(name, kind, (i,), lo, hi, gt, lt)) for i in range(nb.int(n))]

    def seq(self, n, item):
        return [item(i) for i in range(nb.int(n))]

    def fixed(self, items):
        return nb.list(items)

    def array(self, shape, fn, kind="r", lib="torch"):
        np = self.np
        dt = {"r": np.float64, "c": np.complex128, "i": np.int64, "b": nb.bool}[kind]
        a = np.zeros([nb.int(s) for s in shape], dtype=dt)
        for idx in np.ndindex(*a.shape):
            a[idx] = self.scalar(fn(*idx))
        return a if lib == "numpy" else self.torch.from_numpy(a)

    def uf(self, name, *args, kind="r", lo=None, hi=None, gt=None, lt=None):
        key = ",".join("%.9g" % float(self.scalar(a)) if not isinstance(a, (nb.int, self.np.integer)) else str(nb.int(a)) for a in args)
        d = self.used.setdefault(name, {})
        if key not in d:
            r = random.Random("%s|%s|%s" % (name, key, self.rng_seed()))
            o, self.rng = self.rng, r
            try:
                d[key] = self._elemv(name, kind, (key,), lo, hi, gt, lt)
            finally:
                self.rng = o
        return d[key]

    def rng_seed(self):
        if not hasattr(self, "_ufseed"):
            self._ufseed = self.rng.random()
        return self._ufseed

    def number_as(self, x, lib="torch"):
        return self.torch.tensor(x, dtype=self.torch.complex128 if isinstance(x, complex) else self.torch.float64) if lib == "torch" else self.np.array(x)

    # ---- logic
    def assume(self, b):
        if not b:
            raise Skip("precondition")

    def and_(self, *a):
        return nb.all(nb.bool(x) for x in a)

    def or_(self, *a):
        return nb.any(nb.bool(x) for x in a)

    def not_(self, a):
        return not nb.bool(a)

    def implies(self, a, b):
        return (not nb.bool(a)) or nb.bool(b)

    def iff(self, a, b):
        return nb.bool(a) == nb.bool(b)

    def ite(self, c, a, b):
        return self.scalar(a) if c else self.scalar(b)

    def _le(self, a, b, tol=1e-9):
        a, b = self.scalar(a), self.scalar(b)
        return nb.bool(a <= b + tol * (1 + nb.abs(a) + nb.abs(b)))

    def _lt(self, a, b, tol=1e-9):
        return self._le(a, b, tol)

    def all(self, n, fn):
        return nb.all(nb.bool(fn(i)) for i in range(nb.int(n)))

    def any(self, n, fn):
        return nb.any(nb.bool(fn(i)) for i in range(nb.int(n)))

    def assume_all(self, n, fn):
        self.assume(self.all(n, fn))

    def forall(self, dims, fn, name="i"):
        if not isinstance(dims, (nb.list, tuple)):
            dims = [dims]
        for idx in self.np.ndindex(*[nb.max(0, nb.int(d)) for d in dims]):
            fn(*idx)

    def sum(self, n, fn):
        r = 0
        for i in range(nb.int(n)):
            r = r + self.scalar(fn(i))
        return r

    def min_over(self, n, fn):
        return nb.min(self.scalar(fn(i)) for i in range(nb.int(n)))

    # ---- access
    def scalar(self, x):
        if isinstance(x, self.torch.Tensor):
            return x.item()
        if isinstance(x, (self.np.generic, self.np.ndarray)):
            return x.item()
        return x

    def at(self, t, *idx):
        if isinstance(t, (self.torch.Tensor, self.np.ndarray)):
            if t.ndim != len(idx):
                raise Failed("rank", "expected rank %d, got shape %s" % (len(idx), tuple(t.shape)))
            return self.scalar(t[tuple(nb.int(i) for i in idx)])
        x = t
        for i in idx:
            x = x[nb.int(i)]
        return self.scalar(x)

    def item(self, seq, i):
        return seq[nb.int(i)]

    def len(self, x):
        return len(x)

    def shape(self, t):
        if isinstance(t, (self.torch.Tensor, self.np.ndarray)):
            return tuple(t.shape)
        raise Failed("shape", "a tensor was expected, got %r" % type(t))

    def is_tensor(self, t):
        return isinstance(t, (self.torch.Tensor, self.np.ndarray))

    def snapshot(self, t):
        if isinstance(t, self.torch.Tensor):
            return t.detach().clone()
        import copy
        return copy.deepcopy(t)

    def snap_dict(self, d):
        return dict(d)

    def has_segs(self, x):
        return isinstance(x, nb.list)

    # ---- arithmetic
    def q(self, s):
        return float(s)

    def div(self, a, b):
        try:
            return self.scalar(a) / self.scalar(b)
        except ZeroDivisionError:
            return float("nan")

    def pow(self, a, b):
        return self.scalar(a) ** self.scalar(b)

    def abs(self, x):
        return nb.abs(self.scalar(x))

    def sqrt(self, x):
        x = self.scalar(x)
        if isinstance(x, complex):
            import cmath
            return cmath.sqrt(x)
        return math.sqrt(x) if x >= 0 else float("nan")

    def exp(self, x):
        x = self.scalar(x)
        if isinstance(x, complex):
            import cmath
            return cmath.exp(x)
        return math.exp(x)

    def sin(self, x):
        return math.sin(self.scalar(x))

    def cos(self, x):
        return math.cos(self.scalar(x))

    def mkc(self, re, im):
        return complex(self.scalar(re), self.scalar(im))

    def re(self, x):
        return complex(self.scalar(x)).real

    def im(self, x):
        return complex(self.scalar(x)).imag

    def conj(self, x):
        return complex(self.scalar(x)).conjugate()

    def floor(self, x):
        return math.floor(self.scalar(x))

    def trunc(self, x):
        return nb.int(self.scalar(x))

    def idiv(self, a, b):
        return a // b

    def min(self, a, b):
        return nb.min(self.scalar(a), self.scalar(b))

    def max(self, a, b):
        return nb.max(self.scalar(a), self.scalar(b))

    def isint(self, x):
        return isinstance(x, nb.int)

    # ---- checks
    def check(self, name, cond, detail=None):
        self.nchecks += 1
        if isinstance(cond, (self.torch.Tensor, self.np.ndarray)):
            cond = nb.bool(cond.item())
        if not cond:
            raise Failed(name, repr(detail)[:400])

    def lemma(self, name, cond):
        """an intermediate fact of the proof; concretely subsumed by what follows"""

    def from_only(self, facts, fn):
        fn()

    def eq(self, name, a, b, tol=1e-6):
        tol = 1e-6 if tol is None else tol
        a, b = self.scalar(a), self.scalar(b)
        self.nchecks += 1
        if a is None or b is None or isinstance(a, (str, nb.list)) or isinstance(b, (str, nb.list)):
            if a != b:
                raise Failed(name, "%r != %r" % (a, b))
            return
        if a == b:
            return
        try:
            na, nb_ = (a != a), (b != b)
            d = nb.abs(a - b)
            if (na and nb_) or d <= tol * (1e-3 + nb.abs(a) + nb.abs(b)):
                return
        except TypeError:
            pass
        raise Failed(name, "%r != %r" % (a, b))

    def eq_tensor(self, name, a, b, tol=None):
        sa, sb = self.shape(a), self.shape(b)
        self.check(name + ".shape", sa == sb, (sa, sb))
        self.forall(nb.list(sb), lambda *i: self.eq(name, self.at(a, *i), self.at(b, *i), tol))

    def mat_eq(self, name, a, b, tol=1e-4):
        self.isshape(name + " (shape)", a, *b.shape)
        scale = 1 + max(float(a.abs().max()), float(b.abs().max()))
        d = float((a - b).abs().max())
        self.check(name, d <= tol * scale, "difference %g at scale %g" % (d, scale))

    def isshape(self, name, t, *dims):
        sh = self.shape(t)
        self.check(name + ".shape", nb.tuple(sh) == nb.tuple(nb.int(d) for d in dims), (sh, dims))

    def hook(self, name, f):
        pass

    def annotate(self, spec):
        spec.c = self

    def setattr(self, o, a, v):
        setattr(o, a, v)

    def setitem(self, o, k, v):
        o[k] = v

    def fill(self, t, fn):
        with self.torch.no_grad():
            for idx in self.np.ndindex(*t.shape):
                t[idx] = fn(*idx)

    def torch_(self):
        return self.torch
