"""Symbolic Python scalars, path exploration by re-execution, undo trail."""
import math
import time
from .terms import *
from . import terms as tm
from .zsolve import Prover


class Control(BaseException):
    """engine control flow; never caught by the analysed code"""


class Unsupported(Control):
    pass


class PathEnd(Control):
    """this path is infeasible or finished"""


class Budget(Control):
    pass


SERIAL = [0]


class Ctx:
    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.alts = []


class Engine:
    def __init__(self, timeout=8.0, max_paths=400, budget=120.0, cvc5=False):
        self.prover = Prover(timeout=timeout, cvc5=cvc5)
        self.pc = []
        self.ctxs = []
        self.trail = []
        self.logging = True
        self.names = {}
        self.max_paths = max_paths
        self.deadline = time.time() + budget
        self.used_lib = {}
        self.functions = {}
        self.assumptions = {}
        self.rec_mode = None
        self.paths = 0
        self.inst = []
        self.hooks = {}
        self.mutated = []  # stack of sets collecting mutated locations
        self.notes = {}
        self.loopvars = []
        self.serials = {}

    # ---- names
    def fresh(self, base, sort):
        n = self.fresh_name(base)
        if self.loopvars:
            return app(n, self.loopvars, sort)
        return var(n, sort)

    def fresh_name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return base if k == 0 else "%s!%d" % (base, k)

    def lib(self, name):
        self.used_lib[name] = self.used_lib.get(name, 0) + 1

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    # ---- path condition
    def assume(self, b):
        if isinstance(b, S):
            b = b.as_bool()
        if b is TRUE:
            return
        if b is FALSE:
            raise PathEnd("assumed false")
        self.pc.append(b)

    def decide(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b in self.pc:
            return True
        nb = bnot(b)
        if nb in self.pc:
            return False
        ctx = self.ctxs[-1]
        if ctx.pos < len(ctx.prefix):
            v, forced = ctx.prefix[ctx.pos]
            ctx.pos += 1
            ctx.taken.append((v, forced))
            if not forced:
                self.pc.append(b if v else nb)
            return v
        if time.time() > self.deadline:
            raise Budget("time budget of the symbolic execution exceeded")
        t = self.prover.feasible(self.pc, b)
        f = self.prover.feasible(self.pc, nb) if t else True
        ctx.pos += 1
        if t and f:
            ctx.alts.append(ctx.taken + [(False, False)])
            ctx.taken.append((True, False))
            self.pc.append(b)
            return True
        v = bool(t)
        ctx.taken.append((v, True))
        return v

    def loopvars_stack_push(self, k):
        self.loopvars = self.loopvars + [k]

    def loopvars_stack_pop(self):
        self.loopvars = self.loopvars[:-1]

    # ---- trail
    def log(self, undo):
        self.trail.append(undo)

    def undo_to(self, mark):
        while len(self.trail) > mark:
            self.trail.pop()()

    def touched(self, loc):
        for m in self.mutated:
            m[loc[0]] = loc[1]

    # ---- exploration
    def explore(self, fn, top=True):
        """run fn on every feasible path; yields (extra path condition, outcome) after each run, with the
        heap still in the path's final state; the caller's work on an outcome happens inside fn"""
        stack = [[]]
        outs = []
        while stack:
            prefix = stack.pop()
            ctx = Ctx(prefix)
            self.ctxs.append(ctx)
            mark, npc = len(self.trail), len(self.pc)
            names = dict(self.names)
            self.paths += 1
            if self.paths > self.max_paths:
                self.ctxs.pop()
                raise Budget("path budget exceeded")
            res = None
            try:
                try:
                    res = ("ret", fn())
                except PathEnd:
                    res = None
                extra = self.pc[npc:]
                if res is not None:
                    outs.append((extra, res))
            finally:
                self.ctxs.pop()
                self.undo_to(mark)
                del self.pc[npc:]
                self.names = names
            stack.extend(ctx.alts)
        return outs


CUR = [None]


def E():
    return CUR[0]


def is_num(x):
    return isinstance(x, (int, float, complex, Fr)) and not isinstance(x, bool)


def lift(x):
    """native number -> S"""
    if isinstance(x, S):
        return x
    if isinstance(x, bool):
        return S("b", mkbool(x))
    if isinstance(x, int):
        return S("i", num(x))
    if isinstance(x, (float, Fr)):
        if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
            return S("r", special(x))
        if x == math.pi:
            return S("r", var("#pi", "r"))
        return S("r", num(x))
    if isinstance(x, complex):
        return S("c", (num(x.real), num(x.imag)))
    if hasattr(x, "sym_scalar"):
        return x.sym_scalar()
    raise Unsupported("cannot lift %r" % (type(x),))


def special(x):
    if x == float("inf"):
        return var("+inf", "r")
    if x == float("-inf"):
        return var("-inf", "r")
    return var("nan", "r")


def Q(s):
    """exact rational value of a float literal (the double nearest to pi stands for pi)"""
    if s.startswith("3.14159265358979"):
        if float(s) == math.pi:
            return S("r", var("#pi", "r"))
    return S("r", num(Fr(s)))


def QJ(s):
    return S("c", (ZERO, num(Fr(s))))


class S:
    """symbolic scalar; kind b, i, r or c"""
    __slots__ = ("kind", "v")
    __array_priority__ = 1000

    def __init__(self, kind, v):
        self.kind = kind
        self.v = v

    # ---- conversions
    def as_bool(self):
        if self.kind == "b":
            return self.v
        if self.kind == "c":
            return bnot(band(beq(self.v[0], ZERO), beq(self.v[1], ZERO)))
        return bnot(beq(self.v, ZERO))

    def poly(self):
        if self.kind == "b":
            return pite(self.v, ONE, ZERO)
        if self.kind == "c":
            raise TypeError("complex where a real is needed")
        return self.v

    def cplx(self):
        if self.kind == "c":
            return self.v
        return (self.poly(), ZERO)

    def const(self):
        if self.kind == "b":
            return True if self.v is TRUE else False if self.v is FALSE else None
        if self.kind == "c":
            a, b = self.v[0].const(), self.v[1].const()
            return None if a is None or b is None else complex(a, b)
        return self.v.const()

    def __bool__(self):
        return E().decide(self.as_bool())

    def __index__(self):
        c = self.const()
        if c is not None and self.kind in "ib":
            return int(c)
        if self.kind in "rc":
            raise TypeError("'float' object cannot be interpreted as an integer")
        raise Unsupported("symbolic integer used where a native one is required")

    def __float__(self):
        c = self.const()
        if c is not None and self.kind != "c":
            return float(c)
        raise Unsupported("symbolic number used where a native float is required")

    def __int__(self):
        c = self.const()
        if c is not None and self.kind != "c":
            return int(c)
        raise Unsupported("symbolic number used where a native int is required")

    def __complex__(self):
        c = self.const()
        if c is not None:
            return complex(c)
        raise Unsupported("symbolic number used where a native complex is required")

    def __hash__(self):
        c = self.const()
        return hash(c) if c is not None else hash((self.kind, self.v))

    def __repr__(self):
        return "S[%s]%r" % (self.kind, self.v)

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    # ---- arithmetic
    def _bin(self, o, f):
        if not isinstance(o, (S, int, float, complex, Fr)):
            return NotImplemented
        return f(self, lift(o))

    def _rbin(self, o, f):
        if not isinstance(o, (S, int, float, complex, Fr)):
            return NotImplemented
        return f(lift(o), self)

    def __add__(self, o):
        return self._bin(o, s_add)

    def __radd__(self, o):
        return self._rbin(o, s_add)

    def __sub__(self, o):
        return self._bin(o, s_sub)

    def __rsub__(self, o):
        return self._rbin(o, s_sub)

    def __mul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return NotImplemented
        return self._bin(o, s_mul)

    def __rmul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return NotImplemented
        return self._rbin(o, s_mul)

    def __truediv__(self, o):
        return self._bin(o, s_div)

    def __rtruediv__(self, o):
        return self._rbin(o, s_div)

    def __floordiv__(self, o):
        return self._bin(o, s_floordiv)

    def __rfloordiv__(self, o):
        return self._rbin(o, s_floordiv)

    def __mod__(self, o):
        return self._bin(o, s_mod)

    def __rmod__(self, o):
        return self._rbin(o, s_mod)

    def __pow__(self, o):
        return self._bin(o, s_pow)

    def __rpow__(self, o):
        return self._rbin(o, s_pow)

    def __neg__(self):
        if self.kind == "c":
            return S("c", (pneg(self.v[0]), pneg(self.v[1])))
        return S("i" if self.kind == "b" else self.kind, pneg(self.poly()))

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __invert__(self):
        if self.kind == "b":
            return S("b", bnot(self.v))
        raise Unsupported("~ on numbers")

    def __and__(self, o):
        return S("b", band(self.as_bool(), lift(o).as_bool()))

    __rand__ = __and__

    def __or__(self, o):
        return S("b", bor(self.as_bool(), lift(o).as_bool()))

    __ror__ = __or__

    def _cmp(self, o, f):
        if not isinstance(o, (S, int, float, complex, Fr)):
            return NotImplemented
        return S("b", f(self, lift(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: blt(a.poly(), b.poly()))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: ble(a.poly(), b.poly()))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: blt(b.poly(), a.poly()))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: ble(b.poly(), a.poly()))

    def __eq__(self, o):
        if not isinstance(o, (S, int, float, complex, Fr)):
            if hasattr(o, "sym_tensor"):
                return NotImplemented
            return False
        return S("b", s_eqb(self, lift(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, S):
            return S("b", bnot(r.v))
        return not r

    # ---- scalar API of numpy / torch scalars
    def item(self):
        return self

    @property
    def real(self):
        return S("r", self.v[0]) if self.kind == "c" else self

    @property
    def imag(self):
        return S("r", self.v[1]) if self.kind == "c" else S(self.kind if self.kind != "b" else "i", ZERO)

    def conjugate(self):
        return S("c", (self.v[0], pneg(self.v[1]))) if self.kind == "c" else self

    conj = conjugate

    def is_integer(self):
        return S("b", beq(self.poly(), p_floor(self.poly())))

    @property
    def ndim(self):
        raise AttributeError("ndim")


def jk(a, b):
    """join of kinds"""
    o = "birc"
    return o[max(o.index(a), o.index(b))]


def _nk(a, b):
    k = jk(a, b)
    return "i" if k == "b" else k


def s_add(a, b):
    k = _nk(a.kind, b.kind)
    if k == "c":
        x, y = a.cplx(), b.cplx()
        return S("c", (padd(x[0], y[0]), padd(x[1], y[1])))
    return S(k, padd(a.poly(), b.poly()))


def s_sub(a, b):
    return s_add(a, -b)


def s_mul(a, b):
    k = _nk(a.kind, b.kind)
    if k == "c":
        (x, y), (u, w) = a.cplx(), b.cplx()
        return S("c", (psub(pmul(x, u), pmul(y, w)), padd(pmul(x, w), pmul(y, u))))
    return S(k, pmul(a.poly(), b.poly()))


def c_div(a, b):
    (x, y), (u, w) = a.cplx(), b.cplx()
    if not w.t:
        i = pinv(u)
        return S("c", (pmul(x, i), pmul(y, i)))
    d = pinv(padd(pmul(u, u), pmul(w, w)))
    re = pmul(padd(pmul(x, u), pmul(y, w)), d)
    im = pmul(psub(pmul(y, u), pmul(x, w)), d)
    return S("c", (re, im))


def s_div_total(a, b):
    if a.kind == "c" or b.kind == "c":
        return c_div(a, b)
    return S("r", pdiv(a.poly(), b.poly()))


def s_div(a, b):
    z = bnot(b.as_bool())
    if E().decide(z):
        raise ZeroDivisionError("division by zero")
    return s_div_total(a, b)


def p_floor(p):
    c = p.const()
    if c is not None:
        return num(c.__floor__())
    if p.is_int:
        return p
    # integer part can be pulled out
    t = {m: k for m, k in p.t.items() if type(k) is int and all(a.sort == "i" for a, _ in m)}
    rest = Poly({m: k for m, k in p.t.items() if m not in t})
    return padd(Poly(t), of_atom(Atom("floor", (rest,), "i")))


REBUILD["floor"] = lambda p: p_floor(p)


def p_trunc(p):
    f = p_floor(p)
    if f is p:
        return p
    c = p.const()
    if c is not None:
        return num(int(c))
    return pite(bge(p, ZERO), f, pneg(p_floor(pneg(p))))


RANGES = []  # range facts of the indices under evaluation
PCDEP = [0]  # counts simplifications that used the path condition (their results are cached only for extensions of it)


_nest = [0]


def entails_here(g, timeout=0.5):
    e = E()
    if e is None or _nest[0] >= 2:
        return False
    _nest[0] += 1
    try:
        if e.prover.entails(e.pc + RANGES, g, timeout):
            PCDEP[0] += 1
            return True
        return False
    finally:
        _nest[0] -= 1


class ranged:
    """facts 0 <= v < n in force while an element is evaluated"""

    def __init__(self, vn):
        self.vn = vn

    def __enter__(self):
        self.m = len(RANGES)
        for v, n in self.vn:
            RANGES.extend([bge(v, ZERO), blt(v, n)])

    def __exit__(self, *a):
        del RANGES[self.m:]


class Memo:
    """cache of element values; entries simplified under a path condition are reused only where that condition holds"""
    __slots__ = ("d",)

    def __init__(self):
        self.d = {}

    def get(self, idx, fn):
        r = self.d.get(idx)
        if r is not None:
            v, dep = r
            if dep is None:
                return v
            e = E()
            pc = e.pc if e is not None else []
            dep, dr = dep
            if len(pc) >= len(dep) and len(RANGES) >= len(dr) and all(x is y for x, y in zip(dep, pc)) and all(x is y for x, y in zip(dr, RANGES)):
                PCDEP[0] += 1
                return v
        m = PCDEP[0]
        v = fn(idx)
        if PCDEP[0] == m:
            self.d[idx] = (v, None)
        else:
            self.d[idx] = (v, (tuple(E().pc), tuple(RANGES)))
        return v


def p_idiv(p, q):
    a, b = p.const(), q.const()
    if a is not None and b is not None:
        return num(a // b)
    if b == 1:
        return p
    # exact polynomial division
    d, r = mono_divmod(p, q)
    if d is not None and not r.t:
        return d
    if d is not None and d.t and r.t is not None:
        return padd(d, p_idiv0(r, q))
    return p_idiv0(p, q)


def p_idiv0(p, q):
    if p.const() is not None and q.const() is not None:
        return num(p.const() // q.const())
    if p.fv and not p.lvl and not q.lvl and entails_here(band(bge(p, ZERO), blt(p, q))):
        return ZERO
    if p.const() is not None and p.const() < 0 and not q.lvl and entails_here(bge(q, num(-p.const()))):
        return num(-1)
    return of_atom(Atom("idiv", (p, q), "i"))


def p_mod(p, q):
    a, b = p.const(), q.const()
    if a is not None and b is not None:
        return num(a % b)
    if b == 1:
        return ZERO
    d, r = mono_divmod(p, q)
    if d is not None and d.t:
        p = r
        if not p.t:
            return ZERO
    if p.fv and not p.lvl and not q.lvl and entails_here(band(bge(p, ZERO), blt(p, q))):
        return p
    if a is not None and a < 0 and not q.lvl and entails_here(bge(q, num(-a))):
        return padd(p, q)
    return of_atom(Atom("mod", (p, q), "i"))


REBUILD["idiv"] = lambda p, q: p_idiv(p, q)
REBUILD["mod"] = lambda p, q: p_mod(p, q)


def mono_divmod(p, q):
    """p = d*q + r for a monomial q (termwise); (None, None) if q is not a monomial"""
    if len(q.t) != 1:
        return None, None
    (mq, cq), = q.t.items()
    d, r = {}, {}
    for m, c in p.t.items():
        dm = dict(m)
        ok = type(cq) is int and type(c) is int and c % cq == 0
        for a, e in mq:
            if dm.get(a, 0) < e:
                ok = False
            else:
                dm[a] = dm[a] - e
        if ok:
            k = tuple(sorted(((a, e) for a, e in dm.items() if e), key=lambda x: x[0].aid))
            d[k] = c // cq
        else:
            r[m] = c
    return Poly(d), Poly(r)


def s_floordiv(a, b):
    if E().decide(bnot(b.as_bool())):
        raise ZeroDivisionError("integer division or modulo by zero")
    if a.kind in "ib" and b.kind in "ib":
        q = b.poly()
        if E().decide(bgt(q, ZERO)):
            return S("i", p_idiv(a.poly(), q))
        return S("i", p_idiv(pneg(a.poly()), pneg(q)))
    return S("r", p_floor(pdiv(a.poly(), b.poly())))


def s_mod(a, b):
    if E().decide(bnot(b.as_bool())):
        raise ZeroDivisionError("integer division or modulo by zero")
    if a.kind in "ib" and b.kind in "ib":
        q = b.poly()
        if E().decide(bgt(q, ZERO)):
            return S("i", p_mod(a.poly(), q))
        return S("i", pneg(p_mod(pneg(a.poly()), pneg(q))))
    q = b.poly()
    return S("r", psub(a.poly(), pmul(q, p_floor(pdiv(a.poly(), q)))))


def p_sqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        c = Fr(c)
        from math import isqrt
        a, b = isqrt(c.numerator), isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return num(Fr(a, b))
    # sqrt(k^2 * x) = k sqrt(x)
    if p.t:
        k, s = content(p)
        from math import isqrt
        a, b = isqrt(k.numerator), isqrt(k.denominator)
        if k != 1 and a * a == k.numerator and b * b == k.denominator:
            return pscale(of_atom(Atom("sqrt", (pscale(p, 1 / k),), "r")), Fr(a, b))
    return of_atom(Atom("sqrt", (p,), "r"))


REBUILD["sqrt"] = lambda p: p_sqrt(p)


def mfun(op):
    def f(p):
        c = p.const()
        if c is not None:
            if c == 0 and op in ("sin", "tanh"):
                return ZERO
            if c == 0 and op in ("cos", "exp"):
                return ONE
            if c == 1 and op in ("log10", "log"):
                return ZERO
            if op == "log10" and c > 0:
                from math import log10
                l = round(log10(c))
                if Fr(10) ** l == c:
                    return num(l)
        if op in ("sin", "cos") and p.t:
            _, s = content(p)
            if s < 0:
                q = of_atom(Atom(op, (pneg(p),), "r"))
                return pneg(q) if op == "sin" else q
        if op == "log10":
            a = p.single_atom()
            if a is not None and a.op == "pow" and a.args[0].const() == 10:
                return a.args[1]
        return of_atom(Atom(op, (p,), "r"))
    REBUILD[op] = f
    return f


p_sin, p_cos, p_exp, p_log10, p_log, p_sigmoid, p_tanh = map(mfun, ("sin", "cos", "exp", "log10", "log", "sigmoid", "tanh"))


def p_pow(p, e):
    c = e.const()
    if c is not None:
        if c == Fr(1, 2):
            return p_sqrt(p)
        if c == Fr(-1, 2):
            return pinv(p_sqrt(p))
        if type(c) is int and 0 <= c <= 12:
            return ppow(p, c)
        if type(c) is int and -12 <= c < 0:
            return pinv(ppow(p, -c))
    if p.const() == 1:
        return ONE
    if p.const() is not None and c is not None and type(c) is int:
        return num(Fr(p.const()) ** c)
    if p.const() == 10:
        a = e.single_atom()
        if a is not None and a.op == "log10" and entails_here(bgt(a.args[0], ZERO), 1.0):
            return a.args[0]
    return of_atom(Atom("pow", (p, e), "r"))


REBUILD["pow"] = lambda p, e: p_pow(p, e)


def s_pow(a, b, total=False):
    if b.kind in "ib" or (b.kind == "r" and b.const() is not None and Fr(b.const()).denominator == 1):
        c = b.const()
        if c is not None:
            c = int(c)
            if a.kind == "c":
                r = S("c", (ONE, ZERO))
                for _ in range(abs(c)):
                    r = s_mul(r, a)
                return r if c >= 0 else c_div(S("c", (ONE, ZERO)), r)
            if c < 0 and not total:
                if E().decide(beq(a.poly(), ZERO)):
                    raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            k = "i" if (a.kind in "ib" and b.kind in "ib" and c >= 0) else "r"
            return S(k, p_pow(a.poly(), num(c)))
    if a.kind == "c" or b.kind == "c":
        if a.kind == "c" and b.const() == Fr(1, 2):
            return s_sqrt(a)
        raise Unsupported("complex power")
    if not total and b.const() is not None and b.const() < 0 and E().decide(beq(a.poly(), ZERO)):
        raise ZeroDivisionError("0.0 cannot be raised to a negative power")
    return S("r", p_pow(a.poly(), b.poly()))


def p_abs(p):
    c = p.const()
    if c is not None:
        return num(abs(c))
    if p.single_atom() is not None and p.single_atom().op in ("sqrt", "exp", "sigmoid"):
        return p
    _, s = content(p)
    if s < 0:
        p = pneg(p)
    return pite(bge(p, ZERO), p, pneg(p))


def s_abs(a):
    if a.kind == "c":
        x, y = a.v
        if not y.t:
            return S("r", p_abs(x))
        return S("r", p_sqrt(padd(pmul(x, x), pmul(y, y))))
    return S(a.kind if a.kind != "b" else "i", p_abs(a.poly()))


def s_eqb(a, b):
    if a.kind == "b" and b.kind == "b":
        return biff(a.v, b.v)
    if a.kind == "c" or b.kind == "c":
        x, y = a.cplx(), b.cplx()
        return band(beq(x[0], y[0]), beq(x[1], y[1]))
    return beq(a.poly(), b.poly())


def s_ite(c, a, b):
    if isinstance(c, S):
        c = c.as_bool()
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a, b = lift(a), lift(b)
    k = jk(a.kind, b.kind)
    if k == "b":
        return S("b", bite(c, a.v, b.v))
    if k == "c":
        x, y = a.cplx(), b.cplx()
        return S("c", (pite(c, x[0], y[0]), pite(c, x[1], y[1])))
    return S(k, pite(c, a.poly(), b.poly()))


def s_sqrt(a):
    if a.kind == "c":
        x, y = a.v
        if not y.t:
            c = x.const()
            if c is not None:
                return S("c", (p_sqrt(x), ZERO)) if c >= 0 else S("c", (ZERO, p_sqrt(pneg(x))))
        return S("c", (of_atom(Atom("csqrt_re", (x, y), "r")), of_atom(Atom("csqrt_im", (x, y), "r"))))
    return S("r", p_sqrt(a.poly()))


def s_exp(a):
    if a.kind == "c":
        x, y = a.v
        e = p_exp(x)
        return S("c", (pmul(e, p_cos(y)), pmul(e, p_sin(y))))
    return S("r", p_exp(a.poly()))


def s_sign(a):
    p = a.poly()
    return S("r" if a.kind == "r" else "i", pite(bgt(p, ZERO), ONE, pite(blt(p, ZERO), num(-1), ZERO)))


def s_min(a, b):
    a, b = lift(a), lift(b)
    return s_ite(ble(a.poly(), b.poly()), a, b)


def s_max(a, b):
    a, b = lift(a), lift(b)
    return s_ite(bge(a.poly(), b.poly()), a, b)


def to_native_int(s):
    """S int -> native int when constant"""
    if isinstance(s, S):
        c = s.const()
        if c is not None and s.kind == "i":
            return int(c)
    return s


def dimS(p):
    c = p.const()
    return int(c) if c is not None else S("i", p)


def dimP(x):
    if isinstance(x, S):
        return x.poly()
    if isinstance(x, Poly):
        return x
    if hasattr(x, "sym_scalar"):
        v = x.sym_scalar()
        if v.kind != "i":
            raise TypeError("only integer tensors of a single element can be converted to an index")
        return v.poly()
    if isinstance(x, bool) or not hasattr(x, "__index__"):
        raise TypeError("dimension must be an integer, got %r" % (type(x),))
    return num(int(x))
