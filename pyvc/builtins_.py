"""Python builtins over symbolic values.  Concrete arguments fall through to CPython's own builtins."""
import builtins as nb
import numbers
from .sym import *
from . import sym
from .terms import *


class PyType:
    """stand-in for a builtin type object (callable, usable with isinstance / type comparison)"""

    def __init__(self, name, check, ctor, kind=None):
        self.__name__ = self.__qualname__ = name
        self.check, self.ctor, self.kind = check, ctor, kind

    def __call__(self, *a, **k):
        return self.ctor(*a, **k)

    def __repr__(self):
        return "<class '%s'>" % self.__name__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if self.__name__ == "float" and n == "fromhex":
            raise Unsupported("float.fromhex")
        raise AttributeError("type object '%s' has no attribute '%s'" % (self.__name__, n))

    def __or__(self, o):
        return (self, o)


UNBOUND = type("Unbound", (), {"__repr__": lambda s: "<unbound>"})()


class PoisonUse(Unsupported):
    def __init__(self, why, loc=None):
        Unsupported.__init__(self, "use of " + why)
        self.loc = loc


class Poison:
    """a value the summary of a loop does not describe; any use of it is outside the verifier's reach"""
    def __init__(self, why, loc=None):
        object.__setattr__(self, "_why", why)
        object.__setattr__(self, "_loc", loc)

    def _bad(self, *a, **k):
        raise PoisonUse(object.__getattribute__(self, "_why"), object.__getattribute__(self, "_loc"))

    def __getattribute__(self, n):
        if n in ("__class__",):
            return Poison
        raise PoisonUse(object.__getattribute__(self, "_why"), object.__getattribute__(self, "_loc"))


for _n in ("add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow neg pos abs invert and or "
           "rand ror lt le gt ge eq ne bool len iter getitem setitem call contains index int float hash repr str format "
           "matmul rmatmul iadd isub imul itruediv setattr delitem").split():
    setattr(Poison, "__%s__" % _n, Poison._bad)


# ---------------------------------------------------------------- lists with symbolic segments
from .sym import SERIAL


class SList(nb.list):
    """list whose mutations are logged; segs is None (plain) or [('c', [..]) | ('s', n Poly, fn(Poly)->value)]"""

    def __init__(self, it=()):
        nb.list.__init__(self, it)
        self.segs = None
        self.ro = None
        self.wr = ()
        SERIAL[0] += 1
        self.serial = SERIAL[0]

    # -- bookkeeping
    def _log(self):
        e = E()
        old, segs = nb.list(nb.list.__iter__(self)), self.segs

        def undo(self=self, old=old, segs=segs):
            nb.list.__setitem__(self, slice(None), old)
            self.segs = segs
        if e is not None:
            e.log(undo)
            e.touched((("lst", id(self)), self))

    def raw(self):
        return nb.list(nb.list.__iter__(self))

    def forget(self, k=None):
        """contents and length unknown from here on"""
        self._log()
        old = self.ro
        E().log(lambda: setattr(self, "ro", old))
        nb.list.__setitem__(self, slice(None), [])
        self.segs = None
        self.ro = True

    def _plain(self, what):
        if self.ro is not None:
            raise Unsupported("%s of a list that the loop appends to" % what)
        if self.segs is not None:
            raise Unsupported("%s of a list of symbolic length" % what)

    def append(self, v):
        self._log()
        if self.segs is not None:
            self.segs = self.segs + [("c", [v])]
        else:
            nb.list.append(self, v)

    def extend(self, o):
        o = seq_segs(o)
        self._log()
        if self.segs is None and len(o) <= 1 and all(s[0] == "c" for s in o):
            for s in o:
                nb.list.extend(self, s[1])
        else:
            cur = self.segs if self.segs is not None else ([("c", self.raw())] if nb.len(self.raw()) else [])
            nb.list.__setitem__(self, slice(None), [])
            self.segs = cur + o

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if not isinstance(o, nb.list):
            return NotImplemented
        r = SList()
        r.segs = None
        if self.segs is None and getattr(o, "segs", None) is None and self.ro is None:
            return SList(self.raw() + nb.list(nb.list.__iter__(o)))
        r.segs = seq_segs(self) + seq_segs(o)
        return r

    def __radd__(self, o):
        return SList(o).__add__(self)

    def __mul__(self, k):
        c = lift(k).const() if not isinstance(k, int) else k
        if c is None:
            # [x] * n
            self._plain("repetition")
            if nb.len(self.raw()) == 1:
                x = self.raw()[0]
                n = dimP(k)
                r = SList()
                if E().decide(ble(n, ZERO)):
                    return r
                r.segs = [("s", n, lambda j: x)]
                return r
            raise Unsupported("list repetition by a symbolic count")
        self._plain("repetition")
        return SList(self.raw() * int(c))

    __rmul__ = __mul__

    def insert(self, i, v):
        self._plain("insert")
        self._log()
        nb.list.insert(self, i, v)

    def pop(self, i=-1):
        self._plain("pop")
        self._log()
        return nb.list.pop(self, i)

    def remove(self, v):
        self._plain("remove")
        for j, x in enumerate(self.raw()):
            if x is v or truth(x == v):
                self._log()
                nb.list.pop(self, j)
                return
        raise ValueError("list.remove(x): x not in list")

    def clear(self):
        self._log()
        nb.list.clear(self)
        self.segs = None

    def sort(self, *a, **k):
        self._plain("sort")
        self._log()
        r = b_sorted(self, *a, **k)
        nb.list.__setitem__(self, slice(None), r)

    def reverse(self):
        self._plain("reverse")
        self._log()
        nb.list.reverse(self)

    def copy(self):
        return self[:]

    def index(self, v, *a):
        self._plain("index")
        for j, x in enumerate(self.raw()):
            if x is v or truth(x == v):
                return j
        raise ValueError("not in list")

    def count(self, v):
        self._plain("count")
        return nb.sum(1 for x in self.raw() if truth(x == v))

    def __contains__(self, v):
        self._plain("membership test")
        return any(x is v or truth(x == v) for x in self.raw())

    # -- reading
    def sym_len(self):
        if self.ro is not None:
            if self.ro is True:
                raise Unsupported("length of a list the loop summary does not describe")
            return self.ro + nb.len(self.raw())
        if self.segs is None:
            return nb.len(self.raw())
        p = ZERO
        for s in self.segs:
            p = padd(p, num(nb.len(s[1])) if s[0] == "c" else s[1])
        return dimS(p)

    def __len__(self):
        n = self.sym_len()
        if isinstance(n, S):
            raise Unsupported("native len() of a list of symbolic length")
        return n

    def __bool__(self):
        n = self.sym_len()
        return truth(n > 0) if isinstance(n, S) else n > 0

    def sym_item(self, p):
        if self.ro is not None:
            raise Unsupported("reading a list that the loop appends to")
        if self.segs is None:
            c = p.const()
            if c is not None:
                return nb.list.__getitem__(self, int(c))
            e = E()
            r = self.raw()
            if r and nb.all(isinstance(x, (S, int, float, Fr)) and not isinstance(x, bool) for x in r):
                out = lift(r[-1])
                for j in reversed(nb.range(nb.len(r) - 1)):
                    out = s_ite(beq(p, num(j)), r[j], out)
                return out
            for j in nb.range(nb.len(r)):
                if j == nb.len(r) - 1 or e.decide(beq(p, num(j))):
                    return r[j]
            raise IndexError("list index out of range")
        e = E()
        off = ZERO
        for q, s in enumerate(self.segs):
            n = num(nb.len(s[1])) if s[0] == "c" else s[1]
            d = psub(p, off)
            if q == nb.len(self.segs) - 1 or e.decide(blt(d, n)):
                if s[0] == "s":
                    return s[2](d)
                return SList(s[1]).sym_item(d)
            off = padd(off, n)
        raise IndexError("list index out of range")

    def __getitem__(self, k):
        if isinstance(k, slice):
            if self.segs is None and self.ro is None and all(x is None or lift(x).const() is not None for x in (k.start, k.stop, k.step)):
                k = slice(*[None if x is None else int(lift(x).const()) for x in (k.start, k.stop, k.step)])
                return SList(nb.list.__getitem__(self, k))
            if self.ro is not None:
                raise Unsupported("slicing a list that the loop appends to")
            from .tensor import slice_bounds
            a, n, st = slice_bounds(k, dimP(self.sym_len()))
            r = SList()
            if n.const() == 0:
                return r
            me = self
            snap = SList()
            nb.list.extend(snap, self.raw())
            snap.segs = self.segs
            r.segs = [("s", n, lambda j: snap.sym_item(padd(a, pscale(j, st))))]
            return r
        if hasattr(k, "sym_scalar"):
            k = k.sym_scalar()
        if isinstance(k, S):
            if k.kind not in "ib":
                raise TypeError("list indices must be integers or slices, not float")
            c = k.const()
            if c is not None:
                k = int(c)
        if self.segs is None and self.ro is None and not isinstance(k, S):
            return nb.list.__getitem__(self, k)
        from .tensor import norm_index
        if self.ro is not None:
            raise Unsupported("reading a list that the loop appends to")
        return self.sym_item(norm_index(k, dimP(self.sym_len())))

    def __setitem__(self, k, v):
        if hasattr(k, "sym_scalar"):
            k = k.sym_scalar()
        if isinstance(k, S) and k.const() is not None:
            k = int(k.const())
        if self.ro is None and self.segs is None and not isinstance(k, S):
            self._log()
            nb.list.__setitem__(self, k, v)
            return
        if isinstance(k, slice) or self.ro is True:
            raise Unsupported("item assignment of a list of symbolic length")
        from .tensor import norm_index
        if self.ro is not None:
            # inside a loop that changes this list: the write is recorded, the loop summary describes the contents
            p = norm_index(k, dimP(self.sym_len()))
            self._log()
            old = self.wr
            E().log(lambda: setattr(self, "wr", old))
            self.wr = old + ((p, v),)
            return
        n = dimP(self.sym_len())
        p = norm_index(k, n)
        old = SList()
        old.segs = seq_segs(self)
        self._log()
        nb.list.__setitem__(self, slice(None), [])
        self.segs = [("s", n, lambda j: v if E().decide(beq(j, p)) else old.sym_item(j))]

    def __delitem__(self, k):
        self._plain("del")
        self._log()
        nb.list.__delitem__(self, k)

    def __iter__(self):
        self._plain("native iteration")
        return nb.list.__iter__(self)

    def __reversed__(self):
        self._plain("reversed")
        return nb.list.__reversed__(self)

    def __eq__(self, o):
        if not isinstance(o, nb.list):
            return False
        la, lb = b_len(self), b_len(o)
        if not truth(la == lb):
            return False
        if isinstance(la, S) or isinstance(lb, S):
            raise Unsupported("comparison of lists of symbolic length")
        for x, y in nb.zip(self, o):
            if x is y:
                continue
            if not truth(x == y):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return "SList" + (nb.list.__repr__(self) if self.segs is None else repr(self.segs))

    def __format__(self, s):
        return "<list>"


def truth(x):
    return bool(x)


def seq_segs(o):
    if isinstance(o, SList):
        if o.ro is not None:
            raise Unsupported("reading a list that the loop appends to")
        if o.segs is not None:
            return nb.list(o.segs)
        r = o.raw()
        return [("c", r)] if r else []
    if is_symseq(o):
        n = dimP(b_len(o))
        if n.const() is None:
            return [("s", n, lambda j: seq_item(o, j))]
        return [("c", [seq_item(o, num(i)) for i in nb.range(int(n.const()))])]
    r = nb.list(o)
    return [("c", r)] if r else []


def is_symseq(x):
    return hasattr(type(x), "sym_len")


def seq_item(x, p):
    if is_symseq(x):
        return x.sym_item(p)
    return SList(x).sym_item(p)


class View:
    """lazily indexed sequence"""

    def __init__(self, n, item):
        self.n, self.item = n, item

    def sym_len(self):
        return dimS(self.n)

    def sym_item(self, p):
        return self.item(p)

    def __len__(self):
        c = self.n.const()
        if c is None:
            raise Unsupported("native len of a symbolic sequence")
        return max(0, int(c))

    def __getitem__(self, k):
        from .tensor import norm_index
        if isinstance(k, slice):
            raise Unsupported("slice of a lazily indexed sequence")
        return self.item(norm_index(k, self.n))

    def __iter__(self):
        c = self.n.const()
        if c is None:
            raise Unsupported("native iteration over a symbolic sequence")
        for i in nb.range(int(c)):
            yield self.item(num(i))

    def __reversed__(self):
        n = self.n
        return iter(View(n, lambda p: self.item(psub(psub(n, ONE), p))))


def b_len(x):
    if is_symseq(x):
        return x.sym_len()
    return nb.len(x)


def b_range(*a):
    a = [x.sym_scalar() if hasattr(x, "sym_tensor") else x for x in a]
    a = [to_native_int(x) for x in a]
    for x in a:
        if isinstance(x, S) and x.kind in "rc" or isinstance(x, (float, Fr)):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if not nb.any(isinstance(x, S) for x in a):
        return nb.range(*a)
    lo, hi, st = 0, a[0], 1
    if nb.len(a) >= 2:
        lo, hi = a[0], a[1]
    if nb.len(a) == 3:
        st = a[2]
        if isinstance(st, S):
            raise Unsupported("range with symbolic step")
    plo, phi = dimP(lo), dimP(hi)
    if st == 1:
        n = psub(phi, plo)
    elif st == -1:
        n = psub(plo, phi)
    elif st > 0:
        n = p_idiv(padd(psub(phi, plo), num(st - 1)), num(st))
    else:
        n = p_idiv(padd(psub(plo, phi), num(-st - 1)), num(-st))
    if plo.t and not (phi.t == {} and False):
        if not E().decide(bge(n, ZERO)):
            n = ZERO
    v = View(n, lambda p: dimS(padd(plo, pscale(p, st))))
    v.is_range = True
    return v


def b_enumerate(x, start=0):
    if is_symseq(x) and isinstance(b_len(x), S):
        s = dimP(start)
        return View(dimP(b_len(x)), lambda p: (dimS(padd(s, p)), seq_item(x, p)))
    return nb.enumerate(x, start) if not isinstance(start, S) else nb.zip((start + i for i in nb.range(nb.len(x))), x)


def b_zip(*xs):
    if nb.any(is_symseq(x) and isinstance(b_len(x), S) for x in xs):
        ns = []
        for x in xs:
            if not hasattr(x, "__len__") and not is_symseq(x):
                x = nb.list(x)
            ns.append(dimP(b_len(x)))
        n = ns[0]
        for m in ns[1:]:
            if m is not n and not E().decide(ble(n, m)):
                n = m
        return View(n, lambda p: nb.tuple(seq_item(x, p) for x in xs))
    return nb.zip(*xs)


def b_reversed(x):
    if is_symseq(x) and isinstance(b_len(x), S):
        n = dimP(b_len(x))
        return View(n, lambda p: seq_item(x, psub(psub(n, ONE), p)))
    if isinstance(x, View) or hasattr(x, "sym_tensor"):
        return nb.reversed(nb.list(x))
    return nb.reversed(x)


def b_map(f, *xs):
    if nb.any(is_symseq(x) and isinstance(b_len(x), S) for x in xs):
        z = b_zip(*xs)
        return View(z.n, lambda p: f(*z.item(p)))
    return nb.map(f, *xs)


def b_filter(f, x):
    if is_symseq(x) and isinstance(b_len(x), S):
        raise Unsupported("filter over a symbolic sequence")
    return nb.filter(f, x)


def merged(fn):
    """evaluate fn on every path without forking the caller; -> ITE-merged value"""
    from .loops import run_paths, merge_outcomes
    return merge_outcomes(run_paths(fn))


def with_index(n, fn):
    """(k, value of fn(k)) for an arbitrary 0 <= k < n, paths merged"""
    e = E()
    k = fresh_tmp()
    m = nb.len(e.pc)
    e.pc += [bge(k, ZERO), blt(k, n)]
    e.loopvars_stack_push(k)
    try:
        v = merged(lambda: fn(k))
    finally:
        del e.pc[m:]
        e.loopvars_stack_pop()
    return k, v


def b_all(x):
    if is_symseq(x) and isinstance(b_len(x), S):
        n = dimP(b_len(x))
        k, v = with_index(n, lambda k: tb(seq_item(x, k)))
        return S("b", forall(k, n, lift(v).as_bool()))
    for y in x:
        if not truth(y):
            return False
    return True


def tb(v):
    if isinstance(v, S):
        return S("b", v.as_bool())
    if hasattr(v, "sym_tensor"):
        if not v.shp:
            return S("b", v.sym_scalar().as_bool())
        return bool(v)
    return bool(v)


def b_any(x):
    if is_symseq(x) and isinstance(b_len(x), S):
        n = dimP(b_len(x))
        k, v = with_index(n, lambda k: tb(seq_item(x, k)))
        return S("b", bnot(forall(k, n, bnot(lift(v).as_bool()))))
    for y in x:
        if truth(y):
            return True
    return False


def b_sum(x, start=0):
    if is_symseq(x) and isinstance(b_len(x), S):
        from .tensor import T
        n = dimP(b_len(x))
        if E().decide(ble(n, ZERO)):
            return start
        k, v = with_index(n, lambda k: seq_item(x, k))
        if isinstance(v, T):
            rd = v.reader()
            r = T.of(lambda i: sum_S(k, n, rd(i)), v.shp, v.dt, v.lib)
            return r if start == 0 else start + r
        s = sum_S(k, n, lift(v))
        return s + start if not (isinstance(start, int) and start == 0) else s
    r = start
    for y in x:
        r = r + y
    return r


def sum_S(k, n, s):
    if s.kind == "c":
        return S("c", (mk_sum(k, n, s.v[0]), mk_sum(k, n, s.v[1])))
    kk = "i" if s.kind == "b" else s.kind
    return S(kk, mk_sum(k, n, s.poly()))


def ext(k, n, body, which):
    """minimum / maximum of body over 0 <= k < n (n >= 1) -> (argext Poly, value)"""
    if k.single_atom() not in body.fv:
        return ZERO, body
    if n.const() == 1:
        return ZERO, subst(body, {k.single_atom(): ZERO})
    body = in_range(k, n, body)
    if k.single_atom() not in body.fv:
        return ZERO, body
    if E() is not None and nb.any(x.op == "sum" and k.single_atom() in x.args[1].fv for x in body.atoms()):
        # prefix sums: strictly monotone sequences have their extrema at the ends
        ka = k.single_atom()
        with ranged([(k, psub(n, ONE))]):
            d = peel_sums(psub(subst(body, {ka: padd(k, ONE)}), body), lambda g: E().prover.entails(nb.list(E().pc) + RANGES, g))
            up = down = False
            if E().prover.prove_quick(nb.list(E().pc) + RANGES, bgt(d, ZERO))[0]:
                up = True
            elif E().prover.prove_quick(nb.list(E().pc) + RANGES, blt(d, ZERO))[0]:
                down = True
        if up or down:
            PCDEP[0] += 1
            at = psub(n, ONE) if (which == "argmax") == up else ZERO
            return at, subst(body, {ka: at})
    lv, (bd,) = abstract(k, body)
    a = of_atom(Atom(which, (lv, n, bd), "i"))
    return a, instantiate(lv, bd, a)


def b_minmax(which):
    def f(*a, **kw):
        if kw:
            if set(kw) == {"key"}:
                return nb_minmax_key(which, a, kw["key"])
            raise Unsupported("%s with keywords" % which)
        xs = a[0] if nb.len(a) == 1 else a
        if is_symseq(xs) and isinstance(b_len(xs), S):
            n = dimP(b_len(xs))
            if E().decide(ble(n, ZERO)):
                raise ValueError("%s() arg is an empty sequence" % which)
            k, v = with_index(n, lambda k: lift(scal(seq_item(xs, k))))
            _, val = ext(k, n, v.poly(), "arg" + which)
            return S(v.kind, val)
        xs = nb.list(xs)
        if not xs:
            raise ValueError("%s() arg is an empty sequence" % which)
        if nb.len(xs) == 1:
            return xs[0]
        if nb.all(type(x) in (int, bool, str) for x in xs):
            return getattr(nb, which)(xs)
        r = lift(scal(xs[0]))
        for x in xs[1:]:
            x = lift(scal(x))
            # Python keeps the first of equal elements
            r = s_ite(blt(x.poly(), r.poly()) if which == "min" else bgt(x.poly(), r.poly()), x, r)
        return to_native_int(r)
    return f


def nb_minmax_key(which, a, key):
    xs = nb.list(a[0] if nb.len(a) == 1 else a)
    best, bk = xs[0], key(xs[0])
    for x in xs[1:]:
        kx = key(x)
        if truth(kx < bk if which == "min" else kx > bk):
            best, bk = x, kx
    return best


def scal(x):
    return x.sym_scalar() if hasattr(x, "sym_tensor") else x


def b_abs(x):
    if isinstance(x, (S,)) or hasattr(x, "sym_tensor") or hasattr(x, "sym_masked"):
        return abs(x)
    return lift(x).__abs__() if isinstance(x, (float, complex)) else nb.abs(x)


def b_round(x, nd=None):
    x = scal(x)
    if isinstance(x, int):
        return x
    x = lift(x)
    if nd is not None and not (isinstance(nd, int) and nd == 0):
        sc = Fr(10) ** int(nd)
        return b_round(x * Q(sc)) * Q(1 / sc)
    p = x.poly()
    if p.is_int:
        r = p
    else:
        h = padd(p, num(Fr(1, 2)))
        f = p_floor(h)
        odd = beq(p_mod(f, num(2)), ONE)
        tie = beq(of_atom_or(f), h)
        r = psub(f, pite(band(tie, odd), ONE, ZERO))
    return S("r", r) if nd is not None else to_native_int(S("i", r))


def of_atom_or(p):
    return p


def c_int(x=0, *a):
    x = scal(x)
    if isinstance(x, str):
        return nb.int(x, *a)
    if isinstance(x, (bool, int)):
        return int(x)
    s = lift(x)
    if s.kind == "c":
        raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
    return to_native_int(S("i", p_trunc(s.poly())))


def c_float(x=0):
    x = scal(x)
    if isinstance(x, str):
        if x.strip().lower() in ("inf", "infinity", "+inf", "-inf", "nan"):
            return S("r", special(nb.float(x)))
        return Q(Fr(x))
    s = lift(x)
    if s.kind == "c":
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    return S("r", s.poly())


def c_complex(a=0, b=0):
    a, b = lift(scal(a)), lift(scal(b))
    r = S("c", a.cplx())
    if b.const() != 0 or b.kind == "c":
        r = r + S("c", (ZERO, ONE)) * b
    return r


def c_bool(x=False):
    if isinstance(x, S):
        return S("b", x.as_bool()) if x.const() is None else bool(x.const())
    if hasattr(x, "sym_tensor") and not x.shp:
        return S("b", x.sym_scalar().as_bool())
    return nb.bool(x)


def c_list(x=()):
    if isinstance(x, SList):
        return x[:]
    if is_symseq(x):
        n = dimP(b_len(x))
        if n.const() is None:
            r = SList()
            if E().decide(ble(n, ZERO)):
                return r
            if hasattr(x, "sym_tensor"):
                x = x.copy()
            r.segs = [("s", n, lambda j: seq_item(x, j))]
            return r
    return SList(x)


def c_tuple(x=()):
    if is_symseq(x) and isinstance(b_len(x), S):
        return c_list(x)
    return nb.tuple(x)


def kind_check(ks):
    def f(x):
        if isinstance(x, S):
            return x.kind in ks
        if isinstance(x, bool):
            return "b" in ks
        if isinstance(x, int):
            return "i" in ks
        if isinstance(x, (float, Fr)):
            return "r" in ks
        if isinstance(x, complex):
            return "c" in ks
        return False
    return f


INT = PyType("int", kind_check("ib"), c_int, "i")
FLOAT = PyType("float", kind_check("r"), c_float, "r")
COMPLEX = PyType("complex", kind_check("c"), c_complex, "c")
BOOL = PyType("bool", kind_check("b"), c_bool, "b")
LIST = PyType("list", lambda x: isinstance(x, nb.list), c_list)
TUPLE = PyType("tuple", lambda x: isinstance(x, nb.tuple), c_tuple)
NUMBER = PyType("Number", kind_check("birc"), None)
TENSOR = PyType("Tensor", lambda x: hasattr(x, "sym_tensor") and x.lib == "torch", None)
NDARRAY = PyType("ndarray", lambda x: hasattr(x, "sym_tensor") and x.lib == "numpy", None)


def TYPE_OF_BUILTIN(d):
    if isinstance(d, PyType):
        return d.kind
    return {int: "i", float: "r", complex: "c", bool: "b"}.get(d) if isinstance(d, nb.type) else None


NATIVE_TO = {int: INT, float: FLOAT, complex: COMPLEX, bool: BOOL, list: LIST, tuple: TUPLE, numbers.Number: NUMBER}


def b_isinstance(x, t):
    if isinstance(t, (nb.tuple, nb.list)):
        return nb.any(b_isinstance(x, y) for y in t)
    if isinstance(t, Poison) or isinstance(x, Poison):
        raise Unsupported("isinstance on an undescribed value")
    if isinstance(t, PyType):
        return t.check(x)
    if t in NATIVE_TO:
        return NATIVE_TO[t].check(x)
    if t is object:
        return True
    if isinstance(x, S) or hasattr(x, "sym_tensor"):
        return False
    if not isinstance(t, nb.type):
        if hasattr(t, "__instancecheck__"):
            return isinstance(x, t)
        raise Unsupported("isinstance with %r" % (t,))
    return isinstance(x, t)


def b_issubclass(x, t):
    return nb.issubclass(x, t)


def b_type(x, *a):
    if a:
        return nb.type(x, *a)
    if isinstance(x, Poison):
        raise Unsupported("type() of an undescribed value")
    if isinstance(x, S):
        return {"i": INT, "r": FLOAT, "c": COMPLEX, "b": BOOL}[x.kind]
    if hasattr(x, "sym_tensor"):
        return TENSOR if x.lib == "torch" else NDARRAY
    if isinstance(x, SList):
        return LIST
    return NATIVE_TO.get(nb.type(x), nb.type(x))


def b_sorted(x, *, key=None, reverse=False):
    xs = nb.list(x)
    ks = [key(y) if key else y for y in xs]

    def nat(k):
        if isinstance(k, (S,)) and k.const() is not None:
            return k.const()
        if isinstance(k, (int, str, float)):
            return k
        if isinstance(k, nb.tuple):
            return nb.tuple(nat(z) for z in k)
        raise Unsupported("sorting symbolic values")
    ks = [nat(k) for k in ks]
    o = nb.sorted(nb.range(nb.len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
    return SList([xs[i] for i in o])


def b_hasattr(x, n):
    if hasattr(x, "sym_tensor") or isinstance(x, S):
        if isinstance(x, S):
            return n in ("real", "imag", "conjugate") or (n == "is_integer" and x.kind in "ri")
        from .lib_common import METHODS
        return n in METHODS or n in ("shape", "dtype", "device", "real", "imag", "ndim", "T") or hasattr(type(x), n)
    return nb.hasattr(x, n)


def b_setattr(o, n, v):
    from .rt import PV
    PV.setattr(o, n, v)


def b_print(*a, **k):
    return None


def b_divmod(a, b):
    return a // b, a % b


def b_pow(a, b, *m):
    from .rt import PV
    if m:
        raise Unsupported("three-argument pow")
    return PV.pow(a, b)


def b_open(*a, **k):
    h = E().hooks.get("open") if E() is not None else None
    if h:
        return h(*a, **k)
    raise Unsupported("file access in symbolic execution")


def b_iter(x, *a):
    if is_symseq(x) and isinstance(b_len(x), S):
        return x
    return nb.iter(x, *a)


def b_id(x):
    return nb.id(x)


def b_slice(*a):
    return nb.slice(*a)


def b_str(x="", *a):
    if isinstance(x, S) and x.const() is not None and x.kind in "ib":
        return str(int(x.const())) if x.kind == "i" else str(bool(x.const()))
    return nb.str(x, *a)


OVERRIDES = dict(int=INT, float=FLOAT, complex=COMPLEX, bool=BOOL, list=LIST, tuple=TUPLE, len=b_len, range=b_range,
                 enumerate=b_enumerate, zip=b_zip, reversed=b_reversed, map=b_map, filter=b_filter, all=b_all, any=b_any,
                 sum=b_sum, min=b_minmax("min"), max=b_minmax("max"), abs=b_abs, round=b_round, isinstance=b_isinstance,
                 type=b_type, sorted=b_sorted, hasattr=b_hasattr, setattr=b_setattr, print=b_print, divmod=b_divmod,
                 pow=b_pow, open=b_open, iter=b_iter, issubclass=b_issubclass)
