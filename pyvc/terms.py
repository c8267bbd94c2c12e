"""Hash-consed terms: polynomials with rational coefficients over atoms, booleans over them.

Real and integer terms share one representation (Poly); sorts live on the atoms.  All arithmetic is
exact (mathematical reals / integers): this is the 'machine arithmetic treated as mathematical' assumption."""
from fractions import Fraction as Fr
from math import gcd


class Atom:
    __slots__ = ("op", "args", "sort", "aid", "_fv", "lvl", "__weakref__")
    tab = {}
    n = 0

    def __new__(cls, op, args, sort):
        key = (op, args, sort)
        a = cls.tab.get(key)
        if a is None:
            a = object.__new__(cls)
            a.op, a.args, a.sort = op, args, sort
            a.aid = Atom.n
            Atom.n += 1
            a._fv = None
            lv = 0
            if op == "bnd":
                lv = args[0]
            else:
                for x in args:
                    if isinstance(x, (Poly, B)):
                        if x.lvl > lv:
                            lv = x.lvl
            a.lvl = lv
            cls.tab[key] = a
        return a

    @property
    def fv(self):
        if self._fv is None:
            if self.op == "var":
                self._fv = frozenset([self])
            else:
                s = frozenset()
                for x in self.args:
                    if isinstance(x, (Poly, B)):
                        s |= x.fv
                self._fv = s
        return self._fv

    def __repr__(self):
        if self.op == "var":
            return self.args[0]
        if self.op == "bnd":
            return "#%d" % self.args[0]
        if self.op == "app":
            return "%s(%s)" % (self.args[0], ",".join(map(repr, self.args[1:])))
        return "%s(%s)" % (self.op, ",".join(map(repr, self.args)))


def _norm_coef(c):
    if type(c) is Fr and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_fv", "lvl", "_int", "_h", "_z", "__weakref__")
    tab = {}

    def __new__(cls, t):
        key = frozenset(t.items())
        p = cls.tab.get(key)
        if p is None:
            p = object.__new__(cls)
            p.t = t
            p._fv = None
            p._int = None
            p._h = hash(key)
            p._z = None
            lv = 0
            for m in t:
                for a, _ in m:
                    if a.lvl > lv:
                        lv = a.lvl
            p.lvl = lv
            cls.tab[key] = p
        return p

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    @property
    def fv(self):
        if self._fv is None:
            s = frozenset()
            for m in self.t:
                for a, _ in m:
                    s |= a.fv
            self._fv = s
        return self._fv

    @property
    def is_int(self):
        if self._int is None:
            self._int = all(type(c) is int for c in self.t.values()) and all(
                a.sort == "i" for m in self.t for a, _ in m)
        return self._int

    def const(self):
        """the constant value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        s = {}
        for m in self.t:
            for a, _ in m:
                s[a] = 1
        return list(s)

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda mc: [(a.aid, e) for a, e in mc[0]]):
            f = ["%r%s" % (a, "" if e == 1 else "^%d" % e) for a, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            out.append("*".join(f))
        return " + ".join(out)


def num(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        c = Fr(repr(c))
    c = _norm_coef(c) if type(c) is Fr else c
    if c == 0:
        return Poly({})
    return Poly({(): c})


ZERO = Poly({})
ONE = Poly({(): 1})


def of_atom(a):
    return Poly({((a, 1),): 1})


def var(name, sort):
    return of_atom(Atom("var", (name,), sort))


def app(name, args, sort):
    return of_atom(Atom("app", (name,) + tuple(args), sort))


def padd(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    t = dict(p.t)
    for m, c in q.t.items():
        d = t.get(m, 0) + c
        if d == 0:
            t.pop(m, None)
        else:
            t[m] = _norm_coef(d)
    return Poly(t)


def pscale(p, k):
    if k == 1:
        return p
    if k == 0:
        return ZERO
    return Poly({m: _norm_coef(c * k) for m, c in p.t.items()})


def pneg(p):
    return pscale(p, -1)


def psub(p, q):
    return padd(p, pneg(q))


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda x: x[0].aid))


MAXTERMS = 20000


class TooBig(Exception):
    pass


def pmul(p, q):
    if not p.t or not q.t:
        return ZERO
    c = p.const()
    if c is not None:
        return pscale(q, c)
    c = q.const()
    if c is not None:
        return pscale(p, c)
    if len(p.t) * len(q.t) > MAXTERMS:
        raise TooBig("polynomial product too large")
    t = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m = mono_mul(m1, m2)
            d = t.get(m, 0) + c1 * c2
            if d == 0:
                t.pop(m, None)
            else:
                t[m] = _norm_coef(d)
    # sqrt(x)^2 -> x is only valid for x >= 0 and therefore left to the prover
    return Poly(t)


def ppow(p, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def content(p):
    """a positive rational k with p/k primitive, and the sign of the leading monomial"""
    ks = list(p.t.values())
    n = 0
    d = 1
    for k in ks:
        k = Fr(k)
        n = gcd(n, k.numerator)
        d = d * k.denominator // gcd(d, k.denominator)
    lead = max(p.t, key=lambda m: [(a.aid, e) for a, e in m])
    return Fr(n, d), (1 if p.t[lead] > 0 else -1)


def pinv(p):
    """1/p as an opaque atom on the primitive part (x/0 is an unspecified value)"""
    c = p.const()
    if c is not None:
        if c == 0:
            return of_atom(Atom("inv", (ZERO,), "r"))
        return num(Fr(1) / Fr(c))
    k, s = content(p)
    prim = pscale(p, Fr(1) / (k * s))
    if len(prim.t) == 1:  # a monomial: distribute over factors
        (m, c), = prim.t.items()
        r = num(Fr(1) / (k * s * c))
        for a, e in m:
            ia = inv_atom(a)
            r = pmul(r, ppow(ia, e))
        return r
    return pscale(of_atom(Atom("inv", (prim,), "r")), Fr(1) / (k * s))


def inv_atom(a):
    if a.op == "inv":  # 1/(1/x) = x, with 1/0 read as 0 or inf
        return a.args[0]
    return of_atom(Atom("inv", (of_atom(a),), "r"))


def pdiv(p, q):
    return pmul(p, pinv(q))


# ------------------------------------------------------------------ booleans
class B:
    __slots__ = ("op", "args", "_fv", "lvl", "bid", "__weakref__")
    tab = {}
    n = 0

    def __new__(cls, op, args=()):
        key = (op, args)
        b = cls.tab.get(key)
        if b is None:
            b = object.__new__(cls)
            b.op, b.args = op, args
            b._fv = None
            b.bid = B.n
            B.n += 1
            lv = 0
            for x in args:
                if isinstance(x, (Poly, B, Atom)) and x.lvl > lv:
                    lv = x.lvl
            b.lvl = lv
            cls.tab[key] = b
        return b

    @property
    def fv(self):
        if self._fv is None:
            s = frozenset()
            for x in self.args:
                if isinstance(x, (Poly, B)):
                    s |= x.fv
            self._fv = s
        return self._fv

    def __repr__(self):
        o, a = self.op, self.args
        if o in ("T", "F"):
            return o
        if o == "le":
            return "(%r <= 0)" % a[0]
        if o == "lt":
            return "(%r < 0)" % a[0]
        if o == "eq":
            return "(%r == 0)" % a[0]
        if o == "not":
            return "!%r" % a[0]
        if o in ("and", "or"):
            return "(" + (" & " if o == "and" else " | ").join(map(repr, a)) + ")"
        if o == "bv":
            return "%s(%s)" % (a[0], ",".join(map(repr, a[1:]))) if len(a) > 1 else a[0]
        return "%s%r" % (o, a)


TRUE = B("T")
FALSE = B("F")


def mkbool(x):
    return TRUE if x else FALSE


def bvar(name, args=()):
    return B("bv", (name,) + tuple(args))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "le":
        return blt(ZERO, b.args[0]) if not b.args[0].is_int else ble(psub(ONE, b.args[0]), ZERO)
    if b.op == "lt":
        return ble(pneg(b.args[0]), ZERO)
    return B("not", (b,))


def _flat(op, bs, unit, zero):
    out = {}
    for b in bs:
        if b is unit:
            continue
        if b is zero:
            return zero
        if b.op == op:
            for x in b.args:
                out[x] = 1
        else:
            out[b] = 1
    for b in out:
        if bnot(b) in out:
            return zero
    if not out:
        return unit
    l = sorted(out, key=lambda b: b.bid)
    if len(l) == 1:
        return l[0]
    return B(op, tuple(l))


def band(*bs):
    return _flat("and", bs, TRUE, FALSE)


def bor(*bs):
    return _flat("or", bs, FALSE, TRUE)


def _positive_scale(p):
    k, s = content(p)
    return pscale(p, Fr(1) / k), s


def inf_sign(p):
    """sign of p when it contains +inf linearly with a constant coefficient, else 0"""
    for m, k in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and m[0][0].args[0] == "+inf":
            return 1 if k > 0 else -1
    return 0


def ble0(p):
    c = p.const()
    if c is not None:
        return mkbool(c <= 0)
    i = inf_sign(p)
    if i:
        return mkbool(i < 0)
    q, _ = _positive_scale(p)
    if q.is_int and () in q.t:
        # tighten: g*x + c <= 0  ->  x + ceil(c/g) <= 0
        g = 0
        for m, k in q.t.items():
            if m != ():
                g = gcd(g, k)
        if g > 1:
            c0 = q.t[()]
            t = {m: k // g for m, k in q.t.items() if m != ()}
            cc = -((-c0) // g)
            if cc != 0:
                t[()] = cc
            q = Poly(t)
    return B("le", (q,))


def ble(p, q):
    return ble0(psub(p, q))


def blt(p, q):
    d = psub(p, q)
    c = d.const()
    if c is not None:
        return mkbool(c < 0)
    i = inf_sign(d)
    if i:
        return mkbool(i < 0)
    if d.is_int:
        return ble0(padd(d, ONE))
    d, _ = _positive_scale(d)
    if d.is_int:
        return ble0(padd(d, ONE))
    return B("lt", (d,))


def bge(p, q):
    return ble(q, p)


def bgt(p, q):
    return blt(q, p)


def beq(p, q):
    d = psub(p, q)
    c = d.const()
    if c is not None:
        return mkbool(c == 0)
    if inf_sign(d):
        return FALSE
    k, s = content(d)
    d = pscale(d, Fr(1) / (k * s))
    if d.is_int:
        g = 0
        for m, c in d.t.items():
            if m != ():
                g = gcd(g, c)
        if g > 1 and d.t.get((), 0) % g != 0:
            return FALSE
    return B("eq", (d,))


def biff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    return bor(band(a, b), band(bnot(a), bnot(b)))


def bimp(a, b):
    return bor(bnot(a), b)


def bite(c, a, b):
    return bor(band(c, a), band(bnot(c), b))


def pite(c, p, q):
    if c is TRUE:
        return p
    if c is FALSE:
        return q
    if p is q:
        return p
    if c.op == "not":
        return pite(c.args[0], q, p)
    # canonical orientation for order atoms: keep 'le' form with positive leading sign
    # same-condition nesting
    p = _under(p, c, True)
    q = _under(q, c, False)
    if p is q:
        return p
    if c.op == "eq":
        # ite(x==e, p, q) where p[x:=e]==q[x:=e] is q
        pass
    sort = "i" if (p.is_int and q.is_int) else "r"
    return of_atom(Atom("ite", (c, p, q), sort))


def _under(p, c, val):
    """p simplified when it is itself a plain ite on the same condition"""
    a = p.single_atom()
    if a is not None and a.op == "ite" and a.args[0] is c:
        return a.args[1] if val else a.args[2]
    return p


# ------------------------------------------------------------------ traversal
def subst(x, m, memo=None):
    """substitute var/bnd atoms by polys (m: Atom -> Poly); rebuilds with the smart constructors"""
    if memo is None:
        memo = {}
    return _subst(x, m, memo, frozenset(m))


def _touch(x, keys):
    if x.lvl and any(k.op == "bnd" for k in keys):
        return True
    return bool(x.fv & keys)


BINDERS = {"sum", "argmin", "argmax", "prodn", "perm", "nz", "first"}


def _subst_binder(x, m, memo, keys):
    """capture-avoiding: open the binder with a fresh variable, substitute, close it again"""
    lv, n, body = x.args[:3]
    b = bnd(lv)
    n1 = _subst(n, m, memo, keys)
    if not any(k is not b and (k.op == "bnd" and body.lvl or k in body.fv) for k in keys):
        b1, v = body, None
    else:
        v = fresh_tmp()
        m2 = {k: y for k, y in m.items() if k is not b}
        m2[b] = v
        b1 = subst(body, m2)
    rest = tuple(_subst(y, m, memo, keys) if isinstance(y, (Poly, B)) else y for y in x.args[3:])
    if isinstance(x, B):
        return forall(v, n1, b1) if v is not None else mk_forall_raw(lv, n1, b1)
    if x.op == "sum":
        if v is None:
            v = fresh_tmp()
            b1 = subst(body, {b: v})
        return mk_sum(v, n1, b1)
    if v is not None:
        lv, (b1,) = abstract(v, b1)
    return of_atom(Atom(x.op, (lv, n1, b1) + rest, x.sort))


_bf = {}


def bnd_free(x):
    """set of free bound-levels of a term"""
    if x.lvl == 0:
        return frozenset()
    r = _bf.get(x)
    if r is not None:
        return r
    r = frozenset()
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                r |= bnd_free(a)
    elif isinstance(x, Atom) and x.op == "bnd":
        r = frozenset([x.args[0]])
    else:
        binder = (isinstance(x, Atom) and x.op in BINDERS) or (isinstance(x, B) and x.op == "forall")
        for i, z in enumerate(x.args):
            if isinstance(z, (Poly, B)):
                f = bnd_free(z)
                if binder and i == 2:
                    f = f - {x.args[0]}
                r |= f
    _bf[x] = r
    return r


def _subst(x, m, memo, keys):
    if not _touch(x, keys):
        return x
    r = memo.get(x)
    if r is not None:
        return r
    if isinstance(x, Poly):
        r = ZERO
        for mono, c in x.t.items():
            q = num(c)
            for a, e in mono:
                q = pmul(q, ppow(_subst_atom(a, m, memo, keys), e))
            r = padd(r, q)
    elif x.op == "forall":
        r = _subst_binder(x, m, memo, keys)
    else:
        r = rebuild_b(x, lambda y: _subst(y, m, memo, keys))
    memo[x] = r
    return r


def _subst_atom(a, m, memo, keys):
    if a in m:
        return m[a]
    if not _touch(a, keys):
        return of_atom(a)
    r = memo.get(a)
    if r is None:
        if a.op in BINDERS:
            r = _subst_binder(a, m, memo, keys)
        else:
            r = rebuild_atom(a, lambda y: _subst(y, m, memo, keys))
        memo[a] = r
    return r


REBUILD = {}  # op -> function(args) -> Poly


def rebuild_atom(a, f):
    args = tuple(f(x) if isinstance(x, (Poly, B)) else x for x in a.args)
    if args == a.args:
        return of_atom(a)
    if a.op == "ite":
        return pite(*args)
    if a.op == "inv":
        return pinv(args[0])
    g = REBUILD.get(a.op)
    if g is not None:
        return g(*args)
    return of_atom(Atom(a.op, args, a.sort))


def rebuild_b(b, f):
    o, args = b.op, b.args
    if o in ("T", "F"):
        return b
    if o == "not":
        return bnot(f(args[0]))
    if o == "and":
        return band(*[f(x) for x in args])
    if o == "or":
        return bor(*[f(x) for x in args])
    if o == "le":
        return ble0(f(args[0]))
    if o == "lt":
        return blt(f(args[0]), ZERO)
    if o == "eq":
        return beq(f(args[0]), ZERO)
    if o == "bv":
        return B("bv", tuple(f(x) if isinstance(x, (Poly, B)) else x for x in args))
    if o == "forall":  # (lvl, n, body)
        return mk_forall_raw(args[0], f(args[1]), f(args[2]))
    raise AssertionError(o)


_bnd_cache = {}


def bnd(level):
    a = _bnd_cache.get(level)
    if a is None:
        a = _bnd_cache[level] = Atom("bnd", (level,), "i")
    return a


def abstract(v, *xs):
    """replace the variable poly v (a single var atom) by a canonical bound atom in every x"""
    a = v.single_atom()
    lv = max([x.lvl for x in xs] + [0]) + 1
    b = of_atom(bnd(lv))
    return lv, [subst(x, {a: b}) for x in xs]


def instantiate(level, x, e):
    return subst(x, {bnd(level): e})


def mk_forall_raw(level, n, body):
    if body is TRUE:
        return TRUE
    if n.const() is not None and n.const() <= 0:
        return TRUE
    if body is FALSE:
        return ble(n, ZERO)
    return B("forall", (level, n, body))


def forall(v, n, body):
    """for all 0 <= v < n: body"""
    if v.single_atom() not in body.fv:
        return bor(ble(n, ZERO), body)
    body = in_range(v, n, body)
    if v.single_atom() not in body.fv:
        return bor(ble(n, ZERO), body)
    lv, (bd,) = abstract(v, body)
    return mk_forall_raw(lv, n, bd)


# ------------------------------------------------------------------ sums over [0, n)
def in_range(v, n, x):
    """x simplified under 0 <= v < n (the range guards themselves)"""
    a = v.single_atom()
    ats = {}
    has = False
    for y in atoms_rec(x):
        if y.op == "ite" and a in y.args[0].fv:
            has = True
            break
    if not has and isinstance(x, Poly):
        return x
    for g in (bge(v, ZERO), blt(v, n)):
        if g.op not in ("T", "F"):
            x = assign_cond(x, g, True)
    return x


def mk_sum(v, n, body):
    """Sum_{0<=v<n} body, split linearly, with factors independent of v pulled out and deltas collapsed"""
    a = v.single_atom()
    body = in_range(v, n, body)
    nc = n.const()
    if nc is not None and nc <= 0:
        return ZERO
    if nc is not None and nc <= 8:
        r = ZERO
        for i in range(int(nc)):
            r = padd(r, subst(body, {a: num(i)}))
        return r
    r = ZERO
    for mono, c in body.t.items():
        dep = tuple((x, e) for x, e in mono if a in x.fv)
        ind = tuple((x, e) for x, e in mono if a not in x.fv)
        q = Poly({ind: c})
        if not dep:
            r = padd(r, pmul(q, pite(ble(n, ZERO), ZERO, n)))
            continue
        r = padd(r, pmul(q, _sum_mono(v, a, n, dep)))
    return r


def peel_sums(p, nonneg):
    """Sum_{v<n+d} f = Sum_{v<n} f + f(n) + ... (d a small positive constant, n >= 0) where both sums occur"""
    for _ in range(8):
        by = {}
        for x in p.atoms():
            if x.op == "sum":
                by.setdefault((x.args[0], x.args[2]), []).append(x)
        rep = None
        for (lv, body), l in by.items():
            for x in l:
                for y in l:
                    if x is y:
                        continue
                    d = psub(x.args[1], y.args[1]).const()
                    if d is not None and 0 < d <= 4 and nonneg(bge(y.args[1], ZERO)):
                        r = of_atom(y)
                        for j in range(int(d)):
                            r = padd(r, instantiate(lv, body, padd(y.args[1], num(j))))
                        rep = (x, r)
                        break
                if rep:
                    break
            if rep:
                break
        if not rep:
            return p
        q = ZERO
        for m, c in p.t.items():
            t = num(c)
            for a, e in m:
                t = pmul(t, ppow(rep[1] if a is rep[0] else of_atom(a), e))
            q = padd(q, t)
        p = q
    return p


def _split_guard(c, a):
    """for a condition c, the part usable as v == e; returns (e, rest) or None"""
    conj = c.args if c.op == "and" else (c,)
    for x in conj:
        if x.op == "eq" and a in x.fv:
            d = x.args[0]
            k = d.t.get(((a, 1),))
            if k in (1, -1):
                rest = Poly({m: cc for m, cc in d.t.items() if m != ((a, 1),)})
                if a not in rest.fv:
                    e = pscale(rest, -1 if k == 1 else 1)
                    return e, band(*[y for y in conj if y is not x])
    return None


def _sum_mono(v, a, n, dep):
    if len(dep) == 1 and dep[0][0] is a and dep[0][1] <= 3:
        # sums of powers
        m, e = psub(n, num(1)), dep[0][1]
        c = pscale(pmul(n, m), Fr(1, 2))
        if e == 2:
            c = pscale(pmul(c, psub(pscale(n, 2), num(1))), Fr(1, 3))
        elif e == 3:
            c = pmul(c, c)
        return pite(ble(n, ZERO), ZERO, c)
    # delta collapse:  ite(v == e & rest, x, 0)
    for i, (x, e) in enumerate(dep):
        if x.op == "ite" and a in x.args[0].fv:
            for pos, neg, cond in ((1, 2, x.args[0]), (2, 1, bnot(x.args[0]))):
                g = _split_guard(cond, a)
                if g is None:
                    continue
                ev, rest = g
                others = Poly({dep[:i] + (((x, e - 1),) if e > 1 else ()) + dep[i + 1:]: 1})
                hit, miss = x.args[pos], x.args[neg]
                hitv = subst(pmul(others, hit), {a: ev})
                cond2 = band(subst(rest, {a: ev}), bge(ev, ZERO), blt(ev, n))
                if not miss.t:
                    return pite(cond2, hitv, ZERO)
                # sum(miss) everywhere, corrected at the single point
                allmiss = mk_sum(v, n, pmul(others, miss))
                corr = psub(hitv, subst(pmul(others, miss), {a: ev}))
                return padd(allmiss, pite(cond2, corr, ZERO))
    # split of a range condition  ite(v < e, x, y): sum over [0, n) = sum_{[0,e)} + sum_{[e,n)}
    body = Poly({dep: 1})
    return sum_raw(v, n, body)


def sum_raw(v, n, body):
    lv, (bd,) = abstract(v, body)
    sort = "i" if bd.is_int else "r"
    return of_atom(Atom("sum", (lv, n, bd), sort))


def _rebuild_sum(lv, n, body):
    v = fresh_tmp()
    return mk_sum(v, n, instantiate(lv, body, v))


REBUILD["sum"] = _rebuild_sum

_tmp = [0]


def fresh_tmp():
    _tmp[0] += 1
    return var("!t%d" % _tmp[0], "i")


def atoms_rec(x, out=None, seen=None):
    """all atoms occurring in x (recursively, including under binders)"""
    if out is None:
        out = {}
    if seen is None:
        seen = set()
    st = [x]
    while st:
        y = st.pop()
        if id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, Poly):
            for m in y.t:
                for a, _ in m:
                    if a not in out:
                        out[a] = 1
                        for z in a.args:
                            if isinstance(z, (Poly, B)):
                                st.append(z)
        elif isinstance(y, B):
            for z in y.args:
                if isinstance(z, (Poly, B)):
                    st.append(z)
    return out


def conds_of(x):
    """closed (no bound variable) ite conditions occurring in x, outermost atoms first"""
    out = {}
    for a in atoms_rec(x):
        if a.op == "ite" and not bnd_free(a.args[0]):
            out[a.args[0]] = 1
    return list(out)


def assign_cond(x, c, val, memo=None):
    """replace occurrences of condition c in ites (and boolean positions) by val"""
    if memo is None:
        memo = {}
    nc = bnot(c)

    def go(y):
        if y in memo:
            return memo[y]
        if isinstance(y, Poly):
            r = ZERO
            changed = False
            for mono, k in y.t.items():
                q = num(k)
                for a, e in mono:
                    b = goa(a)
                    q = pmul(q, ppow(b, e))
                r = padd(r, q)
        else:
            if y is c:
                r = mkbool(val)
            elif y is nc:
                r = mkbool(not val)
            elif y.op in ("and", "or", "not", "forall", "bv", "le", "lt", "eq"):
                r = rebuild_b(y, go)
            else:
                r = y
        memo[y] = r
        return r

    def goa(a):
        if a in memo:
            return memo[a]
        if a.op == "ite" and a.args[0] is c:
            r = go(a.args[1] if val else a.args[2])
        elif any(isinstance(z, (Poly, B)) for z in a.args):
            r = rebuild_atom(a, go)
        else:
            r = of_atom(a)
        memo[a] = r
        return r

    return go(x)
