"""Symbolic matrix algebra: square matrices as polynomials in non-commuting letters.

A matrix proxy carries, next to its entries, an optional `mx`: {monomial: coefficient}.  A monomial is an alternating tuple
(D0, n1, D1, n2, ..., nk, Dk): letters n that do not commute, between sorted tuples D of diagonal letters (which commute with each
other and cancel against their inverses).  Letters: ("base", name, indices), ("inv", polynomial), and diagonal ("diag", entry) with the
entry a term over the row index !mi.  The inverse of a polynomial X is a letter with the two rewrite rules  w Inv(X) -> ...  and
Inv(X) w -> ...  obtained from X Inv(X) = Inv(X) X = 1 by solving for the largest word w of X; the largest word strictly decreases in the
word order, so normal forms exist, and two matrices with equal normal forms are equal for every size and all invertible values."""
from fractions import Fraction as Fr

from .terms import *
from .terms import Poly, B
from .sym import *
from . import sym

MI, MJ = var("!mi", "i"), var("!mj", "i")
ONE_M = ((),)
LIMIT = 6000


class NC:
    """normal-form polynomial"""
    __slots__ = ("t", "_key")

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c != (0, 0)}
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(((word_key(m), m, c) for m, c in self.t.items()), key=lambda x: x[0]))
        return self._key


_ids = {}


def lid(a):
    """a stable number per letter (its order of first appearance)"""
    r = _ids.get(a)
    if r is None:
        r = _ids[a] = len(_ids)
    return r


def word_key(m):
    flat = []
    n = 0
    for i, x in enumerate(m):
        if i % 2:
            flat.append((1, lid(x)))
            n += 1
        else:
            flat += [(0, lid(d)) for d in x]
            n += len(x)
    return (n, tuple(flat))


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cinv(a):
    d = a[0] * a[0] + a[1] * a[1]
    return (a[0] / d, -a[1] / d)


def diag_mul(ds, es):
    """product of two diagonal blocks, cancelling inverse pairs"""
    out = list(ds)
    for e in es:
        for i, d in enumerate(out):
            if inverse_pair(d, e):
                del out[i]
                break
        else:
            out.append(e)
    return tuple(sorted(out, key=lid))


_pairs = {}


def inverse_pair(d, e):
    k = (d, e)
    r = _pairs.get(k)
    if r is None:
        en = E()
        x = s_mul(S("c", d[1]), S("c", e[1]))
        goal = band(beq(x.v[0], ONE), beq(x.v[1], ZERO))
        if goal is TRUE:
            r = True
        elif goal is FALSE:
            r = False
        elif not (looks_inverse(d, e)):
            r = False
        else:
            r = en.prover.prove(en.pc + [bge(MI, ZERO), blt(MI, DIM[0])] if DIM[0] is not None else en.pc, goal, 3.0)[0] == "proved"
        _pairs[k] = r
    return r


DIM = [None]


def looks_inverse(d, e):
    s, t = set(d[1][0].fv) | set(d[1][1].fv), set(e[1][0].fv) | set(e[1][1].fv)
    f = lambda x: any(a.op in ("exp", "cos", "sin") for p in x[1] for a in atoms_rec(p))
    return s == t and f(d) == f(e)


def wmul(m, n):
    return m[:-1] + (diag_mul(m[-1], n[0]),) + n[1:]


def add_into(t, m, c):
    v = t.get(m)
    v = (v[0] + c[0], v[1] + c[1]) if v is not None else c
    if v == (0, 0):
        t.pop(m, None)
    else:
        t[m] = v


def lead(t):
    return max(t, key=word_key)


def mult(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            add_into(out, wmul(m, n), cmul(c, d))
    return normal(out)


def subset(small, big):
    """big minus small as multisets, or None"""
    rest = list(big)
    for x in small:
        if x in rest:
            rest.remove(x)
        else:
            return None
    return tuple(rest)


def rewrite1(m):
    """one rewrite of the monomial m: a polynomial, or None"""
    k = len(m)
    for p in range(1, k, 2):
        a = m[p]
        if a[0] != "inv":
            continue
        X = a[1].t
        w = lead(X)
        c = cinv(X[w])
        n = len(w) // 2  # number of non-commuting letters in w
        if n == 0:
            continue
        # w Inv(X): letters of w end right before p
        q = p - 2 * n
        if q >= 1 and m[q:p:2] == w[1::2] and m[q + 1:p:2] == w[2::2]:
            rest = subset(w[0], m[q - 1])
            if rest is not None:
                pre, post = m[:q - 1] + (rest,), m[p + 1:]
                return expand(pre, X, w, c, a, post, True)
        # Inv(X) w
        q = p + 2 * n
        if q < k and m[p + 2:q + 1:2] == w[1::2] and m[p + 1:q:2] == w[0:-1:2]:
            rest = subset(w[-1], m[q + 1])
            if rest is not None:
                pre, post = m[:p], (rest,) + m[q + 2:]
                return expand(pre, X, w, c, a, post, False)
    return None


def expand(pre, X, w, c, a, post, left):
    out = {}
    add_into(out, wmul(pre, post), c)
    inv = ((), a, ())
    for v, d in X.items():
        if v == w:
            continue
        mid = wmul(v, inv) if left else wmul(inv, v)
        f = cmul(c, d)
        add_into(out, wmul(wmul(pre, mid), post), (-f[0], -f[1]))
    return out


def normal(t):
    out, todo, steps = {}, dict(t), 0
    while todo:
        m, c = todo.popitem()
        r = rewrite1(m)
        steps += 1
        if steps > LIMIT * 10 or len(todo) + len(out) > LIMIT:
            raise Unsupported("matrix expression too large")
        if r is None:
            add_into(out, m, c)
        else:
            for n, d in r.items():
                add_into(todo, n, cmul(c, d))
    return out


def nc_inverse(p):
    t = p.t
    if not t:
        raise Unsupported("inverse of the zero matrix")
    if len(t) == 1:
        (m, c), = t.items()
        out = ((),)
        for i, x in enumerate(m):
            if i % 2:
                y = ((), letter_inverse(x), ())
            else:
                y = (tuple(sorted((diag_inverse(d) for d in x), key=lid)),)
            out = wmul(y, out)
        return NC(normal({out: cinv(c)}))
    c = cinv(t[lead(t)])
    q = NC({m: cmul(c, d) for m, d in t.items()})
    a = ("inv", KeyedNC(q))
    return NC({((), a, ()): c})


class KeyedNC:
    """hashable polynomial"""
    tab = {}

    def __new__(cls, q):
        k = frozenset(q.t.items())
        r = cls.tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.t, r.k = q.t, k
            cls.tab[k] = r
        return r


def letter_inverse(x):
    if x[0] == "inv":
        t = x[1].t
        if len(t) == 1:
            (m, c), = t.items()
            if c == (1, 0) and len(m) == 3 and not m[0] and not m[2]:
                return m[1]
    return ("inv", KeyedNC(NC({((), x, ()): (Fr(1), Fr(0))})))


def diag_inverse(d):
    for a in list(_ids):
        if a[0] == "diag" and inverse_pair(d, a):
            return a
    y = s_div_total(S("i", ONE), S("c", d[1]))
    y = conv(y)
    e = ("diag", y)
    lid(e)
    _pairs[(d, e)] = _pairs[(e, d)] = True
    return e


def conv(s):
    if s.kind == "c":
        return s.v
    return (s.poly(), ZERO)


# ------------------------------------------------------------------ recognition
def base(name, *idx):
    return NC({((), ("base", name, tuple(idx)), ()): (Fr(1), Fr(0))})


def const_of(p):
    c = p.const()
    return None if c is None else Fr(c)


def recognise(t):
    """the polynomial of a matrix proxy: carried along, or zero / diagonal by its entries"""
    if t.mx is not None:
        return t.mx
    if len(t.shp) != 2 or t.dt.kind == "b":
        return None
    try:
        s = t.reader()((MI, MJ))
    except Unsupported:
        return None
    re, im = conv(s)
    n = t.shp[0]
    lo, hi = bge(MI, ZERO), blt(MI, n)
    for c in (band(lo, hi), lo, hi):
        re, im = decided(re, c, True), decided(im, c, True)
    if re is ZERO and im is ZERO:
        return NC({})
    ite = beq(MI, MJ)

    def split(p):
        if p is ZERO:
            return ZERO
        on = subst(p, {MJ.single_atom(): MI})
        rest = decided(p, ite, False)
        return on if rest is ZERO else None
    a, b = split(re), split(im)
    if a is None or b is None:
        return None
    return of_diag(a, b)


def decided(p, c, truth):
    from .loops import assign_cond
    return assign_cond(p, c, truth)


def of_diag(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        return NC({((),): (ca, cb)})
    d = ("diag", (a, b))
    if d not in _ids:
        en = E()
        for x in list(_ids):
            if x[0] == "diag" and set(x[1][0].fv) | set(x[1][1].fv) == set(a.fv) | set(b.fv) and looks_inverse(x, d):
                if en.prover.prove(en.pc + ([bge(MI, ZERO), blt(MI, DIM[0])] if DIM[0] is not None else []), band(beq(x[1][0], a), beq(x[1][1], b)), 2.0)[0] == "proved":
                    d = x
                    break
    lid(d)
    return NC({((d,),): (Fr(1), Fr(0))})


def number(x):
    """constant scalar coefficient, or None"""
    if hasattr(x, "sym_tensor") or hasattr(x, "shp"):
        if x.shp:
            return None
        x = x.sym_scalar() if hasattr(x, "sym_scalar") else None
    if x is None:
        return None
    s = lift(x)
    if s.kind == "b":
        return None
    re, im = conv(s)
    a, b = const_of(re), const_of(im)
    return None if a is None or b is None else (a, b)


def is_mat(x):
    return hasattr(x, "shp") and len(x.shp) == 2


# ------------------------------------------------------------------ operations on proxies
def elementwise(r, a, b, f):
    nm = getattr(f, "__name__", "")
    if is_mat(a) and is_mat(b):
        if nm not in ("s_add", "s_sub"):
            return
        x, y = recognise(a), recognise(b)
        if x is None or y is None:
            return
        out = dict(x.t)
        for m, c in y.t.items():
            add_into(out, m, c if nm == "s_add" else (-c[0], -c[1]))
        r.mx = NC(out)
        return
    if nm == "s_mul":
        m, k = (a, b) if is_mat(a) else (b, a)
        k = number(k)
        if k is not None and m.mx is not None:
            r.mx = NC({w: cmul(k, c) for w, c in m.mx.t.items()})
    elif nm in ("s_div", "s_div_total") and is_mat(a):
        k = number(b)
        if k is not None and k != (0, 0):
            r.mx = NC({w: cmul(cinv(k), c) for w, c in a.mx.t.items()})


def negate(mx):
    return NC({w: (-c[0], -c[1]) for w, c in mx.t.items()})


def transpose(t):
    return None


def subst_mx(mx, m):
    def sub(x):
        return subst(x, m)

    def letter(x):
        if x[0] == "base":
            return NC({((), ("base", x[1], tuple(sub(p) for p in x[2])), ()): (Fr(1), Fr(0))})
        return nc_inverse(poly(x[1].t))

    def poly(t):
        out = {}
        for mono, c in t.items():
            acc = {((),): c}
            for i, x in enumerate(mono):
                if i % 2:
                    acc = mult(acc, letter(x).t)
                else:
                    acc = mult(acc, {(tuple(sorted((("diag", (sub(d[1][0]), sub(d[1][1]))) for d in x), key=lid)),): (Fr(1), Fr(0))})
            for mm, cc in acc.items():
                add_into(out, mm, cc)
        return NC(out)
    return poly(mx.t)


def cat(r, ts, d):
    return


def matmul(r, a, b):
    if not (is_mat(a) and is_mat(b)):
        return
    x, y = recognise(a), recognise(b)
    if x is None or y is None:
        return
    if DIM[0] is None:
        DIM[0] = a.shp[0]
    r.mx = NC(mult(x.t, y.t))


_vecs = []


def vec_id(re, im):
    """number of a vector given by its entries at the row !mi; equal vectors (by the prover) share it"""
    en = E()
    for k, (x, y) in enumerate(_vecs):
        if x is re and y is im:
            return k
    fv = set(re.fv) | set(im.fv)
    for k, (x, y) in enumerate(_vecs):
        if set(x.fv) | set(y.fv) == fv:
            if en.prover.prove(en.pc + ([bge(MI, ZERO), blt(MI, DIM[0])] if DIM[0] is not None else []), band(beq(x, re), beq(y, im)), 4.0)[0] == "proved":
                return k
    _vecs.append((re, im))
    return len(_vecs) - 1


def vec_parts(re, im):
    """a vector as a sum of vectors, one per known base vector it is linear in (hook vec_bases: pairs of entry atoms at !mi)"""
    out = []
    for t in E().hooks.get("vec_bases", ()):
        pr, pi = conv(t.reader()((MI,)))
        ar, ai = pr.single_atom(), pi.single_atom()
        if ar is None or ai is None:
            continue
        xr, xi = linear_part(re, ar, ai), linear_part(im, ar, ai)
        if xr is None or xi is None:
            return [(re, im)]
        if xr is ZERO and xi is ZERO:
            continue
        out.append((xr, xi))
        re, im = psub(re, xr), psub(im, xi)
    if not (re is ZERO and im is ZERO):
        out.append((re, im))
    return out


def linear_part(p, ar, ai):
    t = {}
    for m, c in p.t.items():
        d = sum(e for a, e in m if a is ar or a is ai)
        deep = any((ar in atoms_rec(of_atom(a)) or ai in atoms_rec(of_atom(a))) for a, e in m if a is not ar and a is not ai)
        if deep or d > 1:
            return None
        if d == 1:
            t[m] = c
    return Poly(t)


def mv_parts(re, im):
    """(coefficient, matrix word, vector) of the earlier matrix-vector products the vector is a combination of, and what remains"""
    out = []
    for at in sorted(set(a for m in re.t for a, _ in m) | set(a for m in im.t for a, _ in m), key=str):
        if at.op != "app" or not str(at.args[0]).startswith("!mv") or not at.args[0].endswith("_re"):
            continue
        nm = at.args[0][:-3]
        rec = _mvs.get(nm)
        x, y = app(nm + "_re", [MI], "r"), app(nm + "_im", [MI], "r")
        if rec is None or x.single_atom() is not at:
            continue
        ai = y.single_atom()
        co = lambda p, q: p.t.get(((q, 1),), 0)
        al, be = co(re, at), co(im, at)
        if (al == 0 and be == 0) or co(im, ai) != al or co(re, ai) != -be:
            continue
        out.append(((al, be), rec[0], rec[1]))
        z = s_mul(S("c", (num(al), num(be))), S("c", (x, y))).v
        re, im = psub(re, z[0]), psub(im, z[1])
    return out, (re, im)


def apply_word(word, co, v, terms):
    """collect coefficient, word and base vector of each summand of co * word * v"""
    for d in word[-1]:
        v = conv(s_mul(S("c", d[1]), S("c", v)))
    w = word[:-1] + ((),)
    parts, rest = mv_parts(*v)
    for c2, w2, v2 in parts:
        for w3, c3 in mult({w: cmul(co, c2)}, {w2: (Fr(1), Fr(0))}).items():
            apply_word(w3, c3, v2, terms)
    for u in vec_parts(*rest):
        if not (u[0] is ZERO and u[1] is ZERO):
            # vectors up to a real factor: the leading coefficient goes to the word
            p = u[0] if u[0] is not ZERO else u[1]
            k = Fr(p.t[min(p.t, key=lambda m: [(str(a), e) for a, e in m])])
            if k != 1:
                u = tuple(pmul(num(1 / k), x) for x in u)
            terms.append((cmul(co, (k, Fr(0))), w, u))


def opaque_mv(a, b):
    """matrix times vector: linear in both, otherwise an arbitrary function of the word of matrices, the vector (trailing diagonal factors
    taken into its entries) and the row"""
    from .tensor import T
    if DIM[0] is None:
        DIM[0] = a.shp[0]
    v0 = conv(b.reader()((MI,)))
    terms = []
    for word, co in a.mx.t.items():
        apply_word(word, co, v0, terms)

    def at(i):
        i = i[0]
        re, im = ZERO, ZERO
        for co, w, v in terms:
            if len(w) == 1:
                x = (subst(v[0], {MI.single_atom(): i}), subst(v[1], {MI.single_atom(): i}))
            else:
                nm = "!mv%d_%d" % (lid(("matrix", KeyedNC(NC({w: (Fr(1), Fr(0))})))), vec_id(*v))
                _mvs[nm] = (w, v)
                x = (app(nm + "_re", [i], "r"), app(nm + "_im", [i], "r"))
            z = s_mul(S("c", (num(co[0]), num(co[1]))), S("c", x)).v
            re, im = padd(re, z[0]), padd(im, z[1])
        return S("c", (re, im))
    return T.of(lambda i: at(i), [a.shp[0]], "c", a.lib)


_mvs = {}


def diag(r, t):
    return


def eye(r):
    return


def inverse(t):
    h = E().hooks.get("inverse")
    if h:
        return h(t)
    x = recognise(t)
    if x is None:
        raise Unsupported("matrix inverse")
    if DIM[0] is None:
        DIM[0] = t.shp[0]
    from .tensor import T
    inv = nc_inverse(x)
    for w in inv.t:
        CREATED.append(w)
    nm = "!inv%d" % lid(("inverse of", KeyedNC(x)))
    fv = sorted({a for m in x.t for a in letters_fv(m)}, key=lambda a: a.serial if hasattr(a, "serial") else repr(a))
    args = [of_atom(a) for a in fv if a is not MI.single_atom()]
    r = T.of(lambda i: S("c", (app(nm + "_re", args + list(i), "r"), app(nm + "_im", args + list(i), "r"))), t.shp, t.dt, t.lib)
    r.mx = inv
    return r


def letters_fv(m):
    out = set()
    for i, x in enumerate(m):
        if i % 2 == 0:
            for d in x:
                out |= set(d[1][0].fv) | set(d[1][1].fv)
        elif x[0] == "base":
            for p in x[2]:
                out |= set(p.fv)
        else:
            for n in x[1].t:
                out |= letters_fv(n)
    return out


def equal(a, b):
    """True if the two matrix proxies are equal by the algebra, None if that is not decided"""
    x, y = recognise(a), recognise(b)
    if x is None or y is None:
        return None
    d = dict(x.t)
    for m, c in y.t.items():
        add_into(d, m, (-c[0], -c[1]))
    return True if is_zero(normal(d)) else None


def known_inverse(x, diag):
    """the letter's inverse if it is known to exist (the code or the specification inverts it), else None"""
    if diag:
        for a in list(_ids):
            if a[0] == "diag" and _pairs.get((x, a)):
                return ((a,),)
        return None
    if x[0] == "inv":
        t = x[1].t
        if len(t) == 1:
            (m, c), = t.items()
            if c == (1, 0) and len(m) == 3 and not m[0] and not m[2]:
                return ((), m[1], ())
        return None
    y = letter_inverse(x)
    return ((), y, ()) if y in _ids or any(y in m for m in CREATED) else None


CREATED = []  # monomials of the inverses taken


def reset():
    _ids.clear()
    _pairs.clear()
    CREATED.clear()
    KeyedNC.tab.clear()
    _vecs.clear()
    _mvs.clear()
    DIM[0] = None


def generic(ts):
    """the matrices are distinct single letters, i.e. arbitrary"""
    seen = set()
    for t in ts:
        if t.mx is None or len(t.mx.t) != 1:
            return False
        (m, c), = t.mx.t.items()
        if c != (1, 0) or len(m) != 3 or m[0] or m[2] or m[1][0] != "base" or m[1] in seen:
            return False
        seen.add(m[1])
    return True


def is_zero(d, depth=2):
    """d = 0, possibly after multiplication with invertible prefixes / suffixes of its words (which changes nothing)"""
    if not d:
        return True
    if depth == 0 or len(d) > 400:
        return False
    tried = set()
    for w in sorted(d, key=word_key):
        for left in (True, False):
            f = ((),)
            seq = []
            for i, x in enumerate(w):
                seq += [(x, False)] if i % 2 else [(y, True) for y in x]
            if not left:
                seq = seq[::-1]
            for x, dg in seq[:6]:
                v = known_inverse(x, dg)
                if v is None:
                    break
                f = wmul(v, f) if left else wmul(f, v)
                if (left, f) in tried:
                    continue
                tried.add((left, f))
                one = (Fr(1), Fr(0))
                try:
                    e = mult({f: one}, d) if left else mult(d, {f: one})
                except Unsupported:
                    continue
                if not e or (len(e) < len(d) and is_zero(e, depth - 1)):
                    return True
    return False
