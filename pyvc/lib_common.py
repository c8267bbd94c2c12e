"""Contracts of the tensor library functions the code uses (assumed; each use is recorded in the evidence)."""
import builtins as nb
from .sym import *
from .terms import *
from . import tensor as tt
from .tensor import (T, MS, DT, DEFAULT, as_dt, promote, conv_kind, unop, binop, bshapes, bcast_reader, mkshape, dims_join,
                     float32, float64, complex64, complex128, int64, bool_, t_abs, t_pow, reshape, permute, expand, Size, view_of)
from .builtins_ import (SList, View, b_len, seq_item, is_symseq, with_index, sum_S, ext, TYPE_OF_BUILTIN, scal, seq_segs)


def is_T(x):
    return isinstance(x, T)


def to_array(x, dt=None, lib="torch", copy=True):
    """torch.tensor / np.array of nested sequences, scalars or arrays"""
    dt = as_dt(dt)
    if isinstance(x, MS):
        raise Unsupported("array from a masked selection")
    if isinstance(x, T):
        if not copy and (dt is None or dt is x.dt) and x.lib == lib:
            return x
        return x.copy(lib=lib, dt=dt)
    if isinstance(x, (S, int, float, complex, Fr, bool)):
        s = lift(x)
        d = dt or DEFAULT[s.kind]
        s = conv_kind(s, d.kind)
        return T.of(lambda i: s, [], d, lib)
    if hasattr(x, "__array_sym__"):
        return to_array(x.__array_sym__(), dt, lib)
    if isinstance(x, (nb.list, tuple, nb.range)) or is_symseq(x):
        n = b_len(x)
        if isinstance(n, S):
            np_ = dimP(n)
            xx = x[:] if isinstance(x, SList) else x
            k, v = with_index(np_, lambda k: to_array(seq_item(xx, k), None, lib))
            rd = v.reader()
            ka = k.single_atom()
            d = dt or v.dt
            return T.of(lambda i: conv_kind(tt.subst_S(rd(i[1:]), {ka: i[0]}), d.kind), [np_] + v.shp, d, lib)
        items = nb.list(x)
        if not items:
            return T.of(lambda i: S("r", ZERO), [0], dt or DEFAULT["r"], lib)
        els = [to_array(y, None, lib) for y in items]
        if lib == "torch" and nb.any(isinstance(y, T) and y.shp and not (len(y.shp) == 1 and y.shp[0].const() == 1) for y in items):
            for y in items:
                if isinstance(y, T) and y.shp and y.lib == "torch":
                    raise ValueError("only one element tensors can be converted to Python scalars")
        if lib == "torch":
            els = [e.copy() if not e.shp else e for e in els]
        shp = els[0].shp
        for e in els[1:]:
            if len(e.shp) != len(shp):
                raise ValueError("expected sequence of equal length")
            for a, b in zip(e.shp, shp):
                if a is not b and not E().decide(beq(a, b)):
                    raise ValueError("expected sequence of equal length")
        d = dt
        if d is None:
            d = els[0].dt
            for e in els[1:]:
                d = promote(d, e.dt)
        rds = [e.reader() for e in els]

        def fn(i):
            p = i[0]
            c = p.const()
            if c is not None:
                return conv_kind(rds[int(c)](i[1:]), d.kind)
            r = conv_kind(rds[-1](i[1:]), d.kind)
            for j in reversed(range(len(rds) - 1)):
                r = s_ite(beq(p, num(j)), conv_kind(rds[j](i[1:]), d.kind), r)
            return r
        return T.of(fn, [num(len(els))] + shp, d, lib)
    if x is None:
        raise TypeError("must be real number, not NoneType")
    if isinstance(x, str):
        raise TypeError("new(): invalid data type 'str'")
    raise Unsupported("array from %r" % (type(x),))


def A(x, lib="torch"):
    return x if isinstance(x, (T, MS)) else to_array(x, None, lib)


def ndim(d, n):
    c = lift(d).const()
    if c is None:
        raise Unsupported("symbolic dimension number")
    c = int(c)
    if c < -n or c >= nb.max(n, 1):
        raise IndexError("Dimension out of range")
    return c % nb.max(n, 1)


def dims_list(t, dim):
    if dim is None:
        return list(range(len(t.shp)))
    if isinstance(dim, (tuple, nb.list)):
        return sorted(ndim(d, len(t.shp)) for d in dim)
    return [ndim(dim, len(t.shp))]


def reduce_fn(t, dim, keepdim, f, dt):
    """f(readers of element with a list of (var, n) to eliminate)"""
    ds = dims_list(t, dim)
    rd = t.reader()
    shp = []
    for j, n in enumerate(t.shp):
        if j in ds:
            if keepdim:
                shp.append(ONE)
        else:
            shp.append(n)
    ns = [t.shp[d] for d in ds]

    def fn(i):
        vs = [fresh_tmp() for _ in ds]
        full, q = [], 0
        for j in range(len(t.shp)):
            if j in ds:
                full.append(vs[ds.index(j)])
                if keepdim:
                    q += 1
            else:
                full.append(i[q])
                q += 1
        with ranged(list(zip(vs, ns))):
            x = rd(tuple(full))
        return f(x, list(zip(vs, ns)))
    return T.of(fn, shp, dt, t.lib)


def r_sum(s, vn):
    for v, n in reversed(vn):
        s = sum_S(v, n, s)
    return s


def isum(t, dim=None, keepdim=False, axis=None, dtype=None):
    if axis is not None:
        dim = axis
    t = A(t)
    dt = int64 if t.dt.kind in "ib" else t.dt
    if dtype is not None:
        dt = as_dt(dtype)
    r = reduce_fn(t, dim, keepdim, r_sum, dt)
    return npscal(r)


def npscal(r):
    """numpy reductions to a scalar give scalars"""
    if isinstance(r, T) and r.lib == "numpy" and not r.shp:
        return r.at(())
    return r


def count(t, dim):
    p = ONE
    for d in dims_list(t, dim):
        p = pmul(p, t.shp[d])
    return p


def imean(t, dim=None, keepdim=False, axis=None):
    if axis is not None:
        dim = axis
    t = A(t)
    if t.dt.kind in "ib" and t.lib == "torch":
        raise RuntimeError("mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype")
    n = count(t, dim)
    dt = t.dt if t.dt.kind in "rc" else float64
    i = S("r", pinv(n))
    return npscal(reduce_fn(t, dim, keepdim, lambda s, vn: s_mul(r_sum(s, vn), i), dt))


def iprod(t, dim=None, **k):
    t = A(t)
    ds = dims_list(t, dim)
    if len(t.shp) == 1 and t.shp[0].const() is not None:
        r = lift(1)
        for j in range(int(t.shp[0].const())):
            r = s_mul(r, t.at((num(j),)))
        return T.of(lambda i: r, [], t.dt, t.lib)
    raise Unsupported("product over a symbolic dimension")


def mm_(which):
    def r_ext(s, vn):
        p = s.poly()
        for v, n in reversed(vn):
            _, p = ext(v, n, p, "arg" + which)
        return S(s.kind if s.kind != "b" else "i", p)

    def f(t, dim=None, keepdim=False, axis=None):
        t = A(t)
        if isinstance(dim, T) or (isinstance(dim, (S, float)) and which):
            if isinstance(dim, T):
                return (imaximum if which == "max" else iminimum)(t, dim)
        if axis is not None:
            dim = axis
        n = count(t, dim)
        if not E().decide(bge(n, ONE)):
            raise (RuntimeError if t.lib == "torch" else ValueError)("%s(): Expected reduction dim to be specified for input.numel() == 0" % which)
        if t.dt.kind == "c":
            raise RuntimeError("%s not implemented for complex" % which)
        r = reduce_fn(t, dim, keepdim, r_ext, t.dt)
        if dim is None or t.lib == "numpy":
            return npscal(r)
        return Ret(r, iarg(which)(t, dim, keepdim))
    return f


class Ret(tuple):
    """(values, indices)"""
    def __new__(cls, v, i):
        return tuple.__new__(cls, (v, i))

    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        return self[1]


def iarg(which):
    def r_arg(s, vn):
        if len(vn) != 1:
            raise Unsupported("argmin over several dimensions")
        (v, n), = vn
        a, _ = ext(v, n, s.poly(), "arg" + which)
        return S("i", a)

    def f(t, dim=None, keepdim=False, axis=None):
        t = A(t)
        if axis is not None:
            dim = axis
        if dim is None and len(t.shp) > 1:
            t = reshape(t, [-1])
        n = count(t, dim)
        if not E().decide(bge(n, ONE)):
            raise (IndexError if t.lib == "torch" else ValueError)("arg%s of an empty sequence" % which)
        return npscal(reduce_fn(t, dim, keepdim, r_arg, int64))
    return f


imin, imax, iargmin, iargmax = mm_("min"), mm_("max"), iarg("min"), iarg("max")


def r_all(s, vn):
    b = s.as_bool()
    for v, n in reversed(vn):
        b = forall(v, n, b)
    return S("b", b)


def r_any(s, vn):
    b = bnot(s.as_bool())
    for v, n in reversed(vn):
        b = forall(v, n, b)
    return S("b", bnot(b))


def iall(t, dim=None, keepdim=False, axis=None):
    return npscal(reduce_fn(A(t), dim if axis is None else axis, keepdim, r_all, bool_))


def iany(t, dim=None, keepdim=False, axis=None):
    return npscal(reduce_fn(A(t), dim if axis is None else axis, keepdim, r_any, bool_))


def elem(f, real_out=False, force=None):
    def g(t, *a, **k):
        k.pop("out", None)
        if isinstance(t, MS):
            return t._w(g(t.full))
        if not isinstance(t, T):
            if isinstance(t, (nb.list, tuple)):
                t = to_array(t, lib="numpy")
            else:
                s = lift(t)
                if s.kind in "ib":
                    s = S("r", s.poly())
                return f(s)
        dt = t.dt
        if dt.kind in "ib":
            dt = float64
        if real_out and dt.kind == "c":
            dt = float64 if dt.prec == 2 else float32
        if force:
            dt = force
        return unop(t, lambda s: f(s if s.kind in "rc" else S("r", s.poly())), dt)
    return g


def cplx_only_real(name, f):
    def g(s):
        if s.kind == "c":
            raise Unsupported("complex %s" % name)
        return S("r", f(s.poly()))
    return g


def c_cos(s):
    if s.kind == "c":
        raise Unsupported("complex cos")
    return S("r", p_cos(s.poly()))


isqrt = elem(s_sqrt)
iexp = elem(s_exp)
isin = elem(cplx_only_real("sin", p_sin))
icos = elem(cplx_only_real("cos", p_cos))
ilog10 = elem(cplx_only_real("log10", p_log10))
ilog = elem(cplx_only_real("log", p_log))
isigmoid = elem(cplx_only_real("sigmoid", p_sigmoid))
itanh = elem(cplx_only_real("tanh", p_tanh))
ifloor = elem(lambda s: S("r", p_floor(s.poly())))
iceil = elem(lambda s: S("r", pneg(p_floor(pneg(s.poly())))))
iround = elem(lambda s: S("r", __import__("pyvc.builtins_", fromlist=["x"]).b_round(s).poly()) if s.const() is None else lift(__import__("pyvc.builtins_", fromlist=["x"]).b_round(s)))


def iabs(t, **k):
    t = t if isinstance(t, (T, MS)) else (to_array(t, lib="numpy") if isinstance(t, (nb.list, tuple)) else t)
    return abs(t) if isinstance(t, (T, MS, S)) else abs(lift(t))


def isquare(t):
    return t * t


def iconj(t):
    if not isinstance(t, (T, MS)):
        return lift(t).conjugate()
    return unop(t, lambda s: s.conjugate())


def ireal(t):
    return t.real if isinstance(t, (T, MS)) else lift(t).real


def iimag(t):
    return t.imag if isinstance(t, (T, MS)) else lift(t).imag


def isign(t):
    def f(s):
        if s.kind == "c":
            raise Unsupported("sign of complex")
        return s_sign(s)
    return unop(t, f) if isinstance(t, (T, MS)) else f(lift(t))


def iclip(t, min=None, max=None, a_min=None, a_max=None):
    lo = min if min is not None else a_min
    hi = max if max is not None else a_max
    if isinstance(t, MS):
        return t._w(iclip(t.full, lo, hi))
    t = A(t)
    if t.dt.kind == "c":
        raise RuntimeError("clamp is not supported for complex types")
    r = t
    if lo is not None:
        r = binop(r, lo, s_max)
    if hi is not None:
        r = binop(r, hi, s_min)
    return r if r is not t else t.copy()


def iminimum(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return s_min(a, b)
    return binop(a, b, s_min)


def imaximum(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return s_max(a, b)
    return binop(a, b, s_max)


def ipow(a, b):
    if isinstance(a, T) or isinstance(b, T):
        return binop(a, b, t_pow)
    return a ** b


def iisnan(t):
    if isinstance(t, T):
        f = t.nanp
        if f is not None:
            return T.of(lambda i: S("b", f(i)), t.shp, bool_, t.lib)
        return T.of(lambda i: S("b", FALSE), t.shp, bool_, t.lib)
    return S("b", FALSE)


def iisclose(a, b, rtol=None, atol=None, **k):
    raise Unsupported("isclose")


def ilogical_and(a, b):
    return A(a) & A(b)


def ilogical_or(a, b):
    return A(a) | A(b)


def ilogical_not(a):
    return unop(A(a), lambda s: S("b", bnot(s.as_bool())), bool_)


def icat(ts, dim=0, axis=None):
    if axis is not None:
        dim = axis
    if is_symseq(ts) and not isinstance(ts, T):
        n = b_len(ts)
        if isinstance(n, S):
            return cat_sym(ts, dim)
    ts = [A(t) for t in ts]
    ts = [t for t in ts if not (len(t.shp) == 1 and t.shp[0].const() == 0)] or ts[:1]
    lib = ts[0].lib
    d = ndim(dim, len(ts[0].shp))
    dt = ts[0].dt
    for t in ts[1:]:
        dt = promote(dt, t.dt)
        if len(t.shp) != len(ts[0].shp):
            raise RuntimeError("Tensors must have same number of dimensions")
        for j in range(len(t.shp)):
            if j != d and t.shp[j] is not ts[0].shp[j] and not E().decide(beq(t.shp[j], ts[0].shp[j])):
                raise RuntimeError("Sizes of tensors must match except in dimension %d" % d)
    rds = [t.reader() for t in ts]
    ns = [t.shp[d] for t in ts]
    tot = ZERO
    offs = []
    for n in ns:
        offs.append(tot)
        tot = padd(tot, n)
    shp = list(ts[0].shp)
    shp[d] = tot

    def fn(i):
        r = None
        for rd, o in reversed(list(zip(rds, offs))):
            ii = i[:d] + (psub(i[d], o),) + i[d + 1:]
            if r is None:
                c = None
                nxt = o
                r = lambda rd=rd, ii=ii: rd(ii)
            else:
                b = blt(i[d], nxt)
                if b is TRUE:
                    r = lambda rd=rd, ii=ii: rd(ii)
                elif b is not FALSE:
                    r = lambda rd=rd, ii=ii, b=b, r0=r: s_ite(b, conv_kind(rd(ii), dt.kind), r0())
                nxt = o
        return conv_kind(r(), dt.kind)
    r = T.of(fn, shp, dt, lib)
    if nb.any(t.mx is not None for t in ts):
        from . import ncpoly
        ncpoly.cat(r, ts, d)
    return r


def cat_sym(ts, dim):
    n = dimP(b_len(ts))
    k, v = with_index(n, lambda k: A(seq_item(ts, k)))
    d = ndim(dim, len(v.shp))
    if k.single_atom() in v.shp[d].fv:
        raise Unsupported("concatenation of blocks of varying size")
    b = v.shp[d]
    rd = v.reader()
    ka = k.single_atom()

    def fn(i):
        if b.const() == 1:
            q, r = i[d], ZERO
        else:
            q, r = tt.p_divmod(i[d], b)
        s = rd(i[:d] + (r,) + i[d + 1:])
        return tt.subst_S(s, {ka: q})
    shp = list(v.shp)
    shp[d] = pmul(n, b)
    return T.of(fn, shp, v.dt, v.lib)


def istack(ts, dim=0, axis=None):
    if axis is not None:
        dim = axis
    if is_symseq(ts) and isinstance(b_len(ts), S):
        n = dimP(b_len(ts))
        xs = ts[:] if isinstance(ts, SList) else ts
        k, v = with_index(n, lambda k: A(seq_item(xs, k)))
        rd, ka = v.reader(), k.single_atom()
        d = ndim(dim, len(v.shp) + 1)
        return T.of(lambda i: tt.subst_S(rd(i[:d] + i[d + 1:]), {ka: i[d]}), v.shp[:d] + [n] + v.shp[d:], v.dt, v.lib)
    ts = [A(t) for t in ts]
    if not ts:
        raise RuntimeError("stack expects a non-empty TensorList")
    d = ndim(dim, len(ts[0].shp) + 1)
    return icat([t[tuple([slice(None)] * d + [None])] for t in ts], d)


def ivstack(ts):
    if is_symseq(ts) and isinstance(b_len(ts), S):
        n = dimP(b_len(ts))
        return icat(View(n, lambda k: at2d(seq_item(ts, k))), 0)
    ts = [at2d(t) for t in ts]
    return icat(ts, 0)


def at2d(t):
    t = A(t)
    return t[None] if len(t.shp) == 1 else (t[None, None] if not t.shp else t)


def ihstack(ts):
    ts = [A(t) for t in ts]
    ts = [t if t.shp else t[None] for t in ts]
    return icat(ts, 0 if len(ts[0].shp) == 1 else 1)


def isplit(t, size, dim=0):
    d = ndim(dim, len(t.shp))
    if isinstance(size, (nb.list, tuple)):
        out, o = [], 0
        for s in size:
            out.append(t[tuple([slice(None)] * d + [slice(o, o + s)])])
            o = o + s
        return tuple(out)
    n = dimP(t.shape[d])
    sz = dimP(size)
    q = p_idiv(padd(n, psub(sz, ONE)), sz)
    if q.const() is None:
        raise Unsupported("split into a symbolic number of blocks")
    return tuple(t[tuple([slice(None)] * d + [slice(dimS(pscale(sz, j)), dimS(pscale(sz, j + 1)))])] for j in range(int(q.const())))


def iflatten(t, start_dim=0, end_dim=-1):
    n = len(t.shp)
    a, b = ndim(start_dim, n), ndim(end_dim, n)
    p = ONE
    for x in t.shp[a:b + 1]:
        p = pmul(p, x)
    return reshape(t, [dimS(x) for x in t.shp[:a]] + [dimS(p)] + [dimS(x) for x in t.shp[b + 1:]])


def iunsqueeze(t, dim):
    d = ndim(dim, len(t.shp) + 1)
    return t[tuple([slice(None)] * d + [None])]


def isqueeze(t, dim=None, axis=None):
    t = A(t)
    if axis is not None:
        dim = axis
    key = []
    for j, n in enumerate(t.shp):
        drop = False
        if dim is None or ndim(dim, len(t.shp)) == j:
            drop = n.const() == 1 if n.const() is not None else E().decide(beq(n, ONE))
        key.append(0 if drop else slice(None))
    return t[tuple(key)] if key else t


def itranspose(t, a, b):
    n = len(t.shp)
    a, b = ndim(a, n), ndim(b, n)
    p = list(range(n))
    p[a], p[b] = p[b], p[a]
    return permute(t, p)


def imatmul(a, b):
    return matmul(a, b)


def einsum(spec, *ops):
    """explicit index notation with single letters (no ellipsis)"""
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = ops[0]
    spec = spec.replace(" ", "")
    if "." in spec or "->" not in spec:
        raise Unsupported("einsum with implicit output or ellipsis")
    lhs, out = spec.split("->")
    ins = lhs.split(",")
    ops = [A(o) for o in ops]
    if len(ins) != len(ops) or any(len(i) != len(o.shp) for i, o in zip(ins, ops)):
        raise RuntimeError("einsum(): the number of subscripts does not match the operands")
    dim = {}
    for i, o in zip(ins, ops):
        for ch, n in zip(i, o.shp):
            if ch in dim:
                if dim[ch] is not n and not E().decide(beq(dim[ch], n)):
                    raise RuntimeError("einsum(): operands do not broadcast")
            else:
                dim[ch] = n
    red = [ch for ch in dim if ch not in out]
    dt = ops[0].dt
    for o in ops[1:]:
        dt = promote(dt, o.dt)
    rds = [o.reader() for o in ops]

    def fn(idx):
        at = dict(zip(out, idx))
        vs = [(ch, fresh_tmp()) for ch in red]
        at.update(vs)
        with ranged([(v, dim[ch]) for ch, v in vs]):
            x = None
            for i, rd in zip(ins, rds):
                y = rd(tuple(at[ch] for ch in i))
                x = y if x is None else s_mul(x, y)
        for ch, v in reversed(vs):
            x = sum_S(v, dim[ch], x)
        return x
    return T.of(fn, [dim[ch] for ch in out], dt, ops[0].lib)


def matmul(a, b):
    a, b = A(a), A(b)
    dt = promote(a.dt, b.dt)
    if len(a.shp) == 1 and len(b.shp) == 1:
        return idot(a, b)
    ra, rb = a.reader(), b.reader()

    def chk(x, y):
        if x is not y and not E().decide(beq(x, y)):
            raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
    if len(b.shp) == 1:
        chk(a.shp[-1], b.shp[0])
        n = a.shp[-1]
        if a.mx is not None and E().hooks.get("opaque_mv"):
            from . import ncpoly
            return ncpoly.opaque_mv(a, b)

        def fn(i):
            v = fresh_tmp()
            with ranged([(v, n)]):
                x = s_mul(ra(i + (v,)), rb((v,)))
            return sum_S(v, n, x)
        r = T.of(fn, a.shp[:-1], dt, a.lib)
    elif len(b.shp) == 2:
        chk(a.shp[-1], b.shp[0])
        n = a.shp[-1]

        def fn(i):
            v = fresh_tmp()
            with ranged([(v, n)]):
                x = s_mul(ra(i[:-1] + (v,)), rb((v, i[-1])))
            return sum_S(v, n, x)
        r = T.of(fn, a.shp[:-1] + [b.shp[1]], dt, a.lib)
    elif len(a.shp) == len(b.shp):
        chk(a.shp[-1], b.shp[-2])
        n = a.shp[-1]
        shp, ma, mb = bshapes(a.shp[:-2], b.shp[:-2])

        def fn(i):
            v = fresh_tmp()
            with ranged([(v, n)]):
                x = s_mul(ra(ma(i[:-2]) + (i[-2], v)), rb(mb(i[:-2]) + (v, i[-1])))
            return sum_S(v, n, x)
        r = T.of(fn, shp + [a.shp[-2], b.shp[-1]], dt, a.lib)
    else:
        raise Unsupported("matmul of these ranks")
    if a.mx is not None or b.mx is not None:
        from . import ncpoly
        ncpoly.matmul(r, a, b)
    return r


def idot(a, b):
    a, b = A(a), A(b)
    if len(a.shp) != 1 or len(b.shp) != 1:
        if a.lib == "numpy":
            return matmul(a, b)
        raise RuntimeError("1D tensors expected")
    if a.shp[0] is not b.shp[0] and not E().decide(beq(a.shp[0], b.shp[0])):
        raise RuntimeError("inconsistent tensor size")
    return isum(a * b)


def imm(a, b):
    if len(a.shp) != 2 or len(b.shp) != 2:
        raise RuntimeError("self must be a matrix")
    return matmul(a, b)


def imv(a, b):
    if len(a.shp) != 2 or len(b.shp) != 1:
        raise RuntimeError("vector + matrix @ vector expected")
    return matmul(a, b)


def iouter(a, b):
    return a[:, None] * b[None, :]


def itrace(a):
    n = a.shp[0]
    rd = a.reader()
    v = fresh_tmp()
    return T.of(lambda i: sum_S(v, n, rd((v, v))), [], a.dt, a.lib)


def idiag(t, diagonal=0):
    t = A(t)
    rd = t.reader()
    if len(t.shp) == 1:
        n = t.shp[0]
        z = conv_kind(S("i", ZERO), t.dt.kind)
        r = T.of(lambda i: s_ite(beq(i[0], i[1]), rd((i[0],)), z), [n, n], t.dt, t.lib)
        r.diag = t
        from . import ncpoly
        ncpoly.diag(r, t)
        return r
    n = t.shp[0]
    if t.shp[1] is not n and not E().decide(ble(n, t.shp[1])):
        n = t.shp[1]
    return T.of(lambda i: rd((i[0], i[0])), [n], t.dt, t.lib)


def ieye(n, m=None, dtype=None, device=None, **k):
    dt = as_dt(dtype) or float64
    one, z = conv_kind(S("i", ONE), dt.kind), conv_kind(S("i", ZERO), dt.kind)
    r = T.of(lambda i: s_ite(beq(i[0], i[1]), one, z), [n, m if m is not None else n], dt)
    from . import ncpoly
    ncpoly.eye(r)
    return r


def icumsum(t, dim=None, axis=None):
    t = A(t)
    if axis is not None:
        dim = axis
    d = ndim(dim if dim is not None else 0, len(t.shp))
    rd = t.reader()

    def fn(i):
        v = fresh_tmp()
        return sum_S(v, padd(i[d], ONE), rd(i[:d] + (v,) + i[d + 1:]))
    return T.of(fn, t.shp, t.dt if t.dt.kind in "rci" else int64, t.lib)


def irepeat_interleave(t, repeats, dim=None):
    if isinstance(repeats, T) and repeats.shp:
        raise Unsupported("repeat_interleave with a tensor")
    if dim is None:
        t = reshape(t, [-1])
        dim = 0
    d = ndim(dim, len(t.shp))
    r = dimP(scal(repeats))
    rd = t.reader()
    shp = list(t.shp)
    shp[d] = pmul(shp[d], r)
    if r.const() == 1:
        return t.copy()
    if r.const() is None and not E().decide(bge(r, ONE)):
        raise Unsupported("repeat_interleave by less than one")
    return T.of(lambda i: rd(i[:d] + (tt.p_divmod(i[d], r)[0],) + i[d + 1:]), shp, t.dt, t.lib)


def irepeat(t, *reps):
    if len(reps) == 1 and isinstance(reps[0], (tuple, nb.list)):
        reps = tuple(reps[0])
    off = len(reps) - len(t.shp)
    rd = t.reader()
    shp = []
    ns = [None] * off + list(t.shp)
    for n, r in zip(ns, reps):
        p = dimP(r)
        shp.append(p if n is None else pmul(n, p))

    def fn(i):
        out = []
        for x, n, r in zip(i, ns, reps):
            if n is None:
                continue
            if dimP(r).const() == 1:
                out.append(x)
            elif n.const() == 1:
                out.append(ZERO)
            else:
                out.append(p_mod(x, n))
        return rd(tuple(out))
    return T.of(fn, shp, t.dt, t.lib)


def inorm(t, p=None, dim=None, **k):
    t = A(t)
    if p not in (None, 2, "fro") and not (isinstance(p, S) and p.const() == 2):
        raise Unsupported("norm order")

    def f(s, vn):
        a = s_mul(s, s.conjugate())
        a = S("r", a.cplx()[0])
        return S("r", p_sqrt(r_sum(a, vn).poly()))
    return npscal(reduce_fn(t, dim, False, f, float64))


def iwhere(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    c = A(c)
    a_, b_ = a, b
    dt = promote(tt.dt_of(a_), tt.dt_of(b_), isinstance(a_, T) and bool(a_.shp), isinstance(b_, T) and bool(b_.shp))
    sh, m1, m2 = bshapes(a_.shp if isinstance(a_, T) else [], b_.shp if isinstance(b_, T) else [])
    sh2, mc, mr = bshapes(c.shp, sh)
    rc = c.reader()
    ra = a_.reader() if isinstance(a_, T) else (lambda s: lambda i: s)(lift(a_))
    rb = b_.reader() if isinstance(b_, T) else (lambda s: lambda i: s)(lift(b_))
    return T.of(lambda i: s_ite(rc(mc(i)).as_bool(), conv_kind(ra(m1(mr(i))), dt.kind), conv_kind(rb(m2(mr(i))), dt.kind)), sh2, dt, c.lib)


def iflip(t, dims=None, *a, axis=None):
    t = A(t)
    if axis is not None:
        dims = axis
    ds = dims_list(t, dims if not isinstance(dims, int) else [dims])
    rd = t.reader()
    return T.of(lambda i: rd(tuple(psub(psub(t.shp[j], ONE), x) if j in ds else x for j, x in enumerate(i))), t.shp, t.dt, t.lib)


def iroll(t, shifts, dims=None):
    if dims is None:
        raise Unsupported("roll without dims")
    if isinstance(shifts, (tuple, nb.list)):
        r = t
        for s, d in zip(shifts, dims):
            r = iroll(r, s, d)
        return r
    d = ndim(dims, len(t.shp))
    rd = t.reader()
    sh = dimP(scal(shifts))
    n = t.shp[d]
    return T.of(lambda i: rd(i[:d] + (p_mod(psub(i[d], sh), n),) + i[d + 1:]), t.shp, t.dt, t.lib)


def isort(t, axis=-1, **k):
    """ascending arrays are left as they are, descending ones reversed; anything else is outside the reach"""
    t = A(t, "numpy")
    if len(t.shp) != 1:
        raise Unsupported("sort of more than one dimension")
    e = E()
    rd = t.reader()
    n = t.shp[0]
    k = fresh_tmp()
    rng = [bge(k, ZERO), blt(padd(k, ONE), n)]
    a, b = rd((k,)).poly(), rd((padd(k, ONE),)).poly()
    for goal, r in ((ble(a, b), t.copy()), (bge(a, b), iflip(t, [0]))):
        if e.prover.prove(e.pc + rng, goal, 6.0)[0] == "proved":
            return r
    raise Unsupported("sort of an array of unknown order")


def iargsort(t, dim=-1, descending=False, **k):
    t = A(t)
    if len(t.shp) != 1:
        raise Unsupported("argsort of more than one dimension")
    e = E()
    n = t.shp[0]
    rd = t.reader()
    val = (lambda i: pneg(rd((i,)).poly())) if descending else (lambda i: rd((i,)).poly())
    nm = e.fresh_name("!as")
    outer = list(e.loopvars)
    idx = lambda k: app(nm, outer + [k], "i")
    inv = lambda i: app(nm + "v", outer + [i], "i")
    k, i = fresh_tmp(), fresh_tmp()
    # a permutation of 0..n-1 ...
    e.assume(forall(k, n, band(bge(idx(k), ZERO), blt(idx(k), n), beq(inv(idx(k)), k))))
    e.assume(forall(i, n, band(bge(inv(i), ZERO), blt(inv(i), n), beq(idx(inv(i)), i))))
    # ... that orders the values: the rank of i is below the rank of j only if value i <= value j
    e.assume(forall(k, n, forall(i, n, bor(blt(i, k), ble(val(idx(k)), val(idx(i)))))))
    return T.of(lambda ix: S("i", idx(ix[0])), [n], int64, t.lib)


def inonzero(t, as_tuple=False, out=None):
    """one-dimensional: the indices of the non-zero entries in increasing order, by their defining properties"""
    if len(t.shp) != 1 or out is not None:
        raise Unsupported("nonzero of a %d-dimensional array" % len(t.shp))
    e = E()
    n = t.shp[0]
    rd = t.reader()

    def mask(i):
        v = rd((i,))
        if v.kind == "b":
            return v.v
        if v.kind == "c":
            return bnot(band(beq(v.v[0], ZERO), beq(v.v[1], ZERO)))
        return bnot(beq(v.poly(), ZERO))
    nm = e.fresh_name("!nz")
    outer = list(e.loopvars)
    m = app(nm + "m", outer, "i") if outer else e.fresh(nm + "m", "i")
    idx = lambda k: app(nm, outer + [k], "i")
    inv = lambda i: app(nm + "v", outer + [i], "i")
    k = fresh_tmp()
    e.assume(bge(m, ZERO))
    e.assume(ble(m, n))
    e.assume(forall(k, m, band(bge(idx(k), ZERO), blt(idx(k), n), mask(idx(k)))))
    e.assume(forall(k, psub(m, ONE), blt(idx(k), idx(padd(k, ONE)))))
    i = fresh_tmp()
    e.assume(forall(i, n, bor(bnot(mask(i)), band(bge(inv(i), ZERO), blt(inv(i), m), beq(idx(inv(i)), i)))))
    if as_tuple:
        return (T.of(lambda ix: S("i", idx(ix[0])), [m], int64, t.lib),)
    if t.lib == "numpy":
        return (T.of(lambda ix: S("i", idx(ix[0])), [m], int64, t.lib),)
    return T.of(lambda ix: S("i", idx(ix[0])), [m, ONE], int64, t.lib)


def iunique(*a, **k):
    raise Unsupported("unique")


def fill(v, dt, lib):
    def f(*shape, dtype=None, device=None, requires_grad=False, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, nb.list)):
            shape = tuple(shape[0])
        elif len(shape) == 2 and isinstance(shape[0], (tuple, nb.list)) and lib == "numpy":
            shape, dtype = tuple(shape[0]), shape[1]
        d = as_dt(dtype) or dt
        s = conv_kind(lift(v), d.kind)
        for x in shape:
            p = dimP(x)
            if p.const() is not None and p.const() < 0 or (p.const() is None and not E().decide(bge(p, ZERO))):
                raise RuntimeError("Trying to create tensor with negative dimension")
        return T.of(lambda i: s, list(shape), d, lib)
    return f


def fill_like(v):
    def f(t, dtype=None, **k):
        d = as_dt(dtype) or t.dt
        s = conv_kind(lift(v), d.kind)
        return T.of(lambda i: s, t.shp, d, t.lib)
    return f


def full(shape, v, dtype=None, **k):
    s = lift(scal(v))
    d = as_dt(dtype) or DEFAULT[s.kind]
    s = conv_kind(s, d.kind)
    return T.of(lambda i: s, list(shape) if isinstance(shape, (tuple, nb.list)) else [shape], d)


def linspace_(lib):
    def f(start, end=None, steps=None, num=None, endpoint=True, dtype=None, device=None, **k):
        if steps is None:
            steps = num if num is not None else 50
        steps = scal(steps)
        if lift(steps).kind not in "ib":
            raise TypeError("linspace(): argument 'steps' must be int, not float")
        if not (endpoint is True):
            raise Unsupported("linspace without endpoint")
        a, b = lift(scal(start)), lift(scal(end))
        n = dimP(steps)
        if not E().decide(bge(n, ZERO)):
            raise RuntimeError("number of steps must be non-negative")
        kind = "c" if "c" in (a.kind, b.kind) else "r"
        d = as_dt(dtype) or DEFAULT[kind]
        if E().decide(beq(n, ONE)):
            r = T.of(lambda i: conv_kind(a, d.kind), [n], d, lib)
            return r
        st = s_div_total(b - a, S("i", psub(n, ONE)))
        return T.of(lambda i: conv_kind(s_add(a, s_mul(st, S("i", i[0]))), d.kind), [n], d, lib)
    return f


def logspace_(lib):
    lin = linspace_(lib)

    def f(start, end=None, steps=None, num=None, base=10, **k):
        if steps is None:
            steps = num if num is not None else (50 if lib == "numpy" else 100)
        t = lin(start, end, steps)
        bp = lift(base).poly()
        return unop(t, lambda s: S("r", p_pow(bp, s.poly())))
    return f


def arange_(lib):
    def f(*a, dtype=None, device=None, **k):
        a = [scal(x) for x in a]
        lo, hi, st = 0, a[0], 1
        if len(a) > 1:
            lo, hi = a[0], a[1]
        if len(a) > 2:
            st = a[2]
        lo, hi, st = lift(lo), lift(hi), lift(st)
        if E().decide(beq(st.poly(), ZERO)):
            raise RuntimeError("step must be nonzero")
        kind = jk(jk(lo.kind, hi.kind), st.kind)
        kind = "i" if kind == "b" else kind
        if kind == "i" and st.const() == 1:
            n = psub(hi.poly(), lo.poly())
        else:
            n = pneg(p_floor(pneg(pdiv(psub(hi.poly(), lo.poly()), st.poly()))))
        if not E().decide(bge(n, ZERO)):
            n = ZERO
        d = as_dt(dtype) or DEFAULT[kind]
        return T.of(lambda i: conv_kind(lo + st * S("i", i[0]), d.kind), [n], d, lib)
    return f


def imeshgrid(*ts, indexing="ij"):
    if len(ts) == 1 and isinstance(ts[0], (nb.list, tuple)):
        ts = tuple(ts[0])
    ts = [A(t) for t in ts]
    ts = [t if t.shp else t[None] for t in ts]
    ns = [t.shp[0] for t in ts]
    out = []
    for j, t in enumerate(ts):
        rd = t.reader()
        if indexing == "ij":
            out.append(T.of((lambda rd, j: lambda i: rd((i[j],)))(rd, j), ns, t.dt, t.lib))
        else:
            raise Unsupported("meshgrid indexing xy")
    return tuple(out)


_rc = [0]


def rnd(name, lo=None, hi=None):
    def f(*shape, dtype=None, device=None, requires_grad=False, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, nb.list)):
            shape = tuple(shape[0])
        if dtype is not None and as_dt(dtype).kind == "c":
            return icomplex(random_T(name, list(shape), lo, hi), random_T(name, list(shape), lo, hi))
        return random_T(name, list(shape), lo, hi)
    return f


def random_T(name, shape, lo=None, hi=None):
    nm = E().fresh_name("rnd_" + name)
    lv = list(E().loopvars)
    if name == "rand":
        from . import zsolve
        zsolve.DOM[nm] = lambda x: [bge(x, ZERO), blt(x, ONE)]
    return T.of(lambda i: S("r", app(nm, lv + list(i), "r")), shape, float64)


def icomplex(a, b):
    return binop(A(a), A(b), lambda x, y: S("c", (x.poly(), y.poly())), "c") if False else _cx(A(a), A(b))


def _cx(a, b):
    shp, ma, mb = bshapes(a.shp, b.shp)
    ra, rb = a.reader(), b.reader()
    dt = complex128 if nb.max(a.dt.prec, b.dt.prec) == 2 else complex64
    return T.of(lambda i: S("c", (ra(ma(i)).poly(), rb(mb(i)).poly())), shp, dt, a.lib)


def ipad(t, pad, mode="constant", value=0):
    if mode != "constant":
        raise Unsupported("pad mode")
    pad = list(pad)
    n = len(t.shp)
    rd = t.reader()
    spec = []
    for j in range(n):
        q = n - 1 - j
        if 2 * q + 1 < len(pad):
            spec.append((dimP(pad[2 * q]), dimP(pad[2 * q + 1])))
        else:
            spec.append((ZERO, ZERO))
    shp = [padd(padd(d, a), b) for d, (a, b) in zip(t.shp, spec)]
    z = conv_kind(lift(value), t.dt.kind)

    def fn(i):
        c, out = TRUE, []
        for x, d, (a, b) in zip(i, t.shp, spec):
            y = psub(x, a)
            if a.t or b.t:
                c = band(c, bge(y, ZERO), blt(y, d))
            out.append(y)
        return s_ite(c, rd(tuple(out)), z)
    return T.of(fn, shp, t.dt, t.lib)


def ibroadcast_to(t, shp):
    return expand(t, tuple(shp))


def ibroadcast_tensors(*ts):
    shp = []
    for t in ts:
        shp = bshapes(shp, t.shp)[0]
    return SList([expand(t, [dimS(x) for x in shp]) for t in ts])


def idiv(a, b, rounding_mode=None):
    if rounding_mode == "floor":
        return a // b
    if rounding_mode is not None:
        raise Unsupported("rounding mode")
    return a / b


def as_type(t, dt=None, **k):
    d = as_dt(dt)
    return t.copy(dt=d)


def m_to(t, *a, **k):
    d = None
    for x in list(a) + [k.get("dtype")]:
        if isinstance(x, DT):
            d = x
        elif x is not None and TYPE_OF_BUILTIN(x):
            d = as_dt(x)
    if d is None or d is t.dt:
        return t
    return t.copy(dt=d)


def m_type(t, dt=None):
    if dt is None:
        return "torch.DoubleTensor"
    return t.copy(dt=as_dt(dt))


def m_view(t, *s):
    if len(s) == 1 and isinstance(s[0], DT):
        raise Unsupported("view as dtype")
    return reshape(t, s)


def m_numpy(t, **k):
    r = T(t.sto, t.shp, t.dt, "numpy", t.fwd, t.inv, t.part)
    r.nanp = t.nanp
    return r


def m_tolist(t):
    if not t.shp:
        return t.at(())
    n = t.shp[0]
    c = t.copy()
    if n.const() is not None:
        return SList([m_tolist(c[j]) for j in range(int(n.const()))])
    r = SList()
    if E().decide(ble(n, ZERO)):
        return r
    r.segs = [("s", n, lambda j: m_tolist(c[dimS(j)]))]
    return r


def m_iter_mean(t, *a, **k):
    return imean(t, *a, **k)


def m_max(t, *a, **k):
    return imax(t, *a, **k)


def m_pow(t, e):
    return t ** e


def m_var(t, *a, **k):
    raise Unsupported("variance")


def m_uniform_(t, lo=0, hi=1):
    return t.fill_random("uniform")


def m_fill_random(t, name):
    r = random_T(name, [dimS(x) for x in t.shp])
    t.assign(r)
    return t


def m_backward(t, *a, **k):
    h = E().hooks.get("backward")
    if h:
        h(t)
    return None


def m_clone(t, **k):
    return t.copy()


METHODS = dict(
    sum=isum, mean=imean, prod=iprod, min=imin, max=imax, argmin=iargmin, argmax=iargmax, all=iall, any=iany,
    sqrt=isqrt, exp=iexp, sin=isin, cos=icos, log10=ilog10, log=ilog, sigmoid=isigmoid, tanh=itanh, abs=iabs, square=isquare,
    conj=iconj, conjugate=iconj, sign=isign, clip=iclip, clamp=iclip, pow=m_pow, isnan=iisnan, round=iround, floor=ifloor, ceil=iceil,
    reshape=lambda t, *s: reshape(t, s), view=m_view, flatten=iflatten, ravel=iflatten, unsqueeze=iunsqueeze, squeeze=isqueeze,
    transpose=lambda t, *a: itranspose(t, *a), permute=lambda t, *d: permute(t, d[0] if len(d) == 1 and isinstance(d[0], (tuple, nb.list)) else d),
    t=lambda t: itranspose(t, 0, 1), expand=lambda t, *s: expand(t, s[0] if len(s) == 1 and isinstance(s[0], (tuple, nb.list)) else s),
    repeat=irepeat, repeat_interleave=irepeat_interleave, cumsum=icumsum, norm=inorm, dot=idot, mm=imm, mv=imv, matmul=imatmul, diag=idiag,
    cpu=lambda t: t, cuda=lambda t, *a: t, detach=lambda t: detach(t), clone=m_clone, copy=m_clone, contiguous=lambda t, **k: t, numpy=m_numpy,
    to=m_to, type=m_type, astype=as_type, double=lambda t: as_type(t, float64), float=lambda t: as_type(t, float32), long=lambda t: as_type(t, int64),
    int=lambda t: as_type(t, int64), bool=lambda t: as_type(t, bool_), tolist=m_tolist, uniform_=m_uniform_, fill_random=m_fill_random,
    requires_grad_=lambda t, *a: t, backward=m_backward, nonzero=inonzero, sort=isort, argsort=iargsort, flip=lambda t, *d: iflip(t, list(d[0]) if isinstance(d[0], (tuple, nb.list)) else list(d)),
    split=isplit, roll=iroll, logical_and=ilogical_and, logical_or=ilogical_or, logical_not=ilogical_not, var=m_var, std=m_var, outer=iouter,
    add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, div=lambda a, b, **k: idiv(a, b, **k), type_as=lambda t, o: t.copy(dt=o.dt),
    complex=lambda t, *a: t, is_complex=lambda t: t.dt.kind == "c", is_floating_point=lambda t: t.dt.kind == "r", element_size=lambda t: 8,
    swapaxes=lambda t, a, b: itranspose(t, a, b), new_zeros=lambda t, *s, **k: fill(0, t.dt, t.lib)(*s), inverse=lambda t: inverse(t), trace=itrace,
    select=lambda t, d, i: t[tuple([slice(None)] * ndim(d, len(t.shp)) + [i])], narrow=lambda t, d, a, n: t[tuple([slice(None)] * ndim(d, len(t.shp)) + [slice(a, a + n)])],
    index_select=lambda t, d, ix: t[tuple([slice(None)] * ndim(d, len(t.shp)) + [ix])], ne=lambda a, b: a != b, eq=lambda a, b: a == b, gt=lambda a, b: a > b, lt=lambda a, b: a < b,
    ge=lambda a, b: a >= b, le=lambda a, b: a <= b, sub_=lambda a, b: a.sub_(b), minimum=iminimum, maximum=imaximum, neg=lambda t: -t,
    get_device=lambda t: -1, item_=lambda t: t.item(),
)


def detach(t):
    r = T(t.sto, t.shp, t.dt, t.lib, t.fwd, t.inv, t.part)
    r.nanp, r.mx = t.nanp, t.mx
    return r


def inverse(t):
    """matrix inverse: opaque, with its two defining equations used symbolically by the matrix contracts"""
    from . import ncpoly
    return ncpoly.inverse(t)
