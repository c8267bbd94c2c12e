"""Symbolic n-dimensional arrays (stand-in for torch.Tensor / numpy.ndarray).

An array is a storage (a function from index tuples to symbolic scalars, replaced on every write, with the old
one on the undo trail) seen through a view (forward / inverse index maps).  Dimensions are polynomials, so one
run of the code covers every size.  Element values are mathematical reals / integers / complex pairs."""
from .sym import *
from .sym import _nk
from . import sym
from .terms import *


class DT:
    def __init__(self, name, kind, prec):
        self.name, self.kind, self.prec = name, kind, prec

    def __repr__(self):
        return "torch." + self.name

    @property
    def is_complex(self):
        return self.kind == "c"

    @property
    def is_floating_point(self):
        return self.kind == "r"


float16 = DT("float16", "r", 0)
float32 = DT("float32", "r", 1)
float64 = DT("float64", "r", 2)
complex64 = DT("complex64", "c", 1)
complex128 = DT("complex128", "c", 2)
int32 = DT("int32", "i", 1)
int64 = DT("int64", "i", 2)
int8 = DT("int8", "i", 0)
uint8 = DT("uint8", "i", 0)
bool_ = DT("bool", "b", 2)

DEFAULT = {"r": float64, "c": complex128, "i": int64, "b": bool_}


def as_dt(d):
    if d is None or isinstance(d, DT):
        return d
    from .builtins_ import TYPE_OF_BUILTIN
    t = TYPE_OF_BUILTIN(d)
    if t is not None:
        return DEFAULT[t]
    n = getattr(d, "dt", None)
    if isinstance(n, DT):
        return n
    raise Unsupported("dtype %r" % (d,))


def promote(a, b, wa=True, wb=True):
    """dtype of an operation; w*: operand is a (dimensioned) tensor, so its precision counts"""
    o = "birc"
    ka, kb = o.index(a.kind), o.index(b.kind)
    k = o[max(ka, kb)]
    if a.kind == b.kind:
        if wa == wb:
            return a if a.prec >= b.prec else b
        return a if wa else b
    hi, lo, whi, wlo = (a, b, wa, wb) if ka > kb else (b, a, wb, wa)
    if hi.kind == "c" and lo.kind == "r" and wlo and lo.prec > hi.prec:
        return complex128
    if hi.kind == "c" and lo.kind == "r" and not whi and wlo:
        return complex128 if lo.prec == 2 else complex64
    return hi


class Sto:
    __slots__ = ("fn", "memo", "kind", "name", "serial")

    def __init__(self, fn, kind):
        self.fn = fn
        self.memo = sym.Memo()
        self.kind = kind
        self.name = None
        sym.SERIAL[0] += 1
        self.serial = sym.SERIAL[0]

    def get(self, idx):
        return self.memo.get(idx, self.fn)

    def set(self, fn, kind=None):
        e = E()
        old = (self.fn, self.memo, self.kind)

        def undo(self=self, old=old):
            self.fn, self.memo, self.kind = old
        e.log(undo)
        e.touched((("sto", id(self)), self))
        self.fn, self.memo = fn, sym.Memo()
        if kind:
            self.kind = kind

    def snapshot(self):
        """an immutable accessor for the present contents"""
        fn, memo = self.fn, self.memo

        return lambda idx: memo.get(idx, fn)


def conv_kind(s, k):
    if s.kind == k:
        return s
    if k == "b":
        return S("b", s.as_bool())
    if k == "c":
        return S("c", s.cplx())
    if s.kind == "c":
        s = S("r", s.v[0])
    if k == "i":
        return S("i", p_trunc(s.poly()) if s.kind == "r" else s.poly())
    return S("r", s.poly())


class Size(tuple):
    def numel(self):
        r = 1
        for x in self:
            r = r * x
        return r


def mkshape(sh):
    return [dimP(x) for x in sh]


def ident(idx):
    return idx


def inv_ident(sidx):
    return TRUE, sidx


_uid = [0]


class T:
    sym_tensor = True
    is_param = False
    __array_priority__ = 2000

    def __init__(self, sto, shape, dt, lib="torch", fwd=ident, inv=inv_ident, part=None, base=None):
        self.sto = sto
        self.shp = list(shape)
        self.dt = dt
        self.lib = lib
        self.fwd = fwd
        self.inv = inv
        self.part = part
        self.requires_grad = False
        self.nanp = None
        self.mx = None
        self.grad = None

    # ------------------------------------------------------------ construction
    @staticmethod
    def of(fn, shape, dt, lib="torch"):
        if isinstance(dt, str):
            dt = DEFAULT[dt]
        return T(Sto(fn, dt.kind), mkshape(shape), dt, lib)

    @property
    def kind(self):
        return self.dt.kind

    # ------------------------------------------------------------ reading
    def at(self, idx):
        """element (S) at an index tuple of Polys"""
        s = self.sto.get(self.fwd(tuple(idx)))
        if self.part == "re":
            s = S("r", s.cplx()[0])
        elif self.part == "im":
            s = S("r", s.cplx()[1])
        return s if s.kind == self.dt.kind else conv_kind(s, self.dt.kind)

    def reader(self):
        """pure accessor of the present value"""
        get, fwd, part, k = self.sto.snapshot(), self.fwd, self.part, self.dt.kind

        def rd(idx):
            s = get(fwd(tuple(idx)))
            if part == "re":
                s = S("r", s.cplx()[0])
            elif part == "im":
                s = S("r", s.cplx()[1])
            return s if s.kind == k else conv_kind(s, k)
        return rd

    def copy(self, lib=None, dt=None):
        rd = self.reader()
        dt = dt or self.dt
        k = dt.kind
        t = T.of((lambda i: conv_kind(rd(i), k)) if k != self.dt.kind else rd, self.shp, dt, lib or self.lib)
        if k == self.dt.kind:
            t.nanp = self.nanp
        if k == self.dt.kind or k == "c" and self.dt.kind in "ri":
            t.mx = self.mx
        return t

    # ------------------------------------------------------------ writing
    def write(self, cond, val):
        """self[idx] = val(idx) wherever cond(idx)"""
        old = self.sto.snapshot()
        inv, part, kind = self.inv, self.part, self.sto.kind
        if inv is None:
            raise Unsupported("write through a non-writable view")

        def fn(sidx):
            c, idx = inv(sidx)
            if c is not FALSE:
                c = band(c, cond(idx)) if cond is not None else c
            o = old(sidx)
            if c is FALSE:
                return o
            v = val(idx)
            if part:
                re, im = o.cplx()
                nv = conv_kind(v, "r").v
                v = S("c", (nv, im) if part == "re" else (re, nv))
            else:
                v = conv_kind(v, kind)
            return s_ite(c, v, conv_kind(o, kind))
        self.sto.set(fn)
        self.nanp = None
        self.mx = None

    def assign(self, value):
        """self[...] = value (broadcast)"""
        rd = bcast_reader(value, self.shp)
        self.write(None, rd)

    # ------------------------------------------------------------ shape
    @property
    def shape(self):
        return Size(dimS(p) for p in self.shp)

    def size(self, d=None):
        if self.lib == "numpy":
            raise TypeError("'int' object is not callable")
        if d is None:
            return self.shape
        return self.shape[d]

    @property
    def ndim(self):
        return len(self.shp)

    def dim(self):
        return len(self.shp)

    def numel(self):
        p = ONE
        for x in self.shp:
            p = pmul(p, x)
        return dimS(p)

    nelement = numel

    @property
    def dtype(self):
        return self.dt

    @property
    def device(self):
        return "cpu"

    @property
    def is_cuda(self):
        return False

    def sym_scalar(self):
        if self.shp:
            p = ONE
            for x in self.shp:
                p = pmul(p, x)
            if p.const() != 1 and not (E().decide(beq(p, ONE))):
                raise (ValueError if self.lib == "torch" else TypeError)("only one element tensors can be converted to Python scalars")
            return self.at([ZERO] * len(self.shp))
        return self.at(())

    def item(self):
        s = self.sym_scalar()
        return s

    def __bool__(self):
        if self.shp:
            p = ONE
            for x in self.shp:
                p = pmul(p, x)
            if p.const() != 1 and not E().decide(beq(p, ONE)):
                raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return E().decide(self.sym_scalar().as_bool())

    def __float__(self):
        return float(self.sym_scalar())

    def __int__(self):
        return int(conv_kind(self.sym_scalar(), "i"))

    def __index__(self):
        return self.sym_scalar().__index__()

    def __complex__(self):
        return complex(self.sym_scalar())

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "<T %s %s>" % (self.dt.name, list(self.shp))

    def __format__(self, spec):
        return "<sym>"

    def __len__(self):
        if not self.shp:
            raise TypeError("len() of a 0-d tensor")
        c = self.shp[0].const()
        if c is None:
            raise Unsupported("native len() of a symbolic dimension")
        return int(c)

    def sym_len(self):
        if not self.shp:
            raise TypeError("len() of a 0-d tensor")
        return dimS(self.shp[0])

    def sym_item(self, k):
        return self[dimS(k)]

    def __iter__(self):
        if not self.shp:
            raise TypeError("iteration over a 0-d tensor")
        n = self.shp[0].const()
        if n is None:
            raise Unsupported("native iteration over a symbolic dimension")
        return iter([self[i] for i in range(int(n))])

    # ------------------------------------------------------------ elementwise
    def _bin(self, o, f, refl=False, kind=None):
        if isinstance(o, (T, S, int, float, complex, Fr)):
            return binop(o, self, f, kind) if refl else binop(self, o, f, kind)
        if isinstance(o, MS):
            return NotImplemented
        if isinstance(o, (list, tuple)) and self.lib == "numpy":
            from .lib_common import to_array
            o = to_array(o, lib="numpy")
            return binop(o, self, f, kind) if refl else binop(self, o, f, kind)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, s_add)

    def __radd__(self, o):
        return self._bin(o, s_add, True)

    def __sub__(self, o):
        return self._bin(o, s_sub)

    def __rsub__(self, o):
        return self._bin(o, s_sub, True)

    def __mul__(self, o):
        return self._bin(o, s_mul)

    def __rmul__(self, o):
        return self._bin(o, s_mul, True)

    def __truediv__(self, o):
        return self._bin(o, s_div_total, kind="div")

    def __rtruediv__(self, o):
        return self._bin(o, s_div_total, True, kind="div")

    def __pow__(self, o):
        return self._bin(o, t_pow)

    def __rpow__(self, o):
        return self._bin(o, t_pow, True)

    def __floordiv__(self, o):
        return self._bin(o, t_floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, t_floordiv, True)

    def __mod__(self, o):
        return self._bin(o, t_mod)

    def __rmod__(self, o):
        return self._bin(o, t_mod, True)

    def __matmul__(self, o):
        from .lib_common import matmul
        return matmul(self, o)

    def __neg__(self):
        r = unop(self, lambda s: -s)
        if self.mx is not None:
            from . import ncpoly
            r.mx = ncpoly.negate(self.mx)
        return r

    def __pos__(self):
        return self

    def __abs__(self):
        return t_abs(self)

    def __invert__(self):
        return unop(self, lambda s: ~s)

    def __and__(self, o):
        return self._bin(o, lambda a, b: S("b", band(a.as_bool(), b.as_bool())), kind="b")

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: S("b", bor(a.as_bool(), b.as_bool())), kind="b")

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: S("b", bnot(biff(a.as_bool(), b.as_bool()))), kind="b")

    def __lt__(self, o):
        return self._bin(o, lambda a, b: S("b", blt(a.poly(), b.poly())), kind="b")

    def __le__(self, o):
        return self._bin(o, lambda a, b: S("b", ble(a.poly(), b.poly())), kind="b")

    def __gt__(self, o):
        return self._bin(o, lambda a, b: S("b", bgt(a.poly(), b.poly())), kind="b")

    def __ge__(self, o):
        return self._bin(o, lambda a, b: S("b", bge(a.poly(), b.poly())), kind="b")

    def __eq__(self, o):
        if not isinstance(o, (T, S, int, float, complex, Fr)):
            return False
        return self._bin(o, lambda a, b: S("b", s_eqb(a, b)), kind="b")

    def __ne__(self, o):
        if not isinstance(o, (T, S, int, float, complex, Fr)):
            return True
        return self._bin(o, lambda a, b: S("b", bnot(s_eqb(a, b))), kind="b")

    # in place
    def _iop(self, o, f):
        if self.lib == "torch" and self.kind == "i":
            pass
        a = self.reader()
        mx = getattr(self, "mx", None)
        if not isinstance(o, (T, S, int, float, complex, Fr)):
            return NotImplemented
        b = bcast_reader(o, self.shp)
        k = self.dt.kind
        ok = o.dt.kind if isinstance(o, T) else lift(o).kind
        if "birc".index(ok) > "birc".index(k) and not self.part:
            raise RuntimeError("result type %s can't be cast to the desired output type %s" % (ok, k))
        self.write(None, lambda i: conv_kind(f(a(i), b(i)), k))
        return self

    def __iadd__(self, o):
        return self._iop(o, s_add)

    def __isub__(self, o):
        return self._iop(o, s_sub)

    def __imul__(self, o):
        return self._iop(o, s_mul)

    def __itruediv__(self, o):
        return self._iop(o, s_div_total)

    def __ipow__(self, o):
        return self._iop(o, t_pow)

    def __iand__(self, o):
        return self._iop(o, lambda a, b: S("b", band(a.as_bool(), b.as_bool())))

    def __ior__(self, o):
        return self._iop(o, lambda a, b: S("b", bor(a.as_bool(), b.as_bool())))

    def add_(self, o):
        return self._iop(o, s_add)

    def sub_(self, o):
        return self._iop(o, s_sub)

    def mul_(self, o):
        return self._iop(o, s_mul)

    def div_(self, o):
        return self._iop(o, s_div_total)

    def zero_(self):
        self.assign(0)
        return self

    def fill_(self, v):
        self.assign(v)
        return self

    def copy_(self, o):
        self.assign(o)
        return self

    # ------------------------------------------------------------ complex parts
    @property
    def real(self):
        if self.dt.kind != "c":
            return self
        p = float64 if self.dt.prec == 2 else float32
        return T(self.sto, self.shp, p, self.lib, self.fwd, self.inv, "re")

    @real.setter
    def real(self, v):
        if self.dt.kind != "c":
            self.assign(v)
        else:
            self.real.assign(v)

    @property
    def imag(self):
        if self.dt.kind != "c":
            if self.lib == "torch":
                raise RuntimeError("imag is not implemented for tensors with non-complex dtypes.")
            return unop(self, lambda s: S(self.dt.kind, ZERO))
        p = float64 if self.dt.prec == 2 else float32
        return T(self.sto, self.shp, p, self.lib, self.fwd, self.inv, "im")

    @imag.setter
    def imag(self, v):
        self.imag.assign(v)

    @property
    def data(self):
        return self

    @data.setter
    def data(self, v):
        self.assign(v)

    # ------------------------------------------------------------ indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, v):
        setitem(self, key, v)

    # ------------------------------------------------------------ misc methods (delegates)
    def __getattr__(self, name):
        from .lib_common import METHODS
        if name.startswith("__"):
            raise AttributeError(name)
        f = METHODS.get(name)
        if f is None:
            raise Unsupported("tensor method %s" % name)
        E().lib("Tensor." + name if self.lib == "torch" else "ndarray." + name)
        return lambda *a, **k: f(self, *a, **k)


class MS:
    """elements selected by a boolean mask (value known only per element, same mask needed to write it back)"""
    sym_masked = True

    def __init__(self, mask, full):
        self.mask, self.full = mask, full

    def _w(self, r):
        return MS(self.mask, r)

    def _b(self, o, f):
        if isinstance(o, MS):
            if o.mask is not self.mask:
                raise Unsupported("mixing different masks")
            o = o.full
        return MS(self.mask, f(self.full, o))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._b(o, lambda a, b: b + a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._b(o, lambda a, b: b * a)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: b / a)

    def __neg__(self):
        return self._w(-self.full)

    def __lt__(self, o):
        return self._b(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._b(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._b(o, lambda a, b: a >= b)

    def __le__(self, o):
        return self._b(o, lambda a, b: a <= b)

    @property
    def real(self):
        return self._w(self.full.real)

    @property
    def imag(self):
        return self._w(self.full.imag)

    def __getattr__(self, name):
        if name in ("sign", "abs", "clip", "clamp", "sqrt", "clone", "exp", "square", "pow"):
            return lambda *a, **k: self._w(getattr(self.full, name)(*a, **k))
        raise Unsupported("method %s of a masked selection" % name)


def t_pow(a, b):
    return s_pow(a, b, True)


def t_floordiv(a, b):
    if a.kind in "ib" and b.kind in "ib":
        c = b.const()
        if c is not None and c > 0:
            return S("i", p_idiv(a.poly(), b.poly()))
        if sym.entails_here(bgt(b.poly(), ZERO), 1.0):
            return S("i", p_idiv(a.poly(), b.poly()))
        raise Unsupported("elementwise integer division by a possibly negative value")
    return S("r", p_floor(pdiv(a.poly(), b.poly())))


def t_mod(a, b):
    if a.kind in "ib" and b.kind in "ib":
        if sym.entails_here(bgt(b.poly(), ZERO), 1.0):
            return S("i", p_mod(a.poly(), b.poly()))
        raise Unsupported("elementwise modulo by a possibly negative value")
    q = b.poly()
    return S("r", psub(a.poly(), pmul(q, p_floor(pdiv(a.poly(), q)))))


def t_abs(x):
    if isinstance(x, MS):
        return x._w(t_abs(x.full))
    k = x.dt
    if x.dt.kind == "c":
        k = float64 if x.dt.prec == 2 else float32
    return unop(x, s_abs, k)


# ------------------------------------------------------------------ broadcasting
def dims_join(a, b):
    """broadcast of two dimensions -> (result, a_is_one, b_is_one)"""
    if a is b:
        return a, False, False
    ca, cb = a.const(), b.const()
    if ca == 1:
        return b, True, False
    if cb == 1:
        return a, False, True
    if ca is not None and cb is not None:
        raise RuntimeError("The size of tensor a (%s) must match the size of tensor b (%s)" % (ca, cb))
    e = E()
    if e.decide(beq(a, b)):
        return a, False, False
    if e.decide(beq(a, ONE)):
        return b, True, False
    if e.decide(beq(b, ONE)):
        return a, False, True
    raise RuntimeError("The size of the tensors must match")


def bshapes(s1, s2):
    """-> (shape, map1, map2): map(idx) -> index into operand"""
    n = max(len(s1), len(s2))
    out, m1, m2 = [], [], []
    for i in range(n):
        j1, j2 = i - (n - len(s1)), i - (n - len(s2))
        if j1 < 0:
            out.append(s2[j2]); m1.append(None); m2.append(True)
        elif j2 < 0:
            out.append(s1[j1]); m1.append(True); m2.append(None)
        else:
            d, o1, o2 = dims_join(s1[j1], s2[j2])
            out.append(d); m1.append(not o1); m2.append(not o2)

    def mk(m):
        if all(x is True for x in m):
            return ident

        def f(idx):
            return tuple(ix if k else ZERO for ix, k in zip(idx, m) if k is not None)
        return f
    return out, mk(m1), mk(m2)


def bcast_reader(v, shp):
    """reader giving v broadcast to shape shp (v: T, S, number); shapes must be compatible"""
    if isinstance(v, T):
        vs = list(v.shp)
        rd = v.reader()
        while len(vs) > len(shp):
            if vs[0].const() == 1 or E().decide(beq(vs[0], ONE)):
                vs = vs[1:]
                rd = (lambda r: lambda i: r((ZERO,) + tuple(i)))(rd)
            else:
                raise RuntimeError("output with shape doesn't match the broadcast shape")
        m = []
        off = len(shp) - len(vs)
        for k, d in enumerate(vs):
            t = shp[off + k]
            if d is t:
                m.append(True)
            elif d.const() == 1:
                m.append(False)
            elif d.const() is not None and t.const() is not None:
                raise RuntimeError("The expanded size of the tensor (%s) must match the existing size (%s)" % (t.const(), d.const()))
            elif E().decide(beq(d, t)):
                m.append(True)
            elif E().decide(beq(d, ONE)):
                m.append(False)
            else:
                raise RuntimeError("The expanded size of the tensor must match the existing size")
        return lambda idx: rd(tuple(ix if k else ZERO for ix, k in zip(idx[off:], m)))
    if hasattr(v, "sym_masked"):
        raise Unsupported("masked value")
    if isinstance(v, (list, tuple)):
        from .lib_common import to_array
        return bcast_reader(to_array(v), shp)
    s = lift(v)
    return lambda idx: s


def dt_of(x):
    if isinstance(x, T):
        return x.dt
    return DEFAULT[lift(x).kind]


def binop(a, b, f, kind=None):
    la = isinstance(a, T)
    lb = isinstance(b, T)
    lib = a.lib if la else b.lib
    if la and lb and a.lib != b.lib:
        lib = "torch" if "torch" in (a.lib, b.lib) else lib
    da, db = dt_of(a), dt_of(b)
    if kind == "b":
        dt = bool_
    else:
        dt = promote(da, db, la and bool(a.shp), lb and bool(b.shp))
        if not la and not lb:
            pass
        if kind == "div" and dt.kind in "ib":
            dt = float64
        if f is t_pow and dt.kind == "i" and lb and False:
            pass
        if dt.kind == "b":
            dt = int64 if kind is None else dt
    sa = a.shp if la else []
    sb = b.shp if lb else []
    shp, ma, mb = bshapes(sa, sb)
    ra = a.reader() if la else (lambda s: (lambda i: s))(lift(a))
    rb = b.reader() if lb else (lambda s: (lambda i: s))(lift(b))
    k = dt.kind
    r = T.of(lambda i: conv_kind(f(ra(ma(i)), rb(mb(i))), k), shp, dt, lib)
    mxop(r, a, b, f)
    return r


def mxop(r, a, b, f):
    """carry the symbolic matrix polynomial through + - and scalar *"""
    ma, mb = getattr(a, "mx", None), getattr(b, "mx", None)
    if ma is None and mb is None:
        return
    from . import ncpoly
    ncpoly.elementwise(r, a, b, f)


def unop(a, f, dt=None):
    if isinstance(a, MS):
        return a._w(unop(a.full, f, dt))
    rd = a.reader()
    dt = dt or a.dt
    k = dt.kind
    r = T.of(lambda i: conv_kind(f(rd(i)), k), a.shp, dt, a.lib)
    return r


# ------------------------------------------------------------------ indexing
def norm_index(i, n):
    """a single integer index on a dimension of size n -> Poly"""
    e = E()
    p = dimP(i)
    c = p.const()
    if c is not None and c < 0:
        q = padd(p, n)
        if not e.decide(bge(q, ZERO)):
            raise IndexError("index out of range")
        return q
    if c is None:
        if e.decide(blt(p, ZERO)):
            p = padd(p, n)
            if not e.decide(bge(p, ZERO)):
                raise IndexError("index out of range")
            return p
    if not e.decide(blt(p, n)):
        raise IndexError("index out of range")
    return p


def slice_bounds(s, n):
    """-> (start, length, step) of a slice on a dimension of size n"""
    e = E()
    st = s.step
    if st is not None:
        st = lift(st).const() if not isinstance(st, int) else st
        if st is None:
            raise Unsupported("symbolic slice step")
        st = int(st)
    st = 1 if st is None else st
    if st == 0:
        raise ValueError("slice step cannot be zero")

    def clamp(x, lo, hi):
        p = dimP(x)
        c = p.const()
        if (c is not None and c < 0) or (c is None and e.decide(blt(p, ZERO))):
            p = padd(p, n)
            return p if e.decide(bge(p, lo)) else lo
        return p if e.decide(ble(p, hi)) else hi
    if st > 0:
        a = ZERO if s.start is None else clamp(s.start, ZERO, n)
        b = n if s.stop is None else clamp(s.stop, ZERO, n)
        d = psub(b, a)
        if not e.decide(bge(d, ZERO)):
            d = ZERO
        if st > 1:
            d = p_idiv(padd(d, num(st - 1)), num(st))
        return a, d, st
    if s.start is None and s.stop is None and st == -1:
        return psub(n, ONE), n, -1
    raise Unsupported("negative slice step")


def expand_key(t, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, T) and k.dt.kind == "b":
            used += len(k.shp)
        else:
            used += 1
    if Ellipsis in [k for k in key if k is Ellipsis]:
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[i:i + 1] = [slice(None)] * (len(t.shp) - used)
    else:
        key += [slice(None)] * (len(t.shp) - used)
    if used > len(t.shp):
        raise IndexError("too many indices for tensor of dimension %d" % len(t.shp))
    return key


def is_adv(k):
    if isinstance(k, T):
        return bool(k.shp)
    return isinstance(k, (list, range)) or hasattr(k, "sym_len")


def view_of(t, key):
    """basic indexing -> view"""
    shp, steps = [], []
    d = 0
    for k in key:
        if k is None:
            shp.append(ONE)
            steps.append(("new",))
            continue
        n = t.shp[d]
        if isinstance(k, slice):
            a, ln, st = slice_bounds(k, n)
            shp.append(ln)
            steps.append(("sl", a, ln, st))
        else:
            if isinstance(k, T) or isinstance(k, S) or hasattr(k, "__index__"):
                p = norm_index(k.sym_scalar() if isinstance(k, T) else k, n)
            else:
                raise IndexError("unsupported index %r" % (k,))
            steps.append(("ix", p))
        d += 1
    if all(s[0] == "sl" and not s[1].t and s[3] == 1 and s[2] is n for s, n in zip(steps, t.shp)) and len(steps) == len(t.shp):
        r = T(t.sto, t.shp, t.dt, t.lib, t.fwd, t.inv, t.part)
        r.nanp, r.mx = t.nanp, t.mx
        return r
    of, oi = t.fwd, t.inv

    def fwd(idx):
        out, j = [], 0
        for s in steps:
            if s[0] == "new":
                j += 1
            elif s[0] == "ix":
                out.append(s[1])
            else:
                x = idx[j]
                j += 1
                out.append(padd(s[1], x if s[3] == 1 else pscale(x, s[3])))
        return of(tuple(out))

    def inv(sidx):
        c, idx = oi(sidx)
        out, j = [], 0
        for s in steps:
            if c is FALSE:
                return FALSE, ()
            if s[0] == "new":
                out.append(ZERO)
                continue
            x = idx[j]
            j += 1
            if s[0] == "ix":
                c = band(c, beq(x, s[1]))
            else:
                y = psub(x, s[1])
                if s[3] == 1:
                    c = band(c, bge(y, ZERO), blt(y, s[2]))
                elif s[3] == -1:
                    y = pneg(y)
                    c = band(c, bge(y, ZERO), blt(y, s[2]))
                else:
                    c = band(c, beq(p_mod(y, num(s[3])), ZERO))
                    y = p_idiv(y, num(s[3]))
                    c = band(c, bge(y, ZERO), blt(y, s[2]))
                out.append(y)
        return c, tuple(out)
    r = T(t.sto, shp, t.dt, t.lib, fwd, inv if oi is not None else None, t.part)
    if t.nanp is not None:
        r.nanp = t.nanp
    return r


def as_index_array(k):
    if isinstance(k, T):
        return k
    from .lib_common import to_array
    return to_array(k, lib="torch", dt=int64)


def getitem(t, key):
    if isinstance(key, list) and key and any(isinstance(x, slice) for x in key):
        key = tuple(key)
    if isinstance(key, MS) or (isinstance(key, tuple) and any(isinstance(k, MS) for k in key)):
        raise Unsupported("index by masked selection")
    key = mask_first(key)
    if isinstance(key, T) and key.dt.kind == "b":
        if not key.shp:
            raise Unsupported("0-d mask")
        if len(key.shp) == len(t.shp):
            check_same_shape(key, t)
            return MS(key, t.copy())
        raise Unsupported("partial mask read")
    key = expand_key(t, key)
    if any(isinstance(k, T) and k.dt.kind == "b" and k.shp for k in key):
        raise Unsupported("mask inside an index tuple")
    if not any(is_adv(k) for k in key):
        r = view_of(t, key)
        if t.lib == "numpy" and not r.shp:
            return r.at(())
        return r
    # advanced indexing: first apply the basic part with full slices in place of advanced positions
    basic, adv = [], []
    for k in key:
        if is_adv(k):
            adv.append(as_index_array(k))
            basic.append(slice(None))
        else:
            basic.append(k)
    # integer indices count as advanced when mixed; results are the same up to dimension placement
    pos, out_d = [], 0
    tags = []
    for k in key:
        if k is None or isinstance(k, slice):
            tags.append("b")
        elif is_adv(k):
            tags.append("a")
        else:
            tags.append("i")
    if "i" in tags and "a" in tags:
        # integers broadcast with the advanced indices
        for q, k in enumerate(key):
            if tags[q] == "i":
                tags[q] = "a"
        key2 = [k if tg == "b" else as_index_array(k if is_adv(k) else [k.sym_scalar() if isinstance(k, T) else k]) for k, tg in zip(key, tags)]
        basic = [k if tg == "b" else slice(None) for k, tg in zip(key, tags)]
        adv = [k for k, tg in zip(key2, tags) if tg == "a"]
        sc = [not is_adv(k) for k, tg in zip(key, tags) if tg == "a"]
        adv = [a if not s else a[0] for a, s in zip(adv, sc)]
    v = view_of(t, basic)
    apos = [q for q, tg in enumerate([tg for tg in tags]) if tg == "a"]
    # positions in the view's dimensions coincide with positions in key (None/slice/adv each give one dim)
    shp = []
    for a in adv:
        shp = bshapes(shp, a.shp)[0]
    maps = [bshapes(shp, a.shp)[2] for a in adv]
    rds = [wrap_neg(a, v.shp[p]) for a, p in zip(adv, apos)]
    contiguous = apos == list(range(apos[0], apos[0] + len(apos)))
    place = apos[0] if contiguous else 0
    rest = [q for q in range(len(v.shp)) if q not in apos]
    nb = len([q for q in rest if q < place])
    na = len(shp)
    rshape = [v.shp[q] for q in rest[:nb]] + list(shp) + [v.shp[q] for q in rest[nb:]]
    rv = v.reader()

    def fn(idx):
        ai = idx[nb:nb + na]
        bi = idx[:nb] + idx[nb + na:]
        full = [None] * len(v.shp)
        for q, x in zip(rest, bi):
            full[q] = x
        for p, rd, m in zip(apos, rds, maps):
            full[p] = rd(m(ai))
        return rv(tuple(full))
    r = T.of(fn, rshape, v.dt, t.lib)
    return r


def wrap_neg(a, n):
    """reader of index array values with negative wrap; indices are checked / assumed to be in range"""
    rd = a.reader()
    e = E()
    vs = [fresh_tmp() for _ in a.shp]
    rng = []
    for v, d in zip(vs, a.shp):
        rng += [bge(v, ZERO), blt(v, d)]
    x = rd(tuple(vs)).poly()
    nonneg = e.prover.entails(e.pc + rng, bge(x, ZERO), 1.0)
    if not (nonneg and e.prover.entails(e.pc + rng, blt(x, n), 1.0)):
        # in-range is a fact the code relies on: fork on it
        body = band(bge(x, pneg(n)), blt(x, n))
        if e.prover.prove(e.pc + rng, body, 4.0)[0] != "proved":
          for v, d in reversed(list(zip(vs, a.shp))):
            body = forall(v, d, body)
          if not e.decide(body):
            raise IndexError("index out of range")
    if nonneg:
        return lambda i: rd(i).poly()

    def f(i):
        p = rd(i).poly()
        if p.const() is not None:
            return p if p.const() >= 0 else padd(p, n)
        return padd(p, pite(blt(p, ZERO), n, ZERO))
    return f


def check_same_shape(a, b):
    for x, y in zip(a.shp, b.shp):
        if x is y:
            continue
        if not E().decide(beq(x, y)):
            raise IndexError("The shape of the mask does not match the shape of the indexed tensor")


def mask_first(key):
    """t[mask, :, ...] is t[mask]"""
    if isinstance(key, tuple) and len(key) > 1 and isinstance(key[0], T) and key[0].dt.kind == "b" and key[0].shp:
        if all(k is Ellipsis or (isinstance(k, slice) and k == slice(None)) for k in key[1:]):
            return key[0]
    return key


def setitem(t, key, v):
    key = mask_first(key)
    if isinstance(key, T) and key.dt.kind == "b" and key.shp:
        m = key
        if len(m.shp) > len(t.shp):
            raise IndexError("too many indices for tensor")
        check_same_shape(m, t)
        mr = m.reader()
        nm = len(m.shp)
        if isinstance(v, MS):
            if v.mask is not m:
                # equal masks as functions?
                ix = tuple(fresh_tmp() for _ in m.shp)
                if v.mask.at(ix).as_bool() is not m.at(ix).as_bool():
                    raise Unsupported("masked write with a different mask")
            rd = v.full.reader()
            t.write(lambda i: mr(i[:nm]).as_bool(), rd)
            return
        trail = t.shp[nm:]
        if isinstance(v, T) and len(v.shp) > len(trail):
            if len(v.shp) == len(trail) + 1 and v.shp[0].const() == 1:
                v = v[0]
            else:
                raise Unsupported("masked write of a selected-length value")
        rd = bcast_reader(v, trail)
        t.write(lambda i: mr(i[:nm]).as_bool(), lambda i: rd(i[nm:]))
        return
    if isinstance(key, MS):
        raise Unsupported("masked index")
    key = expand_key(t, key)
    if any(is_adv(k) for k in key):
        adv = [as_index_array(k) for k in key if is_adv(k)]
        if any(isinstance(k, T) and k.dt.kind == "b" for k in key):
            raise Unsupported("mask inside an index tuple (write)")
        lens = [a.shp[0].const() if len(a.shp) == 1 else None for a in adv]
        if any(l is None for l in lens):
            return scatter(t, key, v)
        m = max(lens)
        # sequence of element writes
        if any(tg is None for tg in key):
            raise Unsupported("newaxis in advanced write")
        apos = [q for q, k in enumerate(key) if is_adv(k)]
        anyint = any(not is_adv(k) and not isinstance(k, slice) for k in key)
        for j in range(int(m)):
            kk = list(key)
            for q, a in zip(apos, adv):
                kk[q] = a[0 if a.shp[0].const() == 1 else j].sym_scalar()
            sub = view_of(t, kk)
            if isinstance(v, T) and len(v.shp) > len(sub.shp):
                contiguous = apos == list(range(apos[0], apos[0] + len(apos))) and not (anyint)
                place = apos[0] if contiguous else 0
                kx = [slice(None)] * len(v.shp)
                kx[place] = 0 if v.shp[place].const() == 1 else j
                val = v[tuple(kx)]
            else:
                val = v
            sub.assign(val)
        return
    sub = view_of(t, key)
    if isinstance(v, MS):
        raise Unsupported("masked value in plain assignment")
    sub.assign(v)


def scatter(t, key, v):
    raise Unsupported("write through a symbolic index array")


# ------------------------------------------------------------------ reshape
def flat_index(idx, shp):
    p = ZERO
    for i, n in zip(idx, shp):
        p = padd(pmul(p, n), i)
    return p


def unflatten(p, shp):
    """indices for a flat index (0 <= p < prod(shp))"""
    out = []
    for n in reversed(shp[1:]):
        if n.const() == 1:
            out.append(ZERO)
            continue
        q, r = p_divmod(p, n)
        out.append(r)
        p = q
    if shp:
        out.append(p)
    return tuple(reversed(out))


def p_divmod(p, n):
    d, r = mono_divmod(p, n)
    e = E()
    if d is not None:
        if not r.t:
            return d, ZERO
        if sym.entails_here(band(bge(r, ZERO), blt(r, n))):
            return d, r
    return p_idiv(p, n), p_mod(p, n)


def reshape(t, shp):
    if len(shp) == 1 and isinstance(shp[0], (tuple, list)):
        shp = list(shp[0])
    shp = [x.sym_scalar() if isinstance(x, T) else x for x in shp]
    tot = ONE
    for x in t.shp:
        tot = pmul(tot, x)
    ps, neg = [], None
    for i, x in enumerate(shp):
        if lift(x).const() == -1:
            neg = i
            ps.append(None)
        else:
            ps.append(dimP(x))
    if neg is not None:
        rest = ONE
        for p in ps:
            if p is not None:
                rest = pmul(rest, p)
        if rest.const() == 1:
            ps[neg] = tot
        else:
            d, r = mono_divmod(tot, rest)
            if d is not None and not r.t:
                ps[neg] = d
            else:
                q = p_idiv(tot, rest)
                if not E().decide(beq(pmul(q, rest), tot)):
                    raise RuntimeError("shape is invalid for input")
                ps[neg] = q
    else:
        new = ONE
        for p in ps:
            new = pmul(new, p)
        if new is not tot and not E().decide(beq(new, tot)):
            raise RuntimeError("shape is invalid for input")
    old = list(t.shp)
    if len(old) == len(ps) and all(a is b for a, b in zip(old, ps)):
        return view_of(t, [slice(None)] * len(old))
    # collapse of matching leading/trailing dims keeps the terms simple
    lead = 0
    while lead < min(len(old), len(ps)) and old[lead] is ps[lead]:
        lead += 1
    tail = 0
    while tail < min(len(old), len(ps)) - lead and old[-1 - tail] is ps[-1 - tail]:
        tail += 1
    om, nm = old[lead:len(old) - tail], ps[lead:len(ps) - tail]

    def remap(idx, src, dst):
        mid = idx[lead:len(idx) - tail] if tail else idx[lead:]
        end = idx[len(idx) - tail:] if tail else ()
        with sym.ranged(list(zip(mid, src))):
            m = unflatten(flat_index(mid, src), dst)
        return tuple(idx[:lead]) + tuple(m) + tuple(end)
    of, oi = t.fwd, t.inv
    fwd = lambda idx: of(remap(tuple(idx), nm, om))

    def inv(sidx):
        c, idx = oi(sidx)
        return c, remap(tuple(idx), om, nm)
    r = T(t.sto, ps, t.dt, t.lib, fwd, inv if oi is not None else None, t.part)
    return r


def permute(t, dims):
    dims = [int(lift(d).const()) % len(t.shp) for d in dims]
    if sorted(dims) != list(range(len(t.shp))):
        raise RuntimeError("permute(sparse_coo): number of dimensions in the tensor input does not match the desired ordering")
    of, oi = t.fwd, t.inv

    def fwd(idx):
        out = [None] * len(dims)
        for j, d in enumerate(dims):
            out[d] = idx[j]
        return of(tuple(out))

    def inv(sidx):
        c, idx = oi(sidx)
        if c is FALSE:
            return c, ()
        return c, tuple(idx[d] for d in dims)
    r = T(t.sto, [t.shp[d] for d in dims], t.dt, t.lib, fwd, inv if oi is not None else None, t.part)
    if t.mx is not None and dims == [1, 0]:
        from . import ncpoly
        r.mx = ncpoly.transpose(t)
    return r


def expand(t, shp):
    rd_off = len(shp) - len(t.shp)
    m = []
    out = []
    for i, n in enumerate(shp):
        if i < rd_off:
            m.append(None)
            out.append(dimP(n))
            continue
        d = t.shp[i - rd_off]
        if lift(n).const() == -1:
            m.append(True)
            out.append(d)
            continue
        p = dimP(n)
        out.append(p)
        if d is p:
            m.append(True)
        elif d.const() == 1:
            m.append(False)
        elif E().decide(beq(d, p)):
            m.append(True)
        elif E().decide(beq(d, ONE)):
            m.append(False)
        else:
            raise RuntimeError("The expanded size of the tensor must match the existing size")
    of = t.fwd
    fwd = lambda idx: of(tuple(x if k else ZERO for x, k in zip(idx, m) if k is not None))
    if all(k is True for k in m):
        return view_of(t, [slice(None)] * len(t.shp))
    return T(t.sto, out, t.dt, t.lib, fwd, None, t.part)


def subst_T(t, m):
    """the tensor with variables replaced (m: Atom -> Poly) in shape and contents"""
    rd = t.reader()

    def fn(idx):
        return subst_S(rd(idx), m)
    # the index passed in must not contain the substituted variables: use placeholders
    def fn2(idx):
        if any(set(m) & p.fv for p in idx):
            ph = [fresh_tmp() for _ in idx]
            s = subst_S(rd(tuple(ph)), m)
            return subst_S(s, {p.single_atom(): q for p, q in zip(ph, idx)})
        return fn(idx)
    r = T.of(fn2, [subst(p, m) for p in t.shp], t.dt, t.lib)
    if t.mx is not None:
        from . import ncpoly
        r.mx = ncpoly.subst_mx(t.mx, m)
    return r


def subst_S(s, m):
    if s.kind == "c":
        return S("c", (subst(s.v[0], m), subst(s.v[1], m)))
    return S(s.kind, subst(s.v, m))


def _T_prop(self):
    if self.dt is None:
        raise AttributeError("T")
    return permute(self, list(reversed(range(len(self.shp)))))


T.T = property(_T_prop)
T.mT = property(lambda self: permute(self, list(range(len(self.shp) - 2)) + [len(self.shp) - 1, len(self.shp) - 2]))
T.is_leaf = True
