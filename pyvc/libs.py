"""Stand-ins for the imported libraries (torch, numpy, pandas, math, loguru, tqdm, ...): each function is an assumed
contract of the library function of the same name and its use is recorded."""
import builtins as nb
import types, sys, os, importlib, collections, copy as _copy
from fractions import Fraction as Fr
from .sym import *
from .terms import *
from . import tensor as tt
from .tensor import T, DT, DEFAULT, Size, as_dt
from . import lib_common as lc
from .builtins_ import *
from .builtins_ import PyType, SList, View, TENSOR, NDARRAY
from dotmap import DotMap

PI_P = var("#pi", "r")


def pi_facts():
    return [bgt(PI_P, num(Fr("3.14159265"))), blt(PI_P, num(Fr("3.14159266")))]


class Mod(types.ModuleType):
    def __init__(self, name, table=None):
        types.ModuleType.__init__(self, name)
        self.__dict__["__path__"] = []
        for k, v in (table or {}).items():
            self.__dict__[k] = wrap(name + "." + k, v)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(self.__name__ + "." + n)


class Missing:
    def __init__(self, q):
        self.__dict__["_q"] = q

    def __call__(self, *a, **k):
        raise Unsupported("library function %s has no contract" % self._q)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(self._q + "." + n)

    def __mro_entries__(self, bases):
        return (object,)

    def __getitem__(self, k):
        return self


def wrap(q, f):
    if isinstance(f, types.FunctionType):
        def g(*a, **k):
            e = E()
            if e is not None:
                e.lib(q)
            try:
                return f(*a, **k)
            except TypeError as ex:
                if ex.__traceback__.tb_next is None:  # the stand-in was called in a way it does not know
                    raise Unsupported("%s: %s" % (q, ex))
                raise
        g.__name__ = q.split(".")[-1]
        return g
    return f


# ------------------------------------------------------------------ torch
def t_tensor(x, dtype=None, device=None, requires_grad=False, **k):
    r = lc.to_array(x, dtype)
    r.requires_grad = bool(requires_grad) if not isinstance(requires_grad, S) else False
    return r


def t_as_tensor(x, dtype=None, device=None):
    if isinstance(x, T):
        if x.lib == "numpy":
            x = T(x.sto, x.shp, x.dt, "torch", x.fwd, x.inv, x.part)
        return x if dtype is None or as_dt(dtype) is x.dt else x.copy(dt=as_dt(dtype))
    return lc.to_array(x, dtype)


def t_from_numpy(x):
    return T(x.sto, x.shp, x.dt, "torch", x.fwd, x.inv, x.part)


class NoGrad:
    def __init__(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class _Stamped:
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        sym_serial(o)
        return o


from . import sym as _sym


def sym_serial(o):
    _sym.SERIAL[0] += 1
    o.__dict__["_pv__serial"] = _sym.SERIAL[0]


class Module(_Stamped):
    def __init__(self, *a, **k):
        self.__dict__["training"] = True

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def _children(self):
        out = []
        for k, v in self.__dict__.items():
            if isinstance(v, Module):
                out.append((k, v))
        return out

    def _params(self):
        return [(k, v) for k, v in self.__dict__.items() if isinstance(v, T) and getattr(v, "is_param", False)]

    def named_parameters(self, prefix=""):
        out = [(prefix + k, v) for k, v in self._params()]
        for k, m in self._children():
            out += m.named_parameters(prefix + k + ".")
        return SList(out)

    def parameters(self):
        return SList([v for _, v in self.named_parameters()])

    def state_dict(self):
        return collections.OrderedDict((k, lc.detach(v)) for k, v in self.named_parameters())

    def load_state_dict(self, sd, strict=True):
        for k, v in self.named_parameters():
            v.assign(sd[k])

    def to(self, *a, **k):
        return self

    def cpu(self):
        return self

    def train(self, *a):
        return self

    def eval(self):
        return self

    def zero_grad(self, *a, **k):
        return None

    def modules(self):
        out = [self]
        for _, m in self._children():
            out += m.modules()
        return SList(out)

    def children(self):
        return SList([m for _, m in self._children()])

    def apply(self, f):
        for m in self.modules():
            f(m)
        return self

    def add_module(self, n, m):
        setattr(self, n, m)


def Parameter(t, requires_grad=True):
    r = T(t.sto, t.shp, t.dt, t.lib, t.fwd, t.inv, t.part)
    r.is_param = True
    r.requires_grad = True
    return r


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True, **k):
        Module.__init__(self)
        E().lib("torch.nn.Linear")
        self.in_features, self.out_features = in_features, out_features
        self.weight = Parameter(lc.random_T("weight", [out_features, in_features]))
        self.bias = Parameter(lc.random_T("bias", [out_features])) if bias else None

    def forward(self, x):
        r = lc.matmul(x, self.weight.T)
        return r if self.bias is None else r + self.bias


class Activation(Module):
    f = None

    def __init__(self, *a, **k):
        Module.__init__(self)

    def forward(self, x):
        return type(self).f(x)


def _act(name, f):
    return type(name, (Activation,), {"f": staticmethod(f)})


relu = lambda t, **k: tt.unop(t, lambda s: s_max(s, S("r", ZERO)))
Sigmoid = _act("Sigmoid", lc.isigmoid)
ReLU = _act("ReLU", relu)
Tanh = _act("Tanh", lc.itanh)
Identity = _act("Identity", lambda x: x)
LeakyReLU = _act("LeakyReLU", lambda t: tt.unop(t, lambda s: s_max(s, s * S("r", num(Fr(1, 100))))))


def softmax(t, dim=None, **k):
    e_ = lc.iexp(t)
    return e_ / lc.isum(e_, dim, True)


class Softmax(Module):
    def __init__(self, dim=None):
        Module.__init__(self)
        self.dim = dim

    def forward(self, x):
        return softmax(x, self.dim)


class ModuleList(Module):
    def __init__(self, ms=()):
        Module.__init__(self)
        self.__dict__["_l"] = SList()
        for m in ms:
            self.append(m)

    def append(self, m):
        setattr(self, str(nb.len(self._l.raw())), m)
        self._l.append(m)
        return self

    def extend(self, ms):
        for m in ms:
            self.append(m)
        return self

    def __iter__(self):
        return iter(self._l)

    def __len__(self):
        return nb.len(self._l)

    def __getitem__(self, i):
        r = self._l[i]
        return type(self)(*r) if isinstance(i, slice) and isinstance(self, Sequential) else r


class Sequential(ModuleList):
    def __init__(self, *ms):
        if nb.len(ms) == 1 and isinstance(ms[0], dict):
            ms = nb.list(ms[0].values())
        ModuleList.__init__(self, ms)

    def forward(self, x):
        for m in self._l.raw():
            x = m(x)
        return x


class Flatten(Module):
    def forward(self, x):
        return lc.iflatten(x, 1)


class TypeStub:
    """torch.DoubleTensor and the like"""
    def __init__(self, name, dt):
        self.__name__, self.dt = name, dt

    def __call__(self, x, *a):
        return lc.to_array(x, self.dt)


class Adam(_Stamped):
    """torch.optim.Adam: step changes the parameters it was given to unknown values"""

    def __init__(self, params, lr=None, **k):
        self.param_groups = SList([{"params": SList(params), "lr": lr}])

    def zero_grad(self, *a, **k):
        return None

    def step(self, *a):
        for g in self.param_groups:
            for p in g["params"]:
                p.fill_random("step")


class ReduceLROnPlateau(_Stamped):
    def __init__(self, optimizer, **k):
        self.optimizer = optimizer

    def step(self, *a):
        from .rt import PV
        for g in self.optimizer.param_groups:
            PV.setitem(g, "lr", S("r", E().fresh("lr", "r")))


def t_sort(t, dim=-1, descending=False):
    raise Unsupported("torch.sort")


def t_eig(a):
    h = E().hooks.get("eig")
    if h:
        return h(a)
    raise Unsupported("eigendecomposition")


def t_fft2(t, **k):
    h = E().hooks.get("fft2")
    if h:
        return h(t)
    return fft2(t)


def t_solve(a, b):
    return lc.matmul(lc.inverse(a), b)


def fft2(t):
    """F[g,h] = Sum_xy t[x,y] exp(-2 pi i (g x/Nx + h y/Ny))  over the last two dimensions"""
    t = lc.A(t)
    nx, ny = t.shp[-2], t.shp[-1]
    rd = t.reader()
    m2pi = pscale(PI_P, -2)

    def fn(i):
        x, y = fresh_tmp(), fresh_tmp()
        ph = pmul(m2pi, padd(pdiv(pmul(i[-2], x), nx), pdiv(pmul(i[-1], y), ny)))
        w = s_exp(S("c", (ZERO, ph)))
        v = s_mul(rd(tuple(i[:-2]) + (x, y)), w)
        return sum_S(x, nx, sum_S(y, ny, v))
    return T.of(fn, t.shp, tt.complex128, t.lib)


def t_is_tensor(x):
    return isinstance(x, T) and x.lib == "torch"


def t_norm(t, p=None, dim=None, **k):
    return lc.inorm(t, p, dim)


def t_sum(t, dim=None, **k):
    return lc.isum(t, dim, **k)


def npf(f):
    """numpy function: array arguments keep/obtain numpy flavour"""
    def g(*a, **k):
        a = [to_np(x) for x in a]
        r = f(*a, **k)
        return r
    return g


def to_np(x):
    if isinstance(x, T) and x.lib == "torch":
        return T(x.sto, x.shp, x.dt, "numpy", x.fwd, x.inv, x.part)
    if isinstance(x, nb.list):
        return lc.to_array(x, lib="numpy")
    return x


COMMON = dict(abs=lc.iabs, sqrt=lc.isqrt, exp=lc.iexp, sin=lc.isin, cos=lc.icos, log=lc.ilog, log10=lc.ilog10, square=lc.isquare,
              conj=lc.iconj, real=lc.ireal, imag=lc.iimag, sign=lc.isign, isnan=lc.iisnan, where=lc.iwhere, sum=lc.isum, mean=lc.imean,
              min=lc.imin, max=lc.imax, argmin=lc.iargmin, argmax=lc.iargmax, any=lc.iany, all=lc.iall, cumsum=lc.icumsum,
              meshgrid=lc.imeshgrid, stack=lc.istack, vstack=lc.ivstack, hstack=lc.ihstack, diag=lc.idiag, dot=lc.idot, matmul=lc.matmul, einsum=lc.einsum,
              minimum=lc.iminimum, maximum=lc.imaximum, clip=lc.iclip, reshape=lambda t, s: lc.reshape(t, [s]), squeeze=lc.isqueeze, argsort=lc.iargsort,
              zeros_like=lc.fill_like(0), ones_like=lc.fill_like(1), logical_and=lc.ilogical_and, logical_or=lc.ilogical_or, logical_not=lc.ilogical_not, flip=lc.iflip,
              prod=lc.iprod, floor=lc.ifloor, ceil=lc.iceil, round=lc.iround, isclose=lc.iisclose, outer=lc.iouter, trace=lc.itrace, tanh=lc.itanh,
              nonzero=lc.inonzero, unique=lc.iunique, divide=lc.idiv, multiply=lambda a, b: a * b, add=lambda a, b: a + b, subtract=lambda a, b: a - b, roll=lc.iroll)

DTYPES = dict(float64=tt.float64, double=tt.float64, float32=tt.float32, float=tt.float32, float16=tt.float16, half=tt.float16, complex64=tt.complex64,
              cfloat=tt.complex64, complex128=tt.complex128, cdouble=tt.complex128, int64=tt.int64, long=tt.int64, int32=tt.int32, int=tt.int32, int8=tt.int8,
              uint8=tt.uint8, bool=tt.bool_)


def build_torch():
    m = Mod("torch", dict(COMMON))
    d = m.__dict__
    add = dict(tensor=t_tensor, as_tensor=t_as_tensor, from_numpy=t_from_numpy, zeros=lc.fill(0, tt.float64, "torch"), ones=lc.fill(1, tt.float64, "torch"),
               empty=lc.fill(0, tt.float64, "torch"), full=lc.full, eye=lc.ieye, linspace=lc.linspace_("torch"), logspace=lc.logspace_("torch"), arange=lc.arange_("torch"),
               cat=lc.icat, concat=lc.icat, split=lc.isplit, flatten=lc.iflatten, unsqueeze=lc.iunsqueeze, transpose=lc.itranspose, permute=lc.permute, mm=lc.imm, mv=lc.imv,
               bmm=lc.matmul, inverse=lc.inverse, repeat_interleave=lc.irepeat_interleave, norm=lc.inorm, clamp=lc.iclip, complex=lc.icomplex, pow=lc.ipow,
               sigmoid=lc.isigmoid, relu=relu, softmax=softmax, rand=lc.rnd("rand"), randn=lc.rnd("randn"), randn_like=lambda t, **k: lc.random_T("randn", [dimS(x) for x in t.shp]),
               rand_like=lambda t, **k: lc.random_T("rand", [dimS(x) for x in t.shp]), is_tensor=t_is_tensor, broadcast_to=lc.ibroadcast_to, broadcast_tensors=lc.ibroadcast_tensors,
               numel=lambda t: t.numel(), div=lc.idiv, manual_seed=lambda s: None, get_default_dtype=lambda: tt.float64, set_default_tensor_type=lambda *a: None,
               set_default_dtype=lambda *a: None, set_printoptions=lambda **k: None, sort=t_sort, solve=t_solve, clone=lambda t: t.copy(), mul=lambda a, b: a * b, sub=lambda a, b: a - b,
               le=lambda a, b: a <= b, lt=lambda a, b: a < b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b, eq=lambda a, b: a == b, neg=lambda t: -t,
               is_complex=lambda t: t.dt.kind == "c", numel_=None)
    for k, v in add.items():
        d[k] = wrap("torch." + k, v)
    d.update(DTYPES)
    d["Tensor"] = TENSOR
    d["Size"] = Size
    d["dtype"] = DT
    d["pi"] = S("r", PI_P)
    d["inf"] = S("r", special(float("inf")))
    for n, t in (("DoubleTensor", tt.float64), ("FloatTensor", tt.float32), ("LongTensor", tt.int64), ("BoolTensor", tt.bool_)):
        d[n] = TypeStub("torch." + n, t)
    d["no_grad"] = NoGrad
    d["enable_grad"] = NoGrad
    d["device"] = lambda *a: "cpu"
    d["cuda"] = Mod("torch.cuda", dict(is_available=lambda: False, empty_cache=lambda: None))
    d["cuda"].__dict__["FloatTensor"] = TypeStub("torch.cuda.FloatTensor", tt.float32)
    d["cuda"].__dict__["DoubleTensor"] = TypeStub("torch.cuda.DoubleTensor", tt.float64)
    d["backends"] = Mod("torch.backends", {})
    d["fft"] = Mod("torch.fft", dict(fft2=t_fft2))
    d["linalg"] = Mod("torch.linalg", dict(eig=t_eig, inv=lc.inverse, norm=lambda t, *a, **k: lc.inorm(t, **k), solve=t_solve))
    nn = Mod("torch.nn", {})
    nd = nn.__dict__
    for n, v in dict(Module=Module, Linear=Linear, Sigmoid=Sigmoid, ReLU=ReLU, Tanh=Tanh, Identity=Identity, LeakyReLU=LeakyReLU, Softmax=Softmax, ModuleList=ModuleList,
                     Sequential=Sequential, Parameter=Parameter, Flatten=Flatten).items():
        nd[n] = v
    nd["init"] = Mod("torch.nn.init", dict(uniform_=lambda t, *a, **k: t.fill_random("init"), normal_=lambda t, *a, **k: t.fill_random("init"),
                                           xavier_uniform_=lambda t, *a, **k: t.fill_random("init"), kaiming_uniform_=lambda t, *a, **k: t.fill_random("init"), zeros_=lambda t: t.zero_()))
    nd["functional"] = Mod("torch.nn.functional", dict(pad=lc.ipad, relu=relu, softmax=softmax, sigmoid=lc.isigmoid,
                                                       l1_loss=lambda a, b: lc.imean(lc.iabs(a - b)), mse_loss=lambda a, b: lc.imean((a - b) * (a - b))))
    nd["Module"].__name__ = "Module"
    d["nn"] = nn
    op = Mod("torch.optim", {})
    op.__dict__["Adam"] = Adam
    op.__dict__["lr_scheduler"] = Mod("torch.optim.lr_scheduler", dict(ReduceLROnPlateau=ReduceLROnPlateau))
    d["optim"] = op
    return m


def np_array(x, dtype=None, **k):
    return lc.to_array(x, dtype, lib="numpy")


def np_asarray(x, dtype=None, **k):
    if isinstance(x, T) and x.lib == "numpy" and dtype is None:
        return x
    if isinstance(x, T):
        r = to_np(x)
        return r if dtype is None else r.copy(dt=as_dt(dtype))
    return lc.to_array(x, dtype, lib="numpy")


def build_numpy():
    tab = {k: npf(v) for k, v in COMMON.items()}
    m = Mod("numpy", tab)
    d = m.__dict__
    add = dict(array=np_array, asarray=np_asarray, zeros=lc.fill(0, tt.float64, "numpy"), ones=lc.fill(1, tt.float64, "numpy"), linspace=lc.linspace_("numpy"),
               logspace=lc.logspace_("numpy"), arange=lc.arange_("numpy"), sort=npf(lc.isort), concatenate=npf(lc.icat), power=npf(lc.ipow), absolute=npf(lc.iabs),
               eye=lambda n, **k: to_np(lc.ieye(n, **k)), ndim=lambda x: x.ndim if isinstance(x, T) else 0, isscalar=lambda x: not isinstance(x, T), size=lambda x: x.numel())
    for k, v in add.items():
        d[k] = wrap("numpy." + k, v)
    d.update(DTYPES)
    d.pop("int", None), d.pop("float", None), d.pop("bool", None)
    d["bool_"] = tt.bool_
    d["ndarray"] = NDARRAY
    d["pi"] = S("r", PI_P)
    d["inf"] = S("r", special(float("inf")))
    d["nan"] = S("r", special(float("nan")))
    d["random"] = Mod("numpy.random", dict(seed=lambda s: None))
    d["linalg"] = Mod("numpy.linalg", dict(norm=npf(lc.inorm), inv=npf(lc.inverse)))
    d["newaxis"] = None
    return m


def m_ceil(x):
    p = lift(scal(x)).poly()
    return to_native_int(S("i", pneg(p_floor(pneg(p)))))


def m_floor(x):
    return to_native_int(S("i", p_floor(lift(scal(x)).poly())))


def m1(f, dom=None):
    def g(x):
        p = lift(scal(x)).poly()
        if dom is not None and E().decide(bnot(dom(p))):
            raise ValueError("math domain error")
        return S("r", f(p))
    return g


def build_math():
    m = Mod("math", dict(ceil=m_ceil, floor=m_floor, sqrt=m1(p_sqrt, lambda p: bge(p, ZERO)), sin=m1(p_sin), cos=m1(p_cos), exp=m1(p_exp),
                         log10=m1(p_log10, lambda p: bgt(p, ZERO)), log=m1(p_log, lambda p: bgt(p, ZERO)), fabs=m1(p_abs), pow=lambda a, b: s_pow(lift(a), lift(b)),
                         isnan=lambda x: False, isclose=lambda *a, **k: (_ for _ in ()).throw(Unsupported("math.isclose")), trunc=lambda x: c_int(x),
                         tanh=m1(p_tanh)))
    m.__dict__["pi"] = S("r", PI_P)
    m.__dict__["inf"] = S("r", special(float("inf")))
    return m


class Logger:
    class _C:
        min_level = 30
    _core = _C()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


def deepcopy(x, memo=None):
    e = E()
    if e is not None:
        e.lib("copy.deepcopy")
    if isinstance(x, T):
        r = x.copy()
        r.is_param = getattr(x, "is_param", False)
        return r
    if isinstance(x, (S, str, int, float, type(None), bool)):
        return x
    if isinstance(x, SList):
        r = SList([deepcopy(y) for y in x.raw()])
        if x.segs is not None:
            r.segs = [(s[0], [deepcopy(y) for y in s[1]]) if s[0] == "c" else s for s in x.segs]
        return r
    if isinstance(x, nb.tuple):
        return nb.tuple(deepcopy(y) for y in x)
    if isinstance(x, DotMap):
        r = DotMap()
        for k, v in x.items():
            r[k] = deepcopy(v)
        return r
    if isinstance(x, dict):
        return type(x)((k, deepcopy(v)) for k, v in x.items())
    if hasattr(x, "__dict__") and not isinstance(x, type):
        r = object.__new__(type(x))
        for k, v in x.__dict__.items():
            r.__dict__[k] = deepcopy(v)
        return r
    return x


class Deque(SList):
    """collections.deque of numbers; with maxlen, once the number of elements is symbolic only 1 <= length <= maxlen is known"""

    def __init__(self, it=(), maxlen=None):
        SList.__init__(self, it)
        self.maxlen = maxlen

    def append(self, v):
        SList.append(self, v)
        if self.maxlen is None:
            return
        if self.segs is None and self.ro is None:
            if nb.len(self.raw()) > self.maxlen:
                nb.list.pop(self, 0)
            return
        if not isinstance(v, (S, int, float, Fr)):
            raise Unsupported("deque of other values")
        self.unknown(1)

    def unknown(self, lo):
        e = E()
        nm, m = e.fresh_name("!dq"), e.fresh("!dqn", "i")
        e.assume(bge(m, num(lo)))
        e.assume(ble(m, num(self.maxlen)))
        lv = nb.list(e.loopvars)
        nb.list.__setitem__(self, slice(None), [])
        self.segs = [("s", m, lambda p: S("r", app(nm, lv + [p], "r")))]

    def forget(self, k=None):
        if self.maxlen is None:
            return SList.forget(self, k)
        self._log()
        self.unknown(0)


class TQ:
    def __init__(self, it=None, *a, **k):
        self.it = it

    def sym_len(self):
        return b_len(self.it)

    def sym_item(self, p):
        return seq_item(self.it, p)

    def __iter__(self):
        return iter(self.it)

    def __len__(self):
        return nb.len(self.it)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


def tqdm(it=None, *a, **k):
    if is_symseq(it) or it is None:
        return TQ(it)
    return it


class OsStub(types.ModuleType):
    """os: environment and path operations pass through; anything touching files must be hooked by the contract"""

    def __init__(self):
        types.ModuleType.__init__(self, "os")
        self.path = os.path
        self.environ = dict(os.environ)
        self.environ.setdefault("TORCH_DEVICE", "cpu")
        self.sep = os.sep
        self.getcwd = os.getcwd
        self.getenv = self.environ.get

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        h = E().hooks.get("os." + n) if E() is not None else None
        return h or Missing("os." + n)


class Pickle:
    """pickle: load returns an equal, unshared copy of what dump was given (assumed contract); the file holds a token"""

    def __init__(self):
        self.store = []

    def dumps(self, obj, *a, **k):
        self.store.append(deepcopy(obj))
        return b"pyvc-pickle:%d" % (nb.len(self.store) - 1)

    def loads(self, data, *a, **k):
        if not data.startswith(b"pyvc-pickle:"):
            raise ValueError("not a pickle")
        return deepcopy(self.store[int(data[12:].split(b"p")[0])])

    def dump(self, obj, handle, *a, **k):
        handle.write(self.dumps(obj))

    def load(self, handle, *a, **k):
        d = handle.read()
        if not d:
            raise EOFError("Ran out of input")
        return self.loads(d)

    def module(self):
        m = Mod("pickle", dict(dumps=lambda *a, **k: self.dumps(*a, **k), loads=lambda *a, **k: self.loads(*a, **k),
                               dump=lambda *a, **k: self.dump(*a, **k), load=lambda *a, **k: self.load(*a, **k)))
        m.__dict__["HIGHEST_PROTOCOL"] = 5
        m.__dict__["DEFAULT_PROTOCOL"] = 4
        return m


REAL = {"os.path", "datetime", "time", "typing", "functools", "collections", "itertools", "numbers", "pathlib", "re", "sys", "warnings", "string", "abc", "enum",
        "dataclasses", "contextlib", "operator", "json", "types", "dotmap", "inspect", "__future__"}

TABLE = {}


def lib_module(name):
    """the stand-in for an imported top-level library module"""
    if name in TABLE:
        return TABLE[name]
    top = name.split(".")[0]
    if name == "torch":
        m = build_torch()
    elif name == "numpy":
        m = build_numpy()
    elif name == "math":
        m = build_math()
    elif name == "loguru":
        m = Mod("loguru")
        m.__dict__["logger"] = Logger()
    elif top == "tqdm":
        m = Mod("tqdm")
        m.__dict__["tqdm"] = tqdm
    elif name == "os":
        m = OsStub()
    elif name == "copy":
        m = Mod("copy", dict(deepcopy=deepcopy, copy=lambda x: _copy.copy(x)))
    elif name == "collections":
        m = Mod("collections")
        m.__dict__.update(OrderedDict=collections.OrderedDict, defaultdict=collections.defaultdict, namedtuple=collections.namedtuple, deque=Deque, Counter=collections.Counter)
    elif name in ("pickle", "dill", "cloudpickle"):
        m = Pickle().module()
    elif name == "numbers":
        m = Mod("numbers")
        m.__dict__["Number"] = NUMBER
    elif "." in name and top in ("torch", "numpy"):
        m = lib_module(top)
        for p in name.split(".")[1:]:
            m = getattr(m, p)
    elif name in REAL or top in REAL:
        m = importlib.import_module(name)
    else:
        m = Mod(name)
    TABLE[name] = m
    return m
