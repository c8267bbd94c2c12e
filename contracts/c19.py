"""C19 Networks are queried once per cell at its own coordinates."""
from pyvc.contract import contract

P = "C19"
MOD = "nidn.training.model.model_to_eps_grid"


def query(c, f, mt, nx, ny, nl, nf, dist, freq, th):
    """runs _eval_model and returns the queried points (the model gets them in one call, its result is handed back)"""
    got = []
    out = c.tensor("out", [1])

    def model(*x):
        got.append(x)
        return out
    r = c.call(f, c.cfg(model_type=mt), model, nx, ny, nl, freq, dist, th)
    c.check("the result is what the model returned", r is out)
    c.check("one call", len(got) == 1, len(got))
    return got[0]


def span(c, f, mt):
    """half widths of the coordinate intervals, from the smallest grid that has a width"""
    x, = query(c, f, mt, 2, 2, 2, 2, "linear", c.fixed([1.0, 2.0]) if not c.symbolic else c.tensor("fr2", [2], lib="numpy", gt=0), c.fixed([c.q("1")]))
    A = [c.at(x, 15, d) for d in range(4)]
    for d in range(4):
        c.check("interval has a width", A[d] > 0)
        c.eq("interval is symmetric", c.at(x, 0, d), -A[d])
    return A


def setup(c):
    f = c.fn(MOD, "_eval_model")
    nx, ny, nl, nf = c.int("nx", 1, cmax=3), c.int("ny", 1, cmax=3), c.int("nl", 1, cmax=3), c.int("nf", 1, cmax=4)
    mt = c.choice("model", ["nerf", "siren"])
    fr = c.tensor("freq", [nf], lib="numpy", gt=0)
    return f, nx, ny, nl, nf, mt, fr


@contract(P, budget=200.0)
def coordinates(c):
    """in-plane, layer (equal thicknesses) and linear frequency coordinates: row-major, equally spaced over the same interval"""
    f, nx, ny, nl, nf, mt, fr = setup(c)
    A = span(c, f, mt)
    x, = query(c, f, mt, nx, ny, nl, nf, "linear", fr, c.fixed([c.real("thickness", gt=0)]))
    c.isshape("one row of four coordinates per cell", x, nx * ny * nl * nf, 4)
    dims = (nx, ny, nl, nf)

    def cell(*i):
        row = ((i[0] * ny + i[1]) * nl + i[2]) * nf + i[3]
        for d in range(4):
            v = c.at(x, row, d)
            if dims[d] > 1:
                c.eq("coordinate %d" % d, v * (dims[d] - 1), A[d] * (2 * i[d] - (dims[d] - 1)))
            else:
                c.le("coordinate %d in the interval (low)" % d, -A[d], v)
                c.le("coordinate %d in the interval (high)" % d, v, A[d])
    c.forall(dims, cell)


@contract(P, budget=200.0)
def weighted_layers(c):
    """different thicknesses: the layer coordinate spans the same interval, steps in proportion to the thickness"""
    f, nx, ny, nl, nf, mt, fr = setup(c)
    c.assume(nl > 1)
    A = span(c, f, mt)
    th = c.list("th", nl, gt=0) if c.symbolic else [0.1 + v for v in c.list("th", nl, gt=0)]
    x, = query(c, f, mt, nx, ny, nl, nf, "linear", fr, th)
    c.isshape("one row of four coordinates per cell", x, nx * ny * nl * nf, 4)
    tot = c.sum(nl, lambda j: c.at(th, j)) - c.at(th, 0)
    if c.symbolic:
        part = c.sum(nl - 1, lambda j: c.at(th, j))
        c.lemma("last summand", tot == part + c.at(th, nl - 1) - c.at(th, 0))
        c.lemma("first summand", part >= c.at(th, 0))
        c.lemma("positive", c.at(th, nl - 1) > 0)
        c.lemma("total positive", tot > 0)
        c.lemma("sum positive", tot + c.at(th, 0) > 0)

    def z(i, j, k, q):
        return c.at(x, ((i * ny + j) * nl + k) * nf + q, 2)

    def ends(i, j, q):
        c.eq("first layer at the lower end", z(i, j, 0, q), -A[2])
        c.eq("last layer at the upper end", z(i, j, nl - 1, q), A[2])
    c.forall([nx, ny, nf], ends)

    def step(i, j, k, q):
        d, t = z(i, j, k + 1, q) - z(i, j, k, q), c.at(th, k + 1)
        if c.symbolic:
            c.lemma("step proportional to the thickness", d * tot == 2 * A[2] * t)
            c.from_only([d * tot == 2 * A[2] * t, tot > 0, A[2] > 0, t > 0], lambda: c.lt("increasing", 0, d))
        else:
            c.eq("step proportional to the thickness", d * tot, 2 * A[2] * t)
            c.lt("increasing", 0, d)
    c.forall([nx, ny, nl - 1, nf], step)


@contract(P, budget=200.0)
def log_frequencies(c):
    """logarithmic distribution: the frequency coordinate is affine in the frequency and stays in the interval"""
    f, nx, ny, nl, nf, mt, fr = setup(c)
    c.assume_all(nf - 1, lambda i: c.at(fr, i) < c.at(fr, i + 1)) if c.symbolic else None
    if not c.symbolic:
        import numpy as np
        fr = np.sort(fr) + np.arange(len(fr)) + 0.1
    A = span(c, f, mt)
    x, = query(c, f, mt, nx, ny, nl, nf, "log", fr, c.fixed([c.real("thickness", gt=0)]))
    c.isshape("one row of four coordinates per cell", x, nx * ny * nl * nf, 4)

    def w(i, j, k, q):
        return c.at(x, ((i * ny + j) * nl + k) * nf + q, 3)
    c.forall([nx, ny, nl, nf], lambda i, j, k, q: (c.le("in the interval (low)", -A[3], w(i, j, k, q)), c.le("in the interval (high)", w(i, j, k, q), A[3])))
    c.forall([nx, ny, nl, nf - 1], lambda i, j, k, q: c.lt("increasing", w(i, j, k, q), w(i, j, k, q + 1)))


@contract(P)
def other_models(c):
    """a voxel model is asked for its values without coordinates; unknown model types and distributions are rejected"""
    f, nx, ny, nl, nf, mt, fr = setup(c)
    th = c.fixed([c.real("thickness", gt=0)])
    x = query(c, f, "voxel", nx, ny, nl, nf, "linear", fr, th)
    c.check("no coordinates", len(x) == 0)
    bad = c.choice("bad", ["mlp", "", "Nerf", "SIREN", "voxels"])
    c.raises("unknown model type", "NotImplementedError", f, c.cfg(model_type=bad), lambda *a: None, nx, ny, nl, fr, "linear", th)
    c.raises("init_network rejects it too", "NotImplementedError", c.fn("nidn.training.model.init_network", "init_network"), c.cfg(model_type=bad))


def build(c, hl, mt, ni, no, w):
    f = c.fn("nidn.training.model.init_network", "init_network")
    cfg = c.cfg(model_type=mt, encoding_dim=ni, out_features=no, n_neurons=w, hidden_layers=hl, siren_omega=c.real("omega", gt=0), type="regression")
    return c.call(f, cfg)


@contract(P, trials=40, budget=200.0)
def networks(c):
    """nerf and siren with 1..7 hidden layers (all widths): n points -> n rows of the configured width in [0,1], row by row"""
    mt = c.choice("model", ["nerf", "siren"])
    hl = c.choice("hidden_layers", [1, 2, 3, 4, 5, 6, 7])
    ni, no, w, n = c.int("in", 1, cmax=3), c.int("out", 1, cmax=4), c.int("width", 1, cmax=4), c.int("n", 1, cmax=4)
    net = build(c, hl, mt, ni, no, w)
    x, y = c.tensor("x", [n, ni]), c.tensor("y", [n, ni])
    o = c.call(net, x)
    c.isshape("one row of the configured width per point", o, n, no)
    c.forall([n, no], lambda i, j: (c.le("at least 0", 0, c.at(o, i, j)), c.le("at most 1", c.at(o, i, j), 1)))

    def local(i):
        o2 = c.call(net, c.array([n, ni], lambda a, b: c.ite(a == i, c.at(x, a, b), c.at(y, a, b))))
        c.forall([no], lambda j: c.eq("row depends on its own point only", c.at(o2, i, j), c.at(o, i, j)))
    c.forall([n], local)


@contract(P)
def voxel(c):
    """voxel: one complex value per cell in the configured ranges; forward hands back the parameters"""
    f = c.fn("nidn.training.model.init_network", "init_network")
    nx, ny, nl, nf = c.int("nx", 1, cmax=3), c.int("ny", 1, cmax=3), c.int("nl", 1, cmax=3), c.int("nf", 1, cmax=4)
    a, b, d, e = c.real("re_min"), c.real("re_max"), c.real("im_min"), c.real("im_max")
    c.assume(a < b)
    c.assume(d < e)
    cfg = c.cfg(model_type="voxel", type="regression", Nx=nx, Ny=ny, N_layers=nl, N_freq=nf, real_min_eps=a, real_max_eps=b, imag_min_eps=d, imag_max_eps=e)
    o = c.call(c.call(f, cfg))
    c.isshape("one value per cell", o, nx, ny, nl, nf)
    c.forall([nx, ny, nl, nf], lambda *i: (c.le("real part (low)", a, c.re(c.at(o, *i)), 1e-5), c.le("real part (high)", c.re(c.at(o, *i)), b, 1e-5),
                                            c.le("imaginary part (low)", d, c.im(c.at(o, *i)), 1e-5), c.le("imaginary part (high)", c.im(c.at(o, *i)), e, 1e-5)))
