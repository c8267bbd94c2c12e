"""C12 Layer builder fills exactly the described shape."""
from pyvc.contract import contract
from contracts.common import Collection

P = "C12"
MOD = "nidn.materials.layer_builder"


def setup(c):
    nx, ny = c.int("nx", 1, cmax=5), c.int("ny", 1, cmax=5)
    nf, m = c.int("nf", 1, cmax=3), c.int("m", 1, cmax=3)
    col = Collection(c, m, nf)
    fr = c.tensor("freq", [nf], lib="numpy", gt=0)
    cfg = c.cfg(Nx=nx, Ny=ny, N_freq=nf, target_frequencies=fr)
    asked = []

    def make(freqs, *a, **k):
        asked.append(freqs)
        return col
    LB = c.fn(MOD, "LayerBuilder")
    with c.stub(MOD, MaterialCollection=make):
        b = c.call(LB, cfg)
    c.check("materials loaded once", len(asked) == 1)
    c.eq_tensor("materials loaded at the configured frequencies", asked[0], fr)
    return b, cfg, col, nx, ny, nf, m


def mat(c, col, name, m):
    i = c.int(name, 0, m - 1)
    return i, (i if c.symbolic else "m%d" % i)


def coord(c, i, n):
    # equally spaced over [0, 1], both ends included (a single point sits at 0)
    return c.ite(n > 1, c.div(i, n - 1), 0) if c.symbolic else (i / (n - 1) if n > 1 else 0.0)


def compare(c, name, lay, nx, ny, nf, col, inside, g, s):
    c.isshape("one vector per point", lay, nx, ny, nf)

    def pt(i, j, q):
        ins = inside(i, j)
        if ins is None:
            return
        want_g, want_s = c.at(col.epsilon_matrix, g, q), c.at(col.epsilon_matrix, s, q)
        c.eq(name, c.at(lay, i, j, q), c.ite(ins, want_s, want_g))
    c.forall([nx, ny, nf], pt)


def strict(c, x, y):
    """x < y; None when rounding decides (concrete only)"""
    if c.symbolic:
        return x < y
    if abs(x - y) < 1e-9 and not (exact(x) and exact(y)):
        raise Marginal()
    return x < y


def exact(x):
    return float(x) * 256 == int(float(x) * 256)


class Marginal(Exception):
    pass


def guarded(f):
    def g(*a):
        try:
            return f(*a)
        except Marginal:
            return None
    return g


@contract(P)
def uniform(c):
    """build_uniform_layer: the material's spectrum everywhere"""
    b, cfg, col, nx, ny, nf, m = setup(c)
    g, gn = mat(c, col, "g", m)
    lay = c.call(b.build_uniform_layer, gn)
    compare(c, "uniform", lay, nx, ny, nf, col, lambda i, j: c.and_(False), g, g)


@contract(P)
def square(c):
    """build_squared_layer: shape material strictly inside (a, 1-a)^2, background elsewhere"""
    b, cfg, col, nx, ny, nf, m = setup(c)
    g, gn = mat(c, col, "g", m)
    s, sn = mat(c, col, "s", m)
    if c.choice("use default", [False, True]):
        a = c.q("0.33")
        lay = c.call(b.build_squared_layer, gn, sn)
    else:
        a = c.real("a", near=(0, 0.5))
        if not c.symbolic and c.choice("on the edge", [False, True]):
            a = c.choice("edge", [0.0, 0.25, 0.5])
        lay = c.call(b.build_squared_layer, gn, sn, a)

    @guarded
    def inside(i, j):
        x, y = coord(c, i, nx), coord(c, j, ny)
        return c.and_(strict(c, a, x), strict(c, x, 1 - a), strict(c, a, y), strict(c, y, 1 - a))
    compare(c, "square", lay, nx, ny, nf, col, inside, g, s)


@contract(P)
def circle(c):
    """build_circle_layer: shape material strictly inside the circle, background elsewhere"""
    b, cfg, col, nx, ny, nf, m = setup(c)
    g, gn = mat(c, col, "g", m)
    s, sn = mat(c, col, "s", m)
    if c.choice("use default", [False, True]):
        r, cx, cy = c.q("0.33"), c.q("0.5"), c.q("0.5")
        lay = c.call(b.build_circle_layer, gn, sn)
    else:
        r, cx, cy = c.real("r", near=(0, 0.7)), c.real("cx", near=(0, 1)), c.real("cy", near=(0, 1))
        if not c.symbolic and c.choice("on the edge", [False, True]):
            r, cx, cy = c.choice("edge", [(0.5, 0.5, 0.5), (0.25, 0.5, 0.5), (0.25, 0.25, 0.5), (0.5, 0.0, 0.25), (0.0, 0.5, 0.5)])
        lay = c.call(b.build_circle_layer, gn, sn, r, cx, cy)

    @guarded
    def inside(i, j):
        dx, dy = coord(c, i, nx) - cx, coord(c, j, ny) - cy
        return strict(c, dx * dx + dy * dy, r * r)
    compare(c, "circle", lay, nx, ny, nf, col, inside, g, s)


@contract(P)
def independent(c):
    """building a layer leaves the layers built before, the table and the config alone"""
    b, cfg, col, nx, ny, nf, m = setup(c)
    g, gn = mat(c, col, "g", m)
    s, sn = mat(c, col, "s", m)
    a = c.real("a", near=(0, 0.5))
    r, cx, cy = c.real("r", near=(0, 0.7)), c.real("cx", near=(0, 1)), c.real("cy", near=(0, 1))
    mat0 = c.snapshot(col.epsilon_matrix)
    first = {"u": lambda: b.build_uniform_layer(gn), "s": lambda: b.build_squared_layer(gn, sn, a), "c": lambda: b.build_circle_layer(gn, sn, r, cx, cy)}
    one = first[c.choice("first", ["u", "s", "c"])]()
    one0 = c.snapshot(one)
    h, hn = mat(c, col, "h", m)
    t, tn = mat(c, col, "t", m)
    second = {"u": lambda: b.build_uniform_layer(hn), "s": lambda: b.build_squared_layer(hn, tn, a), "c": lambda: b.build_circle_layer(hn, tn, r, cx, cy)}
    second[c.choice("second", ["u", "s", "c"])]()
    c.eq_tensor("earlier layer kept", one, one0)
    c.eq_tensor("material table kept", col.epsilon_matrix, mat0)
    c.check("config kept", c.and_(cfg.Nx == nx, cfg.Ny == ny, cfg.N_freq == nf))
