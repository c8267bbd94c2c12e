"""C13 Closest material is a true minimiser."""
from pyvc.contract import contract
from contracts.common import Collection, cabs

P = "C13"
MOD = "nidn.materials.find_closest_material"


def setup(c):
    nx, ny, nl = c.int("nx", 1, cmax=2), c.int("ny", 1, cmax=2), c.int("nl", 1, cmax=2)
    nf, m = c.int("nf", 1, cmax=3), c.int("m", 1, cmax=3)
    cfg = c.cfg(Nx=nx, Ny=ny, N_layers=nl, N_freq=nf)
    return cfg, Collection(c, m, nf), (nx, ny, nl, nf, m)


def mean_dist(c, eps, col, i, j, k, l, nf):
    return c.div(c.sum(nf, lambda f: c.abs(c.at(eps, i, j, k, f) - c.at(col.epsilon_matrix, l, f))), nf)


@contract(P)
def minimiser(c):
    """reported distance = min over materials of the frequency-averaged |eps - eps_m|, reported index attains it"""
    f = c.fn(MOD, "_find_closest_material")
    cfg, col, (nx, ny, nl, nf, m) = setup(c)
    eps = c.tensor("eps", [nx, ny, nl, nf], kind="c")
    eps0, mat0 = c.snapshot(eps), c.snapshot(col.epsilon_matrix)
    dist, ind = c.call(f, eps, cfg, col)
    c.isshape("distance per point", dist, nx, ny, nl)
    c.isshape("index per point", ind, nx, ny, nl)

    def point(i, j, k):
        d, a = c.at(dist, i, j, k), c.at(ind, i, j, k)
        c.check("index is a material", c.and_(a >= 0, a < m))
        c.eq("index attains the distance", d, mean_dist(c, eps0, col, i, j, k, a, nf), tol=2e-5)
        c.forall(m, lambda l: c.le("no material is closer", d, mean_dist(c, eps0, col, i, j, k, l, nf), tol=2e-5))
    c.forall([nx, ny, nl], point)
    c.eq_tensor("grid not modified", eps, eps0)
    c.eq_tensor("material table not modified", col.epsilon_matrix, mat0)


@contract(P)
def recovers_materials(c):
    """a grid made of database materials is recovered: distance zero, and a material with exactly that permittivity"""
    f = c.fn(MOD, "_find_closest_material")
    cfg, col, (nx, ny, nl, nf, m) = setup(c)
    idx = c.tensor("which", [nx, ny, nl], kind="i", lo=0, hi=m - 1)
    eps = c.array([nx, ny, nl, nf], lambda i, j, k, q: c.at(col.epsilon_matrix, c.at(idx, i, j, k), q), kind="c")
    dist, ind = c.call(f, eps, cfg, col)
    c.forall([nx, ny, nl], lambda i, j, k: c.check("distance zero", abs(c.at(dist, i, j, k)) < 1e-6 if not c.symbolic else c.at(dist, i, j, k) == 0))

    def same(i, j, k, q):
        a, b = c.at(ind, i, j, k), c.at(idx, i, j, k)
        D = lambda f: c.abs(c.at(col.epsilon_matrix, b, f) - c.at(col.epsilon_matrix, a, f))
        c.lemma("material index in range", c.and_(a >= 0, a < m))
        c.lemma("summed difference zero", c.sum(nf, D) == 0)
        c.lemma("difference zero", D(q) == 0)
        c.from_only([D(q) == 0] if c.symbolic else [], lambda: c.eq("same permittivity", c.at(col.epsilon_matrix, a, q), c.at(col.epsilon_matrix, b, q)))
    c.forall([nx, ny, nl, nf], same)
