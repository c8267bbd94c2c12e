"""C08 FDTD scene realises the configured layer stack."""
from pyvc.contract import contract
from contracts.c06 import dims, make_grid, GRID

P = "C08"
INIT = "nidn.fdtd_integration.init_fdtd"
OBJ = "nidn.fdtd.objects"
SCALE = "nidn.fdtd_integration.compute_fdtd_grid_scaling"


def eps0(c):
    return c.q("8.8541878128e-12")


def eta0(c):
    return c.q("4e-7") * c.pi * c.q("299792458")


def numbers(c):
    """lengths of a config in the unit of 1e-6 m and the scaling; concretely: clear of rounding ties"""
    if c.symbolic:
        s = c.real("scaling", lo=1)
        p, f = c.real("pml", gt=0), c.real("free", gt=0)
        return s, p, f
    s = c.choice("scaling", [5.0, 8.0, 10.0, 12.5])
    return s, c.choice("pml", [0.5, 1.0, 1.5]), c.choice("free", [0.75, 1.0, 2.0])


def tie(c, *xs):
    """the truncations are not sensitive to rounding (always true symbolically)"""
    if not c.symbolic:
        import math
        for x in xs:
            c.assume(abs(float(x) - round(float(x))) > 1e-3 or float(x) * 64 == math.floor(float(x) * 64))


def thickness(c, i):
    return c.real("t%d" % i, gt=0) if c.symbolic else c.choice("t%d" % i, [0.25, 0.5, 0.34375, 1.0, 0.0625])


@contract(P, trials=50, timeout=20, budget=300)
def scene(c):
    """init_fdtd for up to two layers: absorbers, detectors, source, and the material of every cell"""
    f_init = c.fn(INIT, "init_fdtd")
    s, p, f = numbers(c)
    n = c.choice("layers", [0, 1, 2])
    ts = [thickness(c, i) for i in range(max(n, 1))]
    k = c.int("to detector", 1, cmax=6)
    wl = c.real("wl", gt=0, near=(3e-7, 2e-6))
    kind, pulse = c.choice("source", ["line", "point"]), c.choice("pulse", ["continuous", "ricker"])
    total = sum(ts)
    cells = lambda x: c.trunc(s * x)
    size = cells(2 * p + 2 * f + total)
    tie(c, s * p, s * (p + f), s * (2 * p + 2 * f + total), *[s * (p + f + sum(ts[:i])) for i in range(len(ts) + 1)])
    c.assume(c.and_(cells(p) >= 1, k < c.trunc(s * f)))
    sx, sy = (c.real("sx", lo=0), c.real("sy", lo=0)) if c.symbolic else (c.choice("sx", [0.5, 1.0, 1.5]), c.choice("sy", [0.0, 0.125, 0.25]))
    tie(c, s * sx, s * sy)
    c.assume(c.and_(c.trunc(s * sx) < size, c.trunc(s * sy) < 3))
    cfg = c.cfg(FDTD_grid_scaling=c.number_as(s), FDTD_pml_thickness=p, FDTD_free_space_distance=f, PER_LAYER_THICKNESS=c.fixed(ts),
                FDTD_gridpoints_from_material_to_detector=k, FDTD_source_position=c.fixed([sx, sy]), FDTD_pulse_type=pulse, FDTD_source_type=kind)
    eps = c.tensor("eps", [1, 1, max(n, 1)], kind="c")
    re = [c.re(c.at(eps, 0, 0, i)) for i in range(n)]
    im = [c.im(c.at(eps, 0, 0, i)) for i in range(n)]
    c.assume(c.and_(*[c.abs(x) > (0 if c.symbolic else 0.1) for x in re]))
    eps0_ = c.snapshot(eps)
    g, td, rd = c.call(f_init, cfg, n > 0, wl, eps if n else None)
    c.eq("grid cells along x", g.Nx, size)
    c.check("three cells along y, one along z", c.and_(g.Ny == 3, g.Nz == 1))
    c.eq("spacing", g.grid_spacing * s, c.q("1e-6"))
    # absorbers
    lo = [b for b in g.boundaries if type(b).__name__ == "_PMLXlow"]
    hi = [b for b in g.boundaries if type(b).__name__ == "_PMLXhigh"]
    per = [b for b in g.boundaries if type(b).__name__ == "_PeriodicBoundaryY"]
    c.check("one absorber on each side and periodic sides", (len(lo), len(hi), len(per), len(g.boundaries)) == (1, 1, 1, 3))
    c.eq("front absorber", lo[0].thickness, cells(p))
    c.eq("back absorber", hi[0].thickness, cells(p))
    # detectors
    c.check("exactly the two detectors", len(g.detectors) == 2 and any(d is td for d in g.detectors) and any(d is rd for d in g.detectors) and td is not rd)
    first, last = cells(p + f), cells(p + f + total)
    for d_, nm in ((td, "t"), (rd, "r")):
        for x, y, z, i in zip(d_.x, d_.y, d_.z, range(3)):
            c.check(nm + " detector spans y", c.and_(y == i, z == 0))
            if nm == "r":
                c.check("reflection detector in the free space before the stack", c.and_(x >= cells(p), x < first))
                c.eq("reflection detector at its distance", x, first - k)
            else:
                c.check("transmission detector in the free space behind the stack", c.and_(x >= last, x < size - cells(p)))
                c.eq("transmission detector at its distance", x, last + k)
        c.check("three detector cells", len(d_.x) == 3 and len(d_.y) == 3 and len(d_.z) == 3)
    # source
    c.check("exactly one source", len(g.sources) == 1)
    src = g.sources[0]
    c.check("source kind", type(src).__name__ == {"line": "LineSource", "point": "PointSource"}[kind])
    c.check("source signal", src.signal_type == pulse)
    if kind == "line":
        c.check("line source spans y", len(src.x) == 3)
        for i in range(3):
            c.check("source cells", c.and_(src.x[i] == c.trunc(s * sx), src.y[i] == i, src.z[i] == 0))
    else:
        c.check("source cell", c.and_(src.x == c.trunc(s * sx), src.y == c.trunc(s * sy), src.z == 0))
    ratio = wl / c.q("299792458") / g.time_step
    if not c.symbolic:
        c.assume(abs(float(ratio) + 0.5 - round(float(ratio) + 0.5)) > 1e-4)
    c.eq("source period in steps", src.period, c.trunc(ratio + c.q("0.5")))
    # materials
    om = 2 * c.pi * c.q("299792458") / wl

    def cell(x, y):
        inv, ab = 1, 0
        for i in range(n):
            inside = c.and_(x >= cells(p + f + sum(ts[:i])), x < cells(p + f + sum(ts[:i + 1])))
            inv = c.ite(inside, c.div(1, re[i]), inv)
            ab = c.ite(inside, c.div(g.courant_number * im[i] * om * eps0(c) * g.grid_spacing * eta0(c), 2 * re[i]), ab)
        c.eq("permittivity seen by E_z", c.at(g.inverse_permittivity, x, y, 0, 2), inv)
        c.eq("loss seen by E_z", c.at(g.absorption_factor, x, y, 0, 2), ab, tol=None if c.symbolic else 1e-5)
        outside = c.or_(x < first, x >= last) if n else True
        for q in range(2):
            c.check("vacuum outside the stack", c.implies(outside, c.and_(c.at(g.inverse_permittivity, x, y, 0, q) == 1, c.at(g.absorption_factor, x, y, 0, q) == 0)))
        for q in range(3):
            c.eq("permeability of vacuum", c.at(g.inverse_permeability, x, y, 0, q), 1)
    c.forall([size, 3], cell)
    c.check("as many objects as layers", len(g.objects) == n)
    c.eq_tensor("permittivities not modified", eps, eps0_)


@contract(P, trials=30, timeout=20)
def layers_in_order(c):
    """init_fdtd for any number of layers: layer i is placed once, in order, from where layer i-1 ends, with its own permittivity"""
    f_init = c.fn(INIT, "init_fdtd")
    s, p, f = numbers(c)
    n = c.int("n", 1, cmax=5)
    ts = c.list("t", n, gt=0) if c.symbolic else [thickness(c, i) for i in range(n)]
    k = c.int("to detector", 1, cmax=6)
    wl = c.real("wl", gt=0, near=(3e-7, 2e-6))
    upto = lambda i: c.sum(i, lambda j: c.item(ts, j))
    total = upto(n)
    size = c.trunc(s * (2 * p + 2 * f + total))
    c.assume(c.and_(c.trunc(s * p) >= 1, k < c.trunc(s * f), c.trunc(s * p) < size))
    cfg = c.cfg(FDTD_grid_scaling=c.number_as(s), FDTD_pml_thickness=p, FDTD_free_space_distance=f, PER_LAYER_THICKNESS=ts,
                FDTD_gridpoints_from_material_to_detector=k, FDTD_source_position=c.fixed([p, 0.0]), FDTD_pulse_type="continuous", FDTD_source_type="line")
    eps = c.tensor("eps", [1, 1, n], kind="c")
    placed = c.fixed([])

    def add(grid, object_start_x, object_end_x, permittivity, frequency):
        placed.append((c.scalar(object_start_x), c.scalar(object_end_x), c.scalar(permittivity), c.scalar(frequency)))
        return grid
    with c.stub(INIT, _add_object=add):
        c.call(f_init, cfg, True, wl, eps)
    c.eq("every layer once", c.len(placed), n)
    if not c.symbolic:
        tie(c, s * (p + f), *[s * (p + f + upto(i)) for i in range(n + 1)])

    def each(i):
        a, b, e, fr = c.item(placed, i)
        c.eq("starts where the layers before end", a, c.trunc(s * (p + f + upto(i))))
        c.eq("ends after its thickness", b, c.trunc(s * (p + f + upto(i + 1))))
        c.eq("its own permittivity", e, c.at(eps, 0, 0, i))
        c.eq("at the simulated frequency", fr * wl, c.q("299792458"))
    c.forall([n], each)


@contract(P, trials=40, timeout=20)
def one_object(c):
    """_add_object on any grid: exactly its cells get its permittivity and the conductivity of its imaginary part"""
    add = c.fn(INIT, "_add_object")
    d = dims(c)
    g = make_grid(c, d)
    inv = c.tensor("inv", d + [3])
    ab = c.tensor("ab", d + [3])
    c.setattr(g, "inverse_permittivity", inv)
    c.setattr(g, "absorption_factor", ab)
    inv0, ab0 = c.snapshot(inv), c.snapshot(ab)
    a, b = c.int("from", 0, d[0], cmax=3), c.int("to", 0, d[0], cmax=3)
    c.assume(a <= b)
    e = c.cplx("eps")
    c.assume(c.abs(c.re(e)) > (0 if c.symbolic else 0.1))
    fr = c.real("freq", gt=0, near=(1e14, 1e15))
    pos = c.number_as if c.symbolic else lambda v: c.torch.tensor(int(v), dtype=c.torch.int32)
    out = c.call(add, g, pos(a), pos(b), c.number_as(e), fr)
    c.check("the same grid", out is g)
    c.check("one object", len(g.objects) == 1)
    sig = c.im(e) * fr * 2 * c.pi * eps0(c)

    def cell(x, y, z):
        inside = c.and_(x >= a, x < b)
        for q in range(3):
            edge = [c.and_(b - a > 1, x == b - 1), c.and_(d[1] > 1, y == d[1] - 1), c.and_(d[2] > 1, z == d[2] - 1)][q]
            v = c.at(g.inverse_permittivity, x, y, z, q)
            w = c.at(g.absorption_factor, x, y, z, q)
            c.check("cells outside keep their material", c.implies(c.not_(inside), c.and_(v == c.at(inv0, x, y, z, q), w == c.at(ab0, x, y, z, q))))
            if c.symbolic:
                # the last row along its own axis takes the permittivity of the grid's edge: the object is made symmetric
                c.check("cells inside get 1/permittivity", c.implies(c.and_(inside, c.not_(edge)), v == c.div(1, c.re(e))))
                c.check("cells inside get the loss", c.implies(inside, 2 * w == g.courant_number * v * sig * g.grid_spacing * eta0(c)))
            elif inside:
                if not edge:
                    c.eq("cells inside get 1/permittivity", float(v), 1 / float(c.re(e)))
                c.eq("cells inside get the loss", float(2 * w), float(g.courant_number * v * sig * g.grid_spacing * eta0(c)), tol=1e-5)
    c.forall(d, cell)


@contract(P)
def scaling(c):
    """the scaling resolves the shortest wavelength by ten points and is at least the configured minimum"""
    f = c.fn(SCALE, "_compute_fdtd_grid_scaling")
    w0 = c.real("w0", gt=0, near=(2e-7, 2e-6))
    m = c.int("min", 1, cmax=40)
    cfg = c.cfg(physical_wavelength_range=c.fixed([w0, c.real("w1", gt=0)]), FDTD_min_gridpoints_per_unit_magnitude=m)
    s = c.scalar(c.call(f, cfg))
    want = c.max(c.div(c.q("1e-6"), w0 * c.q("0.1")), m)
    c.eq("scaling", s, want, tol=None if c.symbolic else 1e-5 * max(1.0, float(want)))
