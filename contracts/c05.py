"""C05 Reciprocal lattice and Fourier factorisation of patterned layers."""
from pyvc.contract import contract

P = "C05"
KB = "nidn.trcwa.utils.kbloch"
FF = "nidn.trcwa.utils.fft_funs"
RC = "nidn.trcwa.trcwa"


def lattice(c):
    a, b = [c.real("l1x", lo=-4, hi=4), c.real("l1y", lo=-4, hi=4)], [c.real("l2x", lo=-4, hi=4), c.real("l2y", lo=-4, hi=4)]
    d = a[0] * b[1] - a[1] * b[0]
    c.assume(c.abs(d) > 0.05 if not c.symbolic else d != 0)
    return a, b


@contract(P)
def reciprocal(c):
    """reciprocal vectors are dual to the lattice vectors: Lk_i . L_j = delta_ij, for every non-degenerate lattice"""
    f = c.fn(KB, "Lattice_Reciprocate")
    a, b = lattice(c)
    u, v = c.call(f, list(a), list(b))
    c.isshape("two components of Lk1", u, 2)
    c.isshape("two components of Lk2", v, 2)
    for nm, k, l, want in (("Lk1.L1 = 1", u, a, 1), ("Lk1.L2 = 0", u, b, 0), ("Lk2.L1 = 0", v, a, 0), ("Lk2.L2 = 1", v, b, 1)):
        c.eq(nm, c.at(k, 0) * l[0] + c.at(k, 1) * l[1], want, tol=1e-9)


@contract(P)
def set_ks(c):
    """in-plane wave vector of every order: k0 + 2 pi (g1 Lk1 + g2 Lk2)"""
    f = c.fn(KB, "Lattice_SetKs")
    n = c.int("n", 1, cmax=5)
    G = c.tensor("G", [n, 2], kind="i", lo=-4, hi=4)
    u, v = c.tensor("u", [2]), c.tensor("v", [2])
    kx0, ky0 = c.cplx("kx0"), c.cplx("ky0")
    G0, u0, v0 = c.snapshot(G), c.snapshot(u), c.snapshot(v)
    kx, ky = c.call(f, G, c.number_as(kx0), c.number_as(ky0), u, v)
    c.isshape("one kx per order", kx, n)
    c.isshape("one ky per order", ky, n)

    def at(i):
        for nm, k, k0, s in (("kx", kx, kx0, 0), ("ky", ky, ky0, 1)):
            c.eq(nm, c.at(k, i), k0 + 2 * c.pi * (c.at(u0, s) * c.at(G0, i, 0) + c.at(v0, s) * c.at(G0, i, 1)), tol=1e-6)
    c.forall([n], at)
    c.eq_tensor("orders not modified", G, G0)


@contract(P)
def getG(c):
    """Lattice_getG: method 0 is the circular truncation of exactly these arguments; any other unknown method is rejected"""
    f = c.fn(KB, "Lattice_getG")
    n = c.int("n", 1, cmax=30)
    u, v, G = object(), object(), object()
    m = c.choice("method", [0, 1, 2, -1])
    kept = c.int("kept", 1, cmax=30)

    def circ(nG, a, b):
        c.eq("requested number of orders", nG, n)
        c.check("the two reciprocal vectors in order", a is u and b is v)
        return G, kept
    with c.stub(KB, Gsel_circular=circ):
        if m == 1:
            return
        o = c.outcome(f, n, u, v, m)
        if m == 0:
            c.check("no error", o.ok, repr(o.err))
            c.check("orders of the truncation", o.value[0] is G)
            c.eq("number of orders kept", o.value[1], kept)
            with_default = c.call(f, n, u, v)
            c.check("circular is the default", with_default[0] is G)
        else:
            c.check("unknown truncation rejected", not o.ok)


class Fourier:
    """torch.fft.fft2 by its contract: entry (k, l), 0 <= k < Nx, 0 <= l < Ny, is sum s[x,y] exp(-2 pi i (k x/Nx + l y/Ny)) - an
    arbitrary function of the grid (seen at an arbitrary probe point); concretely the sum itself is the oracle"""

    def __init__(self, c, nx, ny):
        self.c, self.nx, self.ny = c, nx, ny
        self.pi, self.pj = c.int("probe_i", 0, nx - 1, cmax=5), c.int("probe_j", 0, ny - 1, cmax=5)
        c.hook("fft2", self.fft)

    def uf(self, k, l, s):
        c = self.c
        p = c.at(s, self.pi, self.pj)
        return c.mkc(c.uf("Fre", k, l, c.re(p), c.im(p)), c.uf("Fim", k, l, c.re(p), c.im(p)))

    def fft(self, t):
        c = self.c
        c.isshape("transform of the whole grid", t, self.nx, self.ny)
        s = c.snapshot(t)
        return c.array([self.nx, self.ny], lambda k, l: self.uf(k, l, s), kind="c")

    def coeff(self, s, g, h):
        """discrete Fourier coefficient of the grid s at the (possibly negative) order (g, h), normalised by the number of points"""
        c = self.c
        if c.symbolic:
            wrap = lambda k, n: c.ite(k >= 0, k, k + n)
            return self.uf(wrap(g, self.nx), wrap(h, self.ny), s) / (self.nx * self.ny)
        import numpy as np
        a = np.asarray(s.detach().cpu().numpy(), dtype=complex)
        x, y = np.arange(self.nx)[:, None], np.arange(self.ny)[None, :]
        return complex((a * np.exp(-2j * np.pi * (g * x / self.nx + h * y / self.ny))).sum() / (self.nx * self.ny))


def orders(c, nx, ny):
    """kept orders, resolved by the grid: differences below the grid size"""
    n = c.int("nG", 1, cmax=5)
    G = c.tensor("G", [n, 2], kind="i", lo=-3, hi=3) if not c.symbolic else c.tensor("G", [n, 2], kind="i")
    for k, m in ((0, nx), (1, ny)):
        c.assume_all(n, lambda i: c.all(n, lambda j: c.and_(c.at(G, i, k) - c.at(G, j, k) < m, c.at(G, j, k) - c.at(G, i, k) < m)))
    return n, G


def grid(c, name="s", nmax=7):
    nx, ny = c.int("nx", 1, cmax=nmax), c.int("ny", 1, cmax=nmax)
    return nx, ny, c.tensor(name, [nx, ny], kind="c")


@contract(P, trials=60)
def convolution(c):
    """get_conv: entry (i, j) is the discrete Fourier coefficient of the grid at order G_i - G_j"""
    f = c.fn(FF, "get_conv")
    nx, ny, s = grid(c)
    n, G = orders(c, nx, ny)
    F = Fourier(c, nx, ny)
    s0, G0 = c.snapshot(s), c.snapshot(G)
    out = c.call(f, c.div(c.div(1, nx), ny), s, G)
    c.isshape("square in the orders", out, n, n)
    c.forall([n, n], lambda i, j: c.eq("entry is the coefficient at the difference", c.at(out, i, j),
                                       F.coeff(s0, c.at(G0, i, 0) - c.at(G0, j, 0), c.at(G0, i, 1) - c.at(G0, j, 1)), tol=1e-6))
    c.eq_tensor("grid not modified", s, s0)
    c.eq_tensor("orders not modified", G, G0)


class Inverse:
    """matrix inversion by its contract: A X = 1; the result is an arbitrary function of the matrix (seen at an arbitrary probe entry)"""

    def __init__(self, c, n):
        self.c, self.n = c, n
        self.pi, self.pj = c.int("probe_a", 0, n - 1, cmax=4), c.int("probe_b", 0, n - 1, cmax=4)
        c.hook("inverse", self.inv)

    def uf(self, i, j, e):
        c = self.c
        return c.mkc(c.uf("Xre", i, j, c.re(e), c.im(e)), c.uf("Xim", i, j, c.re(e), c.im(e)))

    def inv(self, t):
        c = self.c
        c.isshape("inverse of the matrix over the orders", t, self.n, self.n)
        e = c.at(t, self.pi, self.pj)
        return c.array([self.n, self.n], lambda i, j: self.uf(i, j, e), kind="c")

    def check(self, name, X, entry):
        """X is the inverse of the matrix with these entries"""
        c, n = self.c, self.n
        c.isshape(name + " (shape)", X, n, n)
        if c.symbolic:
            e = entry(self.pi, self.pj)
            c.forall([n, n], lambda i, j: c.eq(name, c.at(X, i, j), self.uf(i, j, e)))
            return
        import numpy as np
        A = np.array([[complex(entry(i, j)) for j in range(n)] for i in range(n)])
        if np.linalg.cond(A) < 1e6:
            c.check(name, np.abs(A @ X.detach().cpu().numpy() - np.eye(n)).max() < 1e-7)


def near(c, name, got, want, scale=1.0):
    """equal, up to the solver's rounding of entries below 1e-14 to zero"""
    for part, p in (("real", c.re), ("imaginary", c.im)):
        c.le("%s (%s part)" % (name, part), c.abs(p(got) - p(want)), c.q("0.00000000000001"), tol=1e-8 * scale)


def operator_entries(c, ep2, n, entry, scale=1.0):
    """ep2 is the block-diagonal operator with the convolution matrix in both blocks"""
    c.isshape("operator over both components", ep2, 2 * n, 2 * n)

    def at(i, j):
        near(c, "xx block", c.at(ep2, i, j), entry(i, j), scale)
        near(c, "yy block", c.at(ep2, n + i, n + j), entry(i, j), scale)
        near(c, "xy block", c.at(ep2, i, n + j), 0, scale)
        near(c, "yx block", c.at(ep2, n + i, j), 0, scale)
    c.forall([n, n], at)


@contract(P, trials=80, budget=200.0)
def operator(c):
    """Epsilon_fft: the permittivity operator is the convolution matrix of the grid for both components, and its companion the inverse"""
    f = c.fn(FF, "Epsilon_fft")
    nx, ny, s = grid(c)
    n, G = orders(c, nx, ny)
    if not c.symbolic:
        t = c.choice("kind", ["any", "negative", "constant", "tiny", "contrast", "real", "real contrast"])
        s = {"any": s, "tiny": 1e-8 * s, "contrast": 1 + 1e-8 * s, "real": s.real + 0j, "real contrast": 1 + 1e-8 * s.real + 0j, "negative": -abs(s.real) - 1j * abs(s.imag), "constant": 0 * s + s[0, 0]}[t]
    F, I = Fourier(c, nx, ny), Inverse(c, n)
    s0, G0 = c.snapshot(s), c.snapshot(G)
    entry = lambda i, j: F.coeff(s0, c.at(G0, i, 0) - c.at(G0, j, 0), c.at(G0, i, 1) - c.at(G0, j, 1))
    if not c.symbolic:
        import numpy as np
        A = np.array([[entry(i, j) for j in range(n)] for i in range(n)])
        c.assume(np.linalg.cond(A) < 1e8)
    epinv, ep2 = c.call(f, c.div(c.div(1, nx), ny), s, G)
    operator_entries(c, ep2, n, entry, 1.0 if c.symbolic else 1e-4 * float(s0.abs().max()))
    I.check("companion is the inverse", epinv, entry)
    c.eq_tensor("grid not modified", s, s0)
    c.eq_tensor("orders not modified", G, G0)


def length2(c, m, n, u, v):
    """squared length of m u + n v"""
    x, y = m * u[0] + n * v[0], m * u[1] + n * v[1]
    return x * x + y * y


def pick_lattice(c):
    """a pair of reciprocal vectors: square, rectangular, hexagonal, oblique or random, at any scale and orientation"""
    import math
    r = c.rng
    kind = c.choice("lattice", ["square", "rectangular", "hexagonal", "oblique", "random", "flat"])
    s, w = 10 ** r.uniform(-2, 2), r.uniform(0, 2 * math.pi) if r.random() < 0.5 else 0.0
    a, g = {"square": (1.0, math.pi / 2), "rectangular": (r.uniform(0.3, 3), math.pi / 2), "hexagonal": (1.0, math.pi / 3), "oblique": (r.uniform(0.5, 2), math.radians(r.uniform(25, 155))),
            "random": (r.uniform(0.3, 3), math.radians(r.uniform(35, 145))), "flat": (r.choice([4.0, 0.25, 10 ** r.uniform(-1.3, 1.3)]), math.pi / 2)}[kind]
    return [s * math.cos(w), s * math.sin(w)], [s * a * math.cos(w + g), s * a * math.sin(w + g)]


@contract(P, mode="bounded", trials=150, thorough=20)
def truncation(c):
    """Gsel_circular: at least one and at most the requested number of orders, all distinct, the zeroth first, and every order shorter
    than one that is kept is kept (against an exhaustive enumeration of a larger box)"""
    f = c.fn(KB, "Gsel_circular")
    n = c.int("nG", 1, cmax=120)
    if c.rng.random() < 0.4:
        n = c.rng.choice([1, 2, 3, 4, 5, 7, 9, 11, 13, 20, 21, 25, 37, 49, 101])
    u, v = pick_lattice(c)
    t = c.torch
    G, kept = c.call(f, n, t.tensor(u), t.tensor(v))
    rows = [tuple(int(x) for x in g) for g in G.tolist()]
    c.check("number of orders reported", len(rows) == int(kept))
    c.check("at least one, at most the requested number", 1 <= kept <= n, (kept, n))
    c.check("distinct", len(set(rows)) == len(rows))
    c.check("zeroth order first", rows[0] == (0, 0), rows[0])
    longest = max(length2(c, a, b, u, v) for a, b in rows)
    # |m| <= R |v| / |u x v|
    import math
    R, area = math.sqrt(longest), abs(u[0] * v[1] - u[1] * v[0])
    m1, m2 = int(R * math.hypot(*v) / area) + 2, int(R * math.hypot(*u) / area) + 2
    have = set(rows)
    for a in range(-m1, m1 + 1):
        for b in range(-m2, m2 + 1):
            if length2(c, a, b, u, v) < longest * (1 - 1e-7) - 1e-9 * min(u[0]**2 + u[1]**2, v[0]**2 + v[1]**2):
                c.check("every order shorter than a kept one is kept", (a, b) in have, (a, b))
    # whole shells: the number kept is that of the longest complete prefix below the request
    ls = [length2(c, a, b, u, v) for a, b in rows]
    c.check("ordered by length", all(ls[i] <= ls[i + 1] * (1 + 1e-7) + 1e-12 * longest for i in range(len(ls) - 1)))


@contract(P, budget=150.0)
def geteps(c):
    """GridLayer_geteps: every patterned layer gets the operator, modes and wave numbers of its own grid (its slice of a 3-D tensor, or its
    stretch of a flat one), solved with the wave vectors of the stack; uniform layers are left alone"""
    TR = c.fn(RC, "TRCWA")
    form = c.choice("grids", ["tensor", "flat"])
    kinds = c.choice("layers", ["g", "gg", "ugg", "gug"])
    t = TR(3, [1.0, 0.0], [0.0, 1.0], 1.0, 0.0, 0.0, verbose=0)
    # patterned layers of a tensor share its size; flat ones have their own
    dims = []
    nx, ny = c.int("nx", 1, cmax=4), c.int("ny", 1, cmax=4)
    own = [(2, 3), (3, 1)]
    t.Add_LayerUniform(1.0, c.number_as(c.real("eps0", gt=0)))
    for k in kinds:
        if k == "u":
            t.Add_LayerUniform(0.5, c.number_as(c.real("eps1", gt=0)))
        else:
            d = (nx, ny) if form == "tensor" else own[len(dims)]
            dims.append(d)
            t.Add_LayerGrid(0.3, *d)
    t.Add_LayerUniform(1.0, c.number_as(c.real("eps2", gt=0)))
    n = len(kinds) + 2
    t.G, t.omega, t.kx, t.ky = "G", "omega", "kx", "ky"
    t.Patterned_ep2_list, t.Patterned_epinv_list = [None] * len(dims), [None] * len(dims)
    t.kp_list, t.q_list, t.phi_list = (["%s%d" % (x, i) for i in range(n)] for x in ("kp", "q", "phi"))
    old = [list(x) for x in (t.kp_list, t.q_list, t.phi_list)]
    ep = c.tensor("eps", [nx, ny, len(kinds)] if form == "tensor" else [sum(a * b for a, b in dims)], kind="c")
    ep0 = c.snapshot(ep)
    grids = []

    def fft(dN, eps_grid, G):
        k = len(grids)
        c.check("orders of the stack", G == "G")
        grids.append(c.snapshot(eps_grid))
        if k < len(dims):
            c.eq("one over the number of points", c.scalar(dN), c.div(1, dims[k][0] * dims[k][1]), tol=1e-9)
        return "inv%d" % k, "ep%d" % k

    def op(omega, layer_type, epinv, kx, ky):
        c.check("operator of a patterned layer", layer_type != 0 and (omega, kx, ky) == ("omega", "kx", "ky"))
        return "kp of " + epinv

    def eig(omega, kx, ky, kp, ep2):
        c.check("modes with the wave vectors of the stack", (omega, kx, ky) == ("omega", "kx", "ky"))
        c.check("operator and permittivity of the same layer", kp == "kp of inv" + ep2[2:], (kp, ep2))
        return "q of " + ep2, "phi of " + ep2
    with c.stub(RC, Epsilon_fft=fft, MakeKPMatrix=op, SolveLayerEigensystem=eig):
        c.call(t.GridLayer_geteps, ep)
    c.check("every patterned layer once", len(grids) == len(dims), len(grids))
    k, at = 0, 0
    for i, kind in enumerate(kinds):
        now = (t.kp_list[i + 1], t.q_list[i + 1], t.phi_list[i + 1])
        if kind == "u":
            c.check("uniform layer left alone", now == tuple(x[i + 1] for x in old), now)
            continue
        c.check("modes of the layer's own grid", now == ("kp of inv%d" % k, "q of ep%d" % k, "phi of ep%d" % k), now)
        c.check("operators kept", t.Patterned_ep2_list[k] == "ep%d" % k and t.Patterned_epinv_list[k] == "inv%d" % k)
        g, (a, b) = grids[k], dims[k]
        c.isshape("grid of the layer", g, a, b)
        if form == "tensor":
            c.forall([a, b], lambda x, y: c.eq("points of the layer", c.at(g, x, y), c.at(ep0, x, y, i)))
        else:
            for x in range(a):
                for y in range(b):
                    c.eq("points of the layer", c.at(g, x, y), c.at(ep0, at + x * b + y))
            at += a * b
        k += 1
    for x, o in zip((t.kp_list, t.q_list, t.phi_list), old):
        c.check("outer media left alone", x[0] == o[0] and x[-1] == o[-1] and len(x) == n)
    c.eq_tensor("grids not modified", ep, ep0)


@contract(P, budget=200.0)
def init_setup(c):
    """Init_Setup: wave vectors of all orders come from the lattice of this stack, the kept orders and the incident wave; every uniform
    layer is solved with exactly these, patterned layers are left to be filled in"""
    TR = c.fn(RC, "TRCWA")
    a, b = lattice(c)
    n, req = c.int("nG", 1, cmax=4), c.int("requested", 1, cmax=4)
    G = c.tensor("G", [n, 2], kind="i", lo=-2, hi=2)
    fq = c.real("freq", gt=0, hi=5)
    th, ph = c.real("theta", lo=0, hi=1.5), c.real("phi", lo=0, hi=6.2)
    e0, e1 = c.real("eps0", gt=0, hi=9), c.real("eps1", gt=0, hi=9)
    ps = c.real("Pscale", gt=0, near=(0.5, 2)) if c.choice("scaled", [False, True]) else None
    log, made = [], []
    with c.stub(RC, Lattice_getG=lambda k, x, y, method=0: (log.append((k, c.snapshot(x), c.snapshot(y), method)), (G, n))[1],
                MakeKPMatrix=lambda omega, typ, inv, kx, ky: (made.append(("kp", omega, typ, inv, kx, ky)), ("kp", len(made)))[1],
                SolveLayerEigensystem_uniform=lambda omega, kx, ky, ep: (made.append(("eig", omega, kx, ky, ep)), (("q", len(made)), ("phi", len(made))))[1]):
        t = TR(req, list(a), list(b), c.mkc(fq, 0) if c.symbolic else complex(fq), th, ph, verbose=0)
        T = (lambda x: c.number_as(x))
        t.Add_LayerUniform(1.0, T(e0))
        t.Add_LayerGrid(0.3, 4, 5)
        t.Add_LayerUniform(0.7, T(e1))
        c.call(t.Init_Setup, Pscale=ps) if ps is not None else c.call(t.Init_Setup)
    c.check("orders chosen once, circular", len(log) == 1 and log[0][3] == 0)
    k, u, v, _ = log[0]
    c.eq("requested number of orders", k, req)
    d = a[0] * b[1] - a[1] * b[0]
    for nm, x, want in (("Lk1", u, (b[1] / d, -b[0] / d)), ("Lk2", v, (-a[1] / d, a[0] / d))):
        for s in (0, 1):
            c.eq("truncation uses the reciprocal lattice (%s)" % nm, c.at(x, s), want[s], tol=1e-6)
    c.eq("number of orders", t.nG, n)
    om = 2 * c.pi * fq
    for kk, ang in (("kx", c.cos), ("ky", c.sin)):
        s = 0 if kk == "kx" else 1
        k0 = om * c.sin(th) * ang(ph) * c.sqrt(e0)
        arr = getattr(t, kk)
        c.isshape(kk, arr, n)

        def at(i):
            got = c.at(arr, i)
            c.eq("%s of every order" % kk, c.re(got), k0 + 2 * c.pi * (c.at(u, s) * c.at(G, i, 0) + c.at(v, s) * c.at(G, i, 1)) / (1 if ps is None else ps), tol=1e-5)
            c.eq("%s real for a real frequency" % kk, c.im(got), 0, tol=1e-6)
        c.forall([n], at)
    c.check("three media", len(t.kp_list) == 3 and len(t.q_list) == 3 and len(t.phi_list) == 3)
    c.check("patterned layer left to be filled in", t.kp_list[1] is None and t.q_list[1] is None and t.phi_list[1] is None)
    c.check("two uniform media solved", [m[0] for m in made] == ["kp", "eig", "kp", "eig"] or sorted(m[0] for m in made) == ["eig", "eig", "kp", "kp"])
    for m, e in zip([m for m in made if m[0] == "kp"], (e0, e1)):
        c.check("same wave vectors", m[4] is t.kx and m[5] is t.ky and m[2] == 0)
        c.eq("inverse permittivity of the medium", c.re(c.scalar(m[3])), 1 / e, tol=1e-6)
    for m, e in zip([m for m in made if m[0] == "eig"], (e0, e1)):
        c.check("same wave vectors", m[2] is t.kx and m[3] is t.ky)
        c.eq("permittivity of the medium", c.re(c.scalar(m[4])), e, tol=1e-6)


@contract(P, mode="bounded", trials=25)
def constant_grid(c):
    """a grid that is constant in the plane gives the same spectrum as the equivalent uniform layer (unmodified solver)"""
    f = c.fn("nidn.utils.compute_spectrum", "compute_spectrum")
    t, r = c.torch, c.rng
    nl = c.choice("nl", [1, 2, 3])
    ng = c.choice("ng", [1, 5, 9, 11, 13])
    nx, ny = c.choice("nx", [3, 4, 5, 7]), c.choice("ny", [3, 4, 5, 6])
    if ng == 13:
        nx, ny = nx + 2, ny + 2
    eps = [complex(r.uniform(1, 9), r.choice([0.0, r.uniform(0, 2)])) for _ in range(nl)]
    if r.random() < 0.3:
        eps[r.randrange(nl)] = complex(-r.uniform(1, 9), r.uniform(0.1, 2))
    fr = [r.uniform(0.5, 2.0)]
    l = [[0.3, 0.0], [0.0, 0.3]] if r.random() < 0.5 else [[0.31, 0.07], [-0.05, 0.27]]
    base = dict(solver="TRCWA", N_layers=nl, N_freq=1, target_frequencies=fr, PER_LAYER_THICKNESS=[r.uniform(0.05, 0.6) for _ in range(nl)], TRCWA_NG=ng, TRCWA_L_grid=l,
                TRCWA_TOP_LAYER_EPS=1.0, TRCWA_BOTTOM_LAYER_EPS=r.choice([1.0, 2.25]))
    e = t.tensor(eps).reshape(1, 1, nl, 1)
    R1, T1 = f(e.clone(), c.cfg(Nx=1, Ny=1, **base), validate_cfg=False)
    R2, T2 = f(e.repeat(nx, ny, 1, 1), c.cfg(Nx=nx, Ny=ny, **base), validate_cfg=False)
    c.eq("reflectance of the uniform layer", float(R2[0]), float(R1[0]), tol=1e-5)
    c.eq("transmittance of the uniform layer", float(T2[0]), float(T1[0]), tol=1e-5)
