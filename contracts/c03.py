"""C03 RCWA spectra pair each frequency with its own permittivity."""
from pyvc.contract import contract

P = "C03"
MOD = "nidn.trcwa.compute_spectrum_trcwa"
INIT = "nidn.trcwa.init_trcwa"
RC = "nidn.trcwa.trcwa"
PI = 3.14159265358979323846


def setup(c, nfmax=3, positive=False):
    nx, ny, nl, nf = c.int("nx", 1, cmax=2), c.int("ny", 1, cmax=2), c.int("nl", 1, cmax=3), c.int("nf", 1, cmax=nfmax)
    eps = c.tensor("eps", [nx, ny, nl, nf], kind="c")
    fr = c.tensor("freq", [nf], lib="numpy", gt=0)
    return nx, ny, nl, nf, eps, fr


@contract(P, trials=20)
def dispatch(c):
    """compute_spectrum: validates (unless told not to), then hands grid and config to the configured solver and returns its result"""
    f = c.fn("nidn.utils.compute_spectrum", "compute_spectrum")
    solver = c.choice("solver", ["TRCWA", "FDTD"])
    validate = c.choice("validate", [True, False, None])
    valid = c.choice("valid", [True, False])
    cfg, grid, log = c.cfg(solver=solver), object(), []

    def val(cfg_):
        log.append("validate")
        c.check("validates this config", cfg_ is cfg)
        if not valid:
            raise RuntimeError("invalid")

    def solve(name):
        def s(g, cfg_):
            log.append(name)
            c.check("grid and config handed over", g is grid and cfg_ is cfg)
            return (name, "R"), (name, "T")
        return s
    with c.stub("nidn.utils.compute_spectrum", _validate_config=val, compute_spectrum_fdtd=solve("FDTD"), compute_spectrum_trcwa=solve("TRCWA")):
        o = c.outcome(f, grid, cfg) if validate is None else c.outcome(f, grid, cfg, validate_cfg=validate)
    if validate is not False and not valid:
        c.check("an invalid config is rejected before solving", o.exc == "RuntimeError" and log == ["validate"], (o.exc, log))
        return
    c.check("no error", o.ok, repr(o.err))
    c.check("the configured solver, once, after validation", log == (["validate"] if validate is not False else []) + [solver], log)
    c.check("reflectance first", tuple(o.value) == ((solver, "R"), (solver, "T")))


@contract(P, budget=150.0)
def pairing(c):
    """entry k comes from frequency k and permittivity slice k, R and T in that order, nothing modified"""
    f = c.fn(MOD, "compute_spectrum_trcwa")
    nx, ny, nl, nf, eps, fr = setup(c)
    cfg = c.cfg(Nx=nx, Ny=ny, N_layers=nl, N_freq=nf, target_frequencies=fr)
    eps0, fr0 = c.snapshot(eps), c.snapshot(fr)
    # an arbitrary probe point of the slice: the solver may depend on it, as an arbitrary function
    pi, pj, pl = c.int("probe_i", 0, nx - 1, cmax=1), c.int("probe_j", 0, ny - 1, cmax=1), c.int("probe_l", 0, nl - 1, cmax=2)

    def val(nm, grid, q):
        e = c.at(grid, pi, pj, pl)
        return c.uf(nm, c.scalar(q), c.re(e), c.im(e))

    class Solver:
        def __init__(self, grid, q, k):
            self.grid, self.q = grid, q

        def RT_Solve(self, normalize=0, byorder=0):
            c.check("normalised, total power", normalize == 1 and byorder == 0)
            return c.number_as(val("R", self.grid, self.q)), c.number_as(val("T", self.grid, self.q))

    def init(eps_grid, target_frequency, run_cfg):
        c.isshape("slice of one frequency", eps_grid, nx, ny, nl)
        c.check("the same config", run_cfg is cfg)
        return Solver(eps_grid, target_frequency, None)
    with c.stub(MOD, _init_trcwa=init):
        R, T = c.call(f, eps, cfg)
    c.eq("one reflectance per frequency", c.len(R), nf)
    c.eq("one transmittance per frequency", c.len(T), nf)

    def at(k):
        e = c.at(eps0, pi, pj, pl, k)
        for nm, L in (("R", R), ("T", T)):
            c.eq("entry of %s" % nm, c.scalar(c.item(L, k)), c.uf(nm, c.at(fr0, k), c.re(e), c.im(e)))
    c.forall([nf], at)
    c.eq_tensor("grid not modified", eps, eps0)
    c.eq_tensor("frequencies not modified", cfg.target_frequencies, fr0)
    c.check("config not modified", sorted(cfg.keys()) == ["N_freq", "N_layers", "Nx", "Ny", "target_frequencies"])


@contract(P, trials=60)
def rejects(c):
    """NaN anywhere raises ValueError; a grid or frequency list that disagrees with the config is rejected"""
    f = c.fn(MOD, "compute_spectrum_trcwa")
    nx, ny, nl, nf, eps, fr = setup(c)
    cx, cy, cl, cf = c.int("cx", 1, cmax=2), c.int("cy", 1, cmax=2), c.int("cl", 1, cmax=3), c.int("cf", 1, cmax=3)
    nq = c.int("nq", 0, cmax=3)
    fr = c.tensor("freqs", [nq], lib="numpy", gt=0)
    cfg = c.cfg(Nx=cx, Ny=cy, N_layers=cl, N_freq=cf, target_frequencies=fr)
    ran = []

    class Solver:
        def RT_Solve(self, normalize=0, byorder=0):
            return c.number_as(c.q("0")), c.number_as(c.q("0"))

    def init(eps_grid, target_frequency, run_cfg):
        ran.append(1)
        return Solver()
    nan = c.choice("nan", [False, True])
    if nan and not c.symbolic:
        t = eps.clone()
        t.view(-1)[c.rng.randrange(t.numel())] = complex(float("nan"), 0) if c.rng.random() < 0.5 else complex(0, float("nan"))
        eps = t
    elif nan:
        c.assume(False)
    with c.stub(MOD, _init_trcwa=init):
        o = c.outcome(f, eps, cfg)
    if nan:
        c.check("NaN is a ValueError", o.exc == "ValueError", o.exc)
        c.check("nothing was solved", not ran)
        return
    same = c.and_(nx == cx, ny == cy, nl == cl, nf == cf, nq == cf)
    c.check("accepted exactly when the sizes agree", c.iff(same, o.ok), repr(o.err))


class Media:
    """the RCWA core by its contract: what a layer contributes is an arbitrary function of its own permittivity (at an arbitrary
    probe point) and of the frequency"""

    def __init__(self, c, pi, pj):
        self.c, self.pi, self.pj, self.seen = c, pi, pj, None

    def tok(self, nm, omega, e):
        c = self.c
        o, e = c.scalar(omega), c.scalar(e)
        return c.uf(nm, c.re(o), c.im(o), c.re(e), c.im(e))

    def arr(self, v):
        return self.c.array([1], lambda _: v)

    def stubs(self):
        c = self.c

        def kp(omega, layer_type, epinv, kx, ky):
            if layer_type == 0:
                return self.arr(self.tok("kpU", omega, epinv))
            return self.arr(self.tok("kpG", omega, c.at(epinv, 0)))

        def uni(omega, kx, ky, epsilon):
            return self.arr(self.tok("qU", omega, epsilon)), self.arr(self.tok("phiU", omega, epsilon))

        def pat(omega, kx, ky, kp, ep2):
            # M depends on both kp and the permittivity operator
            return self.arr(c.uf("qG", c.at(kp, 0), c.at(ep2, 0))), self.arr(c.uf("phiG", c.at(kp, 0), c.at(ep2, 0)))

        def fft(dN, eps_grid, G):
            self.sizes(dN, eps_grid)
            e = c.at(eps_grid, self.pi, self.pj)
            return self.arr(c.uf("epinv", c.re(e), c.im(e))), self.arr(c.uf("ep2", c.re(e), c.im(e)))

        def ext(a0, bN, q_list, phi_list, kp_list, thickness_list):
            self.seen = (q_list, phi_list, kp_list, thickness_list)
            return c.array([2], lambda _: 0, kind="c"), c.array([2], lambda _: 0, kind="c")

        def flux(ai, bi, omega, kp, phi, q, byorder=0):
            return c.number_as(c.q("1")), c.number_as(c.q("1"))
        return dict(MakeKPMatrix=kp, SolveLayerEigensystem_uniform=uni, SolveLayerEigensystem=pat, Epsilon_fft=fft, SolveExterior=ext, GetZPoyntingFlux=flux,
                    Lattice_Reciprocate=lambda a, b: (c.array([2], lambda i: 1 - i), c.array([2], lambda i: i)),
                    Lattice_getG=lambda nG, a, b, method=0: (c.array([1, 2], lambda i, j: 0, kind="i"), 1),
                    Lattice_SetKs=lambda G, kx0, ky0, a, b: (c.array([1], lambda i: 0, kind="c"), c.array([1], lambda i: 0, kind="c")))

    def sizes(self, dN, g):
        c = self.c
        nx, ny = c.shape(g)
        c.check("Fourier weight is one over the number of points", c.abs(dN * nx * ny - 1) < 1e-9 if not c.symbolic else dN * nx * ny == 1)


@contract(P, budget=200.0)
def stack(c):
    """_init_trcwa: top medium, layers 0..N-1 in order with their own thickness, bottom medium - what the RCWA core is given"""
    f = c.fn(INIT, "_init_trcwa")
    nx, ny, nl = c.int("nx", 1, cmax=3), c.int("ny", 1, cmax=3), c.int("nl", 1, cmax=3)
    eps = c.tensor("eps", [nx, ny, nl], kind="c")
    c.assume_all(nl, lambda l: c.or_(c.re(c.at(eps, 0, 0, l)) != 0, c.im(c.at(eps, 0, 0, l)) != 0))
    eps0 = c.snapshot(eps)
    fq = c.real("freq", gt=0)
    top, bot = c.real("top", gt=0), c.real("bottom", gt=0)
    shared = c.choice("thickness", ["shared", "per layer"]) == "shared"
    th = c.list("th", 1 if shared else nl, gt=0)
    if not shared and c.symbolic:
        c.assume(nl > 1)
    th0 = c.snapshot(th)
    lx, ly = c.real("lx", gt=0), c.real("ly", gt=0)
    cfg = c.cfg(TRCWA_NG=11, TRCWA_L_grid=[[lx, 0.0], [0.0, ly]], TRCWA_TOP_LAYER_EPS=top, TRCWA_BOTTOM_LAYER_EPS=bot, PER_LAYER_THICKNESS=th)
    m = Media(c, c.int("probe_i", 0, nx - 1, cmax=2), c.int("probe_j", 0, ny - 1, cmax=2))
    with c.stub(RC, **m.stubs()):
        t = c.call(f, eps, fq, cfg)
        omega = t.omega
        t.RT_Solve(normalize=1)
    q, phi, kp, thick = m.seen
    for nm, l in (("modes", q), ("mode shapes", phi), ("operators", kp), ("thicknesses", thick)):
        c.eq("one entry of %s per medium" % nm, c.len(l), nl + 2)

    def uniform(l, e):
        c.eq("modes", c.at(c.item(q, l), 0), m.tok("qU", omega, e))
        c.eq("mode shapes", c.at(c.item(phi, l), 0), m.tok("phiU", omega, e))
        c.eq("operator", c.at(c.item(kp, l), 0), m.tok("kpU", omega, 1 / e))
    o = c.scalar(omega)
    c.eq("angular frequency", c.re(o), c.q("2") * c.pi * fq, tol=1e-6)
    uniform(0, top)
    uniform(nl + 1, bot)
    flat = c.and_(nx == 1, ny == 1)

    def layer(l):
        if flat:
            uniform(l + 1, c.at(eps0, 0, 0, l))
        else:
            e = c.at(eps0, m.pi, m.pj, l)
            ep2, inv = c.uf("ep2", c.re(e), c.im(e)), c.uf("epinv", c.re(e), c.im(e))
            k = m.tok("kpG", omega, inv)
            c.eq("operator of the layer's own grid", c.at(c.item(kp, l + 1), 0), k)
            c.eq("modes of the layer's own grid", c.at(c.item(q, l + 1), 0), c.uf("qG", k, ep2))
            c.eq("mode shapes of the layer's own grid", c.at(c.item(phi, l + 1), 0), c.uf("phiG", k, ep2))
        c.eq("own thickness", c.scalar(c.item(thick, l + 1)), c.at(th0, 0 if shared else l))
    c.forall([nl], layer)
    c.eq_tensor("grid not modified", eps, eps0)
    c.eq("config not modified", c.len(cfg.PER_LAYER_THICKNESS), c.len(th0))


@contract(P, mode="bounded", trials=6)
def end_to_end(c):
    """the unmodified solver: every entry equals the one-frequency computation with that frequency and slice alone, also for NaN rejection"""
    f = c.fn("nidn.utils.compute_spectrum", "compute_spectrum")
    import torch, copy
    r = c.rng
    nx = c.choice("nx", [1, 3, 4])
    ny = c.choice("ny", [1, 3])
    nl, nf = c.choice("nl", [1, 2, 3]), c.choice("nf", [1, 2, 3])
    g = torch.Generator().manual_seed(r.randrange(10**6))
    eps = 1.0 + 5 * torch.rand((nx, ny, nl, nf), generator=g) + 0.3j * torch.rand((nx, ny, nl, nf), generator=g)
    fr = sorted(r.uniform(0.4, 1.2) for _ in range(nf))
    th = [r.uniform(0.05, 0.6) for _ in range(c.choice("nth", [1, nl]))]
    cfg = c.cfg(solver="TRCWA", Nx=nx, Ny=ny, N_layers=nl, N_freq=nf, target_frequencies=fr, PER_LAYER_THICKNESS=th, TRCWA_NG=5, TRCWA_L_grid=[[0.3, 0.0], [0.0, 0.3]],
                TRCWA_TOP_LAYER_EPS=1.0, TRCWA_BOTTOM_LAYER_EPS=r.choice([1.0, 2.25]))
    before = eps.clone()
    R, T = f(eps, cfg, validate_cfg=False)
    c.check("one entry per frequency", len(R) == nf and len(T) == nf)
    c.check("grid not modified", torch.equal(eps, before))
    c.check("config not modified", cfg.PER_LAYER_THICKNESS == th and cfg.target_frequencies == fr)
    for k in range(nf):
        one = copy.copy(cfg)
        one = c.cfg(**dict(cfg.items()))
        one.N_freq, one.target_frequencies = 1, [fr[k]]
        r1, t1 = f(before[:, :, :, k:k + 1].clone(), one, validate_cfg=False)
        c.eq("reflectance depends on its own frequency and slice only", float(R[k]), float(r1[0]), tol=1e-7)
        c.eq("transmittance depends on its own frequency and slice only", float(T[k]), float(t1[0]), tol=1e-7)
    # a layer split in two of the same permittivity is the same stack
    l = r.randrange(nl)
    full = th * nl if len(th) == 1 else th
    a = r.uniform(0.2, 0.8)
    two = c.cfg(**dict(cfg.items()))
    two.N_layers = nl + 1
    two.PER_LAYER_THICKNESS = full[:l] + [a * full[l], (1 - a) * full[l]] + full[l + 1:]
    e2 = torch.cat([before[:, :, :l + 1], before[:, :, l:]], dim=2)
    R2, T2 = f(e2, two, validate_cfg=False)
    for k in range(nf):
        c.eq("a split layer is the same layer (R)", float(R2[k]), float(R[k]), tol=1e-6)
        c.eq("a split layer is the same layer (T)", float(T2[k]), float(T[k]), tol=1e-6)
    bad = before.clone()
    bad.view(-1)[r.randrange(bad.numel())] = complex(float("nan"), 1.0)
    o = c.outcome(f, bad, cfg, validate_cfg=False)
    c.check("NaN is a ValueError", o.exc == "ValueError", o.exc)
