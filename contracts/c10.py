"""C10 FDTD spectra compare matching runs per wavelength."""
from pyvc.contract import contract

P = "C10"
MOD = "nidn.fdtd_integration.compute_spectrum_fdtd"


class Scene:
    """grid and detectors of one run, by contract: what the detectors recorded is an arbitrary function of the scene's inputs
    (kind of run, wavelength, the permittivity at an arbitrary probe, number of steps)"""

    def __init__(self, c, w, obj, wl, e, cfg):
        self.c, self.w, self.obj, self.wl, self.e, self.cfg = c, w, obj, wl, e, cfg
        self.steps = None

    def run(self, total_time, progress_bar=True):
        self.c.check("run once", self.steps is None)
        self.steps = total_time


class Detector:
    def __init__(self, c, scene, which):
        self.c, self.scene, self.which = c, scene, which

    def detector_values(self):
        s, c = self.scene, self.c
        c.check("recorded after the run", s.steps is not None)
        nm = "sig_%s_%s" % (self.which, "object" if s.obj else "free")

        def val(t, p, d, field):
            args = [c.scalar(s.wl), c.scalar(s.steps)] + ([c.re(s.e), c.im(s.e)] if s.obj else []) + [t, p, d]
            return c.uf(nm + field, *args)
        w = s.w
        return {"E": c.array([w.nt, w.npts, 3], lambda t, p, d: val(t, p, d, "E")), "H": c.array([w.nt, w.npts, 3], lambda t, p, d: val(t, p, d, "H"))}


@contract(P, budget=200.0)
def pairing(c):
    """entry i: one free-space and one material run at wavelength i with slice i, its signals and coefficients in the right places"""
    f = c.fn(MOD, "compute_spectrum_fdtd")
    nl, nf = c.int("nl", 1, cmax=2), c.int("nf", 1, cmax=2)
    nx, ny = c.int("nx", 1, cmax=1), c.int("ny", 1, cmax=1)
    nt, npts, niter = c.int("nt", 1, cmax=3), c.int("npts", 1, cmax=12), c.int("niter", 1)
    eps = c.tensor("eps", [nx, ny, nl, nf], kind="c")
    eps0 = c.snapshot(eps)
    wl = c.tensor("wl", [nf], gt=0)
    shared = c.choice("thickness", ["shared", "per layer"]) == "shared"
    th = c.list("th", 1 if shared else nl, gt=0)
    th0 = c.snapshot(th)
    probe = [c.int("probe_i", 0, nx - 1, cmax=1), c.int("probe_j", 0, ny - 1, cmax=1), c.int("probe_l", 0, nl - 1, cmax=1)]
    tl = c.int("probe_th", 0, nl - 1, cmax=1)
    cfg = c.cfg(PER_LAYER_THICKNESS=th, N_layers=nl, FDTD_niter=niter, N_freq=nf, physical_wavelength_range=c.fixed([c.real("w0", gt=0), c.real("w1", gt=0)]),
                FDTD_free_space_distance=c.real("fs", gt=0), FDTD_min_gridpoints_per_unit_magnitude=c.int("mg", 1))

    class W:
        pass
    w = W()
    w.nt, w.npts = nt, npts

    def init(cfg_, include_object, wavelength, permittivity):
        c.check("scene of this config", cfg_ is cfg)
        c.eq("a thickness for every layer", c.len(cfg_.PER_LAYER_THICKNESS), nl)
        c.eq("of that layer", c.scalar(c.item(cfg_.PER_LAYER_THICKNESS, tl)), c.at(th0, 0 if shared else tl))
        c.eq("grid scaling known", c.scalar(cfg_.FDTD_grid_scaling), 7)
        e = None
        if include_object:
            c.isshape("slice of one wavelength", permittivity, nx, ny, nl)
            e = c.at(permittivity, *probe)
        s = Scene(c, w, bool(include_object), wavelength, e, cfg_)
        return s, Detector(c, s, "T"), Detector(c, s, "R")

    def signal(kind, which, i):
        """what the recorded signal of run kind at detector which, wavelength i must be (per time step)"""
        e = c.at(eps0, *probe, i)

        def at(t):
            args = [c.at(wl, i), niter] + ([c.re(e), c.im(e)] if kind == "object" else [])
            nm = "sig_%s_%sE" % (which, kind)
            return c.div(c.sum(npts, lambda p: c.uf(nm, *args, t, p, 2)), npts)
        return at
    tp = c.int("probe_t", 0, nt - 1, cmax=2)

    def coeffs(transmission_signals, reflection_signals, wavelength, cfg):
        c.check("free-space and material signal", len(transmission_signals) == 2 and len(reflection_signals) == 2)
        for s in list(transmission_signals) + list(reflection_signals):
            c.isshape("one value per recorded step", s, nt)
        args = [c.at(transmission_signals[0], tp), c.at(transmission_signals[1], tp), c.at(reflection_signals[0], tp), c.at(reflection_signals[1], tp), c.scalar(wavelength)]
        return c.number_as(c.uf("T", *args)), c.number_as(c.uf("R", *args))
    log = {"calls": 0}

    def freqs(cfg_):
        log["calls"] += 1
        return wl, wl
    stubs = dict(get_frequency_points=freqs, _compute_fdtd_grid_scaling=lambda cfg_: c.number_as(7), init_fdtd=init, calculate_transmission_reflection_coefficients=coeffs,
                 _check_if_enough_timesteps=lambda cfg, wavelength, permittivity: None)
    with c.stub(MOD, **stubs):
        R, T = c.call(f, eps, cfg)
    c.eq("one reflection per wavelength", c.len(R), nf)
    c.eq("one transmission per wavelength", c.len(T), nf)

    def entry(i):
        args = [signal("free", "T", i)(tp), signal("object", "T", i)(tp), signal("free", "R", i)(tp), signal("object", "R", i)(tp), c.at(wl, i)]
        c.eq("reflection first", c.scalar(c.item(R, i)), c.uf("R", *args))
        c.eq("transmission second", c.scalar(c.item(T, i)), c.uf("T", *args))
    c.forall([nf], entry)
    c.eq_tensor("grid not modified", eps, eps0)


@contract(P, trials=20)
def timestep_advice(c):
    """the advice on the number of steps neither fails nor touches the config (some layer has a non-negative real permittivity)"""
    f = c.fn(MOD, "_check_if_enough_timesteps")
    nl = c.int("nl", 1, cmax=3)
    eps = c.tensor("eps", [1, 1, nl], kind="c")
    c.assume(c.re(c.at(eps, 0, 0, 0)) >= 0)
    th = c.list("th", nl, gt=0)
    cfg = c.cfg(PER_LAYER_THICKNESS=th, FDTD_free_space_distance=c.real("fs", gt=0), FDTD_grid_scaling=c.number_as(c.real("scale", gt=0)), FDTD_niter=c.int("niter", 1))
    keys, niter = sorted(cfg.keys()), cfg.FDTD_niter
    o = c.outcome(f, cfg, c.real("wl", gt=0) * c.q("0.000001"), eps)
    c.check("no error", o.ok, repr(o.err))
    c.check("config not modified", sorted(cfg.keys()) == keys)
    c.eq("number of steps not modified", cfg.FDTD_niter, niter)


@contract(P, mode="bounded", trials=2)
def vacuum_end_to_end(c):
    """the unmodified solver on layers of vacuum: both runs are the same, so nothing is reflected and everything transmitted"""
    import torch
    f = c.fn("nidn.utils.compute_spectrum", "compute_spectrum")
    nl, nf = c.choice("nl", [1, 2]), c.choice("nf", [1, 2])
    cfg = c.fn("nidn.utils.load_default_cfg", "load_default_cfg")()
    cfg.solver = "FDTD"
    cfg.N_freq, cfg.N_layers, cfg.PER_LAYER_THICKNESS = nf, nl, [0.3]
    cfg.physical_wavelength_range = [0.8e-6, 1.1e-6]
    cfg.FDTD_niter = 250
    cfg.FDTD_free_space_distance = 1.0
    cfg.FDTD_pml_thickness = 0.8
    cfg.FDTD_source_position = [1.2, 0.1]
    cfg.FDTD_gridpoints_from_material_to_detector = 2
    cfg.FDTD_min_gridpoints_per_unit_magnitude = 12
    cfg.FDTD_source_type = c.choice("source", ["line", "point"])
    eps = torch.ones((1, 1, nl, nf), dtype=torch.cfloat)
    R, T = f(eps, cfg, validate_cfg=False)
    c.check("one entry per wavelength", len(R) == nf and len(T) == nf)
    for k in range(nf):
        c.eq("nothing reflected", float(R[k]), 0.0, tol=1e-9)
        c.check("nearly everything transmitted", 0.9 < float(T[k]) < 1.1, float(T[k]))
