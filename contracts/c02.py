"""C02 Config validation accepts exactly the well-formed configs."""
from pyvc.contract import contract

P = "C02"
MOD = "nidn.utils.validate_config"
INT = "Nx Ny N_layers N_freq encoding_dim n_neurons eps_oversampling seed TRCWA_NG FDTD_niter FDTD_gridpoints_from_material_to_detector FDTD_min_gridpoints_per_unit_magnitude".split()
FLOAT = "L real_min_eps real_max_eps imag_min_eps imag_max_eps siren_omega noise_scale reg_loss_weight TRCWA_TOP_LAYER_EPS TRCWA_BOTTOM_LAYER_EPS FDTD_free_space_distance FDTD_pml_thickness".split()
BOOL = "use_regularization_loss add_noise use_gpu avoid_zero_eps".split()
STR = "model_type type name freq_distribution solver FDTD_source_type FDTD_pulse_type".split()
LIST = "PER_LAYER_THICKNESS TRCWA_L_grid FDTD_source_position target_reflectance_spectrum target_transmittance_spectrum physical_wavelength_range".split()
UNTYPED = "hidden_layers learning_rate iterations absorption_loss".split()
REQUIRED = INT + FLOAT + BOOL + STR + LIST + UNTYPED
OPTIONAL = "target_frequencies FDTD_grid model out_features results best_model_state_dict material_collection N_materials thicknesses FDTD_grid_scaling".split()
POSITIVE = ("L n_neurons Nx Ny N_layers N_freq learning_rate iterations eps_oversampling noise_scale TRCWA_NG reg_loss_weight FDTD_niter FDTD_free_space_distance "
            "FDTD_pml_thickness FDTD_gridpoints_from_material_to_detector FDTD_min_gridpoints_per_unit_magnitude").split()


def default(c, **kw):
    q = c.q
    d = dict(name="n", use_gpu=False, seed=100, model_type="siren", iterations=3000, learning_rate=q("8e-5"), type="regression", reg_loss_weight=q("0.05"),
             use_regularization_loss=True, L=q("1.0"), absorption_loss=False, n_neurons=100, hidden_layers=9, encoding_dim=4, siren_omega=q("1.0"), add_noise=False,
             noise_scale=q("0.001"), eps_oversampling=1, real_min_eps=q("-100.0"), real_max_eps=q("100.0"), imag_min_eps=q("0.0"), imag_max_eps=q("3.0"), solver="TRCWA",
             Nx=1, Ny=1, N_layers=8, PER_LAYER_THICKNESS=c.fixed([q("1.0")]), TRCWA_L_grid=c.fixed([c.fixed([q("0.1"), q("0.0")]), c.fixed([q("0.0"), q("0.1")])]),
             TRCWA_NG=11, TRCWA_TOP_LAYER_EPS=q("1.0"), TRCWA_BOTTOM_LAYER_EPS=q("1.0"), FDTD_source_type="line", FDTD_pulse_type="continuous", FDTD_pml_thickness=q("1.5"),
             FDTD_source_position=c.fixed([q("1.5"), q("1.0")]), FDTD_free_space_distance=q("1.0"), FDTD_niter=200, FDTD_gridpoints_from_material_to_detector=2,
             FDTD_min_gridpoints_per_unit_magnitude=10, avoid_zero_eps=True, target_reflectance_spectrum=c.fixed([q("0.0"), q("1.0")]),
             target_transmittance_spectrum=c.fixed([q("0.0"), q("0.0")]), physical_wavelength_range=c.fixed([q("1e-6"), q("30e-6")]), freq_distribution="linear", N_freq=20)
    assert sorted(d) == sorted(REQUIRED)
    d.update(kw)
    return c.cfg(**d)


def state(c, cfg):
    return [(k, v, c.snapshot(v) if isinstance(v, list) or c.has_segs(v) else None) for k, v in cfg.items()]


def unchanged(c, cfg, before):
    c.check("same keys", list(cfg.keys()) == [k for k, _, _ in before], list(cfg.keys()))
    for (k, v, s), (k2, v2) in zip(before, cfg.items()):
        if s is None:
            c.check("entry kept", v2 is v or (type(v2) is type(v) and not c.symbolic and v2 == v), k)
        elif k != "TRCWA_L_grid":
            c.eq("list length kept", c.len(v2), c.len(s))
            c.forall(c.len(s), lambda i: c.eq("list element kept", c.at(v2, i), c.at(s, i)))


def expect(c, cfg, exc):
    f = c.fn(MOD, "_validate_config")
    before = state(c, cfg)
    o = c.outcome(f, cfg)
    c.check("accepted" if exc is None else "raises " + exc, o.exc == exc, "%s: %s" % (o.exc, o.err))
    unchanged(c, cfg, before)


@contract(P, trials=70, maxpaths=20000, budget=250)
def missing_or_unknown_key(c):
    """each required entry missing, or an unknown entry present: KeyError; optional entries are accepted"""
    kind = c.choice("kind", ["missing", "unknown", "optional", "complete"])
    cfg = default(c, solver=c.choice("solver", ["TRCWA", "FDTD"]))
    if kind == "missing":
        del cfg[c.choice("key", REQUIRED)]
        expect(c, cfg, "KeyError")
    elif kind == "unknown":
        cfg[c.choice("name", ["nx", "NX", "foo", "Nx ", "FDTD_grids", "PER_LAYER_THICKNESSES", "target_frequency", "learning-rate", ""])] = 1
        expect(c, cfg, "KeyError")
    elif kind == "optional":
        k = c.choice("key", OPTIONAL)
        cfg[k] = c.fixed([1, 2]) if k == "FDTD_grid" else 3
        expect(c, cfg, None)
    else:
        expect(c, cfg, None)


@contract(P, trials=150, maxpaths=20000, budget=250)
def wrong_type(c):
    """each typed entry with a value of any other basic type: TypeError"""
    group, keys, bad = c.choice("group", [("int", INT, [1.0, "1", None, [1]]), ("float", FLOAT, [1, "1.0", None, [1.0]]), ("bool", BOOL, [0, 1, "True", None, 1.0]),
                                          ("str", STR, [1, None, 1.0, ["siren"]]), ("list", LIST, [1.0, None, "x", (1.0, 2.0), 3])])
    k = c.choice("key_" + group, keys)
    v = c.choice("value_" + group, bad)
    cfg = default(c)
    cfg[k] = v
    expect(c, cfg, "TypeError")


@contract(P, trials=150, maxpaths=20000, budget=250)
def names(c):
    """string options: accepted exactly for the documented values"""
    k, ok, no = c.choice("option", [("type", ["regression", "classification"], ["", "Regression", "regress", "both"]), ("freq_distribution", ["linear", "log"], ["", "Log", "lin"]),
                                    ("FDTD_source_type", ["line", "point"], ["plane", "", "Line"]), ("FDTD_pulse_type", ["ricker", "hanning", "continuous"], ["pulse", "", "Ricker"])])
    v = c.choice("v_" + k, ok + no)
    expect(c, default(c, **{k: v}), None if v in ok else "RuntimeError")


def iff_ok(c, cfg, spec):
    f = c.fn(MOD, "_validate_config")
    before = state(c, cfg)
    o = c.outcome(f, cfg)
    c.check("no other exception", o.exc in (None, "RuntimeError"), "%s %s" % (o.exc, o.err))
    c.check("accepted exactly when all rules hold", c.iff(o.ok, spec), o.err)
    unchanged(c, cfg, before)


@contract(P, trials=200, maxpaths=20000, budget=250)
def positive_numbers(c):
    """every scalar that must be positive (all values)"""
    k = c.choice("key", POSITIVE)
    whole = k in INT or k == "iterations"
    v = c.int("v", -3, cmax=8) if whole and not c.symbolic else c.int("v", None) if whole else c.real("v")
    cfg = default(c, N_layers=1, solver=c.choice("solver", ["TRCWA", "FDTD"]), **{}) if k != "N_layers" else default(c, solver=c.choice("solver", ["TRCWA", "FDTD"]))
    cfg[k] = v
    if k == "FDTD_free_space_distance":
        spec = c.trunc(v * 10) >= 2
    elif k == "FDTD_gridpoints_from_material_to_detector":
        spec = c.and_(v > 0, v <= 10)
    elif k == "FDTD_min_gridpoints_per_unit_magnitude":
        spec = v > 0
    elif k == "eps_oversampling":
        spec = v == 1
    else:
        spec = v > 0
    if k == "FDTD_min_gridpoints_per_unit_magnitude":
        # the default range gives max(10, v) points per micrometre
        pass
    if not c.symbolic and k == "FDTD_free_space_distance":
        c.assume(abs(v * 10 - round(v * 10)) > 1e-6)
    iff_ok(c, cfg, spec)


@contract(P, trials=100, maxpaths=20000, budget=250)
def orderings(c):
    """ordered ranges, oversampling divides the grid, lattice rows, detector inside the free space"""
    r0, r1, i0, i1 = (c.real(n) for n in ("real_min", "real_max", "imag_min", "imag_max"))
    w0, w1 = c.real("wl0", gt=0, near=(1e-7, 1e-5)), c.real("wl1", near=(5e-7, 1e-5))
    nx, ny, ov = c.int("nx", 1, cmax=7), c.int("ny", 1, cmax=7), c.int("ov", 1, cmax=3)
    a, b, d, e = (c.real("g%d" % i) for i in range(4))
    fs, pts, mn = c.real("free", gt=0), c.int("pts", 1, cmax=30), c.int("mn", 1, cmax=20)
    cfg = default(c, real_min_eps=r0, real_max_eps=r1, imag_min_eps=i0, imag_max_eps=i1, physical_wavelength_range=c.fixed([w0, w1]), Nx=nx, Ny=ny, eps_oversampling=ov,
                  TRCWA_L_grid=c.fixed([c.fixed([a, b]), c.fixed([d, e])]), FDTD_free_space_distance=fs, FDTD_gridpoints_from_material_to_detector=pts,
                  FDTD_min_gridpoints_per_unit_magnitude=mn, solver=c.choice("solver", ["TRCWA", "FDTD"]))
    if not c.symbolic:
        # most random cases would violate several rules at once: keep all but one
        keep = c.rng.randrange(8)
        if keep != 0:
            cfg.real_min_eps, cfg.real_max_eps = sorted((r0, r1))
        if keep != 1:
            cfg.imag_min_eps, cfg.imag_max_eps = sorted((i0, i1))
        if keep != 2:
            cfg.physical_wavelength_range = sorted((w0, w1))
            c.assume(cfg.physical_wavelength_range[0] > 0)
        if keep != 3:
            cfg.Nx = nx * ov
        if keep != 4:
            cfg.Ny = ny * ov
        if keep != 5:
            cfg.TRCWA_L_grid = [[max(a, b), min(a, b)], [d, e]]
        if keep != 6:
            cfg.TRCWA_L_grid = [cfg.TRCWA_L_grid[0], [min(d, e), max(d, e)]]
        if keep != 7:
            cfg.FDTD_free_space_distance = fs + 10
        r0, r1, i0, i1 = cfg.real_min_eps, cfg.real_max_eps, cfg.imag_min_eps, cfg.imag_max_eps
        (w0, w1), nx, ny = cfg.physical_wavelength_range, cfg.Nx, cfg.Ny
        (a, b), (d, e) = cfg.TRCWA_L_grid
        fs = cfg.FDTD_free_space_distance
    scal = c.max(c.div(c.q("1e-6"), w0 * scale(c)), mn)
    rule = c.trunc(scal * fs) >= pts
    if not c.symbolic:
        c.assume(abs(scal * fs - round(scal * fs)) > 1e-6)
    spec = c.and_(r0 <= r1, i0 <= i1, w0 < w1, nx % ov == 0, ny % ov == 0, d < e, a > b, rule)
    iff_ok(c, cfg, spec)


def scale(c):
    return c.fn("nidn.fdtd_integration.constants", "FDTD_GRID_SCALE")


@contract(P, trials=150, maxpaths=20000, budget=250)
def lists(c):
    """element-wise rules and lengths of the list entries (any length, any values)"""
    solver = c.choice("solver", ["TRCWA", "FDTD"])
    n, nl = c.int("n", 0, cmax=4), c.int("nl", 1, cmax=3)
    m, p, q = c.int("m", 0, cmax=4), c.int("p", 0, cmax=4), c.int("q", 0, cmax=4)
    lo = {} if c.symbolic else {"lo": -0.4, "hi": 3}
    th, pos = c.list("thick", n, **lo), c.list("pos", m, **lo)
    R, T = c.list("R", p, **lo), c.list("T", q, **lo)
    if not c.symbolic:
        # most cases keep every list but one well-formed
        keep = c.rng.randrange(6)
        if keep != 0:
            th = [abs(x) + 0.1 for x in th]
        if keep != 1:
            pos = [abs(x) + 0.1 for x in pos]
        if keep != 2:
            R = [abs(x) for x in R]
        if keep != 3:
            T = [abs(x) for x in T]
        if keep != 4 and len(th) != nl:
            th = [1.0]
        if keep != 5:
            pos = (pos + [1.0, 2.0])[:2]
        n, m = len(th), len(pos)
    cfg = default(c, PER_LAYER_THICKNESS=th, N_layers=nl, FDTD_source_position=pos, target_reflectance_spectrum=R, target_transmittance_spectrum=T, solver=solver)
    spec = [c.all(n, lambda i: c.at(th, i) > 0), c.all(m, lambda i: c.at(pos, i) > 0), c.all(p, lambda i: c.at(R, i) >= 0), c.all(q, lambda i: c.at(T, i) >= 0),
            c.or_(n == nl, n == 1), c.or_(m == 2, m == 3)]
    if c.choice("grid", [False, True]):
        g = c.int("g", 0, cmax=3)
        G = c.list("grid_el", g, **lo)
        cfg.FDTD_grid = G
        spec.append(c.all(g, lambda i: c.at(G, i) > 0))
    iff_ok(c, cfg, c.and_(*spec))


@contract(P)
def default_config(c):
    """the shipped default configuration is accepted and covers exactly the required entries"""
    if c.symbolic:
        return expect(c, default(c), None)
    cfg = c.call(c.fn("nidn.utils.load_default_cfg", "load_default_cfg"))
    c.check("required entries", sorted(cfg.keys()) == sorted(REQUIRED), sorted(set(cfg.keys()) ^ set(REQUIRED)))
    expect(c, cfg, None)
