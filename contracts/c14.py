"""C14 Regression grids have the configured shape and range."""
from pyvc.contract import contract

P = "C14"
MOD = "nidn.training.model.model_to_eps_grid"


def config(c, model_type, noise=False, thick=None):
    ov = c.int("ov", 1, cmax=2)
    ux, uy = c.int("ux", 1, cmax=2), c.int("uy", 1, cmax=2)
    nl, nf = c.int("nl", 1, cmax=2), c.int("nf", 1, cmax=3)
    lo, hi = c.real("real_min", near=(-20, 0)), c.real("real_max", near=(1, 20))
    ilo, ihi = c.real("imag_min", near=(-1, 1)), c.real("imag_max", near=(1.5, 4))
    c.assume(c.and_(lo < hi, ilo < ihi))
    avoid = c.choice("avoid", [False, True]) if model_type != "voxel" else c.choice("avoid", [False, True])
    cfg = c.cfg(Nx=ux * ov, Ny=uy * ov, N_layers=nl, N_freq=nf, eps_oversampling=ov, model_type=model_type, type="regression",
                target_frequencies=c.tensor("freq", [nf], lib="numpy", gt=0), freq_distribution=c.choice("dist", ["linear", "log"]),
                PER_LAYER_THICKNESS=c.fixed([c.real("thickness", gt=0)]), real_min_eps=lo, real_max_eps=hi, imag_min_eps=ilo, imag_max_eps=ihi,
                avoid_zero_eps=avoid, add_noise=noise, noise_scale=c.real("noise", lo=0, hi=1))
    return cfg, ov, ux, uy, nl, nf, lo, hi, ilo, ihi, avoid


def clip(c, x, lo, hi):
    return c.min(c.max(x, lo), hi)


def away(c, x):
    """real parts closer than 0.01 to zero are moved to 0.01 with their sign (0 counts as positive)"""
    t = c.q("0.01")
    return c.ite(c.and_(x < t, x > -t), c.ite(x >= 0, t, -t), x)


def network(c, out, n):
    def model(x):
        c.eq("one query per grid point, layer and frequency", c.shape(x)[0], n)
        return out
    return model


@contract(P, budget=200.0)
def network_grid(c):
    """nerf/siren: shape, and each value is the affine image of one network output, shared by its oversampling block"""
    f = c.fn(MOD, "_regression_model_to_eps_grid")
    cfg, ov, ux, uy, nl, nf, lo, hi, ilo, ihi, avoid = config(c, c.choice("model", ["nerf", "siren"]))
    n = ux * uy * nl * nf
    o = c.tensor("out", [ux, uy, nl, 2, nf], lo=0, hi=1)
    out = c.array([n, 2], lambda r, h: 0) if False else o.reshape(n, 2)
    eps = c.call(f, network(c, out, n), cfg)
    c.isshape("configured shape", eps, ux * ov, uy * ov, nl, nf)

    def pt(i, j, a, b, k, q):
        e = c.at(eps, i * ov + a, j * ov + b, k, q)
        re = lo + c.at(o, i, j, k, 0, q) * (hi - lo)
        re = away(c, re) if avoid else re
        im = ilo + c.at(o, i, j, k, 1, q) * (ihi - ilo)
        if not c.symbolic:
            return (c.check("real part", abs(c.re(e) - re) < 1e-4 * (1 + abs(re)) or abs(abs(c.re(e)) - 0.01) < 1e-5, (e, re)),
                    c.check("imaginary part", abs(c.im(e) - im) < 1e-4 * (1 + abs(im)), (e, im)))
        c.eq("real part", c.re(e), re)
        c.eq("imaginary part", c.im(e), im)
    c.forall([ux, uy, ov, ov, nl, nf], pt)


def in_range(c, eps, lo, hi, ilo, ihi, avoid, shape):
    t = c.q("0.01")
    tol = 0 if c.symbolic else 1e-4

    def pt(*i):
        e = c.at(eps, *i)
        x, y = c.re(e), c.im(e)
        inside = c.and_(x >= lo - tol, x <= hi + tol)
        if avoid:
            c.check("real part in range or pushed away from zero", c.or_(inside, x == t, x == -t) if c.symbolic else inside or abs(abs(x) - 0.01) < 1e-5, x)
            c.check("real part away from zero", c.or_(x >= t - tol * 1e-2, x <= -t + tol * 1e-2), x)
        else:
            c.check("real part in range", inside, (x, lo, hi))
        c.check("imaginary part in range", c.and_(y >= ilo - tol, y <= ihi + tol), (y, ilo, ihi))
    c.forall(list(shape), pt)


@contract(P, budget=200.0)
def network_range(c):
    """nerf/siren: any network output (also outside [0,1]) lands in the configured range"""
    f = c.fn(MOD, "_regression_model_to_eps_grid")
    cfg, ov, ux, uy, nl, nf, lo, hi, ilo, ihi, avoid = config(c, "siren")
    n = ux * uy * nl * nf
    o = c.tensor("out", [n, 2])
    eps = c.call(f, network(c, o, n), cfg)
    c.isshape("configured shape", eps, ux * ov, uy * ov, nl, nf)
    in_range(c, eps, lo, hi, ilo, ihi, avoid, (ux * ov, uy * ov, nl, nf))


@contract(P)
def voxel_grid(c):
    """voxel: the model's own values, clipped"""
    f = c.fn(MOD, "_regression_model_to_eps_grid")
    cfg, ov, ux, uy, nl, nf, lo, hi, ilo, ihi, avoid = config(c, "voxel")
    nx, ny = ux * ov, uy * ov
    o = c.tensor("vox", [nx, ny, nl, nf], kind="c")
    o0 = c.snapshot(o)
    eps = c.call(f, lambda: o, cfg)
    c.isshape("configured shape", eps, nx, ny, nl, nf)
    c.forall([nx, ny, nl, nf], lambda *i: (c.eq("real part clipped", c.re(c.at(eps, *i)), clip(c, c.re(c.at(o0, *i)), lo, hi)),
                                          c.eq("imaginary part clipped", c.im(c.at(eps, *i)), clip(c, c.im(c.at(o0, *i)), ilo, ihi))))
    c.eq_tensor("model values kept", o, o0)
    in_range(c, eps, lo, hi, ilo, ihi, False, (nx, ny, nl, nf))


@contract(P, budget=200.0)
def noisy(c):
    """with noise every value still lies in the configured range"""
    f = c.fn(MOD, "_regression_model_to_eps_grid")
    vox = c.choice("kind", ["voxel", "nerf"])
    cfg, ov, ux, uy, nl, nf, lo, hi, ilo, ihi, avoid = config(c, vox, noise=True)
    nx, ny, n = ux * ov, uy * ov, ux * uy * nl * nf
    if vox == "voxel":
        o = c.tensor("vox", [nx, ny, nl, nf], kind="c")
        eps = c.call(f, lambda: o, cfg)
    else:
        o = c.tensor("out", [n, 2])
        eps = c.call(f, network(c, o, n), cfg)
    c.isshape("configured shape", eps, nx, ny, nl, nf)
    in_range(c, eps, lo, hi, ilo, ihi, False, (nx, ny, nl, nf))


@contract(P)
def avoid_zero(c):
    """_avoid_zero_eps: every real part ends at least 0.01 away from zero, others and imaginary parts unchanged"""
    f = c.fn(MOD, "_avoid_zero_eps")
    shape = [c.int("n%d" % i, 1, cmax=2) for i in range(4)]
    e = c.tensor("eps", shape, kind="c")
    e0 = c.snapshot(e)
    r = c.call(f, e)
    c.isshape("shape", r, *shape)
    c.forall(shape, lambda *i: (c.eq("real part", c.re(c.at(r, *i)), away(c, c.re(c.at(e0, *i)))), c.eq("imaginary part", c.im(c.at(r, *i)), c.im(c.at(e0, *i)))))


@contract(P, budget=150.0)
def dispatch(c):
    """model_to_eps_grid: regression returns (grid, None)"""
    f = c.fn(MOD, "model_to_eps_grid")
    cfg, ov, ux, uy, nl, nf, lo, hi, ilo, ihi, avoid = config(c, "voxel")
    o = c.tensor("vox", [ux * ov, uy * ov, nl, nf], kind="c")
    r = c.call(f, lambda: o, cfg)
    c.check("no material weights", r[1] is None)
    c.isshape("configured shape", r[0], ux * ov, uy * ov, nl, nf)
    c.forall([ux * ov, uy * ov, nl, nf], lambda *i: c.eq("grid", c.re(c.at(r[0], *i)), clip(c, c.re(c.at(o, *i)), lo, hi)))
