"""C01 Frequency grid and unit conversions."""
from pyvc.contract import contract

P = "C01"
CTF = "nidn.trcwa.compute_target_frequencies"


def wl_range(c):
    # micrometre-scale magnitudes in the concrete cases, arbitrary positive ordered reals symbolically
    a = c.real("wl_min", gt=0, near=(1e-7, 2e-6))
    b = c.real("wl_max", gt=0, near=(2.5e-6, 1e-5))
    c.assume(a < b)
    if not c.symbolic:
        c.assume(b - a > 1e-9 * b and a > 1e-9 and b < 1)
    return a, b


@contract(P)
def target_frequencies_linear(c):
    """compute_target_frequencies(.., 'linear'): N increasing, equally spaced points from 1/longest to 1/shortest (um)"""
    f = c.fn(CTF, "compute_target_frequencies")
    a, b = wl_range(c)
    n = c.int("N", lo=1, cmax=7)
    r = c.call(f, a, b, n, "linear")
    c.isshape("one value per point", r, n)
    um = c.q("1e-6")
    lo, hi = c.div(um, b), c.div(um, a)
    c.eq("first is 1/longest", c.at(r, 0), lo)
    c.forall(n - 1, lambda i: (c.lt("increasing", c.at(r, i), c.at(r, i + 1)),
                              c.eq("equally spaced", (c.at(r, i + 1) - c.at(r, i)) * (n - 1), hi - lo)))
    if n > 1:
        c.eq("last is 1/shortest", c.at(r, n - 1), hi)


@contract(P)
def target_frequencies_log(c):
    """compute_target_frequencies(.., 'log'): N increasing points in constant ratio from 1/longest to 1/shortest (um)"""
    f = c.fn(CTF, "compute_target_frequencies")
    a, b = wl_range(c)
    n = c.int("N", lo=1, cmax=7)
    r = c.call(f, a, b, n, "log")
    c.isshape("one value per point", r, n)
    um = c.q("1e-6")
    lo, hi = c.div(um, b), c.div(um, a)
    c.eq("first is 1/longest", c.at(r, 0), lo)
    c.forall(n, lambda i: c.check("positive", c.at(r, i) > 0))
    c.forall(n - 1, lambda i: c.lt("increasing", c.at(r, i), c.at(r, i + 1)))
    c.forall([n - 1, n - 1], lambda i, j: c.eq("constant ratio", c.at(r, i + 1) * c.at(r, j), c.at(r, j + 1) * c.at(r, i)))
    if n > 1:
        c.eq("last is 1/shortest", c.at(r, n - 1), hi)


@contract(P)
def target_frequencies_rejects(c):
    """any other distribution name raises ValueError"""
    f = c.fn(CTF, "compute_target_frequencies")
    a, b = wl_range(c)
    n = c.int("N", lo=1)
    d = c.choice("name", ["quadratic", "", "Linear", "LOG", "linear ", "logarithmic", None, 3])
    c.raises("ValueError", "ValueError", f, a, b, n, d)


@contract(P)
def frequency_points(c):
    """get_frequency_points: (physical wavelengths, frequencies) point by point, also stored in the config"""
    f = c.fn("nidn.trcwa.get_frequency_points", "get_frequency_points")
    a, b = wl_range(c)
    n = c.int("N", lo=1, cmax=7)
    d = c.choice("dist", ["linear", "log"])
    cfg = c.cfg(physical_wavelength_range=c.fixed([a, b]), N_freq=n, freq_distribution=d)
    ph, fr = c.call(f, cfg)
    c.isshape("frequencies", fr, n)
    c.isshape("wavelengths", ph, n)
    um = c.q("1e-6")
    c.forall(n, lambda i: (c.check("positive frequency", c.at(fr, i) > 0),
                           c.eq("wavelength in metres of the same frequency", c.at(ph, i) * c.at(fr, i), um, 1e-9 if c.symbolic else 1e-6),
                           c.eq("stored in the config", c.at(cfg.target_frequencies, i), c.at(fr, i)),
                           c.le("within range (low)", c.div(um, b), c.at(fr, i)),
                           c.le("within range (high)", c.at(fr, i), c.div(um, a))))
    c.check("other entries untouched", c.and_(cfg.N_freq == n, cfg.freq_distribution == d, cfg.physical_wavelength_range[0] == a, cfg.physical_wavelength_range[1] == b))


def close(c, name, x, y):
    # relative comparison (the values span many orders of magnitude)
    c.eq(name, c.div(x, y), 1)


@contract(P)
def conversions(c):
    """the conversion helpers are inverse to each other and carry the right unit, scalars and arrays"""
    M = "nidn.utils.convert_units"
    f2w, p2w, w2p, pf = (c.fn(M, n) for n in ("freq_to_wl", "phys_wl_to_wl", "wl_to_phys_wl", "phys_freq_to_phys_wl"))
    x = c.real("x")
    c.assume(c.not_(x == 0))
    if not c.symbolic:
        c.assume(abs(x) > 1e-6)
    close(c, "freq_to_wl is an involution", c.call(f2w, c.call(f2w, x)), x)
    close(c, "freq_to_wl is 1/x", c.call(f2w, x) * x, 1)
    close(c, "phys -> wl -> phys", c.call(w2p, c.call(p2w, x)), x)
    close(c, "wl -> phys -> wl", c.call(p2w, c.call(w2p, x)), x)
    close(c, "wl in micrometres", c.call(p2w, x) * c.q("1e-6"), x)
    close(c, "frequency times wavelength is c", c.call(pf, x) * x, 299792458)
    close(c, "phys_freq_to_phys_wl is an involution", c.call(pf, c.call(pf, x)), x)
    n = c.int("n", lo=1)
    v = c.tensor("v", [n], lib="numpy", gt=0)
    if not c.symbolic:
        v = v + 0.01
    c.forall(n, lambda i: (close(c, "array freq_to_wl", c.at(c.call(f2w, v), i) * c.at(v, i), 1),
                           close(c, "array phys->wl->phys", c.at(c.call(w2p, c.call(p2w, v)), i), c.at(v, i)),
                           close(c, "array wl", c.at(c.call(p2w, v), i) * c.q("1e-6"), c.at(v, i)),
                           close(c, "array c", c.at(c.call(pf, v), i) * c.at(v, i), 299792458)))
