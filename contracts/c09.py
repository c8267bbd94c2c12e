"""C09 R and T coefficients follow from the recorded signals."""
from pyvc.contract import contract

P = "C09"
MOD = "nidn.fdtd_integration.calculate_transmission_reflection_coefficients"


def num(c, x):
    return c.scalar(x)


@contract(P)
def wiring(c):
    """which signal each coefficient comes from, transients removed, then normalised; vanishing free-space signals rejected"""
    f = c.fn(MOD, "calculate_transmission_reflection_coefficients")
    n = c.int("n", 1, cmax=3)
    wl, cfg = c.real("wl", gt=0), c.cfg(x=1)
    sig = {k: c.tensor(k, [n]) for k in ("t_free", "t_mat", "r_free", "r_mat")}
    if not c.symbolic and c.choice("zero", [False, False, True]):
        k = c.choice("which", ["t_free", "r_free"])
        sig[k] = sig[k] * c.choice("scale", [0.0, 1e-9])
    old = {k: c.snapshot(v) for k, v in sig.items()}
    at = c.int("probe", 0, n - 1, cmax=2)
    t, r = c.real("T", lo=0), c.real("R", lo=0)
    seen = {}

    def eliminate(signal, wavelength, cfg_, is_freespace=False, plot=False):
        c.check("wavelength and config", cfg_ is cfg)
        c.eq("of this wavelength", num(c, wavelength), wl)
        # the steady-state part, as an arbitrary function of the signal and of whether it is the free-space one
        v = c.at(signal, at)
        nm = "ss_free" if is_freespace else "ss_mat"
        return c.array([1], lambda _: c.uf(nm, v))

    def peak(transmission_signals, reflection_signal, true_reflection):
        seen["sig"] = (c.at(transmission_signals[0], 0), c.at(transmission_signals[1], 0), c.at(reflection_signal, 0), c.at(true_reflection, 0))
        return c.number_as(r), c.number_as(t)
    with c.stub(MOD, _eliminate_transient_part=eliminate, _peak_based_coefficient_computation=peak):
        o = c.outcome(f, [sig["t_free"], sig["t_mat"]], [sig["r_free"], sig["r_mat"]], wl, cfg)
    ms = {k: c.div(c.sum(n, lambda i: c.at(old[k], i) * c.at(old[k], i)), n) for k in ("t_free", "r_free")}
    tiny = c.q("1e-15")
    zero = c.or_(ms["t_free"] <= tiny, ms["r_free"] <= tiny)
    if zero:
        c.check("a vanishing free-space signal is a ValueError", o.exc == "ValueError", o.exc)
        return
    c.check("no error", o.ok, repr(o.err))
    T, R = o.value
    want = (("ss_free", c.at(old["t_free"], at)), ("ss_mat", c.at(old["t_mat"], at)), ("ss_free", c.at(old["r_free"], at)), ("ss_mat", c.at(old["r_mat"], at) - c.at(old["r_free"], at)))
    for nm, got, (u, v) in zip(("free transmission", "material transmission", "free reflection", "material minus free reflection"), seen["sig"], want):
        c.eq(nm, got, c.uf(u, v))
    result(c, T, R, t, r)


def result(c, T, R, t, r):
    s = t + r
    inside = c.and_(s > 1, s < c.q("1.05"))
    if inside:
        c.eq("rescaled to sum to one", num(c, T) + num(c, R), 1)
        c.eq("ratio kept", num(c, T) * r, num(c, R) * t)
        c.eq("transmission scaled by the sum", num(c, T) * s, t)
        c.eq("reflection scaled by the sum", num(c, R) * s, r)
    else:
        c.eq("transmission unchanged", num(c, T), t)
        c.eq("reflection unchanged", num(c, R), r)


@contract(P, trials=60)
def normalise(c):
    """_check_and_normalize_coefficients for all values"""
    f = c.fn(MOD, "_check_and_normalize_coefficients")
    t, r = c.real("T", near=(0.0, 0.6)), c.real("R", near=(0.4, 0.6))
    c.assume(c.and_(c.not_(t + r == c.q("1.05")), c.abs(t + r - 1) > 1e-9 if not c.symbolic else True, c.abs(t + r - 1.05) > 1e-9 if not c.symbolic else True))
    T, R = c.call(f, c.number_as(t), c.number_as(r))
    result(c, T, R, t, r)


def peaks(c, s, n, name):
    """first and last strict local maximum, by its defining property (symbolic: constants constrained to be it)"""
    if not c.symbolic:
        p = [i for i in range(1, n - 1) if s[i] > s[i - 1] and s[i] > s[i + 1]]
        return p
    return None


@contract(P, trials=60)
def find_peaks(c):
    """_torch_find_peaks: exactly the strict local maxima, in order"""
    f = c.fn(MOD, "_torch_find_peaks")
    n = c.int("n", 2, cmax=9)
    s = c.tensor("s", [n])
    s0 = c.snapshot(s)
    p = c.call(f, s)
    m = c.len(p)
    is_peak = lambda i: c.and_(c.at(s0, i) > c.at(s0, i - 1), c.at(s0, i) > c.at(s0, i + 1))

    def each(k):
        i = c.at(p, k, 0)
        c.check("a strict local maximum inside the signal", c.and_(i >= 1, i <= n - 2))
        c.check("is a peak", is_peak(i))
    c.forall([m], each)
    c.forall([m - 1], lambda k: c.lt("in order", c.at(p, k, 0), c.at(p, k + 1, 0)))
    if not c.symbolic:  # completeness needs the inverse of torch.nonzero: decided on the explored signals only
        c.check("no peak is missed", [int(x) for x in p[:, 0]] == peaks(c, [float(x) for x in s0], n, ""), p)
    c.eq_tensor("signal not modified", s, s0)


@contract(P)
def coefficients(c):
    """_peak_based_coefficient_computation: mean squares between the first and the last peak, material over free space"""
    f = c.fn(MOD, "_peak_based_coefficient_computation")
    names = ("t_free", "t_mat", "r_free", "r_true")
    n = {k: c.int("n_" + k, 2, cmax=10) for k in names}
    s = {k: c.tensor(k, [n[k]]) for k in names}
    old = {k: c.snapshot(v) for k, v in s.items()}
    m, pk, level = {}, {}, {}
    if c.symbolic:
        for k in names:
            m[k] = c.int("m_" + k, 0)
            pk[k] = c.tensor("pk_" + k, [m[k], 1], kind="i", lo=1, hi=n[k] - 2)
            c.assume_all(m[k] - 1, lambda i, k=k: c.at(pk[k], i, 0) < c.at(pk[k], i + 1, 0))
            c.assume(c.implies(m[k] > 1, c.at(pk[k], 0, 0) < c.at(pk[k], m[k] - 1, 0)))

        def find(signal):
            for k in names:
                if signal is s[k]:
                    return pk[k]
            raise AssertionError("peaks of another signal")
    else:
        for k in names:
            p = peaks(c, [float(x) for x in s[k]], n[k], k)
            m[k], pk[k] = len(p), c.torch.tensor(p).reshape(-1, 1)

    def ms(k):
        if m[k] > 1:
            a, b = c.at(pk[k], 0, 0), c.at(pk[k], m[k] - 1, 0)
            return c.div(c.sum(b - a, lambda i: c.at(old[k], a + i) * c.at(old[k], a + i)), b - a)
        # fewer than two peaks: the mean square of a sine with that maximum
        top = -c.min_over(n[k], lambda i: -c.at(old[k], i))
        return top * top / 2
    L = {k: ms(k) for k in names}
    c.assume(c.and_(L["t_free"] != 0, L["r_free"] != 0))
    with c.stub(MOD, **({"_torch_find_peaks": find} if c.symbolic else {})):
        R, T = c.call(f, [s["t_free"], s["t_mat"]], s["r_free"], s["r_true"])
    c.eq("transmission", num(c, T) * L["t_free"], L["t_mat"])
    c.eq("reflection", num(c, R) * L["r_free"], L["r_true"])


def signal_like(c, n, w, amp=1.0):
    """a delayed, damped onset into a steady sinusoid"""
    import math
    t = c.torch
    delay, tau, ph = c.rng.randint(0, max(1, n // 6)), c.rng.uniform(0.3, 2.0) * w, c.rng.uniform(0, 6.28)
    x = [0.0 if i < delay else amp * (1 - math.exp(-(i - delay) / tau)) * math.sin(2 * math.pi * (i - delay) / (w * 0.7) + ph) for i in range(n)]
    return t.tensor(x, dtype=t.float64)


def steady(s, w, free):
    """the steady part by its definition, and whether no window is too close to the threshold to call"""
    big = [i for i, v in enumerate(s) if abs(v) > 1e-8]
    x = s[big[0] if big else 0:]
    if len(x) <= 2 * w:
        return x, True
    k = -(-len(x) // w) - 1                     # windows; the incomplete last one joins its neighbour
    win = [x[i * w:(i + 1) * w] for i in range(k - 1)] + [x[(k - 1) * w:]]
    rng = [max(a) - min(a) for a in win]
    ch = [abs(a - b) for a, b in zip(rng, rng[1:])]
    thr = (0.5 if free else 0.1) * max(ch)
    if not ch or max(ch) < 1e-9 * max(rng):
        return x, False
    clear = all(abs(v - thr) > 1e-5 * max(ch) for v in ch)
    last = max(i for i, v in enumerate(ch) if v >= thr)
    return x[(last + 1) * w:], clear


def level(x):
    p = [i for i in range(1, len(x) - 1) if x[i] > x[i - 1] and x[i] > x[i + 1]]
    if len(p) > 1:
        y = x[p[0]:p[-1]]
        return sum(v * v for v in y) / len(y)
    return max(x) ** 2 / 2


@contract(P, trials=60, mode="bounded", thorough=400)
def transient_part(c):
    """_eliminate_transient_part: a non-empty tail of the signal, cut at the last big change between windows (signals up to 400 steps)"""
    f = c.fn(MOD, "_eliminate_transient_part")
    wl = c.choice("wl", [0.4e-6, 1e-6, 1.3e-6])
    grid = c.choice("grid", [2, 5, 10])
    free = c.choice("free", [False, True])
    cfg = c.cfg(FDTD_min_gridpoints_per_unit_magnitude=grid)
    w = int(3 * grid * (wl / 1e-6))
    n = c.rng.randint(4, 400)
    s = signal_like(c, n, w, 10 ** c.rng.uniform(-4, 2))
    kind = c.choice("kind", ["onset", "zero", "burst"])
    if kind == "zero":
        s = s * 0
        c.assume(n <= 2 * w)
    if kind == "burst":
        k = c.rng.randint(0, n - 1)
        s[k:k + w] *= 3
    s0 = s.clone()
    out = c.call(f, s, wl, cfg, is_freespace=free)
    m = len(out)
    c.check("a non-empty tail of the signal", 1 <= m <= n and bool((out == s0[n - m:]).all()), (m, n))
    c.check("signal not modified", bool((s == s0).all()))
    want, clear = steady([float(v) for v in s0], w, free)
    c.assume(clear)
    c.check("cut after the last window with a large change", m == len(want), (m, len(want)))


@contract(P, trials=40, mode="bounded", thorough=300)
def end_to_end(c):
    """the whole extraction on sampled signals (up to 400 steps) against its definition"""
    f = c.fn(MOD, "calculate_transmission_reflection_coefficients")
    wl, grid = c.choice("wl", [0.5e-6, 1e-6]), c.choice("grid", [3, 6])
    cfg = c.cfg(FDTD_min_gridpoints_per_unit_magnitude=grid)
    w = int(3 * grid * (wl / 1e-6))
    n = c.rng.randint(30, 400)
    g, h = c.rng.uniform(0.1, 0.9), c.rng.uniform(0.1, 0.7)
    tf, tm, rf, rx = (signal_like(c, n, w, a) for a in (1, g, 1, h))
    rm = rf + rx
    parts, ok = [], True
    for x, free in ((tf, True), (tm, False), (rf, True), (rm - rf, False)):
        y, clear = steady([float(v) for v in x], w, free)
        ok = ok and clear
        parts.append(level(y))
    c.assume(ok and parts[0] > 1e-6 and parts[2] > 1e-6)
    t, r = parts[1] / parts[0], parts[3] / parts[2]
    c.assume(abs(t + r - 1) > 1e-6 and abs(t + r - 1.05) > 1e-6)
    if 1 < t + r < 1.05:
        t, r = t / (t + r), r / (t + r)
    T, R = c.call(f, [tf.clone(), tm.clone()], [rf.clone(), rm.clone()], wl, cfg)
    c.eq("transmission", float(T), t, tol=1e-6)
    c.eq("reflection", float(R), r, tol=1e-6)
