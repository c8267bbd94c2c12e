"""C16 Training losses."""
from pyvc.contract import contract

P = "C16"


def spectra(c, n):
    # spectra as compute_spectrum returns them: lists of 0-d tensors
    R = c.list("R", n, lo=0, hi=2, wrap=c.number_as)
    T = c.list("T", n, lo=0, hi=2, wrap=c.number_as)
    tR = c.list("tR", n, lo=0, hi=1)
    tT = c.list("tT", n, lo=0, hi=1)
    fr = c.tensor("freq", [n], lib="numpy", gt=0)
    return R, T, tR, tT, fr


def norm(c, R, T, i):
    r, t = c.at(R, i), c.at(T, i)
    s = r + t
    over = s > 1
    return c.ite(over, c.div(r, s), r), c.ite(over, c.div(t, s), t), over


def not_marginal(c, R, T, n):
    # concrete cases: keep away from R+T = 1 where rounding decides
    if not c.symbolic:
        for i in range(n):
            c.assume(abs(c.at(R, i) + c.at(T, i) - 1) > 1e-6)


def terms(c, R, T, tR, tT, i, L, absorb):
    r, t, _ = norm(c, R, T, i)
    x, y = c.at(tR, i), c.at(tT, i)
    p = lambda d: c.pow(c.abs(d), L)
    v = p(r - x) + p(t - y)
    return v + p((1 - t - r) - (1 - y - x)) if absorb else v


def exponent(c, full=True):
    k = c.choice("exponent", [1, 2, "real", "one", "two"] if full else [1, 2, "real"])
    return {1: 1, 2: 2, "one": c.q("1.0"), "two": c.q("2.0"), "real": None}[k] if k != "real" else c.real("L", gt=0, near=(0.3, 3))


@contract(P)
def spectrum_loss_value(c):
    """_spectrum_loss_fn: mean over frequencies and channels of |deviation|^L after rescaling points with R+T>1"""
    f = c.fn("nidn.training.losses.spectrum_loss", "_spectrum_loss_fn")
    n = c.int("n", lo=1, cmax=6)
    absorb = c.choice("absorption", [False, True])
    L = exponent(c)
    R, T, tR, tT, fr = spectra(c, n)
    not_marginal(c, R, T, n)
    R0, T0 = c.snapshot(R), c.snapshot(T)
    loss, ren = c.call(f, R, T, tR, tT, fr, L, absorb)
    want = c.div(c.sum(n, lambda i: terms(c, R, T, tR, tT, i, L, absorb)), (3 if absorb else 2) * n)
    c.eq("loss value", loss, want)
    c.check("renormalised flag", c.iff(ren, c.any(n, lambda i: c.at(R, i) + c.at(T, i) > 1)))
    c.le("loss is not negative", 0, loss)
    c.check("length kept", c.and_(c.len(R) == n, c.len(T) == n))
    c.forall(n, lambda i: (c.eq("R not modified", c.at(R, i), c.at(R0, i)), c.eq("T not modified", c.at(T, i), c.at(T0, i))))


@contract(P, timeout=20.0, budget=300.0)
def spectrum_loss_zero(c):
    """zero loss exactly when the (rescaled) spectra equal the targets"""
    f = c.fn("nidn.training.losses.spectrum_loss", "_spectrum_loss_fn")
    n = c.int("n", lo=1, cmax=6)
    absorb = c.choice("absorption", [False, True])
    L = exponent(c, False)
    R, T, tR, tT, fr = spectra(c, n)
    not_marginal(c, R, T, n)
    if c.choice("case", ["equal", "different"]) == "equal":
        # targets are the produced (rescaled) spectra
        tR = c.seq(n, lambda i: norm(c, R, T, i)[0])
        tT = c.seq(n, lambda i: norm(c, R, T, i)[1])
        loss, _ = c.call(f, R, T, tR, tT, fr, L, absorb)
        c.eq("zero at the target", loss, 0)
    else:
        loss, _ = c.call(f, R, T, tR, tT, fr, L, absorb)
        if c.symbolic:
            c.assume(c.scalar(loss) == 0)
            c.forall(n, lambda i: (c.eq("zero loss means R on target", norm(c, R, T, i)[0], c.at(tR, i)),
                                   c.eq("zero loss means T on target", norm(c, R, T, i)[1], c.at(tT, i))))
        else:
            far = max(max(abs(norm(c, R, T, i)[0] - tR[i]), abs(norm(c, R, T, i)[1] - tT[i])) for i in range(n))
            c.check("off target means positive loss", far < 1e-3 or c.scalar(loss) > 0, (far, c.scalar(loss)))


@contract(P)
def renormalisation_keeps_ratio(c):
    """where R+T > 1 the loss uses R/(R+T), T/(R+T): sum one, same ratio; elsewhere R, T themselves"""
    f = c.fn("nidn.training.losses.spectrum_loss", "_spectrum_loss_fn")
    r, t = c.real("r", gt=0, lt=2), c.real("t", gt=0, lt=2)
    if not c.symbolic:
        c.assume(abs(r + t - 1) > 1e-6)
    # L=1 and targets 0 expose the values used: loss = (R' + T') / 2, with target T'=1.. the single values
    big = 1
    la, ren = c.call(f, c.fixed([c.number_as(r)]), c.fixed([c.number_as(t)]), c.fixed([0]), c.fixed([big]), c.fixed([c.q("1.0")]), 1, False)
    lb, _ = c.call(f, c.fixed([c.number_as(r)]), c.fixed([c.number_as(t)]), c.fixed([0]), c.fixed([0]), c.fixed([c.q("1.0")]), 1, False)
    used_sum = c.scalar(lb) * 2
    over = r + t > 1
    c.eq("sum used", used_sum, c.ite(over, 1, r + t))
    c.check("flag", c.iff(ren, over))
    # T' <= 1 whenever the point was rescaled, so |T'-1| = 1-T'
    tp = c.div(used_sum + 1 - c.scalar(la) * 2, 2)
    c.eq("ratio kept", c.ite(over, tp * r, 0), c.ite(over, (used_sum - tp) * t, 0))


@contract(P)
def likelihood_regularisation(c):
    """_likelihood_regularization_loss_fn: mean of min(p, 1-p)^L; zero exactly for one-hot (0/1) weights"""
    f = c.fn("nidn.training.losses.likelihood_regularization_loss", "_likelihood_regularization_loss_fn")
    nx, ny, nl, m = c.int("nx", 1, cmax=2), c.int("ny", 1, cmax=2), c.int("nl", 1, cmax=2), c.int("m", 1, cmax=3)
    L = exponent(c)
    w = c.tensor("w", [nx, ny, nl, m], lo=0, hi=1)
    w0 = c.snapshot(w)
    r = c.call(f, w, L)

    def d(i, j, k, l):
        x = c.at(w0, i, j, k, l)
        return c.min(c.pow(1 - x, L), c.pow(x, L))
    tot = c.sum(nx, lambda i: c.sum(ny, lambda j: c.sum(nl, lambda k: c.sum(m, lambda l: d(i, j, k, l)))))
    c.eq("mean distance", c.scalar(r) * (nx * ny * nl * m), tot)
    c.le("not negative", 0, r)
    c.eq_tensor("weights not modified", w, w0)


@contract(P)
def likelihood_nearer(c):
    """the distance used for one weight p is that to the nearer of 0 and 1 (raised to L), and is 0 only at 0 or 1"""
    f = c.fn("nidn.training.losses.likelihood_regularization_loss", "_likelihood_regularization_loss_fn")
    L = exponent(c)
    p = c.real("p", lo=0, hi=1)
    w = c.array([1, 1, 1, 1], lambda *i: p)
    r = c.scalar(c.call(f, w, L))
    if c.symbolic:
        c.check("zero at 0 and 1", c.implies(c.or_(p == 0, p == 1), r == 0))
        c.check("positive in between", c.implies(c.and_(p > 0, p < 1), r > 0))
    else:
        near = min(p, 1 - p)
        c.check("zero at 0 and 1 only", (abs(r) < 1e-9) == (near ** L < 1e-9), (r, p))
        c.eq("distance to the nearer", r, near ** L)
