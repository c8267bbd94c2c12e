"""C15 Classification grids are convex mixtures of materials."""
from pyvc.contract import contract
from contracts.common import Collection
from contracts.c14 import away

P = "C15"
MOD = "nidn.training.model.model_to_eps_grid"


def setup(c, noise=False, model="voxel", av=(False, True)):
    ov = c.int("ov", 1, cmax=2)
    ux, uy = c.int("ux", 1, cmax=2), c.int("uy", 1, cmax=2)
    nl, nf, m = c.int("nl", 1, cmax=2), c.int("nf", 1, cmax=3), c.int("m", 1, cmax=3)
    avoid = c.choice("avoid", list(av))
    col = Collection(c, m, nf)
    cfg = c.cfg(Nx=ux * ov, Ny=uy * ov, N_layers=nl, N_freq=nf, N_materials=m, eps_oversampling=ov, model_type=model,
                type="classification", target_frequencies=c.tensor("freq", [nf], lib="numpy", gt=0), freq_distribution="linear" if model == "voxel" else c.choice("dist", ["linear", "log"]),
                PER_LAYER_THICKNESS=c.fixed([c.real("thickness", gt=0)]), avoid_zero_eps=avoid, add_noise=noise, noise_scale=c.real("noise", lo=0, hi=1),
                material_collection=col)
    return cfg, col, ov, ux, uy, nl, nf, m, avoid


def run(c, f, cfg, o, n, m):
    def model(*x):
        if x:
            c.eq("one query per grid point, layer and frequency", c.shape(x[0])[0], n)
        return o.reshape(n, m)
    return c.call(f, model, cfg)


@contract(P, budget=250.0, timeout=12.0)
def mixture(c):
    """weights: softmax of 16 * frequency mean, so positive, normalised; eps: weighted sum; oversampled points share"""
    f = c.fn(MOD, "_classification_model_to_eps_grid")
    cfg, col, ov, ux, uy, nl, nf, m, avoid = setup(c)
    o = c.tensor("out", [ux, uy, nl, nf, m], lo=-3, hi=3) if not c.symbolic else c.tensor("out", [ux, uy, nl, nf, m])
    n = ux * uy * nl * nf
    mat0 = c.snapshot(col.epsilon_matrix)
    eps, w = run(c, f, cfg, o, n, m)
    c.isshape("grid shape", eps, ux * ov, uy * ov, nl, nf)
    c.isshape("weights shape", w, ux * ov, uy * ov, nl, m)

    def ex(i, j, k, l):
        return c.exp(16 * c.div(c.sum(nf, lambda q: c.at(o, i, j, k, q, l)), nf))

    def weight(i, j, a, b, k, l):
        W = c.at(w, i * ov + a, j * ov + b, k, l)
        S = c.sum(m, lambda x: ex(i, j, k, x))
        c.lemma("denominator positive", S > 0)
        c.eq("weight is the softmax of the frequency mean", W * S, ex(i, j, k, l))
        c.lt("weight positive", 0, W)
    c.forall([ux, uy, ov, ov, nl, m], weight)

    def total(i, j, k):
        S = c.sum(m, lambda x: c.at(w, i, j, k, x))
        c.eq("weights sum to one", S, 1)
    c.forall([ux * ov, uy * ov, nl], total)

    def eps_at(i, j, k, q):
        e = c.at(eps, i, j, k, q)
        re = c.sum(m, lambda l: c.at(w, i, j, k, l) * c.re(c.at(mat0, l, q)))
        im = c.sum(m, lambda l: c.at(w, i, j, k, l) * c.im(c.at(mat0, l, q)))
        if c.symbolic or not avoid or abs(re) > 0.0101:
            c.eq("real part", c.re(e), away(c, re) if avoid else re, tol=1e-4)
        c.eq("imaginary part", c.im(e), im, tol=1e-4)
    c.forall([ux * ov, uy * ov, nl, nf], eps_at)
    c.eq_tensor("material table kept", col.epsilon_matrix, mat0)


@contract(P, budget=250.0)
def order(c):
    """weights order the materials as the mean outputs do"""
    f = c.fn(MOD, "_classification_model_to_eps_grid")
    cfg, col, ov, ux, uy, nl, nf, m, avoid = setup(c, av=[False])
    o = c.tensor("out", [ux, uy, nl, nf, m], lo=-3, hi=3) if not c.symbolic else c.tensor("out", [ux, uy, nl, nf, m])
    n = ux * uy * nl * nf
    _, w = run(c, f, cfg, o, n, m)

    def pair(i, j, a, b, k, l, h):
        s = lambda x: c.sum(nf, lambda q: c.at(o, i, j, k, q, x))
        wl, wh = c.at(w, i * ov + a, j * ov + b, k, l), c.at(w, i * ov + a, j * ov + b, k, h)
        if c.symbolic:
            e = lambda x: c.exp(16 * c.div(s(x), nf))
            S = c.sum(m, e)
            c.lemma("denominator positive", S > 0)
            c.lemma("weight", wl * S == e(l))
            c.lemma("other weight", wh * S == e(h))
            c.from_only([S > 0, wl * S == e(l), wh * S == e(h), nf > 0], lambda: c.check("ordered as the mean outputs", c.iff(s(l) < s(h), wl < wh)))
        elif abs(s(l) - s(h)) > 1e-3:
            c.check("ordered as the mean outputs", (s(l) < s(h)) == (wl < wh) or abs(wl - wh) < 1e-12 + 1e-6 * max(wl, wh), (wl, wh))
    c.forall([ux, uy, ov, ov, nl, m, m], pair)


@contract(P, budget=250.0)
def shift(c):
    """a common shift of all outputs at a point changes nothing"""
    f = c.fn(MOD, "_classification_model_to_eps_grid")
    cfg, col, ov, ux, uy, nl, nf, m, avoid = setup(c, av=[False])
    o = c.tensor("out", [ux, uy, nl, nf, m], lo=-3, hi=3) if not c.symbolic else c.tensor("out", [ux, uy, nl, nf, m])
    sh = c.tensor("shift", [ux, uy, nl], lo=-3, hi=3) if not c.symbolic else c.tensor("shift", [ux, uy, nl])
    n = ux * uy * nl * nf
    _, w = run(c, f, cfg, o, n, m)
    o2 = c.array([ux, uy, nl, nf, m], lambda i, j, k, q, l: c.at(o, i, j, k, q, l) + c.at(sh, i, j, k))
    _, w2 = run(c, f, cfg, o2, n, m)

    def unchanged(i, j, a, b, k, l):
        w1, w3 = (c.at(x, i * ov + a, j * ov + b, k, l) for x in (w, w2))
        if c.symbolic:
            e = lambda t: lambda x: c.exp(16 * c.div(c.sum(nf, lambda q: c.at(t, i, j, k, q, x)), nf))
            e1, e2 = e(o), e(o2)
            S1, S2, G = c.sum(m, e1), c.sum(m, e2), c.exp(16 * c.at(sh, i, j, k))
            c.lemma("denominator positive", S1 > 0)
            c.lemma("weight", w1 * S1 == e1(l))
            c.lemma("shifted denominator positive", S2 > 0)
            c.lemma("shifted weight", w3 * S2 == e2(l))
            c.lemma("factor of one material", e2(l) == G * e1(l))
            c.lemma("factor of the denominator", S2 == G * S1)
            c.from_only([G > 0, S2 == G * S1, S1 > 0, e2(l) == G * e1(l), w1 * S1 == e1(l), w3 * S2 == e2(l)],
                        lambda: c.eq("unchanged by a common shift", w1, w3))
        else:
            c.eq("unchanged by a common shift", w1, w3, tol=1e-4)
    c.forall([ux, uy, ov, ov, nl, m], unchanged)


@contract(P, budget=150.0)
def noisy(c):
    """with noise the weights are still positive and sum to one, and the permittivity uses them"""
    f = c.fn(MOD, "_classification_model_to_eps_grid")
    cfg, col, ov, ux, uy, nl, nf, m, avoid = setup(c, True)
    o = c.tensor("out", [ux, uy, nl, nf, m], lo=-3, hi=3) if not c.symbolic else c.tensor("out", [ux, uy, nl, nf, m])
    eps, w = run(c, f, cfg, o, ux * uy * nl * nf, m)
    c.forall([ux * ov, uy * ov, nl, m], lambda *i: c.check("weight positive", c.at(w, *i) > 0))
    c.forall([ux * ov, uy * ov, nl], lambda i, j, k: c.eq("weights sum to one", c.sum(m, lambda x: c.at(w, i, j, k, x)), 1))
    c.forall([ux * ov, uy * ov, nl, nf], lambda i, j, k, q: c.eq("imaginary part", c.im(c.at(eps, i, j, k, q)), c.sum(m, lambda l: c.at(w, i, j, k, l) * c.im(c.at(col.epsilon_matrix, l, q))), tol=1e-4))


@contract(P, budget=100.0)
def dispatch(c):
    """model_to_eps_grid: classification returns (grid, weights)"""
    f = c.fn(MOD, "model_to_eps_grid")
    g = c.fn(MOD, "_classification_model_to_eps_grid")
    cfg, col, ov, ux, uy, nl, nf, m, avoid = setup(c, model=c.choice("model", ["nerf", "siren"]))
    o = c.tensor("out", [ux, uy, nl, nf, m], lo=-3, hi=3) if not c.symbolic else c.tensor("out", [ux, uy, nl, nf, m])
    n = ux * uy * nl * nf
    e1, w1 = run(c, f, cfg, o, n, m)
    e2, w2 = run(c, g, cfg, o, n, m)
    c.eq_tensor("grid", e1, e2)
    c.eq_tensor("weights", w1, w2)
