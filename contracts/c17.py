"""C17 Training keeps the best physical model and survives bad steps.

The world of a run: at iteration k the spectrum computation fails or not, the loss has some value and the spectrum was
renormalised or not, the optimiser then moves the parameters somewhere - all arbitrary functions of k.  The specification is
the recursion below (state of the run before iteration k); the loop is proved to follow it for any number of iterations."""
from pyvc.contract import contract

P = "C17"
MOD = "nidn.training.run_training"


class World:
    """arbitrary environment + specification state, symbolic (functions of k) or concrete (recorded history)"""

    def __init__(self, c, cfg, p):
        self.c, self.cfg, self.p = c, cfg, p
        self.k = 0 if c.symbolic else -1
        self.busy = False
        self.events = []

    # ---- environment
    def fails(self, k):
        return self.c.uf("fail", k) >= 0

    def sl(self, k, L, ab):
        return self.c.uf("loss", k, L, 1 if ab else 0, lo=0)

    def ren(self, k):
        return self.c.uf("renorm", k) >= 0

    def reg(self, k, L):
        return self.c.uf("regl", k, L, lo=0)

    def step(self, k, j):
        return self.c.uf("step", k, j)

    def total(self, k):
        c, cfg = self.c, self.cfg
        t = self.sl(k, cfg.L, cfg.absorption_loss)
        if cfg.type == "classification" and cfg.use_regularization_loss:
            t = t + cfg.reg_loss_weight * self.reg(k, cfg.L)
        return t

    def l1(self, k):
        return self.sl(k, 1, False)

    def physical(self, k):
        return self.c.and_(self.c.not_(self.fails(k)), self.c.not_(self.ren(k)))


class Spec(World):
    """symbolic specification: has(k), bl(k) best loss, bs(k,j) best parameters, th(k,j) parameters, cnt(k) log entries, lg/l1g entries"""

    def has(self, k):
        return self.c.uf("has", k) >= 0

    def bl(self, k):
        return self.c.uf("bl", k)

    def bs(self, k, j):
        return self.c.uf("bs", k, j)

    def th(self, k, j):
        return self.c.uf("th", k, j)

    def cnt(self, k):
        return self.c.uf("cnt", k, kind="i")

    def better(self, k):
        c = self.c
        return c.and_(self.physical(k), c.or_(c.not_(self.has(k)), self.total(k) < self.bl(k)))

    def define(self, k):
        """the recursion from k to k+1"""
        c, p = self.c, self.p
        b = self.better(k)
        c.assume(c.iff(self.has(k + 1), c.or_(self.has(k), self.physical(k))))
        c.assume(self.bl(k + 1) == c.ite(b, self.total(k), self.bl(k)))
        c.assume_all(p, lambda j: self.bs(k + 1, j) == c.ite(b, self.th(k, j), self.bs(k, j)))
        c.assume_all(p, lambda j: self.th(k + 1, j) == c.ite(self.fails(k), self.bs(k, j), self.step(k, j)))
        c.assume(self.cnt(k + 1) == self.cnt(k) + c.ite(self.fails(k), 0, 1))
        c.assume(self.cnt(k) >= 0)
        c.assume(c.implies(c.not_(self.fails(k)), c.and_(c.uf("lg", self.cnt(k)) == self.total(k), c.uf("l1g", self.cnt(k)) == self.l1(k))))

    def start(self):
        c, p = self.c, self.p
        c.assume(c.not_(self.has(0)))
        c.assume(self.cnt(0) == 0)
        c.assume_all(p, lambda j: c.and_(self.bs(0, j) == c.uf("theta0", j), self.th(0, j) == c.uf("theta0", j)))

    # ---- loop annotation
    def assume(self, k):
        self.define(k)

    def values(self, k):
        return {"best loss": self.bl(k) if self.has(k) else self.c.inf()}

    def install(self, k):
        c, cfg = self.c, self.cfg
        self.k = k
        c.fill(self.w, lambda j: self.th(k, j))
        c.setitem(cfg, "best_model_state_dict", {"w": c.array([self.p], lambda j: self.bs(k, j))})
        c.resize(cfg.results.loss_log, self.cnt(k), lambda j: c.uf("lg", j))
        c.resize(cfg.results.L1_errs, self.cnt(k), lambda j: c.uf("l1g", j))
        c.resize(cfg.results.weighted_average_log, self.cnt(k), lambda j: c.uf("wag", j))
        c.setitem(self.opt.param_groups[0], "lr", c.uf("lr", k))

    def owns(self, key, obj):
        cfg = self.cfg
        r = cfg.results
        return obj is self.w.sto or (key[0] == "item" and obj is cfg and key[2] == "best_model_state_dict") or (key[0] == "attr" and obj is cfg and key[2] == "best_model_state_dict") \
            or obj is r.loss_log or obj is r.L1_errs or obj is r.weighted_average_log or obj is self.opt.param_groups[0]

    def after(self, k):
        c = self.c
        lr = self.opt.param_groups[0]["lr"]
        if self.fails(k):
            c.eq("learning rate halved after a failure", lr * 2, c.uf("lr", k))

    def check(self, k, when):
        c, cfg, p = self.c, self.cfg, self.p
        best = cfg.best_model_state_dict
        c.check("best state holds the model's parameters " + when, sorted(best.keys()) == ["w"])
        c.forall([p], lambda j: (c.eq("best parameters " + when, c.at(best["w"], j), self.bs(k, j)), c.eq("parameters " + when, c.at(self.w, j), self.th(k, j))))
        r = cfg.results
        for nm, l, g in (("loss log", r.loss_log, "lg"), ("L1 log", r.L1_errs, "l1g"), ("average log", r.weighted_average_log, None)):
            c.eq(nm + ": one entry per completed iteration " + when, c.len(l), self.cnt(k))
            if g:
                c.forall([self.cnt(k)], lambda j: c.eq(nm + ": entries " + when, c.at(l, j), c.uf(g, j)))

        def independent():
            # what later optimiser steps do to the parameters does not reach the stored copy
            b = c.snapshot(best["w"])
            c.fill(self.w, lambda j: c.uf("elsewhere", j))
            c.forall([p], lambda j: c.eq("best parameters are an independent copy " + when, c.at(best["w"], j), c.at(b, j)))
        c.e.explore(independent)


def world(c):
    p = c.int("p", 1, cmax=2)
    kind = c.choice("type", ["regression", "classification"])
    cfg = c.cfg(iterations=c.int("iterations", 0, cmax=9), type=kind, use_regularization_loss=c.choice("reg", [True, False]), reg_loss_weight=c.real("weight", lo=0),
                L=c.choice("L", [1, 2]), absorption_loss=c.choice("absorption", [False, True]), target_reflectance_spectrum="tR", target_transmittance_spectrum="tT", target_frequencies="freqs",
                use_gpu=False)
    g = (Spec if c.symbolic else History)(c, cfg, p)
    torch = c.torch_()

    class M(torch.nn.Module):
        def __init__(self):
            super().__init__()
            t = c.array([p], lambda j: c.uf("theta0", j))
            self.w = torch.nn.Parameter(t)
    cfg.model = M()
    g.model, g.w = cfg.model, cfg.model.w
    g.opt = Optimizer(g)
    return cfg, g


class Optimizer:
    def __init__(self, g):
        self.g = g
        self.param_groups = [{"lr": g.c.real("lr0", gt=0), "params": [g.w]}]
        self.grads = "stale"

    def zero_grad(self, *a, **k):
        self.grads = "zero"

    def step(self, *a):
        g = self.g
        g.stepped()
        g.c.fill(g.w, lambda j: g.step(g.k, j))


class Scheduler:
    def __init__(self, g):
        self.g = g

    def step(self, *a):
        g = self.g
        g.scheduled(a)
        g.c.setitem(g.opt.param_groups[0], "lr", g.c.uf("lr", g.k + 1, gt=0) if g.c.symbolic else g.opt.param_groups[0]["lr"])


class History(World):
    """concrete world: iteration counter and the specification state, advanced as the environment is consulted"""

    def __init__(self, c, cfg, p):
        World.__init__(self, c, cfg, p)
        self.rec = []

    def begin(self):
        self.k += 1
        self.rec.append({"theta": [float(x) for x in self.w.detach()], "lr": self.opt.param_groups[0]["lr"]})

    def best(self):
        b = None
        for r in self.rec:
            if r.get("physical") and (b is None or r["loss"] < b["loss"]):
                b = r
        return b


for cls in (Spec, History):
    def _st(self):
        pass
    cls.stepped = _st
    cls.scheduled = lambda self, a: None
Spec.begin = lambda self: None


def stubs(c, cfg, g):
    grid, ids = c.tensor("grid", [1]), c.tensor("ids", [1])

    def model_to_eps_grid(model, run_cfg):
        g.begin()
        c.check("the model being trained is evaluated", model is g.model and run_cfg is cfg)
        return grid, ids if cfg.type == "classification" else None

    def compute_spectrum(eps_grid, cfg_, validate_cfg=True):
        c.check("the spectrum is computed for the model's grid", eps_grid is grid and cfg_ is cfg)
        if g.fails(g.k):
            raise ValueError("unphysical")
        return "R", "T"

    def loss_fn(produced_R_spectrum, produced_T_spectrum, target_reflectance_spectrum, target_transmittance_spectrum, target_frequencies, L=1, absorption_loss=True):
        c.check("produced against target spectra", (produced_R_spectrum, produced_T_spectrum, target_reflectance_spectrum, target_transmittance_spectrum) == ("R", "T", "tR", "tT"))
        return leaf(c, g, g.sl(g.k, L, absorption_loss)), g.ren(g.k)

    def reg_fn(material_ids, L=1):
        c.check("regularises the model's weights", material_ids is ids)
        return leaf(c, g, g.reg(g.k, L))
    return dict(_init_training=lambda run_cfg: (run_cfg, g.opt, Scheduler(g)), model_to_eps_grid=model_to_eps_grid, compute_spectrum=compute_spectrum,
                _spectrum_loss_fn=loss_fn, _likelihood_regularization_loss_fn=reg_fn)


def leaf(c, g, v):
    """the value as a 0-dim tensor hanging on the parameters"""
    if c.symbolic:
        return c.number_as(v)
    return c.torch.tensor(float(v), dtype=c.torch.float64) + 0 * g.w.sum()


@contract(P, trials=150, budget=250.0, maxpaths=20000)
def training_loop(c):
    """run_training for any number of iterations, any failures, losses and optimiser moves"""
    f = c.fn(MOD, "run_training")
    cfg, g = world(c)
    if c.symbolic:
        g.start()
        c.hook("backward", lambda t: None)
        c.annotate(g)
    with c.stub(MOD, **stubs(c, cfg, g)):
        r = c.call(f, cfg)
    c.check("returns the run config", r is cfg)
    n, p = cfg.iterations, g.p
    c.check("the model object is kept", cfg.model is g.model)
    if c.symbolic:
        c.forall([p], lambda j: c.eq("the final parameters are the best ones", c.at(g.w, j), g.bs(n, j)))
        c.forall([p], lambda j: c.eq("best_model_state_dict too", c.at(cfg.best_model_state_dict["w"], j), g.bs(n, j)))
        for l in (cfg.results.loss_log, cfg.results.L1_errs, cfg.results.weighted_average_log):
            c.eq("one log entry per completed iteration", c.len(l), g.cnt(n))
        return
    # concrete: replay the specification over the history
    c.check("one evaluation per iteration", len(g.rec) == n, (len(g.rec), n))
    theta0 = [c.uf("theta0", j) for j in range(p)]
    best, bl, losses, l1s = theta0, None, [], []
    for k, q in enumerate(g.rec):
        if k == 0:
            c.check("starts from the initial parameters", close(q["theta"], theta0), (q, theta0))
        nxt = g.rec[k + 1] if k + 1 < n else {"theta": None, "lr": g.opt.param_groups[0]["lr"]}
        if g.fails(k):
            if nxt["theta"] is not None:
                c.check("best parameters restored after a failure", close(nxt["theta"], best), (k, nxt["theta"], best))
            c.eq("learning rate halved after a failure", nxt["lr"], q["lr"] / 2, tol=1e-9)
            continue
        if nxt["theta"] is not None:
            c.check("one optimiser step per completed iteration", close(nxt["theta"], [g.step(k, j) for j in range(p)]), k)
        losses.append(g.total(k))
        l1s.append(g.l1(k))
        if not g.ren(k) and (bl is None or g.total(k) < bl):
            bl, best = g.total(k), q["theta"]
    got = [float(x) for x in g.w.detach()]
    c.check("the final parameters are the best ones", close(got, best), (got, best))
    c.check("best_model_state_dict too", close([float(x) for x in cfg.best_model_state_dict["w"]], best))
    for nm, l, want in (("loss", cfg.results.loss_log, losses), ("L1", cfg.results.L1_errs, l1s)):
        c.check(nm + " log: one entry per completed iteration", len(l) == len(want), (l, want))
        for x, y in zip(l, want):
            c.eq(nm + " log", x, y)
    c.check("average log: one entry per completed iteration", len(cfg.results.weighted_average_log) == len(losses))


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-6 for x, y in zip(a, b))


@contract(P, trials=1)
def best_is_minimal(c):
    """lemma by induction over the recursion: the best state is that of a physical iteration with the lowest loss, else the initial one"""
    if not c.symbolic:
        return
    cfg, g = world(c)
    k = c.int("k", 0)
    bi = lambda k: c.uf("bi", k, kind="i")

    def holds(k):
        return [c.all(k, lambda i: c.implies(g.physical(i), c.and_(g.has(k), g.bl(k) <= g.total(i)))),
                c.implies(g.has(k), c.and_(bi(k) >= 0, bi(k) < k, g.physical(bi(k)), g.total(bi(k)) == g.bl(k))),
                c.all(g.p, lambda j: c.implies(g.has(k), g.bs(k, j) == g.th(bi(k), j))),
                c.all(g.p, lambda j: c.implies(c.not_(g.has(k)), g.bs(k, j) == c.uf("theta0", j)))]
    which = c.choice("part", ["base", "step"])
    if which == "base":
        g.start()
        for h in holds(0):
            c.check("base", h)
    else:
        for h in holds(k):
            c.assume(h)
        g.define(k)
        c.assume(bi(k + 1) == c.ite(g.better(k), k, bi(k)))
        for h in holds(k + 1):
            c.check("step", h)


@contract(P, trials=40)
def init(c):
    """_init_training: validates first, then target frequencies, materials and output width, seed before a new model, optimiser over its parameters"""
    f = c.fn(MOD, "_init_training")
    log = []
    kind = c.choice("type", ["regression", "classification"])
    has_model = c.choice("has_model", [False, True, None])
    valid = c.choice("valid", [True, False])
    a, b, lr = c.real("wl0", gt=0), c.real("wl1", gt=0), c.real("lr", gt=0)
    n, m = c.int("n", 1), c.int("m", 1)
    torch = c.torch_()

    class M(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = torch.nn.Parameter(c.array([2], lambda j: 1))
    old = M()
    cfg = c.cfg(physical_wavelength_range=c.fixed([a, b]), N_freq=n, freq_distribution="log", type=kind, seed=11, use_gpu=False, learning_rate=lr)
    if has_model is not False:
        cfg.model = old if has_model else None

    def validate(cfg_):
        log.append("validate")
        c.check("validates the config", cfg_ is cfg)
        if not valid:
            raise RuntimeError("invalid")

    def freqs(x, y, n_, dist):
        log.append("freqs")
        c.check("frequencies of the configured range", c.and_(x == a, y == b, n_ == n, dist == "log"))
        return "F"

    class Coll:
        def __init__(self, fr):
            c.check("materials at the target frequencies", fr == "F")
            self.N_materials = m

    def seeds(s):
        log.append("seed")
        c.check("configured seed", s == 11)

    def net(cfg_):
        log.append("net")
        c.check("output width", cfg_.out_features == (m if kind == "classification" else 2))
        c.check("frequencies known to the network", cfg_.target_frequencies == "F")
        return M()
    with c.stub(MOD, _validate_config=validate, compute_target_frequencies=freqs, MaterialCollection=Coll, fix_random_seeds=seeds, init_network=net):
        o = c.outcome(f, cfg)
    if not valid:
        c.check("an invalid config is rejected", o.exc == "RuntimeError", o.exc)
        c.check("before anything else", log == ["validate"] and "target_frequencies" not in cfg.keys(), log)
        return
    c.check("no error", o.ok, repr(o.err))
    r, opt, sch = o.value
    c.check("same config", r is cfg)
    c.check("validated first", log[0] == "validate")
    c.check("target frequencies stored", cfg.target_frequencies == "F")
    c.eq("output width", cfg.out_features, m if kind == "classification" else 2)
    if has_model:
        c.check("an existing model is kept", cfg.model is old and "net" not in log)
    else:
        c.check("one new model, after seeding", log.count("net") == 1 and "seed" in log[:log.index("net")], log)
    g = opt.param_groups[0]
    c.check("optimises the model's parameters", len(list(g["params"])) == 1 and list(g["params"])[0] is cfg.model.w)
    c.eq("with the configured learning rate", g["lr"], lr)
