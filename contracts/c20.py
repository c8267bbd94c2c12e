"""C20 Saved runs load back unchanged."""
import contextlib, os, shutil, tempfile, time
from pyvc.contract import contract

P = "C20"


@contextlib.contextmanager
def scratch(c):
    """the code runs in <scratch>/work, so its results folder is <scratch>/results"""
    d = tempfile.mkdtemp(prefix="c20_")
    old = os.getcwd()
    os.mkdir(d + "/work")
    os.chdir(d + "/work")
    if c.symbolic:
        c.hook("open", open)
        for n in ("makedirs", "mkdir", "listdir", "remove", "rename", "replace", "stat", "walk"):
            c.hook("os." + n, getattr(os, n))
    try:
        yield os.path.realpath(d)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def files(d):
    return {os.path.join(r, f): open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk(d) for f in fs}


def run_cfg(c, name, model):
    n = c.int("n", 1, cmax=3)
    logs = c.list("log", n)
    return c.cfg(name=name, N_freq=n, seed=3, flag=True, model_type="nerf", results=c.cfg(loss_log=logs, best=c.real("best")), L=c.fixed([c.real("a"), c.real("b")]),
                 target=c.tensor("target", [n, 2]), freqs=c.tensor("freqs", [n], lib="numpy"), model=model, nothing=None)


def same(c, what, a, b):
    """equal in type, structure and contents"""
    from dotmap import DotMap
    if isinstance(b, dict):
        c.check(what + ": same type", type(a) is type(b), (type(a), type(b)))
        c.check(what + ": same entries", sorted(map(str, a.keys())) == sorted(map(str, b.keys())), (list(a.keys()), list(b.keys())))
        for k in list(b.keys()):
            same(c, "%s.%s" % (what, k), a[k], b[k])
    elif c.is_tensor(b):
        c.check(what + ": an array", c.is_tensor(a))
        c.eq_tensor(what, a, b, tol=0.0)
    elif c.has_segs(b):
        c.eq(what + ": length", c.len(a), c.len(b))
        c.forall([c.len(b)], lambda i: c.eq(what, c.at(a, i), c.at(b, i), tol=0.0))
    elif b is None or isinstance(b, (str, bool)):
        c.check(what, a is b or a == b, (a, b))
    else:
        c.eq(what, a, b, tol=0.0)


def copy_of(c, x):
    if isinstance(x, dict):
        r = type(x)()
        for k, v in x.items():
            r[k] = copy_of(c, v)
        return r
    if c.is_tensor(x) or c.has_segs(x):
        return c.snapshot(x)
    if callable(getattr(type(x), "state_dict", None)):
        return Frozen({k: c.snapshot(v) for k, v in x.state_dict().items()})
    return x


class Frozen:
    """parameters of a model at the time of the call"""

    def __init__(self, sd):
        self.sd = sd


def same_run(c, what, a, saved):
    for k in saved:
        c.check(what + ": no entry lost", k in a, k)
        if k not in a:
            continue
        if isinstance(saved[k], Frozen):
            x, y = a[k].state_dict(), saved[k].sd
            c.check(what + ": same parameters", list(x.keys()) == list(y.keys()))
            for q in y:
                c.eq_tensor(what + ": model parameter", x[q], y[q], tol=0.0)
        else:
            same(c, "%s.%s" % (what, k), a[k], saved[k])
    c.check(what + ": same entries", sorted(map(str, a.keys())) == sorted(map(str, saved.keys())), list(a.keys()))
    c.check(what + ": same type", type(a) is type(saved))


NAMES = ["run", "my run.v2", "a_b-c", " Run %d {x} "]
SUBS = ["", "sub", "deep/er", "trailing/"]


@contract(P, trials=24)
def round_trip(c):
    """one new file, named after the run, in the requested folder; loading it gives back the run; nothing else changes"""
    save, load = c.fn("nidn.training.save_run", "save_run"), c.fn("nidn.training.load_run", "load_run")
    net = c.fn("nidn.training.utils.nerf", "NERF")
    name, sub = c.choice("name", NAMES), c.choice("subfolder", SUBS)
    with scratch(c) as d:
        os.makedirs(d + "/results/sub")
        open(d + "/results/sub/older_01-01-2020 00-00-00_run.pk", "wb").write(b"older")
        open(d + "/work/note.txt", "wb").write(b"note")
        model = c.call(net, in_features=2, out_features=2, n_neurons=c.int("w", 1, cmax=3), hidden_layers=1, skip=[])
        cfg = run_cfg(c, name, model)
        saved = copy_of(c, cfg)
        before = files(d)
        c.call(save, cfg, sub) if sub else c.call(save, cfg)
        after = files(d)
        same_run(c, "the run is not modified by saving", cfg, saved)
        c.check("the model object is kept", cfg.model is model)
        new = [f for f in after if f not in before]
        c.check("exactly one new file", len(new) == 1, new)
        c.check("no other file is touched", all(after.get(f) == before[f] for f in before), sorted(after))
        want = os.path.realpath(os.path.join(d, "results", sub))
        c.check("in the requested folder", os.path.dirname(os.path.realpath(new[0])) == want, new)
        c.check("named after the run", os.path.basename(new[0]).startswith(name + "_"), new)
        got = c.call(load, new[0])
        same_run(c, "loaded run", got, saved)
        c.check("loading returns another object", got is not cfg)
        c.check("loading changes no file", files(d) == after)


@contract(P, trials=3)
def separate_saves(c):
    """runs saved at different times go to different files, and each loads back as it was when saved"""
    save, load = c.fn("nidn.training.save_run", "save_run"), c.fn("nidn.training.load_run", "load_run")
    with scratch(c) as d:
        cfg = c.cfg(name="run", a=c.real("a"), b=c.fixed([c.real("b")]))
        first = copy_of(c, cfg)
        c.call(save, cfg, "s")
        one = set(files(d))
        cfg.a = c.real("a2")
        cfg.extra = "new"
        second = copy_of(c, cfg)
        time.sleep(1.05)
        c.call(save, cfg, "s")
        two = set(files(d)) - one
        c.check("two files", len(one) == 1 and len(two) == 1, (one, two))
        same_run(c, "first run", c.call(load, list(one)[0]), first)
        same_run(c, "second run", c.call(load, list(two)[0]), second)


@contract(P, trials=6)
def missing_file(c):
    """a missing, empty or foreign file is an error, not a run"""
    load = c.fn("nidn.training.load_run", "load_run")
    kind = c.choice("kind", ["missing", "folder", "empty"])
    with scratch(c) as d:
        f = d + "/nothing.pk"
        if kind == "folder":
            os.mkdir(f)
        if kind == "empty":
            open(f, "wb").close()
        o = c.outcome(load, f)
        c.check("loading raises", not o.ok, kind)
        c.check("nothing is created", set(files(d)) == ({f} if kind == "empty" else set()))
