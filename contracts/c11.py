"""C11 Material permittivities come from the nearest tabulated wavelength."""
import contextlib, os
from pyvc.contract import contract

P = "C11"
MOD = "nidn.materials.material_collection"
OLD = "nidn.trcwa.load_material_data"


class Series:
    """assumed contract of a pandas column: element-wise arithmetic, position of the smallest element"""

    def __init__(self, t):
        self.t = t

    def sub(self, x):
        return Series(self.t - x)

    def abs(self):
        return Series(abs(self.t))

    __sub__ = sub

    def __rsub__(self, x):
        return Series(x - self.t)

    __abs__ = abs

    def idxmin(self):
        return self.t.argmin()

    argmin = idxmin

    def to_numpy(self):
        return self.t

    values = property(to_numpy)

    def __getitem__(self, i):
        return self.t[i]

    @property
    def iloc(self):
        return self

    loc = iloc


class Row:
    def __init__(self, f, i):
        self.f, self.i = f, i

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self.f.cols[n][self.i]

    def __getitem__(self, n):
        return self.f.cols[n][self.i]


class Frame:
    def __init__(self, cols):
        self.__dict__["cols"] = cols

    def __getitem__(self, n):
        return Series(self.cols[n])

    def __getattr__(self, n):
        if n.startswith("__") or n not in self.cols:
            raise AttributeError(n)
        return Series(self.cols[n])

    @property
    def iloc(self):
        return Rows(self)

    loc = iloc


class Rows:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        return Row(self.f, i)


class Tables:
    """the csv files of the contract: one (Wavelength, n, k) table per file"""

    def __init__(self, c, names):
        self.c, self.tab = c, {}
        for x in names:
            rows = c.int("rows_" + x, 1, cmax=6)
            self.tab[x] = (rows, {k: c.tensor("%s_%s" % (k, x), [rows], lib="numpy", **({"gt": 0} if k == "Wavelength" else {})) for k in ("Wavelength", "n", "k")})
        if not c.symbolic:
            self.dir = os.getcwd() + "/tables"
            os.makedirs(self.dir, exist_ok=True)
            for old in os.listdir(self.dir):
                os.unlink(self.dir + "/" + old)
            for x, (rows, t) in self.tab.items():
                with open(self.path(x), "w") as f:
                    f.write("Wavelength\tn\tk\n")
                    for i in range(rows):
                        f.write("%r\t%r\t%r\n" % tuple(float(t[k][i]) for k in ("Wavelength", "n", "k")))
        else:
            self.dir = "/virtual"

    def path(self, x):
        return self.dir + "/" + x + ".csv"

    def read_csv(self, path, *a, **k):
        ok = k.pop("delimiter", k.pop("sep", a[0] if a else None)) == "\t" and not k
        if not ok:
            from pyvc.sym import Unsupported
            raise Unsupported("read_csv with other options")
        x = str(path).replace("\\", "/").split("/")[-1][:-4]
        return Frame(self.tab[x][1])

    def stubs(self, mod, **kw):
        if not self.c.symbolic:
            return contextlib.nullcontext()
        return self.c.stub(mod, pandas=self, **kw)

    def nearest(self, x, freqs, nf):
        """row nearest to 1/f per frequency (assumed unique: which of two equally near rows is taken is not specified)"""
        c = self.c
        rows, t = self.tab[x]
        d = lambda r, q: c.abs(c.at(t["Wavelength"], r) - c.div(1, c.at(freqs, q)))
        if c.symbolic:
            near = c.tensor("near_" + x, [nf], kind="i", lo=0, hi=rows - 1)
            c.assume_all(nf, lambda q: c.all(rows, lambda r: c.or_(r == c.at(near, q), d(c.at(near, q), q) < d(r, q))))
            return near
        out = []
        for q in range(nf):
            ds = sorted((d(r, q), r) for r in range(rows))
            c.assume(rows == 1 or ds[1][0] - ds[0][0] > 1e-9)
            out.append(ds[0][1])
        return out

    def check(self, name, eps, x, near, nf, row=None):
        c = self.c
        t = self.tab[x][1]

        def one(q):
            r = c.at(near, q) if c.symbolic else near[q]
            n, k = c.at(t["n"], r), c.at(t["k"], r)
            got = eps(q)
            c.eq(name, got, c.mkc(n * n - k * k, 2 * n * k))
        c.forall(nf, one)


def load_contract(c, mod, get):
    nf = c.int("nf", 1, cmax=4)
    fr = c.tensor("freq", [nf], lib="numpy", gt=0)
    T = Tables(c, ["a"])
    near = T.nearest("a", fr, nf)
    with T.stubs(mod):
        eps = get(T.path("a"), fr)
    c.check("leading axis", len(c.shape(eps)) >= 1)
    c.eq("one entry per frequency", c.shape(eps)[0], nf)
    rank = len(c.shape(eps))
    c.check("no further elements", c.and_(*[d == 1 for d in c.shape(eps)[1:]]) if rank > 1 else True)
    T.check("nearest entry's permittivity", lambda q: c.at(eps, q, *([0] * (rank - 1))), "a", near, nf)


@contract(P)
def one_material(c):
    """MaterialCollection._load_material_data: (n + ik)^2 of the nearest tabulated wavelength, per frequency"""
    C = c.fn(MOD, "MaterialCollection")
    c.fn(MOD, "MaterialCollection._load_material_data")

    def get(path, fr):
        o = object.__new__(C)
        o.target_frequencies = fr
        return c.call(o._load_material_data, path)
    load_contract(c, MOD, get)


@contract(P)
def one_material_function(c):
    """trcwa._load_material_data: the same for the stand-alone loader"""
    f = c.fn(OLD, "_load_material_data")
    load_contract(c, OLD, lambda path, fr: c.call(f, path, fr))


@contract(P)
def table(c):
    """_load_materials_folder: one row per non-skipped file, one column per frequency, lookup by name, KeyError otherwise"""
    C = c.fn(MOD, "MaterialCollection")
    c.fn(MOD, "MaterialCollection._load_materials_folder")
    names = c.choice("files", [["a"], ["a", "b"], ["b", "a.x", "c_1"]])
    skip = c.choice("skip", [None, [], ["nope"], ["a"], ["b", "zz"], ["a.x"]])
    keep = [x for x in names if not skip or x not in skip]
    if not keep:
        c.assume(c.and_(False))
        return
    nf = c.int("nf", 1, cmax=3)
    fr = c.tensor("freq", [nf], lib="numpy", gt=0)
    T = Tables(c, names)
    near = {x: T.nearest(x, fr, nf) for x in keep}
    o = object.__new__(C)
    o.material_names = c.fixed([])
    o.epsilon_matrix = None
    o.target_frequencies = fr
    o.materials_folder = T.dir + "/"
    with T.stubs(MOD, glob=lambda pat, **k: c.fixed([T.path(x) for x in names])):
        c.call(o._load_materials_folder, skip)
        c.eq("number of materials", o.N_materials, len(keep))
        c.check("names", sorted(c.item(o.material_names, i) for i in range(len(keep))) == sorted(keep))
        c.eq("names listed once", c.len(o.material_names), len(keep))
        c.isshape("table", o.epsilon_matrix, len(keep), nf)
        for x in keep:
            row = o[x]
            c.isshape("row", row, nf)
            T.check("row of the named material", lambda q: c.at(row, q), x, near[x], nf)
            i = [c.item(o.material_names, i) for i in range(len(keep))].index(x)
            T.check("row order follows the names", lambda q: c.at(o.epsilon_matrix, i, q), x, near[x], nf)
        for x in ["zz", "", "A"] + [n for n in names if n not in keep]:
            c.raises("unknown or skipped name", "KeyError", lambda: o[x])


@contract(P)
def construction(c):
    """MaterialCollection(frequencies, skip): loads with exactly these; an empty list is rejected"""
    C = c.fn(MOD, "MaterialCollection")
    c.fn(MOD, "MaterialCollection._load_materials_folder")
    skip = c.choice("skip", [None, ["a"]])
    n = c.int("nf", 0, cmax=3)
    seen = []

    def load(self, *a, **k):
        seen.append((self.target_frequencies, a, k))
    fr = c.tensor("freq", [n], lib="numpy", gt=0) if c.choice("as", ["array", "list"]) == "array" else c.list("freq", n, gt=0)
    with c.stub(C, _load_materials_folder=load):
        o = c.outcome(C, fr, skip)
    if n == 0:
        c.check("empty list rejected", o.exc == "ValueError", o.exc)
        c.check("nothing loaded", len(seen) == 0)
    else:
        c.check("accepted", o.ok, o.exc)
        c.check("loaded once", len(seen) == 1)
        f, a, k = seen[0]
        c.check("skip list passed on", (a + tuple(k.values())) == (skip,) or (skip is None and not a and not k))
        c.eq("all frequencies", c.len(f), n)
        c.forall(n, lambda i: c.eq("same frequencies", c.at(f, i), c.at(fr, i)))


@contract(P, mode="bounded", trials=3)
def shipped_tables(c):
    """the shipped csv files, at random frequencies, against an independent reading (bounded)"""
    import csv, numpy as np
    C = c.fn(MOD, "MaterialCollection")
    mod = c.mod(MOD)
    d = os.path.join(os.path.dirname(mod.__file__), "data")
    nf = c.int("nf", 1, cmax=3)
    fr = c.tensor("freq", [nf], lib="numpy", lo=0.2, hi=3.0)
    names = sorted(x[:-4] for x in os.listdir(d) if x.endswith(".csv"))
    skip = c.choice("skip", [None, names[:1]])
    o = c.call(C, fr, skip)
    keep = [x for x in names if not skip or x not in skip]
    c.check("all shipped materials", sorted(o.material_names) == keep)
    for x in keep:
        with open(os.path.join(d, x + ".csv")) as f:
            rows = [[float(v) for v in (r["Wavelength"], r["n"], r["k"])] for r in csv.DictReader(f, delimiter="\t")]
        a = np.array(rows)
        for q in range(nf):
            ds = np.abs(a[:, 0] - 1 / fr[q])
            best = ds.min()
            cand = [complex(r[1], r[2]) ** 2 for r, dd in zip(rows, ds) if dd <= best + 1e-9]
            got = complex(o[x][q])
            c.check("nearest entry", min(abs(got - z) for z in cand) <= 1e-5 * (1 + abs(got)), (x, got, cand))
