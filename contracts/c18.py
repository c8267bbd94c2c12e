"""C18 FDTD sources and detectors act only where and as configured."""
from pyvc.contract import contract
from contracts.c06 import dims, make_grid, fill_fields

P = "C18"
SRC = "nidn.fdtd.sources"
DET = "nidn.fdtd.detectors"
WAVES = ["continuous", "hanning", "ricker"]



def source_args(c, kinds=WAVES, units=(True, False)):
    kind = c.choice("signal", kinds)
    steps = c.choice("period in steps", units)
    period = c.int("period", 1, cmax=40) if steps else c.real("period_s", gt=0, near=(5e-16, 6e-15))
    a = dict(period=period, amplitude=c.real("amplitude"), phase_shift=c.real("phase"), signal_type=kind,
             cycle=c.int("cycle", 1, cmax=6), hanning_dt=c.real("hanning_dt", gt=0, near=(1e-16, 2e-15)))
    return kind, steps, a


def sample(c, kind, steps, a, g, q):
    """value of the configured waveform (amplitude one) at time step q"""
    per, C = a["period"], g.courant_number
    f = c.div(1, per)
    if kind == "continuous":
        n = per if steps else c.trunc(c.div(per, g.time_step) + c.q("0.5"))
        c.assume(n >= 1)
        return c.sin(2 * c.pi * q / n + a["phase_shift"])
    if kind == "hanning":
        dt, cyc = a["hanning_dt"], a["cycle"]
        end = c.trunc(2 * c.pi / (f * dt / cyc))
        w = c.div(1 - c.cos(f * q * dt / cyc), 2) * c.sin(f * q * dt)
        return c.ite(q < end, w, 0)
    lam = c.div(c.q("299792458"), f)
    n = lam / g.grid_spacing
    v = c.pi * (q * C / n - 1)
    return c.ite(q < 6 * n, (1 - 2 * v * v) * c.exp(-(v * v)), 0)


def time(c, g):
    q = c.int("q", 0, cmax=60)
    c.setattr(g, "time_steps_passed", q)
    return q


def unchanged(c, g, old, but=()):
    for n in old:
        if n not in but:
            c.eq_tensor(n + " unchanged", getattr(g, n), old[n])


@contract(P, trials=60, timeout=15)
def point_source(c):
    """a point source adds its waveform sample to E_z of its cell and changes nothing else"""
    d = dims(c)
    g = make_grid(c, d)
    kind, steps, a = source_args(c)
    pos = [c.int("p" + n, 0, k - 1, cmax=2) for n, k in zip("xyz", d)]
    s = c.call(c.fn(SRC, "PointSource"), **a)
    c.call(g.__setitem__, tuple(pos), s)
    old = fill_fields(c, g, d)
    q = time(c, g)
    want = a["amplitude"] * sample(c, kind, steps, a, g, q)
    c.call(s.update_E)
    c.call(s.update_H)

    def cell(x, y, z):
        here = c.and_(x == pos[0], y == pos[1], z == pos[2])
        for k in range(3):
            diff = c.at(g.E, x, y, z, k) - c.at(old["E"], x, y, z, k)
            c.eq("E_%s" % "xyz"[k], diff, c.ite(here, want, 0) if k == 2 else 0, tol=None if c.symbolic else 1e-5 * max(1, abs(float(a["amplitude"]))))
    c.forall(d, cell)
    unchanged(c, g, old, ("E",))
    c.eq("time untouched", g.time_steps_passed, q)


@contract(P, trials=40, timeout=15)
def line_detector(c):
    """a line detector records the fields at exactly its cells, in order, as copies, and changes nothing"""
    d = dims(c)
    g = make_grid(c, d)
    x, z = c.int("x", 0, d[0] - 1, cmax=2), c.int("z", 0, d[2] - 1, cmax=2)
    det = c.call(c.fn(DET, "LineDetector"), name="det")
    c.call(g.__setitem__, (x, slice(None), z), det)
    old = fill_fields(c, g, d)
    other = {n: c.tensor(n + "2", d + [3]) for n in "EH"}
    c.call(det.detect_E)
    c.call(det.detect_H)
    unchanged(c, g, old)
    for n in "EH":
        t = getattr(g, n)
        t *= 0
        t += other[n]
    c.call(det.detect_E)
    c.call(det.detect_H)
    for n in "EH":
        rec = det.detector_values()[n]
        c.check("one record per detection", len(rec) == 2)
        for t, src in enumerate((old[n], other[n])):
            c.isshape("record", rec[t], d[1], 3)
            c.forall([d[1]], lambda i: [c.eq("recorded " + n, c.at(rec[t], i, k), c.at(src, x, i, z, k)) for k in range(3)])


def line(c):
    """cells of a line source or detector: a segment (with or without explicit ends) along any axis, a diagonal, or a list of cells"""
    how = c.choice("placed by", ["column", "cells", "segment", "diagonal"])
    if how == "column":
        m = c.choice("points", [2, 3, 4] if c.symbolic else [2, 3, 4, 9, 14])
        d = [c.int("nx", 1, cmax=3), m, c.int("nz", 1, cmax=3)]
        x, z = c.int("x", 0, d[0] - 1, cmax=2), c.int("z", 0, d[2] - 1, cmax=2)
        return d, (x, slice(None), z), [(x, i, z) for i in range(m)]
    if how == "cells":
        d = dims(c)
        m = c.choice("points", [2, 3])
        ps = [tuple(c.int("c%d%s" % (i, n), 0, k - 1, cmax=2) for n, k in zip("xyz", d)) for i in range(m)]
        return d, tuple(c.fixed([p[a] for p in ps]) for a in range(3)), ps
    ax = c.choice("axis", [0, 1, 2])
    m = 2 if c.symbolic else c.choice("points", [2, 3, 5])
    ends = c.choice("ends", ["both", "from the start", "to the end"] if how == "segment" else ["both"])
    off = {n: c.int("a" + n, 0, cmax=2) for n in "xyz"}  # cells before the segment
    more = {n: c.int("b" + n, 0, cmax=2) for n in "xyz"}  # cells behind it
    along = [ax] if how == "segment" else [k for k in range(3) if k != ax]
    d, key, start = [], [], []
    for k, n in enumerate("xyz"):
        if k not in along:
            d.append(off[n] + 1 + more[n])
            key.append(off[n])
            start.append(off[n])
            continue
        lo, hi = (0 if ends == "from the start" else off[n]), (0 if ends == "to the end" else more[n])
        d.append(lo + m + hi)
        key.append(slice(None if ends == "from the start" else lo, None if ends == "to the end" else lo + m))
        start.append(lo)
    return d, tuple(key), [tuple(s0 + (i if k in along else 0) for k, s0 in enumerate(start)) for i in range(m)]


def same(c, p, q):
    return c.and_(*[a == b for a, b in zip(p, q)])


@contract(P, trials=60, timeout=15, budget=200, maxpaths=1500)
def line_source(c):
    """a line source adds profile x waveform to E_z of its cells (up to 4 points)"""
    d, key, ps = line(c)
    g = make_grid(c, d)
    # the waveform does not depend on the placement: all of them on the shortest column, the sine everywhere
    full = not c.symbolic or (len(ps) == 2 and key[1] == slice(None))
    kind, steps, a = source_args(c, *(() if full else (WAVES[:1], (True,))))
    if not c.symbolic:
        c.assume(len(set(ps)) > 1)
    s = c.call(c.fn(SRC, "LineSource"), **a)
    # all cells equal: no line
    far = c.or_(*[c.not_(same(c, p, ps[len(ps) // 2])) for p in ps])
    c.assume(far)
    c.call(g.__setitem__, key, s)
    c.eq("as many weights as cells", c.len(s.profile), len(ps))
    # the action is linear in the weights: shown for all weights, the actual ones are line_profile's subject
    t = c.tensor("weights", [len(ps)])
    c.setattr(s, "profile", t)
    prof = [c.at(c.snapshot(t), i) for i in range(len(ps))]
    old = fill_fields(c, g, d)
    q = time(c, g)
    w = sample(c, kind, steps, a, g, q)
    c.call(s.update_E)
    c.call(s.update_H)

    def cell(x, y, z):
        add = sum(c.ite(same(c, (x, y, z), p), w * v, 0) for p, v in zip(ps, prof))
        for k in range(3):
            diff = c.at(g.E, x, y, z, k) - c.at(old["E"], x, y, z, k)
            c.eq("E_%s" % "xyz"[k], diff, add if k == 2 else 0, tol=None if c.symbolic else 1e-5 * max(1, max(abs(float(v)) for v in prof)))
    c.forall(d, cell)
    unchanged(c, g, old, ("E",))


@contract(P, trials=60)
def line_profile(c):
    """the weights of a line source (up to 4 points) sum to its amplitude and fall off from its centre: largest there, equal at equal distance"""
    d, key, ps = line(c)
    g = make_grid(c, d)
    sign = c.choice("sign", [1, -1])
    amp = sign * c.real("amplitude", gt=0, near=(0.5, 5))
    s = c.call(c.fn(SRC, "LineSource"), period=15, amplitude=amp)
    mid = ps[len(ps) // 2]
    c.assume(c.or_(*[c.not_(same(c, p, mid)) for p in ps]))
    c.call(g.__setitem__, key, s)
    c.eq("weights sum to the amplitude", sum(c.at(s.profile, i) for i in range(len(ps))), amp, tol=None if c.symbolic else 1e-5 * abs(float(amp)))
    dist = [sum((x - y) * (x - y) for x, y in zip(p, mid)) for p in ps]
    for i in range(len(ps)):
        c.check("positive weights", sign * c.at(s.profile, i) > 0)
        for j in range(len(ps)):
            if i != j and not (c.symbolic and len(ps) > 2 and not isinstance(key[1], slice)):  # three free cells: on the explored placements only
                slack = 0 if c.symbolic else 1e-6 * abs(float(amp))
                c.check("closer cells weigh at least as much", c.implies(dist[i] <= dist[j], sign * c.at(s.profile, i) + slack >= sign * c.at(s.profile, j)))


@contract(P, trials=40)
def detector_cells(c):
    """a line detector placed by a list of cells records them in that order"""
    d, key, ps = line(c)
    g = make_grid(c, d)
    det = c.call(c.fn(DET, "LineDetector"))
    c.call(g.__setitem__, key, det)
    old = fill_fields(c, g, d)
    c.call(det.detect_E)
    c.call(det.detect_H)
    for n in "EH":
        rec = det.detector_values()[n]
        c.check("one record", len(rec) == 1)
        for i, p in enumerate(ps):
            for k in range(3):
                c.eq("recorded " + n, c.at(rec[0], i, k), c.at(old[n], *p, k))
    unchanged(c, g, old)
    c.check("registered once", len(g.detectors) == 1 and g.detectors[0] is det and len(g.sources) == 0)


@contract(P, trials=40, budget=150, maxpaths=1500)
def block_detector(c):
    """a block detector records the fields of exactly the cells of its block, by position, and changes nothing (up to 2 cells per axis)"""
    kinds = [c.choice("axis " + n, ["cell", "slice", "all"]) for n in "xyz"]
    c.assume(kinds.count("all") < 2) if c.symbolic else None
    d, key, cells = [], [], []
    for n, kind in zip("xyz", kinds):
        if kind == "all":
            m = c.choice("length " + n, [1, 3])
            d.append(m)
            key.append(slice(None))
            cells.append(list(range(m)))
            continue
        a, m = c.int("before " + n, 0, cmax=2), 1 if kind == "cell" else 2
        d.append(a + m + c.int("behind " + n, 0, cmax=2))
        key.append(a if kind == "cell" else slice(a, a + m))
        cells.append([a + i for i in range(m)])
    g = make_grid(c, d)
    det = c.call(c.fn(DET, "BlockDetector"))
    c.call(g.__setitem__, tuple(key), det)
    old = fill_fields(c, g, d)
    other = {n: c.tensor(n + "2", d + [3]) for n in "EH"}
    c.call(det.detect_E)
    c.call(det.detect_H)
    unchanged(c, g, old)
    for n in "EH":
        t = getattr(g, n)
        t *= 0
        t += other[n]
    c.call(det.detect_E)
    c.call(det.detect_H)
    for n in "EH":
        rec = det.detector_values()[n]
        c.check("one record per detection", len(rec) == 2)
        for t, src in enumerate((old[n], other[n])):
            c.check("one row per x", len(rec[t]) == len(cells[0]))
            for i, x in enumerate(cells[0][:len(rec[t])]):
                c.check("one column per y", len(rec[t][i]) == len(cells[1]))
                for j, y in enumerate(cells[1][:len(rec[t][i])]):
                    c.check("one entry per z", len(rec[t][i][j]) == len(cells[2]))
                    for k, z in enumerate(cells[2][:len(rec[t][i][j])]):
                        for q in range(3):
                            c.eq("recorded " + n, c.at(rec[t][i][j][k], q), c.at(src, x, y, z, q))


@contract(P, trials=40)
def any_history(c):
    """after any number of records, one detection appends exactly one record and keeps the earlier ones"""
    d = dims(c)
    g = make_grid(c, d)
    x, z = c.int("x", 0, d[0] - 1, cmax=2), c.int("z", 0, d[2] - 1, cmax=2)
    det = c.call(c.fn(DET, "LineDetector"))
    c.call(g.__setitem__, (x, slice(None), z), det)
    old = fill_fields(c, g, d)
    n = c.int("recorded", 0, cmax=400)
    past = {f: c.list("past" + f, n) for f in "EH"}
    snap = {f: c.snapshot(past[f]) for f in "EH"}
    for f in "EH":
        c.setattr(det, f, past[f])
        if det.detector_values()[f] is not past[f]:
            raise TypeError("the records are kept elsewhere")
    time(c, g)
    c.call(det.detect_E)
    c.call(det.detect_H)
    for f in "EH":
        rec = det.detector_values()[f]
        c.eq("one record more", c.len(rec), n + 1)
        last = c.item(rec, n)
        c.forall([d[1]], lambda i: [c.eq("recorded " + f, c.at(last, i, k), c.at(old[f], x, i, z, k)) for k in range(3)])
        c.forall([n], lambda t: c.eq("earlier records kept", c.scalar(c.item(rec, t)), c.at(snap[f], t)))
    unchanged(c, g, old)


@contract(P)
def rejected_places(c):
    """sources and detectors on the wrong kind of place, or a name used twice, are errors"""
    d = [4, 4, 4]
    g = make_grid(c, d)
    what = c.choice("what", ["point on a line", "point on cells", "line of one point", "source lists", "detector lists", "point name", "line name", "detector name"])
    Point, Line, Det = c.fn(SRC, "PointSource"), c.fn(SRC, "LineSource"), c.fn(DET, "LineDetector")
    ax = c.choice("axis", [0, 1, 2])

    def key(v, rest=1):
        k = [rest] * 3
        k[ax] = v
        return tuple(k)
    if what == "point on a line":
        o, want = c.outcome(g.__setitem__, key(slice(None)), c.call(Point)), "ValueError"
    elif what == "point on cells":
        o, want = c.outcome(g.__setitem__, key([1, 2], [1, 2]), c.call(Point)), "ValueError"
    elif what == "line of one point":
        o, want = c.outcome(g.__setitem__, key(slice(1, 2)), c.call(Line)), "ValueError"
    elif what == "source lists":
        o, want = c.outcome(g.__setitem__, key([1, 2], [0, 1, 2]), c.call(Line)), "IndexError"
    elif what == "detector lists":
        o, want = c.outcome(g.__setitem__, key([1, 2], [0, 1, 2]), c.call(Det)), "IndexError"
    else:
        cls, k = {"point name": (Point, key(2)), "line name": (Line, key(slice(None))), "detector name": (Det, key(slice(None)))}[what]
        c.call(g.__setitem__, k, c.call(cls, name="same"))
        o, want = c.outcome(g.__setitem__, k, c.call(cls, name="same")), "ValueError"
    c.check("rejected: " + what, o.exc == want, o.exc)
