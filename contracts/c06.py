"""C06 FDTD time step is the lossy Yee update in every cell."""
from pyvc.contract import contract

P = "C06"
GRID = "nidn.fdtd.grid"


def dims(c):
    return [c.int(k, 1, cmax=3) for k in ("nx", "ny", "nz")]


def curl_at(c, F, dim, i, k, forward):
    """component k of the discrete curl at cell i: differences towards the next (forward) or previous cell, where it exists"""
    a, b = (k + 1) % 3, (k + 2) % 3

    def diff(axis, comp):
        step = 1 if forward else -1
        j = list(i)
        j[axis] = j[axis] + step
        there = j[axis] <= dim[axis] - 1 if forward else j[axis] >= 0
        # a neighbour that does not exist contributes nothing
        hi, lo = (j, i) if forward else (i, j)
        if not c.symbolic:
            return float(F[tuple(hi) + (comp,)] - F[tuple(lo) + (comp,)]) if there else 0.0
        return c.ite(there, c.at(F, *hi, comp) - c.at(F, *lo, comp), 0)
    return diff(a, b) - diff(b, a)


@contract(P)
def curl_of_E(c):
    """curl_E: forward differences, every cell, every component, any grid shape"""
    f = c.fn(GRID, "curl_E")
    d = dims(c)
    F = c.tensor("F", d + [3])
    F0 = c.snapshot(F)
    out = c.call(f, F)
    c.isshape("shape", out, *d, 3)
    for k in range(3):
        c.forall(d, lambda x, y, z: c.eq("curl_E[%d]" % k, c.at(out, x, y, z, k), curl_at(c, F0, d, [x, y, z], k, True)))
    c.eq_tensor("field not modified", F, F0)


@contract(P)
def curl_of_H(c):
    """curl_H: backward differences, every cell, every component, any grid shape"""
    f = c.fn(GRID, "curl_H")
    d = dims(c)
    F = c.tensor("F", d + [3])
    F0 = c.snapshot(F)
    out = c.call(f, F)
    c.isshape("shape", out, *d, 3)
    for k in range(3):
        c.forall(d, lambda x, y, z: c.eq("curl_H[%d]" % k, c.at(out, x, y, z, k), curl_at(c, F0, d, [x, y, z], k, False)))
    c.eq_tensor("field not modified", F, F0)


def make_grid(c, d, spacing=None):
    c.assume(c.or_(*[x > 1 for x in d]))  # a 1x1x1 grid has no dimension to take the Courant limit of
    Grid = c.fn(GRID, "Grid")
    g = c.call(Grid, tuple(d), grid_spacing=spacing if spacing is not None else c.number_as(c.real("dx", gt=0, near=(1e-8, 2e-7))))
    return g


def fill_fields(c, g, d):
    a = c.tensor("absorption", d + [3], lo=0)
    for k, t in (("E", c.tensor("E", d + [3])), ("H", c.tensor("H", d + [3])), ("absorption_factor", a),
                 ("inverse_permittivity", c.tensor("ieps", d + [3])), ("inverse_permeability", c.tensor("imu", d + [3]))):
        c.setattr(g, k, t)
    return {k: c.snapshot(getattr(g, k)) for k in ("E", "H", "absorption_factor", "inverse_permittivity", "inverse_permeability")}


class Part:
    """a boundary, source, object or detector that records when it acts and what it sees"""

    def __init__(self, name, log, grid):
        self.name, self.log, self.grid = name, log, grid

    def __getattr__(self, a):
        if a.startswith("update_") or a.startswith("detect_"):
            return lambda *args: self.log.append((self.name, a))
        raise AttributeError(a)


@contract(P, timeout=20)
def electric_half_step(c):
    """update_E: the lossy update with the curl of H, in every cell, then boundaries, sources, detectors"""
    d = dims(c)
    g = make_grid(c, d)
    old = fill_fields(c, g, d)
    C = g.courant_number
    log = parts(c, g)
    c.call(g.update_E)
    for k in range(3):
        def cell(x, y, z):
            at = lambda n: c.at(old[n], x, y, z, k)
            a = at("absorption_factor")
            want = at("E") * (1 - a) + C * at("inverse_permittivity") * curl_at(c, old["H"], d, [x, y, z], k, False)
            c.eq("E[%d]" % k, c.at(g.E, x, y, z, k) * (1 + a), want)
        c.forall(d, cell)
    for n in ("H", "absorption_factor", "inverse_permittivity", "inverse_permeability"):
        c.eq_tensor(n + " unchanged", getattr(g, n), old[n])
    order(c, log, "E")


@contract(P, timeout=20)
def magnetic_half_step(c):
    """update_H: the update with the curl of E, in every cell, then boundaries, sources, detectors"""
    d = dims(c)
    g = make_grid(c, d)
    old = fill_fields(c, g, d)
    C = g.courant_number
    log = parts(c, g)
    c.call(g.update_H)
    for k in range(3):
        def cell(x, y, z):
            at = lambda n: c.at(old[n], x, y, z, k)
            want = at("H") - C * at("inverse_permeability") * curl_at(c, old["E"], d, [x, y, z], k, True)
            c.eq("H[%d]" % k, c.at(g.H, x, y, z, k), want)
        c.forall(d, cell)
    for n in ("E", "absorption_factor", "inverse_permittivity", "inverse_permeability"):
        c.eq_tensor(n + " unchanged", getattr(g, n), old[n])
    order(c, log, "H")


def parts(c, g):
    log = []
    kind = c.choice("object", ["none", "Object", "AbsorbingObject"])
    if kind != "none":
        # an object has written its material into the grid when it was placed and adds nothing of its own
        cls = c.fn("nidn.fdtd.objects", kind)
        o = c.call(cls, 2.0) if kind == "Object" else c.call(cls, 2.0, 3.0)
        c.setattr(o, "grid", g)
        g.objects.append(o)
    for kind in ("boundaries", "sources", "detectors"):
        for i in range(c.choice("n_" + kind, [0, 2])):
            getattr(g, kind).append(Part("%s%d" % (kind, i), log, g))
    return log


def order(c, log, F):
    """boundaries prepare once; after the update boundaries, then sources, then detectors act once each"""
    mine = [e for e in log]
    phi = [e for e in mine if e[1] == "update_phi_" + F]
    rest = [e for e in mine if e[1] != "update_phi_" + F]
    bs = sorted({n for n, _ in mine if n.startswith("bound")})
    c.check("each boundary prepares once", sorted(n for n, _ in phi) == bs, mine)
    c.check("only this half step's methods", all(e[1] in ("update_" + F, "detect_" + F) for e in rest), mine)
    c.check("each part acts once", len({n for n, _ in rest}) == len(rest), mine)
    rank = {"b": 0, "s": 1, "d": 2}
    r = [rank[n[0]] for n, _ in rest]
    c.check("boundaries, then sources, then detectors", r == sorted(r), mine)
    c.check("boundaries prepare before they act", mine[:len(phi)] == phi, mine)


@contract(P)
def step_is_both_halves(c):
    """step: update_E, then update_H, then the step counter; run: exactly that many steps"""
    d = [3, 2, 4]
    g = make_grid(c, d)
    t0 = c.int("t0", 0, cmax=50)
    c.setattr(g, "time_steps_passed", t0)
    log = []
    c.setattr(g, "update_E", lambda: log.append(("E", g.time_steps_passed)))
    c.setattr(g, "update_H", lambda: log.append(("H", g.time_steps_passed)))
    c.call(g.step)
    c.check("electric then magnetic half step", [k for k, _ in log] == ["E", "H"], log)
    for k, t in log:
        c.eq("same time index in both", t, t0)
    c.eq("one more step passed", g.time_steps_passed, t0 + 1)


@contract(P)
def run_steps(c):
    """run(n): exactly n steps for every n; run(seconds): the number of whole steps"""
    d = [3, 2, 4]
    g = make_grid(c, d)
    n = c.int("n", 0, cmax=12)
    t0 = c.int("t0", 0, cmax=50)
    c.setattr(g, "time_steps_passed", t0)

    def step():
        c.setattr(g, "time_steps_passed", g.time_steps_passed + 1)
    c.setattr(g, "step", step)
    how = c.choice("unit", ["steps", "seconds"])
    if how == "steps":
        c.call(g.run, n, progress_bar=False)
        c.eq("exactly n steps", g.time_steps_passed, t0 + n)
    else:
        x = c.real("T", lo=0, near=(0, 5e-15))
        if not c.symbolic:
            x = abs(float(x)) % (40 * g.time_step)
        c.call(g.run, x if c.symbolic else float(x), progress_bar=False)
        m = g.time_steps_passed - t0
        c.check("whole steps in that time", c.and_(m * g.time_step <= x * (1 + 1e-9 if not c.symbolic else 1), x < (m + 1) * g.time_step * (1 + 1e-9 if not c.symbolic else 1)))
