"""C07 FDTD grid is stable and its boundaries only absorb or wrap."""
import math

from pyvc.contract import contract
from contracts.c06 import dims, make_grid, fill_fields, GRID

P = "C07"
BND = "nidn.fdtd.boundaries"
SIDES = [(0, False), (0, True), (1, False), (1, True), (2, False), (2, True)]


@contract(P, trials=60)
def courant_limit(c):
    """time step within the Courant limit of the dimensionality; larger courant numbers rejected"""
    Grid = c.fn(GRID, "Grid")
    n = [c.int(k, 1, cmax=3) for k in ("nx", "ny", "nz")]
    c.assume(c.or_(*[x > 1 for x in n]))
    dx = c.real("dx", gt=0, near=(1e-8, 2e-7))
    given = c.choice("courant given", [False, True])
    cn = c.real("courant", gt=0, near=(0.4, 0.7)) if given else None
    D = sum([c.ite(x > 1, 1, 0) for x in n]) if c.symbolic else sum(int(x > 1) for x in n)
    if given:
        if not c.symbolic:
            off = c.choice("distance from the limit", [None, None, -1e-2, -1e-4, -1e-7, 1e-7, 1e-4, 1e-3])
            cn = cn if off is None else (1 + off) / math.sqrt(D)
            c.assume(abs(float(cn) ** 2 * D - 1) > 1e-9)
        o = c.outcome(Grid, tuple(n), grid_spacing=dx, courant_number=cn)
        if cn * cn * D > 1:
            c.check("too large a courant number is a ValueError", o.exc == "ValueError", o.exc)
            return
        c.check("no error", o.ok, repr(o.err))
        g = o.value
        c.eq("courant number kept", g.courant_number, cn)
    else:
        g = c.call(Grid, tuple(n), grid_spacing=dx)
    C = g.courant_number
    c.check("within the Courant limit", c.and_(C > 0, C * C * D <= 1))
    c.eq("time step", g.time_step * c.q("299792458"), C * dx)
    c.eq("spacing kept", g.grid_spacing, dx)
    for a, x in zip(("Nx", "Ny", "Nz"), n):
        c.eq(a, getattr(g, a), x)
    for f in ("E", "H", "absorption_factor"):
        c.isshape(f, getattr(g, f), *n, 3)
        c.forall(n, lambda x, y, z: [c.eq(f + " starts at zero", c.at(getattr(g, f), x, y, z, k), 0) for k in range(3)])
    for f in ("inverse_permittivity", "inverse_permeability"):
        c.isshape(f, getattr(g, f), *n, 3)
        c.forall(n, lambda x, y, z: [c.eq(f + " of vacuum", c.at(getattr(g, f), x, y, z, k), 1) for k in range(3)])


def place(c, g, axis, high, p, cls="PML", name="b"):
    key = [slice(None)] * 3
    key[axis] = slice(-p, None) if high else slice(0, p)
    b = c.call(c.fn(BND, cls), name=name)
    c.call(g.__setitem__, tuple(key), b)
    return b


def scene(c):
    axis, high = c.choice("side", SIDES)
    d = dims(c)
    p = c.int("p", 1, cmax=3)
    if not c.symbolic:
        d[axis] = d[axis] + p
    c.assume(p <= d[axis])
    g = make_grid(c, d)
    b = place(c, g, axis, high, p)
    e = list(d)
    e[axis] = p
    return axis, high, d, p, g, b, e


@contract(P, timeout=15)
def absorber_profile(c):
    """decay in (0,1], coupling <= 0, loss growing towards the edge and only along the normal, any thickness and side"""
    axis, high, d, p, g, b, e = scene(c)
    for F in "EH":
        s, bb, cc = (getattr(b, n + F) for n in ("sigma", "b", "c"))
        c.isshape("profile", s, *e, 3)

        def cell(x, y, z):
            for k in range(3):
                sg = c.at(s, x, y, z, k)
                c.check("loss not negative", sg >= 0)
                c.check("decay factor in (0,1]", c.and_(c.at(bb, x, y, z, k) > 0, c.at(bb, x, y, z, k) <= 1))
                c.check("coupling factor <= 0", c.at(cc, x, y, z, k) <= 0)
                if k != axis:
                    c.eq("no loss along the layer", sg, 0)
                    c.eq("no coupling along the layer", c.at(cc, x, y, z, k), 0)
        c.forall(e, cell)
        m = list(e)
        m[axis] = p - 1

        def grow(*i):
            j = list(i)
            j[axis] = j[axis] + 1
            lo, hi = (i, j) if high else (j, i)
            if F == "H":
                # the magnetic profile lives between cells: p-1 values, the last entry is unused
                if c.symbolic:
                    c.check("loss grows towards the edge", c.or_(j[axis] == p - 1, c.at(s, *lo, axis) < c.at(s, *hi, axis)))
                elif j[axis] != p - 1:
                    c.check("loss grows towards the edge", bool(s[tuple(lo) + (axis,)] < s[tuple(hi) + (axis,)]))
            else:
                c.lt("loss grows towards the edge", c.at(s, *lo, axis), c.at(s, *hi, axis))
        c.forall(m, grow)


@contract(P)
def periodic(c):
    """a periodic boundary copies one face onto the opposite one and touches no other cell"""
    axis, high = c.choice("side", SIDES)
    d = dims(c)
    g = make_grid(c, d)
    key = [slice(None)] * 3
    key[axis] = -1 if high else 0
    b = c.call(c.fn(BND, "PeriodicBoundary"), name="b")
    c.call(g.__setitem__, tuple(key), b)
    old = fill_fields(c, g, d)
    for call, changed in ((b.update_phi_E, None), (b.update_phi_H, None), (b.update_E, "E"), (b.update_H, "H")):
        now = {n: c.snapshot(getattr(g, n)) for n in old}
        c.call(call)
        for n in old:
            if n != changed:
                c.eq_tensor(n + " unchanged", getattr(g, n), now[n])
                continue

            def cell(*i):
                src = list(i)
                # E takes the value of the high face, H that of the low face: the ones whose update had both neighbours
                if n == "E":
                    src[axis] = c.ite(i[axis] == 0, d[axis] - 1, i[axis]) if c.symbolic else (d[axis] - 1 if i[axis] == 0 else i[axis])
                else:
                    src[axis] = c.ite(i[axis] == d[axis] - 1, 0, i[axis]) if c.symbolic else (0 if i[axis] == d[axis] - 1 else i[axis])
                for k in range(3):
                    c.eq(n + " wrapped", c.at(getattr(g, n), *i, k), c.at(now[n], *src, k))
            c.forall(d, cell)


def local(d, p, axis, high, i):
    """grid index of a cell of the layer"""
    j = list(i)
    if high:
        j[axis] = d[axis] - p + j[axis]
    return j


@contract(P, timeout=15, budget=200)
def absorber_recursion(c):
    """update_phi_E/H: psi <- b psi + c (field difference along the axis, where the neighbour is in the layer); phi their difference"""
    axis, high, d, p, g, b, e = scene(c)
    F = c.choice("half step", ["E", "H"])
    src = {"E": "H", "H": "E"}[F]
    old = fill_fields(c, g, d)
    psi = {}
    for k, n in enumerate("xyz"):
        t = c.tensor("psi" + n, e + [3])
        c.setattr(b, "psi_" + F + n, t)
        psi[k] = c.snapshot(t)
    # any factors: the recursion is the same for all of them
    bb, cc = c.tensor("decay", e + [3]), c.tensor("coupling", e + [3])
    c.setattr(b, "b" + F, bb)
    c.setattr(b, "c" + F, cc)
    b0, c0 = c.snapshot(bb), c.snapshot(cc)
    c.call(getattr(b, "update_phi_" + F))

    def want(k, i, ax):
        """psi of component k along axis ax after the update"""
        v = c.at(psi[k], *i, ax) * c.at(b0, *i, ax)
        if ax == k:
            return v
        comp = 3 - k - ax
        j = list(i)
        j[ax] = j[ax] + (-1 if F == "E" else 1)
        hi, lo = (i, j) if F == "E" else (j, i)
        there = j[ax] >= 0 if F == "E" else j[ax] <= e[ax] - 1
        fld = lambda q: c.at(old[src], *local(d, p, axis, high, q), comp)
        if c.symbolic:
            return v + c.ite(there, (fld(hi) - fld(lo)) * c.at(c0, *i, ax), 0)
        return v + ((fld(hi) - fld(lo)) * c.at(c0, *i, ax) if there else 0)

    phi = getattr(b, "phi_" + F)
    c.isshape("phi", phi, *e, 3)

    def cell(*i):
        for k, n in enumerate("xyz"):
            a1, a2 = (k + 1) % 3, (k + 2) % 3
            w1, w2 = want(k, i, a1), want(k, i, a2)
            c.eq("psi along the first axis", c.at(getattr(b, "psi_" + F + n), *i, a1), w1)
            c.eq("psi along the second axis", c.at(getattr(b, "psi_" + F + n), *i, a2), w2)
            c.eq("phi", c.at(phi, *i, k), w1 - w2)
    c.forall(e, cell)
    for n in old:
        c.eq_tensor(n + " unchanged", getattr(g, n), old[n])


@contract(P, timeout=15, budget=200)
def absorber_action(c):
    """update_E/H: every cell of the layer gets courant x inverse material x phi, no other cell changes"""
    axis, high, d, p, g, b, e = scene(c)
    old = fill_fields(c, g, d)
    F = c.choice("half step", ["E", "H"])
    phi = c.tensor("phi", e + [3])
    c.setattr(b, "phi_" + F, phi)
    ph0 = c.snapshot(phi)
    c.call(getattr(b, "update_" + F))
    mat, sign = ("inverse_permittivity", 1) if F == "E" else ("inverse_permeability", -1)
    C = g.courant_number

    def cell(*i):
        inside = i[axis] >= d[axis] - p if high else i[axis] < p
        l = list(i)
        if high:
            l[axis] = l[axis] - (d[axis] - p)
        for k in range(3):
            diff = c.at(getattr(g, F), *i, k) - c.at(old[F], *i, k)
            if c.symbolic:
                m = C * c.at(old[mat], *i, k)
                w = sign * m * c.at(ph0, *l, k)
                # up to the documented 1e-16 that keeps gradients flowing
                slack = c.q("1e-15") * m
                c.check("layer cells", c.implies(inside, c.or_(diff - w == 0, diff - w == c.q("1e-16") * m)))
                c.check("other cells unchanged", c.implies(c.not_(inside), diff == 0))
            elif inside:
                c.eq("layer cells", float(diff), float(sign * C * old[mat][i + (k,)] * ph0[tuple(l) + (k,)]), tol=1e-9)
            else:
                c.eq("other cells unchanged", float(diff), 0.0)
    c.forall(d, cell)
    for n in old:
        if n != F:
            c.eq_tensor(n + " unchanged", getattr(g, n), old[n])


@contract(P, timeout=15)
def absorber_factors(c):
    """decay exp(-(sigma+a) courant) and coupling (decay-1) sigma/(sigma+a), everywhere; memory starts at zero"""
    axis, high, d, p, g, b, e = scene(c)
    C = g.courant_number
    for F in "EH":
        s, bb, cc = (getattr(b, n + F) for n in ("sigma", "b", "c"))

        def cell(*i):
            for k in range(3):
                sg = c.at(s, *i, k)
                c.eq("decay", c.at(bb, *i, k), c.exp(-(sg / b.k + b.a) * C))
                c.eq("coupling", c.at(cc, *i, k) * (sg * b.k + b.a * b.k * b.k), (c.at(bb, *i, k) - 1) * sg)
                for n in "xyz":
                    c.eq("memory starts at zero", c.at(getattr(b, "psi_" + F + n), *i, k), 0)
                c.eq("correction starts at zero", c.at(getattr(b, "phi_" + F), *i, k), 0)
        c.forall(e, cell)


@contract(P)
def rejected_places(c):
    """boundaries anywhere but at the edge, or twice on one side, are errors"""
    d = [4, 4, 4]
    g = make_grid(c, d)
    axis, high = c.choice("side", SIDES)
    what = c.choice("what", ["pml index", "pml inside", "periodic inside", "pml twice", "periodic twice", "name twice"])
    PML, Per = c.fn(BND, "PML"), c.fn(BND, "PeriodicBoundary")
    key = [slice(None)] * 3
    if what == "pml index":
        key[axis] = -1 if high else 0
        o = c.outcome(g.__setitem__, tuple(key), c.call(PML))
        want = ("ValueError",)
    elif what == "pml inside":
        key[axis] = slice(c.int("from", 1, 2), 3)
        o = c.outcome(g.__setitem__, tuple(key), c.call(PML))
        want = ("IndexError",)
    elif what == "periodic inside":
        key[axis] = c.int("at", 1, 2)
        o = c.outcome(g.__setitem__, tuple(key), c.call(Per))
        want = ("IndexError",)
    else:
        cls, k1 = (Per, -1 if high else 0) if what == "periodic twice" else (PML, slice(-2, None) if high else slice(0, 2))
        key[axis] = k1
        nm = ("n", "n") if what == "name twice" else (None, None)
        c.call(g.__setitem__, tuple(key), c.call(cls, name=nm[0]))
        if what == "name twice":
            key[axis] = slice(0, 2) if high else slice(-2, None)
        o = c.outcome(g.__setitem__, tuple(key), c.call(cls, name=nm[1]))
        want = ("ValueError",) if what == "name twice" else ("AttributeError",)
    c.check("rejected: " + what, o.exc in want, o.exc)
