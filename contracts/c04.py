"""C04 RCWA solutions satisfy Maxwell's interface conditions."""
from pyvc.contract import contract

P = "C04"
RC = "nidn.trcwa.trcwa"
TF = "nidn.trcwa.utils.torch_functions"


class Stack:
    """mode data of a stack of media: q (z-wave numbers), phi (mode shapes), kp (operator), thickness - all arbitrary"""

    def __init__(self, c, m, n=None):
        self.c, self.m = c, m
        self.q = lambda l: c.array([m], lambda i: c.mkc(c.uf("q_re", l, i), c.uf("q_im", l, i)), kind="c")
        self.phi = lambda l: c.matrix("phi", m, l)
        self.kp = lambda l: c.matrix("kp", m, l)
        self.d = lambda l: c.uf("d", l)
        if n is not None:
            self.lists(n)

    def lists(self, n):
        c = self.c
        mk = (lambda f: c.seq(n, f)) if not isinstance(n, int) else (lambda f: c.fixed([f(l) for l in range(n)]))
        self.args = [mk(self.q), mk(self.phi), mk(self.kp), mk(self.d)]
        nz = lambda l: c.all(self.m, lambda i: c.or_(c.uf("q_re", l, i) != 0, c.uf("q_im", l, i) != 0))
        if isinstance(n, int):
            for l in range(n):
                c.assume(nz(l))
        else:
            c.assume_all(n, nz)

    def conditioned(self, n):
        """concrete cases only: matrices that can be inverted in floating point"""
        c = self.c
        if c.symbolic:
            return
        t = c.torch
        for l in range(n):
            for x in (self.phi(l), self.kp(l)):
                c.assume(float(t.linalg.cond(x)) < 30)
            c.assume(float(self.q(l).abs().min()) > 0.1 and float(self.q(l).abs().max()) < 5)
        for l in range(n - 1):
            Q, Pm = t.inverse(self.phi(l)) @ self.phi(l + 1), t.inverse(self.E(l)) @ self.E(l + 1)
            c.assume(float(t.linalg.cond(Q + Pm)) < 100)

    # the quantities the interface conditions are about
    def prop(self, l):
        """propagation through layer l: diag(exp(i q d))"""
        t = self.c.torch_()
        return t.diag(t.exp(1j * self.q(l) * self.d(l)))

    def E(self, l):
        """amplitudes -> tangential E: kp phi / q"""
        t = self.c.torch_()
        return self.kp(l) @ self.phi(l) @ t.diag(1.0 / self.q(l))


def eye(c, m):
    t = c.torch_()
    return t.complex(t.eye(m), t.zeros((m, m)))


def interface(c, s, l, a, b, a2, b2, tag=""):
    """tangential fields of layer l at its end equal those of layer l + 1 at its start; amplitudes are operators on (a0, bN)"""
    d, d2 = s.prop(l), s.prop(l + 1)
    for nm, x, y, x2, y2 in (("incident part", a[0], b[0], a2[0], b2[0]), ("back part", a[1], b[1], a2[1], b2[1])):
        c.mat_eq("tangential H continuous (%s%s)" % (nm, tag), s.phi(l) @ (d @ x + y), s.phi(l + 1) @ (x2 + d2 @ y2))
        c.mat_eq("tangential E continuous (%s%s)" % (nm, tag), s.E(l) @ (d @ x - y), s.E(l + 1) @ (x2 - d2 @ y2))


def back(c, s, l, a2, b2):
    """the amplitudes b_l that layer l has when layer l + 1 has (a2, b2): from both conditions, eliminating the forward wave"""
    t = c.torch_()
    Q = t.inverse(s.phi(l)) @ s.phi(l + 1)
    Pm = t.inverse(s.E(l)) @ s.E(l + 1)
    d2 = s.prop(l + 1)
    return [0.5 * (Q @ (x + d2 @ y) - Pm @ (x - d2 @ y)) for x, y in zip(a2, b2)]


def through(c, S, b):
    """forward amplitude at the end of a partial stack with S matrix S, given its backward amplitude b"""
    return [S[0] + S[1] @ b[0], S[1] @ b[1]]


@contract(P, trials=15, budget=200.0)
def fixed_stacks(c):
    """two and three media: the amplitudes given by the S matrices satisfy both interface conditions at every interface"""
    f = c.fn(RC, "GetSMatrix")
    m = c.int("modes", 1, cmax=4)
    n = c.choice("media", [2, 3])
    s = Stack(c, m, n)
    I, Z = eye(c, m), 0 * eye(c, m)
    s.conditioned(n)
    S = [c.call(f, 0, l, *s.args) for l in range(n)]
    for l in range(n):
        for nm, x in zip(("S11", "S12", "S21", "S22"), S[l]):
            c.isshape("%s is square in the modes" % nm, x, m, m)
    c.mat_eq("no interface: S11 is the identity", S[0][0], I)
    c.mat_eq("no interface: S12 is zero", S[0][1], Z)
    b = [Z, I]
    a = [S[n - 1][0], S[n - 1][1]]
    b0 = [S[n - 1][2], S[n - 1][3]]
    for l in range(n - 2, -1, -1):
        bl = back(c, s, l, a, b)
        al = through(c, S[l], bl)
        interface(c, s, l, al, bl, a, b, ", interface %d of %d" % (l + 1, n - 1))
        a, b = al, bl
    c.mat_eq("first medium carries the incident wave", a[0], I)
    c.mat_eq("first medium carries nothing else forward", a[1], Z)
    c.mat_eq("reflected amplitudes of the incident wave", b0[0], b[0])
    c.mat_eq("reflected amplitudes of the back wave", b0[1], b[1])


@contract(P, trials=15, budget=200.0)
def induction(c):
    """any number of media, any part of the stack: the recursion starts with the empty stack and each step adds exactly one interface,
    at which the fields are continuous - hence (by induction) at every interface of every stack"""
    f = c.fn(RC, "GetSMatrix")
    m = c.int("modes", 1, cmax=4)
    n = c.int("media", 2, cmax=5)
    i = c.int("first", 0, n - 2, cmax=3)
    j = c.int("last", i + 1, n - 1, cmax=4)
    k = c.int("step", 0, j - i - 1, cmax=3)
    s = Stack(c, m, n)
    s.conditioned(n)
    l = i + k
    I, Z = eye(c, m), 0 * eye(c, m)
    if c.symbolic:
        base, cnt = c.call(c.cut_loop(f, k, "base"), i, j, *s.args)
        c.eq("one step per interface", cnt, j - i)
        pre, _ = c.call(c.cut_loop(f, k, "pre"), i, j, *s.args)
        post, _ = c.call(c.cut_loop(f, k, "post"), i, j, *s.args)
    else:
        base, pre, post = c.call(f, i, i, *s.args), c.call(f, i, l, *s.args), c.call(f, i, l + 1, *s.args)
    for nm, x, y in zip(("S11", "S12", "S21", "S22"), base, (I, Z, Z, I)):
        c.mat_eq("empty stack: %s" % nm, x, y)
    a, b = [post[0], post[1]], [Z, I]
    bl = back(c, s, l, a, b)
    al = through(c, pre, bl)
    interface(c, s, l, al, bl, a, b)
    c.mat_eq("reflected amplitudes of the incident wave", post[2], pre[2] + pre[3] @ bl[0])
    c.mat_eq("reflected amplitudes of the back wave", post[3], pre[3] @ bl[1])


@contract(P)
def order_rejected(c):
    """a part of the stack that ends before it starts is rejected; one that ends where it starts is the identity"""
    f = c.fn(RC, "GetSMatrix")
    m, n = c.int("modes", 1, cmax=3), c.int("media", 1, cmax=4)
    i, j = c.int("first", 0, n - 1, cmax=3), c.int("last", 0, n - 1, cmax=3)
    s = Stack(c, m, n)
    c.assume(j <= i)
    o = c.outcome(f, i, j, *s.args)
    c.check("accepted exactly when not reversed", c.iff(o.ok, i == j), repr(o.err))


@contract(P)
def exterior(c):
    """SolveExterior: outgoing amplitudes are the S matrix of the whole stack applied to the incoming ones"""
    f = c.fn(RC, "SolveExterior")
    m, n = c.int("modes", 1, cmax=4), c.int("media", 1, cmax=4)
    s = Stack(c, m, n)
    S = [c.matrix("S%d" % k, m) for k in (11, 12, 21, 22)]
    a0, bN = c.tensor("a0", [m], kind="c"), c.tensor("bN", [m], kind="c")
    log = []

    def smat(indi, indj, q_list, phi_list, kp_list, thickness_list):
        log.append(1)
        c.eq("from the first medium", indi, 0)
        c.eq("to the last medium", indj, n - 1)
        for nm, x, y in zip(("modes", "mode shapes", "operators", "thicknesses"), (q_list, phi_list, kp_list, thickness_list), s.args):
            c.check("%s of the stack" % nm, x is y)
        return tuple(S)
    with c.stub(RC, GetSMatrix=smat):
        aN, b0 = c.call(f, a0, bN, *s.args)
    c.check("S matrix computed once", len(log) == 1)
    c.isshape("transmitted amplitudes", aN, m)
    c.isshape("reflected amplitudes", b0, m)

    def at(i):
        dot = lambda M, v: c.sum(m, lambda j: c.at(M, i, j) * c.at(v, j))
        c.eq("transmitted = S11 a0 + S12 bN", c.at(aN, i), dot(S[0], a0) + dot(S[1], bN))
        c.eq("reflected = S21 a0 + S22 bN", c.at(b0, i), dot(S[2], a0) + dot(S[3], bN))
    c.forall([m], at)


@contract(P, trials=15)
def interior(c):
    """SolveInterior: amplitudes of layer l fit both the part of the stack before it and the part behind it (S matrices by contract)"""
    f = c.fn(RC, "SolveInterior")
    m, n = c.int("modes", 1, cmax=4), c.int("media", 1, cmax=4)
    l = c.int("layer", 0, n - 1, cmax=3)
    s = Stack(c, m, n)
    S, T = [c.matrix("S%d" % k, m) for k in (11, 12, 21, 22)], [c.matrix("T%d" % k, m) for k in (11, 12, 21, 22)]
    if not c.symbolic:
        c.assume(float(c.torch.linalg.cond(eye(c, m) - S[1] @ T[2])) < 50)
    a0, bN = c.tensor("a0", [m], kind="c"), c.tensor("bN", [m], kind="c")
    c.hook("opaque_mv", True)
    c.hook("vec_bases", [a0, bN])
    calls = []

    def smat(indi, indj, q_list, phi_list, kp_list, thickness_list):
        for nm, x, y in zip(("modes", "mode shapes", "operators", "thicknesses"), (q_list, phi_list, kp_list, thickness_list), s.args):
            c.check("%s of the stack" % nm, x is y)
        front = len(calls) == 0
        calls.append(1)
        c.eq("from the first medium" if front else "from the layer", indi, 0 if front else l)
        c.eq("to the layer" if front else "to the last medium", indj, l if front else n - 1)
        return tuple(S if front else T)
    with c.stub(RC, GetSMatrix=smat):
        ai, bi = c.call(f, l, a0, bN, *s.args)
    c.check("both parts of the stack", len(calls) == 2)
    c.isshape("forward amplitudes", ai, m)
    c.isshape("backward amplitudes", bi, m)
    x, y = S[0] @ a0 + S[1] @ bi, T[2] @ ai + T[3] @ bN
    tol = None if c.symbolic else 1e-3
    c.forall([m], lambda i: [c.eq("forward = S11 a0 + S12 b (front part)", c.at(ai, i), c.at(x, i), tol=tol), c.eq("backward = S21 a + S22 bN (rear part)", c.at(bi, i), c.at(y, i), tol=tol)])


@contract(P)
def translate(c):
    """TranslateAmplitudes: each mode at depth dz of its layer; forward from the front, backward from the rear"""
    f = c.fn(RC, "TranslateAmplitudes")
    m = c.int("modes", 1, cmax=4)
    q, a, b = (c.tensor(n, [m], kind="c") for n in ("q", "a", "b"))
    d, z = c.real("thickness", lo=0), c.real("z", lo=0)
    x, y = c.call(f, q, d, z, a, b)
    c.isshape("forward", x, m)
    c.isshape("backward", y, m)

    t = c.torch_()
    u, v = a * t.exp(1j * q * z), b * t.exp(1j * q * (d - z))
    c.forall([m], lambda i: [c.eq("forward wave", c.at(x, i), c.at(u, i)), c.eq("backward wave", c.at(y, i), c.at(v, i))])


@contract(P)
def dot(c):
    """torch_dot: matrix-matrix, matrix-vector and vector-vector product, real and complex operands in any combination"""
    f = c.fn(TF, "torch_dot")
    m, k, n = c.int("m", 1, cmax=3), c.int("k", 1, cmax=3), c.int("n", 1, cmax=3)
    ka, kb = c.choice("kind of a", ["r", "c"]), c.choice("kind of b", ["r", "c"])
    which = c.choice("shapes", ["mm", "mv", "dot"])
    a = c.tensor("a", [m, k] if which != "dot" else [k], kind=ka)
    b = c.tensor("b", [k, n] if which == "mm" else [k], kind=kb)
    r = c.call(f, a, b)
    if which == "mm":
        c.isshape("shape", r, m, n)
        c.forall([m, n], lambda i, j: c.eq("entry", c.at(r, i, j), c.sum(k, lambda x: c.at(a, i, x) * c.at(b, x, j))))
    elif which == "mv":
        c.isshape("shape", r, m)
        c.forall([m], lambda i: c.eq("entry", c.at(r, i), c.sum(k, lambda x: c.at(a, i, x) * c.at(b, x))))
    else:
        c.eq("value", c.scalar(r), c.sum(k, lambda x: c.at(a, x) * c.at(b, x)))


@contract(P)
def helpers(c):
    """torch_eye, torch_zeros, torch_transpose: identity, zeros and transpose, real or complex"""
    n, m = c.int("n", 1, cmax=3), c.int("m", 1, cmax=3)
    dt = c.choice("dtype", [None, complex])
    e = c.call(c.fn(TF, "torch_eye"), n, dt) if dt is not None else c.call(c.fn(TF, "torch_eye"), n)
    c.isshape("identity is square", e, n, n)
    c.forall([n, n], lambda i, j: c.eq("identity", c.at(e, i, j), c.ite(i == j, 1, 0)))
    z = c.call(c.fn(TF, "torch_zeros"), n, complex)
    c.isshape("zeros", z, n)
    c.forall([n], lambda i: c.eq("zero", c.at(z, i), 0))
    t = c.tensor("t", [n, m], kind=c.choice("kind", ["r", "c"]))
    u = c.call(c.fn(TF, "torch_transpose"), t)
    c.isshape("transposed shape", u, m, n)
    c.forall([m, n], lambda i, j: c.eq("transpose (not conjugated)", c.at(u, i, j), c.at(t, j, i)))


def waves(c, n, kind="c"):
    return c.tensor("kx", [n], kind=kind), c.tensor("ky", [n], kind=kind), c.cplx("omega")


@contract(P, budget=150.0)
def operator(c):
    """MakeKPMatrix: omega^2 - J k eps^-1 k J^T, for a uniform (scalar) and a patterned (matrix) inverse permittivity"""
    f = c.fn(RC, "MakeKPMatrix")
    n = c.int("orders", 1, cmax=3)
    kx, ky, om = waves(c, n)
    typ = c.choice("layer", [0, 1])
    if typ == 0:
        s = c.cplx("epinv")
        inv, at = c.number_as(s), lambda i, j: c.ite(i == j, s, c.mkc(0, 0))
    else:
        inv = c.tensor("epinv", [n, n], kind="c")
        at = lambda i, j: c.at(inv, i, j)
    kp = c.call(f, om, typ, inv, kx, ky)
    c.isshape("operator over both components", kp, 2 * n, 2 * n)

    def entry(i, j):
        d = c.ite(i == j, om * om, c.mkc(0, 0))
        x, y = (lambda l: c.at(kx, l)), (lambda l: c.at(ky, l))
        c.eq("xx", c.at(kp, i, j), d - y(i) * at(i, j) * y(j))
        c.eq("xy", c.at(kp, i, n + j), y(i) * at(i, j) * x(j))
        c.eq("yx", c.at(kp, n + i, j), x(i) * at(i, j) * y(j))
        c.eq("yy", c.at(kp, n + i, n + j), d - x(i) * at(i, j) * x(j))
    c.forall([n, n], entry)


@contract(P, budget=150.0)
def uniform_modes(c):
    """uniform medium: every order has q^2 = eps omega^2 - kx^2 - ky^2 in both polarisations, never growing; the modes are the orders"""
    f = c.fn(RC, "SolveLayerEigensystem_uniform")
    n = c.int("orders", 1, cmax=3)
    kx, ky, om = waves(c, n)
    ep = c.cplx("eps")
    q, phi = c.call(f, om, kx, ky, c.number_as(ep))
    c.isshape("two polarisations per order", q, 2 * n)
    c.isshape("mode shapes", phi, 2 * n, 2 * n)

    def mode(i):
        w = ep * om * om - c.at(kx, i) * c.at(kx, i) - c.at(ky, i) * c.at(ky, i)
        for k in (i, n + i):
            x = c.at(q, k)
            c.eq("dispersion relation", x * x, w, tol=1e-5)
            c.check("never growing", c.im(x) >= 0)
    c.forall([n], mode)
    c.forall([2 * n, 2 * n], lambda i, j: c.eq("mode shapes are the orders", c.at(phi, i, j), c.ite(i == j, 1, 0)))


@contract(P, budget=200.0, trials=15)
def patterned_modes(c):
    """patterned layer: the modes are those of eps kp - k k^T, q^2 the eigenvalues, never growing"""
    f = c.fn(RC, "SolveLayerEigensystem")
    n = c.int("orders", 1, cmax=3)
    kx, ky, om = waves(c, n)
    kp, ep2 = c.tensor("kp", [2 * n, 2 * n], kind="c"), c.tensor("ep2", [2 * n, 2 * n], kind="c")
    lam, vec = c.tensor("lambda", [2 * n], kind="c"), c.tensor("vec", [2 * n, 2 * n], kind="c")
    k = lambda i: c.ite(i < n, c.at(kx, c.ite(i < n, i, 0)), c.at(ky, c.ite(i < n, 0, i - n)))
    o = lambda i: c.ite(i < n, i, i - n)

    def M(i, j):
        s = c.sum(2 * n, lambda x: c.at(ep2, i, x) * c.at(kp, x, j))
        return s - c.ite(o(i) == o(j), k(i) * k(j), c.mkc(0, 0))

    def eig(A):
        c.isshape("operator over both components", A, 2 * n, 2 * n)
        for a in (0, 1):
            for b in (0, 1):
                def entry(i, j):
                    x = c.sum(2 * n, lambda x: c.at(ep2, a * n + i, x) * c.at(kp, x, b * n + j))
                    d = c.ite(i == j, c.at((kx, ky)[a], i) * c.at((kx, ky)[b], i), c.mkc(0, 0))
                    c.eq("operator whose modes are taken (block %d%d)" % (a, b), c.at(A, a * n + i, b * n + j), x - d)
                c.forall([n, n], entry)
        return lam, vec
    c.hook("eig", eig)
    q, phi = c.call(f, om, kx, ky, kp, ep2)
    c.isshape("one q per mode", q, 2 * n)
    c.isshape("mode shapes", phi, 2 * n, 2 * n)
    if c.symbolic:
        c.forall([2 * n], lambda i: c.eq("q^2 is the eigenvalue", c.at(q, i) * c.at(q, i), c.at(lam, i)))
        c.forall([2 * n, 2 * n], lambda i, j: c.eq("mode shapes are the eigenvectors", c.at(phi, i, j), c.at(vec, i, j)))
    else:
        t = c.torch
        K = t.vstack((t.diag(kx), t.diag(ky)))
        A = ep2 @ kp - K @ K.T
        r = A @ phi - phi @ t.diag(q * q)
        c.check("A phi = phi q^2", float(r.abs().max()) < 1e-6 * (1 + float(A.abs().max()) * float(phi.abs().max())))
    c.forall([2 * n], lambda i: c.check("never growing", c.im(c.at(q, i)) >= 0))


def nonzero(c, z):
    return c.or_(c.re(z) != 0, c.im(z) != 0)


@contract(P, budget=200.0)
def flux(c):
    """GetZPoyntingFlux: forward plus backward flux is the power carried by the fields, Re sum conj(E) H with E = A(a - b), H = phi(a + b),
    A = kp phi / (omega q); a wave travelling one way only has exactly its own flux, per order and in total"""
    f = c.fn(RC, "GetZPoyntingFlux")
    t = c.torch_()
    n = c.int("orders", 1, cmax=3)
    om = c.cplx("omega")
    m = 2 * n
    kp, phi, q = c.matrix("kp", m), c.matrix("phi", m), c.tensor("q", [m], kind="c")
    c.assume_all(m, lambda i: nonzero(c, c.at(q, i)))
    c.assume(nonzero(c, om))
    if not c.symbolic:
        c.assume(min(abs(complex(c.at(q, i))) for i in range(m)) > 0.05 and abs(complex(om)) > 0.05)
    c.hook("opaque_mv", True)
    case = c.choice("waves", ["both", "forward only", "backward only"])
    zero = c.array([m], lambda i: 0, kind="c")
    a = c.tensor("a", [m], kind="c") if case != "backward only" else zero
    b = c.tensor("b", [m], kind="c") if case != "forward only" else zero
    c.hook("vec_bases", [x for x in (a, b) if x is not zero])
    fw, bw = c.call(f, a, b, om, kp, phi, q, byorder=1)
    c.isshape("forward flux per order", fw, n)
    c.isshape("backward flux per order", bw, n)
    A = kp @ phi @ t.diag(1.0 / om / q)
    Ea, Eb, Ha, Hb = A @ a, A @ b, phi @ a, phi @ b
    r = lambda x, y: c.re(c.conj(x) * y)

    def order(i):
        tot = 0
        for k in (i, n + i):
            tot = tot + r(c.at(Ea, k) - c.at(Eb, k), c.at(Ha, k) + c.at(Hb, k))
        c.eq("power of the order", c.re(c.at(fw, i)) + c.re(c.at(bw, i)), tot, tol=1e-5)
        if case == "forward only":
            c.eq("forward flux", c.re(c.at(fw, i)), tot, tol=1e-5)
            c.eq("nothing backward", c.re(c.at(bw, i)), 0, tol=1e-5)
        if case == "backward only":
            c.eq("backward flux", c.re(c.at(bw, i)), tot, tol=1e-5)
            c.eq("nothing forward", c.re(c.at(fw, i)), 0, tol=1e-5)
    c.forall([n], order)
    ft, bt = c.call(f, a, b, om, kp, phi, q)
    c.eq("total forward", c.re(c.scalar(ft)), c.sum(n, lambda i: c.re(c.at(fw, i))), tol=1e-5)
    c.eq("total backward", c.re(c.scalar(bt)), c.sum(n, lambda i: c.re(c.at(bw, i))), tol=1e-5)


@contract(P, budget=200.0)
def excitation(c):
    """MakeExcitationPlanewave: amplitudes of a plane wave in one order only, on the side it comes from, nothing from the other side"""
    TR = c.fn(RC, "TRCWA")
    n = c.int("orders", 1, cmax=4)
    order = c.int("order", 0, n - 1, cmax=3)
    th, ph = c.real("theta", lo=0, hi=1.4), c.real("phi", lo=0, hi=6.2)
    pa, sa, pp, sp = c.real("p_amp", lo=-2, hi=2), c.real("s_amp", lo=-2, hi=2), c.real("p_phase", lo=-3, hi=3), c.real("s_phase", lo=-3, hi=3)
    d = c.choice("direction", ["forward", "backward"])
    t = TR(n, [1.0, 0.0], [0.0, 1.0], 1.0, th, ph, verbose=0)
    c.call(t.MakeExcitationPlanewave, pa, pp, sa, sp, order=order, direction=d)
    inc, other = (t.a0, t.bN) if d == "forward" else (t.bN, t.a0)
    c.isshape("incident amplitudes", inc, 2 * n)
    c.isshape("other side", other, 2 * n)
    c.check("direction kept", t.direction == d)
    cis = lambda x: c.mkc(c.cos(x), c.sin(x))
    hx = -(sa * c.cos(th) * c.cos(ph)) * cis(sp) - (pa * c.sin(ph)) * cis(pp)
    hy = -(sa * c.cos(th) * c.sin(ph)) * cis(sp) + (pa * c.cos(ph)) * cis(pp)
    c.forall([2 * n], lambda i: c.eq("nothing from the other side", c.at(other, i), 0))
    c.forall([n], lambda i: c.eq("x component", c.at(inc, i), c.ite(i == order, hx, c.mkc(0, 0)), tol=1e-6))
    c.forall([n], lambda i: c.eq("y component", c.at(inc, n + i), c.ite(i == order, hy, c.mkc(0, 0)), tol=1e-6))


@contract(P, budget=200.0)
def incident_flux(c):
    """the flux of the incident wave, as the solver computes it, times the solver's normalisation is p^2 + s^2: reported R and T are
    fractions of the incident power - for every angle, polarisation, phase and lossless incidence medium"""
    TR = c.fn(RC, "TRCWA")
    flux_ = c.fn(RC, "GetZPoyntingFlux")
    ep, fq = c.real("eps", gt=0, hi=9), c.real("freq", gt=0, hi=4)
    th, ph = c.real("theta", lo=0, hi=1.4), c.real("phi", lo=0, hi=6.2)
    if c.symbolic:
        c.assume(c.cos(th) > 0)
    else:
        c.assume(ep > 0.05 and fq > 0.05)
    pa, sa, pp, sp = c.real("p_amp", lo=-2, hi=2), c.real("s_amp", lo=-2, hi=2), c.real("p_phase", lo=-3, hi=3), c.real("s_phase", lo=-3, hi=3)
    t = TR(1, [1.0, 0.0], [0.0, 1.0], c.mkc(fq, 0) if c.symbolic else complex(fq), th, ph, verbose=0)
    t.Add_LayerUniform(1.0, c.number_as(ep))
    t.Add_LayerUniform(1.0, c.number_as(ep))
    with c.stub(RC, Lattice_getG=lambda k, x, y, method=0: (c.array([1, 2], lambda i, j: 0, kind="i"), 1)):
        c.call(t.Init_Setup)
    t.MakeExcitationPlanewave(pa, pp, sa, sp)
    om = 2 * c.pi * fq
    w = om * c.sqrt(ep) * c.cos(th)
    q = c.at(t.q_list[0], 0)
    if c.symbolic:
        sn, cs = c.sin(th), c.cos(th)
        kx, ky = c.at(t.kx, 0), c.at(t.ky, 0)
        c.lemma("transverse wave number", c.re(kx) * c.re(kx) + c.re(ky) * c.re(ky) == om * om * ep * sn * sn)
        c.lemma("no imaginary part", c.and_(c.im(kx) == 0, c.im(ky) == 0))
        c.lemma("q squared", c.re(q * q) == w * w)
        c.lemma("q squared is real", c.im(q * q) == 0)
        c.lemma("longitudinal wave number", c.and_(c.im(q) == 0, c.re(q) == w))
    else:
        c.eq("longitudinal wave number", q, w, tol=1e-4)
    zero = c.array([2], lambda i: 0, kind="c")
    fw, bw = c.call(flux_, t.a0, zero, t.omega, t.kp_list[0], t.phi_list[0], t.q_list[0])
    nrm = c.scalar(t.normalization)
    c.eq("normalised incident flux", c.re(c.scalar(fw)) * c.re(nrm), pa * pa + sa * sa, tol=1e-4)


@contract(P)
def reported(c):
    """RT_Solve: solves the stack with its own incident and back amplitudes; R is the backward flux in the first medium and T the forward
    flux in the last one, normalised by the incident flux when asked to"""
    TR = c.fn(RC, "TRCWA")
    d = c.choice("direction", ["forward", "backward"])
    nrm, by = c.choice("normalize", [0, 1]), c.choice("byorder", [0, 1])
    t = TR(3, [1.0, 0.0], [0.0, 1.0], 1.0, 0.0, 0.0, verbose=0)
    for nm in ("a0", "bN", "omega"):
        setattr(t, nm, nm)
    media = c.choice("media", [2, 3, 4])
    t.kp_list, t.q_list, t.phi_list, t.thickness_list = (["%s%d" % (x, i) for i in range(media)] for x in ("kp", "q", "phi", "d"))
    t.Layer_N = media
    t.direction = d
    k = c.real("normalization", gt=0)
    t.normalization = c.number_as(k)
    calls = []

    def ext(a0, bN, q_list, phi_list, kp_list, thickness_list):
        c.check("incoming amplitudes", a0 == "a0" and bN == "bN")
        c.check("the whole stack", q_list is t.q_list and phi_list is t.phi_list and kp_list is t.kp_list and thickness_list is t.thickness_list)
        return "aN", "b0"
    F = {"first": (c.cplx("fi"), c.cplx("bi")), "last": (c.cplx("fe"), c.cplx("be"))}

    def fl(ai, bi, omega, kp, phi, q, byorder=0):
        c.check("omega", omega == "omega")
        c.check("per order as asked", byorder == by)
        l = media - 1
        if (ai, bi) == ("a0", "b0"):
            c.check("first medium", (kp, phi, q) == ("kp0", "phi0", "q0"))
            w = "first"
        else:
            c.check("last medium", (ai, bi, kp, phi, q) == ("aN", "bN", "kp%d" % l, "phi%d" % l, "q%d" % l), (ai, bi, kp, phi, q))
            w = "last"
        calls.append(w)
        return tuple(c.number_as(x) for x in F[w])
    with c.stub(RC, SolveExterior=ext, GetZPoyntingFlux=fl):
        R, T = c.call(t.RT_Solve, normalize=nrm, byorder=by)
    r, tr = (-F["first"][1], F["last"][0]) if d == "forward" else (F["last"][0], -F["first"][1])
    s = k if nrm else 1
    c.eq("reflected power", c.scalar(R), c.re(r) * s, tol=1e-6)
    c.eq("transmitted power", c.scalar(T), c.re(tr) * s, tol=1e-6)


def layered(c, media):
    """solver object with a stack of media whose mode data are arbitrary; which layers are patterned is arbitrary"""
    TR = c.fn(RC, "TRCWA")
    t = TR(3, [1.0, 0.0], [0.0, 1.0], 1.0, 0.0, 0.0, verbose=0)
    t.Layer_N = media
    return t


@contract(P)
def amplitudes(c):
    """GetAmplitudes: amplitudes of any layer (outer ones from SolveExterior, inner ones from SolveInterior), moved to the depth asked for"""
    media = c.choice("media", [2, 3, 4])
    l = c.choice("layer", list(range(media)))
    moved = c.choice("at a depth", [False, True])
    t = layered(c, media)
    A, B = ["a%d" % k for k in range(media)], ["b%d" % k for k in range(media)]
    t.a0, t.bN = A[0], B[-1]
    t.kp_list, t.q_list, t.phi_list, t.thickness_list = (["%s%d" % (x, i) for i in range(media)] for x in ("kp", "q", "phi", "d"))

    def whole(a0, bN, q_list, phi_list, kp_list, thickness_list):
        c.check("incoming amplitudes", a0 == A[0] and bN == B[-1])
        c.check("the whole stack", q_list is t.q_list and phi_list is t.phi_list and kp_list is t.kp_list and thickness_list is t.thickness_list)

    def ext(a0, bN, q_list, phi_list, kp_list, thickness_list):
        whole(a0, bN, q_list, phi_list, kp_list, thickness_list)
        return A[-1], B[0]

    def inn(which_layer, a0, bN, q_list, phi_list, kp_list, thickness_list):
        whole(a0, bN, q_list, phi_list, kp_list, thickness_list)
        return A[which_layer], B[which_layer]

    def tra(q, thickness, dz, ai, bi):
        c.check("mode data of the layer", q == "q%d" % l and thickness == "d%d" % l and dz == "z", (q, thickness, dz))
        return "%s at z" % ai, "%s at z" % bi
    with c.stub(RC, SolveExterior=ext, SolveInterior=inn, TranslateAmplitudes=tra):
        got = tuple(c.call(t.GetAmplitudes, l, "z")) if moved else tuple(c.call(t.GetAmplitudes_noTranslate, l))
    c.check("amplitudes of the layer", got == ((A[l] + " at z", B[l] + " at z") if moved else (A[l], B[l])), got)


@contract(P, budget=200.0, trials=20)
def fields(c):
    """Solve_FieldFourier: at every depth asked for, tangential fields H = phi (a + b), E = kp phi (a - b) / (omega q) of the amplitudes there,
    and the z components Maxwell's equations give for them"""
    media = 3
    l = c.choice("layer", list(range(media)))
    many = c.choice("depths", ["one", "list"])
    pat = c.choice("patterned", [False, True])
    t = layered(c, media)
    n = c.int("orders", 1, cmax=3)
    m = 2 * n
    kp, phi, q = c.matrix("kp", m), c.matrix("phi", m), c.tensor("q", [m], kind="c")
    om, d, ep = c.cplx("omega"), c.real("d", lo=0, hi=3), c.cplx("eps")
    c.assume_all(m, lambda i: nonzero(c, c.at(q, i)))
    c.assume(nonzero(c, om))
    c.assume(nonzero(c, ep))
    if not c.symbolic:
        c.assume(min(abs(complex(c.at(q, i))) for i in range(m)) > 0.1 and abs(complex(om)) > 0.1 and abs(complex(ep)) > 0.1)
    kx, ky = c.tensor("kx", [n], kind="c"), c.tensor("ky", [n], kind="c")
    inv = c.tensor("epinv", [n, n], kind="c")
    a, b = c.tensor("a", [m], kind="c"), c.tensor("b", [m], kind="c")
    depth = [c.real("z%d" % k, lo=0, hi=3) for k in range(1 if many == "one" else 2)]
    at = [[c.tensor("%s%d" % (w, k), [m], kind="c") for w in "ab"] for k in range(len(depth))]
    c.hook("opaque_mv", True)
    c.hook("vec_bases", [x for p in at for x in p])
    t.nG, t.omega, t.kx, t.ky = n, c.number_as(om), kx, ky
    put = lambda v: c.fixed([v if k == l else None for k in range(media)])
    t.kp_list, t.q_list, t.phi_list, t.thickness_list = put(kp), put(q), put(phi), put(d)
    t.id_list = c.fixed([c.fixed([1 if pat else 0, k, k, k]) for k in range(media)])
    t.Uniform_ep_list, t.Patterned_epinv_list = put(c.number_as(ep)), put(inv)
    log = []

    def amp(which_layer):
        c.check("amplitudes of the layer", which_layer == l)
        return a, b

    def tra(q_, thickness, dz, ai, bi):
        k = len(log)
        log.append(1)
        c.check("mode data of the layer", q_ is q and ai is a and bi is b)
        c.eq("thickness of the layer", c.scalar(thickness), d)
        c.eq("the depth asked for", c.scalar(dz), depth[k])
        return at[k]
    t.GetAmplitudes_noTranslate = amp
    with c.stub(RC, TranslateAmplitudes=tra):
        out = c.call(t.Solve_FieldFourier, l, depth[0] if many == "one" else c.fixed(depth))
    c.check("fields for every depth", len(out) == len(depth))
    tt = c.torch_()
    for k in range(min(len(out), len(depth))):
        (ex, ey, ez), (hx, hy, hz) = out[k]
        x, y = at[k]
        H = phi @ x + phi @ y
        A = kp @ phi @ tt.diag(1.0 / c.number_as(om) / q)
        E = A @ x - A @ y
        for nm, v in zip(("ex", "ey", "ez", "hx", "hy", "hz"), (ex, ey, ez, hx, hy, hz)):
            c.isshape("%s per order" % nm, v, n)

        def order(i):
            tol = None if c.symbolic else 1e-5 * (1 + float(E.abs().max()) + float(H.abs().max()))
            c.eq("hx", c.at(hx, i), c.at(H, i), tol=tol)
            c.eq("hy", c.at(hy, i), c.at(H, n + i), tol=tol)
            c.eq("ey", c.at(ey, i), -c.at(E, i), tol=tol)
            c.eq("ex", c.at(ex, i), c.at(E, n + i), tol=tol)
            tol = None if c.symbolic else 40 * tol
            c.eq("omega hz = kx ey - ky ex", om * c.at(hz, i), c.at(kx, i) * c.at(ey, i) - c.at(ky, i) * c.at(ex, i), tol=tol)
            D = lambda j: c.at(ky, j) * c.at(hx, j) - c.at(kx, j) * c.at(hy, j)
            if pat:
                c.eq("omega ez = inverse permittivity (ky hx - kx hy)", om * c.at(ez, i), c.sum(n, lambda j: c.at(inv, i, j) * D(j)), tol=tol)
            else:
                c.eq("omega eps ez = ky hx - kx hy", om * ep * c.at(ez, i), D(i), tol=tol)
        c.forall([n], order)


def thin_film(n0, n1, eps, d, f, theta, pol):
    """reference: R and T of a stack of uniform layers by the 2x2 characteristic matrix of each layer (tangential E and H)"""
    import cmath, math
    k0 = 2 * math.pi * f
    kx = k0 * n0 * math.sin(theta)

    def kz(e):
        q = cmath.sqrt(e * k0 * k0 - kx * kx)
        return -q if q.imag < 0 else q
    # admittance H/E of the forward wave
    adm = lambda e: kz(e) / k0 if pol == "s" else e * k0 / kz(e)
    M = [[1, 0], [0, 1]]
    for e, h in zip(eps, d):
        q, y = kz(e), adm(e)
        ph = q * h
        L = [[cmath.cos(ph), -1j * cmath.sin(ph) / y], [-1j * y * cmath.sin(ph), cmath.cos(ph)]]
        M = [[sum(M[i][k] * L[k][j] for k in (0, 1)) for j in (0, 1)] for i in (0, 1)]
    y0, y1 = adm(n0 * n0), adm(n1 * n1)
    B, C = M[0][0] + M[0][1] * y1, M[1][0] + M[1][1] * y1
    r = (y0 * B - C) / (y0 * B + C)
    t = 2 * y0 / (y0 * B + C)
    return abs(r) ** 2, (y1.real / y0.real) * abs(t) ** 2


@contract(P, mode="bounded", trials=60, thorough=20)
def films(c):
    """uniform stacks, unmodified solver: the analytic thin-film R and T at any angle and polarisation, complete when nothing absorbs,
    unchanged by extra Fourier orders, by splitting a layer, by zero-thickness layers; and the same T from behind"""
    TR = c.fn(RC, "TRCWA")
    import math
    t, r = c.torch, c.rng
    n = c.choice("layers", [0, 1, 2, 3, 6])
    lossy = c.choice("lossy", [False, True])
    eps = [complex(r.uniform(1, 12), r.uniform(0, 3) if lossy else 0.0) for _ in range(n)]
    if lossy and n and r.random() < 0.3:
        eps[r.randrange(n)] = complex(-r.uniform(1, 12), r.uniform(0.1, 3))
    d = [r.uniform(0.02, 0.8) for _ in range(n)]
    f = r.uniform(0.3, 2.0)
    theta, phi = r.choice([0.0, r.uniform(0, 1.2)]), r.choice([0.0, r.uniform(0, 6)])
    pol = c.choice("polarisation", ["s", "p"])
    n0, n1 = r.choice([1.0, 1.0, 1.5]), r.choice([1.0, 1.5, 2.0])
    if n1 < n0 and abs(n0 * math.sin(theta) / n1 - 1) < 0.05:
        theta = 0.3
    L = r.uniform(0.15, 0.3)

    def solve(eps, d, ng=1, n0=n0, n1=n1, direction="forward", theta=theta):
        s = TR(ng, [L, 0.0], [0.0, L], f, theta, phi, verbose=0)
        s.Add_LayerUniform(1.0, t.tensor(n0 * n0))
        for e, h in zip(eps, d):
            s.Add_LayerUniform(h, t.tensor(e))
        s.Add_LayerUniform(1.0, t.tensor(n1 * n1))
        s.Init_Setup()
        s.MakeExcitationPlanewave(1 if pol == "p" else 0, 0.0, 1 if pol == "s" else 0, 0.0, direction=direction)
        R, T = s.RT_Solve(normalize=1)
        return float(R), float(T)
    R, T = solve(eps, d)
    r0, t0 = thin_film(n0, n1, eps, d, f, theta, pol)
    c.eq("reflectance of the analytic result", R, r0, tol=2e-4)
    c.eq("transmittance of the analytic result", T, t0, tol=2e-4)
    if not lossy:
        c.eq("nothing absorbs: all power reflected or transmitted", R + T, 1.0, tol=2e-4)
    R2, T2 = solve(eps, d, ng=r.choice([5, 9, 13]))
    c.eq("independent of the number of orders (R)", R2, R, tol=2e-4)
    c.eq("independent of the number of orders (T)", T2, T, tol=2e-4)
    if n:
        k = r.randrange(n)
        R3, T3 = solve(eps[:k] + [eps[k]] + eps[k:], d[:k] + [0.3 * d[k], 0.7 * d[k]] + d[k + 1:])
        c.eq("a split layer is the same layer (R)", R3, R, tol=2e-4)
        c.eq("a split layer is the same layer (T)", T3, T, tol=2e-4)
        R4, T4 = solve(eps[:k] + [complex(5, 1)] + eps[k:], d[:k] + [0.0] + d[k:])
        c.eq("a layer of no thickness does nothing (R)", R4, R, tol=2e-4)
        c.eq("a layer of no thickness does nothing (T)", T4, T, tol=2e-4)
    # from behind, at normal incidence, between equal media
    a = solve(eps, d, n0=1.0, n1=1.0, theta=0.0)
    b = solve(eps, d, n0=1.0, n1=1.0, theta=0.0, direction="backward")
    v = solve(eps[::-1], d[::-1], n0=1.0, n1=1.0, theta=0.0)
    c.eq("same transmittance from behind", b[1], a[1], tol=2e-4)
    c.eq("from behind = the reversed stack", b[0], v[0], tol=2e-4)


@contract(P, mode="bounded", trials=12, thorough=20)
def gratings(c):
    """patterned stacks that do not absorb, unmodified solver: all power is reflected or transmitted, also by the orders; the pattern can be
    shifted or (with the polarisation) turned, and a flipped stack transmits the same"""
    TR = c.fn(RC, "TRCWA")
    t, r = c.torch, c.rng
    n = c.choice("layers", [1, 2])
    nx = c.choice("grid", [5, 6, 8])
    ng = c.choice("orders", [5, 9, 13])
    f, L = r.uniform(0.4, 1.6), r.uniform(0.3, 0.55)
    g = t.Generator().manual_seed(r.randrange(10**6))
    eps = 1.0 + 6 * t.rand((nx, nx, n), generator=g) + 0j
    d = [r.uniform(0.05, 0.4) for _ in range(n)]

    def solve(e, d, pol=(0, 1), byorder=0, nb_=1.0, nt=1.0):
        s = TR(ng, [L, 0.0], [0.0, L], f, 0.0, 0.0, verbose=0)
        s.Add_LayerUniform(1.0, t.tensor(nt))
        for h in d:
            s.Add_LayerGrid(h, nx, nx)
        s.Add_LayerUniform(1.0, t.tensor(nb_))
        s.Init_Setup()
        s.MakeExcitationPlanewave(pol[0], 0.0, pol[1], 0.0)
        s.GridLayer_geteps(e)
        R, T = s.RT_Solve(normalize=1, byorder=byorder)
        return R, T
    R, T = (float(x) for x in solve(eps, d))
    c.eq("all power reflected or transmitted", R + T, 1.0, tol=5e-4)
    Ro, To = solve(eps, d, byorder=1)
    c.eq("orders add up (R)", float(Ro.sum()), R, tol=1e-5)
    c.eq("orders add up (T)", float(To.sum()), T, tol=1e-5)
    sh = (r.randrange(nx), r.randrange(nx))
    R2, T2 = (float(x) for x in solve(t.roll(eps, sh, (0, 1)), d))
    c.eq("a shifted pattern reflects the same", R2, R, tol=5e-4)
    c.eq("a shifted pattern transmits the same", T2, T, tol=5e-4)
    R3, T3 = (float(x) for x in solve(eps.permute(1, 0, 2), d, pol=(1, 0)))
    c.eq("pattern and polarisation turned: reflects the same", R3, R, tol=5e-4)
    c.eq("pattern and polarisation turned: transmits the same", T3, T, tol=5e-4)
    b = r.uniform(1.5, 4)
    R4, T4 = (float(x) for x in solve(eps, d, nb_=b))
    c.eq("all power reflected or transmitted into a substrate", R4 + T4, 1.0, tol=5e-4)
