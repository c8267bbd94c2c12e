"""Discharge of obligations: polynomial normalisation with case splitting, then z3 (and cvc5 on request)."""
import time, subprocess, tempfile, os
from fractions import Fraction as Fr
import z3
from .terms import *
from . import terms as tm

STATS = {"z3_calls": 0, "z3_time": 0.0, "norm_calls": 0, "cvc5_calls": 0, "cvc5_time": 0.0}

_funcs = {}
DOM = {}  # declared domains of input elements: name -> (term -> facts)


def zfunc(name, sorts, out):
    k = (name, tuple(s.name() for s in sorts), out.name())
    f = _funcs.get(k)
    if f is None:
        f = _funcs[k] = z3.Function(name, *sorts, out) if sorts else None
        if not sorts:
            f = _funcs[k] = z3.Const(name, out)
    return f


I, R, BO = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def zsort(s):
    return I if s == "i" else R


_pat = {}


def pattern(x):
    """(id, free variable atoms) of a term up to renaming of its free variables"""
    fvs = sorted(x.fv, key=lambda a: a.aid)
    m = {a: var("!p%d%s" % (i, a.sort), a.sort) for i, a in enumerate(fvs)}
    if isinstance(x, Atom):
        y = subst(of_atom(x), m) if fvs else of_atom(x)
    else:
        y = subst(x, m)
    k = id(y)
    if k not in _pat:
        _pat[k] = (len(_pat), y)
    return _pat[k][0], fvs


MATH = {"sqrt", "exp", "sin", "cos", "log10", "log", "sigmoid", "pow", "csqrt_re", "csqrt_im", "atan2", "tanh"}


class Tr:
    """translation to z3; opaque_mul: products of two or more atoms become uninterpreted"""

    def __init__(self, opaque_mul):
        self.om = opaque_mul
        self.memo = {}
        self.atoms = {}

    def poly(self, p, want=None):
        key = (p, want)
        r = self.memo.get(key)
        if r is not None:
            return r
        if p.is_int and want != "r":
            terms = []
            for m, c in p.t.items():
                terms.append(self.mono(m, c, "i"))
            r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.IntVal(0))
        elif p.is_int:
            q = self.poly(p, "i")
            r = z3.ToReal(q) if not z3.is_int_value(q) else z3.RealVal(q.as_long())
        else:
            terms = []
            for m, c in p.t.items():
                terms.append(self.mono(m, c, "r"))
            r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        self.memo[key] = r
        return r

    def mono(self, m, c, s):
        cv = z3.IntVal(c) if s == "i" else z3.RealVal(str(Fr(c)))
        if not m:
            return cv
        n = sum(e for _, e in m)
        if n > 1 and self.om:
            fs = []
            for a, e in m:
                fs += [self.atom(a, s)] * e
            srt = zsort(s)
            f = zfunc("mul%d%s" % (len(fs), s), [srt] * len(fs), srt)
            prod = f(*fs)
        else:
            fs = []
            for a, e in m:
                fs += [self.atom(a, s)] * e
            prod = fs[0]
            for x in fs[1:]:
                prod = prod * x
        return prod if c == 1 else cv * prod

    def atom(self, a, want):
        key = (a, want)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.atoms[a] = 1
        r = self._atom(a)
        if want == "r" and a.sort == "i":
            r = z3.ToReal(r)
        self.memo[key] = r
        return r

    def _atom(self, a):
        o = a.op
        if o == "var":
            return z3.Const(a.args[0], zsort(a.sort))
        if o == "app":
            args = [self.poly(x) for x in a.args[1:]]
            if not args:
                return z3.Const(a.args[0], zsort(a.sort))
            return zfunc("f_" + a.args[0], [x.sort() for x in args], zsort(a.sort))(*args)
        if o == "ite":
            return z3.If(self.b(a.args[0]), self.poly(a.args[1], a.sort), self.poly(a.args[2], a.sort))
        if o == "inv":
            return zfunc("inv", [R], R)(self.poly(a.args[0], "r"))
        if o == "floor":
            return z3.ToInt(self.poly(a.args[0], "r"))
        if o == "idiv":
            return self.poly(a.args[0]) / self.poly(a.args[1])
        if o == "mod":
            return self.poly(a.args[0]) % self.poly(a.args[1])
        if o in MATH:
            args = [self.poly(x, "r") for x in a.args]
            return zfunc("m_" + o, [R] * len(args), R)(*args)
        # binders and other opaque operators: uninterpreted in their free variables
        pid, fvs = pattern(a)
        srt = zsort(a.sort)
        if not fvs:
            return z3.Const("op_%s_%d" % (o, pid), srt)
        args = [self.atom(v, v.sort) for v in fvs]
        return zfunc("op_%s_%d" % (o, pid), [x.sort() for x in args], srt)(*args)

    def b(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self._b(x)
        return r

    def _b(self, x):
        o = x.op
        if o == "T":
            return z3.BoolVal(True)
        if o == "F":
            return z3.BoolVal(False)
        if o == "not":
            return z3.Not(self.b(x.args[0]))
        if o == "and":
            return z3.And([self.b(y) for y in x.args])
        if o == "or":
            return z3.Or([self.b(y) for y in x.args])
        if o in ("le", "lt", "eq"):
            p = self.poly(x.args[0])
            if o == "le":
                return p <= 0
            if o == "lt":
                return p < 0
            return p == 0
        if o == "bv":
            args = [self.poly(y) if isinstance(y, Poly) else self.b(y) for y in x.args[1:]]
            if not args:
                return z3.Bool(x.args[0])
            return zfunc("b_" + x.args[0], [y.sort() for y in args], BO)(*args)
        if o == "forall":
            self.atoms[x] = 1
            pid, fvs = pattern(x)
            if not fvs:
                return z3.Bool("all_%d" % pid)
            args = [self.atom(v, v.sort) for v in fvs]
            return zfunc("all_%d" % pid, [y.sort() for y in args], BO)(*args)
        raise AssertionError(o)


TRS = {True: Tr(True), False: Tr(False)}


def closed_atoms(xs):
    """closed atoms (no bound variable) and closed forall nodes occurring anywhere in xs"""
    out, seen, st = {}, set(), list(xs)
    while st:
        y = st.pop()
        if id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, Poly):
            for m in y.t:
                for a, _ in m:
                    if a not in out:
                        if _closed(a):
                            out[a] = 1
                        for z in a.args:
                            if isinstance(z, (Poly, B)):
                                st.append(z)
        else:
            if y.op == "forall" and _closed(y):
                out[y] = 1
            for z in y.args:
                if isinstance(z, (Poly, B)):
                    st.append(z)
    return list(out)


def _closed(x):
    return not bnd_free(x)


def int_terms(xs):
    """candidate index terms for instantiation: integer variables and closed integer arguments of applications"""
    out = {}
    seen, st = set(), list(xs)
    while st:
        y = st.pop()
        if id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, Poly):
            for m in y.t:
                for a, _ in m:
                    if id(a) in seen:
                        continue
                    seen.add(id(a))
                    if a.op == "var" and a.sort == "i":
                        if a.args[0][0] in "!kK":
                            out[of_atom(a)] = 1
                    elif a.op == "app":
                        for z in a.args[1:]:
                            if isinstance(z, Poly) and z.is_int and z.const() is None and _closed(z):
                                out[z] = 1
                    elif a.op in ("argmin", "argmax", "first", "nz") and a.sort == "i" and _closed(a):
                        out[of_atom(a)] = 1
                    for z in a.args:
                        if isinstance(z, (Poly, B)):
                            st.append(z)
        else:
            for z in y.args:
                if isinstance(z, (Poly, B)):
                    st.append(z)
    return list(out)


class Prover:
    def __init__(self, timeout=10.0, cvc5=False, log=None):
        self.timeout = timeout
        self.use_cvc5 = cvc5
        self.cache = {}
        self.depth = 0
        self.qdepth = 0
        self.log = log
        self.deadline = None

    # ---------------------------------------------------------------- low level
    def _check(self, fs, om, timeout, want_model=False):
        tr = TRS[om]
        s = z3.Solver()
        s.set("timeout", int(max(0.05, timeout) * 1000))
        for f in fs:
            s.add(tr.b(f))
        t = time.time()
        r = s.check()
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", (s.model() if want_model else None)
        return "unknown", None

    def _cvc5(self, fs, om, timeout):
        tr = Tr(om)
        s = z3.Solver()
        for f in fs:
            s.add(tr.b(f))
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        t = time.time()
        try:
            out = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 5).stdout
        except Exception:
            out = ""
        finally:
            os.unlink(f.name)
        STATS["cvc5_calls"] += 1
        STATS["cvc5_time"] += time.time() - t
        return out.strip().split("\n")[0] if out else "unknown"

    # ---------------------------------------------------------------- lemmas
    def lemmas(self, fs, rounds=2, heavy=True):
        """instances of the axioms of the opaque operators for the atoms occurring in fs"""
        done, out = set(), []
        cur = list(fs)
        for _ in range(rounds):
            new = []
            ats = closed_atoms(cur + out)
            idx = None
            for a in ats:
                if a in done:
                    continue
                done.add(a)
                if isinstance(a, B) or a.op in ("argmin", "argmax", "perm", "nz", "first"):
                    if idx is None:
                        idx = int_terms(cur + out)
                    new += self.binder_axioms(a, idx)
                else:
                    new += self.atom_axioms(a)
            new += self.pair_axioms(ats, done)
            new = [x for x in new if x is not TRUE]
            if not new:
                break
            out += new
        # dedupe
        return list(dict.fromkeys(out))

    def lite_lemmas(self, fs):
        """axioms of the arithmetic operators at the surface of the literals only"""
        out, seen, st = [], set(), list(fs)
        while st:
            y = st.pop()
            if id(y) in seen:
                continue
            seen.add(id(y))
            if isinstance(y, Poly):
                for m in y.t:
                    for a, _ in m:
                        if a in seen or bnd_free(a):
                            continue
                        seen.add(a)
                        if a.op in MATH or a.op in ("inv", "app", "var"):
                            out += self.atom_axioms(a)
                        if a.op in MATH or a.op in ("inv", "floor"):
                            st += [z for z in a.args if isinstance(z, Poly)]
                        if a.op == "ite":
                            st += a.args
            elif y.op != "forall":
                st += [z for z in y.args if isinstance(z, (Poly, B))]
        return [x for x in dict.fromkeys(out) if x is not TRUE]

    def atom_axioms(self, a):
        o = a.op
        x = of_atom(a)
        if o == "inv":
            q = a.args[0]
            nz = bnot(beq(q, ZERO))
            return [bimp(nz, beq(pmul(q, x), ONE)),
                    bimp(bgt(q, ZERO), bgt(x, ZERO)), bimp(blt(q, ZERO), blt(x, ZERO))]
        if o == "sqrt":
            q = a.args[0]
            return [bge(x, ZERO), bimp(bge(q, ZERO), beq(pmul(x, x), q)), bimp(bgt(q, ZERO), bgt(x, ZERO)),
                    bimp(beq(q, ZERO), beq(x, ZERO))]
        if o == "exp":
            q = a.args[0]
            return [bgt(x, ZERO), bimp(beq(q, ZERO), beq(x, ONE)), bimp(blt(q, ZERO), blt(x, ONE)),
                    bimp(bgt(q, ZERO), bgt(x, ONE))]
        if o == "var" and a.args[0] == "#pi":
            return [bgt(x, num(Fr("3.14159265"))), blt(x, num(Fr("3.14159266")))]
        if o == "app" and a.args[0] in DOM:
            return DOM[a.args[0]](x)
        if o == "sigmoid":
            return [bgt(x, ZERO), blt(x, ONE)]
        if o == "tanh":
            return [bgt(x, num(-1)), blt(x, ONE)]
        if o in ("idiv", "mod") and a.args[1].const() is None:
            p, q = a.args
            d, r = of_atom(Atom("idiv", (p, q), "i")), of_atom(Atom("mod", (p, q), "i"))
            return [bimp(bgt(q, ZERO), band(beq(p, padd(pmul(q, d), r)), bge(r, ZERO), blt(r, q))),
                    bimp(band(bgt(q, ZERO), bge(p, ZERO)), bge(d, ZERO))]
        if o in ("sin", "cos"):
            q = a.args[0]
            r = [ble(x, ONE), bge(x, num(-1))]
            if o == "sin":
                r.append(bimp(beq(q, ZERO), beq(x, ZERO)))
                cosx = of_atom(Atom("cos", (q,), "r"))
                r.append(beq(padd(pmul(x, x), pmul(cosx, cosx)), ONE))
            else:
                r.append(bimp(beq(q, ZERO), beq(x, ONE)))
            return r
        if o in ("log10", "log"):
            q = a.args[0]
            r = [bimp(bgt(q, ONE), bgt(x, ZERO)), bimp(band(bgt(q, ZERO), blt(q, ONE)), blt(x, ZERO))]
            if o == "log10":
                r.append(bimp(bgt(q, ZERO), beq(of_atom(Atom("pow", (num(10), x), "r")), q)))
            return r
        if o == "pow":
            q, e = a.args
            r = [bimp(bge(q, ZERO), bge(x, ZERO)), bimp(bgt(q, ZERO), bgt(x, ZERO)),
                 bimp(band(beq(q, ZERO), bgt(e, ZERO)), beq(x, ZERO)),
                 bimp(beq(e, ONE), beq(x, q)), bimp(band(beq(q, ONE)), beq(x, ONE)),
                 bimp(band(beq(e, num(2))), beq(x, pmul(q, q)))]
            return r
        if o == "csqrt_re":
            re, im = a.args
            y = of_atom(Atom("csqrt_im", (re, im), "r"))
            return [bge(x, ZERO), beq(psub(pmul(x, x), pmul(y, y)), re), beq(pscale(pmul(x, y), 2), im)]
        if o == "csqrt_im":
            re, im = a.args
            return self.atom_axioms(Atom("csqrt_re", (re, im), "r"))
        if o == "sum":
            lv, n, body = a.args
            r = [bimp(ble(n, ZERO), beq(x, ZERO))]
            return r
        return []

    def pair_axioms(self, ats, done):
        """monotonicity / injectivity of exp, sqrt, sigmoid, log10 on pairs; exp(log) cancellation"""
        out = []
        by = {}
        for a in ats:
            if isinstance(a, Atom) and a.op in ("exp", "sqrt", "sigmoid", "log10", "log", "tanh"):
                by.setdefault(a.op, []).append(a)
            elif isinstance(a, Atom) and a.op == "pow" and a.args[0].const() is not None and a.args[0].const() > 1:
                by.setdefault(("pow", a.args[0]), []).append(a)
        for op, l in by.items():
            if len(l) > 8:
                continue
            for i in range(len(l)):
                for j in range(len(l)):
                    if i != j and (l[i], l[j]) not in done:
                        done.add((l[i], l[j]))
                        p, q = (l[i].args[1], l[j].args[1]) if isinstance(op, tuple) else (l[i].args[0], l[j].args[0])
                        g = TRUE
                        if op == "sqrt":
                            g = bge(p, ZERO)
                        if op in ("log10", "log"):
                            g = bgt(p, ZERO)
                        out.append(bimp(band(g, blt(p, q)), blt(of_atom(l[i]), of_atom(l[j]))))
        return out

    def binder_axioms(self, a, idx):
        out = []
        if isinstance(a, B):  # forall
            lv, n, body = a.args
            na = n.single_atom()
            last = [psub(n, num(1))] if na is not None and na.op == "var" and na.args[0][0] == "K" else []
            for e in list(idx) + last:
                out.append(bimp(band(a, bge(e, ZERO), blt(e, n)), instantiate(lv, body, e)))
            pid, fvs = pattern(a)
            w = app("!w%d" % pid, [of_atom(v) for v in fvs], "i")
            out.append(bor(a, band(bge(w, ZERO), blt(w, n), bnot(instantiate(lv, body, w)))))
            return out
        x = of_atom(a)
        if a.op in ("argmin", "argmax"):
            lv, n, body = a.args
            out.append(bimp(bgt(n, ZERO), band(bge(x, ZERO), blt(x, n))))
            bx = instantiate(lv, body, x)
            for e in list(idx) + [ZERO]:
                be = instantiate(lv, body, e)
                out.append(bimp(band(bge(e, ZERO), blt(e, n)), ble(bx, be) if a.op == "argmin" else bge(bx, be)))
            return out
        if a.op == "first":
            # first index with body (a bool), or n if none: args (lv, n, boolbody)
            lv, n, body = a.args
            out.append(band(bge(x, ZERO), ble(x, n)))
            out.append(bimp(blt(x, n), instantiate(lv, body, x)))
            for e in idx:
                out.append(bimp(band(bge(e, ZERO), blt(e, x), blt(e, n)), bnot(instantiate(lv, body, e))))
            return out
        return out

    # ---------------------------------------------------------------- entry points
    def feasible(self, pc, extra, timeout=1.0):
        """False only if pc & extra is unsatisfiable"""
        fs = [f for f in list(pc) + [extra] if f is not TRUE]
        if FALSE in fs:
            return False
        key = ("feas", frozenset(fs))
        if key in self.cache:
            return self.cache[key]
        r, _ = self._check(fs, True, timeout)
        if r != "unsat":
            lem = self.lemmas(fs, rounds=1, heavy=False)
            lem = [l for l in lem]
            if lem:
                r, _ = self._check(fs + lem, True, timeout)
            if r == "sat":
                # nonlinear refinement with a small budget
                r2, _ = self._check(fs + lem, False, min(timeout, 0.5))
                if r2 == "unsat":
                    r = "unsat"
        res = r != "unsat"
        self.cache[key] = res
        return res

    def entails(self, pc, g, timeout=1.0):
        return not self.feasible(pc, bnot(g), timeout)

    def presimp(self, pc, goal):
        """goal with the conditions that pc decides replaced by their truth value"""
        lits = set()
        for f in pc:
            if f.op in ("le", "lt", "eq", "bv", "not"):
                lits.add(f)
        end = time.time() + self.timeout / 2
        for _ in range(6):
            if goal.op in ("T", "F"):
                return goal
            todo = []
            for c in conds_of(goal):
                st = [c]
                while st:
                    x = st.pop()
                    if x.op in ("and", "or", "not"):
                        st += x.args
                    elif x.op in ("le", "lt", "eq", "bv") and not bnd_free(x):
                        todo.append(x)
            todo = list(dict.fromkeys(todo))
            todo.sort(key=lambda x: len(conds_of(x)))
            changed = False
            for x in todo[:60]:
                if time.time() > end:
                    return goal
                v = None
                if x in lits or self.entails(pc, x):
                    v = True
                elif bnot(x) in lits or self.entails(pc, bnot(x)):
                    v = False
                if v is not None:
                    g = assign_cond(goal, x, v)
                    if g is not goal:
                        goal = g
                        changed = True
                        if goal.op in ("T", "F"):
                            return goal
            if not changed:
                break
        return goal

    def peel_sums(self, pc, goal):
        """sum over n + d terms -> sum over n terms + the last d, where the goal has both sums and n >= 0 follows from pc"""
        for _ in range(4):
            ss = [a for a in atoms_rec(goal) if a.op == "sum" and not bnd_free(a)]
            for a in ss:
                hit = None
                for b in ss:
                    if b is a or a.args[0] != b.args[0] or a.args[2] is not b.args[2]:
                        continue
                    d = psub(a.args[1], b.args[1]).const()
                    if d is not None and 1 <= d <= 3 and d == int(d) and self.entails(pc, bge(b.args[1], ZERO)):
                        hit = (b, int(d))
                        break
                if hit:
                    b, d = hit
                    v = of_atom(b)
                    for j in range(d):
                        v = padd(v, instantiate(b.args[0], b.args[2], padd(b.args[1], num(j))))
                    from .loops import rewrite
                    goal = rewrite(goal, {}, {a: v})
                    break
            else:
                return goal
        return goal

    def prove(self, pc, goal, timeout=None, lemmas=()):
        """-> (status, detail): proved / refuted (z3 model) / unknown"""
        timeout = timeout or self.timeout
        if goal is TRUE:
            return "proved", "normal form"
        if goal.op not in ("F",):
            try:
                goal = self.peel_sums(pc, goal)
                goal = self.presimp([f for f in pc if f is not TRUE], goal)
            except TooBig:
                pass
            if goal is TRUE:
                return "proved", "normal form"
        pc = [f for f in pc if f is not TRUE]
        if FALSE in pc:
            return "proved", "infeasible path"
        if goal.op == "and":
            how = set()
            for g in goal.args:
                st, d = self.prove(pc, g, timeout, lemmas)
                if st != "proved":
                    return st, d
                how.add(d)
            return "proved", "+".join(sorted(how))
        if goal.op == "forall":
            lv, n, body = goal.args
            k = fresh_tmp()
            return self.prove(pc + [bge(k, ZERO), blt(k, n)], instantiate(lv, body, k), timeout, lemmas)
        if goal.op == "or" and any(g.op == "forall" for g in goal.args):
            # skolemise universally quantified disjuncts
            gs, extra = [], []
            for g in goal.args:
                if g.op == "forall":
                    lv, n, body = g.args
                    k = fresh_tmp()
                    extra += [bge(k, ZERO), blt(k, n)]
                    gs.append(instantiate(lv, body, k))
                else:
                    gs.append(g)
            return self.prove(pc + extra, bor(*gs), timeout, lemmas)
        if goal.op == "or":
            # assume the negation of all but the last complicated disjunct
            gs = list(goal.args)
            eqs = [g for g in gs if g.op == "eq" and not g.args[0].is_int]
            if len(eqs) == 1:
                rest = [bnot(g) for g in gs if g is not eqs[0]]
                return self.prove(pc + rest, eqs[0], timeout, lemmas)
        t0 = time.time()
        if goal.op == "eq":
            STATS["norm_calls"] += 1
            try:
                if self.split_eq(list(pc), goal.args[0], time.time() + timeout):
                    return "proved", "normal form + case split"
            except TooBig:
                pass
        # solver
        fs = list(pc) + list(lemmas) + [bnot(goal)]
        lite = self.lite_lemmas(fs)
        for om in (True, False):
            if self._check(fs + lite, om, min(1.0, timeout))[0] == "unsat":
                return "proved", "z3" if om else "z3-nl"
        lem0 = self.lemmas(fs)
        gl = self.sum_lemmas(fs, timeout / 2, True)
        if gl:
            lem = lem0 + gl
            lem = lem + self.lemmas(lem)
            for om in (True, False):
                r, m = self._check(fs + lem, om, timeout)
                if r == "unsat":
                    return "proved", "z3" if om else "z3-nl"
        sl = self.sum_lemmas(fs, timeout / 2, extra=lem0)
        lem = lem0 + gl + sl
        if sl:
            lem = list(dict.fromkeys(lem + self.lemmas(sl, rounds=1)))
        r, m = self._check(fs + lem, True, timeout)
        if r == "unsat":
            return "proved", "z3"
        r2, m2 = self._check(fs + lem, False, timeout, True)
        if r2 == "unsat":
            return "proved", "z3-nl"
        if self.use_cvc5 or r2 != "sat":
            rc = self._cvc5(fs + lem, False, timeout)
            if rc == "unsat":
                return "proved", "cvc5"
        if r2 == "sat":
            return "refuted", m2
        return "unknown", "solver gave up (%s/%s)" % (r, r2)

    # ---------------------------------------------------------------- equality by normalisation
    def solve_eqs(self, pc, xs):
        """substitute variables that pc equates with other terms"""
        for f in pc:
            if f.op != "eq":
                continue
            d = f.args[0]
            for m, c in d.t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and abs(c) == 1:
                    a = m[0][0]
                    rest = Poly({mm: cc for mm, cc in d.t.items() if mm != m})
                    if a in rest.fv:
                        continue
                    if a.sort == "i" and not rest.is_int:
                        continue
                    e = pscale(rest, -1 if c == 1 else 1)
                    xs = [subst(x, {a: e}) for x in xs]
                    pc = [subst(x, {a: e}) for x in pc if x is not f]
                    return self.solve_eqs([x for x in pc if x is not TRUE], xs)
        return pc, xs

    def split_eq(self, pc, p, deadline, depth=0):
        if not p.t:
            return True
        if time.time() > deadline:
            return False
        pc, (p,) = self.solve_eqs(pc, [p])
        if not p.t or FALSE in pc:
            return True
        cs = conds_of(p)
        if cs:
            # prefer conditions without nested conditions
            cs.sort(key=lambda c: (len(conds_of(c)), c.bid))
            c = cs[0]
            if c.op in ("and", "or"):
                inner = [x for x in c.args if not bnd_free(x)]
                if inner:
                    c = inner[0]
                    if c.op == "not":
                        c = c.args[0]
            t = self.feasible(pc, c)
            f = self.feasible(pc, bnot(c))
            if depth > 40:
                return False
            ok = True
            if t:
                ok = self.split_eq(pc + [c], assign_cond(p, c, True), deadline, depth + 1)
            if ok and f:
                ok = self.split_eq(pc + [bnot(c)], assign_norm(p, c), deadline, depth + 1)
            return ok
        q = self.simplify_leaf(pc, p)
        if not q.t:
            return True
        # sums that agree pointwise
        q = self.unify_sums(pc, q, deadline)
        if not q.t:
            return True
        fs = list(pc) + [bnot(beq(q, ZERO))]
        lem = self.lemmas(fs)
        budget = max(0.2, min(3.0, deadline - time.time()))
        r, _ = self._check(fs + lem, True, budget)
        if r == "unsat":
            return True
        if not self.feasible(pc, TRUE):
            return True
        r, _ = self._check(fs + lem, False, budget)
        return r == "unsat"

    def simplify_leaf(self, pc, p):
        """clear denominators known to be non-zero; sqrt(x)^2 = x for x >= 0; sin^2 = 1 - cos^2"""
        for _ in range(12):
            changed = False
            p = merge_pows(p)
            p = peel_sums(p, lambda g: self.entails(pc, g))
            for a in sorted(p.atoms(), key=lambda a: -a.aid):
                if a.op == "inv":
                    q = a.args[0]
                    k = max(dict(m).get(a, 0) for m in p.t)
                    inner = [b for b in q.atoms() if b.op == "inv" and self.entails(pc, bnot(beq(b.args[0], ZERO)))]
                    if inner:
                        # inv(q) with denominators inside: inv(q) = r^j inv(q r^j), r != 0
                        b = inner[0]
                        j = max(dict(m).get(b, 0) for m in q.t)
                        q2 = clear(q, b, j)
                        p = replace_atom(p, a, pmul(ppow(b.args[0], j), pinv(q2)))
                        changed = True
                        break
                    if not self.entails(pc, bnot(beq(q, ZERO))):
                        continue
                    r = ZERO
                    for m, c in p.t.items():
                        d = dict(m)
                        e = d.pop(a, 0)
                        base = Poly({tuple(sorted(d.items(), key=lambda x: x[0].aid)): c})
                        r = padd(r, pmul(base, ppow(q, k - e)))
                    p = r
                    changed = True
                    break
                if a.op in ("sqrt", "sin", "csqrt_re") and any(dict(m).get(a, 0) >= 2 for m in p.t):
                    if a.op == "sqrt":
                        q = a.args[0]
                        if not self.entails(pc, bge(q, ZERO)):
                            continue
                        rep = q
                    elif a.op == "sin":
                        c_ = of_atom(Atom("cos", a.args, "r"))
                        rep = psub(ONE, pmul(c_, c_))
                    else:
                        y = of_atom(Atom("csqrt_im", a.args, "r"))
                        rep = padd(a.args[0], pmul(y, y))
                    r = ZERO
                    for m, c in p.t.items():
                        d = dict(m)
                        e = d.pop(a, 0)
                        base = Poly({tuple(sorted(d.items(), key=lambda x: x[0].aid)): c})
                        base = pmul(base, ppow(rep, e // 2))
                        if e % 2:
                            base = pmul(base, of_atom(a))
                        r = padd(r, base)
                    p = r
                    changed = True
                    break
                if a.op == "csqrt_re":
                    y = Atom("csqrt_im", a.args, "r")
                    if any(dict(m).get(a, 0) and dict(m).get(y, 0) for m in p.t):
                        r = ZERO
                        for m, c in p.t.items():
                            d = dict(m)
                            if d.get(a, 0) and d.get(y, 0):
                                k = min(d[a], d[y])
                                d[a] -= k
                                d[y] -= k
                                base = Poly({tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda x: x[0].aid)): c})
                                base = pmul(base, ppow(pscale(a.args[1], Fr(1, 2)), k))
                            else:
                                base = Poly({m: c})
                            r = padd(r, base)
                        p = r
                        changed = True
                        break
            if not changed or not p.t:
                break
        return p

    def unify_sums(self, pc, p, deadline):
        """replace sums by a representative when ranges coincide and bodies are equal under the path condition"""
        sums = [a for a in p.atoms() if a.op == "sum"]
        reps = []
        m = {}
        for a in sums:
            if self.sum_zero(pc, a, deadline):
                m[a] = None
                continue
            n = a.args[1]
            if self.depth < 2 and n.single_atom() is not None and n.const() is None and time.time() < deadline and self.entails(pc, ble(n, num(2))):
                for v in (1, 2):  # few terms
                    if self.entails(pc, beq(n, num(v))):
                        m[a] = ZERO
                        for j in range(v):
                            m[a] = padd(m[a], instantiate(a.args[0], a.args[2], num(j)))
                if a in m:
                    continue
            for b in reps:
                if self.sums_equal(pc, a, b, deadline):
                    m[a] = of_atom(b)
                    break
                sh = self.sums_shifted(pc, a, b, deadline)
                if sh is not None:
                    m[a] = padd(of_atom(b), sh)
                    break
            else:
                reps.append(a)
        if not m:
            return p
        r = ZERO
        for mono, c in p.t.items():
            q = num(c)
            for a, e in mono:
                b = m.get(a, of_atom(a)) if a in m else of_atom(a)
                q = pmul(q, ppow(b, e)) if b is not None else ZERO
            r = padd(r, q)
        return r

    def sum_zero(self, pc, a, deadline):
        """every term of the sum is zero under pc"""
        if self.depth > 3 or time.time() > deadline:
            return False
        key = ("sum0", frozenset(pc), a)
        if key not in self.cache:
            lv, n, body = a.args
            self.depth += 1
            try:
                k = fresh_tmp()
                self.cache[key] = self.split_eq(list(pc) + [bge(k, ZERO), blt(k, n)], instantiate(lv, body, k), min(deadline, time.time() + 2))
            finally:
                self.depth -= 1
        return self.cache[key]

    def sums_equal(self, pc, a, b, deadline):
        if self.depth > 3 or time.time() > deadline:
            return False
        key = ("sumeq", frozenset(pc), a, b)
        if key in self.cache:
            return self.cache[key]
        la, na, ba = a.args
        lb, nb, bb = b.args
        self.depth += 1
        try:
            ok = False
            if na is nb or self.entails(pc, beq(na, nb)):
                k = fresh_tmp()
                d = psub(instantiate(la, ba, k), instantiate(lb, bb, k))
                rng = [bge(k, ZERO), blt(k, na)]
                ok = self.split_eq(list(pc) + rng, d, deadline)
                if not ok and time.time() < deadline:  # the other way round
                    r = psub(psub(na, num(1)), k)
                    d = psub(instantiate(la, ba, k), instantiate(lb, bb, r))
                    ok = self.split_eq(list(pc) + rng + [bge(r, ZERO), blt(r, na)], d, deadline)
            if not ok and time.time() < deadline:  # double sums in the other order
                ia, ib = ba.single_atom(), bb.single_atom()
                if ia is not None and ib is not None and ia.op == "sum" and ib.op == "sum":
                    k, j = fresh_tmp(), fresh_tmp()
                    ia, ib = instantiate(la, ba, k).single_atom(), instantiate(lb, bb, j).single_atom()
                    if ia is not None and ib is not None and ia.op == "sum" and ib.op == "sum":
                        ma, mb = ia.args[1], ib.args[1]
                        if k.single_atom() not in ma.fv and j.single_atom() not in mb.fv and self.entails(pc, beq(na, mb)) and self.entails(pc, beq(nb, ma)):
                            d = psub(instantiate(ia.args[0], ia.args[2], j), instantiate(ib.args[0], ib.args[2], k))
                            ok = self.split_eq(list(pc) + [bge(k, ZERO), blt(k, na), bge(j, ZERO), blt(j, nb)], d, deadline)
        finally:
            self.depth -= 1
        self.cache[key] = ok
        return ok

    def sums_shifted(self, pc, a, b, deadline):
        """a - b for sums of the same terms, one of which starts (up to two terms) later"""
        la, na, ba = a.args
        lb, nb, bb = b.args
        d = psub(na, nb).const()
        if d is None or not 1 <= abs(d) <= 2 or self.depth > 3 or time.time() > deadline:
            return None
        d = int(d)
        if d < 0:
            r = self.sums_shifted(pc, b, a, deadline)
            return None if r is None else pscale(r, -1)
        if not self.entails(pc, bge(nb, ZERO)):
            return None
        self.depth += 1
        try:
            k = fresh_tmp()
            x = psub(instantiate(la, ba, padd(k, num(d))), instantiate(lb, bb, k))
            if not self.split_eq(list(pc) + [bge(k, ZERO), blt(k, nb)], x, min(deadline, time.time() + 2)):
                return None
        finally:
            self.depth -= 1
        r = ZERO
        for j in range(d):
            r = padd(r, instantiate(la, ba, num(j)))
        return r

    def sum_lemmas(self, fs, budget, only_groups=False, extra=()):
        """sound facts about the sums in fs, each established by a sub-proof: sign, monotonicity, equality"""
        if self.depth > 2:
            return []
        sums = [a for a in closed_atoms(fs[-1:]) + closed_atoms(fs[:-1]) + closed_atoms(list(extra)) if isinstance(a, Atom) and a.op == "sum"]
        sums = list(dict.fromkeys(sums))
        out = []
        end = time.time() + budget
        self.depth += 1
        try:
            base = list(fs)
            idx = int_terms(fs) if sums else []
            for n, x, body in self.sum_groups(fs):
                if time.time() > end:
                    break
                k = fresh_tmp()
                if self.split_eq(fs[:-1] + [bge(k, ZERO), blt(k, n)], body(k), min(end, time.time() + 3)):
                    out.append(beq(x, ZERO))
                    continue
                if self.prove_quick(base + [bge(k, ZERO), blt(k, n)], bge(body(k), ZERO))[0]:
                    out.append(bge(x, ZERO))
                    for e in list(dict.fromkeys([ZERO] + idx))[:8]:
                        out.append(bimp(band(bge(e, ZERO), blt(e, n)), ble(body(e), x)))
            if out and only_groups:
                return out
            for a in sums[:12]:
                lv, n, body = a.args
                k = fresh_tmp()
                bk = instantiate(lv, body, k)
                rng = [bge(k, ZERO), blt(k, n)]
                for g, c in ((bge(bk, ZERO), bge(of_atom(a), ZERO)), (ble(bk, ZERO), ble(of_atom(a), ZERO))):
                    if time.time() > end:
                        break
                    st, _ = self.prove_quick(base + rng, g)
                    if st:
                        out.append(c)
                        # every term is bounded by the sum of terms of one sign
                        pos = c is bge(of_atom(a), ZERO)
                        for e in list(dict.fromkeys([ZERO] + idx))[:8]:
                            be = instantiate(lv, body, e)
                            rg = band(bge(e, ZERO), blt(e, n))
                            out.append(bimp(rg, ble(be, of_atom(a)) if pos else bge(be, of_atom(a))))
                        break
                if a.sort == "i" and time.time() < end and self.prove_quick(base + rng, ble(bk, num(1)))[0]:
                    out.append(bor(blt(n, ZERO), ble(of_atom(a), n)))
            for i in range(min(len(sums), 8)):
                for j in range(i):
                    if time.time() > end:
                        break
                    a, b = sums[i], sums[j]
                    if a.args[1] is not b.args[1]:
                        continue
                    if self.sums_equal(base, a, b, end):
                        out.append(beq(of_atom(a), of_atom(b)))
                        continue
                    k = fresh_tmp()
                    rng = [bge(k, ZERO), blt(k, a.args[1])]
                    x, y = instantiate(a.args[0], a.args[2], k), instantiate(b.args[0], b.args[2], k)
                    if self.prove_quick(base + rng, ble(x, y))[0]:
                        out.append(ble(of_atom(a), of_atom(b)))
                    elif self.prove_quick(base + rng, ble(y, x))[0]:
                        out.append(ble(of_atom(b), of_atom(a)))
        finally:
            self.depth -= 1
        return out

    def sum_groups(self, fs):
        """linear combinations of sums over the same range in the literals of fs: (range, combination, combined body)"""
        res, seen = [], set()
        st = list(fs)
        lits = []
        while st:
            f = st.pop()
            if f.op in ("not", "and", "or"):
                st += f.args
            elif f.op in ("le", "lt", "eq"):
                lits.append(f.args[0])
        for p in lits:
            g = {}
            for m, c in p.t.items():
                ss = [a for a, e in m if a.op == "sum" and e == 1]
                if len(ss) == 1 and _closed(ss[0]) and not any(a.op == "sum" and a is not ss[0] for a, _ in m):
                    co = tuple(x for x in m if x[0] is not ss[0])
                    g.setdefault((ss[0].args[1], co), []).append((c, ss[0]))
            byn = {}
            for (n, co), l in g.items():
                byn.setdefault(n, []).append((co, l))
            cand = [(n, [(c, (), a) for c, a in l]) for (n, co), l in g.items()]
            for n, ls in byn.items():
                if len(ls) > 1:
                    cand.append((n, [(c, co, a) for co, l in ls for c, a in l]))
            for n, l in cand:
                if len(l) < 2:
                    continue
                for sg in (1, -1):
                    x = ZERO
                    for c, co, a in l:
                        x = padd(x, pmul(Poly({co: c * sg}), of_atom(a)))
                    if x in seen:
                        continue
                    seen.add(x)

                    def body(k, l=l, sg=sg):
                        r = ZERO
                        for c, co, a in l:
                            r = padd(r, pmul(Poly({co: c * sg}), instantiate(a.args[0], a.args[2], k)))
                        return r
                    res.append((n, x, body))
        return res

    def sum_signs(self, fs):
        out = []
        self.qdepth += 1
        try:
            for a in closed_atoms(fs):
                if isinstance(a, Atom) and a.op == "sum":
                    lv, n, body = a.args
                    k = fresh_tmp()
                    bk = instantiate(lv, body, k)
                    rng = [bge(k, ZERO), blt(k, n)]
                    if self.prove_quick(fs + rng, bge(bk, ZERO))[0]:
                        out.append(bge(of_atom(a), ZERO))
        finally:
            self.qdepth -= 1
        return out

    def prove_quick(self, pc, g):
        if g is TRUE:
            return True, ""
        fs = list(pc) + [bnot(g)]
        key = ("quick", frozenset(fs))
        if key not in self.cache:
            lem = self.lemmas(fs, rounds=1)
            if self.qdepth < 4:
                lem = lem + self.sum_signs(fs)
            r, _ = self._check(fs + lem, True, 1.0)
            if r != "unsat":
                r, _ = self._check(fs + lem, False, 1.0)
            self.cache[key] = (r == "unsat")
        return self.cache[key], ""


def clear(p, b, j):
    """p * r^j for b = inv(r), r != 0"""
    r = ZERO
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(b, 0)
        r = padd(r, pmul(Poly({tuple(sorted(d.items(), key=lambda x: x[0].aid)): c}), ppow(b.args[0], j - e)))
    return r


def replace_atom(p, a, v):
    r = ZERO
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(a, 0)
        r = padd(r, pmul(Poly({tuple(sorted(d.items(), key=lambda x: x[0].aid)): c}), ppow(v, e)))
    return r


def merge_pows(p):
    """b^x b^y -> b^(x+y) (constant b > 0) and exp(x) exp(y) -> exp(x+y), per monomial"""
    if not any(sum(e for a, e in m if a.op == "exp" or (a.op == "pow" and (a.args[0].const() or 0) > 0)) > 1 for m in p.t):
        return p
    r = ZERO
    for m, c in p.t.items():
        ex, rest = {}, []
        for a, e in m:
            if a.op == "exp":
                ex.setdefault(None, []).append((a.args[0], e))
            elif a.op == "pow" and (a.args[0].const() or 0) > 0:
                ex.setdefault(a.args[0], []).append((a.args[1], e))
            else:
                rest.append((a, e))
        q = Poly({tuple(rest): c})
        for b, l in ex.items():
            s = ZERO
            for x, e in l:
                s = padd(s, pscale(x, e))
            q = pmul(q, of_atom(Atom("exp", (s,), "r")) if b is None else of_atom(Atom("pow", (b, s), "r"))) if s.t else q
        r = padd(r, q)
    return r


def assign_norm(p, c):
    return assign_cond(p, c, False)
