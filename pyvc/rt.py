"""Runtime called by the transformed code."""
import builtins as nb
import operator
from .sym import *
from . import sym
from .builtins_ import *
from .builtins_ import SList, View, UNBOUND
from .tensor import T, MS
from . import loops
from dotmap import DotMap
from .sym import Q


class _PV:
    UNBOUND = UNBOUND

    @staticmethod
    def Q(s):
        if s in ("inf", "nan"):
            return S("r", special(float(s)))
        return Q(s)

    @staticmethod
    def QJ(s):
        return S("c", (ZERO, num(Fr(s))))

    @staticmethod
    def fmt(x):
        return x if isinstance(x, (str, int)) else "<v>"

    @staticmethod
    def enter(q):
        e = E()
        if e is not None:
            e.functions[q] = e.functions.get(q, 0) + 1

    # ---------------------------------------------------------------- arithmetic
    @staticmethod
    def div(a, b):
        if type(a) is int and type(b) is int:
            if b == 0:
                raise ZeroDivisionError("division by zero")
            return S("r", num(Fr(a, b)))
        return a / b

    @staticmethod
    def pow(a, b):
        if type(a) is int and type(b) is int:
            if b >= 0:
                return a ** b
            return S("r", num(Fr(a) ** b))
        if not isinstance(a, (S, T, MS)) and not isinstance(b, (S, T, MS)) and is_num(a) and is_num(b):
            return s_pow(lift(a), lift(b))
        return a ** b

    @staticmethod
    def iop(op, a, b):
        if op == "div":
            if isinstance(a, T):
                return operator.itruediv(a, b)
            return _PV.div(a, b)
        if op == "pow":
            if isinstance(a, T):
                return operator.ipow(a, b)
            return _PV.pow(a, b)
        if isinstance(a, T) or isinstance(a, nb.list):
            if op == "add" and isinstance(a, nb.list) and not isinstance(a, SList):
                a.extend(b)
                return a
            f = {"add": operator.iadd, "sub": operator.isub, "mul": operator.imul, "and_": operator.iand, "or_": operator.ior}.get(op)
            if f:
                return f(a, b)
        return getattr(operator, op)(a, b)

    @staticmethod
    def contains(c, x):
        if isinstance(c, SList):
            return c.__contains__(x)
        if isinstance(c, (nb.list, nb.tuple)):
            return nb.any(y is x or truth(y == x) for y in c)
        if isinstance(c, View):
            if getattr(c, "is_range", False):
                raise Unsupported("membership in a symbolic range")
        if isinstance(x, S) and x.const() is not None and isinstance(c, (dict, set, nb.range)):
            x = int(x.const()) if x.kind in "ib" else x
        return x in c

    # ---------------------------------------------------------------- structures
    @staticmethod
    def L(x):
        return SList(x)

    @staticmethod
    def flat(p, x):
        if p is None:
            return [x]
        out = []
        xs = nb.list(x)
        if len(xs) != len(p):
            raise ValueError("unpack mismatch")
        for q, y in nb.zip(p, xs):
            out += _PV.flat(q, y)
        return out

    @staticmethod
    def comp(f, it, ifs, nested):
        if is_symseq(it) and isinstance(b_len(it), S):
            if nested:
                raise Unsupported("nested comprehension over a symbolic sequence")
            n = dimP(b_len(it))
            v = View(n, lambda p: f(seq_item(it, p)))
            v.comp = (f, it, ifs)
            if ifs:
                v.sym_item_ok = False
                v.item = lambda p: filtered()
            return v

        def gen():
            for x in it:
                if nb.all(truth(c(x)) for c in ifs):
                    if nested:
                        yield from f(x)
                    else:
                        yield f(x)
        return gen()

    @staticmethod
    def listof(v):
        if isinstance(v, View):
            f, it, ifs = v.comp
            out = SList()

            def body(x):
                if nb.all(truth(c(x)) for c in ifs):
                    out.append(f(x))
                return None
            loops.for_(it, body, (), None, "comprehension")
            return out
        return SList(v)

    @staticmethod
    def it(x):
        return x

    @staticmethod
    def unpack(n, v):
        if is_symseq(v) and isinstance(b_len(v), S):
            if not E().decide(beq(dimP(b_len(v)), num(n))):
                raise ValueError("not enough / too many values to unpack (expected %d)" % n)
            return [seq_item(v, num(i)) for i in nb.range(n)]
        return v

    # ---------------------------------------------------------------- stores
    @staticmethod
    def setattr(o, a, v):
        e = E()
        if isinstance(o, DotMap):
            return _PV.setitem(o, a, v)
        d = getattr(type(o), a, None)
        if isinstance(o, (T, S)) or (d is not None and hasattr(type(d), "__set__")):
            nb.setattr(o, a, v)
            return
        if e is None:
            nb.setattr(o, a, v)
            return
        dd = getattr(o, "__dict__", None)
        old = o.__class__ if a == "__class__" else dd.get(a, UNBOUND) if dd is not None else nb.getattr(o, a, UNBOUND)

        def undo():
            if old is UNBOUND:
                try:
                    nb.delattr(o, a)
                except AttributeError:
                    pass
            else:
                nb.setattr(o, a, old)
        nb.setattr(o, a, v)
        e.log(undo)
        e.touched((("attr", id(o), a), o))

    @staticmethod
    def setitem(o, k, v):
        e = E()
        if isinstance(k, S) and k.const() is not None and not isinstance(o, T) and k.kind in "ib":
            k = int(k.const())
        if isinstance(o, (T, SList)):
            o[k] = v
            return
        if isinstance(o, dict) or isinstance(o, DotMap):
            if isinstance(k, S) and k.const() is None:
                raise Unsupported("symbolic dictionary key")
            had = k in o
            old = o[k] if had else None

            def undo():
                if had:
                    o[k] = old
                elif k in o:
                    del o[k]
            o[k] = v
            if e is not None:
                e.log(undo)
                e.touched((("item", id(o), k), o))
            return
        o[k] = v

    @staticmethod
    def aug_attr(o, a, op, v):
        x = nb.getattr(o, a)
        _PV.setattr(o, a, _PV.iop(op, x, v))

    @staticmethod
    def aug_item(o, k, op, v):
        if isinstance(o, T):
            x = o[k]
            if isinstance(x, T):
                r = _PV.iop(op, x, v)
                if r is x:
                    # basic indexing: x is a view already updated in place; advanced: write back
                    o[k] = r.copy() if x.sto is not o.sto else r
                else:
                    o[k] = r
                return
            if isinstance(x, MS):
                o[k] = getattr(operator, {"div": "truediv"}.get(op, op))(x, v)
                return
            o[k] = _PV.iop(op, x, v)
            return
        _PV.setitem(o, k, _PV.iop(op, o[k], v))

    @staticmethod
    def delattr(o, a):
        e = E()
        old = nb.getattr(o, a)
        nb.delattr(o, a)
        if e is not None:
            e.log(lambda: nb.setattr(o, a, old))
            e.touched((("attr", id(o), a), o))

    @staticmethod
    def delitem(o, k):
        e = E()
        if isinstance(o, SList):
            del o[k]
            return
        old = o[k]
        del o[k]
        if e is not None:
            e.log(lambda: o.__setitem__(k, old))
            e.touched((("item", id(o), k), o))

    # ---------------------------------------------------------------- loops
    @staticmethod
    def for_(it, body, vs, setter, where):
        return loops.for_(it, body, vs, setter, where)

    @staticmethod
    def while_(cond, body, vs, setter, where):
        return loops.while_(cond, body, vs, setter, where)


def filtered():
    raise Unsupported("filtered symbolic sequence")


PV = _PV
