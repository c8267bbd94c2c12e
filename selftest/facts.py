"""Facts about selftest/nidn/toys.py. Names starting with no_ are false: the verifier must not accept them, and a concrete
run must fail; all others must be accepted and hold concretely."""
from pyvc.contract import contract

M = "nidn.toys"


def fact(fn):
    return contract("ST", trials=60)(fn)


def reals(c, lo=1):
    n = c.int("n", lo, cmax=5)
    return n, c.tensor("x", [n])


@fact
def sum_is_sum(c):
    n, x = reals(c, 0)
    c.eq("sum", c.call(c.fn(M, "total"), x) if c.symbolic or n > 0 else 0, c.sum(n, lambda i: c.at(x, i)))


@fact
def no_sum_shifted(c):
    n, x = reals(c)
    c.eq("sum", c.call(c.fn(M, "total"), x), c.sum(n - 1, lambda i: c.at(x, i)))


@fact
def last_positive_is_member(c):
    n, x = reals(c)
    r = c.call(c.fn(M, "last_positive"), x)
    c.check("positive or default", c.or_(r > 0, r == -1))


@fact
def no_last_positive_is_first(c):
    n, x = reals(c, 2)
    r = c.call(c.fn(M, "last_positive"), x)
    c.check("first", c.implies(c.at(x, 0) > 0, r == c.at(x, 0)))


@fact
def no_first_positive_never_found(c):
    n, x = reals(c)
    c.check("not found", c.call(c.fn(M, "first_positive"), x) < 0)


@fact
def smallest_is_lower_bound(c):
    n, x = reals(c)
    m = c.call(c.fn(M, "smallest"), x)
    c.forall(n, lambda i: c.le("bound", m, c.at(x, i)))


@fact
def no_smallest_is_first(c):
    n, x = reals(c)
    c.eq("first", c.call(c.fn(M, "smallest"), x), c.at(x, 0))


@fact
def flag_exact(c):
    n, x = reals(c)
    c.check("flag", c.iff(c.call(c.fn(M, "any_negative"), x), c.any(n, lambda i: c.at(x, i) < 0)))


@fact
def no_flag_all(c):
    n, x = reals(c, 2)
    c.check("flag", c.iff(c.call(c.fn(M, "any_negative"), x), c.all(n, lambda i: c.at(x, i) < 0)))


@fact
def no_shift_keeps_last(c):
    n, x = reals(c, 2)
    y = c.snapshot(x)
    r = c.call(c.fn(M, "shift_in_place"), x)
    c.eq("last", c.at(r, n - 1), c.at(y, n - 1))


@fact
def shift_moves(c):
    n, x = reals(c, 2)
    y = c.snapshot(x)
    r = c.call(c.fn(M, "shift_in_place"), x)
    c.forall(n - 1, lambda i: c.eq("moved", c.at(r, i + 1), c.at(y, i)))
    c.eq("first kept", c.at(r, 0), c.at(y, 0))


def rows(c):
    n, m = c.int("n", 2, cmax=4), c.int("m", 1, cmax=4)
    t = c.tensor("t", [n, m])
    return n, m, t, c.snapshot(t)


@fact
def view_write_reaches_base(c):
    n, m, t, o = rows(c)
    r = c.call(c.fn(M, "view_write"), t)
    c.forall(m, lambda j: c.eq("row 0", c.at(t, 0, j), c.at(o, 0, j) + 1))
    c.forall([n - 1, m], lambda i, j: c.eq("others", c.at(r, i + 1, j), c.at(o, i + 1, j)))


@fact
def no_view_write_is_local(c):
    n, m, t, o = rows(c)
    c.call(c.fn(M, "view_write"), t)
    c.eq_tensor("unchanged", t, o)


@fact
def copy_write_is_local(c):
    n, m, t, o = rows(c)
    c.call(c.fn(M, "copy_write"), t)
    c.eq_tensor("unchanged", t, o)


@fact
def rebind_is_local(c):
    n, m, t, o = rows(c)
    c.call(c.fn(M, "rebind"), t)
    c.eq_tensor("unchanged", t, o)


@fact
def no_copy_write_reaches(c):
    n, m, t, o = rows(c)
    c.call(c.fn(M, "copy_write"), t)
    c.eq("row 0", c.at(t, 0, 0), c.at(o, 0, 0) + 1)


@fact
def mask_write_caps(c):
    n, x = reals(c)
    lim = c.real("lim")
    o = c.snapshot(x)
    r = c.call(c.fn(M, "mask_write"), x, lim)
    c.forall(n, lambda i: c.eq("min", c.at(r, i), c.ite(c.at(o, i) > lim, lim, c.at(o, i))))


@fact
def no_mask_write_sets_all(c):
    n, x = reals(c)
    lim = c.real("lim")
    r = c.call(c.fn(M, "mask_write"), x, lim)
    c.eq("all", c.at(r, 0), lim)


@fact
def floor_division(c):
    n = c.int("n", -20, 20, cmax=20)
    r = c.call(c.fn(M, "halve_floor"), n)
    c.check("floor", c.and_(2 * r <= n, n < 2 * r + 2))


@fact
def no_floor_division_truncates(c):
    n = c.int("n", -20, 20, cmax=20)
    r = c.call(c.fn(M, "halve_floor"), n)
    c.check("toward zero", c.implies(n < 0, 2 * r >= n))


@fact
def int_truncates(c):
    x = c.real("x", -50, 50)
    r = c.call(c.fn(M, "trunc"), x)
    c.check("toward zero", c.ite(x >= 0, c.and_(r <= x, x < r + 1), c.and_(r >= x, x > r - 1)))


@fact
def no_int_floors(c):
    x = c.real("x", -50, 50)
    r = c.call(c.fn(M, "trunc"), x)
    c.check("floor", c.and_(r <= x, x < r + 1))


@fact
def remainder(c):
    n, k = c.int("n", -9, 9, cmax=9), c.int("k", 1, 5, cmax=5)
    r = c.call(c.fn(M, "rem"), n, k)
    c.check("range", c.and_(r >= 0, r < k))


@fact
def no_remainder_sign(c):
    n, k = c.int("n", -9, 9, cmax=9), c.int("k", 2, 5, cmax=5)
    r = c.call(c.fn(M, "rem"), n, k)
    c.check("sign of n", c.implies(n < 0, r <= 0))


@fact
def ticks_cover(c):
    a, b, n = c.real("a"), c.real("b"), c.int("n", 2, cmax=6)
    t = c.call(c.fn(M, "ticks"), a, b, n)
    c.isshape("n", t, n)
    c.eq("first", c.at(t, 0), a, tol=1e-5)
    c.eq("last", c.at(t, n - 1), b, tol=1e-5)


@fact
def no_ticks_open(c):
    a, b, n = c.real("a"), c.real("b"), c.int("n", 2, cmax=6)
    t = c.call(c.fn(M, "ticks"), a, b, n)
    c.check("last", c.implies(a < b, c.at(t, n - 1) < b - 1e-3 * (b - a)))


@fact
def default_is_shared(c):
    f = c.fn(M, "grow")
    a = c.call(f)
    c.check("grows", c.call(f) == a + 1)


@fact
def no_default_is_fresh(c):
    f = c.fn(M, "grow")
    c.call(f)
    c.check("fresh", c.call(f) == 1)


@fact
def late_binding(c):
    c.check("late", list(c.call(c.fn(M, "late"))) == [2, 2, 2])


@fact
def exceptions(c):
    x = c.real("x")
    c.check("value", c.call(c.fn(M, "swallow"), x) == c.ite(x < 0, 5, 4))


@fact
def no_exceptions_ignored(c):
    x = c.real("x")
    c.check("value", c.call(c.fn(M, "swallow"), x) == 4)


@fact
def cumulative_steps(c):
    n, x = reals(c, 2)
    r = c.call(c.fn(M, "cumulative"), x)
    c.forall(n - 1, lambda i: c.eq("step", c.at(r, i + 1) - c.at(r, i), c.at(x, i + 1), tol=1e-4))


@fact
def no_cumulative_exclusive(c):
    n, x = reals(c, 2)
    r = c.call(c.fn(M, "cumulative"), x)
    c.eq("first", c.at(r, 0), 0)


@fact
def blocks_share(c):
    n, x = reals(c)
    k = c.int("k", 1, cmax=3)
    r = c.call(c.fn(M, "blocks"), x, k)
    c.forall([n, k], lambda i, j: c.eq("block", c.at(r, i * k + j), c.at(x, i)))


@fact
def no_blocks_tile(c):
    n, x = reals(c, 2)
    k = c.int("k", 2, cmax=3)
    r = c.call(c.fn(M, "blocks"), x, k)
    c.forall([n, k], lambda i, j: c.eq("tile", c.at(r, j * n + i), c.at(x, i)))


@fact
def row_major(c):
    n, m, t, o = rows(c)
    r = c.call(c.fn(M, "flatten"), t)
    c.forall([n, m], lambda i, j: c.eq("position", c.at(r, i * m + j), c.at(o, i, j)))


@fact
def no_column_major(c):
    n, m = c.int("n", 2, cmax=4), c.int("m", 2, cmax=4)
    t = c.tensor("t", [n, m])
    r = c.call(c.fn(M, "flatten"), t)
    c.forall([n, m], lambda i, j: c.eq("position", c.at(r, j * n + i), c.at(t, i, j)))


@fact
def nearest_is_nearest(c):
    n, x = reals(c)
    v = c.real("v")
    k = c.call(c.fn(M, "nearest"), x, v)
    c.forall(n, lambda i: c.le("nearest", c.abs(c.at(x, k) - v), c.abs(c.at(x, i) - v), tol=1e-6))


@fact
def no_nearest_from_below(c):
    n, x = reals(c)
    v = c.real("v")
    k = c.call(c.fn(M, "nearest"), x, v)
    c.check("below", c.at(x, k) <= v)


@fact
def modulus(c):
    n = c.int("n", 1, cmax=3)
    z = c.tensor("z", [n], kind="c")
    r = c.call(c.fn(M, "norm2"), z)
    c.forall(n, lambda i: c.eq("re^2+im^2", c.at(r, i), c.at(z, i).real * c.at(z, i).real + c.at(z, i).imag * c.at(z, i).imag, tol=1e-4))


@fact
def no_modulus_linear(c):
    n = c.int("n", 1, cmax=3)
    z = c.tensor("z", [n], kind="c")
    r = c.call(c.fn(M, "norm2"), z)
    c.eq("re", c.at(r, 0), c.at(z, 0).real)


@fact
def root_squares(c):
    x = c.real("x", 0)
    r = c.call(c.fn(M, "root"), x)
    c.eq("square", r * r, x, tol=1e-6)
    c.check("sign", r >= 0)


@fact
def no_root_below(c):
    x = c.real("x", 0)
    c.check("r <= x", c.call(c.fn(M, "root"), x) <= x)


@fact
def nested_sum(c):
    n, m = c.int("n", 0, cmax=4), c.int("m", 0, cmax=4)
    c.check("sum", 2 * c.call(c.fn(M, "nested"), n, m) == m * n * (n - 1))


@fact
def no_nested_sum(c):
    n, m = c.int("n", 0, cmax=4), c.int("m", 0, cmax=4)
    c.check("sum", 2 * c.call(c.fn(M, "nested"), n, m) == m * n * (n + 1))


@fact
def no_break_counts_all(c):
    n, x = reals(c)
    c.check("all", c.call(c.fn(M, "with_break"), x) == n)


@fact
def no_continue_counts_all(c):
    n, x = reals(c)
    c.check("all", c.call(c.fn(M, "with_continue"), x) == n)


@fact
def no_alias_is_copy(c):
    w = c.real("w", 0, 1)
    s = {"w": w}
    c.eq("kept", c.call(c.fn(M, "remember"), s)["w"], w)


@fact
def deepcopy_is_copy(c):
    w = c.real("w", 0, 1)
    s = {"w": w}
    c.eq("kept", c.call(c.fn(M, "remember_copy"), s)["w"], w)


@fact
def average_is_mean(c):
    n, x = reals(c)
    c.eq("mean", c.call(c.fn(M, "average"), x) * n, c.sum(n, lambda i: c.at(x, i)), tol=1e-4)


@fact
def no_average_bound(c):
    n, x = reals(c)
    c.check("bound", c.call(c.fn(M, "average"), x) <= c.at(x, 0))


@fact
def same_buffer(c):
    n, x = reals(c)
    r = c.call(c.fn(M, "two_buffers"), x)
    c.forall(n, lambda i: c.eq("alias", c.at(r, i), c.at(x, i)))


@fact
def swapped(c):
    n, m, t, o = rows(c)
    r = c.call(c.fn(M, "swap_rows"), t)
    c.forall(m, lambda j: c.eq("0", c.at(r, 0, j), c.at(o, 1, j)))
    c.forall(m, lambda j: c.eq("1", c.at(r, 1, j), c.at(o, 0, j)))


@fact
def no_swapped_through_views(c):
    n, m, t, o = rows(c)
    r = c.call(c.fn(M, "swap_rows_alias"), t)
    c.forall(m, lambda j: c.eq("1", c.at(r, 1, j), c.at(o, 0, j)))


@fact
def no_while_overshoots(c):
    n = c.int("n", 0, 4, cmax=4)
    c.check("count", c.call(c.fn(M, "while_count"), n) == n + 1)


@fact
def clamped(c):
    n, x = reals(c)
    a, b = c.real("a", -1, 0), c.real("b", 0, 1)
    r = c.call(c.fn(M, "clamp"), x, a, b)
    c.forall(n, lambda i: c.check("range", c.and_(a - 1e-6 <= c.at(r, i), c.at(r, i) <= b + 1e-6)))


@fact
def no_power_monotone(c):
    x = c.real("x", -3, 3)
    c.check("x^2 >= x", c.call(c.fn(M, "power"), x, 2) >= x)


@fact
def counted(c):
    k = c.int("k", 0, cmax=6)
    c.check("k", c.call(c.fn(M, "hits"), k) == k)


@fact
def no_counted(c):
    k = c.int("k", 0, cmax=6)
    c.check("k", c.call(c.fn(M, "hits"), k) == 1)


@fact
def every_second(c):
    n = c.int("n", 1, cmax=6)
    r = c.call(c.fn(M, "evens"), n)
    c.check("length", 2 * len(r) - n >= 0) if not c.symbolic else c.check("length", c.and_(2 * c.len(r) >= n, 2 * c.len(r) <= n + 1))


@fact
def product_step(c):
    n, x = reals(c)
    c.check("zero factor", c.implies(c.at(x, 0) == 0, c.call(c.fn(M, "product"), x) == 0))


def family(names, check, lo=1, as_list=False):
    """each function of a family of rewritings satisfies (the same) check"""
    for n in names.split():
        def f(c, n=n):
            k, x = reals(c, lo)
            check(c, c.call(c.fn(M, n), x), k, x)
        f.__name__ = n + "_fact"
        f.__doc__ = n
        fact(f)


def no_family(names, check, lo=1):
    for n in names.split():
        def f(c, n=n):
            k, x = reals(c, lo)
            check(c, c.call(c.fn(M, n), x), k, x)
        f.__name__ = "no_" + n
        fact(f)


TOT = "total_enumerate total_generator total_comprehension total_index total_while total_reversed total_down early"
family(TOT, lambda c, r, n, x: c.eq("total", r, c.sum(n, lambda i: c.at(x, i)), tol=1e-6))
no_family(TOT, lambda c, r, n, x: c.eq("total", r, c.sum(n, lambda i: c.at(x, i)) + c.at(x, 0), tol=1e-6))
DBL = "doubled_list doubled_append doubled_extend doubled_map doubled_stack doubled_fill doubled_cat"
family(DBL, lambda c, r, n, x: c.forall(n, lambda i: c.eq("double", c.item(r, i), 2 * c.at(x, i), tol=1e-6)))
no_family(DBL, lambda c, r, n, x: c.forall(n, lambda i: c.eq("double", c.item(r, i), 2 * c.at(x, 0), tol=1e-6)), lo=2)
MIN = "smallest_min smallest_torch"
family(MIN, lambda c, r, n, x: c.forall(n, lambda i: c.le("bound", r, c.at(x, i))))
no_family(MIN, lambda c, r, n, x: c.eq("first", r, c.at(x, 0)), lo=2)
family("smallest_index", lambda c, r, n, x: c.forall(n, lambda i: c.le("bound", c.at(x, r), c.at(x, i))))
ALL = "all_positive_all all_positive_for all_positive_else all_positive_flag all_positive_not_any"
family(ALL, lambda c, r, n, x: c.check("all", c.iff(r, c.all(n, lambda i: c.at(x, i) > 0))))
no_family(ALL, lambda c, r, n, x: c.check("all", c.iff(r, c.any(n, lambda i: c.at(x, i) > 0))), lo=2)
CNT = "count_positive count_positive_loop"
family(CNT, lambda c, r, n, x: c.check("range", c.and_(r >= 0, r <= n)))
no_family(CNT, lambda c, r, n, x: c.check("range", r < n), lo=1)


def both(names, check, shape=None):
    for n in names.split():
        def f(c, n=n):
            k = c.int("n", 1, cmax=4)
            x, y = c.tensor("x", [k]), c.tensor("y", [k])
            check(c, c.call(c.fn(M, n), x, y), k, x, y)
        f.__name__ = n + "_fact"
        fact(f)


both("pair_sum pair_sum_index", lambda c, r, n, x, y: c.forall(n, lambda i: c.eq("sum", c.item(r, i), c.at(x, i) + c.at(y, i))))
both("dot dot_torch dot_einsum", lambda c, r, n, x, y: c.eq("dot", r, c.sum(n, lambda i: c.at(x, i) * c.at(y, i)), tol=1e-6))
both("outer_loop outer_broadcast outer_unsqueeze outer_einsum", lambda c, r, n, x, y: c.forall([n, n], lambda i, j: c.eq("outer", c.at(r, i, j), c.at(x, i) * c.at(y, j))))


def mat(names):
    for n in names.split():
        def f(c, n=n):
            a, b = c.int("a", 1, cmax=3), c.int("b", 1, cmax=3)
            t = c.tensor("t", [a, b])
            c.eq("sum", c.call(c.fn(M, n), t), c.sum(a, lambda i: c.sum(b, lambda j: c.at(t, i, j))), tol=1e-6)
        f.__name__ = n + "_fact"
        fact(f)


mat("matrix_sum matrix_sum_torch matrix_sum_dims")
family("prefix", lambda c, r, n, x: c.forall(n - 1, lambda i: c.eq("step", c.item(r, i + 1) - c.item(r, i), c.at(x, i), tol=1e-6)))
no_family("prefix_alias", lambda c, r, n, x: c.forall(n - 1, lambda i: c.eq("step", c.item(r, i + 1) - c.item(r, i), c.at(x, i), tol=1e-6)), lo=3)
family("reverse_slice", lambda c, r, n, x: c.forall(n, lambda i: c.eq("reversed", c.at(r, i), c.at(x, n - 1 - i))))
family("roll_cat", lambda c, r, n, x: c.forall(n - 1, lambda i: c.eq("rolled", c.at(r, i), c.at(x, i + 1))))
family("diffs diffs_loop", lambda c, r, n, x: c.forall(n - 1, lambda i: c.eq("difference", c.at(r, i), c.at(x, i + 1) - c.at(x, i))), lo=2)
family("maxabs maxabs_torch", lambda c, r, n, x: c.forall(n, lambda i: c.le("bound", c.abs(c.at(x, i)), r)))
family("running_max", lambda c, r, n, x: c.forall(n, lambda i: c.le("bound", c.at(x, i), r)))
family("dict_lookup", lambda c, r, n, x: c.eq("first", r, c.at(x, 0)))
family("last_change", lambda c, r, n, x: c.check("range", c.and_(r >= 0, r < n)))
no_family("last_change", lambda c, r, n, x: c.check("moved", r > 0), lo=1)
no_family("alternate", lambda c, r, n, x: c.eq("total", r, c.sum(n, lambda i: c.at(x, i))), lo=2)


def clip(names):
    for n in names.split():
        def f(c, n=n):
            k, x = reals(c)
            lim = c.real("lim")
            o = c.snapshot(x)
            r = c.call(c.fn(M, n), x, lim)
            c.forall(k, lambda i: c.eq("min", c.at(r, i), c.ite(c.at(o, i) > lim, lim, c.at(o, i)), tol=1e-6))
            c.eq_tensor("input unchanged", x, o)
        f.__name__ = n + "_fact"
        fact(f)


clip("where_clip minimum_clip loop_clip")


def wsum(names):
    for n in names.split():
        def f(c, n=n):
            a, b = c.int("a", 1, cmax=3), c.int("b", 1, cmax=3)
            t, w = c.tensor("t", [a, b]), c.tensor("w", [a])
            r = c.call(c.fn(M, n), t, w)
            c.forall(b, lambda j: c.eq("sum", c.at(r, j), c.sum(a, lambda i: c.at(t, i, j) * c.at(w, i)), tol=1e-6))
        f.__name__ = n + "_fact"
        fact(f)


wsum("weighted weighted_einsum weighted_matmul weighted_loop")
