"""small functions in the style of the repository; selftest/facts.py states true and false facts about them"""
import torch
import numpy as np
from copy import deepcopy


def total(xs):
    s = 0
    for x in xs:
        s += x
    return s


def last_positive(xs):
    r = -1.0
    for x in xs:
        if x > 0:
            r = x
    return r


def first_positive(xs):
    for i in range(len(xs)):
        if xs[i] > 0:
            return i
    return -1


def smallest(xs):
    m = np.inf
    for x in xs:
        if x < m:
            m = x
    return m


def any_negative(xs):
    bad = False
    for x in xs:
        if x < 0:
            bad = True
    return bad


def evens(n):
    r = []
    for i in range(0, n, 2):
        r.append(i)
    return r


def shift_in_place(t):
    t[1:] = t[:-1].clone()
    return t


def view_write(t):
    v = t[0]
    v += 1.0
    return t


def copy_write(t):
    v = t[0].clone()
    v += 1.0
    return t


def rebind(t):
    v = t[0]
    v = v + 1.0
    return t


def mask_write(t, lim):
    t[t > lim] = lim
    return t


def halve_floor(n):
    return n // 2


def trunc(x):
    return int(x)


def rem(n, k):
    return n % k


def ticks(a, b, n):
    return torch.linspace(a, b, n)


def grow(acc=[], v=1):
    acc.append(v)
    return len(acc)


def late():
    fs = []
    for i in range(3):
        fs.append(lambda: i)
    return [f() for f in fs]


def swallow(x):
    try:
        if x < 0:
            raise ValueError("neg")
        r = 1
    except ValueError:
        r = 2
    finally:
        r2 = 3
    return r + r2


def cumulative(t):
    return torch.cumsum(t, dim=0)


def blocks(t, k):
    return torch.repeat_interleave(t, k, dim=0)


def flatten(t):
    return t.reshape(-1)


def nearest(t, x):
    return (t - x).abs().argmin()


def norm2(z):
    return torch.abs(z) ** 2


def root(x):
    return np.sqrt(x)


def nested(n, m):
    c = 0
    for i in range(n):
        for j in range(m):
            c += i
    return c


def with_break(xs):
    n = 0
    for x in xs:
        if x < 0:
            break
        n += 1
    return n


def with_continue(xs):
    n = 0
    for x in xs:
        if x < 0:
            continue
        n += 1
    return n


def remember(state):
    best = state
    state["w"] = 5.0
    return best


def remember_copy(state):
    best = deepcopy(state)
    state["w"] = 5.0
    return best


def average(t):
    return t.mean()


def two_buffers(t):
    a = torch.zeros_like(t)
    b = a
    b += t
    return a


def product(xs):
    p = 1
    for x in xs:
        p = p * x
    return p


def swap_rows(t):
    t[0], t[1] = t[1].clone(), t[0].clone()
    return t


def swap_rows_alias(t):
    t[0], t[1] = t[1], t[0]
    return t


def while_count(n):
    k = 0
    while k < n:
        k += 1
    return k


def clamp(t, a, b):
    return t.clip(a, b)


def power(x, p):
    return x**p


class Counter:
    total = 0

    def __init__(self):
        self.n = 0

    def hit(self):
        self.n += 1
        return self


def hits(k):
    c = Counter()
    for _ in range(k):
        c.hit()
    return c.n


def total_enumerate(xs):
    s = 0.0
    for i, x in enumerate(xs):
        s = s + xs[i]
    return s


def total_generator(xs):
    return sum(x for x in xs)


def total_comprehension(xs):
    return sum([x for x in xs])


def total_index(xs):
    s = 0
    for i in range(len(xs)):
        s = xs[i] + s
    return s


def total_while(xs):
    s, i = 0, 0
    while i < len(xs):
        s += xs[i]
        i += 1
    return s


def total_reversed(xs):
    s = 0
    for i in reversed(range(len(xs))):
        s += xs[i]
    return s


def total_down(xs):
    s = 0
    for i in range(len(xs) - 1, -1, -1):
        s += xs[i]
    return s


def doubled_list(xs):
    return [2 * x for x in xs]


def doubled_append(xs):
    r = []
    for x in xs:
        y = x
        y = y + x
        r.append(y)
    return r


def doubled_extend(xs):
    r = []
    for x in xs:
        r += [2 * x]
    return r


def doubled_map(xs):
    return list(map(lambda x: 2 * x, xs))


def doubled_stack(xs):
    return torch.stack([2 * x for x in xs])


def doubled_fill(xs):
    r = torch.zeros(len(xs))
    for i, x in enumerate(xs):
        r[i] = 2 * x
    return r


def doubled_cat(xs):
    r = torch.zeros(0)
    for x in xs:
        r = torch.cat((r, (2 * x).reshape(1)))
    return r


def smallest_min(xs):
    return min(xs)


def smallest_torch(xs):
    return xs.min()


def smallest_index(xs):
    b = 0
    for i in range(1, len(xs)):
        if xs[i] < xs[b]:
            b = i
    return b


def all_positive_all(xs):
    return all(x > 0 for x in xs)


def all_positive_for(xs):
    for x in xs:
        if not x > 0:
            return False
    return True


def all_positive_else(xs):
    for x in xs:
        if x <= 0:
            break
    else:
        return True
    return False


def all_positive_flag(xs):
    ok = True
    for x in xs:
        ok = ok and bool(x > 0)
    return ok


def all_positive_not_any(xs):
    return not any(x <= 0 for x in xs)


def count_positive(xs):
    return sum(1 for x in xs if x > 0)


def count_positive_loop(xs):
    n = 0
    for x in xs:
        n += 1 if x > 0 else 0
    return n


def pair_sum(xs, ys):
    return [x + y for x, y in zip(xs, ys)]


def pair_sum_index(xs, ys):
    r = []
    for i in range(len(xs)):
        r.append(xs[i] + ys[i])
    return r


def dot(xs, ys):
    s = 0
    for x, y in zip(xs, ys):
        s += x * y
    return s


def dot_torch(xs, ys):
    return (xs * ys).sum()


def matrix_sum(t):
    s = 0
    for row in t:
        for x in row:
            s += x
    return s


def matrix_sum_torch(t):
    return torch.sum(t)


def matrix_sum_dims(t):
    return t.sum(dim=0).sum()


def prefix(xs):
    r, s = [], 0
    for x in xs:
        r.append(s)
        s = s + x
    return r


def prefix_alias(xs):
    r, s = [], torch.zeros(1)
    for x in xs:
        r.append(s)
        s += x
    return r


def scaled_by_total(xs):
    t = xs.sum()
    return xs / t


def where_clip(xs, lim):
    return torch.where(xs > lim, lim * torch.ones_like(xs), xs)


def minimum_clip(xs, lim):
    return torch.clamp(xs, max=lim)


def loop_clip(xs, lim):
    r = xs.clone()
    for i in range(len(r)):
        if r[i] > lim:
            r[i] = lim
    return r


def dict_lookup(xs):
    d = {}
    for i, x in enumerate(xs):
        d[i] = x
    return d[0]


def outer_loop(xs, ys):
    r = torch.zeros(len(xs), len(ys))
    for i in range(len(xs)):
        for j in range(len(ys)):
            r[i, j] = xs[i] * ys[j]
    return r


def outer_broadcast(xs, ys):
    return xs[:, None] * ys[None, :]


def outer_unsqueeze(xs, ys):
    return xs.unsqueeze(1) * ys.unsqueeze(0)


def outer_einsum(xs, ys):
    return torch.einsum("i,j->ij", xs, ys)


def reverse_slice(xs):
    return torch.flip(xs, dims=[0])


def roll_cat(xs):
    return torch.cat((xs[1:], xs[:1]))


def last_change(xs):
    k = 0
    for i in range(1, len(xs)):
        if xs[i] != xs[i - 1]:
            k = i
    return k


def diffs(xs):
    return xs[1:] - xs[:-1]


def diffs_loop(xs):
    r = torch.zeros(len(xs) - 1)
    for i in range(len(xs) - 1):
        r[i] = xs[i + 1] - xs[i]
    return r


def early(xs):
    if len(xs) == 0:
        return 0
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s


def maxabs(xs):
    m = 0
    for x in xs:
        if abs(x) > m:
            m = abs(x)
    return m


def maxabs_torch(xs):
    return xs.abs().max()


def running_max(xs):
    m = xs[0]
    for x in xs:
        m = max(m, x)
    return m


def alternate(xs):
    s, sign = 0, 1
    for x in xs:
        s += sign * x
        sign = -sign
    return s


def dot_einsum(xs, ys):
    return torch.einsum("i,i->", xs, ys)


def weighted(t, w):
    return (t * w[:, None]).sum(dim=0)


def weighted_einsum(t, w):
    return torch.einsum("ij,i->j", t, w)


def weighted_matmul(t, w):
    return torch.matmul(w, t)


def weighted_loop(t, w):
    r = torch.zeros(t.shape[1])
    for i in range(t.shape[0]):
        r = r + w[i] * t[i]
    return r
