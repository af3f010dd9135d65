"""C19: Kendall's tau."""
import itertools

import numpy as np
from giddy.rank import Tau

from ..core import Space, product_space
from ..util import eq, need, unchanged, weak_orders
from ..vals import CODES, readonly
from . import _rank as R

BINDING = "pairs are examined one by one by the model for every pair of rank patterns and compared with the tree algorithm"
ASSUMPTIONS = ["tau is not judged when one of the variables is constant (0/0)"]


def check(t, x, y, what):
    n = len(x)
    c, d, tx, ty = R.pair_counts(x, y, R.all_pairs(n))
    got = (t.concordant, t.discordant, t.extraY, t.extraX)
    need(all(a == b for a, b in zip(got, (c, d, tx, ty))),
         f"{what}: (concordant, discordant, tied in x only, tied in y only) = {tuple(map(float, got))}, expected {(c, d, tx, ty)}")
    tau = R.tau_b(c, d, tx, ty)
    if tau == tau:
        eq(t.tau, tau, f"{what}: tau")
        need(abs(float(t.tau_p) - R.tau_p(tau, n)) < 1e-6, f"{what}: tau_p {t.tau_p}, expected {R.tau_p(tau, n)}")


def run(s):
    x, y = s
    a, b = np.array(x, float), np.array(y, float)
    ka, kb = a.copy(), b.copy()
    check(Tau(a, b), x, y, "tau(x, y)")
    unchanged(ka, a, "x")
    unchanged(kb, b, "y")


def sym_run(s):
    x, y = s
    run(s)
    check(Tau(list(y), list(x)), y, x, "tau(y, x)")
    check(Tau(np.array(x) - 2, np.array(y) * -1000 - 7), x, [-v for v in y], "tau(x, -y)")
    run(s)


def comps(n):
    """Sorted rank patterns."""
    return [w for w in weak_orders(n) if list(w) == sorted(w)]


def large_run(s):
    n, fx, fy = s
    f = {"up": lambda i: i, "down": lambda i: n - i, "mod": lambda i: (i * 37 + 11) % 101, "few": lambda i: (i * i) % 5,
         "const": lambda i: 3, "zig": lambda i: i if i % 2 else -i}
    x, y = [f[fx](i) for i in range(n)], [f[fy](i) for i in range(n)]
    run((tuple(x), tuple(y)))


def coded_run(s):
    """Every pair of codings of two rank patterns, and one pattern against itself in two codings."""
    cx, cy, x, y = s
    a, b = CODES[cx](x), CODES[cy](y)
    check(Tau(readonly(a), readonly(b)), x, y, f"tau({cx}, {cy})")


def long_counts(x, y):
    """Pair counts in O(n log n), by an order-statistics tree over the second variable."""
    n = len(x)
    rk = {v: i for i, v in enumerate(sorted(set(y)), 1)}
    m = len(rk)
    tree = [0] * (m + 1)

    def add(i):
        while i <= m:
            tree[i] += 1
            i += i & -i

    def upto(i):
        t = 0
        while i:
            t += tree[i]
            i -= i & -i
        return t
    order = sorted(range(n), key=lambda i: x[i])
    c = d = done = 0
    i = 0
    while i < n:
        j = i
        while j < n and x[order[j]] == x[order[i]]:
            j += 1
        for q in order[i:j]:
            r = rk[y[q]]
            c += upto(r - 1)
            d += done - upto(r)
        for q in order[i:j]:
            add(rk[y[q]])
        done += j - i
        i = j

    def ties(v):
        cnt = {}
        for a in v:
            cnt[a] = cnt.get(a, 0) + 1
        return sum(a * (a - 1) // 2 for a in cnt.values())
    both = ties(list(zip(x, y)))
    return c, d, ties(x) - both, ties(y) - both


def huge_run(s):
    n, fx, fy, code = s
    f = {"up": lambda i: i, "down": lambda i: n - i, "mod": lambda i: (i * 377 + 11) % 10007, "few": lambda i: (i * i) % 5,
         "two": lambda i: int(i >= n // 2), "mostly": lambda i: 0 if i < 0.93 * n else i, "all but one": lambda i: int(i == n // 3)}
    x, y = [f[fx](i) for i in range(n)], [f[fy](i) for i in range(n)]
    g = {"int": np.array, "int32": lambda v: np.array(v, np.int32), "close": lambda v: 1.0 + np.array(v) * 1e-11}[code]
    t = Tau(g(x), g(y))
    c, d, tx, ty = long_counts(x, y)
    got = (t.concordant, t.discordant, t.extraY, t.extraX)
    need(all(a == b for a, b in zip(got, (c, d, tx, ty))), f"counts {tuple(map(float, got))}, expected {(c, d, tx, ty)}")
    eq(t.tau, R.tau_b(c, d, tx, ty), "tau")


def spaces(tier):
    deep = tier == "thorough"
    W = {n: weak_orders(n) for n in (2, 3, 4, 5)}
    W[6] = weak_orders(6)
    out = [product_space(f"all rank patterns n={n}", [W[n]] * 2, sym_run if n < 5 else run) for n in (2, 3, 4, 5)]
    out.append(product_space("n=6, x sorted", [comps(6), W[6]], run))
    if True:
        out.append(product_space("n=7, permutations, x sorted", [comps(7), list(itertools.permutations(range(7)))], run))
    out.append(product_space("n=6, permutations, x sorted or reversed", [[tuple(range(6)), tuple(range(5, -1, -1)), (0, 0, 1, 1, 2, 2)],
                                                                          list(itertools.permutations(range(6)))], run))
    out.append(product_space("long variables", [[50, 333, 1500], ["up", "down", "mod", "few", "zig"],
                                                ["up", "down", "mod", "few", "zig"]], large_run))
    codes = sorted(CODES)
    out.append(product_space("all pairs of codings, n=3", [codes, codes, W[3], W[3][::(1 if deep else 3)]], coded_run))
    out.append(product_space("codings, n=5", [codes, ["ulp", "list", "uint8"], W[5][::(10 if deep else 60)], W[5][1::(20 if deep else 45)]], coded_run))
    shapes = ["up", "down", "mod", "few", "two"]
    tied = ["mostly", "all but one"]
    out.append(product_space("long variables, most observations tied", [[40, 130, 260, 600, 1100], shapes + tied, shapes + tied, ["int", "close"]], huge_run))
    out.append(product_space("longer variables", [[260, 1100] if not deep else [260, 1100, 4000], shapes, shapes[:-1], ["int", "close"]], huge_run))
    out.append(product_space("very long variables", [[66000] if not deep else [66000, 300000], shapes, ["few", "two"], ["int", "close", "int32"]], huge_run,
                             note="more than 2**31 pairs"))
    if deep:
        out.append(product_space("n=7, x sorted", [comps(7), weak_orders(7)], run))
    return out
