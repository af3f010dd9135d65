"""C18: rank based Markov chains."""
import itertools

import numpy as np
from giddy.markov import FullRank_Markov, GeoRank_Markov

from ..chain import normalise
from ..core import product_space
from ..util import eq, exact, need, unchanged, weak_orders

BINDING = "ranks and counts are recomputed from the values for every panel and compared with the real classes"


def ascending(col):
    """Positions of the units from smallest to largest, equal values in order of occurrence."""
    return sorted(range(len(col)), key=lambda i: (col[i], i))


def model(cols):
    n, t = len(cols[0]), len(cols)
    orders = [ascending(c) for c in cols]
    ranks = [[0] * t for _ in range(n)]
    for s, o in enumerate(orders):
        for pos, i in enumerate(o):
            ranks[i][s] = n - pos
    full = [[0] * n for _ in range(n)]
    geo = [[0] * n for _ in range(n)]
    for s in range(t - 1):
        for i in range(n):
            full[ranks[i][s] - 1][ranks[i][s + 1] - 1] += 1
        for pos in range(n):
            geo[orders[s][pos]][orders[s + 1][pos]] += 1
    return ranks, full, geo


def compare(arr, cols, fill):
    ranks, full, geo = model(cols)
    keep = np.array(arr, copy=True)
    fr = FullRank_Markov(arr, fill_empty_classes=fill, summary=False)
    exact(fr.ranks, ranks, "ranks")
    n = len(ranks)
    exact(fr.transitions, full, "full-rank transitions")
    eq(fr.p, [[float(x) for x in r] for r in normalise(full, fill)], "full-rank p")
    exact(fr.classes, list(range(1, n + 1)), "full-rank classes")
    gr = GeoRank_Markov(arr, fill_empty_classes=fill, summary=False)
    exact(gr.transitions, geo, "geographic-rank transitions")
    eq(gr.p, [[float(x) for x in r] for r in normalise(geo, fill)], "geographic-rank p")
    need(len(gr.classes) == n and gr.k == n, "geographic-rank classes")
    t = len(cols)
    for nm, T in (("full", fr.transitions), ("geo", gr.transitions)):
        need((np.asarray(T).sum(axis=1) == t - 1).all(), f"{nm}: rows of the counts do not add up to {t - 1}")
    unchanged(keep, np.asarray(arr), "y")


VALS = [lambda v: float(v), lambda v: -2.5 + 0.1 * v, lambda v: 1e9 + v, lambda v: 1e-12 * v]


def run(s):
    vi, cols = s[0], s[1:]
    f = VALS[vi]
    cols = [[f(v) for v in c] for c in cols]
    a = np.array(cols, float).T
    compare(np.ascontiguousarray(a), cols, False)
    compare(np.asfortranarray(a), cols, True)


def storage_run(s):
    store, cols = s[0], s[1:]
    cols = [list(c) for c in cols]
    a = np.array(cols).T
    if store == "list":
        arr = a.tolist()
    elif store == "bool":
        cols = [[v > 0 for v in c] for c in cols]
        arr = np.array(cols).T
    elif store == "view":
        big = np.zeros((a.shape[0] * 2, a.shape[1] * 2))
        big[::2, ::2] = a
        arr = big[::2, ::2]
    elif store == "readonly":
        arr = a.astype(float)
        arr.setflags(write=False)
    else:
        arr = a.astype(store)
    keep = np.array(arr, copy=True)
    compare(arr, cols, False)
    unchanged(keep, np.array(arr), "y")


def large_run(s):
    n, t, mul = s
    cols = [[((i * mul + s_ * 17) % 101) // (1 + s_ % 3) for i in range(n)] for s_ in range(t)]
    compare(np.array(cols, float).T, cols, False)


def levels_run(s):
    """Larger panels with few different values, in every storage."""
    n, t, lev, mul, store = s
    cols = [[(i * i * mul + i * (s_ + 1)) % 1009 % lev for i in range(n)] for s_ in range(t)]
    if store == "float":
        compare(np.array(cols, float).T - 0.5, cols, False)
    elif store == "close":
        cols = [[1.0 + v * 2.0 ** -50 for v in c] for c in cols]
        compare(np.array(cols).T, cols, False)
    else:
        cols = [[int(v > 0) for v in c] for c in cols] if store == "bool" else cols
        compare(np.array(cols).T.astype(store), cols, False)


def spaces(tier):
    deep = tier == "thorough"
    w3, w4, w5 = weak_orders(3), weak_orders(4), weak_orders(5)
    return [
        product_space("n=2 t=2..", [range(4)] + [weak_orders(2)] * 5, run),
        product_space("n=3 t=3", [[0, 1, 2, 3]] + [w3] * 3, run, note="all weak orders of every period"),
        product_space("n=3 t=4" if deep else "n=3 t=4 (first period ordered)", [[0]] + [w3 if deep else w3[::4]] + [w3] * 3, run),
        product_space("n=4 t=2", [[0, 1] if not deep else range(4)] + [w4] * 2, run),
        product_space("n=4 t=3", [[0]] + [w4[::(1 if deep else 9)], w4[::(1 if deep else 5)], w4], run),
        product_space("n=5 t=2", [[0], w5[::(1 if deep else 27)], w5], run),
        product_space("storage", [["int8", "int64", "uint8", "float32", "list", "bool", "view", "readonly"]] + [w3] * 3, storage_run),
        product_space("larger panels, few values", [[15, 16, 17, 18, 33, 40, 65, 129, 257] + ([300, 513, 1030] if deep else []), [2, 3, 4], [1, 2, 3, 4, 7],
                                                   [1, 5], ["float", "close", "int64", "uint8", "bool"]], levels_run),
        product_space("larger panels", [[12, 30, 64, 130, 300], [2, 5, 9], [7, 13, 37]], large_run),
    ]
