"""C21: regional tau."""
import numpy as np
import pandas as pd
from giddy.rank import Tau_Regional

from ..core import product_space
from ..util import eq, exact, need, set_partitions, weak_orders
from . import _rank as R

BINDING = "averages over all pairs within and between regimes are recomputed for every regime assignment and compared"

LABELS = {
    "int": lambda k: list(range(k)), "gap": lambda k: [-5, 40, 7, 100, 8, 3][:k],
    "str": lambda k: ["south", "east", "west", "north", "a", "b"][:k], "float": lambda k: [2.5, -1.0, 0.0, 9.25, 7.0, 1.5][:k],
    "one": lambda k: [3, 1, 2, 0, 5, 4][:k],
    "long": lambda k: ["the administrative district of the " + x for x in ("south", "east", "west", "north", "eastern", "e")][:k],
    "suffix": lambda k: [x + " administrative district of the upper north" for x in ("c", "a", "b", "ab", "aa", "")][:k],
    "digits": lambda k: ["10", "9", "1", "100", "09", "1.0"][:k], "case": lambda k: ["B", "a", "b", "A", "a ", " a"][:k],
    "unicode": lambda k: ["ß", "é", "z", "e", "ü", "Z"][:k], "close": lambda k: [0.1, 0.1 + 2 ** -50, 0.1 - 2 ** -50, 0.0, 5e-324, -5e-324][:k],
    "big": lambda k: [2 ** 53 + 1, 2 ** 53, 2 ** 53 + 2, -2 ** 53 - 1, -2 ** 53, 0][:k], "fraction": lambda k: [1.7, 1.2, -0.3, -0.6, 0.9, 0.1][:k],
    "bool": lambda k: [True, False, None, None, None, None][:k] if k <= 2 else list(range(k)),
}


KINDS = {          # regimes as they come from data frames and text files
    "list": list, "tuple": tuple, "array": np.array, "objects": lambda r: np.array(r, dtype=object),
    "series": lambda r: pd.Series(r, index=[5 * i + 3 for i in range(len(r))]), "index": pd.Index,
    "categorical": lambda r: pd.Categorical(r),
}


def check_obj(t, x, y, idx, n):
    """idx: unit -> position of its label in sorted label order."""
    T, N = R.regional(x, y, idx)
    k = len(T)
    G = np.asarray(t.tau_reg, float)
    need(G.shape == (k, k), f"tau_reg has shape {G.shape}, expected {(k, k)}")
    for a in range(k):
        for b in range(k):
            if T[a][b] is None:
                need(not np.isfinite(G[a, b]), f"tau_reg[{a},{b}] = {G[a, b]} although there is no pair")
            else:
                eq(G[a, b], float(T[a][b]), f"tau_reg[{a},{b}]")
                need(abs(G[a, b]) <= 1 + 1e-12, "outside of [-1, 1]")
                need(G[a, b] == G[b, a] or abs(G[a, b] - G[b, a]) < 1e-12, "not symmetric")
    tot = sum(G[a, b] * N[a][b] for a in range(k) for b in range(k) if N[a][b])
    eq(tot / (n * (n - 1)), float(R.local(x, y)[0]), "pair-count weighted average")
    exact(t.S, R.signs(x, y), "S")


def run(s):
    lab, store, part, x, y = s
    n = len(x)
    L = LABELS[lab](max(part) + 1)
    reg = [L[p] for p in part]
    order = sorted(set(reg))
    idx = [order.index(r) for r in reg]
    arg = KINDS[store](reg)
    keep = list(reg)
    t = Tau_Regional(np.array(x, float), np.array(y, float), arg)
    need(list(arg) == keep, "regimes were modified")
    check_obj(t, x, y, idx, n)


def large_run(s):
    n, k, m = s
    x, y = [(i * m) % 29 for i in range(n)], [(i * 11 + m) % 23 for i in range(n)]
    if m < 0:
        x, y = list(range(n)), list(range(n) if m == -1 else range(n, 0, -1))
    reg = [(i * i + m) % k for i in range(n)]
    order = sorted(set(reg))
    check_obj(Tau_Regional(x, y, reg), x, y, [order.index(r) for r in reg], n)


def spaces(tier):
    deep = tier == "thorough"
    w3, w4, w5 = weak_orders(3), weak_orders(4), weak_orders(5)
    labs, stores = list(LABELS), sorted(KINDS)
    return [
        product_space("n=2", [labs, stores, set_partitions(2), weak_orders(2), weak_orders(2)], run),
        product_space("n=3", [labs[:5], stores, set_partitions(3), w3, w3], run),
        product_space("n=3, more labels", [labs[5:], stores, set_partitions(3), w3[::3], w3[1::3]], run),
        product_space("n=4", [["int"], ["array"], set_partitions(4)] + [w4, w4], run),
        product_space("n=4, labels", [labs, ["list", "array"], set_partitions(4)] + ([w4, w4[::4]] if deep else [w4[::12], w4[1::10]]), run),
        product_space("n=5", [["str"], ["list"], set_partitions(5)] + ([w5[::3], w5] if deep else [w5[::20], w5[::9]]), run),
        product_space("large, fully ordered", [[140, 300], [1, 2, 7], [-1, -2]], large_run, note="counts beyond 127, 255 and 32767"),
        product_space("larger", [[12, 30, 80], [1, 2, 5, 12], [3, 7, 10]], large_run),
    ]
