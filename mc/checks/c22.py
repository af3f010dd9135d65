"""C22: theta."""
from fractions import Fraction as F

import numpy as np
import pandas as pd
from giddy.rank import Theta

from ..core import product_space
from ..util import eq, need, set_partitions, unchanged, weak_orders
from . import _rank as R
from .c21 import KINDS, LABELS

BINDING = "ranks, net and total rank changes are recomputed exactly for every panel and regime assignment and compared"
ASSUMPTIONS = ["theta is not judged for intervals without any rank change (0/0)"]


def check(t, cols, part):
    n = len(cols[0])
    eq(t.ranks, [[float(v) for v in r] for r in zip(*[R.avg_ranks(c) for c in cols])], "ranks")
    want = R.theta(cols, part)
    tot = np.asarray(t.total, float).ravel()
    th = np.asarray(t.theta, float).ravel()
    need(len(tot) == len(want) and len(th) == len(want), f"{len(th)} intervals reported, expected {len(want)}")
    mx = sum(abs(2 * i - n - 1) for i in range(1, n + 1))
    need(t.max_total == mx, f"max_total {t.max_total}, expected {mx}")
    for q, (v, d) in enumerate(want):
        eq(tot[q], float(d), f"total[{q}]")
        need(tot[q] <= t.max_total + 1e-9, f"total {tot[q]} exceeds the theoretical maximum {t.max_total}")
        if v is not None:
            eq(th[q], float(v), f"theta[{q}]")
            need(-1e-12 <= th[q] <= 1 + 1e-12, f"theta[{q}] = {th[q]}")
            k = len(set(part))
            if k == n:
                eq(th[q], 1.0, "theta of one-unit regimes")
            if k == 1:
                eq(th[q], 0.0, "theta of a single regime")


def run(s):
    lab, part, cols = s[0], s[1], s[2:]
    L = LABELS[lab](max(part) + 1)
    reg = np.array([L[p] for p in part])
    y = np.array(cols, float).T
    ky, kr = y.copy(), reg.copy()
    t = Theta(y, reg, permutations=0)
    unchanged(ky, y, "y")
    unchanged(kr, reg, "regimes")
    check(t, cols, part)


PANELS = {"float": lambda y: y, "int": lambda y: y.astype(int), "frame": lambda y: pd.DataFrame(y, columns=list("abcdef")[: y.shape[1]]),
          "fortran": np.asfortranarray, "uint8": lambda y: y.astype(np.uint8)}


def kinds_run(s):
    lab, kind, pk, perm, part, cols = s[0], s[1], s[2], s[3], s[4], s[5:]
    L = LABELS[lab](max(part) + 1)
    reg = KINDS[kind]([L[p] for p in part])
    y = PANELS[pk](np.array(cols, float).T + 1)
    keep = np.array(y, copy=True)
    t = Theta(y, reg, permutations=perm)
    unchanged(keep, np.array(y), "y")
    need([x for x in reg] == [L[p] for p in part], "regimes changed")
    check(t, cols, part)
    need(sorted(t.regimes) == sorted({L[p] for p in part}), f"regimes {t.regimes}")


def large_run(s):
    n, k, m = s
    cols = [[(i * m + q * i * i) % 31 for i in range(n)] for q in range(6)]
    if m == 0:
        cols = [list(range(n)), list(range(n, 0, -1)), list(range(n))]
    part = [(i * i + m) % k for i in range(n)]
    check(Theta(np.array(cols).T, np.array(part), permutations=0), cols, part)


def spaces(tier):
    deep = tier == "thorough"
    w2, w3, w4, w5 = (weak_orders(n) for n in (2, 3, 4, 5))
    labs = list(LABELS)
    return [
        product_space("n=2 t=3", [labs[:5] if not deep else labs, set_partitions(2)] + [w2] * 3, run),
        product_space("n=3 t=2", [labs[:5] if not deep else labs, set_partitions(3)] + [w3] * 2, run),
        product_space("n=3 t=3", [["str"], set_partitions(3)] + [w3] * 3, run),
        product_space("n=3 t=4", [["gap"], set_partitions(3)] + ([w3] * 4 if deep else [w3[::4], w3[::2], w3, w3]), run),
        product_space("n=4 t=2", [["int", "str"], set_partitions(4)] + [w4] * 2, run),
        product_space("n=5 t=2", [["float"], set_partitions(5)] + ([w5[::2], w5] if deep else [w5[::20], w5[::10]]), run),
        product_space("kinds of labels", [labs, sorted(KINDS), ["int"], [0], set_partitions(3), w3[::3], w3[1::4]], kinds_run),
        product_space("kinds of regimes and panels", [["int", "gap", "str", "float", "one"], sorted(KINDS), sorted(PANELS), [0, 2], set_partitions(3), w3, w3[1::4]], kinds_run),
        product_space("large, reversals", [[140, 300, 700], [1, 2, 7], [0]], large_run, note="rank sums beyond 127, 255, 32767 and 65535"),
        product_space("larger", [[15, 48, 120], [1, 2, 7, 15], [3, 7]], large_run),
    ]
