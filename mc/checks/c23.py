"""C23: rank statistics depend on order and graph only."""
import itertools

import numpy as np
from giddy.rank import (SpatialTau, Tau, Tau_Local, Tau_Local_Neighbor, Tau_Local_Neighborhood, Tau_Regional, Theta)

from ..core import product_space
from ..util import laid_out, all_graphs, eq, exact, graphs_upto_iso, make_w, need, no_isolates, set_partitions, weak_orders
from . import _rank as R
from .c19 import check as check_tau
from .c20 import check_all
from .c21 import check_obj
from .c22 import check as check_theta

BINDING = ("every representation of the same rank patterns and graph (storage, magnitude, names, unit order, weights "
           "transformation) is analysed by the real classes and compared with the one model result")

U, I8 = np.uint8, np.int8
RECODE = {
    "float": lambda p: np.array(p, float),
    "huge": lambda p: np.array([(v - 1) * 1e300 for v in p]),
    "tiny": lambda p: np.array([(v - 1) * 1e-300 for v in p]),
    "near": lambda p: np.array([np.nextafter(1.0, 2) if v == 1 else (1.0 if v == 0 else 1.0 + v * 1e-12) for v in p]),
    "negative": lambda p: np.array([-1000.0 + v for v in p]),
    "exp": lambda p: np.array([[-1e9, -0.5, 3.0, 4e15, 5e15, 6e20][v] for v in p]),
    "uint8": lambda p: np.array([[0, 5, 128, 250, 255, 255][v] for v in p], np.uint8),
    "int8": lambda p: np.array([[-128, -1, 3, 100, 127, 127][v] for v in p], np.int8),
    "int16": lambda p: np.array([[-32768, -300, 0, 300, 32767, 0][v] for v in p], np.int16),
    # the smallest value, then the ones next to the limit (which double precision cannot tell apart)
    "uint64": lambda p: np.array([([0, 1, 2 ** 63][:max(1, len(p) - 2)] + [2 ** 64 - 2, 2 ** 64 - 1])[v] for v in p], np.uint64),
    "int64": lambda p: np.array([([-2 ** 63, -1, 2 ** 62][:max(1, len(p) - 2)] + [2 ** 63 - 2, 2 ** 63 - 1])[v] for v in p], np.int64),
    "intlist": lambda p: [2 ** 53 + int(v) for v in p],
    "float32": lambda p: np.array([-3e38 + v * 1e38 for v in p], np.float32),
    "list": lambda p: [int(v) - 1 for v in p],
    "flist": lambda p: [v * 0.1 for v in p],
    "view": lambda p: np.repeat(np.array(p, float), 3)[::3],
}


def regions(x, y, a, b, part, lab):
    n = len(x)
    reg = [lab[p] for p in part]
    order = sorted(set(reg))
    idx = [order.index(r) for r in reg]
    check_obj(Tau_Regional(a, b, np.array(reg)), x, y, idx, n)


def recode_run(s):
    """All statistics for one pair of codings of two rank patterns."""
    (n, edges), rx, ry, x, y = s
    a, b = RECODE[rx](x), RECODE[ry](y)
    check_tau(Tau(a, b), x, y, f"tau({rx}, {ry})")
    check_all(a, b, n, edges, make_w(n, edges), x, y)
    part = tuple(i % 2 for i in range(n))
    regions(x, y, a, b, part, [1, 0])
    if isinstance(a, np.ndarray):
        cols = [a, a[::-1], RECODE[rx](y)]
        check_theta(Theta(laid_out(cols), np.array(part), permutations=0), [x, x[::-1], y], part)


def named_w(n, edges, ids, shuffle_dict):
    from libpysal.weights import W
    nb = {i: [] for i in range(n)}
    for a, b in edges:
        nb[a].append(b)
        nb[b].append(a)
    keys = [ids[i] for i in (range(n) if not shuffle_dict else [((2 * i + 1) % n if n % 2 else n - 1 - i) for i in range(n)])]
    pos = {ids[i]: i for i in range(n)}
    return W({k: [ids[j] for j in (nb[pos[k]][::-1] if shuffle_dict else nb[pos[k]])] for k in keys},
             id_order=list(ids), silence_warnings=True)


STR = ["kyoto", "b", "a", "zz", "10"]


def naming_run(s):
    """Unit names, the order of units in data and weights, weights transformation."""
    (n, edges), kind, order, tr, x, y = s
    # position q of the reordered data holds unit order[q]
    inv = {u: q for q, u in enumerate(order)}
    e2 = tuple(tuple(sorted((inv[a], inv[b]))) for a, b in edges)
    xs, ys = [x[u] for u in order], [y[u] for u in order]
    ids = {"str": [STR[u] for u in order], "int": list(order), "far": [100 - 7 * u for u in order],
           "plain": list(range(n)), "float": [u + 0.5 for u in order]}[kind]
    w = named_w(n, e2, ids, kind in ("str", "int"))
    if tr:
        w.transform = tr
    before = w.transform
    check_all(np.array(xs, float), np.array(ys, float), n, e2, w, xs, ys)
    need(w.transform == before and w.id_order == ids, "weights changed")


def spaces(tier):
    deep = tier == "thorough"
    w3, w4 = weak_orders(3), weak_orders(4)
    p4 = list(itertools.permutations(range(4)))
    path, tri = (3, ((0, 1), (1, 2))), (3, ((0, 1), (0, 2), (1, 2)))
    g4 = [(4, e) for e in graphs_upto_iso(4)]
    codes = sorted(RECODE)
    out = [
        product_space("all pairs of codings, n=3", [[path] if not deep else [path, tri], codes, codes, w3, w3[::(1 if deep else 2)]], recode_run),
        product_space("same coding, n=4", [g4[:1] if not deep else g4, codes, ["float", "uint8", "huge"], w4[::(1 if deep else 4)], p4[::(1 if deep else 2)]], recode_run),
        product_space("names and orders, n=3", [[path, tri], ["str", "int", "far", "plain", "float"], list(itertools.permutations(range(3))),
                                                [None, "r", "b", "v"], w3[::(1 if deep else 2)], w3], naming_run),
        product_space("names and orders, n=4", [g4, ["str", "int", "far"], p4, [None, "r"], p4[::(4 if deep else 11)], w4[::(10 if deep else 19)]], naming_run),
    ]
    return out
