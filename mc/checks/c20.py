"""C20: spatial and local taus."""
from fractions import Fraction as F

import numpy as np
from giddy.rank import SpatialTau, Tau_Local, Tau_Local_Neighbor, Tau_Local_Neighborhood

from ..core import product_space
from ..util import all_graphs, eq, exact, graphs_upto_iso, make_w, need, neighbours, no_isolates, weak_orders
from . import _rank as R

BINDING = "every statistic is recomputed pair by pair from the values and the neighbour graph and compared"
ASSUMPTIONS = ["spatial tau is not judged where a variable is constant over all neighbouring pairs (0/0)"]


def fl(v):
    return [float(a) for a in v]


def check_all(x, y, n, edges, w, rx, ry):
    """x, y: what is passed; rx, ry: their order pattern."""
    nb = neighbours(n, edges)
    st = SpatialTau(x, y, w)
    t, c, d = R.spatial(rx, ry, edges)
    need(st.concordant_spatial == c, f"concordant_spatial {st.concordant_spatial}, expected {c}")
    need(st.discordant_spatial == d, f"discordant_spatial {st.discordant_spatial}, expected {d}")
    need(st.pairs_spatial == len(edges), f"pairs_spatial {st.pairs_spatial}, expected {len(edges)}")
    if t == t:
        eq(st.tau_spatial, t, "tau_spatial")
    cc = R.pair_counts(rx, ry, R.all_pairs(n))
    need((st.concordant, st.discordant, st.extraY, st.extraX) == cc, f"overall pair counts, expected {cc}")
    if R.tau_b(*cc) == R.tau_b(*cc):
        eq(st.tau, R.tau_b(*cc), "tau")
    overall, loc = R.local(rx, ry)
    tl = Tau_Local(x, y)
    eq(tl.tau, float(overall), "Tau_Local.tau")
    eq(tl.tau_local, fl(loc), "tau_local")
    eq(np.mean(tl.tau_local), float(overall), "mean of tau_local")
    exact(tl.S, R.signs(rx, ry), "S")
    ln = Tau_Local_Neighbor(x, y, w)
    want = R.local_neighbor(rx, ry, nb)
    eq(ln.tau_ln, fl(want), "tau_ln")
    wts = R.neighbor_weights(nb)
    eq(ln.tau_ln_weights, fl(wts), "tau_ln_weights")
    S = R.signs(rx, ry)
    avg = F(sum(S[i][j] for i, j in edges), len(edges))
    eq(float(np.dot(ln.tau_ln, ln.tau_ln_weights)), float(avg), "weighted sum of tau_ln")
    exact(ln.sign, [-1 if v < 0 else 1 for v in want], "sign of tau_ln")
    hd = Tau_Local_Neighborhood(x, y, w)
    wh = R.local_neighborhood(rx, ry, nb)
    eq(hd.tau_lnhood, fl(wh), "tau_lnhood")
    eq(hd.tau_local, fl(loc), "tau_local (neighbourhood)")
    exact(hd.sign, [-1 if v < 0 else 1 for v in wh], "sign of tau_lnhood")


def run(s):
    (n, edges, tr), x, y = s
    w = make_w(n, edges, transform=tr)
    a, b = np.array(x, float), np.array(y, float)
    ka, kb = a.copy(), b.copy()
    check_all(a, b, n, edges, w, x, y)
    need((a == ka).all() and (b == kb).all(), "inputs were modified")


def large_run(s):
    n, shape, m1, m2 = s
    if shape == "ring":
        edges = [(i, i + 1) for i in range(n - 1)] + [(0, n - 1)]
    elif shape == "star":
        edges = [(0, i) for i in range(1, n)]
    else:
        k = int(n ** 0.5)
        n = k * k
        edges = [(i, i + 1) for i in range(n) if i % k != k - 1] + [(i, i + k) for i in range(n - k)]
    x = [(i * m1) % 31 for i in range(n)] if m1 else list(range(n))
    y = [(i * m2 + 5) % 47 for i in range(n)] if m2 else list(range(n, 0, -1))
    check_all(np.array(x), np.array(y, float), n, edges, make_w(n, edges), x, y)


def dense_run(s):
    """Spatial tau on graphs with very many neighbouring pairs."""
    n, drop, m1, m2 = s
    edges = [(i, j) for i in range(n) for j in range(i + 1, n) if not drop or (i * 3 + j) % drop]
    x = [(i * m1) % 31 for i in range(n)] if m1 else list(range(n))
    y = [(i * m2 + 5) % 47 for i in range(n)] if m2 else list(range(n))
    st = SpatialTau(np.array(x), np.array(y), make_w(n, edges))
    t, c, d = R.spatial(x, y, edges)
    need((st.concordant_spatial, st.discordant_spatial, st.pairs_spatial) == (c, d, len(edges)),
         f"{(st.concordant_spatial, st.discordant_spatial, st.pairs_spatial)} pairs, expected {(c, d, len(edges))}")
    eq(st.tau_spatial, t, "tau_spatial")


def spaces(tier):
    deep = tier == "thorough"
    w2, w3, w4, w5 = (weak_orders(n) for n in (2, 3, 4, 5))
    g3 = [(3, e, tr) for e in all_graphs(3) if no_isolates(3, e) for tr in (None, "r")]
    g4 = [(4, e, None) for e in graphs_upto_iso(4)]
    g4a = [(4, e, None) for e in all_graphs(4) if no_isolates(4, e)]
    g5 = [(5, e, "r") for e in graphs_upto_iso(5)]
    return [
        product_space("n=2", [[(2, ((0, 1),), None)], w2, w2], run),
        product_space("n=3, all graphs", [g3, w3, w3], run),
        product_space("n=4, graphs up to isomorphism", [g4] + [w4, w4], run),
        product_space("n=4, all graphs", [g4a] + ([w4, w4] if deep else [w4[::6], w4[::2]]), run),
        product_space("n=5, graphs up to isomorphism", [g5] + ([w5, w5[::3]] if deep else [w5[::40], w5[::4]]), run),
        product_space("large, fully ordered", [[150, 300], ["ring", "star", "grid"], [0, 7], [0]], large_run,
                      note="counts beyond 127, 255 and 32767"),
        product_space("very many neighbouring pairs", [[260, 330] + ([700] if deep else []), [0, 5], [0, 7], [0, 12]], dense_run, note="to 54285 pairs"),
        product_space("larger graphs", [[12, 40, 150], ["ring", "star", "grid"], [7, 12], [5, 9, 13]], large_run),
    ]
