"""C15: quadrants, moves and significance codes of LISA_Markov."""
import itertools
from fractions import Fraction as F

import numpy as np
from giddy.markov import LISA_Markov

from ..core import product_space
from ..util import all_graphs, eq, exact, graphs_upto_iso, need, neighbours, no_isolates, unchanged, make_w
from . import _lisa as L

BINDING = ("quadrants are recomputed exactly from every small panel and graph; every history of quadrants and "
           "p-values is fed to the real class through a controlled local Moran source")
ASSUMPTIONS = ["a deviation of exactly zero may be put on either side (it is decided by rounding)",
               "every unit has a neighbour and the values of a period are not all equal"]


def quadrants(n, edges, col, wts=None):
    """Allowed default quadrants of each unit."""
    nb = neighbours(n, edges)
    col = [F(v) for v in col]
    mean = sum(col) / n
    z = [v - mean for v in col]
    out = []
    for i in range(n):
        if wts is None:
            lz = sum(z[j] for j in nb[i]) / len(nb[i])
        else:
            ws = [F(wts[(min(i, j), max(i, j))]) for j in nb[i]]
            lz = sum(x * z[j] for x, j in zip(ws, nb[i])) / sum(ws)
        ok = set()
        for own in ({True, False} if z[i] == 0 else {z[i] > 0}):
            for lag in ({True, False} if lz == 0 else {lz > 0}):
                ok.add({(True, True): 1, (False, True): 2, (False, False): 3, (True, False): 4}[own, lag])
        out.append(ok)
    return out


def tally(q, t):
    T = [[0] * 4 for _ in range(4)]
    for r in q:
        for s in range(t - 1):
            T[r[s] - 1][r[s + 1] - 1] += 1
    return T


def moves(q, t):
    return [[4 * (r[s] - 1) + r[s + 1] for s in range(t - 1)] for r in q]


def panel_run(s):
    (n, edges, wts), cols = s[0], s[1:]
    t = len(cols)
    y = np.array(cols, float).T
    qs = {}
    w = make_w(n, edges, weights=dict(wts) if wts else None)
    want = [quadrants(n, edges, c, dict(wts) if wts else None) for c in cols]
    for geo in (False, True):
        yy = y.copy()
        lm = LISA_Markov(yy, w, geoda_quads=geo)
        unchanged(y, yy, "y")
        q = np.asarray(lm.q)
        need(q.shape == (n, t), f"q has shape {q.shape}")
        q = q.astype(int).tolist()
        for i in range(n):
            for p in range(t):
                ok = {L.SWAP[x] for x in want[p][i]} if geo else want[p][i]
                need(q[i][p] in ok, f"unit {i} period {p} is in quadrant {q[i][p]}, expected {sorted(ok)} (geoda={geo})")
        exact(lm.transitions, tally(q, t), f"transitions (geoda={geo})")
        exact(lm.move_types, moves(q, t), f"move types (geoda={geo})")
        exact(lm.classes, [1, 2, 3, 4], "classes")
        qs[geo] = q
    need([[L.SWAP[x] for x in r] for r in qs[False]] == qs[True],
         f"numbering schemes differ by more than labels 2 and 3: {qs}")


def grid_run(s):
    """Larger panels on grids: value ranges, integer storage, offsets."""
    rows, t, m, store = s
    n = rows * rows
    edges = [(i, i + 1) for i in range(n) if i % rows != rows - 1] + [(i, i + rows) for i in range(n - rows)]
    cols = [tuple((i * i * m + (i + s_) * (7 + s_ % 3) + s_ * s_) % 53 + 1 for i in range(n)) for s_ in range(t)]
    if store == "offset":
        cols = [tuple(v + 10 ** 6 * s_ for v in c) for s_, c in enumerate(cols)]
    elif store == "negative":
        cols = [tuple(-v for v in c) for c in cols]
    elif store == "thousands":
        cols = [tuple(v * 10 ** 9 for v in c) for c in cols]
    elif store == "small":
        cols = [tuple(v * 2.0 ** -60 for v in c) for c in cols]
    y = np.array(cols).T
    y = y.astype({"int16": np.int16, "float32": np.float32, "int8": np.int8, "uint8": np.uint8, "big endian": ">f8"}.get(
        store, y.dtype if store in ("int", "thousands") else float))
    if store == "strided":
        y = np.repeat(np.repeat(y, 2, axis=0), 3, axis=1)[::2, ::3]
    elif store == "fortran":
        y = np.asfortranarray(y)
    elif store == "readonly":
        y.setflags(write=False)
    ids = [f"u{(i * 7 + 3) % n}x" for i in range(n)] if store in ("named", "int8", "strided") and n % 7 else None
    wts = {e: 1 + (a % 5) * 2 for a, e in enumerate(edges)} if store in ("named", "uint8", "fortran") else None
    w = make_w(n, edges, ids=ids, weights={e: float(v) for e, v in wts.items()} if wts else None, transform="r" if m % 2 else None)
    want = [quadrants(n, edges, c, wts) for c in cols]
    keep = y.copy()
    for geo in (False, True):
        lm = LISA_Markov(y, w, geoda_quads=geo)
        unchanged(keep, y, "y")
        q = np.asarray(lm.q).astype(int).tolist()
        for i in range(n):
            for p in range(t):
                ok = {L.SWAP[x] for x in want[p][i]} if geo else want[p][i]
                need(q[i][p] in ok, f"unit {i} period {p} is in quadrant {q[i][p]}, expected {sorted(ok)} (geoda={geo})")
        exact(lm.transitions, tally(q, t), "transitions")
        exact(lm.move_types, moves(q, t), "move types")


def hist_run(s):
    """s = (geoda, level), then one component per unit: its (quadrant, p-value) history."""
    (geo, level), units = s[0], s[1:]
    units = [[(u[2 * a], u[2 * a + 1]) for a in range(len(u) // 2)] if not isinstance(u[0], tuple) else list(u) for u in units]
    n0, t = len(units), len(units[0])
    n = max(n0, 2)
    while len(units) < n:
        units.append([(1, 1.0)] * t)
    q = [[h[s_][0] for s_ in range(t)] for h in units]
    p = [[float('nan') if h[s_][1] is None else h[s_][1] * level for s_ in range(t)] for h in units]
    y, src = L.history(n, t, q, p)
    edges = [(i, i + 1) for i in range(n - 1)]
    with L.moran_local(src):
        lm = LISA_Markov(y.copy(), make_w(n, edges), permutations=9, significance_level=level, geoda_quads=geo)
        plain = LISA_Markov(y.copy(), make_w(n, edges), significance_level=level, geoda_quads=geo)
    need(src.calls >= 2 * t, "the local Moran source was not asked")
    qq = [[L.SWAP[x] for x in r] for r in q] if geo else q
    for o in (lm, plain):
        exact(o.q, qq, "q")
        exact(o.transitions, tally(qq, t), "transitions")
        exact(o.move_types, moves(qq, t), "move_types")
    eq(np.nan_to_num(lm.p_values, nan=-1), [[-1 if v != v else v for v in r] for r in p], "p_values (-1: undefined)", 0)
    need(lm.significance_level == level, "significance_level")
    sig = []
    for r in range(n):
        row = []
        for a in range(t - 1):
            o, d = p[r][a] <= level, p[r][a + 1] <= level
            row.append(4 * (qq[r][a] - 1) + qq[r][a + 1] + {(True, True): 0, (True, False): 16, (False, True): 32, (False, False): 48}[o, d])
        sig.append(row)
    exact(lm.significant_moves, sig, "significant_moves")
    need(not hasattr(plain, "significant_moves") or plain.significant_moves is None, "significant moves without permutations")


def long_run(s):
    """Many units and periods: every (quadrant, significance) pair of both end points, often."""
    n, t, geo, level, m = s
    cell = [[((i * 5 + a * 3 + (i * a * m) % 7 + (i + a) // 3) % 4 + 1, (0.2, 1.0, 1.0 + 1e-12, 1.7)[(i * m + a * 2 + i // 5) % 4]) for a in range(t)] for i in range(n)]
    if m == 3:                                  # one move of one unit repeated
        cell = [[(2 + (a % 2) * 2, 0.5 if a % 2 else 2.0) for a in range(t)] for i in range(n)]
    hist_run(((geo, level),) + tuple(tuple(h) for h in cell))


def real_run(s):
    """Conformance of the controlled source: real simulated p-values are coded the same way."""
    seed, geo, level, e = s
    n, t = 6, 4
    y = np.array([[((i * i * 5 + s_ * 7 + i * s_ * (seed % 3 + 1)) % 11) + 1 for s_ in range(t)] for i in range(n)], float)
    need((y.std(axis=0) > 0).all(), 'degenerate panel')
    w = make_w(n, e)
    np.random.seed(seed)
    lm = LISA_Markov(y, w, permutations=19, significance_level=level, geoda_quads=geo)
    plain = LISA_Markov(y, w, geoda_quads=geo)
    exact(lm.q, plain.q, "q with permutations")
    exact(lm.transitions, plain.transitions, "transitions with permutations")
    exact(lm.move_types, plain.move_types, "move types with permutations")
    pv = np.asarray(lm.p_values)
    need(pv.shape == (n, t) and (np.isnan(pv) | ((pv >= 0) & (pv <= 1))).all(), f"p_values {pv}")
    p = pv <= level
    want = [[4 * (lm.q[i, a] - 1) + lm.q[i, a + 1] + (0 if p[i, a] else 32) + (0 if p[i, a + 1] else 16)
             for a in range(t - 1)] for i in range(n)]
    exact(lm.significant_moves, want, "significant_moves")


def spaces(tier):
    deep = tier == "thorough"
    out = []
    c3 = [c for c in itertools.product(range(3), repeat=3) if len(set(c)) > 1]
    g3 = [(3, e, None) for e in all_graphs(3) if no_isolates(3, e)]
    d3 = [(3, ((0, 1), (0, 2), (1, 2)), (((0, 1), 1.0), ((0, 2), 2.0), ((1, 2), 5.0)))]
    out.append(product_space("panels n=3 t=2", [g3 + d3] + [c3] * 2, panel_run))
    c4 = [c for c in itertools.product(range(3), repeat=4) if len(set(c)) > 1]
    g4 = [(4, e, None) for e in graphs_upto_iso(4)]
    out.append(product_space("panels n=4 t=2", [g4] + ([c4] * 2 if deep else [c4[::7], c4]), panel_run))
    b3 = [c for c in itertools.product(range(2), repeat=3) if len(set(c)) > 1]
    out.append(product_space("panels n=3 t=4 binary", [g3 + d3] + [b3] * 4, panel_run))
    g5 = [(5, e, None) for e in graphs_upto_iso(5)]
    c5 = [(1, 2, 3, 4, 5), (5, 1, 4, 2, 2), (3, 3, 1, 9, 0), (-2, 0, 7, -8, 1), (0, 0, 0, 0, 1)]
    out.append(product_space("panels n=5 t=3", [g5] + [c5] * (3 if deep else 2), panel_run))
    out.append(product_space("grids", [[4, 7, 12, 17], [2, 5, 9], [1, 2, 3], ["float", "int", "int16", "float32", "offset", "negative", "int8", "uint8", "thousands", "small",
                                               "big endian", "strided", "fortran", "readonly", "named"]], grid_run,
                             note="counts beyond 127, 255 and 1000"))
    cells = [(q, p) for q in (1, 2, 3, 4) for p in (0.2, 1.0, 1.0000001)]
    opts = [(g, lv) for g in (False, True) for lv in (0.05, 0.2, 0.001)]
    out.append(product_space("histories of one unit, t=2", [opts, list(itertools.product(cells, repeat=2))], hist_run))
    odd = [(q, p) for q in (1, 2, 3, 4) for p in (None, 0.2, 1.5)]
    out.append(product_space("undefined p-values", [opts[:4:3], [(a, b) for a in odd for b in odd if a[1] is None or b[1] is None], [(a, b) for a in odd[::5] for b in odd[1::4]]], hist_run,
                             note="units whose simulated statistics are all equal are not significant"))
    out.append(product_space("histories of one unit, t=3", [opts if deep else opts[:4:3],
                                                            list(itertools.product(cells, repeat=3))], hist_run))
    out.append(product_space("many units and periods", [[3, 70, 300] + ([3000] if deep else []), [2, 13, 60], [False, True], [0.05, 0.4], [1, 2, 3]], long_run))
    two = list(itertools.product([(q, p) for q in (1, 2, 3, 4) for p in (0.2, 1.5)], repeat=2))
    out.append(product_space("histories of two units, t=2", [opts[:4:3], two, two], hist_run,
                             note="all pairs of (quadrant, significant) histories"))
    if True:
        out.append(product_space("real local Moran", [range(40 if deep else 2), [False, True], [0.05, 0.3],
                             [((0, 1), (1, 2), (2, 3), (3, 4), (4, 5)), ((0, 1), (0, 2), (0, 3), (3, 4), (4, 5), (3, 5))]], real_run))
    return out
