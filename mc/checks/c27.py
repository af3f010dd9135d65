"""C27: rose diagrams."""
import itertools
import math

import numpy as np
from giddy.directional import Rose

from ..core import product_space
from ..util import all_graphs, eq, need, unchanged
from . import _rose as M
from . import _spm as S

BINDING = "lags, vectors, angles and sectors are recomputed for every pair of periods, graph and number of sectors"
ASSUMPTIONS = ["a vector whose angle is within 1e-9 sectors of an inner cut may be counted on either side of it"]


def compare(Y, w, k, W, cols, exactlag):
    n = len(W)
    ky = Y.copy()
    nb, wt, tr = dict(w.neighbors), {i: list(v) for i, v in w.weights.items()}, w.transform
    r = Rose(Y, w, k)
    unchanged(ky, Y, "Y")
    need(dict(w.neighbors) == nb and {i: list(v) for i, v in w.weights.items()} == wt and w.transform == tr, "weights changed")
    cuts = np.asarray(r.cuts, float).ravel()
    need(len(cuts) == k + 1, f"{len(cuts)} cut points for {k} sectors")
    eq(cuts, [2 * math.pi * i / k for i in range(k + 1)], "cuts", 1e-12)
    need(cuts[0] == 0 and (np.diff(cuts) > 0).all(), "cuts do not increase from 0")
    L = M.lags(W, cols)
    eq(r.lag, [[float(v) for v in q] for q in L], "lag")
    vec = M.vectors(W, cols)
    ln = [math.hypot(float(a), float(b)) for a, b in vec]
    m = max(ln)
    m = m if 1e-100 < m < 1e100 else 1.0
    eq(np.asarray(r.r, float) / m, [v / m for v in ln], "r")
    th = np.asarray(r.theta, float)
    need(th.shape == (n,), "shape of theta")
    for i, (a, b) in enumerate(vec):
        if a == 0 and b == 0 and not exactlag:
            continue
        d = abs(th[i] - math.atan2(float(b), float(a)))
        need(min(d, abs(d - 2 * math.pi)) < 1e-9 and -math.pi <= th[i] <= math.pi,
             f"theta[{i}] = {th[i]}, expected {math.atan2(float(b), float(a))}")
    c = np.asarray(r.counts).ravel()
    need(len(c) == k, f"{len(c)} sector counts for {k} sectors")
    need(c.sum() == n, f"sector counts {c.tolist()} add up to {c.sum()}, not {n}")
    allowed = [M.sectors(v, k, exactlag) for v in vec]
    need(M.achievable([int(v) for v in c], allowed, k), f"counts {c.tolist()}, admissible sectors {allowed}")


def run(s):
    (n, edges, style, k), cols = s[0], s[1:]
    w = S.real_w(n, edges, style, ids=[None, [f"u{(5 * i + 1) % 7}" for i in range(n)], [(i + 1) % n for i in range(n)]][k % 3])
    W = S.wmatrix(n, edges, style)
    exactlag = all(x.denominator in (1, 2, 4) for r in W for x in r)
    Y = np.array(cols, float).T
    compare(Y if k % 3 else np.asfortranarray(Y), w, k, W, cols, exactlag)


def periods_run(s):
    """More than two periods: the first and the last one count."""
    n, t, k, style, last, *mid = s
    edges = ((0, 1), (1, 2), (0, 2))[:n]
    cols = [[(i * 3 + 1) % 4 for i in range(n)]] + [[mid[q]] * (n - 1) + [mid[q] + 1] for q in range(t - 2)] + [list(last)]
    compare(np.array(cols, float).T, S.real_w(n, edges, style), k, S.wmatrix(n, edges, style), cols, True)


def ring_run(s):
    """One vector of every direction of a fine grid, placed by the own and the neighbour's change."""
    k, m, style = s
    pts = [(a, b) for a in range(-m, m + 1) for b in range(-m, m + 1)]
    n = 2 * len(pts)
    edges = [(2 * i, 2 * i + 1) for i in range(len(pts))]
    start = [(i * 3) % 5 for i in range(n)]
    end = [start[i] + pts[i // 2][i % 2] for i in range(n)]
    w = S.real_w(n, edges, style)
    compare(np.array([start, end], float).T, w, k, S.wmatrix(n, edges, style), [start, end], True)


BOUND = {"int8": (-128, -1, 127), "uint8": (0, 3, 255), "int16": (-32768, 200, 32767), "uint16": (0, 300, 65535), "int32": (-2 ** 31, 0, 2 ** 31 - 1),
         "uint32": (0, 2 ** 31, 2 ** 32 - 1), "int64": (-2 ** 50, 1, 2 ** 50), "uint64": (0, 1, 2 ** 50), "float32": (-3.0, 0.5, 1024.0),
         "bool": (0, 1, 0)}


def int_run(s):
    k, dt, style, cols = s[0], s[1], s[2], s[3:]
    n = 3
    if dt.endswith("!"):
        dt = dt[:-1]
        cols = [[BOUND[dt][(-1, 0, 2).index(v)] for v in c] for c in cols]
    edges = ((0, 1), (1, 2))
    Y = np.array(cols).T.astype(dt)
    compare(Y, S.real_w(n, edges, style), k, S.wmatrix(n, edges, style), cols, style != "d")


def near_run(s):
    """Vectors at a small distance from every cut, at every scale: pairs of units that are each other's neighbour."""
    k, exp, scale, style = s
    vec = []
    for c in range(k):
        for sg in (-1, 1):
            a = 2 * math.pi / k * (c + sg * 10.0 ** -exp)
            vec.append((math.cos(a) * 2.0 ** scale, math.sin(a) * 2.0 ** scale))
    n = 2 * len(vec)
    edges = [(2 * i, 2 * i + 1) for i in range(len(vec))]
    start = [0.0] * n
    end = [vec[i // 2][i % 2] for i in range(n)]
    compare(np.array([start, end], float).T, S.real_w(n, edges, style), k, S.wmatrix(n, edges, style), [start, end], True)


def axis_run(s):
    """Vectors at angles down to a tiny number on both sides of the positive and the negative axis, for every number of sectors."""
    k, style, exps = s
    vec = [(x, sg * x * 10.0 ** -e) for x in (1.0, 3.0) for e in exps for sg in (-1, 1)]
    vec += [(-a, b) for a, b in vec]
    n = 2 * len(vec)
    edges = [(2 * i, 2 * i + 1) for i in range(len(vec))]
    start = [0.0] * n
    end = [vec[i // 2][i % 2] for i in range(n)]
    compare(np.array([start, end], float).T, S.real_w(n, edges, style), k, S.wmatrix(n, edges, style), [start, end], True)


def spaces(tier):
    deep = tier == "thorough"
    ks = list(range(1, 13)) + [16, 24, 36, 100]
    ks2 = list(range(1, 41)) + [48, 49, 60, 64, 72, 90, 97, 100, 128, 180, 200, 360, 365, 1000] + (list(range(41, 400)) if deep else [])
    path, tri = ((0, 1), (1, 2)), ((0, 1), (0, 2), (1, 2))
    cols = list(itertools.product((-1, 0, 2), repeat=3))
    c4 = list(itertools.product((0, 1), repeat=4))
    g4 = [((0, 1), (1, 2), (2, 3)), ((0, 1), (0, 2), (0, 3)), ((0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)), ((0, 1), (1, 2))]
    g3 = [path, tri, ((0, 1),), ()]
    return [
        product_space("n=3", [[(3, e, st, k) for e in g3[:(4 if deep else 2)] for st in "brd" for k in (ks if deep else (1, 2, 3, 4, 5, 7, 8, 12))]] + [cols, cols], run),
        product_space("n=3, islands", [[(3, e, "b", k) for e in g3[2:] for k in (1, 4, 6, 8)]] + [cols[::2], cols], run),
        product_space("n=4", [[(4, e, st, k) for e in g4 for st in "brd" for k in (1, 3, 4, 6, 8, 11)]] + [c4, c4], run),
        product_space("fine directions x sectors", [ks2, [1, 2, 3, 6], ["b", "d"] if deep else ["b"]], ring_run),
        product_space("next to the cuts", [[1, 2, 3, 4, 5, 7, 8, 12, 36], range(1, 9), [-900, -60, -20, 0, 20, 60, 400], ["b", "r"]], near_run,
                      note="distances from 1e-1 to 1e-8 sectors on both sides of every cut"),
        product_space("next to the axis x sectors", [range(1, 401 if deep else 131), ["b", "r"], [(9, 10, 11, 12), (13, 14, 15, 16), (17, 18, 20, 25), (30, 60, 150, 300)]], axis_run,
                      note="angles from 1e-9 to 1e-300 on both sides of the axis"),
        product_space("more periods", [[3], [4], [1, 4, 8, 9], ["b", "r"], list(itertools.product((-1, 0, 3), repeat=3)), [-2, 0, 5], [-2, 0, 5]], periods_run),
        product_space("integer panels", [[1, 4, 8, 9], ["int64", "int32", "int8", "float32"] + [d + "!" for d in BOUND], ["b", "r", "d"]] + [cols[::2], cols[1::2]], int_run),
    ]
