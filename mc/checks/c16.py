"""C16: LISA Markov test of independence of own and neighbours' moves."""
import itertools
from fractions import Fraction as F

import numpy as np
from giddy.markov import LISA_Markov

from .. import stat
from ..chain import normalise
from ..core import Known, Skip, product_space
from ..util import laid_out, all_graphs, eq, graphs_upto_iso, make_w, need, neighbours, no_isolates, unchanged
from . import _lisa as L

BINDING = ("marginal chains, expected counts and the chi-square comparison are recomputed exactly from the "
           "panel, and compared with every real result")
ASSUMPTIONS = ["panels in which some value equals an average up to rounding only are out of scope",
               "finding lisa-expected-legacy: expected counts equal to those of the pinned legacy formula are "
               "reported as the known finding, any other deviation is a violation"]


def two_state(rows):
    """Transition probabilities of the two-state chain over rows (False, True)."""
    T = [[0, 0], [0, 0]]
    for r in rows:
        for a, b in zip(r, r[1:]):
            T[int(a)][int(b)] += 1
    return normalise(T, False)


# quadrant -> (own below average, neighbours below average)
STATE = {1: (0, 0), 2: (1, 0), 3: (1, 1), 4: (0, 1)}


def expected(counts, own, lag, geo):
    out = [[0] * 4 for _ in range(4)]
    for a in range(1, 5):
        for b in range(1, 5):
            qa, qb = (L.SWAP[a], L.SWAP[b]) if geo else (a, b)
            p = own[STATE[qa][0]][STATE[qb][0]] * lag[STATE[qa][1]][STATE[qb][1]]
            out[a - 1][b - 1] = sum(counts[a - 1]) * p
    return out


def less(v, m, exactv=True):
    if v == m and not exactv:
        raise Skip()
    return v < m


def run(s):
    (n, edges), cols = s[0], s[1:]
    judge(n, edges, cols, lambda: (laid_out(cols, float), make_w(n, edges)))


def judge(n, edges, cols, data, wts=None):
    t = len(cols)
    nb = neighbours(n, edges)
    y = [[F(c[i]) for c in cols] for i in range(n)]
    if wts is None:
        lag = [[sum(y[j][a] for j in nb[i]) / len(nb[i]) for a in range(t)] for i in range(n)]
    else:
        ws = [[F(wts[min(i, j), max(i, j)]) for j in nb[i]] for i in range(n)]
        lag = [[sum(v * y[j][a] for v, j in zip(ws[i], nb[i])) / sum(ws[i]) for a in range(t)] for i in range(n)]
    ex = [wts is None and len(nb[i]) in (1, 2, 4) for i in range(n)]
    mean = [sum(y[i][a] for i in range(n)) / n for a in range(t)]
    umean = [sum(y[i]) / t for i in range(n)]
    own = two_state([[less(y[i][a], mean[a]) for a in range(t)] for i in range(n)])
    lg = two_state([[less(lag[i][a], mean[a], ex[i] and (n & (n - 1)) == 0) for a in range(t)] for i in range(n)])
    # the formula pinned by the existing tests: chains run over the units of the transposed panel
    own_l = two_state([[less(y[i][a], umean[i]) for i in range(n)] for a in range(t)])
    lag_l = two_state([[less(lag[i][a], umean[i], ex[i]) for i in range(n)] for a in range(t)])
    known = False
    for geo in (False, True):
        yy, w = data()
        keep = yy.copy()
        lm = LISA_Markov(yy, w, geoda_quads=geo)
        unchanged(keep, yy, "y")
        counts = [[int(x) for x in r] for r in lm.transitions]
        need(sum(map(sum, counts)) == n * (t - 1), "observed counts")
        good = expected(counts, own, lg, geo)
        legacy = expected(counts, own_l, lag_l, geo)
        got = np.asarray(lm.expected_t, float)
        fl = [[float(x) for x in r] for r in good]
        fle = [[float(x) for x in r] for r in legacy]
        if got.shape == (4, 4) and np.allclose(got, fl, atol=1e-9, rtol=1e-9):
            ref = good
        elif got.shape == (4, 4) and np.allclose(got, fle, atol=1e-9, rtol=1e-9):
            ref, known = legacy, True
        else:
            eq(got, fl, f"expected_t (geoda={geo})")
        c = stat.chi2_ref(counts, ref)
        if c is not None:
            eq(lm.chi_2[0], c[0], f"chi_2 statistic (geoda={geo})", 1e-7)
            need(lm.chi_2[2] == c[1], f"chi_2 dof {lm.chi_2[2]}, expected {c[1]}")
            if c[1] > 0:
                eq(lm.chi_2[1], stat.tail(*c), f"chi_2 p-value (geoda={geo})", 1e-7)
        if geo:
            sw = [0, 2, 1, 3]
            eq(got[np.ix_(sw, sw)], first, "expected counts in the other numbering")
            if c is not None:
                eq(lm.chi_2[0], fchi, "chi_2 in the other numbering", 1e-7)
        first, fchi = got, lm.chi_2[0]
    if known:
        raise Known("lisa-expected-legacy", "expected_t follows chains over the units of the transposed panel")


STORE = {"float": float, "int": np.int64, "uint8": np.uint8, "int16": np.int16, "float32": np.float32}


def grid_run(s):
    """Larger panels on grids: weights, unit names, storage, persistent and alternating values."""
    rows, t, m, store, style = s
    n = rows * rows
    shift = {"n": -200, "z": -27}.get(style, 0)
    edges = [(i, i + 1) for i in range(n) if i % rows != rows - 1] + [(i, i + rows) for i in range(n - rows)]
    cols = [tuple((i * i * (m + 1) + (i + a // (1 + m % 3)) * (7 + a % 3) + (a * m) ** 2) % 53 + 1 + 60 * (m == 3) * ((i // 3) % 2) + shift for i in range(n)) for a in range(t)]
    ids = [f"u{(i * 7 + 3) % n}x" for i in range(n)] if n % 7 and style != "b" else None
    wts = {e: 1 + (q % 5) * 2 for q, e in enumerate(edges)} if style == "d" else None

    def data():
        w = make_w(n, edges, ids=ids, weights={e: float(v) for e, v in wts.items()} if wts else None, transform="r" if style == "r" else None)
        return laid_out(cols, STORE[store]), w
    judge(n, edges, cols, data, wts)


def unit_run(s):
    """The same panel in another unit of measurement."""
    (n, edges), e, *cols = s
    judge(n, edges, cols, lambda: (laid_out(cols, float) * 2.0 ** e, make_w(n, edges)))


def spaces(tier):
    deep = tier == "thorough"
    g3 = [(3, e) for e in all_graphs(3) if no_isolates(3, e)]
    c3 = [c for c in itertools.product((1, 2, 3), repeat=3) if len(set(c)) > 1]
    g4 = [(4, e) for e in graphs_upto_iso(4)]
    c4 = [c for c in itertools.product((1, 2, 4), repeat=4) if len(set(c)) > 1]
    b4 = [c for c in itertools.product((1, 2), repeat=4) if len(set(c)) > 1]
    g5 = [(5, e) for e in graphs_upto_iso(5)]
    c5 = [(1, 2, 3, 4, 5), (5, 1, 4, 2, 2), (3, 3, 1, 9, 1), (2, 1, 7, 8, 1), (1, 1, 1, 1, 2)]
    s3 = [c for c in itertools.product((-2, 0, 1), repeat=3) if len(set(c)) > 1]
    s4 = [c for c in itertools.product((-3, -1, 4), repeat=4) if len(set(c)) > 1]
    m4 = [tuple(v - 6 for v in c) for c in c4]
    return [
        product_space("n=3 t=2", [g3] + [c3] * 2, run),
        product_space("n=3 t=2, negative and zero averages", [g3] + [s3] * 2, run),
        product_space("n=3 t=3, negative and zero averages", [g3] + ([s3] * 3 if deep else [s3[::5], s3[1::3], s3]), run),
        product_space("n=4 t=2, negative and zero averages", [g4] + ([s4] * 2 if deep else [s4[::7], s4]), run),
        product_space("n=4 t=2, all negative", [g4] + ([m4] * 2 if deep else [m4[::7], m4]), run),
        product_space("n=3 t=3, units of measurement", [g3, [-60, -33, -20, 20, 45]] + ([c3[::2], c3, c3] if deep else [c3[::5], c3[1::5], c3[::2]]), unit_run,
                      note="values multiplied by powers of two from 2**-60 to 2**45"),
        product_space("grids with negative values", [[4, 5, 9], [2, 3, 12], range(4), ["float", "int", "int16", "float32"], ["b", "n", "z"]], grid_run),
        product_space("n=3 t=3", [g3] + ([c3] * 3 if deep else [c3[::5], c3[::2], c3]), run),
        product_space("n=4 t=2", [g4] + ([c4] * 2 if deep else [c4[::5], c4]), run),
        product_space("n=4 t=3 binary", [g4] + [b4] * 3 if deep else [g4[::2]] + [b4[::3], b4, b4], run),
        product_space("grids", [[4, 5, 9] + ([15, 20] if deep else [12]), [2, 3, 12] + ([60] if deep else [25]), range(4), list(STORE), ["b", "r", "d"]], grid_run),
        product_space("n=5 t=3", [g5] + [c5] * (3 if deep else 2), run),
    ]
