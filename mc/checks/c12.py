"""C12: homogeneity tests."""
import itertools

import numpy as np
from giddy.markov import Homogeneity_Results, homogeneity

from .. import stat
from ..core import Skip, product_space
from ..util import eq, need, unchanged

BINDING = "Q, LR and degrees of freedom are recomputed from their definitions for every tuple of count matrices"


def check(h, Ms, what=""):
    Q, LR, dof, p0, p1, tot = stat.homog_ref(Ms)
    eq(h.Q, Q, what + "Q")
    eq(h.LR, LR, what + "LR")
    need(h.dof == dof, f"{what}dof is {h.dof}, expected {dof}")
    eq(h.p_h0, p0, what + "p_h0")
    eq(h.p_h1, p1, what + "p_h1")
    if dof > 0:
        eq(h.Q_p_value, stat.tail(Q, dof), what + "Q_p_value")
        eq(h.LR_p_value, stat.tail(LR, dof), what + "LR_p_value")
    eq(h.t_total, tot, what + "t_total")
    return Q, LR


def run(Ms):
    Ms = [[list(r) for r in M] for M in Ms]
    a = np.array(Ms, dtype=float)
    for name, v in (("float", a), ("int", a.astype(int)), ("list", Ms), ("int16", a.astype(np.int16)),
                    ("list of arrays", [np.array(M) for M in Ms])):
        keep = np.array(v, copy=True)
        check(homogeneity(v), Ms, f"{name}: ")
        unchanged(keep, np.array(v), "counts")


def rows_run(s):
    """Matrices given row by row: s = rows of regime 0, rows of regime 1, ..."""
    r = RK[0]
    run([s[i:i + r] for i in range(0, len(s), r)])


RK = [2]


def symmetry_run(s):
    Ms, perm, rperm = s
    Ms = [[list(r) for r in M] for M in Ms]
    base = homogeneity(np.array(Ms, float))
    k = len(Ms[0])
    Mp = [Ms[i] for i in rperm]
    Mp = [[[M[perm[i]][perm[j]] for j in range(k)] for i in range(k)] for M in Mp]
    h = homogeneity(np.array(Mp, float))
    for a in ("Q", "LR", "dof"):
        eq(getattr(h, a), getattr(base, a), f"{a} after relabelling")
    if h.dof > 0:
        eq(h.Q_p_value, base.Q_p_value, "Q_p_value after relabelling")


def identical_run(s):
    M, mult = s
    Ms = [[[x * f for x in r] for r in M] for f in mult]
    h = homogeneity(np.array(Ms))
    need(abs(h.Q) < 1e-9 and abs(h.LR) < 1e-9, f"equal probabilities give Q={h.Q}, LR={h.LR}")
    run(Ms)


def spaces(tier):
    deep = tier == "thorough"
    out = []
    m22 = [tuple(zip(*[iter(t)] * 2)) for t in itertools.product(range(3), repeat=4)]
    b22 = [tuple(zip(*[iter(t)] * 2)) for t in itertools.product(range(2), repeat=4)]
    out.append(product_space("2 regimes 2x2, counts 0..2", [m22] * 2, run))
    out.append(product_space("3 regimes 2x2, counts 0..1", [b22] * 3, run))
    r3 = [(0, 0, 0), (1, 0, 0), (0, 2, 1), (3, 1, 1)] + ([(0, 0, 4), (1, 1, 0)] if deep else [])
    m3 = list(itertools.product(r3, repeat=3))
    out.append(product_space("2 regimes 3x3", [m3] * 2, run, note=f"all matrices over {len(r3)} rows"))
    m23 = list(itertools.product([(0, 0, 0), (1, 0, 2), (0, 1, 0), (2, 2, 1)], repeat=2))
    out.append(product_space("2 regimes 2x3 (rectangular)", [m23] * 2, run))
    out.append(product_space("1 regime", [m22 + m3], lambda s: run([s[0]])))
    big = [tuple(map(tuple, M)) for M in ([[1000, 1], [3, 70000]], [[0, 0], [500, 1]], [[40000, 40000], [0, 0]],
                                           [[32767, 2], [9, 1]])]
    out.append(product_space("large counts", [big] * 3, lambda s: run_big(s)))
    out.append(product_space("relabelling 3x3", [[(a, b) for a in m3[3::5] for b in m3[1::7]],
                                                  list(itertools.permutations(range(3))), [(0, 1), (1, 0)]], symmetry_run))
    out.append(product_space("relabelling 3 regimes", [[(a, b, c) for a in b22[1::3] for b in b22[::4] for c in b22[2::5]],
                                                        [(0, 1), (1, 0)], list(itertools.permutations(range(3)))], symmetry_run))
    out.append(product_space("identical probabilities", [m22 + m3[::2], [(1, 1), (1, 3), (2, 7, 49)]], identical_run))
    ks = [(m, k) for m in (2, 5, 12) for k in (4, 9, 11, 15)]

    def run_size(s):
        (m, k), a = s
        run([[[(i * 7 + j * a + r * 3) % 5 * (1 if (i + r) % 4 else 0) for j in range(k)] for i in range(k)] for r in range(m)])
    def wide_run(s):
        m, k, kind, zero = s
        run_kinds([[[(i * 7 + j * 3 + r * 5 + i * j * r) % 6 * (0 if (i * j + r) % 7 == zero else 1) * (1 if (i + 2 * r) % 5 else 0)
                     for j in range(k)] for i in range(k)] for r in range(m)], kind)
    out.append(product_space("many regimes and classes", [[1, 2, 3, 16, 40, 130, 260], [1, 2, 3, 12, 30], list(KINDS), [0, 3]], wide_run))
    rare = [1, 2, 10 ** 3, 10 ** 5, 10 ** 6]
    out.append(product_space("rare moves", [rare, rare, rare, [0] + rare, list(KINDS)], lambda s: run_kinds([[[s[0], s[1]], [1, 3]], [[s[2], s[3]], [0, 2]]], s[4])))
    out.append(product_space("fractional counts", [list(itertools.product((0, 1, 3, 6), repeat=4))[1::3], list(itertools.product((0, 1, 5), repeat=4))[1::2], [2, 8, 1000]], fraction_run))
    out.append(product_space("larger shapes", [ks, [1, 2, 3]], run_size))
    return out


def run_big(Ms):
    Ms = [[list(r) for r in M] for M in Ms]
    a = np.array(Ms, dtype=float)
    for v in (a, a.astype(int), a.astype(np.int32), Ms):
        check(homogeneity(v), Ms)


KINDS = {"float": lambda M: np.array(M, float), "int": lambda M: np.array(M, np.int64), "uint8": lambda M: np.array(M, np.uint8), "int8": lambda M: np.array(M, np.int8),
         "int32": lambda M: np.array(M, np.int32), "float32": lambda M: np.array(M, np.float32), "F": lambda M: np.asfortranarray(np.array(M, float)),
         "view": lambda M: np.repeat(np.array(M, float), 2, axis=0)[::2], "tuples": lambda M: tuple(tuple(map(tuple, x)) for x in M),
         "mixed": lambda M: [np.array(x, int if i % 2 else float) for i, x in enumerate(M)], "readonly": lambda M: ro(np.array(M, float))}


def ro(a):
    a.setflags(write=False)
    return a


def run_kinds(Ms, kind):
    top = max(x for M in Ms for r in M for x in r)
    if top > {"uint8": 255, "int8": 127, "int32": 2 ** 31 - 1, "float32": 2 ** 24}.get(kind, 2 ** 53):
        raise Skip()
    v = KINDS[kind](Ms)
    keep = np.array(v, copy=True)
    check(homogeneity(v), Ms, f"{kind}: ")
    unchanged(keep, np.array(v), "counts")


def fraction_run(s):
    a, b, den = s
    Ms = [[[x / den for x in M[:2]], [x / den for x in M[2:]]] for M in (a, b)]
    check(homogeneity(np.array(Ms)), Ms, "fractions: ")
