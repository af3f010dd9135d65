"""C13: chi-square and Kullback comparisons."""
import itertools

import numpy as np
from giddy.markov import chi2, kullback

from .. import stat
from ..core import Skip, product_space
from ..util import eq, need, unchanged

BINDING = "both statistics are recomputed from their definitions for every tuple of count matrices of the space"
ASSUMPTIONS = ["pairs in which an observed move is impossible under the second matrix are out of scope of chi2"]


def chi_run(s):
    T1, T2 = s
    ref = stat.chi2_ref(T1, T2)
    if ref is None:
        raise Skip()
    for dt in (float, int, np.int16 if max(x for M in s for r in M for x in r) < 2 ** 15 else np.int32):
        a, b = np.array(T1, dtype=dt), np.array(T2, dtype=dt)
        ka, kb = a.copy(), b.copy()
        st, p, dof = chi2(a, b)
        eq(st, ref[0], f"chi2 statistic ({dt.__name__})")
        need(dof == ref[1], f"dof is {dof}, expected {ref[1]}")
        if ref[1] > 0:
            eq(p, stat.tail(*ref), "p-value")
        unchanged(ka, a, "T1")
        unchanged(kb, b, "T2")


def kl_check(a, Fs, tol=1e-8):
    keep = a.copy()
    r = kullback(a)
    c, dof = stat.kullback_ref(Fs)
    g = r["Conditional homogeneity"]
    eq(g, c, "Kullback statistic", tol)
    need(g > -10 * tol, f"negative statistic {g}")
    need(r["Conditional homogeneity dof"] == dof, f"dof {r['Conditional homogeneity dof']}, expected {dof}")
    if dof > 0:
        eq(r["Conditional homogeneity pvalue"], stat.tail(max(c, 0), dof), "p-value", 10 * tol)
    unchanged(keep, a, "F")
    return g


def kl_run(Fs):
    Fs = [[list(r) for r in M] for M in Fs]
    if not sum(x for M in Fs for r in M for x in r):
        raise Skip()
    kl_check(np.array(Fs, float), Fs)
    kl_check(np.array(Fs, int), Fs)


def kl_sym(s):
    Fs, perm, sp = s
    k = len(Fs[0])
    if not sum(x for M in Fs for r in M for x in r):
        raise Skip()
    base = kullback(np.array(Fs, float))["Conditional homogeneity"]
    G = [[[Fs[q][perm[i]][perm[j]] for j in range(k)] for i in range(k)] for q in sp]
    eq(kullback(np.array(G, float))["Conditional homogeneity"], base, "Kullback after relabelling", 1e-8)


def kl_same(s):
    M, mult = s
    if not sum(map(sum, M)):
        raise Skip()
    Fs = [[[x * f for x in r] for r in M] for f in mult]
    g = kl_check(np.array(Fs, float), Fs)
    need(abs(g) < 1e-6, f"equal strata give {g}")


KINDS = {"float": np.float64, "int": np.int64, "uint8": np.uint8, "int8": np.int8, "int16": np.int16, "uint64": np.uint64, "float32": np.float32}


def pattern(k, a, top=9):
    return [[((i * 7 + j * (a + 2) + i * j * a) % top) * ((i * 3 + j + a) % 4 > 0) * ((i + a) % 6 > 0) for j in range(k)] for i in range(k)]


def kind_run(s):
    k, a, kind = s
    T1 = pattern(k, a, 30)
    T2 = [[x + y + (1 if (i + j) % 3 else 0) for j, (x, y) in enumerate(zip(u, v))] for i, (u, v) in enumerate(zip(T1, pattern(k, a + 1, 90)))]
    for M1, M2 in ((T1, T2), (T2, T1), (T1, T1)):
        ref = stat.chi2_ref(M1, M2)
        if ref is None:
            continue
        A, B = np.array(M1, KINDS[kind]), np.array(M2, KINDS[kind])
        for u, v in ((A, B), (np.asfortranarray(A), np.repeat(B, 2, axis=1)[:, ::2]), (A, B.astype(float))):
            ku, kv = u.copy(), v.copy()
            st, p, dof = chi2(u, v)
            tol = 1e-4 if kind == "float32" else 1e-9
            eq(st, ref[0], f"chi2 statistic ({kind})", tol)
            need(dof == ref[1], f"dof is {dof}, expected {ref[1]}")
            if ref[1] > 0:
                eq(p, stat.tail(*ref), "p-value", tol)
            unchanged(ku, u, "T1")
            unchanged(kv, v, "T2")


def strata_run(s):
    k, m, kind = s
    Fs = [pattern(k, q % 11, 40) for q in range(m)]
    if not sum(x for M in Fs for r in M for x in r):
        raise Skip()
    kl_check(np.array(Fs, KINDS[kind]), Fs, 1e-8)


def spaces(tier):
    deep = tier == "thorough"
    m22 = [tuple(zip(*[iter(t)] * 2)) for t in itertools.product(range(5 if deep else 4), repeat=4)]
    b22 = [tuple(zip(*[iter(t)] * 2)) for t in itertools.product(range(3 if deep else 2), repeat=4)]
    r3 = [(0, 0, 0), (1, 0, 0), (0, 2, 1), (3, 1, 1), (0, 5, 0)] + ([(1, 1, 0)] if deep else [])
    m3 = list(itertools.product(r3, repeat=3))
    big = [((1000, 1), (3, 20000)), ((0, 0), (500, 1)), ((16000, 16000), (0, 0)), ((32767, 2), (9, 1))]
    ks = [1, 2, 3, 5, 11, 15]

    def size(s):
        k, a, b = s
        T2 = [[(i * 3 + j * a) % 7 + 1 for j in range(k)] for i in range(k)]
        T1 = [[(i * b + j) % 5 * (i % 3 > 0) for j in range(k)] for i in range(k)]
        chi_run((T1, T2))
        kl_run([T1, T2, [[x + y for x, y in zip(u, v)] for u, v in zip(T1, T2)]])
    rare = [1, 3, 10 ** 3, 3 * 10 ** 4]
    return [
        product_space("rare moves", [rare, rare, rare, [0] + rare], lambda s: (chi_run((((1, 3), (2, 0)), (s[:2], s[2:]))), kl_run([(s[:2], s[2:]), ((1, 3), (2, 0))]), None)[2]),
        product_space("kinds of arrays", [[1, 2, 3, 8, 30], range(6), list(KINDS)], kind_run),
        product_space("many strata", [[1, 2, 4, 16], [2, 7, 40, 130, 300], list(KINDS)], strata_run),
        product_space("chi2 2x2", [m22] * 2, chi_run),
        product_space("chi2 3x3", [m3] * 2 if deep else [m3, m3], chi_run),
        product_space("chi2 large counts", [big] * 2, chi_run),
        product_space("kullback 2 strata 2x2", [m22] * 2, kl_run),
        product_space("kullback 3 strata 2x2", [b22] * 3, kl_run),
        product_space("kullback 2 strata 3x3", [m3] * 2, kl_run),
        product_space("kullback 1 stratum", [m22 + m3], kl_run),
        product_space("kullback large counts", [big] * 2, kl_run),
        product_space("kullback relabelling", [[(a, b) for a in m3[3::5] for b in m3[1::7]],
                                               list(itertools.permutations(range(3))), [(0, 1), (1, 0)]], kl_sym),
        product_space("kullback equal strata", [m22 + m3[::2], [(1, 1), (1, 3), (2, 7, 49)]], kl_same),
        product_space("larger shapes", [ks, [1, 2, 3], [1, 2]], size),
    ]
