"""C10: derived results of Spatial_Markov."""
import itertools

import numpy as np
from giddy.markov import Spatial_Markov

from .. import stat
from ..chain import filled, mfpt, normalise, stationary
from ..core import Mismatch, product_space
from ..util import all_graphs, eq, need
from . import _spm as S
from .c04 import compare as cmp_steady

BINDING = ("all derived results are recomputed from the exact integer counts reported by the real "
           "object (which C09 ties to the panel) and compared, in every access order of the space")

ATTRS = ("s", "S", "f", "F", "chi2", "x2", "x2_pvalue", "x2_dof", "Q", "Q_p_value", "LR",
         "LR_p_value", "dof_hom", "shtest")


class Ref:
    def __init__(self, sm, fill):
        self.T = [[[int(x) for x in r] for r in M] for M in sm.T]
        self.tot = S.overall(self.T)
        self.k, self.m, self.fill = len(self.tot), len(self.T), fill
        self.P = [normalise(M, fill) for M in self.T]
        self.p = normalise(self.tot, fill)
        self.hom = stat.homog_ref(self.T)
        self.chi = [stat.chi2_ref(M, self.tot) for M in self.T]


def zero_rows(P):
    return any(not any(r) for r in P)


def refused(call, what):
    try:
        r = call()
    except ValueError:
        return
    raise Mismatch(f"{what} of a matrix with empty rows is {r!r} instead of being refused")


def check_attr(sm, ref, a):
    k, m = ref.k, ref.m
    if a == "s":
        if zero_rows(ref.p):
            return refused(lambda: sm.s, "s")
        cmp_steady(sm.s, ref.p, "s")
    elif a == "S":
        if any(zero_rows(P) for P in ref.P):
            return refused(lambda: sm.S, "S")
        need(len(sm.S) == m, f"S has {len(sm.S)} entries, expected {m}")
        for i in range(m):
            cmp_steady(np.asarray(sm.S[i], dtype=float), ref.P[i], f"S[{i}]")
    elif a == "f":
        if zero_rows(ref.p):
            return refused(lambda: sm.f, "f")
        eq(sm.f, [[float(x) for x in r] for r in mfpt(ref.p)], "f", 1e-7)
    elif a == "F":
        if any(zero_rows(P) for P in ref.P):
            return refused(lambda: sm.F, "F")
        need(len(sm.F) == m, f"F has {len(sm.F)} entries")
        for i in range(m):
            eq(sm.F[i], [[float(x) for x in r] for r in mfpt(ref.P[i])], f"F[{i}]", 1e-7)
    elif a == "chi2":
        need(len(sm.chi2) == m, f"chi2 has {len(sm.chi2)} entries, expected {m}")
        for i, (c, d) in enumerate(ref.chi):
            eq(sm.chi2[i][0], c, f"chi2[{i}] statistic")
            need(sm.chi2[i][2] == d, f"chi2[{i}] dof {sm.chi2[i][2]}, expected {d}")
            if d > 0:
                eq(sm.chi2[i][1], stat.tail(c, d), f"chi2[{i}] p-value")
    elif a == "x2":
        eq(sm.x2, sum(c for c, d in ref.chi), "x2")
    elif a == "x2_dof":
        need(sm.x2_dof == k * (k - 1) ** 2, f"x2_dof is {sm.x2_dof}")
    elif a == "x2_pvalue":
        if k > 1:
            eq(sm.x2_pvalue, stat.tail(sum(c for c, d in ref.chi), k * (k - 1) ** 2), "x2_pvalue")
    elif a == "Q":
        eq(sm.Q, ref.hom[0], "Q")
    elif a == "LR":
        eq(sm.LR, ref.hom[1], "LR")
    elif a == "dof_hom":
        need(sm.dof_hom == ref.hom[2], f"dof_hom is {sm.dof_hom}, expected {ref.hom[2]}")
    elif a in ("Q_p_value", "LR_p_value"):
        if ref.hom[2] > 0:
            eq(getattr(sm, a), stat.tail(ref.hom[0 if a[0] == "Q" else 1], ref.hom[2]), a)
    elif a == "shtest":
        if zero_rows(ref.p) or any(zero_rows(P) for P in ref.P):
            return
        s0 = stationary(ref.p)
        ss = [stationary(P) for P in ref.P]
        if len(s0) > 1 or any(len(x) > 1 for x in ss) or not all(s0[0][1]) or k == 1:
            return          # no common support: the multinomial statistic is undefined
        sh = sm.shtest
        need(len(sh) == m, f"shtest has {len(sh)} entries, expected {m}")
        for i in range(m):
            n = sum(map(sum, ref.T[i]))
            c = float(sum((n * a - n * b) ** 2 / (n * b) for a, b in zip(ss[i][0][1], s0[0][1]))) if n else 0.0
            eq(sh[i][0], c, f"shtest[{i}] statistic", 1e-8)
            need(sh[i][2] == k - 1, f"shtest[{i}] dof {sh[i][2]}")
            if k > 1:
                eq(sh[i][1], stat.tail(c, k - 1), f"shtest[{i}] p-value", 1e-8)


def make(n, edges, y, kw, fill):
    return Spatial_Markov(np.array(y), S.real_w(n, edges, "b"), fill_empty_classes=fill, **kw)


KW = [dict(cutoffs=[0.5], lag_cutoffs=[0.5]), dict(cutoffs=[0.5], lag_cutoffs=[0.0, 0.5, 1.0]),
      dict(cutoffs=[0.5, 1.5], lag_cutoffs=[1.5]), dict(cutoffs=[0.5, 1.5], lag_cutoffs=[0.5, 1.5, 2.5]),
      dict(k=2, m=3), dict(k=3, m=2, fixed=False)]


def run(s):
    (n, edges, kwi, fill), cols = s[0], s[1:]
    y = [[float(c[i]) for c in cols] for i in range(n)]
    kw = KW[kwi] if kwi is not None else dict(discrete=True)
    if kwi is None:
        y = [[int(v) for v in r] for r in y]
    sm = make(n, edges, y, kw, fill)
    ref = Ref(sm, fill)
    for a in ATTRS:
        check_attr(sm, ref, a)
    for a in reversed(ATTRS):
        check_attr(sm, ref, a)


BIGKW = [dict(k=5, m=5), dict(k=2, m=9), dict(k=6, m=2, fixed=False), dict(k=3, m=4, fixed=False), dict(cutoffs=[1.5, 4.0, 8.0], lag_cutoffs=[4.0]),
         dict(cutoffs=[5.0], lag_cutoffs=[2.0, 4.0, 6.0, 8.0, 9.0]), dict(cutoffs=[-1.0, 5.0, 99.0], lag_cutoffs=[3.0, 50.0]), dict(discrete=True),
         dict(k=1, m=3), dict(k=3, m=1)]


def big_run(s):
    """Larger panels: many transitions, classes and lag classes, sparse and dense, persistent and alternating."""
    n, t, kwi, fill, dt, style, mix = s
    kw = BIGKW[kwi]
    v = np.array([[(i * 7 + (q // (1 + mix * 3)) * 5 + (i * q * mix) % 4 + seed(i, q, mix)) % 11 for q in range(t)] for i in range(n)])
    if kw.get("discrete"):
        v = v % 4
    edges = tuple((i, i + 1) for i in range(n - 1)) + tuple((i, i + 5) for i in range(0, n - 5, 2))
    sm = Spatial_Markov(v.astype(dt), S.real_w(n, edges, style, ids=[f"u{(i * 7) % n}" for i in range(n)] if n % 7 else None), fill_empty_classes=fill, **kw)
    ref = Ref(sm, fill)
    need(sum(map(sum, ref.tot)) == n * (t - 1), f"conditional counts add up to {sum(map(sum, ref.tot))}, not {n * (t - 1)}")
    for a in ATTRS + ATTRS[::-1]:
        check_attr(sm, ref, a)


def seed(i, q, mix):
    return ((i + 1) * (q + 3) * (mix + 2) * 2654435761 % 2 ** 32) >> 29


CASES = [(4, ((0, 1), (1, 2), (2, 3)), [[0, 1, 0, 1, 2], [1, 1, 0, 2, 0], [2, 0, 1, 1, 1], [0, 2, 2, 0, 1]], KW[0], False),
         (4, ((0, 1), (1, 2), (2, 3), (0, 3)), [[0, 1, 2, 1, 2], [1, 1, 0, 2, 0], [2, 0, 1, 1, 1], [0, 2, 2, 0, 1]], KW[3], True),
         (3, ((0, 1), (1, 2)), [[0, 1, 2, 1], [1, 1, 0, 2], [2, 0, 1, 1]], KW[1], True)]


def order_run(s):
    case, order = s[0], s[1:]
    n, e, y, kw, fill = CASES[case]
    sm = make(n, e, np.array(y, float), kw, fill)
    ref = Ref(sm, fill)
    for a in order:
        check_attr(sm, ref, a)


def spaces(tier):
    deep = tier == "thorough"
    g3 = [((0, 1), (1, 2)), ((0, 1), (0, 2), (1, 2))] + ([((0, 1),)] if deep else [])
    cols = list(itertools.product(range(3), repeat=3))
    b3 = list(itertools.product(range(2), repeat=3))
    b4 = list(itertools.product(range(2), repeat=4))
    out = [
        product_space("n=3 t=2", [[(3, e, q, f) for e in g3 for q in range(len(KW)) for f in (False, True)]] + [cols] * 2, run),
        product_space("n=3 t=3 binary", [[(3, e, q, f) for e in g3[:2] for q in (0, 1) for f in (False, True)]] + [b3] * 3, run),
        product_space("n=3 t=4 binary", [[(3, g3[0], 0, True), (3, g3[1], 1, True)]] + ([b3] * 4 if deep else [b3[1:4], b3, b3, b3]), run),
        product_space("n=4 t=2 binary", [[(4, e, 0, f) for e in (((0, 1), (1, 2), (2, 3)), ((0, 1), (0, 2), (0, 3)))
                                          for f in (False, True)]] + [b4] * 2, run),
        product_space("n=2 t=4 binary", [[(2, ((0, 1),), q, f) for q in (0, 1) for f in (False, True)]] +
                      [list(itertools.product(range(2), repeat=2))] * 4, run),
        product_space("categorical n=3 t=2", [[(3, e, None, f) for e in g3 for f in (False, True)]] +
                      ([cols] * 2), run),
        product_space("larger panels", [[12, 31, 60] + ([150] if deep else []), [3, 14, 45] + ([200] if deep else []), range(len(BIGKW)), [False, True],
                                        ["float64", "int64", "float32", "uint8"], ["b", "r", "d"], range(3)], big_run),
        product_space("access orders", [range(len(CASES)), ATTRS, ATTRS] + ([ATTRS] if deep else []), order_run,
                      note="every sequence of two (thorough: three) attribute reads on fresh objects"),
    ]
    return out
