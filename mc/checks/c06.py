"""C06: variances of first passage times of irreducible chains."""
import numpy as np
from giddy import ergodic

from ..chain import var_mfpt
from ..core import Skip, product_space
from ..util import classes_of, eq, need, unchanged
from . import _mats as M

BINDING = ("second moments of first passage times are solved exactly for every irreducible matrix of "
           "the grid and compared with the real function (all storages and the deprecated alias)")


def run(s):
    P = M.dec(s)
    if len(classes_of(P)[0]) != 1 or not all(any(r) for r in P):
        raise Skip()
    V = [[float(x) for x in r] for r in var_mfpt(P)]
    for name, a in M.variants(P):
        keep = np.array(a, copy=True)
        got = ergodic.var_mfpt_ergodic(a)
        eq(got, V, f"var_mfpt_ergodic({name})", 1e-6)
        need((np.asarray(got) > -1e-6 * max(1.0, np.abs(V).max())).all(), "negative variance")
        eq(ergodic.var_fmpt_ergodic(a), V, f"var_fmpt_ergodic({name})", 1e-6)
        unchanged(keep, np.array(a), f"matrix ({name})")


def run_rare(s):
    """As run, with a tolerance relative to the largest variance of a destination."""
    P = M.dec(s)
    if len(classes_of(P)[0]) != 1:
        raise Skip()
    V = np.array([[float(x) for x in r] for r in var_mfpt(P)])
    scale = np.maximum(1.0, V.max(axis=0))
    for name, a in M.variants(P):
        got = np.asarray(ergodic.var_mfpt_ergodic(a))
        need(got.shape == V.shape, f"shape {got.shape}")
        need(bool((np.abs(got - V) <= 1e-8 * scale).all()),
             f"var_mfpt_ergodic({name}): got {got.tolist()!r}, expected {V.tolist()!r}")


def structured(s):
    kind, k = s
    from fractions import Fraction as F
    P = [[F(0)] * k for _ in range(k)]
    for i in range(k):
        if kind == "cycle":
            P[i][(i + 1) % k] += 1
        elif kind == "lazy":
            P[i][i] += F(1, 3)
            P[i][(i + 1) % k] += F(2, 3)
        elif kind == "walk":
            P[i][max(i - 1, 0)] += F(1, 2)
            P[i][min(i + 1, k - 1)] += F(1, 2)
        elif kind == "reflect":
            if k == 1:
                P[i][i] += 1
            else:
                P[i][i - 1 if i else 1] += F(1, 2)
                P[i][i + 1 if i < k - 1 else k - 2] += F(1, 2)
        elif kind == "uniform":
            for j in range(k):
                P[i][j] += F(1, k)
        elif kind == "restart":
            P[i][0] += F(1, 2)
            P[i][(i + 1) % k] += F(1, 2)
    run(M.enc(P))


def spaces(tier):
    deep = tier == "thorough"
    out = [product_space("irreducible 1x1", [M.enc(M.grid(1, [1], zero=False))], run)]
    g2 = M.enc(M.grid(2, range(1, 21 if deep else 13), zero=False))
    out.append(product_space("irreducible 2x2", [g2] * 2, run))
    g3 = M.enc(M.grid(3, [1, 2, 3, 4] + ([5, 6] if deep else []), zero=False))
    out.append(product_space("irreducible 3x3", [g3] * 3, run, note=f"{len(g3)} rows"))
    r3 = M.enc(M.grid(3, [1, 2], zero=False, extra=M.rare(3, 10 ** 4) + M.rare(3, 10 ** 6)))
    out.append(product_space("irreducible 2x2 with rare moves",
                             [M.enc(M.grid(2, [1, 2, 3], zero=False, extra=M.rare(2) + M.rare(2, 1000)))] * 2, run_rare))
    out.append(product_space("irreducible 3x3 with rare moves", [r3] * 3, run_rare,
                             note="moves with probability 1e-4 and 1e-6, combined in every way"))
    g4 = M.enc(M.supports(4, zero=False))
    out.append(product_space("irreducible supports 4x4", [g4] * 4 if deep else [g4[::2], g4, g4, g4[1::2]], run))
    out.append(product_space("structured chains",
                             [["cycle", "lazy", "walk", "reflect", "uniform", "restart"],
                              [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16] + ([20, 25] if deep else [])], structured))
    return out
