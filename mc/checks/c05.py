"""C05: mean first passage times."""
import itertools

import numpy as np
from giddy import ergodic
from giddy.ergodic import mfpt
from giddy.markov import Markov

from ..chain import filled, mfpt as ref_mfpt, normalise
from ..core import Mismatch, product_space
from ..util import classes_of, eq, need, unchanged
from . import _mats as M

BINDING = ("the model decides by reachability which passage times are finite and solves the "
           "first-step equations exactly; every matrix of the grid is given to the real functions")


def want(P):
    return [[float(x) for x in r] for r in ref_mfpt(P)]


def rel(got, W, what, tol=1e-7):
    """Long passage times of reducible chains amplify the rounding of the given probabilities."""
    got = np.asarray(got, dtype=float)
    w = np.asarray(W)
    if not np.isfinite(w).all():
        tol = max(tol, 1e-15 * w[np.isfinite(w)].max(initial=0))
    eq(got, W, what, tol)


def run_matrix(s):
    P = M.dec(s)
    zero = any(not any(r) for r in P)
    W = want(filled(P))
    for name, a in M.variants(P):
        keep = np.array(a, copy=True)
        if zero:
            for call in (lambda: mfpt(a), lambda: mfpt(a, fill_empty_classes=False), lambda: mfpt(a, False),
                         lambda: ergodic.fmpt(a), lambda: ergodic.fmpt(a, fill_empty_classes=False)):
                try:
                    r = call()
                except ValueError:
                    continue
                raise Mismatch(f"matrix with zero rows was accepted ({name}): {r!r}")
        else:
            rel(mfpt(a), W, f"mfpt({name})")
        rel(mfpt(a, fill_empty_classes=True), W, f"mfpt({name}, fill)")
        unchanged(keep, np.array(a), f"matrix ({name})")
    a = M.as_float(P)
    rel(ergodic.fmpt(a, True), W, "fmpt")
    rel(ergodic.fmpt(P=a, fill_empty_classes=True), W, "fmpt")
    if not zero:
        rel(ergodic.fmpt(a), W, "fmpt")
        if len(classes_of(P)[0]) == 1:
            rel(ergodic._mfpt_ergodic(a), W, "_mfpt_ergodic")
            rel(ergodic._fmpt_ergodic(a), W, "_fmpt_ergodic")


def run_counts(T):
    k = len(T)
    rows = [(i, j) for i in range(k) for j in range(k) for _ in range(T[i][j])]
    if not rows:
        return
    for fill in (False, True):
        m = Markov(np.array(rows), classes=np.arange(k), fill_empty_classes=fill, summary=False)
        W = want(filled(normalise(T, fill)))
        rel(m.mfpt, W, "Markov.mfpt")
        rel(m.mfpt, W, "Markov.mfpt (second reading)")


def run_blocks(s):
    run_matrix(M.enc(M.blocks(s)))


def run_larger(s):
    run_matrix(M.enc(M.larger(*s)))


def spaces(tier):
    deep = tier == "thorough"
    out = []
    out.append(product_space("stochastic 1x1", [M.enc(M.grid(1, [1]))], run_matrix))
    g2 = M.enc(M.grid(2, range(1, 11), extra=M.rare(2)))
    out.append(product_space("stochastic 2x2", [g2] * 2, run_matrix, note="denominators 1..10, rare moves, zero rows"))
    g3 = M.enc(M.grid(3, [1, 2] + ([3, 4] if deep else [3]), extra=M.rare(3)))
    out.append(product_space("stochastic 3x3", [g3] * 3, run_matrix, note=f"{len(g3)} rows"))
    e4 = M.enc(M.grid(3, [1, 2], zero=False, extra=M.rare(3, 10 ** 4) + M.rare(3, 10 ** 6) + M.leave(3, 10 ** 4)))
    out.append(product_space("rare moves 3x3", [e4] * 3, run_matrix,
                             note="moves with probability 1e-4 and 1e-6, combined in every way"))
    r5 = M.enc(M.rare(5, 1000))
    out.append(product_space("rare moves 5x5", [r5[:4], r5[4:8], r5[8:12], r5[12:16], r5[16:]], run_matrix))
    g4 = M.enc(M.supports(4))
    out.append(product_space("supports 4x4", [g4] * 4 if deep else
                             [g4[:-1][::3] + g4[-1:], g4[::2], g4, g4[1::3]], run_matrix,
                             note="uniform rows over every support"))
    for nb in (2, 3, 4):
        dom = [(f, l) for f in ("L1", "C2", "U2", "C3") for l in [None] + list(range(nb))]
        if nb == 4 and not deep:
            dom = [(f, l) for f in ("L1", "C2") for l in (None, 0, 3)]
        elif nb == 3 and not deep:
            dom = [(f, l) for f in ("L1", "C2", "U2") for l in (None, 0, 2)]
        out.append(product_space(f"{nb} blocks", [dom] * nb, run_blocks,
                                 note="chains of closed / leaking / periodic blocks, up to 12 states"))
    out.append(product_space("larger chains", [M.LARGER, [10, 18, 33] + ([48] if deep else []), M.ORDERS], run_larger,
                             note="long ways through many states"))
    for k, ent in ((2, (0, 1, 2, 49)), (3, (0, 1))):
        rows = list(itertools.product(ent, repeat=k))
        out.append(product_space(f"estimated chains k={k}", [rows] * k, run_counts))
    return out
