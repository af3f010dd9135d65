"""C04: steady states."""
import itertools

import numpy as np
from giddy.ergodic import steady_state
from giddy.markov import Markov

from ..chain import filled, normalise, stationary
from ..core import Mismatch, product_space
from ..util import classes_of, eq, need, unchanged
from . import _mats as M

BINDING = ("stationary distributions are solved exactly (rational arithmetic, one per closed class) "
           "for every matrix of the grid and compared with the real function and object")
ASSUMPTIONS = ["quantecon's stationary distributions are trusted only as far as compared"]


def compare(got, P, what, tol=1e-9):
    k = len(P)
    ref = stationary(P)
    got = np.asarray(got)
    if len(ref) == 1:
        need(got.shape == (k,), f"{what}: one recurrent class but shape {got.shape}")
        got = got.reshape(1, k)
    else:
        need(got.shape == (len(ref), k), f"{what}: {len(ref)} recurrent classes but shape {got.shape}")
    left = list(ref)
    for row in got:
        sup = tuple(i for i in range(k) if row[i] > 0)
        hit = [r for r in left if r[0] == sup]
        need(len(hit) == 1, f"{what}: row {row.tolist()} is positive on {sup}, "
                            f"recurrent classes are {[r[0] for r in ref]}")
        left.remove(hit[0])
        ex = [float(x) for x in hit[0][1]]
        eq(row, ex, what, tol)
        need(all(abs(a - b) <= 1e-6 * b for a, b in zip(row.tolist(), ex)), f"{what}: {row.tolist()}, expected {ex} (small probabilities)")
        for i in range(k):
            need(i in sup or row[i] == 0, f"{what}: non-zero outside the class")


def run_matrix(s):
    P = M.dec(s)
    zero = any(not any(r) for r in P)
    for name, a in M.variants(P):
        keep = np.array(a, copy=True)
        if zero:
            try:
                r = steady_state(a)
            except ValueError:
                pass
            else:
                raise Mismatch(f"matrix with zero rows was accepted ({name}): {r!r}")
            try:
                steady_state(a, fill_empty_classes=False)
                raise Mismatch("matrix with zero rows was accepted")
            except ValueError:
                pass
        else:
            compare(steady_state(a), P, f"steady_state({name})")
        compare(steady_state(a, fill_empty_classes=True), M.dec(s) if not zero else filled(P),
                f"steady_state({name}, fill)")
        unchanged(keep, np.array(a), f"matrix ({name})")


def run_counts(T):
    k = len(T)
    rows = [(i, j) for i in range(k) for j in range(k) for _ in range(T[i][j])]
    if not rows:
        return
    for fill in (False, True):
        m = Markov(np.array(rows), classes=np.arange(k), fill_empty_classes=fill, summary=False)
        P = filled(normalise(T, fill))
        compare(m.steady_state, P, "Markov.steady_state")
        compare(m.steady_state, P, "Markov.steady_state (second reading)")
        compare(steady_state(m.p, fill_empty_classes=True), P, "steady_state(Markov.p)")


def run_blocks(s):
    run_matrix(M.enc(M.blocks(s)))


def run_larger(s):
    run_matrix(M.enc(M.larger(*s)))


def block_domain(nb, leaks):
    forms = ("L1", "C2", "U2", "C3")
    return [(f, l) for f in forms for l in leaks]


def spaces(tier):
    deep = tier == "thorough"
    out = []
    out.append(product_space("stochastic 1x1", [M.enc(M.grid(1, [1]))], run_matrix))
    g2 = M.enc(M.grid(2, range(1, 11), extra=M.rare(2) + M.rare(2, 2 ** 45) + M.rare(2, 2 ** 70)))
    out.append(product_space("stochastic 2x2", [g2] * 2, run_matrix, note="denominators 1..10, rare moves, zero rows"))
    g3 = M.enc(M.grid(3, [1, 2, 3] + ([4, 5] if deep else []), extra=M.rare(3) + M.rare(3, 2 ** 45)[::2]))
    out.append(product_space("stochastic 3x3", [g3] * 3, run_matrix, note=f"{len(g3)} rows"))
    g4 = M.enc(M.supports(4))
    out.append(product_space("supports 4x4", [g4 if deep else g4] * 4 if deep else
                             [g4[:-1][::2] + g4[-1:]] + [g4] * 2 + [g4[1::2]], run_matrix,
                             note="uniform rows over every support"))
    for nb in (2, 3, 4):
        dom = block_domain(nb, [None] + list(range(nb)))
        if nb == 4 and not deep:
            dom = [(f, l) for f in ("L1", "C2") for l in (None, 0, 3)]
        elif nb == 3 and not deep:
            dom = [(f, l) for f in ("L1", "C2", "U2") for l in (None, 0, 1, 2)]
        out.append(product_space(f"{nb} blocks", [dom] * nb, run_blocks,
                                 note="chains of closed / leaking / periodic blocks, up to 12 states"))
    out.append(product_space("larger chains", [M.LARGER, [10, 18, 33, 70] + ([140] if deep else []), M.ORDERS], run_larger,
                             note="many states, many recurrent classes, long cycles"))
    out.append(product_space("slopes", [M.SLOPES, list(range(2, 25)) + [33] + ([50, 70, 100] if deep else []), M.ORDERS], run_larger,
                             note="irreducible chains in which some states are visited extremely rarely"))
    for k, ent in ((2, (0, 1, 2, 49)), (3, (0, 1))):
        rows = list(itertools.product(ent, repeat=k))
        out.append(product_space(f"estimated chains k={k}", [rows] * k, run_counts))
    return out
