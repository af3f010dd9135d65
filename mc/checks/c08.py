"""C08: mobility indices."""
import itertools
from fractions import Fraction as F

import numpy as np
from giddy.mobility import markov_mobility

from ..core import product_space
from ..util import need, unchanged
from . import _mats as M

BINDING = "closed forms evaluated in exact arithmetic (eigenvalues from the exact characteristic polynomial)"


def det(A):
    n = len(A)
    if n == 1:
        return A[0][0]
    return sum((-1) ** j * A[0][j] * det([r[:j] + r[j + 1:] for r in A[1:]])
               for j in range(n) if A[0][j] != 0) if n else F(1)


def second_modulus(P):
    """Modulus of the eigenvalue that is second largest by modulus."""
    k = len(P)
    if k == 2:
        return abs(float(P[0][0] + P[1][1] - 1))
    if k == 3:
        # characteristic polynomial has the root 1: x^2 + b x + c for the others
        tr = P[0][0] + P[1][1] + P[2][2]
        s = tr - 1              # sum of the other eigenvalues
        p = det(P)              # their product (times one)
        disc = s * s - 4 * p
        if disc < 0:
            return float(p) ** 0.5
        r = float(disc) ** 0.5
        return max(abs((float(s) + r) / 2), abs((float(s) - r) / 2))
    ev = np.sort(np.abs(np.linalg.eigvals(M.as_float(P))))[::-1]
    return ev[1]


def ref(P, ini):
    k = len(P)
    tr = sum(P[i][i] for i in range(k))
    return {"P": float((k - tr) / (k - 1)), "D": float(1 - abs(det(P))),
            "L2": 1 - second_modulus(P),
            "B1": float((k - k * sum(ini[i] * P[i][i] for i in range(k))) / (k - 1)),
            "B2": float(sum(ini[i] * P[i][j] * abs(i - j) for i in range(k) for j in range(k)) / (k - 1))}


def inis(k):
    out = [tuple(F(1, k) for _ in range(k))]
    for i in range(k):
        out.append(tuple(F(int(i == j)) for j in range(k)))
    w = [F(2 * i + 1) for i in range(k)]
    out.append(tuple(x / sum(w) for x in w))
    return out


def run(s):
    P = M.dec(s)
    k = len(P)
    unif = [F(1, k)] * k
    for name, a in M.variants(P):
        keep = np.array(a, copy=True)
        W = ref(P, unif)
        for meas, w in W.items():
            tol = 2e-6 if meas == "L2" else 1e-9
            g = markov_mobility(a, measure=meas)
            need(abs(g - w) < tol, f"{meas} of {name} is {g!r}, expected {w!r}")
        need(abs(markov_mobility(a) - W["P"]) < 1e-9, "default measure")
        unchanged(keep, np.array(a), "matrix")
    a = M.as_float(P)
    for ini in inis(k):
        W = ref(P, ini)
        f = np.array([float(x) for x in ini])
        forms = [f, f.tolist()]
        if all(x.denominator == 1 for x in ini):
            forms.append(f.astype(int))
        for v in forms:
            for meas in ("B1", "B2"):
                keep = np.array(v, copy=True)
                g = markov_mobility(a, measure=meas, ini=v)
                need(abs(g - W[meas]) < 1e-9, f"{meas} with ini {ini} is {g!r}, expected {W[meas]!r}")
                unchanged(keep, np.array(v), "initial distribution")


def run_blocks(s):
    run(M.enc(M.blocks(s)))


def run_large(s):
    kind, k = s
    P = [[F(0)] * k for _ in range(k)]
    for i in range(k):
        if kind == "cycle":
            P[i][(i + 1) % k] += 1
        elif kind == "walk":
            P[i][max(i - 1, 0)] += F(1, 2)
            P[i][min(i + 1, k - 1)] += F(1, 2)
        elif kind == "stay":
            P[i][i] += F(9, 10)
            P[i][(i * 3 + 1) % k] += F(1, 10)
        elif kind == "jump":
            P[i][i] += F(1, 5)
            P[i][k - 1 - i] += F(4, 5)
        elif kind == "uniform":
            for j in range(k):
                P[i][j] += F(1, k)
    run(M.enc(P))


def spaces(tier):
    deep = tier == "thorough"
    g2 = M.enc(M.grid(2, range(1, 11), zero=False, extra=M.rare(2)))
    g3 = M.enc(M.grid(3, [1, 2, 3] + ([4, 5] if deep else [4]), zero=False))
    g4 = M.enc(M.supports(4, zero=False))
    eye = [tuple(r) for r in np.eye(5, dtype=int).astype(str).tolist()]
    dom = [(f, l) for f in ("L1", "C2", "U2", "C3") for l in (None, 0, 1)]
    return [product_space("stochastic 2x2", [g2] * 2, run),
            product_space("stochastic 3x3", [g3] * 3, run),
            product_space("supports 4x4", [g4] * 4 if deep else [g4[::3], g4[::2], g4, g4[1::3]], run),
            product_space("permutation matrices 5x5", [eye] * 5 if deep else [eye[:3], eye[1:4], eye[2:], eye[:3], eye[2:]], run),
            product_space("2 blocks", [dom] * 2, run_blocks, note="several recurrent classes, periodic classes"),
            product_space("3 blocks", [dom if deep else dom[::2]] * 3, run_blocks),
            product_space("larger chains", [["cycle", "walk", "stay", "jump", "uniform"],
                                            [2, 3, 4, 5, 6, 7] + ([8] if deep else [])], run_large)]
