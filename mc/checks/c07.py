"""C07: sojourn times and Prais conditional mobility."""
import contextlib
import io
import itertools
from fractions import Fraction as F

import numpy as np
from giddy.markov import FullRank_Markov, Markov, prais, sojourn_time

from ..chain import normalise
from ..core import product_space
from ..util import laid_out, INF, eq, exact, need, unchanged
from . import _mats as M

BINDING = "1/(1 - staying probability) in exact arithmetic for every matrix of the grid"


def ref(P):
    out = []
    for i, r in enumerate(P):
        if not any(r) or r[i] == 1:
            out.append(INF)
        else:
            out.append(float(1 / (1 - r[i])))
    return out


def run_matrix(s):
    P = M.dec(s)
    W = ref(P)
    for name, a in M.variants(P):
        keep = np.array(a, copy=True)
        for kw in ({}, {"summary": True}, {"summary": False}):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                got = sojourn_time(a, **kw)
            eq(got, W, f"sojourn_time({name}, {kw})")
            if kw.get("summary") is False or INF not in W:
                need(buf.getvalue() == "", f"unrequested message {buf.getvalue()!r}")
        exact(prais(a), 1 - np.diag(np.array(keep)), f"prais({name})")
        unchanged(keep, np.array(a), f"matrix ({name})")


def run_counts(T):
    k = len(T)
    rows = [(i, j) for i in range(k) for j in range(k) for _ in range(T[i][j])]
    if not rows:
        return
    for fill in (False, True):
        m = Markov(np.array(rows), classes=np.arange(k), fill_empty_classes=fill, summary=False)
        W = ref(normalise(T, fill))
        eq(m.sojourn_time, W, "Markov.sojourn_time")
        eq(m.sojourn_time, W, "Markov.sojourn_time (second reading)")
        p = m.p.copy()
        exact(prais(m.p), 1 - np.diag(p), "prais(Markov.p)")


def run_mag(s):
    n, k = s
    T = [[0] * k for _ in range(k)]
    T[0][0] = n
    if k > 1:
        T[1][0], T[1][1] = 1, n
    run_counts(T)


def run_large(s):
    """Many states: staying probabilities of all sizes, with special rows at several places."""
    k, step, kind, place = s
    P = []
    for i in range(k):
        r = [F(0)] * k
        stay = F((i * (2 * step + 1)) % (k + step), k + step + 1)
        r[i] = stay
        r[(i + 1 + step) % k] += (1 - stay) * F(3, 4)
        r[(i + 2 + step) % k] += (1 - stay) * F(1, 4)
        P.append(r)
    for i in {0: [0], 1: [k - 1], 2: range(k // 2, k)}[place]:
        P[i] = [F(0)] * k
        if kind == "A":
            P[i][i] = F(1)
        elif kind == "M":
            P[i][(i + 3) % k] = F(1)
        elif kind == "Z":
            P[i][i] = 1 - F(1, 2 ** 40)
            P[i][(i + 1) % k] = F(1, 2 ** 40)
    W = ref(P)
    a = M.as_float(P)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        got = np.asarray(sojourn_time(a))
        lst = sojourn_time(a.tolist(), summary=False)
    eq(got, W, f"sojourn_time, {k} states")
    eq(lst, W, f"sojourn_time of a list, {k} states")
    exact(prais(a), 1 - np.diag(a), f"prais, {k} states")


def run_rank(cols):
    m = FullRank_Markov(laid_out(cols, float), summary=False)
    eq(m.sojourn_time, ref(normalise(m.transitions.astype(int).tolist(), False)), "FullRank_Markov.sojourn_time")


def spaces(tier):
    deep = tier == "thorough"
    out = [product_space("stochastic 1x1", [M.enc(M.grid(1, [1]))], run_matrix)]
    g2 = M.enc(M.grid(2, range(1, 13), extra=M.rare(2)))
    out.append(product_space("stochastic 2x2", [g2] * 2, run_matrix))
    g3 = M.enc(M.grid(3, [1, 2, 3] + ([4, 5] if deep else [4]), extra=M.rare(3)))
    out.append(product_space("stochastic 3x3", [g3] * 3, run_matrix))
    g4 = M.enc(M.supports(4))
    out.append(product_space("supports 4x4", [g4] * 4 if deep else [g4[::2], g4, g4[1::2], g4], run_matrix))
    pats = list(itertools.product("AEMZ", repeat=6 if deep else 5))

    def run_pat(s):
        k = len(s[0])
        P = []
        for i, c in enumerate(s[0]):
            r = [F(0)] * k
            if c == "A":
                r[i] = F(1)
            elif c == "M":
                r[(i + 1) % k] = F(1)
            elif c == "Z":
                r[i] = F(2, 5)
                r[(i + 2) % k] = F(3, 5)
            P.append(r)
        run_matrix(M.enc(P))
    out.append(product_space("patterns of absorbing and empty rows", [pats], run_pat))
    for k, ent in ((2, (0, 1, 2, 49)), (3, (0, 1))):
        rows = list(itertools.product(ent, repeat=k))
        out.append(product_space(f"estimated chains k={k}", [rows] * k, run_counts))
    out.append(product_space("staying magnitudes", [range(1, 3000 if deep else 500), [1, 2, 3]], run_mag))
    out.append(product_space("larger chains", [[9, 33, 65, 130, 260] + ([700] if deep else []), range(6), ["A", "E", "M", "Z"], range(3)], run_large))
    out.append(product_space("rank chains", [list(itertools.product(range(3), repeat=3))] * 3, run_rank))
    return out
