"""Grids of stochastic matrices shared by C04-C08 (states: matrices built row by row)."""
import itertools
from fractions import Fraction as F

import numpy as np

from ..util import prob_rows


def grid(k, dens, zero=True, extra=()):
    rows = []
    for d in dens:
        for r in prob_rows(k, d):
            f = tuple(F(x, d) for x in r)
            if f not in rows:
                rows.append(f)
    for r in extra:
        if r not in rows:
            rows.append(r)
    if zero:
        rows.append((F(0),) * k)
    return rows


def supports(k, zero=True):
    """Uniform rows over every non-empty support."""
    rows = [tuple(F(b, sum(s)) for b in s) for s in itertools.product((0, 1), repeat=k) if any(s)]
    return rows + ([(F(0),) * k] if zero else [])


def enc(rows):
    """Rows as strings of fractions, so that traces print and replay literally."""
    return [tuple(str(x) for x in r) for r in rows]


def dec(s):
    return [[F(x) for x in r] for r in s]


def rare(k, n=10 ** 6):
    """Rows with rare moves."""
    e = F(1, n)
    out = []
    for i in range(k):
        for j in range(k):
            if i != j:
                r = [F(0)] * k
                r[i], r[j] = 1 - e, e
                out.append(tuple(r))
    return out


def leave(k, n):
    """Rows that almost always move."""
    e = F(1, n)
    out = []
    for i, j in itertools.permutations(range(k), 2):
        r = [F(0)] * k
        r[i], r[j] = e, 1 - e
        out.append(tuple(r))
    return out


def as_float(P):
    return np.array([[float(x) for x in r] for r in P])


def integral(P):
    return all(x.denominator == 1 for r in P for x in r)


def variants(P):
    """The same matrix in every accepted storage."""
    a = as_float(P)
    out = [("float", a), ("list", a.tolist()), ("fortran", np.asfortranarray(a))]
    ro = a.copy()
    ro.setflags(write=False)
    out.append(("readonly", ro))
    big = np.full((2 * len(a), 3 * len(a)), 7.0)
    big[::2, 1::3] = a
    out.append(("strided view", big[::2, 1::3]))
    if integral(P):
        out.append(("int", a.astype(int)))
        out.append(("int8", a.astype(np.int8)))
        out.append(("int list", a.astype(int).tolist()))
    return out


def blocks(kinds):
    """Block-structured chains: every component is a closed or open class of a given form.

    kinds: tuple of (form, leak) with form in L1 L2 C2 C3 U2 U3; leak = index of the block that
    receives 1/4 of the flow of the block's last state (or None).
    """
    size = {"L": 1, "C": None, "U": None}
    sizes = [int(f[1]) for f, _ in kinds]
    off = np.cumsum([0] + sizes)
    k = int(off[-1])
    P = [[F(0)] * k for _ in range(k)]
    for b, (form, leak) in enumerate(kinds):
        m, o = sizes[b], int(off[b])
        for i in range(m):
            if form[0] == "C" or form[0] == "L":
                P[o + i][o + (i + 1) % m] += 1
            else:
                for j in range(m):
                    P[o + i][o + j] += F(1, m)
        if leak is not None and leak != b:
            i = o + m - 1
            P[i] = [x * F(3, 4) for x in P[i]]
            P[i][int(off[leak])] += F(1, 4)
    return P


LARGER = ("conveyor", "fork", "ruin", "two rings", "tree", "isolated", "tail into ring", "ring", "far jump")
SLOPES = ("slope", "far slope", "ridge")
ORDERS = ("along", "backwards", "scattered")


def larger(kind, k, order):
    """Chains of many states with long ways through them, in a chosen order of the states."""
    P = [[F(0)] * k for _ in range(k)]
    h = k // 2
    for i in range(k):
        stay = F(1 + i % 3, 8)
        if kind in ("conveyor", "far jump"):
            to = {min(i + 1, k - 1): 1 - stay, i: stay}
            if i == k - 1:
                to = {i: F(1)}
            elif kind == "far jump" and i % 5 == 4:
                to = {i + 1: F(1, 2), 0: F(1, 2)}
        elif kind == "fork":
            to = {i: F(1)} if i in (h, k - 1) else {i + 1: F(3, 4), (k - 1 if i < h else h): F(1, 4)}
        elif kind == "ruin":
            to = {i: F(1)} if i in (0, k - 1) else {i - 1: F(1, 2), i + 1: F(1, 2)}
        elif kind == "two rings":
            if i < h:
                to = {(i + 1) % h: F(1)} if i else {1 % h: F(7, 8), k - 1: F(1, 8)}
            else:
                to = {h + (i + 1 - h) % (k - h): F(1)}
        elif kind == "tree":
            kids = [x for x in (2 * i + 1, 2 * i + 2) if x < k]
            to = {x: F(1, len(kids)) for x in kids} or {i: F(1)}
        elif kind in ("slope", "far slope", "ridge"):
            up = F(1, 100 if kind != "far slope" else 2 ** 20)
            if kind == "ridge" and i < h:
                up = F(1, 2)
            dn = F(1, 100 if kind == "ridge" and i < h else 2) - (up if kind != "ridge" else 0)
            to = {min(i + 1, k - 1): up, max(i - 1, 0): dn}
            to[i] = to.get(i, F(0)) + 1 - up - dn
        elif kind == "isolated":
            to = {i: F(1)}
        elif kind == "tail into ring":
            to = {i + 1: F(1)} if i < k - 1 else {h: F(1)}
        else:
            to = {}
            for j, p in ((i, stay), ((i + 1) % k, 1 - stay)):
                to[j] = to.get(j, 0) + p
        for j, p in to.items():
            P[i][j] += p
    at = {"along": list(range(k)), "backwards": list(range(k))[::-1],
          "scattered": sorted(range(k), key=lambda i: (i * 7 % 11, i))}[order]
    return [[P[at[i]][at[j]] for j in range(k)] for i in range(k)]
