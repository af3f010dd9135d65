"""Reference models of the rank mobility statistics (pairwise definitions, exact)."""
import math
from fractions import Fraction as F

from ..util import neighbours


def sgn(a, b):
    return (a > b) - (a < b)


def signs(x, y):
    n = len(x)
    return [[sgn(x[i], x[j]) * sgn(y[i], y[j]) for j in range(n)] for i in range(n)]


def pair_counts(x, y, pairs):
    """concordant, discordant, tied only in x, tied only in y"""
    c = d = tx = ty = 0
    for i, j in pairs:
        a, b = sgn(x[i], x[j]), sgn(y[i], y[j])
        if a * b > 0:
            c += 1
        elif a * b < 0:
            d += 1
        elif a == 0 and b != 0:
            tx += 1
        elif b == 0 and a != 0:
            ty += 1
    return c, d, tx, ty


def all_pairs(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


def tau_b(c, d, tx, ty):
    den = math.sqrt((c + d + tx) * (c + d + ty))
    return (c - d) / den if den else float("nan")


def tau_p(tau, n):
    v = (4.0 * n + 10) / (9.0 * n * (n - 1))
    return math.erfc(abs(tau) / math.sqrt(v) / math.sqrt(2))


def spatial(x, y, edges):
    c, d, tx, ty = pair_counts(x, y, edges)
    return tau_b(c, d, tx, ty), c, d


def local(x, y):
    n, S = len(x), signs(x, y)
    return F(sum(map(sum, S)), n * (n - 1)), [F(sum(r), n - 1) for r in S]


def local_neighbor(x, y, nb):
    S = signs(x, y)
    return [F(sum(S[i][j] for j in nb[i]), len(nb[i])) for i in range(len(x))]


def neighbor_weights(nb):
    s0 = sum(len(v) for v in nb.values())
    return [F(len(nb[i]), s0) for i in range(len(nb))]


def hood(S, members):
    m = len(members)
    return F(sum(S[a][b] for a in members for b in members), m * (m - 1))


def local_neighborhood(x, y, nb):
    S = signs(x, y)
    return [hood(S, [i] + list(nb[i])) for i in range(len(x))]


def regional(x, y, reg):
    """reg: class index per unit (in the order of the reported matrix); None where undefined."""
    S, n, k = signs(x, y), len(x), max(reg) + 1
    mem = [[i for i in range(n) if reg[i] == r] for r in range(k)]
    T, N = [[None] * k for _ in range(k)], [[0] * k for _ in range(k)]
    for a in range(k):
        for b in range(k):
            ps = [(i, j) for i in mem[a] for j in mem[b] if i != j]
            N[a][b] = len(ps)
            if ps:
                T[a][b] = F(sum(S[i][j] for i, j in ps), len(ps))
    return T, N


def avg_ranks(col):
    return [F(sum(v < c for v in col)) + F(sum(v == c for v in col) + 1, 2) for c in col]


def theta(cols, reg):
    """[(theta or None, total)] per interval"""
    R = [avg_ranks(c) for c in cols]
    out = []
    for a, b in zip(R, R[1:]):
        d = [y - x for x, y in zip(a, b)]
        tot = sum(map(abs, d))
        num = sum(abs(sum(d[i] for i in range(len(d)) if reg[i] == r)) for r in set(reg))
        out.append((num / tot if tot else None, tot))
    return out
