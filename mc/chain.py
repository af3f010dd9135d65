"""Reference model of finite Markov chains, in exact rational arithmetic."""
from fractions import Fraction

from .util import INF, classes_of, closure, fsolve


def normalise(T, fill):
    """Row-normalised counts as Fractions; fill: empty rows become absorbing."""
    k = len(T)
    P = []
    for i in range(k):
        s = sum(T[i])
        if s == 0:
            P.append([Fraction(int(fill and i == j)) for j in range(k)])
        else:
            P.append([Fraction(x) / s for x in T[i]])
    return P


def filled(P):
    return [[Fraction(int(i == j)) for j in range(len(P))] if not any(P[i]) else list(P[i])
            for i in range(len(P))]


def stationary(P):
    """[(class, distribution)] one per recurrent class."""
    k = len(P)
    _, rc = classes_of(P)
    out = []
    for c in rc:
        m = len(c)
        # pi (P - I) = 0 with sum = 1: replace the last equation
        A = [[P[c[j]][c[i]] - (i == j) for j in range(m)] for i in range(m)]
        A[-1] = [Fraction(1)] * m
        b = [[Fraction(0)] for _ in range(m - 1)] + [[Fraction(1)]]
        x = fsolve(A, b)
        d = [Fraction(0)] * k
        for i, s in enumerate(c):
            d[s] = x[i][0]
        out.append((c, d))
    return out


def hitting(P, j):
    """(finite set of origins != j, mean, second moment) of first entry to j."""
    k = len(P)
    adj = [[P[a][b] != 0 and a != j for b in range(k)] for a in range(k)]
    r = closure(adj)
    fin = [i for i in range(k) if i != j and all(r[x][j] for x in range(k) if r[i][x])]
    n = len(fin)
    if n == 0:
        return fin, {}, {}
    A = [[Fraction(int(a == b)) - P[a][b] for b in fin] for a in fin]
    m1 = fsolve(A, [[1] for _ in fin])
    m = {fin[i]: m1[i][0] for i in range(n)}
    rhs = [[1 + 2 * sum(P[a][b] * m[b] for b in fin)] for a in fin]
    m2 = fsolve(A, rhs)
    return fin, m, {fin[i]: m2[i][0] for i in range(n)}


def mfpt(P):
    """Matrix of expected steps to first enter j (at least one step)."""
    k = len(P)
    M = [[INF] * k for _ in range(k)]
    for j in range(k):
        fin, m, _ = hitting(P, j)
        for i in fin:
            M[i][j] = m[i]
        if all(P[j][x] == 0 or x == j or x in m for x in range(k)):
            M[j][j] = 1 + sum((P[j][x] * m[x] for x in range(k) if x != j and P[j][x]), Fraction(0))
    return M


def var_mfpt(P):
    k = len(P)
    V = [[INF] * k for _ in range(k)]
    for j in range(k):
        fin, m, s = hitting(P, j)
        for i in fin:
            V[i][j] = s[i] - m[i] ** 2
        if all(P[j][x] == 0 or x == j or x in m for x in range(k)):
            mj = 1 + sum((P[j][x] * m[x] for x in fin if P[j][x]), Fraction(0))
            # E[T^2] = 1 + 2 sum p m + sum p s
            sj = 1 + sum((P[j][x] * (2 * m[x] + s[x]) for x in fin if P[j][x]), Fraction(0))
            V[j][j] = sj - mj ** 2
    return V
