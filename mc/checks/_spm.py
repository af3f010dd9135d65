"""Reference model of Spatial_Markov (lags, classification, conditional counts)."""
import warnings
from fractions import Fraction as F

import mapclassify
import numpy as np

from ..util import make_w, neighbours

warnings.simplefilter("ignore")


def wmatrix(n, edges, style):
    """Exact weights; style: b (binary), r (row standardised), d (distance like 1, 2, ... by edge)."""
    W = [[F(0)] * n for _ in range(n)]
    for q, (a, b) in enumerate(edges):
        v = F(1) if style in "br" else F(q + 1)
        W[a][b] = W[b][a] = v
    if style == "r":
        for i in range(n):
            s = sum(W[i])
            if s:
                W[i] = [x / s for x in W[i]]
    return W


def real_w(n, edges, style, ids=None):
    if style == "d":
        return make_w(n, edges, ids=ids, weights={e: float(q + 1) for q, e in enumerate(edges)})
    return make_w(n, edges, ids=ids, transform="r" if style == "r" else None)


def lag(W, y):
    """y[i][t] -> exact lags"""
    n, t = len(y), len(y[0])
    return [[sum((W[i][j] * F(y[j][s]) for j in range(n) if W[i][j]), F(0)) for s in range(t)] for i in range(n)]


def classify(v, cuts, eps=F(0)):
    """Set of admissible right-closed classes of v (two when v is within eps of a cut)."""
    lo = sum(1 for c in cuts if F(c) < v - eps)
    hi = sum(1 for c in cuts if F(c) < v + eps)
    return set(range(lo, hi + 1))


def quantile_cuts(vals, k):
    return [float(b) for b in mapclassify.Quantiles(np.array([float(v) for v in vals]), k=k).bins][:-1]


def allowed_classes(vals, k, cuts, fixed, eps):
    """(cuts or None, number of classes, allowed class sets [i][t])"""
    n, t = len(vals), len(vals[0])
    if cuts is not None:
        c = list(cuts)
        return c, len(c) + 1, [[classify(v, c, eps) for v in r] for r in vals]
    if fixed:
        c = quantile_cuts([v for r in vals for v in r], k)
        return c, len(c) + 1, [[classify(v, c, eps) for v in r] for r in vals]
    out = [[None] * t for _ in range(n)]
    for s in range(t):
        c = quantile_cuts([vals[i][s] for i in range(n)], k)
        for i in range(n):
            out[i][s] = classify(vals[i][s], c, eps)
    return None, k, out


def categorical_lags(W, cls):
    """Allowed lag categories: weighted most common; ties first by adding the own category."""
    n, t = len(cls), len(cls[0])
    out = [[None] * t for _ in range(n)]
    for s in range(t):
        present = sorted({cls[i][s] for i in range(n)})
        for i in range(n):
            tally = {c: F(0) for c in present}
            nz = [W[i][j] for j in range(n) if W[i][j]]
            for j in range(n):
                if W[i][j]:
                    tally[cls[j][s]] += W[i][j]
            top = max(tally.values())
            win = [c for c in present if tally[c] == top]
            if len(win) > 1 and nz:
                tally[cls[i][s]] += sum(nz) / len(nz)
                top = max(tally.values())
                win = [c for c in present if tally[c] == top]
            out[i][s] = set(win)
    return out


def counts(cls, lcls, k, m):
    T = [[[0] * k for _ in range(k)] for _ in range(m)]
    n, t = len(cls), len(cls[0])
    for i in range(n):
        for s in range(t - 1):
            T[lcls[i][s]][cls[i][s]][cls[i][s + 1]] += 1
    return T


def overall(T):
    k = len(T[0])
    return [[sum(M[i][j] for M in T) for j in range(k)] for i in range(k)]
