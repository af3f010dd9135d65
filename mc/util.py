"""Enumeration helpers and comparison helpers shared by the checks."""
import zlib
import itertools
from fractions import Fraction

import numpy as np

from .core import Mismatch

INF = float("inf")


def need(cond, msg):
    if not cond:
        raise Mismatch(msg)


def eq(got, want, what, tol=1e-9):
    """Numeric arrays agree (nan == nan, inf == inf), relative-absolute tolerance."""
    try:
        g = np.asarray(got, dtype=float)
    except (TypeError, ValueError) as e:
        raise Mismatch(f"{what}: not numeric ({e}): {got!r}")
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Mismatch(f"{what}: shape {g.shape}, expected {w.shape}: got {got!r} want {want!r}")
    with np.errstate(all="ignore"):
        same = (g == w) | (np.isnan(g) & np.isnan(w))
        ok = same | (np.isfinite(g) & np.isfinite(w) & (np.abs(g - w) <= tol * np.maximum(1.0, np.abs(w))))
    if not ok.all():
        raise Mismatch(f"{what}: got {np.asarray(got).tolist()!r}, expected {w.tolist()!r}")


def exact(got, want, what):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape or not (g == w).all():
        raise Mismatch(f"{what}: got {g.tolist()!r} (shape {g.shape}), expected {w.tolist()!r} (shape {w.shape})")


def unchanged(before, after, what):
    b, a = np.asarray(before), np.asarray(after)
    same = a.shape == b.shape and a.dtype == b.dtype
    if same:
        if b.dtype.kind == "f":
            same = np.array_equal(a, b, equal_nan=True)
        else:
            same = bool((a == b).all())
    if not same:
        raise Mismatch(f"{what} was modified: {b.tolist()!r} -> {a.tolist()!r}")


def all_graphs(n):
    """All undirected graphs on n labelled vertices, as tuples of edges."""
    edges = list(itertools.combinations(range(n), 2))
    for r in range(len(edges) + 1):
        yield from itertools.combinations(edges, r)


def neighbours(n, edges):
    nb = {i: [] for i in range(n)}
    for a, b in edges:
        nb[a].append(b)
        nb[b].append(a)
    return nb


def no_isolates(n, edges):
    return all(neighbours(n, edges).values())


_iso_cache = {}


def graphs_upto_iso(n, no_island=True):
    """One representative per isomorphism class (the smallest edge set)."""
    key = (n, no_island)
    if key not in _iso_cache:
        seen, out = set(), []
        perms = list(itertools.permutations(range(n)))
        for e in all_graphs(n):
            if no_island and not no_isolates(n, e):
                continue
            s = frozenset(e)
            if s in seen:
                continue
            for p in perms:
                seen.add(frozenset(tuple(sorted((p[a], p[b]))) for a, b in e))
            out.append(e)
        _iso_cache[key] = out
    return _iso_cache[key]


def weak_orders(n):
    """All rank patterns of n values (dense ranks starting with 0)."""
    def rec(prefix):
        if len(prefix) == n:
            if set(prefix) == set(range(max(prefix) + 1)):
                yield tuple(prefix)
            return
        for v in range(n):
            yield from rec(prefix + [v])
    return list(rec([]))


def set_partitions(n):
    """Restricted growth strings: every partition of n units into regimes."""
    out = []

    def rec(s, m):
        if len(s) == n:
            out.append(tuple(s))
            return
        for v in range(m + 1):
            rec(s + [v], max(m, v + 1))
    rec([], 0)
    return out


def make_w(n, edges, ids=None, order=None, weights=None, transform=None):
    """A libpysal W with the given ids (ids[i] is the id of position i)."""
    from libpysal.weights import W
    ids = list(range(n)) if ids is None else list(ids)
    nb = neighbours(n, edges)
    neigh = {ids[i]: [ids[j] for j in nb[i]] for i in range(n)}
    wts = None
    if weights is not None:
        wts = {ids[i]: [weights[(min(i, j), max(i, j))] if (min(i, j), max(i, j)) in weights
                        else weights[(i, j)] for j in nb[i]] for i in range(n)}
    w = W(neigh, wts, id_order=ids, silence_warnings=True)
    if transform:
        w.transform = transform
    return w


def dense(n, edges, row=False):
    A = np.zeros((n, n))
    for a, b in edges:
        A[a, b] = A[b, a] = 1
    if row:
        s = A.sum(axis=1)
        A = A / np.where(s == 0, 1, s)[:, None]
    return A


def closure(adj):
    k = len(adj)
    r = [[bool(adj[i][j]) or i == j for j in range(k)] for i in range(k)]
    for m in range(k):
        for i in range(k):
            if r[i][m]:
                for j in range(k):
                    if r[m][j]:
                        r[i][j] = True
    return r


def classes_of(adj):
    """(communicating classes, recurrent classes) as lists of tuples."""
    k = len(adj)
    r = closure(adj)
    seen, cc, rc = set(), [], []
    for i in range(k):
        if i in seen:
            continue
        c = tuple(j for j in range(k) if r[i][j] and r[j][i])
        seen.update(c)
        cc.append(c)
        if all(j in c for j in range(k) if r[i][j]):
            rc.append(c)
    return cc, rc


def fsolve(A, B):
    """Exact Gauss-Jordan solve of A X = B over Fractions (B: list of rows)."""
    n = len(A)
    M = [[Fraction(x) for x in A[i]] + [Fraction(x) for x in B[i]] for i in range(n)]
    for c in range(n):
        piv = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[piv] = M[piv], M[c]
        d = M[c][c]
        M[c] = [x / d for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [row[n:] for row in M]


def prob_rows(k, den):
    """All rows of k probabilities that are multiples of 1/den, as tuples of Fractions numerators."""
    out = []

    def rec(s, left):
        if len(s) == k - 1:
            out.append(tuple(s) + (left,))
            return
        for v in range(left + 1):
            rec(s + [v], left - v)
    rec([], den)
    return out


def laid_out(cols, dtype=None):
    """The panel with the given columns, stored by rows or by columns depending on its values (both occur in every space)."""
    a = np.array(cols, dtype).T
    return np.ascontiguousarray(a) if zlib.crc32(repr(cols).encode()) % 2 else a
