"""Reference alignment costs."""
import functools
import itertools


def paths(a, b, sub, indel):
    """Minimum over every alignment, enumerated one by one."""
    best = [None]

    def rec(i, j, cost):
        if i == len(a) and j == len(b):
            if best[0] is None or cost < best[0]:
                best[0] = cost
            return
        if i < len(a) and j < len(b):
            rec(i + 1, j + 1, cost + sub(a[i], b[j]))
        if i < len(a):
            rec(i + 1, j, cost + indel)
        if j < len(b):
            rec(i, j + 1, cost + indel)
    rec(0, 0, 0.0)
    return best[0]


def distance(a, b, sub, indel):
    """The same minimum for longer sequences (memoised over suffixes)."""
    if len(a) + len(b) <= 6:
        return paths(a, b, sub, indel)

    if len(a) + len(b) > 60:                   # row by row, from the ends
        nxt = [(len(b) - j) * indel for j in range(len(b) + 1)]
        for i in range(len(a) - 1, -1, -1):
            cur = [0.0] * len(b) + [nxt[-1] + indel]
            for j in range(len(b) - 1, -1, -1):
                cur[j] = min(nxt[j + 1] + sub(a[i], b[j]), nxt[j] + indel, cur[j + 1] + indel)
            nxt = cur
        return nxt[0]

    @functools.lru_cache(None)
    def f(i, j):
        if i == len(a):
            return (len(b) - j) * indel
        if j == len(b):
            return (len(a) - i) * indel
        return min(f(i + 1, j + 1) + sub(a[i], b[j]), f(i + 1, j) + indel, f(i, j + 1) + indel)
    return f(0, 0)


def matrix(seqs, sub, indel):
    n = len(seqs)
    D = [[0.0] * n for _ in range(n)]
    for i, j in itertools.combinations(range(n), 2):
        D[i][j] = D[j][i] = distance(tuple(seqs[i]), tuple(seqs[j]), sub, indel)
    return D


def words(k, lo, hi):
    return [w for n in range(lo, hi + 1) for w in itertools.product(range(k), repeat=n)]
