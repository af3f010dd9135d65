"""Reference model of rose diagrams (lags exact, angles by floating point with boundary sets)."""
import math
from fractions import Fraction as F

EPS = 1e-9


def lags(W, cols):
    n = len(W)
    return [[sum((W[i][j] * F(c[j]) for j in range(n) if W[i][j]), F(0)) for c in cols] for i in range(n)]


def vectors(W, cols):
    L = lags(W, cols)
    return [(F(cols[-1][i]) - F(cols[0][i]), L[i][-1] - L[i][0]) for i in range(len(W))]


def angle(v, ulp=False):
    a = math.atan2(float(v[1]), float(v[0]))
    return a + 2 * math.pi if a < 0 else a


def sectors(v, k, exactlag=True):
    """Set of admissible sectors of a vector."""
    dx, dy = v
    if exactlag and dy == 0 and dx >= 0:
        return {0}
    if dx == 0 and dy == 0:           # direction of a zero vector whose lag is rounded
        return set(range(k))
    u = angle(v) / (2 * math.pi) * k
    s = {int(math.floor(u - EPS)) % k, int(math.floor(u + EPS)) % k} if (u > EPS and u < k - EPS) or not exactlag else \
        ({min(int(math.floor(u)), k - 1)})          # just below 2 pi: the last sector
    return s


def achievable(counts, allowed, k):
    """Can the units be assigned to admissible sectors so that `counts` results?"""
    left = list(counts)
    free = []
    for a in allowed:
        if len(a) == 1:
            left[next(iter(a))] -= 1
        else:
            free.append(sorted(a))
    if any(v < 0 for v in left):
        return False

    # bipartite matching of the free units with the places left in their sectors
    at = {s: [] for s in range(k)}

    def place(u, seen):
        for s in free[u]:
            if s in seen:
                continue
            seen.add(s)
            if len(at[s]) < left[s]:
                at[s].append(u)
                return True
            for v in list(at[s]):
                at[s].remove(v)
                if place(v, seen):
                    at[s].append(u)
                    return True
                at[s].append(v)
        return False
    return sum(left) == len(free) and all(place(u, set()) for u in range(len(free)))
