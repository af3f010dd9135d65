"""C02: transition probabilities."""
import itertools
from fractions import Fraction

import numpy as np
from giddy.markov import FullRank_Markov, GeoRank_Markov, Markov, Spatial_Markov
from giddy.util import fill_empty_diagonals

from ..chain import normalise
from ..core import Space, product_space
from ..util import all_graphs, eq, exact, make_w, need, unchanged

BINDING = ("the model normalises exact integer counts as fractions; each count pattern is realised "
           "as a panel for the real estimators and all probabilities are compared, staying "
           "probabilities of 1 bit for bit")


def panel_of(T):
    rows = [(i, j) for i, r in enumerate(T) for j, c in enumerate(r) for _ in range(c)]
    return np.array(rows if rows else np.zeros((0, 2)), dtype=int)


def check_p(p, T, fill, what):
    p = np.asarray(p)
    k = len(T)
    P = normalise(T, fill)
    need(p.shape == (k, k), f"{what}: shape {p.shape}")
    for i in range(k):
        for j in range(k):
            w = float(P[i][j])
            if P[i][j] in (0, 1):
                need(p[i, j] == w, f"{what}[{i},{j}] is {p[i, j]!r}, expected exactly {w} for counts {T}")
            else:
                need(abs(p[i, j] - w) < 1e-12, f"{what}[{i},{j}] is {p[i, j]!r}, expected {w} for counts {T}")
        s = p[i].sum()
        if sum(T[i]) or fill:
            need(abs(s - 1) < 1e-12, f"{what}: row {i} sums to {s!r}")


def counts_run(T):
    y = panel_of(T)
    if len(y) == 0:
        return
    k = len(T)
    for fill in (False, True):
        m = Markov(y, classes=np.arange(k), fill_empty_classes=fill, summary=False)
        exact(m.transitions, T, "transitions")
        check_p(m.p, T, fill, "p")
        for a in ("sojourn_time", "steady_state", "mfpt"):
            getattr(m, a)
        check_p(m.p, T, fill, "p after reading derived results")


def magnitude_run(s):
    n, k, others = s
    T = [[0] * k for _ in range(k)]
    T[k - 1][k - 1] = n
    if others and k > 1:
        T[0] = [n] * k
    if others and k > 2:
        T[1] = [0] + [n, 1] + [0] * (k - 3)
    counts_run(T)


def rare_run(s):
    """One class observed very often, the others once or a few times."""
    k, n, at, few = s
    T = [[0] * k for _ in range(k)]
    for i in range(k):
        for j in range(k):
            T[i][j] = 0 if (i + j) % 2 and few != "all" else 1 + (i * j) % 3
    T[at % k][at % k] = n
    counts_run(T)


def spatial_run(s):
    n, edges, cols, fill = s
    y = np.array(cols, dtype=float).T
    w = make_w(n, edges)
    for kw in (dict(cutoffs=[0.5], lag_cutoffs=[0.5, 1.5]), dict(cutoffs=[0.5, 1.5], lag_cutoffs=[0.5])):
        sm = Spatial_Markov(y, w, fill_empty_classes=fill, **kw)
        check_p(sm.p, sm.transitions.astype(int).tolist(), fill, "overall p")
        for i, T in enumerate(sm.T):
            check_p(sm.P[i], T.astype(int).tolist(), fill, f"P[{i}]")


def spatial_magnitude_run(s):
    n, fill = s
    # n periods in which nobody moves: staying counts of n - 1, 2 (n - 1), ...
    y = np.array([[0.0] * n, [0.0] * n, [1.0] * n])
    for edges in (((0, 1), (1, 2)), ((0, 1), (0, 2), (1, 2))):
        sm = Spatial_Markov(y, make_w(3, edges), cutoffs=[0.5], lag_cutoffs=[0.5, 1.5],
                            fill_empty_classes=fill)
        check_p(sm.p, sm.transitions.astype(int).tolist(), fill, "overall p")
        for i, T in enumerate(sm.T):
            check_p(sm.P[i], T.astype(int).tolist(), fill, f"P[{i}]")


def rank_run(cols):
    y = np.array(cols, dtype=float).T
    for C in (FullRank_Markov, GeoRank_Markov):
        for fill in (False, True):
            m = C(y, fill_empty_classes=fill, summary=False)
            check_p(m.p, m.transitions.astype(int).tolist(), fill, C.__name__ + ".p")


ROWS = {1: [(0,), (1,)]}


def rows_for(k):
    out = [tuple([0] * k)]
    out += [tuple(int(i == j) for j in range(k)) for i in range(k)]
    if k > 1:
        out += [tuple([0.25] + [0.75] + [0] * (k - 2)), tuple([0] * (k - 2) + [0.5, 0.5]),
                tuple([1.0 / k] * k), tuple([0] * (k - 1) + [1e-9]), tuple([5e-324] + [0] * (k - 1))]
    return out


def fill_ref(m):
    a = [[float(x) for x in r] for r in m]
    for i, r in enumerate(a):
        if not any(r):
            r[i] = 1.0
    return a


def fill2_run(rows):
    variants = [np.array(rows, dtype=float), [list(r) for r in rows],
                np.asfortranarray(np.array(rows, dtype=float))]
    if all(float(x).is_integer() for r in rows for x in r):
        variants.append(np.array(rows, dtype=int))
    ro = np.array(rows, dtype=float)
    ro.setflags(write=False)
    variants.append(ro)
    for v in variants:
        keep = np.array(v, copy=True)
        got = fill_empty_diagonals(v)
        exact(got, fill_ref(rows), "filled")
        unchanged(keep, np.array(v), "argument of fill_empty_diagonals")


def fill3_run(s):
    a = np.array(s, dtype=float)
    keep = a.copy()
    exact(fill_empty_diagonals(a), [fill_ref(m) for m in s], "filled 3-d")
    unchanged(keep, a, "argument of fill_empty_diagonals")
    exact(fill_empty_diagonals(a.tolist()), [fill_ref(m) for m in s], "filled 3-d list")


def fill_large_run(s):
    """Many rows and strata: which rows are empty, storage, layout; tiny entries in other rows."""
    m, k, a, store = s
    rows = np.zeros((m, k, k))
    for g in range(m):
        for i in range(k):
            if (i * (a + 2) + g * (a + 3) + i * g) % 5 > 1:
                rows[g, i, (i * 3 + g + a) % k] = 1 if store in ("int", "int8") else (1e-12, .5, 1, .25)[(i + g) % 4]
                rows[g, i, (i + a) % k] += 2 if store in ("int", "int8") else 1e-3
    want = rows.copy()
    for g in range(m):
        for i in range(k):
            if not want[g, i].any():
                want[g, i, i] = 1
    v = rows.astype({"int": int, "int8": np.int8, "float32": np.float32}.get(store, float))
    want = want.astype(v.dtype)
    if store == "fortran":
        v = np.asfortranarray(v)
    elif store == "strided":
        v = np.repeat(np.repeat(v, 2, axis=0), 2, axis=2)[::2, :, ::2]
    elif store == "readonly":
        v.setflags(write=False)
    keep = v.copy()
    exact(fill_empty_diagonals(v), want, "filled 3-d")
    unchanged(keep, v, "argument of fill_empty_diagonals")
    for g in (0, m - 1):
        exact(fill_empty_diagonals(v[g]), want[g], "filled 2-d")
    unchanged(keep, v, "argument of fill_empty_diagonals")


def spaces(tier):
    deep = tier == "thorough"
    out = []
    for k, top in ((2, 5), (3, 2 if not deep else 3)):
        rows = list(itertools.product(range(top), repeat=k)) if k == 3 else \
            list(itertools.product(range(top), repeat=k))
        if k == 3 and not deep:
            rows = rows + [(3, 0, 0), (0, 7, 0), (0, 0, 5), (1, 2, 3), (3, 3, 4), (10, 0, 1)]
        out.append(product_space(f"count patterns k={k}", [rows] * k, counts_run,
                                 note=f"all rows with entries below {top} (plus chosen larger rows)"))
    N = 3000 if deep else 420
    mags = list(range(1, N + 1)) + [511, 512, 513, 1000, 1023, 1025, 4999, 10007]
    out.append(product_space("count magnitudes", [sorted(set(mags)), [1, 2, 3], [0, 1]], magnitude_run,
                             note=f"staying counts 1..{N} and selected larger ones"))
    out.append(product_space("one very frequent class", [[2, 3, 7, 20], [9000, 40000, 110000, 250000] + ([10 ** 6, 3 * 10 ** 6] if deep else []), [0, 1, -1], ["all", "some"]], rare_run,
                             note="one staying count up to 250000 (thorough: 3 * 10^6) among single moves"))
    for n in (3,):
        cols = list(itertools.product(range(3), repeat=n))
        cols2 = cols if deep else cols
        gr = [e for e in all_graphs(n) if len(e) in (2, 3)][:4 if deep else 2] + ([((0, 1), (0, 2), (1, 2))])

        def run(s, n=n):
            spatial_run((n, s[0], s[2:], s[1]))
        out.append(product_space("spatial conditional matrices",
                                 [gr, [False, True]] + [cols] * 2, run,
                                 note="all 3-unit 2-period panels over 3 values x graphs x fill"))
    out.append(product_space("spatial staying magnitudes", [range(2, 1500 if deep else 260), [False, True]],
                             spatial_magnitude_run, note="panels in which no unit ever moves"))
    for n, t in ((2, 4), (3, 3)) + (((4, 3),) if deep else ()):
        vals = list(itertools.product(range(n), repeat=n))
        out.append(product_space(f"rank chains n={n} t={t}", [vals] * t, rank_run,
                                 note="all panels of n values with ties"))
    for k in (1, 2, 3) + ((4,) if deep else ()):
        out.append(product_space(f"fill 2-d k={k}", [rows_for(k)] * k, fill2_run))
    m2 = list(itertools.product(rows_for(2), repeat=2))
    out.append(product_space("fill, many rows", [[1, 2, 7, 70, 150], [1, 2, 5, 17, 40], range(4), ["float", "int", "int8", "float32", "fortran", "strided", "readonly"]], fill_large_run))
    out.append(product_space("fill 3-d (m,2,2)", [m2] * 2, fill3_run))
    m3 = list(itertools.product(rows_for(3)[:4], repeat=3))
    out.append(product_space("fill 3-d (m,3,3)", [m3, m3[::5]], fill3_run))
    return out
