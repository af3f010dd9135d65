"""C28: permutation inference of rose diagrams."""
import itertools
import math
from fractions import Fraction as F

import numpy as np
from giddy.directional import Rose

from ..choice import equally_often, explore_rng, four_group, same_distribution, scripted
from ..core import Skip, count, product_space
from ..util import eq, exact, need, unchanged
from . import _rose as M
from . import _spm as S

BINDING = ("the numpy random source is replaced by a controller; permute is run for every sequence of permutations it "
           "can return, the distribution of the simulated sector counts is compared with the exact one, and tallies, "
           "expectations and p-values are recomputed in every run")
ASSUMPTIONS = ["panels in which a (permuted) vector lies on an inner cut are out of scope here (C27 covers them)"]

PAIRS = [(0.0, 1.0), (0.3, 2.6), (1.1, 0.2), (2.7, 2.2), (0.5, 0.5), (3.0, -0.4)]
TWO = ("two-sided", "two.sided", "TWO.SIDED", "Two-Sided", None)
POS, NEG = ("positive", "Positive", "POSITIVE"), ("negative", "NEGATIVE", "nEGative")


def hist(W, pairs, k):
    c = [0] * k
    for v in M.vectors(W, list(zip(*pairs))):
        s = M.sectors(v, k)
        if len(s) > 1:
            raise Skip()
        c[next(iter(s))] += 1
    return tuple(c)


def pvals(alt, k, larger, smaller, R):
    out = []
    for i in range(k):
        L, Sm = (larger[i] + 1) / (R + 1), (smaller[i] + 1) / (R + 1)
        q = (i * 4) // k               # quadrant I..IV of the sector
        if alt in TWO:
            out.append(2 * L if L < 0.5 else 2 * (1 - L))
        elif alt in POS:
            out.append(L if q in (0, 2) else Sm)
        else:
            out.append(Sm if q in (0, 2) else L)
    return out


OBS = ("counts", "theta", "r", "lag", "cuts", "Y", "wY", "bins", "_dx", "_dy")


def snap(r):
    return {a: np.array(getattr(r, a), float) for a in OBS if hasattr(r, a)}


def check_inference(r, R, alt, k, base):
    for a, v in base.items():
        need(np.array_equal(np.array(getattr(r, a), float), v), f"{a} changed by permute")
    C = np.asarray(r.counts_perm)
    need(C.shape == (R, k), f"counts_perm has shape {C.shape}")
    lg = [int((C[:, i] >= r.counts[i]).sum()) for i in range(k)]
    sm = [int((C[:, i] <= r.counts[i]).sum()) for i in range(k)]
    exact(np.ravel(r.larger_perm), lg, "larger_perm")
    exact(np.ravel(r.smaller_perm), sm, "smaller_perm")
    eq(np.ravel(r.expected_perm), C.mean(axis=0), "expected_perm")
    if k in (4, 8) or alt in TWO:
        eq(np.ravel(r.p), pvals(alt, k, lg, sm, R), f"p for alternative {alt!r}")


def run(s):
    """s = (graph, k, permutations, alternative[, second call]), one value pair per unit."""
    (n, edges, style, k, R, alt, again), idx = s[0], s[1:]
    pairs = [PAIRS[i] for i in idx]
    W = S.wmatrix(n, edges, style)
    w = S.real_w(n, edges, style)
    pm = list(itertools.permutations(range(n)))
    one = {}
    for p in pm:
        h = hist(W, [pairs[q] for q in p], k)
        one[h] = one.get(h, 0) + F(1, len(pm))
    Y = np.array(pairs)

    def body():
        y = Y.copy()
        r = Rose(y, w, k)
        base = snap(r)
        if again:
            r.permute(again[0], **({} if again[1] is None else {"alternative": again[1]}))
            check_inference(r, again[0], again[1], k, base)
        r.permute(R, **({} if alt is None else {"alternative": alt}))
        unchanged(Y, y, "Y")
        check_inference(r, R, alt, k, base)
        return r
    res = explore_rng(body)
    count("rng_answer_sequences", len(res))
    exp = one
    for _ in range(R - 1):
        exp = {(a if isinstance(a[0], tuple) else (a,)) + (b,): p * q for a, p in exp.items() for b, q in one.items()}
    got = {}
    for p, r, _ in res:
        rows = tuple(tuple(int(v) for v in c) for c in np.asarray(r.counts_perm))
        key = rows if R > 1 else rows[0]
        got[key] = got.get(key, 0) + p
    bad = same_distribution(exp, got)
    need(bad is None, f"simulated counts: {bad}; exact {exp}, got {got}")


def rule_run(s):
    """P-value rules over every tally: permutations of pairs with a prescribed outcome per run."""
    k, R, alt, seed = s
    n = 4
    edges = ((0, 1), (1, 2), (2, 3))
    w = S.real_w(n, edges, "b")
    idx = [(seed * 5 + i * (seed % 5 + 1)) % len(PAIRS) for i in range(n)]
    np.random.seed(seed)
    r = Rose(np.array([PAIRS[i] for i in idx]), w, k)
    base = snap(r)
    r.permute(R, **({} if alt is None else {"alternative": alt}))
    check_inference(r, R, alt, k, base)
    for a2 in ("two-sided", "positive", "negative"):
        r.permute(R + 2, alternative=a2)
        check_inference(r, R + 2, a2, k, base)


def big_run(s):
    """Many units in one sector, many permutations."""
    n, R, k, seed, alt = s
    pairs = [(0.0, 1.0 + i / n) if seed % 2 else ((i * 37 % 11) / 3.0, (i * 53 % 13) / 3.0) for i in range(n)]
    edges = tuple((i, i + 1) for i in range(n - 1))
    np.random.seed(seed)
    r = Rose(np.array(pairs), S.real_w(n, edges, "b"), k)
    base = snap(r)
    r.permute(R, alternative=alt)
    check_inference(r, R, alt, k, base)
    C = np.asarray(r.counts_perm)
    need((C >= 0).all() and (C.sum(axis=1) == n).all(), f"simulated counts of {n} units add up to {sorted(set(C.sum(axis=1).tolist()))[:5]}")
    if seed % 2:                   # every vector of every arrangement points into the first quadrant
        q = [(i * 4) // k for i in range(k)]
        need(C[:, [i for i in range(k) if q[i] != 0]].sum() == 0, "simulated counts outside of the first quadrant")


def scripted_run(s):
    """Many units, four given arrangements: the simulated counts are those of the rearranged data."""
    n, style, k, seed = s
    pairs = [((i * 0.7548776662 + seed * 0.31) % 1, (i * 0.569840291 + seed * 0.47) % 1) for i in range(n)]
    edges = tuple((i, i + 1) for i in range(n - 1)) + ((0, n // 3), (1, n // 2 + 1))
    W = S.wmatrix(n, edges, style)
    want = sorted(hist(W, [pairs[q] for q in g], k) for g in four_group(n))
    w = S.real_w(n, edges, style)

    def body():
        r = Rose(np.array(pairs), w, k)
        r.permute(1)
        return tuple(int(v) for v in np.ravel(r.counts_perm))
    got = scripted(body, n)
    if got is None:
        raise Skip()
    need(sorted(got) == want, f"simulated counts under four arrangements: {sorted(got)}, expected {want}")


def rounds_run(s):
    """Many permutations, the generator giving every answer equally often."""
    n, style, k, rounds, alt, seed = s
    pairs = [PAIRS[(seed * 5 + i * (seed % 5 + 1)) % len(PAIRS)] for i in range(n)]
    edges = tuple((i, i + 1) for i in range(n - 1))
    W = S.wmatrix(n, edges, style)
    pm = list(itertools.permutations(range(n)))
    one = {}
    for p in pm:
        h = hist(W, [pairs[q] for q in p], k)
        one[h] = one.get(h, 0) + F(1, len(pm))
    R = len(pm) * rounds
    r = Rose(np.array(pairs), S.real_w(n, edges, style), k)
    base = snap(r)
    _, even = equally_often(lambda: r.permute(R, alternative=alt), math.factorial(n), rounds)
    check_inference(r, R, alt, k, base)
    got = {}
    for c in np.asarray(r.counts_perm).astype(int).tolist():
        got[tuple(c)] = got.get(tuple(c), 0) + F(1, R)
    need(set(got) <= set(one), f"simulated counts {sorted(set(got) - set(one))} belong to no arrangement")
    if not even:
        raise Skip()
    bad = same_distribution(one, got)
    need(bad is None, f"every arrangement {rounds} times: {bad}; exact {one}, got {got}")


def spaces(tier):
    deep = tier == "thorough"
    path, tri = ((0, 1), (1, 2)), ((0, 1), (0, 2), (1, 2))
    p4, s4 = ((0, 1), (1, 2), (2, 3)), ((0, 1), (0, 2), (0, 3))
    ids = range(len(PAIRS))
    alts = TWO + POS + NEG
    o3 = [(3, e, "b", k, 1, alt, None) for e in (path, tri) for k in (4, 8) for alt in alts]
    o3b = [(3, path, st, k, 2, alt, None) for st in "bd" for k in (4, 8) for alt in ("two-sided", "positive", "negative")]
    o3c = [(3, path, "b", k, 1, a2, (1, a1)) for k in (4, 8) for a1 in ("positive", "negative", None) for a2 in ("two-sided", "positive", "negative")]
    o3k = [(3, e, "d", k, 1, "two-sided", None) for e in (path, tri) for k in (1, 2, 3, 5, 6, 12)]
    o4 = [(4, e, "b", k, 1, alt, None) for e in (p4, s4) for k, alt in ((4, "positive"), (8, "negative"), (8, None))]
    return [
        product_space("n=3, all spellings", [o3, ids, ids, ids], run),
        product_space("n=3, two permutations", [o3b, ids, ids, ids], run),
        product_space("n=3, repeated calls", [o3c, ids, ids, ids], run),
        product_space("n=3, other numbers of sectors", [o3k, ids, ids, ids], run),
        product_space("n=4", [o4, list(ids)[::(1 if deep else 2)], ids, ids, list(ids)[::(1 if deep else 2)]], run),
        product_space("many units and permutations", [[140, 300, 1000] + ([33000, 70000] if deep else [33000]), [2, 130], [4, 8], range(2), ["two-sided", "positive"]], big_run,
                      note="counts beyond 127, 255 and 32767"),
        product_space("many units, given arrangements", [[20, 64, 100, 128, 150] + ([200, 260, 300] if deep else []), ["b", "d"], [4, 8], (1, 2)], scripted_run,
                      note="identity, reversal, half turn and both"),
        product_space("every permutation equally often", [[4, 5], "bd", [4, 8], [1, 10, 50] if not deep else [1, 10, 50, 200], ["two-sided", "positive", "negative"], range(4)], rounds_run),
        product_space("p-value rules", [[4, 8], [1, 3, 9, 99, 299, 999], alts, range(12 if not deep else 60)], rule_run),
    ]
