"""C11: permutation inference of Spatial_Markov."""
import itertools
from fractions import Fraction as F

import numpy as np
from giddy.markov import Spatial_Markov

from .. import stat
from ..choice import Cycle, controlled, distribution, explore_rng, rnd, same_distribution
from ..core import Mismatch, Skip, count, product_space
from ..util import eq, exact, need, unchanged
from . import _spm as S

BINDING = ("the numpy random source is replaced by a controller; every sequence of permutations it can "
           "return is executed on the real class, and the resulting distribution of realisations is "
           "compared with the exact permutation distribution computed by the model")
ASSUMPTIONS = ["lags of permuted data are classed with the observed cutoffs when discretisation is fixed, "
               "with per-period quantiles otherwise"]

KW = [dict(cutoffs=[0.5], lag_cutoffs=[0.5]), dict(cutoffs=[0.5], lag_cutoffs=[0.0, 0.5, 1.0]),
      dict(cutoffs=[0.5, 1.5], lag_cutoffs=[1.5]), dict(k=2, m=3), dict(k=3, m=2),
      dict(k=2, m=2, fixed=False), dict(k=2, m=3, fixed=False), dict(discrete=True),
      dict(k=2, m=4, fixed=False), dict(k=2, m=6), dict(k=3, m=7, fixed=False)]


def stat_of(T, tot):
    return sum(stat.chi2_ref(M, tot)[0] for M in T)


OBS = ("T", "P", "transitions", "p", "class_ids", "lclass_ids", "cutoffs", "lag_cutoffs", "k", "m",
       "classes", "chi2", "x2", "x2_dof", "x2_pvalue", "Q", "LR")


def snapshot(sm):
    out = {}
    for a in OBS:
        v = getattr(sm, a)
        if a == "chi2":
            v = [c[0] for c in v]
        out[a] = None if v is None else np.array(v, dtype=float)
    return out


def model(n, edges, style, kw, y, plain):
    """Exact permutation distribution of the joint statistic."""
    W = S.wmatrix(n, edges, style)
    cls = plain.class_ids.astype(int).tolist()
    k, m = int(plain.k), int(plain.m)
    tot = plain.transitions.astype(int).tolist()
    if kw.get("discrete"):
        # exclude data in which some lag (observed or permuted) is resolved by chance
        def lcls(perm):
            c = [cls[q] for q in perm]
            al = S.categorical_lags(W, c)
            if any(len(x) != 1 for r in al for x in r):
                raise Skip()
            return [[next(iter(x)) for x in r] for r in al]
    else:
        Y = [[F(v) for v in r] for r in y.tolist()]
        cuts = None if plain.lag_cutoffs is None else [float(c) for c in plain.lag_cutoffs]

        def lcls(perm):
            L = S.lag(W, [Y[q] for q in perm])
            _, _, al = S.allowed_classes(L, kw.get("m", m), cuts, kw.get("fixed", True),
                                         F(0) if cuts is not None and style != "r" else F(1, 10 ** 9))
            if any(len(x) != 1 for r in al for x in r):
                raise Skip()
            return [[next(iter(x)) for x in r] for r in al]
    if kw.get("discrete"):
        lcls(range(n))
    exactd = {}
    pm = list(itertools.permutations(range(n)))
    for perm in pm:
        T = S.counts(cls, lcls(perm), k, m)
        v = rnd(stat_of(T, tot), 7)
        exactd[v] = exactd.get(v, 0) + F(1, len(pm))
    return exactd


def pvalue(sm, plain, perms):
    r = np.ravel(sm.x2_realizations)
    lo = (1 + (r >= plain.x2 + 1e-9).sum()) / (perms + 1.0)
    hi = (1 + (r >= plain.x2 - 1e-9).sum()) / (perms + 1.0)
    strict = (1 + (r >= sm.x2).sum()) / (perms + 1.0)
    need(abs(sm.x2_rpvalue - strict) < 1e-12 or abs(sm.x2_rpvalue - hi) < 1e-12,
         f"x2_rpvalue {sm.x2_rpvalue}, expected {hi} (realisations {r.tolist()[:50]}, observed {plain.x2})")
    need(lo - 1e-12 <= sm.x2_rpvalue <= hi + 1e-12, "x2_rpvalue out of range")


def same_observed(sm, base, what):
    snap = snapshot(sm)
    for a in OBS:
        if base[a] is None:
            need(snap[a] is None, f"{a} changed by permutations {what}")
        else:
            eq(snap[a], base[a], f"{a} with permutations ({what})", 1e-12)


def run(s):
    (n, edges, kwi, perms), cols = s[0], s[1:]
    kw = KW[kwi]
    y = np.array([[c[i] for c in cols] for i in range(n)], dtype=int if kw.get("discrete") else float)
    w = S.real_w(n, edges, "b")
    plain = Spatial_Markov(y.copy(), S.real_w(n, edges, "b"), **kw)
    base = snapshot(plain)
    exactd = model(n, edges, "b", kw, y, plain)

    def body():
        yy = y.copy()
        sm = Spatial_Markov(yy, w, permutations=perms, **kw)
        unchanged(y, yy, "y")
        return sm
    res = explore_rng(body)
    count("rng_answer_sequences", len(res))
    for q in range(perms):
        d = distribution([(pr, float(np.ravel(sm.x2_realizations)[q])) for pr, sm, _ in res], 7)
        bad = same_distribution(exactd, d)
        need(bad is None, f"realisation {q}: {bad}; exact {exactd}, got {d}")
    for pr, sm, ans in res:
        need(np.size(sm.x2_realizations) == perms, "number of realisations")
        same_observed(sm, base, f"answers {ans}")
        pvalue(sm, plain, perms)


IDS = {"int": None, "str": lambda n: [f"u{(i * 3 + 1) % n}" for i in range(n)], "rev": lambda n: list(range(n))[::-1], "gap": lambda n: [100 - 7 * i for i in range(n)]}


def rounds_run(s):
    """Many permutations: the generator answers every permutation equally often, over a whole number of rounds."""
    (n, edges, style, ids, kwi, rounds, fill, dt), seed = s
    import math
    kw = KW[kwi]
    t = 3
    vals = np.array([[((i * 5 + q * 3 + seed) * (seed + i * q + 1)) % 7 % (3 if kw.get("discrete") else 5) for q in range(t)] for i in range(n)])
    y = vals.astype(int if kw.get("discrete") and dt == "float" else dt)
    mk = lambda: S.real_w(n, edges, style, ids=IDS[ids] and IDS[ids](n))
    plain = Spatial_Markov(y.copy(), mk(), fill_empty_classes=fill, **kw)
    base = snapshot(plain)
    exactd = model(n, edges, style, kw, vals.astype(float) if not kw.get("discrete") else vals, plain)
    R = math.factorial(n) * rounds
    ctl = Cycle()
    keep = y.copy()
    with controlled(ctl):
        sm = Spatial_Markov(y, mk(), permutations=R, fill_empty_classes=fill, **kw)
    unchanged(keep, y, "y")
    same_observed(sm, base, f"{R} permutations")
    pvalue(sm, plain, R)
    need(np.size(sm.x2_realizations) == R, "number of realisations")
    if [q for _, q in ctl.log] != [math.factorial(n)] * R:
        raise Skip()                        # permutations drawn in another way: covered by the other spaces
    d = distribution([(F(1, R), float(v)) for v in np.ravel(sm.x2_realizations)], 7)
    bad = same_distribution(exactd, d)
    need(bad is None, f"{R} realisations, every permutation {rounds} times: {bad}; exact {exactd}, got {d}")


def joint_run(s):
    """Two permutations: realisations are independent (joint distribution is the product)."""
    (n, edges, kwi), cols = s[0], s[1:]
    run(((n, edges, kwi, 1),) + tuple(cols))
    kw = KW[kwi]
    y = np.array([[c[i] for c in cols] for i in range(n)], dtype=int if kw.get("discrete") else float)
    w = S.real_w(n, edges, "b")
    one = explore_rng(lambda: Spatial_Markov(y.copy(), w, permutations=1, **kw))
    d1 = distribution([(p, float(np.ravel(o.x2_realizations)[0])) for p, o, _ in one], 7)
    two = explore_rng(lambda: Spatial_Markov(y.copy(), w, permutations=2, **kw))
    d2 = distribution([(p, np.ravel(o.x2_realizations)) for p, o, _ in two], 7)
    want = {}
    for a, pa in d1.items():
        for b, pb in d1.items():
            want[(a, b)] = want.get((a, b), 0) + pa * pb
    bad = same_distribution(want, d2)
    need(bad is None, f"two realisations: {bad}")


def spaces(tier):
    deep = tier == "thorough"
    path, tri = ((0, 1), (1, 2)), ((0, 1), (0, 2), (1, 2))
    cols = list(itertools.product(range(3), repeat=3))
    b3 = list(itertools.product(range(2), repeat=3))
    b4 = list(itertools.product(range(2), repeat=4))
    p4 = ((0, 1), (1, 2), (2, 3))
    s4 = ((0, 1), (0, 2), (0, 3))
    y4 = ((0, 1), (0, 2), (0, 3), (1, 2))
    out = [
        product_space("n=3 t=2, one permutation", [[(3, path, q, 1) for q in range(7)]] + ([cols] * 2 if deep else [cols[::2], cols]), run),
        product_space("n=3 t=3 binary, one permutation", [[(3, path, q, 1) for q in (0, 1, 3, 5)]] + [b3] * 3, run),
        product_space("n=3 t=2, p-values of two permutations", [[(3, path, q, 2) for q in (0, 1, 2, 4)]] + [cols[::3], cols[::2]], run),
        product_space("n=4 t=2 binary, one permutation", [[(4, e, q, 1) for e in (p4, y4) for q in (0, 1, 3, 6)]] +
                      ([b4] * 2 if deep else [b4[1::2], b4[::3]]), run),
        product_space("lag classes nobody is in", [[(n, e, q, 1) for n, e in ((3, path), (4, p4), (4, s4), (4, y4)) for q in (6, 8, 9, 10)]] +
                      [[(0, 0, 0, 1), (0, 0, 1, 1), (0, 1, 1, 0), (0, 1, 0, 1), (1, 0, 1, 1), (0, 0, 1, 2), (1, 0, 2, 1)]] * 2, lambda s: run((s[0], *(c[:s[0][0]] for c in s[1:]))),
                      note="more lag classes than different lags, in part emptied or filled by a permutation"),
        product_space("categorical n=4 t=2", [[(4, e, 7, 1) for e in (p4, s4, y4)]] + [b4, b4], run),
        product_space("categorical n=5 t=2", [[(5, ((0, 1), (0, 2), (0, 3), (1, 2), (3, 4), (1, 4)), 7, 1),
                                               (5, ((0, 1), (1, 2), (0, 2), (2, 3), (3, 4), (2, 4)), 7, 1)]] +
                      [list(itertools.product(range(2), repeat=5))[3::6 if not deep else 2]] * 2, run),
        product_space("many permutations, every one equally often", [[(n, e, st, i, q, r, f, dt)
            for n, e in ((4, y4), (5, ((0, 1), (1, 2), (2, 3), (3, 4), (0, 2)))) for st, i, dt in (("b", "int", "float"), ("r", "str", "float"), ("d", "rev", "int32"), ("b", "gap", "uint8"))
            for q in range(len(KW)) for r, f in (((1, True), (5, False)) if n == 4 else ((1, True),))], range(12 if not deep else 60)], rounds_run),
        product_space("independence of two realisations", [[(3, path, 0), (3, path, 1), (3, path, 4)]] + [b3[1:5]] * 2 + [cols[1::6]], joint_run),
    ]
    return out
