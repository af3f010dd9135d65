"""C09: Spatial_Markov conditional counts and classes."""
import itertools
from fractions import Fraction as F

import numpy as np
from giddy.markov import Spatial_Markov

from ..core import product_space
from ..util import all_graphs, eq, exact, need, unchanged
from . import _spm as S

BINDING = ("spatial lags, classes and conditional counts are recomputed exactly from the panel and the "
           "neighbour graph; every panel of the space is analysed by the real class and all reported "
           "classes, cutoffs and counts compared")
ASSUMPTIONS = ["mapclassify.Quantiles defines the quantile cut points (used by the model too)",
               "where a row-standardised lag is within 1e-9 of a cut point either class is accepted"]


def check_counts(sm, n, t, k, m, allowed, lallowed):
    cls = np.asarray(sm.class_ids)
    lcls = np.asarray(sm.lclass_ids)
    need(cls.shape == (n, t), f"class_ids shape {cls.shape}")
    need(lcls.shape == (n, t), f"lclass_ids shape {lcls.shape}")
    for i in range(n):
        for s in range(t):
            need(int(cls[i, s]) in allowed[i][s], f"class of unit {i} period {s} is {cls[i, s]}, expected {allowed[i][s]}")
            need(int(lcls[i, s]) in lallowed[i][s], f"lag class of unit {i} period {s} is {lcls[i, s]}, expected {lallowed[i][s]}")
    need(sm.k == k, f"k is {sm.k}, expected {k}")
    need(sm.m == m, f"m is {sm.m}, expected {m}")
    T = S.counts(cls.astype(int).tolist(), lcls.astype(int).tolist(), k, m)
    exact(sm.T, T, "conditional counts T")
    exact(sm.transitions, S.overall(T), "overall transitions")
    need(np.sum(sm.T) == n * (t - 1), "conditional counts do not add up")


def continuous_run(n, edges, style, ids, y, kw, store="float"):
    arr = STORE[store](np.array(y, dtype=object))
    y = [[F(v) for v in r] for r in arr.tolist()]
    t = arr.shape[1]
    w = S.real_w(n, edges, style, ids)
    keep = arr.copy()
    kww = {k: (list(v) if isinstance(v, tuple) else v) for k, v in kw.items()}
    if isinstance(kw.get("cutoffs"), tuple) and len(kw["cutoffs"]) % 2 == 0:
        kww["cutoffs"] = np.array(kw["cutoffs"], dtype=float)
    keep_kw = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in kww.items()}
    nb = {i: list(v) for i, v in w.neighbors.items()}
    wt = {i: list(v) for i, v in w.weights.items()}
    tr = w.transform
    sm = Spatial_Markov(arr, w, **kww)
    Y = [[F(v) for v in r] for r in y]
    W = S.wmatrix(n, edges, style)
    L = S.lag(W, Y)
    fixed = kw.get("fixed", True)
    quant = kw.get("lag_cutoffs") is None
    exactlag = store != "float32" and style != "r" or all(x.denominator in (1, 2, 4) for r in W for x in r)
    big = max([abs(v) for r in Y + L for v in r] + [F(1)]) if store in SCALED else F(1)
    big = {"tiny": F(1, 2 ** 98), "near": F(1, 10 ** 5)}.get(store, big)
    tol = big * F(1, 10 ** 9) * (10 ** 4 if store == "float32" else 1)
    eps = F(0) if exactlag and not quant else tol
    veps = F(0) if kw.get("cutoffs") is not None else tol
    cuts, k, al = S.allowed_classes(Y, kw.get("k", 4), kw.get("cutoffs"), fixed, veps)
    lcuts, m, lal = S.allowed_classes(L, kw.get("m", 4), kw.get("lag_cutoffs"), fixed, eps)
    if quant and not exactlag:
        # rounding of the lags may also merge or split cut points: accept the reported number
        lcuts, m = None, sm.m
        if fixed:
            lcuts = [float(c) for c in sm.lag_cutoffs]
            lal = [[S.classify(v, lcuts, eps) for v in r] for r in L]
    check_counts(sm, n, t, k, m, al, lal)
    if cuts is None:
        need(sm.cutoffs is None, f"cutoffs {sm.cutoffs!r} for per-period quantiles")
    else:
        eq(np.asarray(sm.cutoffs, float), cuts, "cutoffs", max(float(tol), 1e-9))
    if fixed or kw.get("lag_cutoffs") is not None:
        if lcuts is not None:
            eq(np.asarray(sm.lag_cutoffs, float), lcuts, "lag_cutoffs", max(float(tol), 1e-9))
    else:
        need(sm.lag_cutoffs is None, f"lag_cutoffs {sm.lag_cutoffs!r} for per-period quantiles")
    exact(np.asarray(sm.classes), list(range(k)), "classes")
    exact(np.asarray(sm.lclasses), list(range(m)), "lclasses")
    unchanged(keep, arr, "y")
    for key, v in keep_kw.items():
        need(np.array_equal(np.asarray(v), np.asarray(kww[key])), f"argument {key} was modified")
    need({i: list(v) for i, v in w.neighbors.items()} == nb and {i: list(v) for i, v in w.weights.items()} == wt
         and w.transform == tr, "weights were modified")


SCALED = ("huge", "offset", "float32")
STORE = {
    "float": lambda a: a.astype(float), "int64": lambda a: a.astype(np.int64), "int8": lambda a: a.astype(np.int8),
    "uint8": lambda a: (a - a.min()).astype(np.uint8), "int16": lambda a: (a * 1000).astype(np.int16),
    "uint16": lambda a: ((a - a.min()) * 1500).astype(np.uint16), "float32": lambda a: (a / F(4)).astype(float).astype(np.float32),
    "bool": lambda a: a.astype(int) % 2 == 1,
    "big endian": lambda a: a.astype(">f8"), "fortran": lambda a: np.asfortranarray(a.astype(float)),
    "strided": lambda a: np.repeat(np.repeat(a.astype(float), 2, axis=0), 3, axis=1)[::2, ::3],
    "huge": lambda a: a.astype(float) * 2.0 ** 100, "tiny": lambda a: a.astype(float) * 2.0 ** -100,
    "offset": lambda a: a.astype(float) + 2.0 ** 40, "near": lambda a: a.astype(float) * 2.0 ** -30 + 1,
}


def grid_w(n):
    r = max(2, round(n ** .5))
    return tuple((i, i + 1) for i in range(n - 1) if i % r != r - 1) + tuple((i, i + r) for i in range(n - r))


def store_run(s):
    """Storage kinds and magnitudes; cutoffs sit on, just above and just below values and lags."""
    store, n, t, style, kind, m = s
    y = np.array([[(i * (3 + m) + j * (5 + i % (2 + m)) + (i * j * m) % 5) % 17 - 5 for j in range(t)] for i in range(n)], object)
    edges = grid_w(n)
    arr = STORE[store](y)
    vals = sorted({F(v) for r in arr.tolist() for v in r})
    lags = sorted({v for r in S.lag(S.wmatrix(n, edges, style), [[F(v) for v in r] for r in arr.tolist()]) for v in r})

    def pick(v, off):
        a = float(v[len(v) // 3])
        b = float(v[(2 * len(v)) // 3])
        c = [a, b] if a < b else [a]
        if m == 1:
            c = sorted({float(v[(q * len(v)) // 6]) for q in range(1, 6)})
        return tuple(np.nextafter(x, np.inf if off > 0 else -np.inf) if off else x for x in map(np.float64, c))
    if kind == "quantiles":
        kw = dict(k=3, m=4)
    elif kind == "per period":
        kw = dict(k=2, m=3, fixed=False)
    else:
        off = {"on": 0, "above": 1, "below": -1}[kind]
        kw = dict(cutoffs=pick(vals, off), lag_cutoffs=pick(lags, off if style != "r" else 0))
    ids = [f"u{(i * 7 + 3) % n}x" for i in range(n)] if n % 7 and m else None
    continuous_run(n, edges, style, ids, y.tolist(), kw, store)


CUTS = [((0.5,), (0.5,)), ((1.0,), (0.0, 1.0, 2.0)), ((0.0, 1.0), (1.0,)), ((0.5, 1.5, 7.0), (0.5, 2.0)),
        ((-5.0, 1.0), (1.5, 2.5, 3.5, 9.0))]
MIXED = [dict(cutoffs=(0.0, 1.0), m=2), dict(k=2, lag_cutoffs=(1.0,)), dict(cutoffs=(1.0,), m=3, fixed=False),
         dict(k=3, lag_cutoffs=(0.5, 2.0), fixed=False)]
QUANT = [dict(k=k, m=m, fixed=f) for k, m in ((2, 2), (2, 3), (3, 2), (4, 2), (1, 2), (2, 1), (3, 4)) for f in (True, False)]


def cont_space(name, n, t, vals, graphs, styles, kws, ids=(None,), cols=None, note=""):
    cols = cols or list(itertools.product(vals, repeat=n))

    def run(s):
        (e, st, idv), kw, cs = s[0], dict(s[1]), s[2:]
        y = [[c[i] for c in cs] for i in range(n)]
        continuous_run(n, e, st, idv, y, kw)
    heads = [(e, st, idv) for e in graphs for st in styles for idv in ids]
    return product_space(name, [heads, [tuple(sorted(k.items())) for k in kws]] + [cols] * t, run, note=note)


LABELS = {"ints": [0, 1, 2], "gap": [7, -3, 20], "str": ["low", "a", "zz"], "float": [0.5, 2.5, -1.0],
          "bool": [False, True, None]}


def discrete_run(s):
    (n, edges, style, ids), lab, cs = s[0], s[1], s[2:]
    labels = LABELS[lab]
    raw = [[labels[c[i]] for c in cs] for i in range(n)]
    y = np.array(raw)
    keep = y.copy()
    w = S.real_w(n, edges, style, ids)
    seen = sorted({v for r in raw for v in r})
    pos = {v: i for i, v in enumerate(seen)}
    cls = [[pos[v] for v in r] for r in raw]
    W = S.wmatrix(n, edges, style)
    sm = Spatial_Markov(y, w, discrete=True)
    k = len(seen)
    check_counts(sm, n, len(cs), k, k, [[{v} for v in r] for r in cls], S.categorical_lags(W, cls))
    need([v for v in np.asarray(sm.classes).tolist()] == seen, f"classes {sm.classes!r}, expected {seen}")
    unchanged(keep, y, "y")


MANY = {"ints": lambda c: c, "gap": lambda c: 1000 - 37 * c, "str": lambda c: "c" + "abcdefghijklmnop"[c % 16] * (1 + c // 16 + c % 3),
        "float": lambda c: 0.5 - c / 8, "int8": lambda c: np.int8(c * 7 - 60), "uint8": lambda c: np.uint8(255 - c)}


def many_run(s):
    """Categorical panels of many units and classes."""
    n, t, k, style, lab, m = s
    edges = grid_w(n)
    raw = [[MANY[lab](((i * (3 + m) + j * (5 + i % (2 + m)) + (i * j * m) % 5 + i // 7) % (k + m)) % k) for j in range(t)] for i in range(n)]
    y = np.array(raw)
    keep = y.copy()
    seen = sorted({v for r in raw for v in r})
    pos = {v: i for i, v in enumerate(seen)}
    cls = [[pos[v] for v in r] for r in raw]
    ids = [f"u{(i * 7 + 3) % n}x" for i in range(n)] if n % 7 and m else None
    lag = S.categorical_lags(S.wmatrix(n, edges, style), cls)
    sm = Spatial_Markov(y, S.real_w(n, edges, style, ids), discrete=True)
    check_counts(sm, n, t, len(seen), len(seen), [[{v} for v in r] for r in cls], lag)
    need(np.asarray(sm.classes).tolist() == [v if not isinstance(v, np.generic) else v.item() for v in seen], f"classes {sm.classes!r}, expected {seen}")
    unchanged(keep, y, "y")


def size_run(s):
    n, t, k, m = s
    edges = [(i, i + 1) for i in range(n - 1)]
    y = [[(3 * i + 5 * j + (i * j) % 7) % 11 for j in range(t)] for i in range(n)]
    continuous_run(n, edges, "b", None, y, dict(cutoffs=tuple(float(x) for x in np.linspace(1, 9, k - 1)) if k > 1 else (100.0,),
                                                lag_cutoffs=tuple(float(x) for x in np.linspace(2, 18, m - 1)) if m > 1 else (100.0,)))


def classes_run(s):
    """Many units and very many classes or lag classes."""
    n, t, k, m, how = s
    edges = [(i, (i + 1) % n) if i < n - 1 else (0, n - 1) for i in range(n)]
    y = [[(i * 389 + j * 211 + (i * j) % 7 * 31) % 2003 for j in range(t)] for i in range(n)]
    kw = dict(cutoffs=tuple(float(x) + 0.5 for x in range(2000 // k, 2000 - 2000 // k, 2000 // k))[:k - 1],
              lag_cutoffs=tuple(float(x) + 0.5 for x in range(4000 // m, 4000 - 4000 // m, 4000 // m))[:m - 1]) if how == "given" else dict(k=k, m=m)
    continuous_run(n, edges, "b", None, y, kw)


def spaces(tier):
    deep = tier == "thorough"
    g2 = list(all_graphs(2))
    g3 = list(all_graphs(3))
    g3c = [((0, 1), (1, 2)), ((0, 1), (0, 2), (1, 2)), ((0, 2),)]
    g4c = [((0, 1), (1, 2), (2, 3)), ((0, 1), (0, 2), (0, 3)), ((0, 1), (1, 2), (2, 3), (0, 3)),
           ((0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)), ((0, 1), (2, 3))]
    kc = [dict(cutoffs=a, lag_cutoffs=b) for a, b in CUTS]
    v3 = (0, 1, 2)
    some3 = list(itertools.product(v3, repeat=3))
    out = [
        cont_space("cutoffs n=2 t=3", 2, 3, v3, g2, "b", kc[:3], note="all 2-unit 3-period panels over 3 values"),
        cont_space("cutoffs n=3 t=2", 3, 2, v3, g3 if deep else g3c, "brd" if deep else "br", kc if deep else kc[:4],
                   note="all 3-unit 2-period panels over 3 values"),
        cont_space("cutoffs n=4 t=2", 4, 2, (0, 1), g4c, "br", kc[:2], note="all 4-unit 2-period binary panels"),
        cont_space("cutoffs n=3 t=3 binary", 3, 3, (0, 1), g3c, "br", kc[:2]),
        cont_space("unit names and orders", 3, 2, v3, g3c[:1], "bd", kc[1:2],
                   ids=[("c", "a", "b"), (2, 0, 1), (10, 20, 5)]),
        cont_space("quantiles n=3 t=2", 3, 2, v3, g3c[:2], "b", QUANT if deep else QUANT[:8],
                   note="pooled and per-period quantiles, (k, m) mixes"),
        cont_space("quantiles n=4 t=2", 4, 2, (0, 1, 3), g4c[:3] if deep else g4c[:1], "r", QUANT[:4] if deep else QUANT[2:4],
                   cols=None if deep else list(itertools.product((0, 1, 3), repeat=4))[::3]),
        cont_space("mixed cutoffs and quantiles", 3, 2, v3, g3c[:2], "b", MIXED),
    ]
    hs3 = [(3, e, st, None) for e in g3 for st in ("b", "r")]
    out.append(product_space("categorical n=3 t=2", [hs3, list(LABELS)[:4], some3, some3], discrete_run))
    hsb = [(3, e, "d", None) for e in g3c]
    out.append(product_space("categorical weighted n=3 t=2", [hsb, ["ints", "gap"], some3, some3], discrete_run))
    c4 = list(itertools.product((0, 1), repeat=4)) if not deep else list(itertools.product((0, 1, 2), repeat=4))
    hs4 = [(4, e, "d", None) for e in g4c] + [(4, g4c[1], "b", ("d", "b", "a", "c"))]
    out.append(product_space("categorical weighted n=4 t=2", [hs4, ["str"] + (["bool"] if not deep else []), c4, c4[:16] if deep else c4], discrete_run))
    ns, ts = [2, 3, 10, 40] + ([200] if deep else []), [2, 3, 12] + ([60] if deep else [])

    def run_sz(s):
        size_run(s)
    out.append(product_space("storage and magnitudes", [list(STORE), [4, 9, 25] + ([100] if deep else []), [2, 5] + ([30] if deep else []), ["b", "r", "d"],
                             ["on", "above", "below", "quantiles", "per period"], range(3)], store_run))
    out.append(product_space("categorical, many units and classes", [[9, 25, 70] + ([200] if deep else []), [2, 6], [2, 3, 5, 11, 17], ["b", "r", "d"], list(MANY), range(2)], many_run))
    out.append(product_space("very many classes", [[150, 1200] if not deep else [150, 700, 1200, 3000], [3], [130, 260], [2], ["given", "quantiles"]], classes_run))
    out.append(product_space("very many lag classes", [[150, 1200] if not deep else [150, 700, 1200, 3000], [3], [2], [130, 260], ["given", "quantiles"]], classes_run))
    out.append(product_space("sizes", [ns, ts, [2, 3, 6], [1, 2, 5, 9]], run_sz))
    return out
