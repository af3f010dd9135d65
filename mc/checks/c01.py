"""C01: Markov transition counts."""
import itertools

import numpy as np
from giddy.markov import Markov

from ..core import Mismatch, Space, product_space
from ..util import eq, exact, need, unchanged

BINDING = ("the model counts moves while the panel is extended period by period; every complete "
           "panel (and every prefix of it) is handed to giddy.markov.Markov and all counts compared")
ASSUMPTIONS = ["numpy array construction and equality behave as documented"]


def model_counts(cols, k):
    """Counts by walking the trace period by period."""
    T = [[0] * k for _ in range(k)]
    for a, b in zip(cols, cols[1:]):
        for i, j in zip(a, b):
            T[i][j] += 1
    return T


def compare(m, T, labels, n, t):
    k = len(labels)
    need(m.k == k, f"k is {m.k}, expected {k}")
    exact(m.transitions, T, "transitions")
    need(len(m.classes) == k and all(a == b for a, b in zip(list(m.classes), labels)),
         f"classes {list(m.classes)!r}, expected {labels!r}")
    need(float(np.sum(m.transitions)) == n * (t - 1), "counts do not add up to n*(t-1)")


# ---- panels: first component is (n, k), then one column of labels per period
def panel_space(n, k, t):
    cols = list(itertools.product(range(k), repeat=n))

    def choices(s):
        return cols if len(s) < t else None

    def run(s):
        arr = np.array(s).T                      # (n, t)
        seen = sorted({x for c in s for x in c})
        pos = {v: i for i, v in enumerate(seen)}
        keep = arr.copy()
        m = Markov(arr, summary=False)
        compare(m, model_counts([[pos[x] for x in c] for c in s], len(seen)), seen, n, len(s))
        m = Markov(arr, classes=np.arange(k), summary=False)
        compare(m, model_counts(s, k), list(range(k)), n, len(s))
        unchanged(keep, arr, "panel")
    return Space(f"panels n={n} k={k} t<={t}", choices, run, prefixes=1,
                 note=f"all panels of {n} units, up to {t} periods, labels 0..{k - 1}")


ENC = {
    "ints": ([-5, 7, 3], None), "int8": ([-128, 127, 3], np.int8), "uint8": ([255, 0, 200], np.uint8),
    "big": ([2 ** 40, -2 ** 40, 2 ** 40 + 1], np.int64),
    "floats": ([0.5, -1.25, 1e10], None), "close": ([0.1, 0.1 + 2 ** -50, 0.1 - 2 ** -50], None),
    "strings": (["b", "a", "ccc"], None), "longer": (["x", "xx", "xxx"], None),
    "case": (["B", "a", "C"], None), "digits": (["10", "9", "1"], None),
    "object": (["b", "a", "ccc"], object), "objint": ([30, -10, 20], object),
    "bool": ([True, False, None], None),
    "prefix": (["district of the upper north " + x for x in ("b", "a", "ab")], None),
    "suffix": ([x + " district of the upper north" for x in ("b", "a", "ab")], None),
    "blanks": (["a", "a ", " a"], None), "spelled numbers": (["1", "1.0", "01"], None),
    "big odd": ([2 ** 53 + 1, 2 ** 53, 2 ** 53 + 2], np.int64), "unsigned": ([2 ** 64 - 1, 2 ** 64 - 2, 2 ** 63], np.uint64),
    "float32": ([0.5, 0.5 + 2 ** -24, -1.0], np.float32), "tiny": ([5e-324, 0.0, -5e-324], None),
    "infinite": ([np.inf, -np.inf, 0.0], None), "digits16": ([0.1 + 0.2, 0.3, 0.3 - 2 ** -54], None),
    "negative": ([-1, -2, 0], None), "fractions": ([1.2, 1.7, 1.0], None),
    "unicode": (["é", "z", "ß"], None), "empty": (["", " ", "a"], None),
}
STORE = ("array", "fortran", "list", "tuple", "view", "readonly")
CLS = ("none", "sorted", "reversed", "rotated", "superset")


def store(rows, dtype, how):
    if how == "list":
        return [list(r) for r in rows]
    if how == "tuple":
        return tuple(tuple(r) for r in rows)
    a = np.array(rows, dtype=dtype)
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "view":
        big = np.empty((2 * a.shape[0], 3 * a.shape[1]), dtype=a.dtype)
        big[:] = a.flat[0]
        v = big[::2, ::3]
        v[:] = a
        return v
    if how == "readonly":
        a.setflags(write=False)
    return a


def encoding_run(s):
    enc, how, cls, cols = s
    labels, dtype = ENC[enc]
    if enc == "bool":
        cols = [tuple(x % 2 for x in c) for c in cols]
        labels = labels[:2]
    rows = [[labels[c[i]] for c in cols] for i in range(len(cols[0]))]
    seen = sorted({x for r in rows for x in r})
    extra = {"strings": "zzzz", "longer": "xxxxx", "case": "D", "digits": "11", "object": "zzzz",
             "unicode": "zz", "empty": "b", "prefix": "district of the upper north c", "suffix": "z", "blanks": "b", "spelled numbers": "2"}.get(enc, {"uint8": 7, "int8": 9}.get(enc, 11))
    if enc == "bool":
        extra = None
    full = sorted(labels)
    if cls == "none":
        classes, want = None, seen
    else:
        want = list(full)
        if cls == "reversed":
            want = want[::-1]
        elif cls == "rotated":
            want = want[1:] + want[:1]
        elif cls == "superset" and extra is not None:
            want = want[:1] + [extra] + want[1:]
        classes = np.array(want, dtype=dtype)
    data = store(rows, dtype, how)
    keep = np.array(data, copy=True)
    m = Markov(data, classes=classes, summary=False)
    pos = {v: i for i, v in enumerate(want)}
    T = model_counts([[pos[labels[x]] for x in c] for c in cols], len(want))
    compare(m, T, want, len(rows), len(cols))
    unchanged(keep, np.array(data), "panel")
    if classes is not None:
        need(list(classes) == want, "the given class list was modified")


def refusal_run(s):
    enc, missing, cols = s
    labels, dtype = ENC[enc]
    rows = [[labels[c[i]] for c in cols] for i in range(len(cols[0]))]
    classes = np.array([x for i, x in enumerate(labels) if i != missing], dtype=dtype)
    starts_or_ends = {x for c in cols for x in c}
    bad = missing in starts_or_ends
    try:
        m = Markov(np.array(rows, dtype=dtype), classes=classes, summary=False)
    except Exception:
        need(bad, "a panel whose labels are all listed was refused")
        return
    need(not bad, f"label {labels[missing]!r} outside the class list was accepted: "
                  f"{m.transitions.tolist()}")


def size_run(s):
    n, t, k, a, b = s
    idx = (a * np.arange(n)[:, None] + b * np.arange(t)[None, :] + (np.arange(n)[:, None] // 3)) % k
    T = np.zeros((k, k))
    np.add.at(T, (idx[:, :-1].ravel(), idx[:, 1:].ravel()), 1)
    m = Markov(idx, classes=np.arange(k), summary=False)
    compare(m, T, list(range(k)), n, t)


KINDS = {"int8": np.int8, "uint8": np.uint8, "int16": np.int16, "int64": np.int64, "uint64": np.uint64, "float32": np.float32, "float64": np.float64, "text": "U9", "objects": object}


def kinds_run(s):
    (n, t, k), kind, first, a, b, listed = s
    idx = (a * np.arange(n)[:, None] + b * np.arange(t)[None, :] + (np.arange(n)[:, None] // 3)) % k
    T = np.zeros((k, k), int)
    np.add.at(T, (idx[:, :-1].ravel(), idx[:, 1:].ravel()), 1)
    nums = {"low": np.arange(k) - k // 2, "zero": np.arange(k), "high": np.arange(k) + 127 - k + 1, "wide": np.arange(k) * 3 - k}[first]
    if kind[0] == "u":
        nums = nums - min(nums.min(), 0)
    labels = np.array([f"{v + 200:04d}" for v in nums] if kind == "text" else nums).astype(KINDS[kind])
    data = labels[idx]
    keep = data.copy()
    m = Markov(data, classes=labels if listed else None, summary=False)
    seen = list(range(k)) if listed else sorted(set(idx.ravel().tolist()))
    compare(m, T[np.ix_(seen, seen)], [labels[q] for q in seen], n, t)
    unchanged(keep, data, "panel")


def spaces(tier):
    deep = tier == "thorough"
    dims = [(1, 3, 7), (2, 2, 6), (2, 3, 4), (3, 2, 4), (4, 2, 3), (3, 3, 3), (1, 4, 5), (2, 4, 3), (5, 2, 2)]
    if deep:
        dims = [(1, 3, 9), (2, 2, 7), (2, 3, 5), (3, 2, 5), (4, 2, 4), (3, 3, 4), (1, 4, 7),
                (2, 4, 4), (5, 2, 3), (4, 3, 3), (6, 2, 3), (3, 4, 3), (2, 5, 3)]
    out = [panel_space(*d) for d in dims]
    n, t = (2, 3)
    cols3 = list(itertools.product(range(3), repeat=n))
    panels = list(itertools.product(cols3, repeat=t))
    if not deep:
        panels = [p for p in panels if p[0] <= p[1] or p[1] <= p[2]][::3]
    out.append(product_space("label encodings x storage x class lists",
                             [list(ENC), STORE, CLS, panels], encoding_run,
                             note=f"{len(ENC)} encodings, {len(STORE)} storage layouts, {len(CLS)} "
                                  f"class lists, {len(panels)} panels 2x3 over 3 labels"))
    p2 = list(itertools.product(list(itertools.product(range(3), repeat=2)), repeat=2))
    out.append(product_space("labels outside the class list",
                             [[e for e in ENC if e != "bool"], range(3), p2], refusal_run,
                             note="every 2x2 panel over 3 labels with one label left out of the list"))
    ns = [1, 2, 3, 7, 31, 127, 128, 129, 255, 256, 257, 300, 1000] + ([2000, 65535, 65537] if deep else [])
    ts = [2, 3, 5, 17, 130, 260] + ([1000] if deep else [])
    ks = [1, 2, 3, 9, 10, 11, 12, 40]
    sizes = [(a, b, c) for a in ns for b in ts for c in ks if a * b <= (10 ** 6 if deep else 60000)]

    def run_sz(s):
        (n_, t_, k_), a, b = s
        size_run((n_, t_, k_, a, b))
    out.append(product_space("sizes", [sizes, [0, 1, 2, 5], [0, 1, 3]], run_sz,
                             note="structured panels up to 1000 units, 260 periods, 40 classes"))
    out.append(product_space("many units, stored narrowly", [[(n, t, k) for n in [63, 257, 600, 1300] + ([5200, 70001] if deep else []) for t in (2, 3) for k in (2, 12, 20, 40)],
                                                             list(KINDS), ["low", "zero", "high", "wide"], [1, 5], [1, 3], [False, True]], kinds_run,
                             note="class numbers near the ends of their type, negative ones, texts and objects"))
    return out
