"""C35: units of measurement, spelling of classes and storage do not matter."""
import itertools
import warnings

import numpy as np

from ..core import Skip, product_space
from ..util import all_graphs, graphs_upto_iso, no_isolates, unchanged
from . import _meta as M
from .c33 import arcs, big_edges

warnings.simplefilter("ignore")

BINDING = "every analysis of the catalogue is executed on the real code for the values in one unit of measurement and storage and in every other"
ASSUMPTIONS = ["units of measurement differ by powers of two (exact), shifts are by whole numbers", "identical results: equal up to 1e-9",
               "quadrants are not compared where a deviation is exactly zero", "the LISA independence test is left to C16 (known finding)"]

SCALES = (-300, -100, -60, -33, -9, -1, 1, 7, 20, 33, 60, 100, 300)
SHIFTS = (-1000.0, -3.0, 64.0, 4096.0)
SHIFTABLE = {"lisa", "lisa geoda", "full rank", "geo rank", "taus", "theta", "rose 8", "rose 5"}
VALUES = {"spatial fixed", "spatial per period", "lisa", "lisa geoda", "full rank", "geo rank", "taus", "theta", "rose 8", "rose 5"}
LABELLED = {"markov", "spatial discrete", "sequences"}


def strided(a):
    big = np.zeros((a.shape[0] * 2 + 1, a.shape[1] * 3), a.dtype)
    big[1::2, ::3] = a
    return big[1::2, ::3]


def frozen(a):
    a = a.copy()
    a.setflags(write=False)
    return a


STORE = {
    "int64": lambda a: a.astype(np.int64), "int32": lambda a: a.astype(np.int32), "int16": lambda a: a.astype(np.int16), "int8": lambda a: a.astype(np.int8),
    "uint8": lambda a: a.astype(np.uint8), "uint16": lambda a: a.astype(np.uint16), "uint32": lambda a: a.astype(np.uint32), "uint64": lambda a: a.astype(np.uint64),
    "float32": lambda a: a.astype(np.float32), "columns": np.asfortranarray, "strided": strided, "frozen": frozen,
    "backwards": lambda a: a[::-1].copy()[::-1], "turned": lambda a: a.T.copy().T,
}
SPELL = {
    "text": lambda k: np.array([chr(ord("a") + 2 * i) for i in range(k)]), "words": lambda k: np.array(["class %s of the distribution" % chr(97 + i) for i in range(k)]),
    "negative": lambda k: np.arange(k) - 5, "sparse": lambda k: np.arange(k) ** 3 * 10 + 7, "quarters": lambda k: np.arange(k) / 4 - 0.5,
    "int8": lambda k: np.arange(k, dtype=np.int8) + np.int8(127 - k), "uint8": lambda k: np.arange(k, dtype=np.uint8) + np.uint8(250 - k),
    "huge": lambda k: np.arange(k) + 2 ** 53, "close": lambda k: 1.0 + np.arange(k) * 2.0 ** -50, "float32": lambda k: np.arange(k, dtype=np.float32) * np.float32(.1),
    "long end": lambda k: np.array([chr(ord("a") + i) + "x" * 150 for i in range(k)]), "long start": lambda k: np.array(["x" * 150 + chr(ord("a") + i) for i in range(k)]),
    "long middle": lambda k: np.array(["x" * 90 + chr(ord("a") + i) + "y" * 90 for i in range(k)]), "accents": lambda k: np.array(["\u00e9" * (i + 1) for i in range(k)]), "prefix": lambda k: np.array(["x" * (i + 1) for i in range(k)]),
}

_base = {}


def result(d, an):
    try:
        return M.ANALYSES[an](d)
    except (ZeroDivisionError, ValueError) as e:
        return type(e)


def base(key, d, an):
    k = (key, an)
    if k not in _base:
        if len(_base) > 400:
            _base.clear()
        _base[k] = result(d, an)
    return _base[k]


def judge(b, r, an, what, factor=1.0, shift=False, labels=False):
    if b is None and r is None:
        return False
    if isinstance(b, type) or isinstance(r, type):
        M.need_same_refusal(b, r, f"{an}, {what}")
        return False
    for (nm, kind, v), (_, _, u) in zip(b, r, strict=True):
        if labels and nm == "classes" or shift and nm == "lag":
            continue
        if kind in ("scale", "scale1"):
            u = np.asarray(u, float) / factor if shift is False else u
        if kind == M.PART:
            v, u = ([M.partition(c) for c in np.asarray(q).T.tolist()] for q in (v, u))
        M.same(v, u, f"{an}, {what}, {nm}")
    return True


def run(s):
    """s = ((n, edges, style), columns, change)"""
    (n, edges, style), c, (what, arg) = s
    data((s[:2]), n, arcs(n, edges, style), c, what, arg)


def wide_run(s):
    """The same with values of very different size."""
    (n, edges, style), c, (what, arg) = s
    data((s[:2], "wide"), n, arcs(n, edges, style), c, what, arg, wide=True)


def data(key, n, ar, c, what, arg, wide=False):
    y = np.ascontiguousarray(np.array(c, float).T)
    if wide:
        y = 2.0 ** (4 * y + np.arange(y.shape[1]) % 3)
    cls = np.ascontiguousarray(np.array(c).T % 3)
    mk = lambda y, cls: M.Data(y, cls, [(i * i + 1) % 3 % 2 for i in range(n)], ar, list(range(n)))
    d = mk(y, cls)
    done = False
    if what in ("scale", "shift", "store"):
        f = 2.0 ** arg if what == "scale" else 1.0
        z = y * f if what == "scale" else y + arg if what == "shift" else STORE[arg](y)
        keep = z.copy()
        for an in sorted(SHIFTABLE if what == "shift" else VALUES):
            if an.startswith("lisa") and what == "scale" and abs(arg) > 100:
                continue                                  # second moments of esda leave the range of numbers
            done |= judge(base(key, d, an), result(mk(z, cls), an), an, f"{what} {arg}", f, what == "shift")
        unchanged(keep, z, "y")
    if what in ("store", "spell"):
        if what == "spell":
            cl = np.unique(cls)
            z = SPELL[arg](len(cl))[np.searchsorted(cl, cls)]
            z2 = cls * 0 + np.searchsorted(cl, cls)
            key, d = (key, "spell"), mk(y, z2)
        else:
            z = STORE[arg](cls)
        keep = z.copy()
        for an in sorted(LABELLED):
            done |= judge(base(key, d, an), result(mk(y, z), an), an, f"{what} {arg}", labels=True)
        unchanged(keep, z, "classes")
    if not done:
        raise Skip()


def big_run(s):
    n, shape, t, style, top, (what, arg) = s
    c = tuple(tuple(((i * (3 + 2 * q) + q * q + (i * i * (q + 1)) % 7) * 11) % 1009 % top for i in range(n)) for q in range(t))
    data((n, shape, t, style, top), n, arcs(n, big_edges(n, shape), style), c, what, arg)


def spaces(tier):
    deep = tier == "thorough"
    p3, p4 = (list(itertools.permutations(range(n))) for n in (3, 4))
    g3 = [(3, e, st) for e in all_graphs(3) if no_isolates(3, e) for st in "bd"]
    g4 = [(4, e, st) for e in graphs_upto_iso(4) for st in "bd"]
    c3 = [(a, b) for a in p3 for b in p3] + [(a, b, c) for a in ((0, 0, 1), (2, 2, 1), (5, 1, 9)) for b in p3 for c in ((7, 0, 3), (0, 1, 1))]
    c4 = [(a, b, c) for a in (p4[1], p4[9], (0, 0, 2, 1)) for b in p4[::5] + [(5, 5, 0, 1)] for c in p4[2::9]]
    near = [q for b in (2 ** 36, 2 ** 24) for q in sorted(set(itertools.permutations((b, b, 1, 3))))]
    change = [("scale", q) for q in SCALES] + [("shift", q) for q in SHIFTS] + [("store", q) for q in STORE] + [("spell", q) for q in SPELL]
    return [
        product_space("three units", [g3 if deep else g3[:3] + g3[6:7], c3 if deep else c3[::3], change], run),
        product_space("four units", [g4 if deep else g4[::5], c4 if deep else c4[::7], change], run),
        product_space("values of very different size", [g3 if deep else g3[:1], c3 if deep else c3[1::3], [q for q in change if q[0] in ("scale", "shift") or q[1] in ("columns", "strided", "uint64")]], wide_run),
        product_space("nearly balanced", [[(4, big_edges(4, "ring"), "b"), (4, big_edges(4, "star"), "b"), (4, ((0, 1), (2, 3)), "b")], list(itertools.product(near[:(99 if deep else 6)], near[::(1 if deep else 3)])),
                                          [q for q in change if q[0] in ("scale", "shift") or q[1] in ("columns", "strided", "uint64")]], run,
                      note="neighbours on average almost, but not exactly, at the mean"),
        product_space("islands", [[(4, ((0, 1),), "b"), (4, (), "b")], c4[::12], change], run),
        product_space("larger panels", [[12, 30, 70] + ([140] if deep else []), ["ring", "star", "mixed"], [2, 5], ["b", "d"] if deep else ["d"], [120, 9], change], big_run),
    ]
