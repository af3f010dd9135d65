"""C33: results follow the units, not their order or their names."""
import itertools
import warnings

import numpy as np

from ..core import Skip, product_space
from ..util import all_graphs, graphs_upto_iso, neighbours, no_isolates
from . import _meta as M

warnings.simplefilter("ignore")

BINDING = "every analysis of the catalogue is executed on the real code for the units in one order and in every other order and naming"
ASSUMPTIONS = ["rank Markov chains are compared without ties (these are documented to be resolved in order of occurrence)",
               "cluster numbers matter only as a partition; quadrants are not compared where a deviation is exactly zero",
               "the LISA independence test is left to C16 (known finding)", "identical results: equal up to 1e-9"]

NAMES = {
    "0..": lambda n: list(range(n)),
    "backwards": lambda n: list(range(n))[::-1],
    "far": lambda n: [(i * 37 + 11) % 101 for i in range(n)],
    "text": lambda n: [chr(ord("a") + (i * 5 + 3) % 26) + ("" if i < 26 else str(i)) for i in range(n)],
    "long": lambda n: [f"administrative unit number {(i * 7 + 2) % 997:>4} of the country" for i in range(n)],
    "numbers as text": lambda n: [str((i * 7 + 5) % (3 * n + 1) if n % 7 == 0 else i * 3 % (3 * n) + 8) for i in range(n)],
    "tuples": lambda n: [(i % 2, -i) for i in range(n)],
    "fractions": lambda n: [i / 4 - 1 for i in range(n)],
}


def arcs(n, edges, style):
    nb = [[] for _ in range(n)]
    for q, (a, b) in enumerate(edges):
        v = 1.0 if style == "b" else float(q + 1)
        nb[a].append((b, v))
        nb[b].append((a, v))
    return nb


def panel(n, cols, kind):
    """Columns given as tuples of ranks, as numbers."""
    if kind == "plain":
        return np.array(cols, float).T * 1.25 + 0.5
    return np.array([[2.0 ** (c + s) for c in col] for s, col in enumerate(cols)]).T


_base = {}


def base(key, d, an):
    """Result of an analysis for the units in the first order (computed once per worker and case)."""
    k = (key, an)
    if k not in _base:
        if len(_base) > 400:
            _base.clear()
        try:
            _base[k] = M.ANALYSES[an](d)
        except (ZeroDivisionError, ValueError) as e:
            _base[k] = type(e)
    return _base[k]


def judge(key, d, perm, names, flip, an):
    d.tag = list(range(d.n))
    b = base(key, d, an)
    e = d.permuted(perm, names, flip)
    e.tag = list(perm)
    try:
        r = M.ANALYSES[an](e)
    except (ZeroDivisionError, ValueError) as x:
        r = type(x)
    if b is None and r is None:
        return False
    if isinstance(b, type) or isinstance(r, type):
        M.need_same_refusal(b, r, an)
        return False
    M.compare(b, r, perm, f"{an}, units in order {list(perm)}")
    return True


def run(s):
    (n, edges, style, kind), cols, perm, nm, fl = s
    key = s[:2]
    d = M.rows(panel(n, cols, kind), (np.array(cols).T + 1) % 3, [(i * i + 1) % 3 % 2 for i in range(n)], arcs(n, edges, style), list(range(n)))
    done = [judge(key, d, perm, NAMES[nm](n), fl, an) for an in M.ANALYSES]
    if not any(done):
        raise Skip()


def big_edges(n, shape):
    if shape == "ring":
        return tuple((i, (i + 1) % n) if i < n - 1 else (0, n - 1) for i in range(n))
    if shape == "star":
        return tuple((0, i) for i in range(1, n))
    if shape == "blocks":
        return tuple((i, j) for i in range(n) for j in range(i + 1, n) if i // 4 == j // 4) + tuple((i, i + 4) for i in range(0, n - 4, 4))
    return tuple((i, j) for i in range(n) for j in range(i + 1, n) if (i * j + i + j) % 5 == 0 or j == i + 1)


def big_run(s):
    n, shape, t, style, nm, an = s
    vals = [[((i * (3 + 2 * q) + q * q + (i * i * (q + 1)) % 7) * 11) % 1009 for i in range(n)] for q in range(t)]
    d = M.rows(np.array(vals, float).T / 8, np.array(vals).T % 4, [(i * i + i) % 7 % 3 for i in range(n)], arcs(n, big_edges(n, shape), style), list(range(n)))
    mul = next(m for m in range(2 + n // 3, n) if np.gcd(m, n) == 1)
    perms = [tuple(range(n))[::-1], tuple((i + n // 2) % n for i in range(n)), tuple((i * mul + 1) % n for i in range(n)),
             tuple(range(0, n, 2)) + tuple(range(1, n, 2))]
    done = [judge((n, shape, t, style), d, p, NAMES[nm](n), bool(q % 2), an) for q, p in enumerate(perms)]
    if not any(done):
        raise Skip()


def spaces(tier):
    deep = tier == "thorough"
    nms = list(NAMES)
    p3, p4, p5 = (list(itertools.permutations(range(n))) for n in (3, 4, 5))
    g3 = [e for e in all_graphs(3) if no_isolates(3, e)]
    g4, g5 = list(graphs_upto_iso(4)), list(graphs_upto_iso(5))
    w3 = [(0, 0, 1), (1, 0, 1), (0, 2, 0), (2, 2, 1)]
    c3 = [(a, b) for a in p3[:2] for b in p3] + [(a, b, c) for a in p3[:1] for b in p3[1:] for c in p3[::2]] + list(itertools.product(w3, p3[1:3] + w3[:2]))
    w4 = [(0, 0, 1, 2), (1, 0, 1, 0), (3, 0, 3, 3)]
    c4 = [(p4[0], b) for b in p4[::(2 if deep else 5)]] + [(p4[3], b, c) for b in p4[1::(5 if deep else 11)] for c in p4[::7]] + list(itertools.product(w4, w4))
    c5 = [(p5[7], b, p5[61]) for b in p5[::(11 if deep else 37)]] + [((0, 1, 0, 2, 2), (1, 1, 0, 2, 0))]
    return [
        product_space("three units", [[(3, e, st, k) for e in g3 for st in "bd" for k in ("plain", "powers")], c3, p3, nms[3::(1 if deep else 4)], [False, True] if deep else [True]], run),
        product_space("three units, every naming", [[(3, g3[0], "d", "plain")], c3[:6], p3, nms, [False, True]], run),
        product_space("four units", [[(4, e, st, "plain") for e in g4[::1] for st in ("bd" if deep else "d")], c4 if deep else c4[::2], p4[1::(1 if deep else 2)], ["text"] + (["tuples", "0.."] if deep else []), [True]], run),
        product_space("five units", [[(5, e, "b", "plain") for e in g5[::(1 if deep else 6)]], c5, p5[1::(3 if deep else 29)], ["far", "long"], [False]], run),
        product_space("islands", [[(4, e, "b", "plain") for e in (((0, 1),), (), ((1, 2), (2, 3)), ((0, 3), (1, 3)))], c4[::7], p4[1::3], ["text", "fractions"], [True]], run),
        product_space("more units", [[9, 14, 23, 40] + ([65, 129] if deep else []), ["ring", "star", "blocks", "mixed"], [2, 4], ["b", "d"], ["numbers as text", "long", "far"], list(M.ANALYSES)], big_run,
                      note="reversed, rotated, strided and split orders"),
        product_space("many units", [[66, 130] + ([260] if deep else []), ["ring", "star", "mixed"], [3], ["d"], ["long"], list(M.ANALYSES)], big_run),
    ]
