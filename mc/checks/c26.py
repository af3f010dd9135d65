"""C26: preset sequence distances."""
import itertools

import numpy as np
from giddy.sequence import Sequence

from ..chain import normalise
from ..core import Mismatch, product_space
from ..util import eq, exact, need
from . import _seq as Q

BINDING = "cost matrices of every preset are recomputed from the sequences, and all alignments enumerated with them"

LAB = {"int": [0, 1, 2, 3], "gap": [-3, 5, 40, 41], "str": ["b", "c", "x", "z"], "flt": [0.5, 1.0, 2.5, 9.0], "rev": [9, 7, 3, 1]}


def preset(name, seqs, k):
    """(subs, indel) with seqs as class numbers in sorted order."""
    if name == "interval":
        return [[float(abs(i - j)) for j in range(k)] for i in range(k)], k - 1
    if name == "arbitrary":
        return [[0.0 if i == j else 0.5 for j in range(k)] for i in range(k)], 1
    if name == "markov":
        C = [[0] * k for _ in range(k)]
        for s in seqs:
            for a, b in zip(s, s[1:]):
                C[a][b] += 1
        P = normalise(C, False)
        return [[0.0 if i == j else float(1 - (P[i][j] + P[j][i]) / 2) for j in range(k)] for i in range(k)], 1


def tran_cost(a, b):
    if a == b:
        return 0.0
    if a[0] is None or b[0] is None:
        return 1.0
    return float(abs(int(a[0] == a[1]) - int(b[0] == b[1])))


def spell(name, how):
    return {"lower": name, "upper": name.upper(), "title": name.title(), "mixed": "".join(c.upper() if i % 2 else c for i, c in enumerate(name))}[how]


def compare(name, how, raw, arg):
    labels = sorted({v for s in raw for v in s})
    k = len(labels)
    seqs = [tuple(labels.index(v) for v in s) for s in raw]
    keep = [list(s) for s in arg]
    s = Sequence(arg, dist_type=spell(name, how))
    exact(s.classes, labels, "classes")
    need(s.k == k, f"k = {s.k}, expected {k}")
    if name == "hamming":
        D = [[float(sum(a != b for a, b in zip(p, q))) for q in seqs] for p in seqs]
    elif name == "tran":
        tr = [tuple(zip((None,) + p[:-1], p)) for p in seqs]
        D = Q.matrix(tr, tran_cost, 2)
        need(s.indel == 2, f"indel {s.indel}")
        M = np.asarray(s.subs_mat)
        need(M.shape == (k * (k + 1),) * 2 and (M == M.T).all() and (np.diag(M) == 0).all(), "transition costs")
        names = [(None, a) for a in range(k)] + [(a, b) for a in range(k) for b in range(k)]
        exact(M, [[0.0 if a == b else tran_cost(a, b) for b in names] for a in names], "transition cost matrix")
    else:
        sub, indel = preset(name, seqs, k)
        eq(s.subs_mat, sub, "subs_mat")
        need(s.indel == indel, f"indel is {s.indel}, expected {indel}")
        D = Q.matrix(seqs, lambda a, b: sub[a][b], indel)
    eq(s.seq_dis_mat, D, f"distances ({name})")
    need([list(q) for q in arg] == keep, "sequences were modified")


def store(raw, kind):
    if kind == "array":
        return np.array(raw)
    if kind == "str":
        return ["".join(s) for s in raw]
    return [list(s) for s in raw]


def run(s):
    (name, how, lab, kind), seqs = s[0], s[1:]
    raw = [[LAB[lab][v] for v in q] for q in seqs]
    compare(name, how, raw, store(raw, kind))


def ragged_run(s):
    (name, lab, kind), seqs = s[0], s[1:]
    raw = [[LAB[lab][v] for v in q] for q in seqs]
    if name in ("interval", "arbitrary"):
        compare(name, "lower", raw, store(raw, kind))
    elif len({len(q) for q in raw}) > 1:
        try:
            r = Sequence(store(raw, kind), dist_type=name)
        except ValueError:
            return
        raise Mismatch(f"{name} of unequal lengths is not refused: {r.seq_dis_mat}")


def missing_run(s):
    """Every combination of missing cost information."""
    a, b, sub, indel = s
    kw = {}
    if sub:
        kw["subs_mat"] = np.array([[0.0, 1.0], [1.0, 0.0]])
    if indel:
        kw["indel"] = 1.5
    raw = [a, b, (0, 1)]
    if sub and indel:
        o = Sequence([list(r) for r in raw], **kw)
        need(o.indel == 1.5, "indel")
        exact(o.subs_mat, kw["subs_mat"], "subs_mat")
        eq(o.seq_dis_mat, Q.matrix(raw, lambda x, y: float(x != y), 1.5), "distances")
        return
    try:
        o = Sequence([list(r) for r in raw], **kw)
    except ValueError:
        return
    raise Mismatch(f"missing cost information is not refused ({sorted(kw)})")


def wide_run(s):
    """Many classes."""
    name, k, m, n = s
    raw = [[(i * m + r * r * (1 + i % 3) + r) % k for i in range(n)] for r in range(5)] + [[(i + r * n) % k for i in range(n)] for r in range((k + n - 1) // n)]
    compare(name, "lower", raw, np.array(raw))


def spaces(tier):
    deep = tier == "thorough"
    names = ["interval", "hamming", "arbitrary", "markov", "tran"]
    hows = ["lower", "upper", "title", "mixed"]
    forms = [("int", "array"), ("gap", "list"), ("str", "str"), ("str", "list"), ("flt", "array"), ("rev", "list"), ("str", "array")]
    w22 = list(itertools.product(range(2), repeat=2))
    w32, w33 = list(itertools.product(range(3), repeat=2)), list(itertools.product(range(3), repeat=3))
    w23, w24 = list(itertools.product(range(2), repeat=3)), list(itertools.product(range(2), repeat=4))
    o = [(n, h, l, st) for n in names for h in hows for l, st in forms]
    o1 = [(n, hows[i % 4], l, st) for i, (n, (l, st)) in enumerate(itertools.product(names, forms))]
    out = [
        product_space("spellings and storage, 3 sequences of 2", [o, w22, w22, w32], run),
        product_space("3 sequences of 2 over 3", [o1, w32, w32, w32], run),
        product_space("2 sequences of 3 over 3", [o1, w33, w33], run),
        product_space("3 sequences of 3 over 2", [o1, w23, w23, w23], run),
        product_space("2 sequences of 4 over 3", [[(n, "lower", "int", "array") for n in names]] +
                      [list(itertools.product(range(3), repeat=4))[::(1 if deep else 2)], list(itertools.product(range(3), repeat=4))], run),
        product_space("2 sequences of 6 over 2", [[(n, "lower", "gap", "list") for n in names], list(itertools.product(range(2), repeat=6)),
                                                  list(itertools.product(range(2), repeat=6))], run),
        product_space("varying lengths", [[(n, l, st) for n in ("interval", "arbitrary", "hamming") for l, st in (("str", "str"), ("int", "list"), ("gap", "list"))],
                                          Q.words(3, 1, 3), Q.words(3, 1, 4 if deep else 3)], ragged_run),
        product_space("missing cost information", [w22, w22, [False, True], [False, True]], missing_run),
        product_space("many classes", [names, [5, 9, 11, 13, 23], [1, 2, 3, 7], [4, 9]], wide_run),
        product_space("very many classes", [["interval", "hamming", "arbitrary", "markov"], [130, 260, 300], [1, 3], [9]], wide_run),
    ]
    return out
