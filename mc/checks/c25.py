"""C25: optimal matching distances."""
import itertools

import numpy as np
from giddy.sequence import Sequence

from ..core import product_space
from ..util import eq, exact, need
from . import _seq as Q

BINDING = ("the cost of every alignment is enumerated by the model (memoised for long sequences) and the minimum "
           "compared with the reported distance")
ASSUMPTIONS = ["each aligned pair of positions is substituted at most once (substitution costs need not be metric)"]


def encode(seqs, labels, store):
    out = [[labels[v] for v in s] for s in seqs]
    if store == "str":
        return ["".join(str(v) for v in s) for s in out]
    if store == "array":
        if len({len(s) for s in out}) == 1:
            return np.array(out)
        a = np.empty(len(out), dtype=object)
        for i, s in enumerate(out):
            a[i] = s
        return a
    if store == "rows":
        a = np.empty(len(out), dtype=object)
        for i, s in enumerate(out):
            a[i] = np.array(s)
        return a
    return out


def costs(k, kind):
    """Symmetric hollow substitution costs."""
    M = np.zeros((k, k))
    for i in range(k):
        for j in range(i + 1, k):
            v = {"unit": 1.0, "diff": float(j - i), "zero": 0.0 if (i + j) % 2 else 2.0, "odd": ((i * 7 + j * 5) % 9) / 4.0 + 0.1,
                 "small": 0.05, "steep": 10.0 if j - i > 1 else 0.3}[kind]
            M[i, j] = M[j, i] = v
    return M


KINDS = ["unit", "diff", "zero", "odd", "small", "steep"]


def compare(seqs, k, M, indel, labels, store):
    arg = encode(seqs, labels, store)
    km = M.copy()
    keep = [list(s) for s in arg]
    s = Sequence(arg, subs_mat=M, indel=indel)
    D = Q.matrix(seqs, lambda a, b: km[a, b], indel)
    eq(s.seq_dis_mat, D, f"distances ({store})")
    G = np.asarray(s.seq_dis_mat)
    need((G == G.T).all() and (np.diag(G) == 0).all(), "not symmetric with a zero diagonal")
    for i, j in itertools.combinations(range(len(seqs)), 2):
        if tuple(seqs[i]) == tuple(seqs[j]):
            need((G[i] == G[j]).all() and G[i, j] == 0, f"identical sequences {i}, {j} have different rows")
    need((M == km).all(), "costs were modified")
    need([list(q) for q in arg] == keep, "sequences were modified")
    exact(s.classes, sorted(labels[:k]) if not isinstance(labels[0], str) else sorted(labels[:k]), "classes")
    need(s.k == k, f"k = {s.k}")
    return G


INTS, GAPS, CHARS = list(range(300)), [3 * i - 4 for i in range(300)], [chr(65 + i) for i in range(26)]
LAB = {"int": INTS, "gap": GAPS, "chr": CHARS, "word": [f"s{i:03d}" for i in range(300)], "flt": [i * 0.5 - 1 for i in range(300)]}


def pair_run(s):
    (k, kind, indel, lab, store), a, b = s
    full = tuple(range(k)) * (2 if len(a) % 2 else 1)
    compare([a, b, full], k, costs(k, kind), indel, LAB[lab], store)


def context_run(s):
    """Distances do not depend on the company: every ordering, duplicates, removal."""
    (k, kind, indel, lab, store), a, b, c = s
    full = tuple(range(k))
    M = costs(k, kind)
    G = compare([a, b, c, full], k, M, indel, LAB[lab], store)
    two = compare([full, b, a], k, M, indel, LAB[lab], store)
    need(abs(two[1, 2] - G[0, 1]) < 1e-12, "the distance depends on which other sequences are analysed")
    H = compare([c, a, full, c, b, a], k, M, indel, LAB[lab], store)
    idx = [1, 4, 0, 2]
    need(np.allclose(H[np.ix_(idx, idx)], G, atol=1e-12), "the distance depends on order or duplicates")


def alphabet_run(s):
    """Large alphabets: element numbers with several digits."""
    k, kind, indel, lab, pairs = s
    seqs = [tuple(range(k))]
    for a, b in pairs:
        seqs.append((a % k, b % k))
    seqs.append(tuple(range(k - 1, -1, -1)))
    if len(set(map(len, seqs))) > 1:
        compare(seqs, k, costs(k, kind), indel, LAB[lab], "list")
    compare([x for x in seqs if len(x) == 2] + [seqs[0]], k, costs(k, kind), indel, LAB[lab], "rows")


def collide_run(s):
    """All sequences of two or three elements over values whose decimal forms concatenate alike."""
    k, vals, kind, store = s
    M = costs(k, kind)
    seqs = list(itertools.product(vals, repeat=2)) + [w for w in itertools.product(vals[:3], repeat=3)] + [tuple(range(k))]
    compare(seqs, k, M, 1.5, INTS, store)


def blocks(n):
    """All words 0^a 1^b 2^c of length n, and their cyclic renamings."""
    out = set()
    for a in range(n + 1):
        for b in range(n + 1 - a):
            for r in range(3):
                out.add(tuple((x + r) % 3 for x in (0,) * a + (1,) * b + (2,) * (n - a - b)))
    return sorted(out)


def very_long_run(s):
    """Sequences of some hundred periods; f names the family."""
    n, f, kind, indel = s
    k = 3
    a = {"mod": [(i * 7 + i // 5) % 3 for i in range(n)], "const": [0] * n, "blocks": [0] * (n - 4) + [1, 2, 1, 2]}[f]
    seqs = [tuple(a), tuple(a[5:] + a[:5]), tuple(a[: n // 3]), tuple([1, 2] + [0] * (n - 2)), (0, 1, 2)]
    compare(seqs, k, costs(k, kind), indel, CHARS, "str")


def many_run(s):
    """Several hundred different sequences."""
    n, kind, store = s
    k = 20
    compare([(i // k, i % k) for i in range(n)] + [tuple(range(k))], k, costs(k, kind), 0.8, GAPS, store)


def spaces(tier):
    deep = tier == "thorough"
    out = []
    w2 = Q.words(2, 1, 5 if deep else 4)
    o2 = [(2, kd, ind, lab, st) for kd in ("unit", "small", "steep", "zero") for ind in (0.0, 0.4, 1.0, 3.0)
          for lab, st in (("chr", "str"), ("int", "list"), ("word", "array"), ("gap", "rows"))]
    out.append(product_space("two elements, lengths 1..", [o2, w2, w2], pair_run))
    w3 = Q.words(3, 1, 3)
    o3 = [(3, kd, ind, lab, st) for kd in KINDS for ind in (0.25, 1.0, 2.5)
          for lab, st in (("chr", "str"), ("flt", "rows"))]
    out.append(product_space("three elements, lengths 1..3", [o3, w3, w3], pair_run))
    w4 = Q.words(3, 4, 4)
    out.append(product_space("three elements, length 4", [[(3, "odd", 0.7, "gap", "array"), (3, "steep", 1.0, "word", "list")],
                                                          w4, w4], pair_run))
    l1 = [tuple((i * m + i // 3) % 3 for i in range(n)) for n in (7, 8, 12) for m in (1, 2, 4)]
    out.append(product_space("long sequences", [[(3, kd, ind, "chr", "str") for kd in KINDS for ind in (0.2, 1.0, 4.0)], l1, l1], pair_run))
    b8 = blocks(8)
    out.append(product_space("shifted blocks", [[(3, "steep", 0.3, "chr", "str"), (3, "unit", 0.3, "int", "list")], b8[::(1 if deep else 4)], b8[::(1 if deep else 3)]], pair_run,
                             note="best alignments that shift one sequence by any distance"))
    out.append(product_space("very long sequences", [[130, 270], ["mod", "const", "blocks"], ["unit", "odd", "steep"], [0.2, 1.0, 40.0]], very_long_run))
    out.append(product_space("many sequences", [[135, 300], ["diff", "odd"], ["array", "list"]], many_run))
    wc = Q.words(2, 1, 2) + [(0, 1, 1), (1, 0, 0)]
    out.append(product_space("company", [[(2, "unit", 0.6, "chr", "str"), (2, "steep", 1.0, "gap", "list"), (3, "odd", 1.0, "int", "list")], wc, wc, wc], context_run))
    pr = [((1, 11), (11, 1)), ((11, 1), (1, 11)), ((1, 2), (12, 0)), ((10, 1), (1, 0)), ((0, 10), (1, 0)), ((110, 1), (11, 101)), ((1, 110), (11, 10))]
    out.append(product_space("large alphabets", [[10, 11, 12, 13, 21] + ([111, 120] if deep else [111]), ["diff", "odd"], [1.0, 30.0], ["int", "word", "gap"], pr],
                             lambda s: alphabet_run(s)))
    out.append(product_space("colliding names", [[12, 112], [(1, 11, 2), (1, 10, 0, 11), (0, 1, 11, 10)], ["diff", "odd"], ["list", "rows"]], collide_run))
    if deep:
        w5 = Q.words(2, 5, 6)
        out.append(product_space("two elements, lengths 5 and 6", [o2[::5], w5, w5], pair_run))
        w34 = Q.words(4, 1, 3)
        out.append(product_space("four elements", [[(4, kd, 0.8, "chr", "str") for kd in KINDS], w34, w34], pair_run))
    return out
