"""C03: classification of chains."""
import contextlib
import io
import itertools
import re

import numpy as np
from giddy.markov import FullRank_Markov, GeoRank_Markov, Markov

from ..core import Space, product_space
from ..util import laid_out, classes_of, need

BINDING = ("the model computes strong components and closed classes by transitive closure of every "
           "directed graph; each graph is realised as a panel and every reported list, number and "
           "the printed summary of the real object are compared")


def as_sets(lst):
    return sorted(tuple(sorted(int(x) for x in np.ravel(c))) for c in lst)


def model(T):
    k = len(T)
    adj = [[T[i][j] > 0 for j in range(k)] for i in range(k)]
    for i in range(k):
        if not any(adj[i]):
            adj[i][i] = True
    cc, rc = classes_of(adj)
    tc = [c for c in cc if c not in rc]
    ab = [i for i in range(k) if adj[i] == [j == i for j in range(k)]]
    return cc, rc, tc, ab


def parse(text):
    """The facts stated by the printed summary."""
    d = {}
    d["irreducible"] = bool(re.search(r"\birreducible\b", text))
    d["reducible"] = bool(re.search(r"\breducible\b", text))
    for key, pat in (("r", r"(\d+) Recurrent class(?:es)?"), ("t", r"(\d+) Transient class(?:es)?"),
                     ("a", r"(\d+)\s+absorbing state(?:s)?")):
        m = re.search(pat, text)
        d["n" + key] = int(m.group(1)) if m else None
        d["p" + key] = m.start() if m else None
    order = sorted((d["p" + c], c) for c in "rta" if d["p" + c] is not None)
    for i, (p, c) in enumerate(order):
        end = order[i + 1][0] if i + 1 < len(order) else len(text)
        d["s" + c] = as_sets([x.split() for x in re.findall(r"\[([\d\s]*)\]", text[p:end])])
    return d


def check(make, T):
    cc, rc, tc, ab = model(T)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        m = make(True)
    n = make(False)
    for o in (m, n):
        need(as_sets(o.cclasses_indices) == sorted(cc), f"communicating classes {o.cclasses_indices}, expected {cc}")
        need(as_sets(o.rclasses_indices) == sorted(rc), f"recurrent classes {o.rclasses_indices}, expected {rc}")
        got_t = [] if o.tclasses_indices is None else o.tclasses_indices
        need(as_sets(got_t) == sorted(tc), f"transient classes {got_t}, expected {tc}")
        need(as_sets(o.astates_indices) == [(i,) for i in ab], f"absorbing states {o.astates_indices}, expected {ab}")
        for a, w in (("num_cclasses", len(cc)), ("num_rclasses", len(rc)), ("num_tclasses", len(tc)),
                     ("num_astates", len(ab))):
            need(getattr(o, a) == w, f"{a} is {getattr(o, a)}, expected {w}")
    d = parse(buf.getvalue())
    irr = len(cc) == 1
    need(d["irreducible"] == irr and d["reducible"] == (not irr), f"summary irreducibility wrong: {buf.getvalue()!r}")
    need(d["nr"] == len(rc) and d["nt"] == len(tc) and d["na"] == len(ab),
         f"summary numbers {d['nr']}/{d['nt']}/{d['na']}, expected {len(rc)}/{len(tc)}/{len(ab)}: {buf.getvalue()!r}")
    need(d["sr"] == sorted(rc) and d["st"] == sorted(tc) and d["sa"] == [(i,) for i in ab],
         f"summary states differ: {buf.getvalue()!r}; expected recurrent {rc} transient {tc} absorbing {ab}")


def run_counts(T):
    T = [list(r) for r in T]
    k = len(T)
    rows = [(i, j) for i in range(k) for j in range(k) for _ in range(T[i][j])]
    if not rows:
        return
    y = np.array(rows)
    for fill in (False, True):
        check(lambda summ: Markov(y, classes=np.arange(k), fill_empty_classes=fill, summary=summ), T)


def run_rank(cols):
    y = laid_out(cols, float)
    for C in (FullRank_Markov, GeoRank_Markov):
        ref = C(y, summary=False)
        check(lambda summ: C(y, summary=summ), ref.transitions.astype(int).tolist())


def run_structured(s):
    kind, k, mult = s
    T = [[0] * k for _ in range(k)]
    for i in range(k):
        j = i + 1
        if kind == "cycle":
            T[i][(i + 1) % k] = mult
        elif kind == "path":
            if j < k:
                T[i][j] = mult
        elif kind == "pathloop":
            T[i][i] = mult
            if j < k:
                T[i][j] = 1
        elif kind == "pairs":
            T[i][i ^ 1 if (i ^ 1) < k else i] = mult
        elif kind == "pairs-chain":
            if (i ^ 1) < k:
                T[i][i ^ 1] = mult
            if i % 2 == 1 and j < k:
                T[i][j] = 1
        elif kind == "absorbing":
            T[i][i] = mult
        elif kind == "star":
            T[i][0] = mult
            T[0][i] = 1
    run_counts(T)


def run_rare(s):
    """State a is kept N times and left once."""
    k, N, a, b, rest = s
    a, b = a % k, b % k
    T = [[0] * k for _ in range(k)]
    for i in range(k):
        if i != a:
            T[i][{"cycle": (i + 1) % k, "stay": i, "back": a}[rest]] = 1
    T[a][a] = N
    T[a][b] += 1
    run_counts(T)


def spaces(tier):
    deep = tier == "thorough"
    out = []
    for k in (1, 2, 3, 4):
        rows = list(itertools.product((0, 1), repeat=k))
        out.append(product_space(f"digraphs k={k}", [rows] * k, run_counts,
                                 note="all directed graphs, every present edge observed once"))
    for mult in (3, 49) + ((98, 103, 107) if deep else ()):
        rows = [tuple(mult * x for x in r) for r in itertools.product((0, 1), repeat=3)]
        out.append(product_space(f"digraphs k=3, {mult} observations per edge", [rows] * 3, run_counts))
    rows = list(itertools.product((0, 1, 49), repeat=2))
    out.append(product_space("mixed counts k=2", [rows] * 2, run_counts))
    out.append(product_space("rarely left classes", [[2, 3, 7, 13, 17, 40], [999, 9000, 40000] + ([10 ** 5, 10 ** 6] if deep else []), [0, 1, -1], [0, 1, -2],
                                                     ["cycle", "stay", "back"]], run_rare, note="a class kept up to 40000 (thorough: 10^6) times and left once"))
    N = 1500 if deep else 330
    out.append(product_space("observation magnitudes",
                             [["absorbing", "pathloop", "cycle"], [1, 2, 3], list(range(1, N)) + [501, 1009, 2003]],
                             run_structured, note="counts 1..N in every edge"))
    out.append(product_space("larger structures",
                             [["cycle", "path", "pathloop", "pairs", "pairs-chain", "absorbing", "star"],
                              list(range(1, 41)) + [64, 100, 129], [1]], run_structured,
                             note="seven graph families with up to 129 states"))
    for n, t in ((2, 4), (3, 3)):
        out.append(product_space(f"rank chains n={n} t={t}",
                                 [list(itertools.product(range(n), repeat=n))] * t, run_rank))
    if deep:
        rows5 = [[tuple(0 if j == i else x for j, x in enumerate(r[:i] + (0,) + r[i:]))
                  for r in itertools.product((0, 1), repeat=4)] for i in range(5)]
        out.append(product_space("digraphs k=5 without loops", rows5, run_counts))
    return out
