"""C17: LISA spill-overs."""
import itertools

import numpy as np
from giddy.markov import LISA_Markov

from ..core import product_space
from ..util import all_graphs, exact, graphs_upto_iso, make_w, need
from . import _lisa as L

BINDING = ("every history of core sets is produced through a controlled local Moran source; clusters and "
           "spill-overs reported by the real class are compared with the graph model")
ASSUMPTIONS = ["a core unit without neighbours forms no cluster"]


def clusters(nb, cores, on):
    """Partition of the clustered units: closure of the links between cores and neighbours."""
    links = set()
    for i in cores:
        for j in nb[i]:
            links.add((i, j))
            if on:
                for m in nb[j]:
                    links.add((j, m))
    comp = {}
    for a, b in links:
        comp.setdefault(a, {a})
        comp.setdefault(b, {b})
        if comp[a] is not comp[b]:
            u = comp[a] | comp[b]
            for x in u:
                comp[x] = u
    return comp


def model(nb, n, cores, on):
    t = len(cores)
    cl = [clusters(nb, c, on) for c in cores]
    sp = [[0] * (t - 1) for _ in range(n)]
    for a in range(t - 1):
        for i in range(n):
            if i not in cl[a] and i in cl[a + 1] and any(j in cl[a] for j in cl[a + 1][i]):
                sp[i][a] = 1
    return cl, sp


def compare(r, cl, sp, n, t):
    comp = np.asarray(r["components"])
    need(comp.shape == (n, t), f"components has shape {comp.shape}")
    for a in range(t):
        by = {}
        for i in range(n):
            v = float(comp[i, a])
            need((v != 0) == (i in cl[a]), f"unit {i} period {a}: component {v}, clustered: {i in cl[a]}")
            if v:
                need(v > 0 and v == int(v), f"component id {v}")
                by.setdefault(v, set()).add(i)
        for v, m in by.items():
            i = next(iter(m))
            need(m == set(cl[a][i]), f"period {a}: cluster {v} is {sorted(m)}, expected {sorted(cl[a][i])}")
    exact(r["spill_over"], sp, "spill_over")


def naming(n, kind):
    """(ids by position)"""
    return {"int": list(range(n)), "str": [f"u{(7 * i + 3) % 11}{i}" for i in range(n)],
            "rev": list(range(n))[::-1], "off": [10 + 3 * ((i * 2 + 1) % n if n % 2 else i) for i in range(n)]}[kind]


NOT_SIGNIFICANT = (0.2, 0.1 + 2.0 ** -56 * 2, float("nan"))   # for a level of 0.1; undefined p-values are not significant


def go(n, edges, cores, on, kind, quadrant, directed=None):
    t = len(cores)
    if directed is None:
        nb = {i: [] for i in range(n)}
        for a, b in edges:
            nb[a].append(b)
            nb[b].append(a)
        w = make_w(n, edges, ids=naming(n, kind))
    else:
        from libpysal.weights import W
        nb = {i: [j for a, j in directed if a == i] for i in range(n)}
        ids = naming(n, kind)
        w = W({ids[i]: [ids[j] for j in nb[i]] for i in range(n)}, id_order=ids, silence_warnings=True)
    level = 0.1
    other = quadrant % 4 + 1
    q = [[quadrant if (i in cores[a] or (i + a) % 2) else other for a in range(t)] for i in range(n)]
    p = [[(level if (i + a) % 3 else 0.01) if i in cores[a] else (0.01 if q[i][a] == other else NOT_SIGNIFICANT[(i + 2 * a) % 3]) for a in range(t)]
         for i in range(n)]
    y, src = L.history(n, t, q, p)
    keep = {k: list(v) for k, v in w.neighbors.items()}
    with L.moran_local(src):
        lm = LISA_Markov(y, w, permutations=9, significance_level=level)
        r = lm.spillover(quadrant=quadrant, neighbors_on=on)
        r2 = lm.spillover(quadrant, not on)
        plain = LISA_Markov(y, w, significance_level=level)
    cl, sp = model(nb, n, cores, on)
    compare(r, cl, sp, n, t)
    compare(r2, *model(nb, n, cores, not on), n, t)
    need({k: list(v) for k, v in w.neighbors.items()} == keep, "weights were modified")
    out = None
    try:
        out = plain.spillover(quadrant=quadrant)
    except Exception:
        pass
    need(out is None, f"spill-overs without simulated significance: {out!r}")


def run(s):
    (n, edges, kind, quadrant), sets = s[0], s[1:]
    go(n, edges, [set(c) for c in sets], False, kind, quadrant)


def directed_run(s):
    (n, arcs, kind), sets = s[0], s[1:]
    go(n, None, [set(c) for c in sets], False, kind, 1, directed=arcs)


def subsets(n):
    return [tuple(i for i in range(n) if m >> i & 1) for m in range(2 ** n)]


def large_run(s):
    n, shape, kind, on = s
    if shape == "path":
        edges = [(i, i + 1) for i in range(n - 1)]
    elif shape == "star":
        edges = [(0, i) for i in range(1, n)]
    else:
        edges = [(i, i + 1) for i in range(n - 1) if i % 50 != 49]
    cores = [set(range(0, n, 3)), set(range(n)), {n - 1, n // 2}]
    if shape == "many":                     # n / 5 clusters
        edges = [(i, i + 1) for i in range(n - 1)]
        cores = [set(range(1, n, 5)), set(range(3, n, 5)), set(range(2, n - n % 5 - 5, 5))]
    if shape == "gaps":
        cores = [set(range(0, n, 100)), set(range(0, n, 2)), set(range(7, n, 25))]
    ids = list(range(n))
    nb = {i: [] for i in range(n)}
    for a, b in edges:
        nb[a].append(b)
        nb[b].append(a)
    go(n, edges, cores, on, kind, 3)


def spaces(tier):
    deep = tier == "thorough"
    kinds = ["int", "str", "rev", "off"]
    g3 = [(3, e, kd, q) for e in all_graphs(3) for kd in kinds for q in (1, 2, 3, 4)]
    g4 = [(4, e, kinds[i % 4], 1 + i % 4) for i, e in enumerate(all_graphs(4))]
    g5 = [(5, e, kinds[i % 4], 1 + (i // 4) % 4) for i, e in enumerate(graphs_upto_iso(5, False))]
    arcs3 = [(i, j) for i in range(3) for j in range(3) if i != j]
    dg = [(3, tuple(a for b, a in enumerate(arcs3) if m >> b & 1), kinds[m % 4]) for m in range(64)]
    out = [
        product_space("n=3 t=2", [g3] + [subsets(3)] * 2, run, note="all graphs, namings, quadrants, core sets"),
        product_space("n=3 t=3", [g3[::(1 if deep else 5)]] + [subsets(3)] * 3, run),
        product_space("n=3 t=5", [[(3, ((0, 1), (1, 2)), "str", 2)] + ([(3, ((0, 1),), "rev", 4), (3, ((0, 2), (1, 2)), "off", 1)] if deep else [])] +
                      ([subsets(3)] * 5 if deep else [subsets(3), subsets(3)[::2], subsets(3)[1::2], subsets(3), subsets(3)[::2]]), run),
        product_space("n=4 t=2", [g4] + [subsets(4)] * 2, run, note="all graphs and core sets"),
        product_space("n=5 t=2", [g5] + ([subsets(5)] * 2 if deep else [subsets(5)[::3], subsets(5)[::2]]), run),
        product_space("directed n=3 t=2", [dg] + [subsets(3)] * 2, directed_run),
        product_space("large clusters", [[300, 1500] + ([5000] if deep else []), ["path", "star", "gaps", "many"], ["int", "str", "rev"], [False]], large_run),
    ]
    def long_run(s):
        t, e, kind, m = s
        go(4, e, [{i for i in range(4) if (i * m + a * a + a // (m + 1)) % 3 == 0} for a in range(t)], False, kind, 1 + m % 4)
    out.append(product_space("many periods", [[6, 17, 60, 140] + ([300] if deep else []), list(graphs_upto_iso(4, False)), kinds, range(5)], long_run))
    if deep:
        p6 = [(6, e, kinds[i % 4], 1 + i % 4) for i, e in enumerate(graphs_upto_iso(6, False))]
        out.append(product_space("n=6 t=2", [p6, subsets(6)[::5], subsets(6)[::3]], run))
    return out
