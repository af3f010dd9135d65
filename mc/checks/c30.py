"""C30: contiguity of a set of units after one of them leaves."""
import itertools

import numpy as np
from giddy.components import check_contiguity
from libpysal.weights import W

from ..core import Space, count, product_space
from ..util import need, neighbours

BINDING = ("every graph, subset, leaver and listing order inside the bounds is put to check_contiguity and compared with "
           "reachability inside the remaining units computed by the model (closure of the restricted graph)")
ASSUMPTIONS = ["the leaver is a member of the list and the list has no repetitions (documented input)"]

NAMES = {
    "int": lambda n: list(range(n)),
    "rev": lambda n: list(range(n))[::-1],
    "big": lambda n: [1000 - 7 * i for i in range(n)],
    "str": lambda n: [("a", "bb", "", "a ", "10", "2", "é", "z")[i] for i in range(n)],
    "neg": lambda n: [i - 2 for i in range(n)],
    "long": lambda n: [f"unit {i}" for i in range(n)],
    "pair": lambda n: [(300 + i, "r") for i in range(n)],
    "mix": lambda n: [(0, "0", (1, 2), 3, -1, "x", 2.5, 1)[i] for i in range(n)],
}


def fresh(x):
    """An equal object that is not the same one (where the language has any)."""
    if isinstance(x, str):
        return "".join(list(x))
    if isinstance(x, tuple):
        return tuple(fresh(v) for v in x)
    if type(x) is int:
        return int(str(x))
    if type(x) is float:
        return float(repr(x))
    return x


def connected(nb, sub):
    sub = set(sub)
    if len(sub) <= 1:
        return True
    todo = [next(iter(sub))]
    seen = set(todo)
    while todo:
        for v in nb[todo.pop()]:
            if v in sub and v not in seen:
                seen.add(v)
                todo.append(v)
    return seen == sub


def weights(n, edges, names, loops=False, flip=False):
    nb = neighbours(n, edges)
    ng = {names[i]: [names[j] for j in (sorted(nb[i], reverse=True) if flip else nb[i])] + ([names[i]] if loops else [])
          for i in range(n)}
    return nb, W(ng, id_order=names, silence_warnings=True), ng


def ask(w, names, nb, order, leaver, cache):
    rest = frozenset(order) - {leaver}
    if rest not in cache:
        cache[rest] = connected(nb, rest)
    lst = [fresh(names[i]) for i in order]
    gone = fresh(names[leaver])
    if len(order) % 2 and all(type(x) is int for x in names):      # an id read from an array
        gone = np.int64(gone)
    keep = list(lst)
    got = check_contiguity(w, lst, gone)
    count("questions")
    need(isinstance(got, bool) or got in (True, False), f"answer {got!r}")
    need(bool(got) == cache[rest], f"units {keep!r} without {names[leaver]!r}: answered {got}, "
                                   f"links {[(names[a], names[b]) for a in nb for b in nb[a] if a < b]!r}")
    need(lst == keep, f"list of units changed from {keep!r} to {lst!r}")


def intact(w, ng, names):
    need({k: list(v) for k, v in w.neighbors.items()} == ng, "neighbours of the weights changed")
    need(list(w.id_order) == list(names), "order of the weights changed")


def orders_of(sub, how):
    if how == "all":
        return itertools.permutations(sub)
    n = len(sub)
    base = list(sub)
    return [base, base[::-1], base[1::2] + base[::2]][:how]


def run_graph(s):
    (n, how, kind, loops), *bits = s
    edges = tuple(e for e, b in zip(itertools.combinations(range(n), 2), bits) if b)
    names = NAMES[kind](n)
    nb, w, ng = weights(n, edges, names, loops, flip=len(edges) % 2 == 1)
    cache = {}
    for r in range(1, n + 1):
        for sub in itertools.combinations(range(n), r):
            for order in orders_of(sub, how):
                for leaver in sub:
                    ask(w, names, nb, order, leaver, cache)
    intact(w, ng, names)


def graph_space(name, n, hows, kinds, loops=(False,), note=""):
    first = [(n, how, kind, lp) for how in hows for kind in kinds for lp in loops]
    e = n * (n - 1) // 2
    return product_space(name, [first] + [(0, 1)] * e, run_graph,
                         note or f"all {2 ** e} graphs on {n} units, all subsets and leavers, orders {hows}, names {kinds}")


def big_edges(shape, n):
    if shape == "path":
        return [(i, i + 1) for i in range(n - 1)]
    if shape == "cycle":
        return [(i, i + 1) for i in range(n - 1)] + [(0, n - 1)]
    if shape == "star":
        return [(0, i) for i in range(1, n)]
    if shape == "tree":
        return [((i - 1) // 2, i) for i in range(1, n)]
    if shape == "comb":
        h = n // 2
        return [(i, i + 1) for i in range(h - 1)] + [(i, h + i) for i in range(h)]
    if shape == "complete":
        return list(itertools.combinations(range(n), 2))
    if shape == "grid":
        c = max(1, int(n ** 0.5))
        return [(i, i + 1) for i in range(n - 1) if (i + 1) % c] + [(i, i + c) for i in range(n - c)]
    return [(i, i + 1) for i in range(n - 1) if i != n // 2]        # two paths


def run_big(s):
    shape, n, listing, kind = s
    edges = big_edges(shape, n)
    names = {"int": list(range(n)), "str": [f"u{i}" for i in range(n)], "rev": list(range(n))[::-1]}[kind]
    nb, w, ng = weights(n, edges, names)
    order = list(range(n))
    if listing == "reversed":
        order.reverse()
    elif listing == "strided":
        order = [i for r in range(7) for i in range(r, n, 7)]
    elif listing == "halves":
        order = [j for i in range((n + 1) // 2) for j in (i, n - 1 - i)][:n]
        order = list(dict.fromkeys(order))
    elif listing == "every second":
        order = list(range(0, n, 2))
    elif listing == "first half":
        order = list(range(n // 2 + 1))
    for leaver in dict.fromkeys((order[0], order[-1], order[len(order) // 2], order[min(1, len(order) - 1)], order[len(order) // 3])):
        ask(w, names, nb, order, leaver, {})
    intact(w, ng, names)


def hist_run(s):
    """Several questions to one weights object and one list."""
    graph, *qs = s
    n = 4
    edges = tuple(e for e, b in zip(itertools.combinations(range(n), 2), graph) if b)
    names = NAMES["int"](n)
    nb, w, ng = weights(n, edges, names)
    w.transform = "r"
    lst = list(range(n))
    for leaver in qs:
        got = check_contiguity(w, lst, leaver)
        need(lst == list(range(n)), f"list of units became {lst}")
        need(bool(got) == connected(nb, set(lst) - {leaver}), f"leaver {leaver}: {got}")
    need(w.transform == "R", "transform of the weights changed")
    intact(w, ng, names)


def spaces(tier):
    deep = tier == "thorough"
    kinds = list(NAMES)
    sp = [graph_space(f"graphs n={n}", n, ["all"], kinds, (False, True)) for n in (1, 2, 3)]
    sp.append(graph_space("graphs n=4", 4, ["all"], kinds, (False, True)))
    sp.append(graph_space("graphs n=5", 5, ["all"], kinds if deep else ["int"], (False,)))
    sp.append(graph_space("graphs n=5, named", 5, [3], kinds, (False, True)))
    sp.append(graph_space("graphs n=6", 6, [2], ["str", "int"] if deep else ["str"]))
    if deep:
        sp.append(graph_space("graphs n=6, three orders", 6, [3], ["mix", "rev", "neg"], (True,)))
    sizes = [2, 3, 7, 10, 33, 129, 600, 1200] + ([3000] if deep else [])
    sp.append(Space("large subsets",
                    lambda s: [["path", "cycle", "star", "tree", "comb", "grid", "two", "complete"], sizes,
                               ["given", "reversed", "strided", "halves", "every second", "first half"],
                               ["int", "str", "rev"]][len(s)] if len(s) < 4 else None,
                    lambda s: run_big(s) if s[0] != "complete" or s[1] <= 129 else None,
                    note=f"eight graph families with {sizes} units, six listings, three namings"))
    graphs = list(itertools.product((0, 1), repeat=6))
    sp.append(product_space("repeated questions", [graphs] + [range(4)] * (4 if deep else 3), hist_run,
                            "all graphs on 4 units, all sequences of questions to the same list and weights"))
    return sp
