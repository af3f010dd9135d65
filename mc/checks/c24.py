"""C24: permutation inference of rank statistics."""
import itertools
import math
from fractions import Fraction as F

import numpy as np
from giddy.rank import SpatialTau, Tau_Local_Neighbor, Tau_Local_Neighborhood, Tau_Regional, Theta

from ..choice import distribution, equally_often, explore_rng, four_group, rnd, same_distribution, scripted
from ..core import Skip, count, product_space
from ..util import laid_out, all_graphs, eq, exact, graphs_upto_iso, make_w, need, neighbours, no_isolates, set_partitions, weak_orders
from . import _rank as R
from .c21 import LABELS

BINDING = ("the numpy random source is replaced by a controller; the real class is run once for every sequence of "
           "permutations the source can return and the distribution of simulated values is compared with the exact "
           "permutation distribution of the model; p-values are recomputed in every one of these runs")
ASSUMPTIONS = ["simulated values equal to the observed one up to 1e-9 count on either side in p-values"]


def fill(values, total):
    d = {}
    for v in values:
        k = rnd(v)
        d[k] = d.get(k, 0) + F(1, total)
    return d


def dist_ok(want, got, what):
    bad = same_distribution(want, got)
    need(bad is None, f"{what}: {bad}; exact {want}, got {got}")


def product_dist(d, times):
    out = {(): F(1)}
    for _ in range(times):
        out = {k + (v,): p * q for k, p in out.items() for v, q in d.items()}
    return out


def ge(sim, obs):
    """Admissible numbers of simulated values >= obs."""
    sim = np.asarray(sim, float)
    return set(range(int((sim >= obs + 1e-9).sum()), int((sim >= obs - 1e-9).sum()) + 1)) if obs == obs else {0}


STORE = {"float": lambda v: np.array(v, float), "int": lambda v: np.array(v), "half": lambda v: np.array(v) * 0.5 - 1.25,
         "uint8": lambda v: np.array(v, np.uint8), "list": list, "float32": lambda v: np.array(v, np.float32) + 0.25}


IDS = {                # names of the units in the weights, in the order of the data
    "plain": lambda n: None, "named": lambda n: [f"q{(3 * i + 2) % 7}" for i in range(n)],
    "rev": lambda n: list(range(n))[::-1], "rotated": lambda n: [(i + 1) % n for i in range(n)],
    "from one": lambda n: [i + 1 for i in range(n)], "swapped": lambda n: [1, 0] + list(range(2, n)),
}


# ---- spatial tau

def spatial_run(s):
    (n, edges, tr, sx, sy, perms, ids), x, y = s
    w = make_w(n, edges, ids=IDS[ids](n), transform=tr)
    plain = SpatialTau(STORE[sx](x), STORE[sy](y), make_w(n, edges))
    pm = list(itertools.permutations(range(n)))
    one = fill((R.spatial([x[q] for q in p], [y[q] for q in p], edges)[0] for p in pm), len(pm))
    res = explore_rng(lambda: SpatialTau(STORE[sx](x), STORE[sy](y), w, permutations=perms))
    count("rng_answer_sequences", len(res))
    dist_ok(product_dist(one, perms), distribution((p, o.taus) for p, o, _ in res), "simulated spatial taus")
    for _, o, a in res:
        for at in ("tau", "tau_p", "tau_spatial", "concordant", "discordant", "concordant_spatial", "discordant_spatial", "pairs_spatial"):
            eq(getattr(o, at), getattr(plain, at), f"{at} with permutations", 0)
        need(len(o.taus) == perms, "number of simulated values")
        ok = set()
        for larger in ge(o.taus, plain.tau_spatial):
            p = (larger + 1) / (perms + 1)
            ok.add(p if p <= 0.5 else (perms - larger + 1) / (perms + 1))
        need(any(abs(o.tau_spatial_psim - v) < 1e-9 for v in ok),
             f"tau_spatial_psim {o.tau_spatial_psim}, expected {sorted(ok)} (sims {o.taus}, observed {plain.tau_spatial}, answers {a})")


# ---- neighbour set and neighbourhood set

def two_sided(sim, obs, perms):
    sim = np.asarray(sim, float)
    lg = ge(sim, obs)
    sm = ge(-sim, -obs)
    return {(min(a, b) + 1) / (perms + 1) for a in lg for b in sm}


def conditional(n, i, stat):
    """Exact distribution of stat(perm) over the relabellings that keep unit i."""
    rest = [j for j in range(n) if j != i]
    out = []
    for p in itertools.permutations(rest):
        perm = list(range(n))
        for a, b in zip(rest, p):
            perm[a] = b
        out.append(stat(perm))
    return fill(out, len(out))


def local_run(s):
    which, (n, edges, sx, sy, perms, ids), x, y = s
    names = IDS[ids](n)
    nb = neighbours(n, edges)
    S = R.signs(x, y)
    if which == "set":
        cls, sim, pv, ob = Tau_Local_Neighbor, "tau_ln_sim", "tau_ln_pvalues", ("tau_ln", "tau_ln_weights", "sign")
    else:
        cls, sim, pv, ob = Tau_Local_Neighborhood, "tau_lnhood_sim", "tau_lnhood_pvalues", ("tau_lnhood", "tau_local", "sign")
    plain = cls(STORE[sx](x), STORE[sy](y), make_w(n, edges, ids=names))
    w = make_w(n, edges, ids=names)
    res = explore_rng(lambda: cls(STORE[sx](x), STORE[sy](y), w, permutations=perms))
    count("rng_answer_sequences", len(res))
    for i in range(n):
        if which == "set":
            one = conditional(n, i, lambda p: F(sum(S[i][p[j]] for j in nb[i]), len(nb[i])))
        else:
            one = conditional(n, i, lambda p: R.hood(S, [i] + [p[j] for j in nb[i]]))
        dist_ok(product_dist(one, perms), distribution((p, getattr(o, sim)[i]) for p, o, _ in res), f"{sim}[{i}]")
    for _, o, a in res:
        for at in ob:
            eq(getattr(o, at), getattr(plain, at), f"{at} with permutations", 0)
        M = getattr(o, sim)
        need(np.shape(M) == (n, perms), f"{sim} has shape {np.shape(M)}")
        for i in range(n):
            ok = two_sided(M[i], getattr(plain, ob[0])[i], perms)
            need(any(abs(getattr(o, pv)[i] - v) < 1e-9 for v in ok),
                 f"{pv}[{i}] = {getattr(o, pv)[i]}, expected {sorted(ok)} (sims {M[i]}, observed {getattr(plain, ob[0])[i]})")


# ---- regional tau

def regional_run(s):
    (part, lab, sx, sy, perms), x, y = s
    n = len(x)
    L = LABELS[lab](max(part) + 1)
    reg = [L[p] for p in part]
    order = sorted(set(reg))
    idx = [order.index(r) for r in reg]
    k = len(order)
    pm = list(itertools.permutations(range(n)))

    def cells(M):
        return tuple("nan" if v is None else float(v) for r in M for v in r)
    one = {}
    for p in pm:
        T, N = R.regional([x[q] for q in p], [y[q] for q in p], idx)
        key = tuple("nan" if v is None else rnd(v) for r in T for v in r)
        one[key] = one.get(key, 0) + F(1, len(pm))
    undefined = [v is None for r in T for v in r]
    plain = Tau_Regional(STORE[sx](x), STORE[sy](y), list(reg))
    res = explore_rng(lambda: Tau_Regional(STORE[sx](x), STORE[sy](y), list(reg), permutations=perms))
    count("rng_answer_sequences", len(res))

    def flat(M):
        return tuple("nan" if u else rnd(v) for u, v in zip(undefined, np.asarray(M, float).ravel()))
    got = {}
    for p, o, _ in res:
        key = tuple(flat(M) for M in o.tau_reg_sim)
        got[key] = got.get(key, 0) + p
    dist_ok(product_dist(one, perms), got, "simulated regional taus")
    for _, o, a in res:
        eq(o.tau_reg, plain.tau_reg, "tau_reg with permutations", 0)
        need(np.shape(o.tau_reg_sim) == (perms, k, k), "shape of tau_reg_sim")
        for c in range(k * k):
            if undefined[c]:
                continue
            obs = float(np.ravel(plain.tau_reg)[c])
            ok = two_sided([float(np.ravel(M)[c]) for M in o.tau_reg_sim], obs, perms)
            v = float(np.ravel(o.tau_reg_pvalues)[c])
            need(any(abs(v - q) < 1e-9 for q in ok), f"tau_reg_pvalues cell {c} = {v}, expected {sorted(ok)}")


# ---- theta

def theta_run(s):
    (part, lab, perms), cols = s[0], s[1:]
    n, k = len(part), len(cols) - 1
    L = LABELS[lab](max(part) + 1)
    reg = np.array([L[p] for p in part])
    y = laid_out(cols, float)
    plain = Theta(y.copy(), reg.copy(), permutations=0)
    pm = list(itertools.permutations(range(n)))
    one = {}
    for p in pm:
        th = R.theta(cols, [part[q] for q in p])
        key = tuple("nan" if v is None else rnd(v) for v, _ in th)
        one[key] = one.get(key, 0) + F(1, len(pm))
    rr = reg.copy()
    res = explore_rng(lambda: Theta(y.copy(), rr, permutations=perms))
    need((rr == reg).all(), "regimes were modified")
    count("rng_answer_sequences", len(res))
    got = {}
    for p, o, _ in res:
        need(np.shape(o.sim) == (perms + 1, k), f"sim has shape {np.shape(o.sim)}")
        key = tuple(rnd(r) for r in o.sim[1:])
        got[key] = got.get(key, 0) + p
    dist_ok(product_dist(one, perms), got, "simulated thetas")
    obs = np.ravel(plain.theta)
    for _, o, a in res:
        eq(np.ravel(o.theta), obs, "theta with permutations", 1e-12)
        eq(o.sim[0], obs, "first row of sim", 1e-12)
        eq(o.total, plain.total, "total", 0)
        for c in range(k):
            if obs[c] != obs[c]:
                continue
            m = perms + 1
            gt = {m - le for le in ge([-v for v in o.sim[:, c]], -obs[c])}
            left = {le / m for le in ge([-v for v in o.sim[:, c]], -obs[c])}
            need(any(abs(o.pvalue_left[c] - v) < 1e-9 for v in left), f"pvalue_left[{c}] = {o.pvalue_left[c]}, expected {left}")
            need(any(abs(o.pvalue_right[c] - v / m) < 1e-9 for v in gt), f"pvalue_right[{c}] = {o.pvalue_right[c]}, expected {gt}/{m}")
            need(abs(o.pvalue_left[c] + o.pvalue_right[c] - 1) < 1e-9, "pvalues do not add up")


# ---- many permutations: p-values recomputed from the simulated values under numpy's own generator

def many_run(s):
    which, perms, shape, seed = s
    n = 6
    x = list(range(n))
    y = {"same": x, "reverse": x[::-1], "ties": [0, 0, 1, 1, 2, 2], "mixed": [2, 0, 1, 5, 3, 4]}[shape]
    edges = tuple((i, i + 1) for i in range(n - 1)) if seed % 2 else tuple(itertools.combinations(range(n), 2))
    w = make_w(n, edges, ids=IDS[sorted(IDS)[(perms + seed) % len(IDS)]](n))
    xa, ya = np.array(x, float), np.array(y, float)
    np.random.seed(seed)
    if which == "spatial":
        o = SpatialTau(xa, ya, w, permutations=perms)
        ok = set()
        for larger in ge(o.taus, o.tau_spatial):
            p = (larger + 1) / (perms + 1)
            ok.add(p if p <= 0.5 else (perms - larger + 1) / (perms + 1))
        need(len(o.taus) == perms and any(abs(o.tau_spatial_psim - v) < 1e-9 for v in ok), f"tau_spatial_psim {o.tau_spatial_psim}, expected {ok}")
        return
    if which == "theta":
        Y = np.column_stack([xa, ya, xa[::-1]])
        o = Theta(Y, np.arange(n) % 2, permutations=perms)
        m = perms + 1
        obs = np.ravel(o.theta)
        need(np.shape(o.sim) == (m, 2), "shape of sim")
        for c in range(2):
            if obs[c] != obs[c]:
                continue
            left = {le / m for le in ge([-v for v in o.sim[:, c]], -obs[c])}
            need(any(abs(o.pvalue_left[c] - v) < 1e-9 for v in left), f"pvalue_left[{c}] = {o.pvalue_left[c]}, expected {left}")
            need(abs(o.pvalue_left[c] + o.pvalue_right[c] - 1) < 1e-9, "pvalues do not add up")
        return
    if which == "regional":
        o = Tau_Regional(xa, ya, np.arange(n) // 2, permutations=perms)
        need(np.shape(o.tau_reg_sim)[0] == perms, "number of simulated matrices")
        M = np.array([np.ravel(m) for m in o.tau_reg_sim], float).T
        obs, pv = np.ravel(o.tau_reg), np.ravel(o.tau_reg_pvalues)
    else:
        cls, st, sim, pv = ((Tau_Local_Neighbor, "tau_ln", "tau_ln_sim", "tau_ln_pvalues") if which == "set" else
                            (Tau_Local_Neighborhood, "tau_lnhood", "tau_lnhood_sim", "tau_lnhood_pvalues"))
        o = cls(xa, ya, w, permutations=perms)
        M, obs, pv = np.asarray(getattr(o, sim), float), getattr(o, st), getattr(o, pv)
        need(np.shape(M) == (n, perms), "shape of the simulated values")
    for i in range(len(obs)):
        ok = two_sided(M[i], obs[i], perms)
        need(any(abs(pv[i] - v) < 1e-9 for v in ok), f"{which}: p-value {i} is {pv[i]}, expected {sorted(ok)}")


def rounds_run(s):
    """Many permutations, the generator giving every answer equally often."""
    which, (n, edges), rounds, shape, sx = s
    x = list(range(n))
    y = {"reverse": x[::-1], "ties": [i // 2 for i in x], "mixed": [(i * 3 + 1) % n if n % 3 else (i * 2 + 1) % n for i in x]}[shape]
    z = [(i * i) % 3 for i in x]
    reg, one = [i * 2 // n for i in x], {}
    own = which in ("set", "hood")
    opts = math.factorial(n - 1 if own else n)
    R = opts * rounds
    xa, ya = STORE[sx](x), STORE["half"](y)
    w = make_w(n, edges, ids=IDS[sorted(IDS)[(n + rounds) % len(IDS)]](n))
    call = {"spatial": lambda: SpatialTau(xa, ya, w, permutations=R), "set": lambda: Tau_Local_Neighbor(xa, ya, w, permutations=R),
            "hood": lambda: Tau_Local_Neighborhood(xa, ya, w, permutations=R), "regional": lambda: Tau_Regional(xa, ya, reg, permutations=R),
            "theta": lambda: Theta(np.column_stack([x, y, z]), np.array(reg), permutations=R)}[which]
    o, even = equally_often(call, opts, rounds)
    S, nb, pm = R_signs(x, y), neighbours(n, edges), list(itertools.permutations(range(n)))
    mv = lambda v, p: [v[q] for q in p]
    if which == "theta":
        sims = np.asarray(o.sim, float)[1:].T
        obs = np.ravel(o.theta)
        need(sims.shape == (2, R), f"simulated values of shape {sims.shape}")
        want = [fill((R_theta([x, y, z], mv(reg, p))[c][0] for p in pm), len(pm)) for c in range(2)]
        for c in range(2):
            le = {len(sims[c]) + 1 - v for v in ge(sims[c], obs[c] + 2e-9)}
            need(any(abs(o.pvalue_left[c] - v / (R + 1)) < 1e-9 for v in le), f"pvalue_left[{c}] = {o.pvalue_left[c]}, expected {le} / {R + 1}")
            need(abs(o.pvalue_left[c] + o.pvalue_right[c] - 1) < 1e-9, f"p-values {o.pvalue_left[c]} and {o.pvalue_right[c]} do not add up")
    else:
        if which == "spatial":
            sims, obs, pv = np.array([o.taus], float), [o.tau_spatial], None
            ok = {p if p <= 0.5 else (R - lg + 1) / (R + 1) for lg in ge(o.taus, o.tau_spatial) for p in [(lg + 1) / (R + 1)]}
            need(any(abs(o.tau_spatial_psim - v) < 1e-9 for v in ok), f"tau_spatial_psim {o.tau_spatial_psim}, expected {ok}")
            want = [fill((R_spatial(mv(x, p), mv(y, p), edges) for p in pm), len(pm))]
        elif which == "regional":
            sims = np.array([np.ravel(m) for m in o.tau_reg_sim], float).T
            obs, pv = np.ravel(o.tau_reg), np.ravel(o.tau_reg_pvalues)
            tabs = [[v for r in R_regional(mv(x, p), mv(y, p), reg) for v in r] for p in pm]
            want = [fill((t[c] for t in tabs), len(pm)) for c in range(4)]
        else:
            sims, obs, pv = ((o.tau_ln_sim, o.tau_ln, o.tau_ln_pvalues) if which == "set" else (o.tau_lnhood_sim, o.tau_lnhood, o.tau_lnhood_pvalues))
            want = [conditional(n, i, lambda p: F(sum(S[i][p[j]] for j in nb[i]), len(nb[i])) if which == "set" else R_hood(S, [i] + [p[j] for j in nb[i]]))
                    for i in range(n)]
        need(np.shape(sims) == (len(want), R), f"simulated values of shape {np.shape(sims)}")
        for i in range(len(want) if pv is not None else 0):
            ok = two_sided(sims[i], obs[i], R)
            need(any(abs(pv[i] - v) < 1e-9 for v in ok), f"{which}: p-value {i} is {pv[i]}, expected {sorted(ok)}")
    for i, d in enumerate(want):
        vals = np.ravel(np.asarray(sims)[i])
        need(all(any(abs(v - k) < 1e-6 for k in d) for v in set(vals.tolist())), f"{which}: simulated values {sorted(set(vals.tolist()))}, possible are {sorted(d)}")
        if even:
            dist_ok(d, distribution((F(1, R), v) for v in vals), f"{which}[{i}], every arrangement {rounds} times")
    if not even:
        raise Skip()


R_signs, R_theta, R_hood = R.signs, R.theta, R.hood
R_spatial = lambda x, y, e: R.spatial(x, y, e)[0]
R_regional = lambda x, y, idx: R.regional(x, y, idx)[0]


def scripted_run(s):
    """Many units, four given arrangements: the simulated values are those of the rearranged data."""
    which, n, shape, sx = s
    f = {"distinct": lambda i, q: (i * (7 + 4 * q) + q) % n if n % (7 + 4 * q) else (i * 13 + q) % n, "ties": lambda i, q: (i * i * (q + 3) + i) % 7,
         "coarse": lambda i, q: (i * (q + 2) // 3 + i * i) % 3}[shape]
    x, y, z = ([f(i, q) for i in range(n)] for q in range(3))
    edges = tuple((i, i + 1) for i in range(n - 1)) + ((0, n // 3), (1, n // 2 + 1), (2, n - 2))
    reg = [(i * i + i // 3) % 4 for i in range(n)]
    order = sorted(set(reg))
    idx = [order.index(r) for r in reg]
    G = four_group(n)
    mv = lambda v, g: [v[q] for q in g]
    if which == "spatial":
        want = [rnd(R.spatial(mv(x, g), mv(y, g), edges)[0]) for g in G]
        body = lambda: rnd(SpatialTau(STORE[sx](x), STORE["half"](y), make_w(n, edges), permutations=1).taus[0])
    elif which == "regional":
        want = [rnd([v for r in R.regional(mv(x, g), mv(y, g), idx)[0] for v in r]) for g in G]
        body = lambda: rnd(np.ravel(Tau_Regional(STORE[sx](x), STORE["half"](y), np.array(reg), permutations=1).tau_reg_sim[0]))
    else:
        want = [rnd([v for v, _ in R.theta([x, y, z], mv(reg, g))]) for g in G]
        body = lambda: rnd(Theta(np.column_stack([x, y, z]).astype(float if sx == "half" else int), np.array(reg), permutations=1).sim[1])
    got = scripted(body, n)
    if got is None:
        raise Skip()
    key = lambda v: str(v)
    bad = [(a, b) for a, b in zip(sorted(want, key=key), sorted(got, key=key)) if not np.allclose(a, b, atol=1e-7)]
    need(not bad, f"{which}, {n} units under four arrangements: (expected, got) {bad}")


def spaces(tier):
    deep = tier == "thorough"
    w3, w4 = weak_orders(3), weak_orders(4)
    p3, p4 = list(itertools.permutations(range(3))), list(itertools.permutations(range(4)))
    path, tri = ((0, 1), (1, 2)), ((0, 1), (0, 2), (1, 2))
    mix = [("float", "int"), ("int", "float"), ("int", "half"), ("half", "int"), ("uint8", "float"), ("float", "uint8"),
           ("list", "list"), ("uint8", "half"), ("float32", "half"), ("half", "float32"), ("list", "half"), ("half", "list")]
    out = []
    nm = sorted(IDS)
    sp = [(3, path, tr, a, b, p, nm[(q + p) % len(nm)]) for tr in (None, "r") for q, (a, b) in enumerate(mix) for p in (1, 2)]
    out.append(product_space("spatial tau n=3", [sp, w3[::(1 if deep else 3)], w3[::(1 if deep else 2)]], spatial_run))
    g4 = [e for e in graphs_upto_iso(4)]
    s4 = [(4, e, "r", "float", "half", 1, nm[q % len(nm)]) for q, e in enumerate(g4)]
    out.append(product_space("spatial tau n=4", [s4, w4[::(4 if deep else 9)], w4[::(1 if deep else 4)]], spatial_run))
    lo = [(3, e, a, b, 1, i) for e in (path, tri) for q, (a, b) in enumerate(mix) for i in ("plain", nm[q % len(nm)])]
    out.append(product_space("neighbour sets n=3", [["set", "hood"], lo, w3[::(1 if deep else 3)], w3[::(1 if deep else 2)]], local_run))
    lo2 = [(3, path, "float", "half", 2, "plain"), (3, tri, "int", "half", 2, "named")]
    out.append(product_space("neighbour sets n=3, two permutations", [["set", "hood"], lo2, w3[::(1 if deep else 3)], w3[1::(1 if deep else 2)]], local_run))
    l4 = [(4, e, "int", "half", 1, nm[(q + 3) % len(nm)]) for q, e in enumerate(g4 if deep else [g4[0], ((0, 1), (1, 2), (2, 3)), ((0, 1), (0, 2), (0, 3))])]
    assert {i[-1] for i in l4} >= {"rev", "rotated"}, l4
    out.append(product_space("neighbour sets n=4", [["set", "hood"], l4, [w4[5], w4[40]] if not deep else w4[::9], p4[3::(11 if not deep else 5)]], local_run,
                             note="1296 answer sequences per trace"))
    rg = [(pt, lb, a, b, p) for pt in set_partitions(3) for lb, (a, b), p in zip(("str", "gap", "int"), (mix[2], mix[4], mix[6]), (1, 2, 2))]
    out.append(product_space("regional tau n=3", [rg, w3[::(1 if deep else 2)], w3], regional_run))
    rg4 = [(pt, "one", "float", "int", 1) for pt in set_partitions(4)]
    out.append(product_space("regional tau n=4", [rg4, w4[::(5 if deep else 19)], w4[::(1 if deep else 5)]], regional_run))
    th = [(pt, lb, p) for pt in set_partitions(3) for lb, p in (("int", 1), ("str", 2))]
    out.append(product_space("theta n=3 t=3", [th, w3[::(1 if deep else 3)], w3[::2], w3], theta_run))
    th4 = [(pt, "gap", 1) for pt in set_partitions(4)]
    out.append(product_space("theta n=4 t=2", [th4, w4[::(5 if deep else 13)], w4[::(1 if deep else 3)]], theta_run))
    out.append(product_space("many units, given arrangements", [["spatial", "regional", "theta"], [12, 40, 64, 100, 130] + ([200, 260, 300] if deep else []),
                                                               ["distinct", "ties", "coarse"], ["half", "int"]], scripted_run,
                             note="identity, reversal, half turn and both"))
    out.append(product_space("many permutations", [["spatial", "set", "hood", "regional", "theta"], [99, 130, 299, 999],
                                                   ["same", "reverse", "ties", "mixed"], range(4 if not deep else 20)], many_run))
    g4a, g4b, g5 = (4, ((0, 1), (1, 2), (2, 3))), (4, tuple(itertools.combinations(range(4), 2))), (5, ((0, 1), (1, 2), (2, 3), (3, 4), (0, 4)))
    shapes = ["reverse", "ties", "mixed"]
    out.append(product_space("every permutation equally often", [["spatial", "regional", "theta"], [g4a, g4b, g5], [1, 2] if not deep else [1, 2, 5, 10], shapes, ["int", "half", "uint8"]], rounds_run))
    out.append(product_space("every conditional permutation equally often", [["set", "hood"], [g4a, g4b, g5], [1, 5] if not deep else [1, 5, 20], shapes, ["int", "half", "uint8"]], rounds_run))
    out.append(product_space("more than a thousand permutations", [["spatial", "regional", "theta"], [g4a], [50] if not deep else [50, 100, 400], shapes, ["half"]], rounds_run))
    out.append(product_space("more than a thousand conditional permutations", [["set", "hood"], [g4a], [200] if not deep else [200, 800], shapes, ["half"]], rounds_run))
    return out
