"""C34: longer panels and larger groups add up."""
import itertools
import warnings

import numpy as np
from giddy import markov, rank, sequence
from giddy.directional import Rose

from ..core import Skip, product_space
from ..util import all_graphs, graphs_upto_iso, no_isolates
from . import _lisa, _meta as M
from .c33 import arcs, big_edges

warnings.simplefilter("ignore")

BINDING = "the real analysis of every panel is compared with the real analyses of its pairs of periods, of parts of its units and of the reversed panel"
ASSUMPTIONS = ["Spatial Markov: with the cutoffs of the whole panel (fixed) or with quantiles of each period", "identical results: equal up to 1e-9",
               "cluster numbers matter only as a partition", "rank Markov chains are reversed only without ties"]


def pairs(t):
    return [[s, s + 1] for s in range(t - 1)]


def add(parts):
    return np.sum([np.asarray(p, float) for p in parts], axis=0)


def cols(parts):
    return np.concatenate([np.asarray(p) for p in parts], axis=1)


# every entry: function of the data, raising Mismatch, returning False when it does not apply

def a_markov(d):
    cl = np.unique(d.cls)
    f = lambda c: markov.Markov(c, classes=cl, summary=False).transitions
    T = f(d.cls)
    M.same(T, add(f(d.cls[:, p]) for p in pairs(d.t)), "Markov counts over periods")
    for c in range(1, d.n):
        M.same(T, f(d.cls[:c]) + f(d.cls[c:]), "Markov counts over groups of units")
    M.same(T.T, f(d.cls[:, ::-1]), "Markov counts of the reversed panel")
    M.same(3 * T, f(np.concatenate([d.cls] * 3)), "Markov counts of three copies of the panel")
    nm = np.array(["a", "c", "d", "f", "k"])[:len(cl)]
    M.same(T, markov.Markov(nm[np.searchsorted(cl, d.cls)], summary=False).transitions, "Markov counts with other labels")


def a_spatial(d):
    m = markov.Spatial_Markov(d.y, d.w(), k=2, m=3)
    kw = dict(cutoffs=m.cutoffs, lag_cutoffs=m.lag_cutoffs)
    r = [markov.Spatial_Markov(d.y[:, p], d.w(), **kw) for p in pairs(d.t)]
    M.same(m.T, add(q.T for q in r), "conditional counts over periods")
    M.same(m.transitions, add(q.transitions for q in r), "overall counts over periods")
    M.same(m.lclass_ids, cols([q.lclass_ids[:, :1] for q in r] + [r[-1].lclass_ids[:, 1:]]), "lag classes over periods")
    b = markov.Spatial_Markov(d.y[:, ::-1], d.w(), **kw)
    M.same(m.transitions.T, b.transitions, "overall counts of the reversed panel")
    M.same(m.class_ids[:, ::-1], b.class_ids, "classes of the reversed panel")


def a_spatial_periods(d):
    m = markov.Spatial_Markov(d.y, d.w(), k=2, m=2, fixed=False)
    r = [markov.Spatial_Markov(d.y[:, p], d.w(), k=2, m=2, fixed=False) for p in pairs(d.t)]
    M.same(m.T, add(q.T for q in r), "conditional counts over periods, quantiles of each period")
    M.same(m.class_ids[:, :2], r[0].class_ids, "classes of the first periods, quantiles of each period")


def a_discrete(d):
    if M.discrete(d) is None:
        return False
    f = lambda c: markov.Spatial_Markov(c, d.w(), discrete=True)
    m = f(d.cls)
    parts = [d.cls[:, p] for p in pairs(d.t)]
    if any(len(np.unique(c)) < m.k for c in parts):
        return False
    M.same(m.T, add(f(c).T for c in parts), "conditional counts over periods, given classes")


def a_lisa(d):
    if not M.lisa_ok(d):
        return False
    m = markov.LISA_Markov(d.y, d.w())
    r = [markov.LISA_Markov(d.y[:, p], d.w()) for p in pairs(d.t)]
    M.same(m.transitions, add(q.transitions for q in r), "LISA counts over periods")
    M.same(m.move_types, cols(q.move_types for q in r), "move types over periods")
    b = markov.LISA_Markov(d.y[:, ::-1], d.w())
    M.same(m.transitions.T, b.transitions, "LISA counts of the reversed panel")
    mv = np.asarray(m.move_types) - 1
    M.same(1 + mv % 4 * 4 + mv // 4, np.asarray(b.move_types)[:, ::-1], "move types of the reversed panel")


def a_lisa_sig(d):
    def f(y):
        with _lisa.moran_local(M.source()):
            return markov.LISA_Markov(y, d.w(), permutations=9)
    m, r = f(d.y), [f(d.y[:, p]) for p in pairs(d.t)]
    M.same(m.significant_moves, cols(q.significant_moves for q in r), "significance-coded moves over periods")
    M.same(m.p_values[:, :2], r[0].p_values, "p-values of the first periods")
    for q, nb in itertools.product((1, 2, 3, 4), (False, True)):
        kw = dict(quadrant=q, neighbors_on=nb)
        a, b = m.spillover(**kw), [x.spillover(**kw) for x in r]
        M.same(a["spill_over"], cols(x["spill_over"] for x in b), f"spill-over {kw} over periods")
        want = cols([x["components"][:, :1] for x in b] + [b[-1]["components"][:, 1:]])
        M.same([M.partition(c) for c in np.asarray(a["components"]).T.tolist()], [M.partition(c) for c in want.T.tolist()], f"clusters {kw} over periods")


def a_ranks(d):
    m, r = markov.FullRank_Markov(d.y, summary=False), [markov.FullRank_Markov(d.y[:, p], summary=False) for p in pairs(d.t)]
    M.same(m.transitions, add(q.transitions for q in r), "full-rank counts over periods")
    M.same(m.ranks, cols([q.ranks[:, :1] for q in r] + [r[-1].ranks[:, 1:]]), "ranks over periods")
    g = markov.GeoRank_Markov(d.y, summary=False)
    M.same(g.transitions, add(markov.GeoRank_Markov(d.y[:, p], summary=False).transitions for p in pairs(d.t)), "geographic-rank counts over periods")
    b = d.y[:, ::-1]
    M.same(m.transitions.T, markov.FullRank_Markov(b, summary=False).transitions, "full-rank counts of the reversed panel")
    M.same(g.transitions.T, markov.GeoRank_Markov(b, summary=False).transitions, "geographic-rank counts of the reversed panel")


def a_taus(d):
    x, y, w = d.y[:, 0], d.y[:, -1], d.w()
    a, b = rank.Tau(x, y), rank.Tau(y, x)
    M.same([a.tau, a.tau_p, a.concordant, a.discordant, a.extraX, a.extraY], [b.tau, b.tau_p, b.concordant, b.discordant, b.extraY, b.extraX],
           "tau with the variables exchanged")
    a, b = rank.SpatialTau(x, y, w), rank.SpatialTau(y, x, w)
    M.same([a.tau_spatial, a.concordant_spatial, a.discordant_spatial], [b.tau_spatial, b.concordant_spatial, b.discordant_spatial],
           "spatial tau with the variables exchanged")
    M.same(rank.Tau_Local(x, y).tau_local, rank.Tau_Local(y, x).tau_local, "local tau with the variables exchanged")
    if all(d.arcs):
        M.same(rank.Tau_Local_Neighbor(x, y, w).tau_ln, rank.Tau_Local_Neighbor(y, x, w).tau_ln, "neighbour tau with the variables exchanged")
        M.same(rank.Tau_Local_Neighborhood(x, y, w).tau_lnhood, rank.Tau_Local_Neighborhood(y, x, w).tau_lnhood,
               "neighbourhood tau with the variables exchanged")
    M.same(rank.Tau_Regional(x, y, d.reg).tau_reg, rank.Tau_Regional(y, x, d.reg).tau_reg, "regional tau with the variables exchanged")


def a_theta(d):
    reg = np.array(d.reg)
    f = lambda y: rank.Theta(y, reg, permutations=0)
    m = f(d.y)
    for a in ("theta", "total"):
        M.same(getattr(m, a), np.concatenate([np.atleast_1d(getattr(f(d.y[:, p]), a)) for p in pairs(d.t)]), f"{a} over periods")
        M.same(getattr(m, a), getattr(f(d.y[:, ::-1]), a)[::-1], f"{a} of the reversed panel")


def a_rose(d):
    for k in (4, 8):
        m, b, e = Rose(d.y, d.w(), k), Rose(d.y[:, ::-1], d.w(), k), Rose(d.y[:, [0, -1]], d.w(), k)
        M.same(m.counts, e.counts, "sector counts of first and last period")
        M.same(m.r, b.r, "vector lengths of the reversed panel")
        M.same(m.lag, b.lag[:, ::-1], "lags of the reversed panel")
        for u, v, r in zip(m.theta, b.theta, m.r):
            if r:
                M.same(np.cos(u) + np.cos(v), 0 * u, "direction of a reversed vector")
                M.same(np.sin(u) + np.sin(v), 0 * u, "direction of a reversed vector")


def a_seq(d):
    k = len(np.unique(d.cls))
    subs = np.array([[abs(i - j) * 0.5 + (i != j) * 0.25 for j in range(k)] for i in range(k)])
    for nm, kw in (("custom", dict(subs_mat=subs, indel=0.75)), ("interval", dict(dist_type="interval")), ("hamming", dict(dist_type="hamming")),
                   ("arbitrary", dict(dist_type="arbitrary"))):
        D = sequence.Sequence(d.cls, **kw).seq_dis_mat
        M.same(D, sequence.Sequence(d.cls[:, ::-1], **kw).seq_dis_mat, f"{nm} distances of the reversed sequences")
        E = sequence.Sequence(np.concatenate([d.cls, d.cls[::-1]]), **kw).seq_dis_mat
        q = list(range(d.n)) + list(range(d.n))[::-1]
        M.same(D[q][:, q], E, f"{nm} distances of sequences listed twice")
        if nm == "hamming":
            M.same(D, add(sequence.Sequence(d.cls[:, [s]], **kw).seq_dis_mat for s in range(d.t)), "hamming distances over periods")


def a_tests(d):
    """Tests of regimes: the periods as regimes."""
    cl = np.unique(d.cls)
    T = np.array([markov.Markov(d.cls[:, p], classes=cl, summary=False).transitions for p in pairs(d.t)])
    f = markov.homogeneity
    m = f(T)
    q = list(range(len(T)))[::-1]
    b = f(T[q])
    M.same([m.Q, m.LR, m.dof, m.Q_p_value, m.LR_p_value], [b.Q, b.LR, b.dof, b.Q_p_value, b.LR_p_value], "homogeneity test with the regimes reversed")
    M.same(m.p_h1[q], b.p_h1, "probabilities of reversed regimes")
    M.same(m.p_h0, b.p_h0, "pooled probabilities of reversed regimes")
    z = f(np.concatenate([T, 0 * T[:1]]))
    M.same([m.Q, m.LR, m.dof], [z.Q, z.LR, z.dof], "homogeneity test with a regime without transitions")
    s = f(T * 3)
    M.same([3 * m.Q, 3 * m.LR, m.dof], [s.Q, s.LR, s.dof], "homogeneity test of three copies of every observation")
    M.same(f(np.array([T[0]] * 3)).Q, 0.0, "Q of equal regimes")
    M.same(f(np.array([T[0]] * 3)).LR, 0.0, "LR of equal regimes")
    o = list(range(len(cl)))[::-1]
    r = f(T[:, o][:, :, o])
    M.same([m.Q, m.LR, m.dof], [r.Q, r.LR, r.dof], "homogeneity test with the classes reversed")
    P = T.sum(axis=0)
    a, b = markov.chi2(T[0], P), markov.chi2(T[0][o][:, o], P[o][:, o])
    M.same(a, b, "chi-square comparison with the classes reversed")
    M.same(3 * markov.chi2(T[0], P)[0], markov.chi2(3 * T[0], P)[0], "chi-square comparison of three copies")
    M.same(markov.chi2(T[0], T[0])[0], 0.0, "chi-square comparison with itself")
    key = ["Conditional homogeneity", "Conditional homogeneity dof", "Conditional homogeneity pvalue"]
    M.same([markov.kullback(T)[x] for x in key], [markov.kullback(T[q])[x] for x in key], "Kullback test with the regimes reversed")
    M.same(3 * markov.kullback(T)[key[0]], markov.kullback(3 * T)[key[0]], "Kullback test of three copies")


RULES = {"markov": a_markov, "spatial": a_spatial, "spatial periods": a_spatial_periods, "discrete": a_discrete, "lisa": a_lisa, "lisa significant": a_lisa_sig,
         "ranks": a_ranks, "taus": a_taus, "theta": a_theta, "rose": a_rose, "sequences": a_seq, "tests": a_tests}


def judge(d, names):
    done = False
    for nm in names:
        if nm == "ranks" and not M.distinct(d):
            continue
        try:
            done |= RULES[nm](d) is not False
        except ZeroDivisionError:
            pass
    if not done:
        raise Skip()


def run(s):
    (n, edges, style), *c = s
    y = np.array(c, float).T * 1.25 + 0.5
    judge(M.rows(y, np.array(c).T % 3, [(i * i + 1) % 3 % 2 for i in range(n)], arcs(n, edges, style), [f"u{i}" for i in range(n)]), RULES)


def big_run(s):
    n, shape, t, style, (lev, unit), an = s
    if an == "sequences" and n * n * t * t > 10 ** 6:     # minutes of Python in the code itself
        raise Skip()
    vals = [[((i * (3 + 2 * q) + q * q + (i * i * (q + 1)) % 7) * 11) % 1009 % lev for i in range(n)] for q in range(t)]
    y = np.array(vals, float).T / 8 + 1
    y = y + 2.0 ** 24 if unit == "far" else y * 2.0 ** -44 if unit == "small" else y
    d = M.rows(y, np.array(vals).T % 4, [(i * i + i) % 7 % 3 for i in range(n)], arcs(n, big_edges(n, shape), style), list(range(n)))
    judge(d, [an])


def tenths_run(s):
    """Values that are not binary fractions; most units end where they began."""
    n, shape, t, style, top, step, an = s
    vals = np.array([[((i * (3 + 2 * q) + q * q + (i * i * (q + 1)) % 7) * 11 + step * q) % 1009 % top for i in range(n)] for q in range(t)]).T
    vals[:, -1] = vals[:, 0] + (np.arange(n) % 4 == step % 4)
    d = M.rows(vals / 10, vals % 4, [(i * i + i) % 7 % 3 for i in range(n)], arcs(n, big_edges(n, shape), style), list(range(n)))
    judge(d, [an])


def spaces(tier):
    deep = tier == "thorough"
    p3, p4 = (list(itertools.permutations(range(n))) for n in (3, 4))
    w3 = p3 + [(0, 0, 1), (2, 1, 1), (0, 2, 0), (2, 2, 1)]
    w4 = p4[::5] + [(0, 0, 1, 2), (1, 0, 1, 0), (3, 0, 3, 3), (2, 1, 2, 2)]
    g3 = [(3, e, st) for e in all_graphs(3) if no_isolates(3, e) for st in "bd"]
    g4 = [(4, e, "b") for e in graphs_upto_iso(4)]
    return [
        product_space("three units, three periods", [g3 if deep else [g3[0], g3[3], g3[6]], w3, w3, w3[::(1 if deep else 2)]], run),
        product_space("three units, four periods", [g3[2:3] + (g3[5:6] if deep else []), w3[1:9:(1 if deep else 3)], w3[::(1 if deep else 3)], w3[::2], w3[::(1 if deep else 3)]], run),
        product_space("four units, three periods", [g4 if deep else g4[::3], w4[::(1 if deep else 2)], w4, w4[::(1 if deep else 3)]], run),
        product_space("islands", [[(4, ((0, 1),), "b"), (4, (), "b"), (4, ((1, 2), (2, 3)), "d")], w4[::4], w4[::2], w4[::4]], run),
        product_space("tenths", [[5, 9, 20], ["ring", "star", "mixed"], [3, 5, 8], ["b", "d"], [7, 12], list(range(10 if deep else 5)),
                                 ["rose", "spatial", "spatial periods", "ranks", "theta", "taus"]], tenths_run, note="values that are not binary fractions"),
        product_space("larger panels", [[7, 12, 30, 65] + ([140, 300] if deep else []), ["ring", "star", "blocks", "mixed"], [2, 3, 6, 11], ["b", "d"],
                                        [(1009, "plain"), (1009, "far"), (9, "small")] + ([(9, "plain"), (3, "plain"), (9, "far"), (1009, "small")] if deep else []), list(RULES)], big_run,
                      note="also values that are small, or far from zero"),
    ]
