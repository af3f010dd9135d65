"""Typed results of every analysis, for checks that compare an analysis with the same analysis of rearranged data.

A result is a list of (name, kind, value); kinds: inv (no unit in it), unit (units along axis 0), unit2 (units along the
first two axes), part (units along axis 0, columns are cluster numbers that matter only as a partition).
"""
import itertools
from fractions import Fraction as F

import numpy as np
from giddy import markov, rank, sequence
from giddy.components import check_contiguity
from giddy.directional import Rose
from libpysal.weights import W

from ..util import Mismatch
from . import _lisa, _spm as S

INV, UNIT, UNIT2, PART = "inv", "unit", "unit2", "part"


class Data:
    """y: panel of numbers; cls: panel of labels; reg: regimes; neighbours and weights by position; names by position."""

    def __init__(self, y, cls, reg, arcs, names):
        self.y, self.cls, self.reg, self.arcs, self.names = y, cls, list(reg), arcs, list(names)
        self.n, self.t = y.shape

    def w(self):
        nm = self.names
        nb = {nm[i]: [nm[j] for j, _ in self.arcs[i]] for i in range(self.n)}
        wt = {nm[i]: [v for _, v in self.arcs[i]] for i in range(self.n)}
        return W(nb, wt, id_order=nm, silence_warnings=True)

    def permuted(self, perm, names, flip=False):
        """Unit perm[i] in row i; its neighbours listed backwards if flip."""
        inv = {p: i for i, p in enumerate(perm)}
        arcs = [[(inv[j], v) for j, v in self.arcs[p]][:: -1 if flip else 1] for p in perm]
        p = list(perm)
        return Data(self.y[p], self.cls[p], [self.reg[q] for q in p], arcs, names)

    def periods(self, cols):
        return Data(self.y[:, cols], self.cls[:, cols], self.reg, self.arcs, self.names)

    def with_y(self, y):
        return Data(y, self.cls, self.reg, self.arcs, self.names)


def rows(y, cls, *a):
    """Data stored row by row, as usual."""
    return Data(np.ascontiguousarray(y), np.ascontiguousarray(cls), *a)


def source():
    """Quadrant and significance of a unit determined by its own value."""
    def lookup(v):
        r = [int(round(x * 4)) for x in v]
        return [1 + (a * a + a) % 5 % 4 for a in r], [0.01 if a * 7 % 5 else 0.3 for a in r]
    return _lisa.Source(lookup)


def lisa_ok(d):
    """No deviation or lagged deviation is zero."""
    for s in range(d.t):
        v = [F(float(x)) for x in d.y[:, s]]
        m = sum(v) / d.n
        z = [x - m for x in v]
        if not all(z):
            return False
        for a in d.arcs:
            tot = sum(F(q) for _, q in a)
            if not a or not sum(z[j] * F(q) for j, q in a) / tot:
                return False
    return True


def spatial(d, **kw):
    m = markov.Spatial_Markov(d.y, d.w(), fill_empty_classes=True, **kw)
    out = [(a, INV, getattr(m, a)) for a in ("transitions", "p", "T", "P", "F", "f", "s", "x2", "x2_dof", "x2_pvalue", "Q", "LR", "dof_hom",
                                             "Q_p_value", "LR_p_value", "k", "m")]
    out += [("S", INV, [np.asarray(q, float) for q in m.S]), ("chi2", INV, [np.asarray(c, float) for c in m.chi2]),
            ("class_ids", UNIT, m.class_ids), ("lclass_ids", UNIT, m.lclass_ids)]
    for a in ("cutoffs", "lag_cutoffs"):
        if getattr(m, a) is not None:
            out.append((a, "scale", getattr(m, a)))
    return out


def discrete(d):
    Wm = [[F(0)] * d.n for _ in range(d.n)]
    for i, a in enumerate(d.arcs):
        for j, v in a:
            Wm[i][j] = F(v)
    if any(len(c) > 1 for r in S.categorical_lags(Wm, d.cls.tolist()) for c in r):
        return None
    m = markov.Spatial_Markov(d.cls, d.w(), discrete=True, fill_empty_classes=True)
    return [(a, INV, getattr(m, a)) for a in ("transitions", "T", "P", "x2", "Q", "classes")] + [("lclass_ids", UNIT, m.lclass_ids)]


def lisa(d, geoda=False):
    if not lisa_ok(d):
        return None
    m = markov.LISA_Markov(d.y, d.w(), geoda_quads=geoda)
    return [("transitions", INV, m.transitions), ("p", INV, m.p), ("q", UNIT, m.q), ("move_types", UNIT, m.move_types)]


def lisa_sig(d):
    with _lisa.moran_local(source()):
        m = markov.LISA_Markov(d.y, d.w(), permutations=9)
    out = [("transitions", INV, m.transitions), ("significant_moves", UNIT, m.significant_moves), ("p_values", UNIT, m.p_values)]
    for q, nb in itertools.product((1, 2, 3, 4), (False, True)):
        r = m.spillover(quadrant=q, neighbors_on=nb)
        out += [(f"spill_over {q} {nb}", UNIT, r["spill_over"]), (f"components {q} {nb}", PART, r["components"])]
    return out


def distinct(d):
    return all(len(set(c)) == d.n for c in d.y.T.tolist())


def full_rank(d):
    if not distinct(d):
        return None
    m = markov.FullRank_Markov(d.y, summary=False)
    return [("transitions", INV, m.transitions), ("ranks", UNIT, m.ranks), ("p", INV, m.p)]


def geo_rank(d):
    if not distinct(d):
        return None
    m = markov.GeoRank_Markov(d.y, summary=False)
    return [("transitions", UNIT2, m.transitions), ("p", UNIT2, m.p)]


def tau_all(d):
    x, y, w = d.y[:, 0], d.y[:, -1], d.w()
    t = rank.Tau(x, y)
    out = [(a, INV, getattr(t, a)) for a in ("tau", "tau_p", "concordant", "discordant", "extraX", "extraY")]
    t = rank.SpatialTau(x, y, w)
    out += [(a, INV, getattr(t, a)) for a in ("tau_spatial", "concordant_spatial", "discordant_spatial", "pairs_spatial")]
    t = rank.Tau_Local(x, y)
    out += [("local tau", INV, t.tau), ("tau_local", UNIT, t.tau_local), ("S", UNIT2, t.S)]
    if all(d.arcs):
        t = rank.Tau_Local_Neighbor(x, y, w)
        out += [("tau_ln", UNIT, t.tau_ln), ("tau_ln_weights", UNIT, t.tau_ln_weights), ("sign", UNIT, t.sign)]
        t = rank.Tau_Local_Neighborhood(x, y, w)
        out += [("tau_lnhood", UNIT, t.tau_lnhood), ("hood sign", UNIT, t.sign)]
    t = rank.Tau_Regional(x, y, d.reg)
    return out + [("tau_reg", INV, t.tau_reg)]


def theta(d):
    t = rank.Theta(d.y, np.array(d.reg), permutations=0)
    return [("theta", INV, t.theta), ("total", INV, t.total), ("max_total", INV, t.max_total), ("ranks", UNIT, t.ranks)]


def rose(d, k):
    r = Rose(d.y, d.w(), k)
    return [("counts", INV, r.counts), ("theta", UNIT, r.theta), ("r", "scale1", r.r), ("lag", "scale1", r.lag)]


def seqs(d):
    k = len(np.unique(d.cls))
    subs = np.array([[abs(i - j) * 0.5 + (i != j) * 0.25 for j in range(k)] for i in range(k)])
    out = []
    for nm, kw in (("custom", dict(subs_mat=subs, indel=0.75)), *((q, dict(dist_type=q)) for q in ("interval", "hamming", "arbitrary", "markov", "tran"))):
        s = sequence.Sequence(d.cls, **kw)
        out.append((nm, UNIT2, s.seq_dis_mat))
        if nm != "hamming":
            out.append((nm + " costs", INV, s.subs_mat))
    return out


def contiguous(d):
    w, out = d.w(), []
    order = sorted(range(d.n), key=lambda i: d.tag[i]) if hasattr(d, "tag") else range(d.n)
    order = list(order)
    if d.n <= 6:
        subs = [sub for r in range(1, d.n + 1) for sub in itertools.combinations(order, r)]
    else:
        subs = [order[i:i + r] for r in (2, 3, 5, d.n // 2, d.n) for i in range(0, d.n - r + 1, 1 + r // 4)]
    for sub in subs:
        out.append([check_contiguity(w, [d.names[i] for i in sub], d.names[u]) for u in (sub if len(sub) < 7 else [sub[0], sub[-1], sub[len(sub) // 2]])])
    return [("contiguous", INV, [float(v) for r in out for v in r])]


ANALYSES = {
    "markov": lambda d: [(a, INV, getattr(markov.Markov(d.cls, summary=False), a)) for a in ("transitions", "p", "classes", "steady_state", "mfpt")],
    "spatial fixed": lambda d: spatial(d, k=2, m=2),
    "spatial per period": lambda d: spatial(d, k=2, m=3, fixed=False),
    "spatial discrete": discrete,
    "lisa": lisa, "lisa geoda": lambda d: lisa(d, True), "lisa significant": lisa_sig,
    "full rank": full_rank, "geo rank": geo_rank,
    "taus": tau_all, "theta": theta,
    "rose 8": lambda d: rose(d, 8), "rose 5": lambda d: rose(d, 5),
    "sequences": seqs, "contiguity": contiguous,
}


def partition(col):
    seen, out = {0: 0}, []
    for v in col:
        out.append(seen.setdefault(v, len(seen)))
    return out


def rearrange(kind, v, perm):
    """What a result becomes when unit perm[i] moves to row i."""
    v = np.asarray(v)
    if kind in (UNIT, PART, "scale1"):
        return v[list(perm)]
    if kind == UNIT2:
        return v[list(perm)][:, list(perm)]
    return v


def flat(v):
    if isinstance(v, (list, tuple)) and v and isinstance(v[0], np.ndarray):
        return np.concatenate([q.ravel() for q in v])
    return np.asarray(v)


def same(a, b, what, tol=1e-9):
    a, b = flat(a), flat(b)
    if a.shape != b.shape:
        raise Mismatch(f"{what}: shape {a.shape} and {b.shape}")
    if a.dtype.kind not in "fiubO" or b.dtype.kind not in "fiubO":
        ok = (a == b).all()
    else:
        a, b = a.astype(float), b.astype(float)
        with np.errstate(all="ignore"):
            ok = ((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * np.maximum(1, np.maximum(np.abs(a), np.abs(b))))).all()
    if not ok:
        raise Mismatch(f"{what}: {a.tolist()} and {b.tolist()}")


def need_same_refusal(b, r, what):
    """Refused for one arrangement, refused for the other."""
    if (isinstance(b, type), isinstance(r, type)) != (True, True) or b is not r:
        raise Mismatch(f"{what}: {b if isinstance(b, type) else 'a result'} in one arrangement, {r if isinstance(r, type) else 'a result'} in the other")


def compare(base, other, perm, what):
    for (nm, kind, v), (nm2, _, u) in zip(base, other, strict=True):
        if kind == PART:
            p, q = np.asarray(v)[list(perm)], np.asarray(u)
            same([partition(c) for c in p.T.tolist()], [partition(c) for c in q.T.tolist()], f"{what}, {nm}")
        elif kind in (INV, "scale"):
            same(v, u, f"{what}, {nm}")
        else:
            same(rearrange(kind, v, perm), u, f"{what}, {nm}")
