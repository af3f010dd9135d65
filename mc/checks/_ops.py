"""Catalogue of analyses on a common data set ("world"), snapshots of their results, and fresh baselines.

A baseline is the result of one analysis on fresh data and weights in a newly forked process, so that nothing
done before (module state, caches, mutated inputs) can be part of it.
"""
import contextlib
import io
import multiprocessing as mp
import os
import tempfile

import giddy
import giddy.plotting as plotting
import matplotlib.pyplot as plt
import numpy as np
from giddy import components, ergodic, markov, mobility, rank, sequence, util
from giddy.directional import Rose

from ..core import Mismatch
from . import _lisa, _spm as S

TOL = 1e-9
GIDDY = ("giddy.",)


# ---------------------------------------------------------------- worlds

CONF = {
    # name: (n, t, edges, style, transform, ids, seed)
    "A": (5, 4, ((0, 1), (1, 2), (2, 3), (3, 4), (0, 2)), "b", "r", None, 1),
    "B": (5, 4, ((0, 1), (1, 2), (2, 3), (3, 4)), "b", "o", ["e", "b", "d", "a", "c"], 2),
    "C": (6, 3, ((0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (2, 3)), "d", "o", [7, 3, 11, 2, 5, 13], 3),
    "D": (6, 4, ((0, 1), (0, 2), (0, 3), (0, 4), (4, 5)), "b", "b", None, 4),
    "E": (5, 4, ((0, 1), (1, 2), (2, 3), (3, 4), (0, 2)), "b", "v", None, 5),
    "F": (5, 4, ((0, 1), (1, 2), (2, 3), (3, 4), (0, 2)), "b", "r", None, 6),
    # directed neighbours; every unit its own regime; integer data
    "G": (6, 4, ((0, 1), (1, 2), (2, 0), (3, 1), (4, 3), (5, 4), (0, 4)), ">", "o", ["p", "q", "r", "s", "t", "u"], 7),
    # all units in one regime; units without neighbours
    "H": (5, 3, ((0, 1), (1, 2)), "b", "r", None, 8),
}
REGIMES = {"G": lambda n: list(range(n)), "H": lambda n: [0] * n}
INTEGER = {"G"}


def arcs_w(n, arcs, ids):
    """Directed neighbours with weights 1, 2, ..."""
    from libpysal.weights import W
    nb = {ids[i]: [ids[b] for a, b in arcs if a == i] for i in range(n)}
    wt = {ids[i]: [1.0 + q for q, (a, b) in enumerate(arcs) if a == i] for i in range(n)}
    return W(nb, wt, id_order=list(ids), silence_warnings=True)


TWINS = ("swapped", "close", "bytes", "rewired", "standardised")
OTHER = {"r": "b", "o": "r", "b": "r", "v": "r"}


class World:
    """name: a key of CONF, or key~twin for other data that look alike.

    swapped: the same values (so equal sums, means, shapes) in another arrangement;
    close: values that agree with the originals to three decimals, in another order;
    bytes: values with the same bytes in another storage type; rewired: the same data with other neighbours;
    standardised: the same data and neighbours, the weights with another transformation
    """

    def __init__(self, name, w=None):
        conf, _, twin = name.partition("~")
        n, t, edges, style, tr, ids, seed = CONF[conf]
        if twin == "rewired":
            edges = tuple(((a + 1) % n, (b + 1) % n) for a, b in edges[:-1])
            edges += tuple((i, (i + 1) % n) for i in range(n) if (i, (i + 1) % n) not in edges and ((i + 1) % n, i) not in edges)
        self.name, self.n, self.t = name, n, t
        self.w = w or (arcs_w(n, edges, ids) if style == ">" else S.real_w(n, edges, style, ids=ids))
        self.w.transform = OTHER[tr] if twin == "standardised" else tr
        r = [(i * 7 + s * 5 + seed * 3 + (i * s * seed) % 4) % 11 for i in range(n) for s in range(t)]
        self.y = 1.0 + np.array(r, float).reshape(n, t) / 4
        if conf in INTEGER:
            self.y = np.array(r).reshape(n, t) + 1
        self.x0, self.x1 = self.y[:, 0].copy(), self.y[:, -1].copy()
        self.cls = (np.array(r).reshape(n, t) + seed) % 3
        self.cls[0, :3] = [0, 1, 2]
        self.names = np.array(["low", "mid", "high"])[self.cls]
        self.reg = np.array([(i * 2 + seed) % 2 for i in range(n)])
        if conf in REGIMES:
            self.reg = np.array(REGIMES[conf](n))
        self.reg_s = np.array(["n", "s", "e", "w", "c", "x"])[self.reg]
        self.Y = self.y[:, [0, -1]].copy()
        self.T = np.array([[[((i * 3 + j * 5 + g * seed) % 4) + (i == j) for j in range(3)] for i in range(3)] for g in range(3)])
        self.P = np.array([[.5, .5, 0], [.25, .25, .5], [0, .5, .5]])
        self.P0 = np.array([[.5, .5, 0], [0, 0, 0], [0, .5, .5]])
        self.Pr = np.array([[1, 0, 0], [.25, .25, .5], [0, 0, 1.]])
        self.subs = np.array([[0, .5, 1], [.5, 0, .7], [1, .7, 0]])
        if twin:
            self.twin(twin, conf)
        self.ids = list(range(3))
        self.area = list(self.w.id_order)
        self.keep = self.copy()
        self.wkeep = self.wsnap()

    def twin(self, kind, conf):
        if kind == "swapped":
            self.y = np.roll(self.y, 1, axis=0)
            self.cls = (self.cls[::-1] + 0)[:, ::-1].copy()
            self.reg, self.reg_s = self.reg[::-1].copy(), self.reg_s[::-1].copy()
            self.T = self.T.transpose(0, 2, 1).copy()
            q = [1, 2, 0]
            self.P, self.P0, self.Pr, self.subs = (a[q][:, q] for a in (self.P, self.P0, self.Pr, self.subs))
        elif kind == "close":
            n, t = self.y.shape
            e = 1e-5 * ((np.arange(n * t).reshape(n, t) * 7 + 3) % 5 + 1)
            self.y = self.y + (e if self.y.dtype.kind == "f" else 0)
            d = 1e-4 * np.array([[-1, 1, 0], [1, -2, 1], [0, 1, -1]])
            self.P = self.P + d
            self.P0 = self.P0 + d * [[1], [0], [1]]
            self.Pr = self.Pr + d * [[0], [1], [0]]
            self.subs = self.subs + 1e-4 * (1 - np.eye(3)) * [[0, 1, 2], [1, 0, 3], [2, 3, 0]]
            self.T = self.T * 1000 + (np.arange(9).reshape(3, 3) + np.arange(3)[:, None, None])
        elif kind == "bytes":
            for a in ("y", "x0", "x1", "Y", "P", "P0", "Pr", "subs"):
                v = getattr(self, a)
                setattr(self, a, np.asfortranarray(v) if v.dtype.kind == "f" else v.astype(float))
            self.T = self.T.astype(float)
            self.y = (self.y * 4).astype(int).astype(float)
            self.cls = self.cls.astype(np.int8)
        if kind not in ("rewired", "standardised"):
            self.x0, self.x1 = self.y[:, 0].copy(), self.y[:, -1].copy()
            self.Y = self.y[:, [0, -1]].copy()
            self.names = np.array(["low", "mid", "high"])[self.cls]

    ARR = ("y", "x0", "x1", "cls", "names", "reg", "reg_s", "Y", "T", "P", "P0", "Pr", "subs")

    def become(self, other):
        """Take over the data of another world of the same shape in the same arrays, and its transformation."""
        for a in self.ARR:
            u, v = getattr(self, a), getattr(other, a)
            if u.dtype != v.dtype or u.shape != v.shape:
                raise ValueError(a)
            u[...] = v
        if self.w.transform != other.w.transform:
            self.w.transform = other.w.transform
        self.name = other.name
        self.keep, self.wkeep = self.copy(), self.wsnap()

    def copy(self):
        return {a: np.array(getattr(self, a)) for a in self.ARR}

    def wsnap(self):
        w = self.w
        return ({k: list(v) for k, v in w.neighbors.items()}, {k: [float(x) for x in v] for k, v in w.weights.items()},
                list(w.id_order), w.transform)

    def check(self, what):
        for a, v in self.keep.items():
            u = getattr(self, a)
            if u.dtype != v.dtype or u.shape != v.shape or not (u == v).all():
                raise Mismatch(f"{what}: data array {a} changed from {v.tolist()} to {u.tolist()}")
        if self.area != list(self.w.id_order):
            raise Mismatch(f"{what}: list of units changed to {self.area}")
        s = self.wsnap()
        for b, a, nm in zip(self.wkeep, s, ("neighbours", "weights", "order", "transform")):
            if a != b:
                raise Mismatch(f"{what}: {nm} of the weights object changed from {b!r} to {a!r}")


# ---------------------------------------------------------------- snapshots

class Refused(str):
    pass


def attempt(f, *a):
    """The value of f, or the kind of its refusal."""
    try:
        return f(*a)
    except (ValueError, ZeroDivisionError) as e:      # local tau of a unit without neighbours is 0/0
        return Refused("refused: " + type(e).__name__)

def snap(o, depth=3):
    """Comparable, picklable value of a result."""
    if o is None or isinstance(o, (bool, str)):
        return str(o) if isinstance(o, str) else o
    if isinstance(o, (int, float, complex, np.generic)):
        if isinstance(o, np.str_):
            return str(o)
        return complex(o) if isinstance(o, (complex, np.complexfloating)) else float(o)
    if isinstance(o, np.ndarray):
        return ("nd", o.shape, [snap(v, depth) for v in o.ravel().tolist()])
    if isinstance(o, dict):
        return ("dict", sorted((repr(k), snap(v, depth)) for k, v in o.items()))
    if isinstance(o, (set, frozenset)):
        return ("set", sorted(repr(v) for v in o))
    if isinstance(o, (list, tuple)):
        return ("seq", [snap(v, depth) for v in o])
    if type(o).__module__.startswith("giddy") and depth:
        return ("obj", type(o).__name__, {a: snap(attempt(getattr, o, a), depth - 1) for a in public(o)})
    if type(o).__module__.startswith("libpysal"):
        return "weights"
    return "object " + type(o).__name__


def public(o):
    out = []
    for a in dir(o):
        if a.startswith("_"):
            continue
        c = getattr(type(o), a, None)
        if callable(c):
            continue
        out.append(a)
    return out


def differ(a, b, path="result"):
    """None, or where two snapshots differ."""
    if isinstance(a, (float, complex)) and isinstance(b, (float, complex)) and not isinstance(a, bool) and not isinstance(b, bool):
        if a == b or (a != a and b != b) or abs(a - b) <= TOL * max(1, abs(a)):
            return None
        return f"{path}: {a!r} instead of {b!r}"
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
        if a[0] == "nd":
            if a[1] != b[1]:
                return f"{path}: shape {a[1]} instead of {b[1]}"
            return first(differ(x, y, f"{path}[{i}]") for i, (x, y) in enumerate(zip(a[2], b[2])))
        if a[0] == "obj":
            if set(a[2]) != set(b[2]):
                return f"{path}: attributes {sorted(set(a[2]) ^ set(b[2]))} on one side only"
            return first(differ(a[2][k], b[2][k], f"{path}.{k}") for k in sorted(a[2]))
        if a[0] == "seq":
            if len(a[1]) != len(b[1]):
                return f"{path}: {len(a[1])} items instead of {len(b[1])}"
            return first(differ(x, y, f"{path}[{i}]") for i, (x, y) in enumerate(zip(a[1], b[1])))
        if a[0] == "dict":
            if [k for k, _ in a[1]] != [k for k, _ in b[1]]:
                return f"{path}: keys {[k for k, _ in a[1]]} instead of {[k for k, _ in b[1]]}"
            return first(differ(x, y, f"{path}[{k}]") for (k, x), (_, y) in zip(a[1], b[1]))
    return None if a == b else f"{path}: {a!r} instead of {b!r}"


def first(it):
    return next((x for x in it if x is not None), None)


# ---------------------------------------------------------------- analyses

def _sig_source(w):
    """Local Moran source with significance, determined by the values only."""
    def lookup(v):
        r = np.argsort(np.argsort(v))
        n = len(v)
        q = [1 if x >= n // 2 else 3 for x in r]
        q[int(v[0] * 4) % n] = 2
        q[int(v[-1] * 4) % n] = 4
        return q, [0.01 if (x + int(v[0])) % 3 else 0.3 for x in r]
    return _lisa.Source(lookup)


def lisa_sig(w):
    with _lisa.moran_local(_sig_source(w)):
        return markov.LISA_Markov(w.y, w.w, permutations=9)


class PlotSource(_lisa.Source):
    def __call__(self, y, w=None, *a, **k):
        r = super().__call__(y, w, *a, **k)
        np.random.random(3)
        if w is not None:
            w.transform = "r"
        r.p_sim = r.p_z_sim
        return r


def heatmap(w, rose=None):
    src = PlotSource(_sig_source(w).lookup)
    with _lisa.moran_local(src):
        fig, ax = plotting.dynamic_lisa_heatmap(rose or Rose(w.Y, w.w, 5), annot=False)
    out = np.ma.filled(np.ma.array(ax.collections[0].get_array(), float), -1)
    plt.close(fig)
    return out


def rose_plot(w, rose=None):
    fig, ax = plotting.dynamic_lisa_rose(rose or Rose(w.Y, w.w, 4))
    out = [np.asarray(c.get_offsets(), float) for c in ax.collections]
    plt.close(fig)
    return out


def vector_plot(w, rose=None):
    fig, ax = plotting.dynamic_lisa_vectors(rose or Rose(w.Y, w.w, 4))
    out = [np.column_stack(ln.get_data()) for ln in ax.lines]
    plt.close(fig)
    return out


def rose_permuted(w, **kw):
    r = Rose(w.Y, w.w, 4)
    r.permute(9, **kw)
    return r


def captured(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f()
    return out.getvalue()


def latex(f):
    d = tempfile.mkdtemp(prefix="verif_c29_")
    try:
        p = os.path.join(d, "t.tex")
        f(p)
        out = []
        for x in sorted(os.listdir(d)):
            with open(os.path.join(d, x)) as h:
                out.append((x, h.read()))
        return out
    finally:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)


def contig(w):
    return [components.check_contiguity(w.w, w.area, u) for u in list(w.area)]


def ssm(w, **kw):
    return markov.Spatial_Markov(w.y, w.w, variable_name="v", **kw)


# name -> (function of the world, uses weights, requests randomness)
ANALYSES = {
    "markov": (lambda w: markov.Markov(w.cls, summary=False), 0, 0),
    "markov names": (lambda w: markov.Markov(w.names, classes=np.array(["low", "high", "mid", "x"]), fill_empty_classes=True, summary=False), 0, 0),
    "markov summary": (lambda w: captured(lambda: markov.Markov(w.names)), 0, 0),
    "spatial markov": (lambda w: ssm(w, k=2, m=3, fixed=True), 1, 0),
    "spatial markov per period": (lambda w: ssm(w, k=2, m=2, fixed=False), 1, 0),
    "spatial markov cutoffs": (lambda w: ssm(w, cutoffs=[1.9, 2.6], lag_cutoffs=[2.0], fill_empty_classes=True), 1, 0),
    "spatial markov permuted": (lambda w: ssm(w, k=2, m=2, permutations=3), 1, 1),
    "spatial markov discrete": (lambda w: markov.Spatial_Markov(w.cls, w.w, discrete=True), 1, 1),
    "spatial markov discrete permuted": (lambda w: markov.Spatial_Markov(w.cls, w.w, discrete=True, permutations=2), 1, 1),
    "lisa": (lambda w: markov.LISA_Markov(w.y, w.w), 1, 0),
    "lisa geoda": (lambda w: markov.LISA_Markov(w.y, w.w, geoda_quads=True), 1, 0),
    "lisa significant": (lisa_sig, 1, 0),
    "spillover": (lambda w: [lisa_sig(w).spillover(quadrant=q, neighbors_on=b) for q in (1, 2, 3, 4) for b in (False, True)], 1, 0),
    "full rank": (lambda w: markov.FullRank_Markov(w.y, summary=False), 0, 0),
    "geo rank": (lambda w: markov.GeoRank_Markov(w.y, summary=False), 0, 0),
    "homogeneity": (lambda w: markov.homogeneity(w.T, title="t"), 0, 0),
    "homogeneity report": (lambda w: captured(markov.homogeneity(w.T, regime_names=["a", "b", "c"]).summary), 0, 0),
    "kullback": (lambda w: markov.kullback(w.T), 0, 0),
    "chi2": (lambda w: markov.chi2(w.T[0], w.T[1]), 0, 0),
    "prais, sojourn, mobility": (lambda w: [markov.prais(w.P), markov.sojourn_time(w.Pr, summary=False)] + [
        mobility.markov_mobility(w.P, measure=m) for m in ("P", "D", "L2", "B1", "B2")], 0, 0),
    "ergodic": (lambda w: [ergodic.steady_state(w.P), ergodic.steady_state(w.Pr), ergodic.steady_state(w.P0, fill_empty_classes=True),
                           ergodic.mfpt(w.P), ergodic.mfpt(w.Pr), ergodic.mfpt(w.P0, fill_empty_classes=True),
                           ergodic.var_mfpt_ergodic(w.P)], 0, 0),
    "theta": (lambda w: rank.Theta(w.y, w.reg, permutations=0), 0, 0),
    "theta permuted": (lambda w: rank.Theta(w.y, w.reg_s, permutations=5), 0, 1),
    "tau": (lambda w: rank.Tau(w.x0, w.x1), 0, 0),
    "spatial tau": (lambda w: rank.SpatialTau(w.x0, w.x1, w.w), 1, 0),
    "spatial tau permuted": (lambda w: rank.SpatialTau(w.x0, w.x1, w.w, permutations=4), 1, 1),
    "local tau": (lambda w: rank.Tau_Local(w.x0, w.x1), 0, 0),
    "neighbour tau": (lambda w: rank.Tau_Local_Neighbor(w.x0, w.x1, w.w), 1, 0),
    "neighbour tau permuted": (lambda w: rank.Tau_Local_Neighbor(w.x0, w.x1, w.w, permutations=3), 1, 1),
    "neighbourhood tau": (lambda w: rank.Tau_Local_Neighborhood(w.x0, w.x1, w.w), 1, 0),
    "neighbourhood tau permuted": (lambda w: rank.Tau_Local_Neighborhood(w.x0, w.x1, w.w, permutations=3), 1, 1),
    "regional tau": (lambda w: rank.Tau_Regional(w.x0, w.x1, w.reg), 0, 0),
    "regional tau permuted": (lambda w: rank.Tau_Regional(w.x0, w.x1, w.reg_s, permutations=4), 0, 1),
    "rose": (lambda w: Rose(w.Y, w.w, 8), 1, 0),
    "rose permuted": (lambda w: rose_permuted(w), 1, 1),
    "rose plot": (rose_plot, 1, 0),
    "vector plot": (vector_plot, 1, 0),
    "heatmap": (heatmap, 1, 0),
    "contiguity": (contig, 1, 0),
    "sequence custom": (lambda w: sequence.Sequence(w.cls, subs_mat=w.subs, indel=.6), 0, 0),
    "sequence interval": (lambda w: sequence.Sequence(w.cls, dist_type="interval"), 0, 0),
    "sequence tran": (lambda w: sequence.Sequence(w.names, dist_type="tran"), 0, 0),
    "sequence markov": (lambda w: sequence.Sequence(w.cls, dist_type="markov"), 0, 0),
    "sequence hamming": (lambda w: sequence.Sequence(w.names, dist_type="hamming"), 0, 0),
    "fill, lower": (lambda w: [util.fill_empty_diagonals(w.P0), util.fill_empty_diagonals(np.array([w.P0, w.P])), util.get_lower(w.P)], 0, 0),
    "shuffle": (lambda w: util.shuffle_matrix(w.P, list(w.ids)), 0, 1),
}


def analyse(name, world):
    """Run one analysis with the generator at a fixed state."""
    np.random.seed(12345)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        return attempt(ANALYSES[name][0], world)


def fork_map(fn, items):
    """fn(item) in a newly forked process each (8 at a time)."""
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        return p.map(fn, items, chunksize=1)


def _baseline(item):
    try:
        wn, an = item
        w = World(wn)
        with contextlib.redirect_stdout(io.StringIO()):
            return item, snap(analyse(an, w))
    except BaseException as e:
        import traceback
        return item, ("failed", f"{type(e).__name__}: {e} {traceback.format_exc()[-600:]}")


def baselines(worlds, names=None):
    items = [(a, b) for a in worlds for b in (names or ANALYSES)]
    return dict(fork_map(_baseline, items))
