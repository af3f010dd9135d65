"""C32: reproducibility and use of randomness."""
import itertools
import math
import os
import pickle
import random
import subprocess
import sys
from fractions import Fraction as F

import numpy as np
from giddy import markov, rank, sequence
from giddy.directional import Rose
from giddy.markov import Spatial_Markov
from giddy.util import get_lower, shuffle_matrix
from libpysal.weights import W

from ..choice import Controller, controlled, explore_rng
from ..core import VERIF, HarnessError, Mismatch, Skip, count, product_space
from ..util import all_graphs, need, no_isolates, unchanged
from . import _ops as O, _spm as S
from .c29 import OBJECTS, quiet

BINDING = ("every analysis of the catalogue is executed on the real code from several generator states and in interpreters with different "
           "hash seeds; shuffle_matrix is run for every permutation the controlled generator can answer")
ASSUMPTIONS = ["identical results: equal up to 1e-9"]
SEEDS = (0, 1, 7, 12345, 2 ** 31)


def state():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2:], random.getstate()


def prepare(seed, burn):
    np.random.seed(seed)
    random.seed(seed)
    for _ in range(burn):
        np.random.normal()                      # leaves a cached second value when burn is odd
    return state()


def run_named(name, w):
    return O.snap(O.attempt(O.ANALYSES[name][0], w))


def calm_run(s):
    """No permutations requested: no draw, and the same result from every state of the generator."""
    wn, an, seed, burn = s
    w = O.World(wn)
    before = prepare(seed, burn)
    r = run_named(an, w)
    need(state() == before, f"{an}: state of the random generator changed")
    prepare(99, 0)
    d = O.differ(r, run_named(an, O.World(wn)))
    need(d is None, f"{an} from generator state {seed, burn}: {d}")
    if an in ("heatmap",):                      # its source is a stand-in that draws like esda does
        return
    ctl = Controller()
    try:
        with controlled(ctl):
            r2 = run_named(an, O.World(wn))
    except HarnessError as e:
        raise Mismatch(f"{an} draws random numbers: {e}")
    need(not ctl.log, f"{an} asks for {len(ctl.log)} random numbers without a permutation request")
    d = O.differ(r, r2)
    need(d is None, f"{an}: {d}")


def op_run(s):
    wn, on, op, seed = s
    rnd = op.startswith("permute") or op in ("again", "spatial")
    w = O.World(wn)
    o = quiet(OBJECTS[on][0], w)
    if isinstance(o, O.Refused):
        raise Skip()
    before = prepare(seed, 1)
    r = O.snap(O.attempt(OBJECTS[on][1][op], w, o))
    if not rnd:
        need(state() == before, f"{on}.{op}: state of the random generator changed")
    w2 = O.World(wn)
    o2 = quiet(OBJECTS[on][0], w2)
    prepare(seed, 1)
    d = O.differ(O.snap(O.attempt(OBJECTS[on][1][op], w2, o2)), r)
    need(d is None, f"{on}.{op} twice from the same seed: {d}")


def seeded_run(s):
    """s = (world, analysis, seed, analysis in between): twice from the same seed, with something else before."""
    wn, an, seed, mid = s
    out = []
    for rep in range(2):
        w = O.World(wn)
        if mid and rep:
            np.random.seed(5)
            O.snap(O.attempt(O.ANALYSES[mid][0], w))
        prepare(seed, 1)
        r = run_named(an, w)
        out.append((r, state()))
    d = O.differ(out[0][0], out[1][0])
    need(d is None, f"{an} twice from seed {seed}: {d}")
    need(out[0][1] == out[1][1], f"{an} twice from seed {seed}: the generator ends in different states")


def apart_run(s):
    """No analysis sets the state of the generator: from different states it ends in different ones."""
    wn, an = s
    ends = {}
    for seed in SEEDS:
        for burn in (1,):                       # one seed with different burns may meet again by rejection
            before = prepare(seed, burn)
            w = O.World(wn)
            if isinstance(an, tuple):
                o = quiet(OBJECTS[an[0]][0], w)
                if isinstance(o, O.Refused):
                    raise Skip()
                prepare(seed, burn)
                O.attempt(OBJECTS[an[0]][1][an[1]], w, o)
            else:
                O.attempt(O.ANALYSES[an][0], w)
            after = state()
            need(after[3] == before[3], f"{an}: state of the standard generator changed")
            key = after[:3]
            need(key not in ends, f"{an}: the generator ends in the same state from seeds {ends.get(key)} and {seed, burn}")
            ends[key] = (seed, burn)


def chain_run(s):
    """A program of several analyses, run twice from one seed."""
    wn, seed, *names = s
    res = []
    for _ in range(2):
        w = O.World(wn)
        prepare(seed, 0)
        res.append([run_named(n, w) for n in names])
    for n, a, b in zip(names, *res):
        d = O.differ(a, b)
        need(d is None, f"{n} in the program {names} from seed {seed}: {d}")


def tie_run(s):
    """Categorical lags without remaining ties use no randomness."""
    edges, *cols = s
    n = 3
    y = np.array(cols).T
    W = S.wmatrix(n, edges, "b")
    lags = S.categorical_lags(W, [list(map(int, r)) for r in y])
    if any(len(c) > 1 for r in lags for c in r):
        raise Skip()
    before = prepare(3, 0)
    sm = Spatial_Markov(y, S.real_w(n, edges, "b"), discrete=True)
    T = np.array(sm.T)
    need(state() == before, "the random generator was used although no tie remains")
    ctl = Controller()
    with controlled(ctl):
        sm = Spatial_Markov(y, S.real_w(n, edges, "b"), discrete=True)
    need(not ctl.log and np.array_equal(T, sm.T), "a random number was asked for although no tie remains")


def matrix(n, kind):
    M = np.arange(n * n).reshape(n, n) * 3 + 1
    if kind == "float":
        return M / 7.0
    if kind == "bool":
        return (M * 5 % 7) > 2
    if kind == "str":
        return M.astype(str)
    if kind == "F":
        return np.asfortranarray(M)
    if kind == "view":
        return np.arange(4 * n * n).reshape(2 * n, 2 * n)[::2, ::2]
    if kind == "sym":
        return M + M.T
    return M


def shuffle_run(s):
    n, kind, idk = s
    M = matrix(n, kind)

    def body():
        X = M.copy() if kind != "view" else matrix(n, kind)
        ids = list(range(n)) if idk == "list" else np.arange(n) if idk == "array" else list(range(n))[::-1]
        R = shuffle_matrix(X, ids)
        unchanged(M, X, "X")
        return np.asarray(R)
    res = explore_rng(body)
    count("permutations", len(res))
    want = {}
    for p in itertools.permutations(range(n)):
        key = repr(M[list(p)][:, list(p)].tolist())
        want[key] = want.get(key, 0) + F(1, math.factorial(n))
    got = {}
    for pr, R, _ in res:
        need(R.shape == (n, n), f"shape {R.shape}")
        key = repr(R.tolist())
        need(key in want, f"{key} is not the matrix {M.tolist()} with one common permutation of rows and columns")
        got[key] = got.get(key, 0) + pr
    need(got == want, f"permuted matrices and their probabilities {got}, expected {want}")


def lower_run(s):
    n, kind = s
    M = matrix(n, kind)
    keep = M.copy()
    R = get_lower(M)
    unchanged(keep, M, "matrix")
    want = [M[i, j] for i in range(n) for j in range(i)]
    need(R.shape == (n * (n - 1) // 2, 1), f"shape {R.shape}")
    need([x for x in R[:, 0].tolist()] == [x.item() for x in want], f"{R[:, 0].tolist()} of {M.tolist()}")


def lower_pattern(s):
    n, *bits = s
    M = np.array(bits).reshape(n, n)
    R = get_lower(M)
    need(R[:, 0].tolist() == [int(M[i, j]) for i in range(n) for j in range(i)], f"{R.tolist()} of {M.tolist()}")


class Big:
    """Data of a size, with ties or without, and fresh weights."""
    def __init__(self, n, kind):
        i = np.arange(n)
        lev = {"distinct": 10007, "ties": 5, "two": 2}[kind]
        self.n = n
        self.y = np.array([((i * i * 37 + i * (11 + 5 * t) + 3 * t) % 10007 % lev) for t in range(4)], float).T + 1
        self.cls = self.y.astype(int) % 4
        self.reg = (i * 7) % (2 + n // 40)
        self.Y = self.y / self.y.mean(axis=0)
        nb = {int(a): sorted({int((a + 1) % n), int((a - 1) % n)} | ({0} if a else {n // 2})) for a in i}
        for a in i:
            for b in list(nb[int(a)]):
                if int(a) not in nb[b]:
                    nb[b].append(int(a))
        self.w = W(nb, silence_warnings=True)


def permuted_rose(b, alt):
    r = Rose(b.Y[:, :2], b.w, 5)
    r.permute(8, alternative=alt)
    return r


# name: (function, permutations requested)
BIG = {
    "markov": (lambda b: markov.Markov(b.cls, summary=False), 0),
    "spatial markov": (lambda b: markov.Spatial_Markov(b.y, b.w, k=2, m=2), 0),
    "spatial markov permuted": (lambda b: [markov.Spatial_Markov(b.y, b.w, k=2, m=2, permutations=p).x2_realizations for p in (1, 5)], 1),
    "spatial markov discrete": (lambda b: [markov.Spatial_Markov(b.cls, b.w, discrete=True).T], 2),
    "spatial markov discrete permuted": (lambda b: [markov.Spatial_Markov(b.cls, b.w, discrete=True, permutations=2).x2_realizations], 1),
    "lisa": (lambda b: markov.LISA_Markov(b.y, b.w), 0),
    "lisa permuted": (lambda b: markov.LISA_Markov(b.y, b.w, permutations=49), 1),      # compiles esda for half a minute
    "full rank": (lambda b: markov.FullRank_Markov(b.y[:60], summary=False).transitions, 0),
    "geo rank": (lambda b: markov.GeoRank_Markov(b.y[:60], summary=False).transitions, 0),
    "theta": (lambda b: rank.Theta(b.y, b.reg, permutations=0), 0),
    "theta permuted": (lambda b: rank.Theta(b.y, b.reg, permutations=40), 1),
    "tau": (lambda b: rank.Tau(b.y[:, 0], b.y[:, 3]), 0),
    "spatial tau": (lambda b: rank.SpatialTau(b.y[:, 0], b.y[:, 1], b.w), 0),
    "spatial tau permuted": (lambda b: rank.SpatialTau(b.y[:, 0], b.y[:, 1], b.w, permutations=15), 1),
    "neighbour tau": (lambda b: rank.Tau_Local_Neighbor(b.y[:, 0], b.y[:, 1], b.w).tau_ln, 0),
    "neighbour tau permuted": (lambda b: rank.Tau_Local_Neighbor(b.y[:, 0], b.y[:, 1], b.w, permutations=2).tau_ln_sim, 1),
    "neighbourhood tau": (lambda b: rank.Tau_Local_Neighborhood(b.y[:, 0], b.y[:, 1], b.w).tau_lnhood, 0),
    "neighbourhood tau permuted": (lambda b: rank.Tau_Local_Neighborhood(b.y[:, 0], b.y[:, 1], b.w, permutations=2).tau_lnhood_sim, 1),
    "regional tau": (lambda b: rank.Tau_Regional(b.y[:, 0], b.y[:, 1], b.reg).tau_reg, 0),
    "regional tau permuted": (lambda b: rank.Tau_Regional(b.y[:, 0], b.y[:, 1], b.reg, permutations=12).tau_reg_sim, 1),
    "rose": (lambda b: Rose(b.Y[:, :2], b.w, 7).counts, 0),
    "rose permuted": (lambda b: permuted_rose(b, "two.sided"), 1),
    "rose permuted, positive": (lambda b: permuted_rose(b, "positive"), 1),
    "sequence": (lambda b: sequence.Sequence(b.cls[:40], dist_type="markov").seq_dis_mat, 0),
    "shuffle": (lambda b: shuffle_matrix(b.w.full()[0], list(range(b.n))), 1),
}


def big_run(s):
    """Larger data: twice from one seed, from another one, and without a draw where no permutation is requested."""
    n, kind, name, seed = s
    f, rnd = BIG[name]
    out = []
    for sd, burn in ((seed, 1), (seed, 1), (seed + 1, 0)):
        before = prepare(sd, burn)
        r = O.snap(O.attempt(f, Big(n, kind)))
        after = state()
        out.append((r, after))
        need(after[3] == before[3], f"{name}: state of the standard generator changed")
        if not rnd:
            need(after == before, f"{name}: state of the random generator changed without a permutation request")
        elif rnd == 1 and not isinstance(r, O.Refused):
            need(after != before, f"{name}: permutations drawn, but not from numpy's random generator")
    d = O.differ(out[0][0], out[1][0])
    need(d is None, f"{name} of {n} units twice from seed {seed}: {d}")
    need(out[0][1] == out[1][1], f"{name} of {n} units twice from seed {seed}: the generator ends in different states")
    if rnd:
        need(rnd == 2 or out[0][1] != out[2][1], f"{name} of {n} units: the generator ends in the same state from two seeds")
    else:
        d = O.differ(out[0][0], out[2][0])
        need(d is None, f"{name} of {n} units from another state of the generator: {d}")


HASH = {}


def hash_results(seeds):
    """Results of the catalogue in interpreters with different hash seeds."""
    ps = []
    for k in seeds:
        env = dict(os.environ, PYTHONHASHSEED=str(k))
        ps.append(subprocess.Popen([sys.executable, os.path.join(VERIF, "mc", "hashrun.py")], env=env, cwd=VERIF,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    for k, p in zip(seeds, ps):
        out, err = p.communicate(timeout=600)
        try:
            HASH[k] = pickle.loads(out)
        except Exception:
            HASH[k] = err.decode()[-800:]


def hash_run(s):
    key, k = s
    a, b = HASH[0], HASH[k]
    for v in (a, b):
        if isinstance(v, str):
            raise Mismatch("the catalogue of analyses fails: " + v)
    d = O.differ(b[key], a[key])
    need(d is None, f"{key} depends on the hash seed of the interpreter: {d}")


def spaces(tier):
    deep = tier == "thorough"
    names = list(O.ANALYSES)
    calm = [n for n in names if not O.ANALYSES[n][2]]
    wild = [n for n in names if O.ANALYSES[n][2]]
    wn = list(O.CONF)
    hs = (0, 1, 2, 3) + ((4, 5, 6, 7) if deep else ())
    hash_results(hs)
    keys = sorted(HASH[0], key=repr) if isinstance(HASH[0], dict) else ["none"]
    seeds = SEEDS if deep else SEEDS[:4]
    ops = [(b, op) for b in OBJECTS for op in OBJECTS[b][1]]
    g3 = [e for e in all_graphs(3) if no_isolates(3, e)]
    cols = list(itertools.product(range(3), repeat=3))
    mid = [None] + (names if deep else [n for n in names if n not in ("heatmap", "rose plot", "vector plot")])
    sp = [
        product_space("analyses without permutations", [wn, calm, seeds, (0, 1)], calm_run),
        product_space("analyses with permutations, another one before", [wn if deep else wn[:4] + wn[6:], wild, SEEDS[1:4 if deep else 3], mid], seeded_run),
        product_space("the generator is never seeded", [wn, wild + ops], apart_run),
        product_space("programs of two random analyses", [wn[1:4] + wn[6:7], SEEDS[2:3 if not deep else 5], wild, wild], chain_run),
        product_space("object operations", [wn[:4] + wn[6:], ops, (3, 8)], lambda s: op_run((s[0],) + s[1] + (s[2],))),
        product_space("hash seeds", [keys, hs[1:]], hash_run, "every analysis and all small cluster histories, in one interpreter per hash seed"),
        product_space("larger data", [[30, 120, 260] + ([40, 75, 520] if deep else []), ["distinct", "ties", "two"], [x for x in BIG if x != "lisa permuted"], (1, 2024)], big_run),
    ] + ([product_space("larger data, local Moran statistics of esda", [[30, 120], ["distinct", "ties"], ["lisa permuted"], (1, 2024)], big_run)] if deep else []) + [
        product_space("no remaining ties", [g3, cols, cols if deep else cols[::2]], tie_run),
        product_space("shuffle_matrix", [range(1, 7 if deep else 6), ("int", "float", "bool", "str", "F", "view", "sym"), ("list", "array", "reversed")], shuffle_run),
        product_space("get_lower", [range(1, 30), ("int", "float", "bool", "str", "F", "view", "sym")], lower_run),
    ]
    for n in (1, 2, 3) + ((4,) if deep else ()):
        sp.append(product_space(f"get_lower, all 0/1 matrices {n}x{n}", [[n]] + [(0, 1)] * (n * n), lower_pattern))
    return sp
