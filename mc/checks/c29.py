"""C29: results never depend on what was computed before."""
import contextlib
import io
import itertools

import matplotlib.pyplot as plt
import numpy as np
from giddy import ergodic, markov, mobility, sequence, rank
from giddy.directional import Rose

from ..core import Mismatch, Skip, count, product_space
from ..util import need
from . import _lisa, _ops as O

BINDING = ("the transition system is the real code: every operation sequence up to the depth bound is executed on shared objects, data "
           "and weights, and every result is compared with the result of the same operation on fresh ones in a newly forked process")
ASSUMPTIONS = ["a repeated Rose.permute continues the permutation sequence of the previous call (a doctest pins this), so its simulated "
               "values are compared with a fresh object only on the first call"]
BASE = {}


def base(wn, an):
    b = BASE[wn, an]
    if isinstance(b, tuple) and b and b[0] == "failed":
        raise Mismatch(f"{an} fails on fresh data {wn}: {b[1]}")
    return b


def agree(got, want, what):
    d = O.differ(got, want)
    if d:
        raise Mismatch(f"{what}: {d}")


# ------------------------------------------------------------- part 1: sequences of analyses

def seq_run(s):
    """s = ((world names cycle), eager) then analysis names, applied in turn."""
    (ws, eager), names = s[0], s[1:]
    worlds = {wn: O.World(wn) for wn in ws}
    kept = []
    for i, an in enumerate(names):
        wn = ws[i % len(ws)]
        what = f"{an} on {wn} after {list(names[:i])}"
        r = O.analyse(an, worlds[wn])
        kept.append((r, wn, an, what))
        if eager:
            agree(O.snap(r), base(wn, an), what)
        for q in worlds.values():
            q.check(what)
    for r, wn, an, what in kept:
        agree(O.snap(r), base(wn, an), f"{what}, read after {list(names)}")
    for q in worlds.values():
        q.check("reading the results")
    count("analyses", len(names))


def twin_run(s):
    """An analysis of a data set, of one that looks alike, and of the first again."""
    wn, kind, mode, an = s[:4]
    an2 = s[-1]
    tn = f"{wn}~{kind}"
    a = O.World(wn)
    ra = O.analyse(an, a)
    if mode == "dropped":
        agree(O.snap(ra), base(wn, an), f"{an} on {wn}")
        a = ra = None
    b = O.World(tn, w=a.w if mode == "weights shared" else None)
    rb = O.analyse(an2, b)
    what = f"{an2} on {tn} after {an} on {wn} ({mode})"
    agree(O.snap(rb), base(tn, an2), what)
    b.check(what)
    if a is None:
        a = O.World(wn)
    else:
        agree(O.snap(ra), base(wn, an), f"{an} on {wn}, read after {what}")
    agree(O.snap(O.analyse(an, a)), base(wn, an), f"{an} on {wn} after {what}")
    a.check(what)
    count("analyses", 3)


def inplace_run(s):
    """An analysis, then new values in the same arrays (or a new transformation of the same weights), then an analysis."""
    wn, kind, an, an2 = s[0], s[1], s[2], s[-1]
    tn = f"{wn}~{kind}"
    a = O.World(wn)
    agree(O.snap(O.analyse(an, a)), base(wn, an), f"{an} on {wn}")
    a.check(f"{an} on {wn}")
    a.become(O.World(tn))
    what = f"{an2} on {wn} changed in place ({kind}) after {an} on {wn}"
    agree(O.snap(O.analyse(an2, a)), base(tn, an2), what)
    a.check(what)
    a.become(O.World(wn))
    what = f"{an} on {wn} changed in place and back"
    agree(O.snap(O.analyse(an, a)), base(wn, an), what)
    a.check(what)
    count("analyses", 3)


# ------------------------------------------------------------- part 2: sequences of operations on one object

def attr(a):
    return lambda w, o: getattr(o, a)


def use(f, a="p"):
    return lambda w, o: f(getattr(o, a))


def summary(w, o):
    return O.captured(o.summary)


def summary_title(w, o):
    return O.captured(lambda: o.summary(title="another title"))


def summary_file(w, o):
    return O.latex(lambda p: O.captured(lambda: o.summary(file_name=p)))


SIM = ("counts_perm", "larger_perm", "smaller_perm", "expected_perm", "p", "alternative")


def permute(R, alt):
    def f(w, o):
        o.permute(R, alternative=alt)
        return np.shape(o.counts_perm)
    return f


CORE = ["classes", "transitions", "p", "steady_state", "mfpt", "sojourn_time", "cclasses_indices", "rclasses_indices"]
OBJECTS = {
    # name: (constructor, operations)
    "markov": (lambda w: markov.Markov(w.cls, summary=False),
               {**{a: attr(a) for a in CORE + ["tclasses_indices", "astates_indices", "num_rclasses"]},
                "steady_state(p)": use(lambda p: ergodic.steady_state(p, fill_empty_classes=True)),
                "mfpt(p)": use(lambda p: ergodic.mfpt(p, fill_empty_classes=True)),
                "sojourn(p)": use(lambda p: markov.sojourn_time(p, summary=False)),
                "mobility(p)": use(mobility.markov_mobility), "prais(p)": use(markov.prais)}),
    "markov empty": (lambda w: markov.Markov(w.names, classes=np.array(["x", "low", "high", "mid"]), summary=False),
                     {**{a: attr(a) for a in CORE + ["astates_indices"]},
                      "steady_state(p)": use(lambda p: ergodic.steady_state(p, fill_empty_classes=True)),
                      "mfpt(p)": use(lambda p: ergodic.mfpt(p, fill_empty_classes=True)),
                      "sojourn(p)": use(lambda p: markov.sojourn_time(p, summary=False))}),
    "spatial": (lambda w: markov.Spatial_Markov(w.y, w.w, k=2, m=3, variable_name="v"),
                {**{a: attr(a) for a in ["T", "P", "s", "S", "f", "F", "ht", "Q", "LR", "dof_hom", "chi2", "x2", "x2_pvalue", "x2_dof",
                                         "shtest", "transitions", "lclass_ids", "Q_p_value", "LR_p_value"]},
                 "summary": summary, "summary file": summary_file, "homogeneity(T)": use(lambda t: markov.homogeneity(t), "T"),
                 "kullback(T)": use(markov.kullback, "T")}),
    "spatial permuted": (lambda w: markov.Spatial_Markov(w.y, w.w, k=2, m=2, permutations=3, fill_empty_classes=True),
                         {**{a: attr(a) for a in ["S", "F", "x2", "x2_realizations", "x2_rpvalue", "lclass_ids", "T", "shtest", "Q", "lag_cutoffs"]},
                          "summary": summary}),
    "spatial discrete": (lambda w: markov.Spatial_Markov(w.cls, w.w, discrete=True),
                         {**{a: attr(a) for a in ["T", "P", "S", "F", "Q", "x2", "chi2", "class_ids", "lclass_ids", "s", "f"]},
                          "summary": summary}),
    "lisa": (O.lisa_sig,
             {**{a: attr(a) for a in ["transitions", "p", "steady_state", "mfpt", "expected_t", "chi_2", "move_types", "significant_moves", "q"]},
              **{f"spillover {q} {nb}": (lambda w, o, q=q, nb=nb: o.spillover(quadrant=q, neighbors_on=nb))
                 for q in (1, 3) for nb in (False, True)}, "sojourn_time": attr("sojourn_time")}),
    "homogeneity": (lambda w: markov.homogeneity(w.T, regime_names=["r1", "r2", "r3"], class_names=["a", "b", "c"], title="given"),
                    {**{a: attr(a) for a in ["Q", "LR", "dof", "Q_p_value", "LR_p_value", "p_h0", "p_h1", "title"]},
                     "summary": summary, "summary title": summary_title, "summary file": summary_file}),
    "rose": (lambda w: Rose(w.Y, w.w, 4),
             {**{a: attr(a) for a in ["counts", "theta", "r", "lag", "cuts", "Y", "wY", "bins"]},
              "permute": permute(3, "two.sided"), "permute positive": permute(2, "positive"),
              "plot": lambda w, o: O.rose_plot(w, o), "vectors": lambda w, o: O.vector_plot(w, o),
              "heatmap": lambda w, o: O.heatmap(w, o),
              "origin": lambda w, o: origin(o)}),
    "neighbour tau": (lambda w: rank.Tau_Local_Neighbor(w.x0, w.x1, w.w, permutations=2),
                      {**{a: attr(a) for a in ["tau_ln", "tau_ln_sim", "tau_ln_weights", "tau_ln_pvalues"]},
                       "again": lambda w, o: rank.Tau_Local_Neighborhood(w.x0, w.x1, w.w, permutations=2),
                       "spatial": lambda w, o: rank.SpatialTau(w.x0, w.x1, w.w, permutations=2)}),
    "sequence": (lambda w: sequence.Sequence(w.cls, subs_mat=w.subs, indel=.6),
                 {**{a: attr(a) for a in ["seq_dis_mat", "subs_mat", "indel", "classes"]},
                  "reuse costs": lambda w, o: sequence.Sequence(w.cls, subs_mat=o.subs_mat, indel=o.indel),
                  "interval": lambda w, o: sequence.Sequence(w.cls, dist_type="interval")}),
}


def origin(o):
    f = plt.figure()
    ax = f.add_subplot(111)
    plt.sca(ax)
    o.plot_origin()
    out = [np.column_stack(ln.get_data()) for ln in ax.lines]
    plt.close(f)
    return out


def quiet(f, *a):
    np.random.seed(4242)
    with contextlib.redirect_stdout(io.StringIO()):
        return O.attempt(f, *a)


def hide(s):
    """Drop the attributes of a rose that a permutation request may set."""
    if isinstance(s, tuple) and s[:2] == ("obj", "Rose"):
        return (s[0], s[1], {k: v for k, v in s[2].items() if k not in SIM})
    return s


def _op_base(item):
    with contextlib.redirect_stdout(io.StringIO()):
        return _op_base1(item)


def _op_base1(item):
    try:
        wn, on, op = item
        w = O.World(wn)
        o = quiet(OBJECTS[on][0], w)
        if isinstance(o, O.Refused):
            return item, None
        if op is None:
            return item, hide(O.snap(o))
        r = O.snap(quiet(OBJECTS[on][1][op], w, o))
        if op.startswith("permute"):
            r = (r, O.snap(o))
        return item, r
    except BaseException as e:
        return item, ("failed", f"{type(e).__name__}: {e}")


OPB = {}


def op_base(*k):
    b = OPB[k]
    if isinstance(b, tuple) and b and b[0] == "failed":
        raise Mismatch(f"{k} fails on a fresh object: {b[1]}")
    return b


def obj_run(s):
    """s = ((world, object),) + operations"""
    (wn, on), ops = s[0], s[1:]
    w = O.World(wn)
    o = quiet(OBJECTS[on][0], w)
    if isinstance(o, O.Refused):
        raise Skip()
    held = []
    perms = 0
    sims = None
    for i, op in enumerate(ops):
        what = f"{on}.{op} after {list(ops[:i])}"
        v = quiet(OBJECTS[on][1][op], w, o)
        r = O.snap(v)
        held.append((v, r, what, op))
        if op.startswith("permute"):
            want = op_base(wn, on, op)
            agree(r, want[0], what)
            perms += 1
            if perms == 1:
                agree(O.snap(o), want[1], f"state after {what}")
            sims = {a: O.snap(getattr(o, a)) for a in SIM if hasattr(o, a)}
        else:
            agree(r, op_base(wn, on, op), what)
            if sims is not None:
                for a, b in sims.items():
                    agree(O.snap(getattr(o, a)), b, f"{a} after {what}")
        w.check(what)
    for v, r, what, op in held:
        agree(O.snap(v), r, f"value returned by {what}, looked at after {list(ops)}")
    agree(hide(O.snap(o)), op_base(wn, on, None), f"all attributes after {list(ops)}")
    w.check("reading all attributes")
    count("operations", len(ops))


def spaces(tier):
    deep = tier == "thorough"
    global BASE, OPB
    wn = list(O.CONF)
    BASE.update(O.baselines(wn))
    tw = ["A", "B"] + (["C", "D", "E", "G", "H"] if deep else ["G"])
    BASE.update(O.baselines([f"{a}~{k}" for a in tw for k in O.TWINS]))
    objs = [(a, b) for a in (wn if deep else ["A", "B", "C", "D", "G", "H"]) for b in OBJECTS]
    OPB.update(O.fork_map(_op_base, [(a, b, op) for a, b in objs for op in [None] + list(OBJECTS[b][1])]))
    names = list(O.ANALYSES)
    usew = [k for k in names if O.ANALYSES[k][1]]
    plots = ("rose plot", "vector plot", "heatmap")
    sp = [product_space(f"pairs of analyses on shared data {a}", [[((a,), e) for e in ((True, False) if deep or a in "AB" else (True,))], names, names], seq_run,
                        f"all ordered pairs of {len(names)} analyses; results read at once or only at the end") for a in wn]
    sp.append(product_space("pairs of analyses on two data sets", [[(("A", "F"), True), (("B", "A"), True), (("D", "C"), False)]
                                                                  + ([(("E", "A"), True), (("C", "D"), True)] if deep else []), names, names], seq_run,
                            "all ordered pairs, the second on other data of equal or other shape"))
    light = [k for k in usew if k not in plots and k not in ("lisa geoda", "spatial markov discrete permuted", "spatial markov cutoffs")]
    sp.append(product_space("three analyses with shared weights", [[(("B",), True)] + ([(("C",), False), (("D",), True)] if deep else [])]
                            + [usew if deep else light] * 3, seq_run, "all ordered triples of the analyses that take weights"))
    for k in O.TWINS:
        modes = ["separate", "dropped"] + ["weights shared"] * (k not in ("rewired", "standardised"))
        sp.append(product_space(f"look-alike data: {k}", [tw, [k], modes, names], twin_run, "an analysis on data, on look-alike data and on the first again"))
        if k in ("swapped", "close", "standardised"):
            nm = usew if k == "standardised" else names
            nt = "an analysis, other values in the same arrays (another transformation of the same weights), an analysis"
            sp.append(product_space(f"data changed in place: {k}, same analysis", [tw, [k], nm], inplace_run, nt))
            if k != "close" or deep:
                sp.append(product_space(f"data changed in place: {k}", [["A", "B"] if deep else ["B" if k == "standardised" else "A"], [k], nm, nm], inplace_run, nt))
        if deep:
            sp.append(product_space(f"look-alike data: {k}, two analyses", [["A"], [k], modes[1:], names, names], twin_run))
    for a, b in objs:
        ops = list(OBJECTS[b][1])
        d = 3 if deep or (len(ops) <= 14 and a in "AB") else 2
        if deep and len(ops) <= 12 and b != "rose":
            d = 4 if a in "AB" else 3
        sp.append(product_space(f"operations on {b}, data {a}", [[(a, b)]] + [ops] * d, obj_run, f"all sequences of {d} of {len(ops)} operations"))
    return sp
