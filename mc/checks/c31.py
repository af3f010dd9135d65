"""C31: dynamic LISA plots."""
import contextlib
import itertools
import sys
import types

import giddy.plotting as plotting
import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np
from giddy.directional import Rose

from ..core import count, product_space
from ..util import eq, need
from . import _lisa, _spm as S

BINDING = ("Moran_Local is replaced by a source that answers with a prescribed quadrant and p-value per unit and period; every "
           "prescribed history inside the bounds is plotted by the real code and read back from the artists of the axes")
ASSUMPTIONS = ["quadrants of the local Moran result: 1 HH, 2 LH, 3 LL, 4 HL (esda's default numbering)"]

QUAD = {1: "HH", 2: "LH", 3: "LL", 4: "HL"}
LABELS = ["ns", "HH", "LH", "LL", "HL"]


class Source(_lisa.Source):
    """Answers with p_sim as prescribed, and behaves like the real class towards its surroundings."""

    def __init__(self, lookup):
        super().__init__(lookup)
        self.plots = []

    def __call__(self, y, w=None, *a, **k):
        r = super().__call__(y, w, *a, **k)
        np.random.random(3)                       # the real class draws random numbers
        if w is not None:
            w.transform = "r"                     # and standardises the weights
        v = np.asarray(y, float).ravel()
        r.p_sim = np.array(self.lookup(tuple(v.tolist()))[1], float)
        r.p_z_sim = (r.p_sim + 0.5) % 1.0
        r.plot = lambda gdf, **kw: self.plots.append((v.tolist(), kw.get("ax"), kw.get("crit_value")))
        return r


class State:
    """Snapshot of the global settings that must survive a plot."""

    def __init__(self):
        self.rc = {k: str(v) for k, v in mpl.rcParams.items()}
        s = np.random.get_state()
        self.rng = (s[0], s[1].copy(), s[2:])

    def check(self, what):
        now = {k: str(v) for k, v in mpl.rcParams.items()}
        bad = {k: (self.rc.get(k), now.get(k)) for k in set(now) | set(self.rc) if now.get(k) != self.rc.get(k)}
        need(not bad, f"{what}: plotting style settings changed: {bad}")
        s = np.random.get_state()
        need(s[0] == self.rng[0] and (s[1] == self.rng[1]).all() and s[2:] == self.rng[2],
             f"{what}: state of the random generator changed")


@contextlib.contextmanager
def figures():
    plt.close("all")
    old = {k: v for k, v in mpl.rcParams.items()}
    try:
        yield
    finally:
        plt.close("all")
        dict.update(mpl.rcParams, old)


def cells(ax):
    """{(row label, column label): value or None (hidden)} of a heatmap, read from the artists."""
    mesh = [c for c in ax.collections if hasattr(c, "_coordinates")]
    need(len(mesh) == 1, f"{len(mesh)} colour meshes in the axes")
    arr = np.ma.array(mesh[0].get_array())
    arr = arr.reshape(len(LABELS), len(LABELS))
    co = np.asarray(mesh[0]._coordinates)

    def labels(axis):
        return [(float(p), t.get_text()) for p, t in zip(axis.get_ticklocs(), axis.get_ticklabels())]
    xl, yl = labels(ax.xaxis), labels(ax.yaxis)
    out = {}
    for r in range(len(LABELS)):
        for c in range(len(LABELS)):
            x0, x1 = sorted((co[r, c, 0], co[r, c + 1, 0]))
            y0, y1 = sorted((co[r, c, 1], co[r + 1, c, 1]))
            lx = [t for p, t in xl if x0 <= p <= x1]
            ly = [t for p, t in yl if y0 <= p <= y1]
            need(len(lx) == 1 and len(ly) == 1, f"cell ({r}, {c}) has tick labels {ly}, {lx}")
            out[ly[0], lx[0]] = None if np.ma.getmaskarray(arr)[r, c] else int(arr[r, c])
            need(np.ma.getmaskarray(arr)[r, c] or float(arr[r, c]) == int(arr[r, c]), "a cell is not a count")
    annot = {}
    for t in ax.texts:
        x, y = t.get_position()
        lx = [lb for p, lb in xl if abs(p - x) < 0.3]
        ly = [lb for p, lb in yl if abs(p - y) < 0.3]
        if lx and ly and t.get_text():
            annot[ly[0], lx[0]] = t.get_text()
    return out, annot


def kind(q, p, thr):
    return QUAD[q] if p < thr else "ns"


def expected(q, p, thr):
    e = {(a, b): 0 for a in LABELS for b in LABELS}
    for (q0, q1), (p0, p1) in zip(q, p):
        e[kind(q0, p0, thr), kind(q1, p1, thr)] += 1
    return e


def judge(ax, q, p, thr, masked, annotated=True):
    got, annot = cells(ax)
    want = expected(q, p, thr)
    need(set(got) == set(want), f"cells are labelled {sorted(got)}")
    for c in want:
        if got[c] is None:
            need(masked and c[0] == c[1], f"cell {c} is hidden")
        else:
            need(got[c] == want[c], f"cell {c} (start, end) shows {got[c]}, {want[c]} units moved so; "
                                    f"quadrants {q}, p-values {p}, threshold {thr}")
            if annotated:
                need(annot.get(c) is not None and float(annot[c]) == want[c], f"cell {c} is annotated {annot.get(c)!r}")
    need(ax.get_xlabel() == "End time" and ax.get_ylabel() == "Start time", "axis titles")


def make_rose(n, q, p, y=None, k=5):
    y, src = _lisa.history(n, 2, q, p, y)
    full = Source(src.lookup)
    edges = [(i, i + 1) for i in range(n - 1)]
    return Rose(y, S.real_w(n, edges, "b"), k), full


def heat_run(s):
    """s = (threshold, mode), then per unit (q0, p0, q1, p1)."""
    (thr, mode), units = s[0], s[1:]
    q = [(u[0], u[2]) for u in units]
    p = [(u[1], u[3]) for u in units]
    n = len(units)
    pad = 1 if n == 1 else 0                     # a rose needs a neighbour for its lag
    if pad:
        q, p = q + [(1, 1)], p + [(0.9, 0.9)]
    rose, src = make_rose(n + pad, q, p)
    with figures(), _lisa.moran_local(src):
        if mode == "permuted":
            rose.permute(3)
        st = State()
        kw = {} if thr is None else {"p": thr}
        own = None
        if mode in ("ax", "full"):
            own = plt.figure().subplots(1, 2)
            kw["ax"] = own[1]
        if mode in ("full", "show"):
            kw["mask"] = np.zeros((5, 5), bool)
        before = len(plt.get_fignums())
        if mode == "show":
            kw["annot"] = False
        fig, ax = plotting.dynamic_lisa_heatmap(rose, **kw)
        st.check("dynamic_lisa_heatmap")
        if own is not None:
            need(ax is own[1] and fig is own[1].get_figure(), "heatmap is not in the given axes")
            need(not own[0].collections and not own[0].texts, "heatmap drew into another axes")
            need(len(plt.get_fignums()) == before, "a further figure was opened")
        judge(ax, q, p, 0.05 if thr is None else thr, mode in ("plain", "ax", "permuted"), mode != "show")
        need(rose.w.transform == "O", f"transform of the weights is {rose.w.transform}")


def heat_many_run(s):
    """s = (threshold, mode), then (number of units, history) groups."""
    return heat_run(s[:1] + tuple(u for n, u in s[1:] for _ in range(n)))


VALS = (0.3, 1.7, -0.4, 2.2)


def grid_rose(rows, k, style="b"):
    n = len(rows)
    edges = [(i, i + 1) for i in range(n - 1)]
    Y = np.array(rows, float)
    return Y, Rose(Y, S.real_w(n, edges, style), k)


def vec_of(rows):
    n = len(rows)
    lag = [[sum(rows[j][t] for j in (i - 1, i + 1) if 0 <= j < n) for t in (0, 1)] for i in range(n)]
    return lag


def many_rows(n, m):
    """Rows of many units; some rest, some are equal."""
    return tuple(((i * 7 + m) % 11 - 3, (i * (5 + m) + i // 4) % 13 - 4 if i % 9 else (i * 7 + m) % 11 - 3) for i in range(n))


def own_axes(mode, polar):
    if mode != "ax":
        return None
    f = plt.figure()
    sub = {"subplot_kw": {"projection": "polar"}} if polar else {}
    return f.subplots(1, 2, **sub)


def rose_run(s):
    """s = (entry, axes, colouring, permuted), value pairs per unit."""
    (entry, axmode, colour, permuted), rows = s[0], s[1:]
    Y, rose = grid_rose(rows, 4)
    lag = vec_of(rows)
    dx = [r[1] - r[0] for r in rows]
    dy = [v[1] - v[0] for v in lag]
    n = len(rows)
    with figures():
        if permuted:
            rose.permute(2)
        st = State()
        own = own_axes(axmode, True)
        kw = {"ax": own[1]} if own is not None else {}
        attr = [3.0 * i - 1 for i in range(n)]
        if colour == "attribute":
            kw["attribute"] = np.array(attr)
        elif colour == "c":
            kw["c"] = "r"
        elif colour == "color":
            kw["color"] = "blue"
        elif colour in ("refused c", "refused color", "refused marker", "refused style"):
            kw["attribute"] = np.array(attr)
            kw.update({"refused c": {"c": "r"}, "refused color": {"color": "b"},
                       "refused marker": {"marker": "no such marker"}, "refused style": {"no_such_keyword": 1}}[colour])
            before = len(plt.get_fignums())
            try:
                if entry == "rose":
                    plotting.dynamic_lisa_rose(rose, **kw)
                else:
                    rose.plot(**kw)
            except (ValueError, AttributeError, TypeError):
                pass
            else:
                need(False, f"{colour} was accepted")
            st.check(f"{colour}")
            return "refused"
        before = len(plt.get_fignums())
        fig, ax = (plotting.dynamic_lisa_rose(rose, **kw) if entry == "rose" else rose.plot(**kw))
        st.check("rose plot")
        if own is not None:
            need(ax is own[1] and fig is ax.get_figure(), "rose plot is not in the given axes")
            need(not own[0].collections, "rose plot drew into another axes")
            need(len(plt.get_fignums()) == before, "a further figure was opened")
        need(ax.name == "polar", "axes are not polar")
        sc = [c for c in ax.collections if len(c.get_offsets()) == n]
        need(len(sc) == 1, f"{len(ax.collections)} groups of points")
        off = np.asarray(sc[0].get_offsets(), float)
        for i in range(n):
            x, y = off[i][1] * np.cos(off[i][0]), off[i][1] * np.sin(off[i][0])
            need(abs(x - dx[i]) < 1e-9 and abs(y - dy[i]) < 1e-9 and off[i][1] >= 0,
                 f"unit {i} is at angle {off[i][0]}, length {off[i][1]}; its movement is {dx[i], dy[i]}")
        if colour == "attribute":
            eq(np.asarray(sc[0].get_array()).ravel(), attr, "colour values")
        need(np.array_equal(Y, np.array(rows, float)), "Y changed")


def vec_run(s):
    (entry, axmode, arrows, colour, permuted), rows = s[0], s[1:]
    Y, rose = grid_rose(rows, 5)
    lag = vec_of(rows)
    n = len(rows)
    with figures():
        if permuted:
            rose.permute(2)
        st = State()
        if entry == "origin":
            own = plt.figure().add_subplot(111)
            plt.sca(own)
            rose.plot_origin()
            st.check("plot_origin")
            got = sorted(tuple(np.round(np.column_stack(ln.get_data()).astype(float).ravel(), 9) + 0.0) for ln in own.lines)
            want = sorted(tuple(np.round([0, 0, r[1] - r[0], v[1] - v[0]], 9) + 0.0) for r, v in zip(rows, lag))
            need(len(got) == n and np.allclose(got, want), f"movements drawn {got}, expected {want}")
            return
        own = own_axes(axmode, False)
        kw = {"arrows": arrows}
        if colour and entry == "vectors":
            kw[colour] = "r"
        if own is not None and entry == "vectors":
            kw["ax"] = own[0]
        before = len(plt.get_fignums())
        fig, ax = plotting.dynamic_lisa_vectors(rose, **kw) if entry == "vectors" else rose.plot_vectors(arrows=arrows)
        st.check("vector plot")
        if "ax" in kw:
            need(ax is own[0] and fig is ax.get_figure(), "vectors are not in the given axes")
            need(not own[1].lines and not own[1].texts, "vectors were drawn into another axes")
            need(len(plt.get_fignums()) == before, "a further figure was opened")
        seg = [np.column_stack(ln.get_data()).astype(float) for ln in ax.lines]
        need(len(seg) == n, f"{len(seg)} vectors for {n} units")
        want = [np.array([[r[t], v[t]] for t in (0, 1)]) for r, v in zip(rows, lag)]
        left = list(want)
        for g in seg:
            hit = next((k for k, x in enumerate(left) if x.shape == g.shape and np.allclose(x, g, atol=1e-9)), None)
            need(hit is not None, f"vector drawn {g.tolist()}, expected one of {[x.tolist() for x in left]}")
            left.pop(hit)
        arr = [t for t in ax.texts if hasattr(t, "xyann")]
        if arrows:
            need(len(arr) == n, f"{len(arr)} arrows for {n} units")
            left = [tuple(x.ravel()) for x in want]
            for a in arr:
                g = tuple(a.xyann) + tuple(a.xy)
                hit = next((k for k, x in enumerate(left) if np.allclose(x, g, atol=1e-9)), None)
                need(hit is not None, f"arrow from {a.xyann} to {a.xy}, expected one of {left}")
                left.pop(hit)
        else:
            need(not arr, "arrows drawn although not requested")
        if colour and entry == "vectors":
            need({mpl.colors.to_hex(ln.get_color()) for ln in ax.lines} == {"#ff0000"}, "colour of the vectors")


@contextlib.contextmanager
def fake_widgets(calls):
    """An ipywidgets module whose interact() asks for every combination of the offered options."""
    m = types.ModuleType("ipywidgets")

    class fixed:
        def __init__(self, value):
            self.value = value

    def interact(f=None, **kw):
        opts = []
        for k, v in kw.items():
            if isinstance(v, fixed):
                opts.append([(k, v.value)])
            elif isinstance(v, dict):
                opts.append([(k, x) for x in v.values()])
            else:
                opts.append([(k, x) for x in v])
        for combo in itertools.product(*opts):
            d = dict(combo)
            calls(f, d)
    m.fixed, m.interact = fixed, interact
    old = sys.modules.get("ipywidgets")
    sys.modules["ipywidgets"] = m
    try:
        yield
    finally:
        if old is None:
            sys.modules.pop("ipywidgets", None)
        else:
            sys.modules["ipywidgets"] = old


def judge_composite(axs, src, rows_cols, q, p, thr):
    judge(axs[0], q, p, thr, True)
    cols, lag = rows_cols
    n = len(q)
    sc = [c for c in axs[2].collections if len(c.get_offsets()) == n]
    need(len(sc) == 1, "no rose plot in the third axes")
    off = np.asarray(sc[0].get_offsets(), float)
    for i in range(n):
        x, y = off[i][1] * np.cos(off[i][0]), off[i][1] * np.sin(off[i][0])
        need(abs(x - (cols[1][i] - cols[0][i])) < 1e-9 and abs(y - (lag[i][1] - lag[i][0])) < 1e-9, "rose of the composite")
    for v, ax, crit in src.plots:
        need(ax is axs[1] or ax is axs[3], "cluster map outside of its axes")
        which = 0 if ax is axs[1] else 1
        need(np.allclose(v, cols[which]), f"cluster map of the {('start', 'end')[which]} shows other data")
        need(crit is None or crit == thr, f"cluster map with threshold {crit} instead of {thr}")
        need(ax.get_title() == ("Start time", "End time")[which], f"title {ax.get_title()!r}")


def comp_run(s):
    """Composite and explorer; per unit (q0, p0, q1, p1, q2, p2) for three columns."""
    (thr, entry), units = s[0], s[1:]
    import pandas as pd
    n = len(units)
    t = 3
    q = [[u[2 * j] for j in range(t)] for u in units]
    p = [[u[2 * j + 1] for j in range(t)] for u in units]
    y, base = _lisa.history(n, t, q, p)
    src = Source(base.lookup)
    edges = [(i, i + 1) for i in range(n - 1)]
    w = S.real_w(n, edges, "b")
    gdf = pd.DataFrame({"a_rel": y[:, 0], "other": y[:, 1] * 0, "_rel_x": y[:, 1] * 0 + 1, "x_rel_y": y[:, 0] * 2, "rel": y[:, 0], "a_REL": y[:, 1], "b_rel": y[:, 1], "c_rel": y[:, 2]})
    cols = {c: y[:, j] for j, c in enumerate(("a_rel", "b_rel", "c_rel"))}
    idx = {c: j for j, c in enumerate(cols)}

    def lags(a, b):
        rows = list(zip(cols[a], cols[b]))
        return (cols[a], cols[b]), vec_of(rows)
    kw = {} if thr is None else {"p": thr}
    eff = 0.05 if thr is None else thr
    with figures(), _lisa.moran_local(src):
        if entry == "composite":
            rose = Rose(np.column_stack([y[:, 0], y[:, 2]]), w, 5)
            st = State()
            fig, axs = plotting.dynamic_lisa_composite(rose, gdf, **kw)
            st.check("composite")
            need(len(axs) == 4, "four axes")
            judge_composite(axs, src, lags("a_rel", "c_rel"), [(a[0], a[2]) for a in q], [(a[0], a[2]) for a in p], eff)
        else:
            rose = Rose(y[:, :2], w, 5)
            seen = []

            def calls(f, d):
                src.plots.clear()
                src.calls = 0
                before = set(plt.get_fignums())
                f(**d)
                new = [k for k in plt.get_fignums() if k not in before]
                need(len(new) == 1, f"{len(new)} figures for one choice")
                axs = plt.figure(new[0]).axes
                a, b = d["start_time"], d["end_time"]
                seen.append((a, b))
                judge_composite(axs, src, lags(a, b), [(r[idx[a]], r[idx[b]]) for r in q],
                                [(r[idx[a]], r[idx[b]]) for r in p], eff)
                plt.close("all")
            st = State()
            with fake_widgets(calls):
                plotting.dynamic_lisa_composite_explore(rose, gdf, pattern="_rel", **kw)
            st.check("explorer")
            count("explored_choices", len(seen))
            want = set(itertools.product(cols, cols))
            need(set(seen) == want, f"offered choices {sorted(set(seen))}")
        need(w.transform == "O", "transform of the weights changed")


def spaces(tier):
    deep = tier == "thorough"

    def opts(thr):
        ps = sorted({0.0, thr, np.nextafter(thr, 0), np.nextafter(thr, 1), min(1.0, thr * 1.5)})
        return [float(x) for x in ps]
    sp = []
    unit = [(a, p0, b, p1) for a in QUAD for p0 in (0.04999, 0.05) for b in QUAD for p1 in (0.04999, 0.05)]
    edge = [(a, p0, b, p1) for a in QUAD for p0 in opts(0.05) for b in QUAD for p1 in opts(0.05)]
    other = [(a, p0, b, p1) for a in QUAD for p0 in (0.005, 0.01, 0.0101, 0.05, 0.3) for b in QUAD for p1 in (0.005, 0.01, 0.05, 0.3)]
    modes = ["plain", "ax", "full", "show", "permuted"]
    sp.append(product_space("heatmap, one unit, thresholds", [[(None, "full"), (0.05, "plain")], edge], heat_run,
                            "all start/end quadrants x p-values at and next to the threshold"))
    sp.append(product_space("heatmap, other thresholds", [[(0.01, "full"), (0.3, "show")], other], heat_run))
    some = unit if deep else unit[::3] + unit[1:2]
    sp.append(product_space("heatmap, two units", [[(None, m) for m in modes], some, unit[::(1 if deep else 5)]], heat_run))
    few = [(1, 0.01, 3, 0.01), (2, 0.01, 4, 0.2), (4, 0.5, 2, 0.01), (1, 0.01, 1, 0.01), (3, 0.01, 2, 0.05), (2, 0.02, 4, 0.02)]
    sp.append(product_space("heatmap, three units", [[(None, "full")] + ([(None, "permuted")] if deep else [])] + [few] * 3, heat_run))
    cnt = [1, 9, 10, 99, 100, 101, 127, 128, 255, 256, 300, 999, 1000, 1234] + ([32767, 32768, 65536] if deep else [])
    sp.append(product_space("heatmap, many units", [[(None, "full"), (0.01, "plain"), (None, "ax")], [(n, u) for n in cnt for u in few[:3]],
                                                    [(n, u) for n in (3, 128) for u in (few[1], few[2])]], heat_many_run,
                            "counts per cell 1..1234, at and beyond powers of ten and narrow integer limits"))
    pr = [(a, b) for a in VALS[:3] for b in VALS[1:]]
    col = [None, "attribute", "c", "color", "refused c", "refused color", "refused marker", "refused style"]
    conf = [(e, a, c, pm) for e in ("rose", "method") for a in (None, "ax") for c in col for pm in (False, True)]
    rest = [(1, 1), (0, 0), (1, 3), (3, 1), (-1, 2)]
    sp.append(product_space("rose plot, resting and equal units", [conf[::3]] + [rest] * 3 if deep else [conf[::7]] + [rest, rest[:3], rest[:4]], rose_run))
    sp.append(product_space("rose plot, many units", [conf[::5], [17, 65, 129, 260], range(3)], lambda q: rose_run((q[0],) + many_rows(q[1], q[2]))))
    sp.append(product_space("rose plot", [conf] + [pr[::4], pr[::(1 if deep else 2)]], rose_run))
    conf = [(e, a, ar, c, pm) for e in ("vectors", "method", "origin") for a in (None, "ax") for ar in (True, False)
            for c in (None, "c", "color") for pm in (False, True)
            if not (e != "vectors" and (a or c)) and not (e == "origin" and not ar)]
    sp.append(product_space("vector plots, resting and equal units", [conf] + [rest, rest[:3], rest[:4]], vec_run))
    sp.append(product_space("vector plots, many units", [[c for c in conf if not c[2]] + conf[:1] + [c for c in conf if c[0] == "origin"][:1], [17, 65, 129, 260], range(3)],
                            lambda q: vec_run((q[0],) + many_rows(q[1], q[2]))))
    sp.append(product_space("vector plots", [conf, pr[::2], pr[::(1 if deep else 2)]], vec_run))
    cu = [(a, 0.01, b, pb, c, 0.02) for a in (1, 3) for b in (2, 4) for pb in (0.01, 0.05) for c in QUAD]
    sp.append(product_space("composite", [[(None, "composite"), (0.02, "composite")], cu[::2], cu[::(2 if deep else 5)]], comp_run))
    sp.append(product_space("explorer", [[(None, "explore"), (0.02, "explore")], cu[::(2 if deep else 7)], cu[::(4 if deep else 11)]], comp_run))
    return sp
