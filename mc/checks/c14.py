"""C14: the homogeneity report (printed and LaTeX)."""
import contextlib
import io
import itertools
import os
import re
import tempfile

import numpy as np
import pandas as pd
from giddy.markov import Spatial_Markov, homogeneity

from .. import stat
from ..core import Mismatch, product_space
from ..util import eq, need, unchanged
from . import _spm as S

BINDING = ("reports are parsed back into titles, counts, statistics and matrices and compared with values "
           "recomputed from the counts, for every shape, naming option and call history of the space")
ASSUMPTIONS = ["numbers are printed with three decimals (tolerance half a unit of the last digit)",
               "p-values without degrees of freedom are not judged"]
TOL = 0.000501


SCALE = (1, 1, 1, 1, 137, 30011, 10 ** 6 + 3)


def counts(m, k, seed):
    """A deterministic family of count matrices with empty cells and rows."""
    return [[[SCALE[seed % 7] * ((i * 7 + j * (seed + 3) + r * 5 + seed) % 6) * (0 if (i + r + seed) % 5 == 4 else 1)
              for j in range(k)] for i in range(k)] for r in range(m)]


def norm(x):
    return " ".join(str(x).split())


def number(tok, want, what):
    try:
        v = float(tok)
    except ValueError:
        raise Mismatch(f"{what}: {tok!r} is not a number")
    if want == want:
        need(abs(v - want) <= TOL + 1e-9 * abs(want), f"{what}: printed {tok}, expected {want}")


def field(lines, name):
    for ln in lines:
        mt = re.match(re.escape(name) + r":\s*(.*)$", ln)
        if mt:
            return mt.group(1).strip()
    raise Mismatch(f"report has no line '{name}: ...'")


def matrices(rows, ref, cn, rn, cells):
    """rows: list of lines holding the matrices, cells(line) -> list of cell texts."""
    pos = 0
    for name, P in [("H0", ref[3])] + list(zip(rn, ref[4])):
        need(pos < len(rows), f"matrix of regime {name} is missing")
        head = rows[pos]
        want = norm(" ".join([f"P({name})"] + [str(c) for c in cn]))
        need(norm(" ".join(cells(head))) == want, f"header of the matrix is {head!r}, expected {want!r}")
        pos += 1
        for i, c in enumerate(cn):
            need(pos < len(rows), f"row {c} of regime {name} is missing")
            line = norm(" ".join(cells(rows[pos])))
            lab = norm(c)
            need(line.startswith(lab + " "), f"row {line!r} should be labelled {lab!r}")
            vals = line[len(lab):].split()
            need(len(vals) == len(cn), f"row {line!r} has {len(vals)} values, expected {len(cn)}")
            for j, v in enumerate(vals):
                number(v, float(P[i][j]), f"P({name})[{c}][{cn[j]}]")
            pos += 1
    need(pos == len(rows), f"unexpected lines after the matrices: {rows[pos:][:2]}")


def check_text(text, ref, title, cn, rn):
    Q, LR, dof, p0, p1, tot = ref
    lines = [ln.strip() for ln in text.splitlines()]
    lines = [ln for ln in lines if ln and set(ln) != {"-"}]
    need(norm(lines[0]) == norm(title), f"title printed is {lines[0]!r}, expected {title!r}")
    need(field(lines, "Number of classes") == str(len(cn)), "number of classes: " + field(lines, "Number of classes"))
    need(field(lines, "Number of regimes") == str(len(rn)), "number of regimes: " + field(lines, "Number of regimes"))
    need(field(lines, "Number of transitions") == str(int(tot)), "number of transitions: " + field(lines, "Number of transitions"))
    need(norm(field(lines, "Regime names")) == norm(", ".join(map(str, rn))), "regime names: " + field(lines, "Regime names"))
    at = next((i for i, ln in enumerate(lines) if ln.split()[0] == "Test"), None)
    need(at is not None, "no table of statistics")
    cols = lines[at].split()[1:]
    need(sorted(cols) == ["Chi-2", "LR"], f"columns of the statistics are {cols}")
    want = {"LR": (LR, dof, stat.tail(LR, dof)), "Chi-2": (Q, dof, stat.tail(Q, dof))}
    for r, lab in enumerate(("Stat.", "DOF", "p-value")):
        tok = lines[at + 1 + r].split()
        need(tok[0] == lab and len(tok) == 3, f"line {lines[at + 1 + r]!r}, expected {lab}")
        for c, v in zip(cols, tok[1:]):
            number(v, want[c][r], f"{lab} of {c}")
    matrices(lines[at + 4:], ref, cn, rn, lambda ln: [ln])


def check_tex(text, ref, title, cn, rn):
    Q, LR, dof, p0, p1, tot = ref
    need(text.startswith("\\begin{tabular}") and text.rstrip().endswith("\\end{tabular}"), "not a tabular")
    body = text[text.index("\n") + 1:text.rindex("\\end{tabular}")]
    rows = [r.replace("\\hline", "").strip() for r in body.split("\\\\")]
    rows = [r for r in rows if r]

    def cells(r):
        out = []
        for c in r.split("&"):
            mt = re.match(r"\s*\\multicolumn\{[^}]*\}\{[^}]*\}\{(.*)\}\s*$", c, re.S)
            out.append((mt.group(1) if mt else c).strip())
        return out
    C = [cells(r) for r in rows]
    need(norm(C[0][0]) == norm(title), f"LaTeX title {C[0][0]!r}, expected {title!r}")
    flat = [c[0] for c in C]
    need(field(flat, "Number of classes") == str(len(cn)), "LaTeX number of classes")
    need(field(flat, "Number of regimes") == str(len(rn)), "LaTeX number of regimes")
    need(field(flat, "Number of transitions") == str(int(tot)), "LaTeX number of transitions")
    need(norm(field(flat, "Regime names")) == norm(", ".join(map(str, rn))), "LaTeX regime names")
    at = next((i for i, c in enumerate(C) if c[0] == "Test"), None)
    need(at is not None, "LaTeX: no table of statistics")
    cols = C[at][1:]
    need(sorted(cols) == ["LR", "Q"], f"LaTeX columns {cols}")
    want = {"LR": (LR, dof, stat.tail(LR, dof)), "Q": (Q, dof, stat.tail(Q, dof))}
    for r, lab in enumerate(("Stat.", "DOF", "p-value")):
        tok = C[at + 1 + r]
        need(tok[0] == lab and len(tok) == 3, f"LaTeX row {tok!r}")
        for c, v in zip(cols, tok[1:]):
            number(v, want[c][r], f"LaTeX {lab} of {c}")
    matrices(rows[at + 4:], ref, cn, rn, cells)


def printed(call):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        call()
    return out.getvalue()


def snap(h):
    return {a: np.array(getattr(h, a), float) for a in
            ("Q", "LR", "dof", "Q_p_value", "LR_p_value", "p_h0", "p_h1", "t_total", "k", "m")}


def produce(h, ref, title_arg, want_title, cn, rn, tex, d):
    """d: the directory reports are written to (earlier reports stay there)."""
    before = snap(h)
    kw = {} if title_arg is None else {"title": title_arg}
    if tex:
        text = printed(lambda: h.summary(file_name=os.path.join(d, "rep.ort"), **kw))
        made = os.listdir(d)
        need(made == ["rep.ort.tex"], f"files written: {made}")
        check_tex(open(os.path.join(d, "rep.ort.tex")).read(), ref, want_title, cn, rn)
    else:
        text = printed(lambda: h.summary(**kw))
    check_text(text, ref, want_title, cn, rn)
    for a, v in before.items():
        unchanged(v, np.array(getattr(h, a), float), f"{a} after the report")
    return text


NAMES = {
    "none": lambda n, kind: None,
    "str": lambda n, kind: [f"{kind}{i}" for i in range(n)],
    "int": lambda n, kind: [10 * (n - i) for i in range(n)],
    "long": lambda n, kind: [f"{kind} " + "very " * (i % 3) + f"long name {i}" for i in range(n)],
    "tuple": lambda n, kind: tuple("zyxwvutsrqponmlkjihgfedcba"[i] * (1 + i % 4) for i in range(n)),
}
NAMES["tuple26"] = lambda n, kind: tuple("zyxwvutsrqponmlkjihgfedcba"[i % 26] * (1 + i % 4) + str(i) for i in range(n))
PLAIN = sorted(NAMES)
ODD = ["100%", "{0}", "x_y", "%s", "a b", "ünï", "P(H0)", "1", "$x$", "-", "0.500"]
NAMES["odd"] = lambda n, kind: (ODD * 4)[:n]
NAMES["same"] = lambda n, kind: ["alike"] * n
MORE = {            # other sequences names come in, e.g. the classes of an analysis
    "text array": lambda n, kind: np.array([f"{kind}{i}" for i in range(n)]),
    "number array": lambda n, kind: np.arange(n),
    "index": lambda n, kind: pd.Index([f"{kind}{i}" for i in range(n)]),
    "range": lambda n, kind: range(n),
    "float array": lambda n, kind: np.linspace(0, 1, n),
}
TITLES = [(None, None), ("At creation", None), (None, "At call"), ("At creation", "At call"), ("", None), (None, "")]


def build(m, k, seed, cnames, rnames, title):
    Ms = counts(m, k, seed)
    cn, rn = {**NAMES, **MORE}[cnames](k, "C"), {**NAMES, **MORE}[rnames](m, "R")
    kw = {}
    if cn is not None:
        kw["class_names"] = cn
    if rn is not None:
        kw["regime_names"] = rn
    if title is not None:
        kw["title"] = title
    h = homogeneity(np.array(Ms), **kw)
    return h, stat.homog_ref(Ms), (list(cn) if cn is not None else list(range(k))), (list(rn) if rn is not None else list(range(m)))


def want_title(tc, ts):
    return ts if ts is not None else (tc if tc is not None else "Markov Homogeneity Test")


def names_run(s):
    (m, k), seed, cn_, rn_, (tc, ts), hist = s
    h, ref, cn, rn = build(m, k, seed, cn_, rn_, tc)
    wt = want_title(tc, ts)
    if wt == "":
        raise_if_blank(h, ts)
        return
    with tempfile.TemporaryDirectory(prefix="c14-") as d:
        if seed == 1 and any(hist):     # a longer file of that name is there already
            with open(os.path.join(d, "rep.ort.tex"), "w") as f:
                f.write("an earlier and longer table \\\\\n" * 2000)
        texts = [produce(h, ref, ts, wt, cn, rn, tex, d) for tex in hist]
    need(all(t == texts[0] for t in texts), "a repeated report differs from the first")


def raise_if_blank(h, ts):
    """An empty title prints an empty title line; the rest is as ever."""
    kw = {} if ts is None else {"title": ts}
    lines = printed(lambda: h.summary(**kw)).splitlines()
    need(not lines[1].strip(), f"title line {lines[1]!r} although the title is empty")


def history_run(ops):
    """Interleaved reports of two analyses made with default and given names, to the same file."""
    with tempfile.TemporaryDirectory(prefix="c14-") as d:
        histories(ops, d)


def histories(ops, d):
    A = build(3, 4, 1, "none", "none", None)
    B = build(2, 3, 0, "str", "int", "B")
    for o in ops:
        if o == "new":
            A = build(4, 2, 2, "none", "none", None)
        elif o == "sm":
            spatial(3, 2, None, False)
        else:
            obj, tc = (A, None) if o[0] == "A" else (B, "B")
            ts = "Called" if o[1] == "t" else None
            produce(obj[0], obj[1], ts, want_title(tc, ts), obj[2], obj[3], o[1] == "f", d)


def panel(k, m, n=7, t=6):
    return [[(i * i * 3 + s * s * (i + 1) + i * s) % (2 * k + 1) for s in range(t)] for i in range(n)]


def spatial(k, m, name, tex, opts="quant"):
    n = 7
    y = np.array(panel(k, m), float)
    edges = tuple((i, (i + 1) % n) if i + 1 < n else (0, i) for i in range(n)) + ((1, 4),)
    edges = tuple(tuple(sorted(e)) for e in edges)
    w = S.real_w(n, edges, "b")
    if opts == "cut":
        kw = dict(cutoffs=[2 * i + 1.5 for i in range(k - 1)], lag_cutoffs=[3 * i + 2.5 for i in range(m - 1)])
    elif opts == "discrete":
        y = (y % k).astype(int)
        kw = dict(discrete=True)
    else:
        kw = dict(k=k, m=m)
    kw["variable_name"] = name
    if name is None:
        kw.pop("variable_name")
    sm = Spatial_Markov(y, w, **kw)
    k, m = int(sm.k), int(sm.m)
    Ms = sm.T.astype(int).tolist()
    ref = stat.homog_ref(Ms)
    title = "Spatial Markov Test" + (f": {name}" if name else "")
    cn, rn = [f"C{i}" for i in range(k)], [f"LAG{i}" for i in range(m)]
    keep = np.array(sm.T, copy=True)
    for rep in range(2):
        if tex:
            with tempfile.TemporaryDirectory(prefix="c14-") as d:
                text = printed(lambda: sm.summary(file_name=os.path.join(d, "sm")))
                need(os.listdir(d) == ["sm.tex"], f"files written: {os.listdir(d)}")
                check_tex(open(os.path.join(d, "sm.tex")).read(), ref, title, cn, rn)
        else:
            text = printed(sm.summary)
        check_text(text, ref, title, cn, rn)
    unchanged(keep, sm.T, "T after the report")
    eq(sm.Q, ref[0], "Q")
    eq(sm.LR, ref[1], "LR")


def spaces(tier):
    deep = tier == "thorough"
    shapes = [(m, k) for m in (1, 2, 3, 5, 11) for k in (2, 3, 5, 11)]
    if deep:
        shapes = [(m, k) for m in range(1, 15) for k in range(1, 15)]
    hist = [(False, False), (True, True), (False, True, False)]
    ops = ["A-", "At", "Af", "B-", "Bt", "Bf", "new", "sm"]
    return [
        product_space("shapes x names x titles", [shapes, range(3), PLAIN, PLAIN, TITLES, hist], names_run),
        product_space("unusual and equal names", [shapes if deep else shapes[::3], [0, 1], sorted(NAMES), ["odd", "same"], [TITLES[0], (None, "50% of {it} as %d $x$")], hist[1:]], names_run),
        product_space("unusual class names", [shapes if deep else shapes[::3], [1], ["odd", "same"], PLAIN, [("Número: 100 %s", None)], hist[2:]], names_run),
        product_space("large counts and shapes", [[(1, 2), (2, 4), (4, 2), (12, 3), (3, 12), (27, 2), (2, 27), (30, 30)], range(4, 7), ["none", "str", "tuple26"], ["none", "int", "long"],
                                                  TITLES[:4] + [("T" * 90, None), (None, "a title of 64 and some more characters, much longer than any row of the table")], hist[:1] + hist[2:]], names_run),
        product_space("kinds of name sequences", [[(1, 2), (2, 2), (3, 2), (2, 3), (2, 5), (11, 3)], [0], sorted(MORE) + ["none", "str"], sorted(MORE) + ["none", "str"],
                                                  TITLES[:2], hist], names_run),
        product_space("histories of reports", [ops] * (5 if deep else 3), history_run),
        product_space("Spatial_Markov reports", [range(2, 7 if not deep else 13), range(2, 7 if not deep else 13),
                                                 [None, "income"], [False, True], ["quant", "cut", "discrete"]],
                      lambda s: spatial(*s)),
    ]
