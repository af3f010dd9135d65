"""Development helper: mutation analysis of the checks.

usage: mutate.py OUTFILE [file.py ...] [--procs N] [--list]
Makes one small syntactic change at a time in a scratch copy of giddy and runs
the checks of the function concerned; writes one line per mutant (killed by /
survived).  Survivors are reviewed by hand: equivalent, outside of every
property, or a gap.
"""
import ast, json, os, shutil, subprocess, sys, time

REPO = "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
MAP = {
    "components.py": {"is_component": "C30", "check_contiguity": "C30", "": "C17"},
    "directional.py": {"Rose.permute": "C28 C29", "Rose.plot": "C31", "Rose.plot_origin": "C31", "Rose.plot_vectors": "C31", "": "C27 C28 C29"},
    "ergodic.py": {"steady_state": "C04", "mfpt": "C05", "fmpt": "C05", "_mfpt_ergodic": "C05", "_fmpt_ergodic": "C05",
                   "_steady_state_ergodic": "C05 C06", "": "C06"},
    "markov.py": {"Markov.__init__": "C01 C02 C03 C18", "Markov.": "C04 C05 C07 C29", "Spatial_Markov.summary": "C14",
                  "Spatial_Markov.__init__": "C09 C11 C10 C32 C29", "Spatial_Markov.": "C09 C10 C11 C29", "chi2": "C13",
                  "LISA_Markov.__init__": "C15 C16 C29", "LISA_Markov.spillover": "C17 C29", "kullback": "C13", "prais": "C07",
                  "homogeneity": "C12 C14", "Homogeneity_Results.summary": "C14", "Homogeneity_Results.": "C12 C14",
                  "FullRank_Markov.": "C18", "GeoRank_Markov.": "C18", "sojourn_time": "C07", "": "C15 C01"},
    "mobility.py": {"": "C08"},
    "plotting.py": {"": "C31 C29"},
    "rank.py": {"Theta.": "C22 C24 C23", "Tau.": "C19", "SpatialTau.": "C20 C23 C24 C29", "pseudop": "C24", "Tau_Local.": "C20 C21",
                "Tau_Local_Neighbor.": "C20 C24 C23", "Tau_Local_Neighborhood.": "C20 C24 C23", "Tau_Regional.": "C21 C24", "": "C20"},
    "sequence.py": {"": "C25 C26 C29"},
    "util.py": {"shuffle_matrix": "C32", "get_lower": "C32", "": "C02"},
}


def checks(f, fn):
    m = MAP[f]
    for k in sorted(m, key=len, reverse=True):
        if k and (fn == k or (k.endswith(".") and fn.startswith(k))):
            return m[k].split()
    return m[""].split()


CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"], ast.Pow: ["*"], ast.BitOr: ["&"], ast.BitAnd: ["|"],
       ast.FloorDiv: ["/"], ast.Mod: ["*"], ast.MatMult: ["*"]}


class Mut(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.lines = src, src.split("\n")
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()
        self.fn, self.out = [], []

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def add(self, a, b, new, line):
        old = self.b[a:b].decode()
        if old != new:
            self.out.append((".".join(self.fn), line, a, b, new, old))

    def seg(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def scope(self, n):
        self.fn.append(n.name)
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        if hasattr(n, "args"):
            for d in list(n.args.defaults) + [x for x in n.args.kw_defaults if x]:
                self.visit(d)
        for s in body:
            self.visit(s)
        self.fn.pop()
    visit_FunctionDef = visit_ClassDef = scope

    def between(self, left, right, olds, news, line):
        a, b = self.pos(left)[1], self.pos(right)[0]
        t = self.b[a:b].decode()
        for o in olds:
            i = t.find(o)
            if i >= 0:
                for nw in news:
                    self.add(a + i, a + i + len(o), nw, line)
                return

    def visit_Compare(self, n):
        L = [n.left] + n.comparators
        sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
        for i, op in enumerate(n.ops):
            self.between(L[i], L[i + 1], [sym[type(op)]], CMP[type(op)], n.lineno)
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&", ast.FloorDiv: "//", ast.Mod: "%", ast.MatMult: "@"}
        if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.between(n.left, n.right, [sym[type(n.op)]], BIN[type(n.op)], n.lineno)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        sym = {ast.Add: "+=", ast.Sub: "-=", ast.Mult: "*=", ast.Div: "/="}
        if type(n.op) in sym and not isinstance(n.value, ast.Constant) or True:
            a, b = self.pos(n.target)[1], self.pos(n.value)[0]
            t = self.b[a:b].decode()
            s = sym.get(type(n.op))
            if s:
                i = t.find(s)
                self.add(a + i, a + i + 2, "-=" if s == "+=" else "+=", n.lineno)
                self.add(a + i, a + i + 2, "=", n.lineno)
        self.stmt(n)
        self.generic_visit(n)

    def stmt(self, n):
        a, b = self.pos(n)
        self.add(a, b, "pass", n.lineno)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.stmt(n)
        self.generic_visit(n)

    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            self.stmt(n)
        elif isinstance(t, ast.Name) and t.id in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}:
            self.stmt(n)
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        a, b = self.pos(n)
        if v is True or v is False:
            self.add(a, b, str(not v), n.lineno)
        elif isinstance(v, int):
            for nv in {v + 1, v - 1, 0}:
                self.add(a, b, str(nv) if nv >= 0 else f"({nv})", n.lineno)
        elif isinstance(v, float):
            self.add(a, b, repr(v + 1), n.lineno)
            self.add(a, b, repr(v * 0.9), n.lineno)
        elif isinstance(v, str) and v:
            self.add(a, b, repr(v + "x"), n.lineno)

    def visit_JoinedStr(self, n):
        pass

    def visit_Raise(self, n):
        self.stmt(n)

    def visit_If(self, n):
        a, b = self.pos(n.test)
        t = self.seg(n.test)
        self.add(a, b, f"not ({t})", n.lineno)
        self.add(a, b, "True", n.lineno)
        self.add(a, b, "False", n.lineno)
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
        for x, y in zip(n.values, n.values[1:]):
            self.between(x, y, [o], [w], n.lineno)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        a, b = self.pos(n)
        if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            self.add(a, b, self.seg(n.operand), n.lineno)
        self.generic_visit(n)

    def visit_Break(self, n):
        self.add(*self.pos(n), "pass", n.lineno)

    def visit_Continue(self, n):
        self.add(*self.pos(n), "pass", n.lineno)

    def visit_Call(self, n):
        # drop .copy(), [:] and keyword arguments; unwrap numpy helpers
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "transpose", "flatten", "lower", "upper") and not n.args:
            self.add(*self.pos(n), self.seg(n.func.value), n.lineno)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("array", "asarray", "sort", "unique", "copy", "floor", "real", "abs", "sqrt") and n.args:
            self.add(*self.pos(n), self.seg(n.args[0]), n.lineno)
        if isinstance(n.func, ast.Name) and n.func.id in ("abs", "list", "set", "int", "str", "sorted", "float") and len(n.args) == 1:
            self.add(*self.pos(n), "(" + self.seg(n.args[0]) + ")", n.lineno)
        if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            a, b = self.pos(n.args[0])[0], self.pos(n.args[1])[1]
            self.add(a, b, self.seg(n.args[1]) + ", " + self.seg(n.args[0]), n.lineno)
        for i, k in enumerate(n.keywords):
            if k.arg is None:
                continue
            prev = (n.keywords[i - 1].value if i else (n.args[-1] if n.args else None))
            if prev is not None and not isinstance(prev, ast.Starred):
                a, b = self.pos(prev)[1], self.pos(k.value)[1]
                self.add(a, b, "", n.lineno)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is None and n.slice.step is None:
            self.add(*self.pos(n), self.seg(n.value), n.lineno)
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)


def mutants(f):
    src = open(f"{REPO}/giddy/{f}").read()
    m = Mut(src)
    for node in ast.parse(src).body:
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            m.visit(node)
        elif isinstance(node, (ast.For, ast.Assign)) and f == "markov.py":
            m.visit(node)
    res = []
    for x in m.out:
        fn, line, a, b, new, old = x
        t = (m.b[:a] + new.encode() + m.b[b:]).decode()
        try:
            compile(t, f, "exec")
        except (SyntaxError, ValueError):
            continue
        if not fn or "warn(" in m.lines[line - 1] or "Warning" in m.lines[line - 1] or "deprecated" in old or "stacklevel" in m.lines[line - 1]:
            continue
        res.append(x + (t,))
    return res


def preload():
    """Import everything but giddy and the machinery, so that a fork starts fast."""
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import giddy, numpy as np, quantecon.markov
    import mc.core
    quantecon.markov.gth_solve(np.array([[.5, .5], [.5, .5]]))
    for m in [m for m in sys.modules if m.split(".")[0] in ("giddy", "mc")]:
        del sys.modules[m]
    sys.path.remove(REPO)


def one(c, scratch, env, limit=300):
    """Run check c in a forked child against scratch; returns (rc, output)."""
    log = scratch + "/log"
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 1); os.dup2(fd, 2)
        os.environ.update(env, VERIF_NOREEXEC="1")
        os.chdir(HERE)
        rc = 98
        try:
            sys.path.insert(0, scratch)
            import check
            rc = check.run([c])
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(rc)
    t0 = time.time()
    while True:
        p, stt = os.waitpid(pid, os.WNOHANG)
        if p:
            rc = os.waitstatus_to_exitcode(stt)
            break
        if time.time() - t0 > limit:
            os.killpg(pid, 9); os.waitpid(pid, 0); rc = 99
            break
        time.sleep(0.05)
    try:
        os.killpg(pid, 9)
    except ProcessLookupError:
        pass
    return rc, open(log, errors="replace").read()


def main():
    out = sys.argv[1]
    procs = int(sys.argv[sys.argv.index("--procs") + 1]) if "--procs" in sys.argv else 1
    sh, ns = map(int, sys.argv[sys.argv.index("--shard") + 1].split("/")) if "--shard" in sys.argv else (0, 1)
    skip = {sys.argv.index(o) + 1 for o in ("--procs", "--shard") if o in sys.argv}
    files = [a for i, a in enumerate(sys.argv[2:], 2) if not a.startswith("--") and i not in skip] or list(MAP)
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(l)["key"]) for l in open(out)}
    scratch = f"/tmp/mut_{os.getpid()}"
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    shutil.copytree(f"{REPO}/giddy", f"{scratch}/giddy", ignore=shutil.ignore_patterns("__pycache__", "tests"))
    env = dict(VERIF_REPO=scratch, VERIF_OUT=scratch + "/out", VERIF_PROCS=str(procs), VERIF_SEED="1", VERIF_TIER="quick", VERIF_DEADLINE="150")
    if "--list" not in sys.argv:
        preload()
    try:
        for f in files:
            ms = mutants(f)
            if "--list" in sys.argv:
                print(f, len(ms)); continue
            orig = open(f"{REPO}/giddy/{f}").read()
            for fn, line, a, b, new, old, text in ms[sh::ns]:
                key = (f, fn, line, a, b, new)
                if key in done:
                    continue
                open(f"{scratch}/giddy/{f}", "w").write(text)
                t0, killed, note = time.time(), None, ""
                for c in checks(f, fn):
                    rc, o = one(c, scratch, env)
                    if rc == 1 and "VIOLATION" in o:
                        killed = c; break
                    if rc != 0:
                        note += f"{c}:rc{rc} " + o.strip().split("\n")[-1][:150]
                    elif "TRUNCATED" in o:
                        note += f"{c}:truncated "
                with open(out, "a") as h:
                    h.write(json.dumps(dict(key=key, old=old[:120], killed=killed, note=note, s=round(time.time() - t0, 1), src=orig.split("\n")[line - 1].strip())) + "\n")
            open(f"{scratch}/giddy/{f}", "w").write(orig)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


main()
