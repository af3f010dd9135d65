"""Explicit-state exploration engine.

A check is a list of *spaces*.  A space is a finite labelled transition system
given by the set of components that may extend a state (a state is the tuple of
components chosen so far: periods of a panel, rows of a matrix, edges of a
graph, operations of a history, ...).  The engine enumerates every reachable
state within the bounds, and replays every complete trace against the real
code in /repo, where the space's `run` compares what the code did with the
reference model.  Nothing is sampled: a space is finished when no unexplored
state is left (or the run is reported as not exhaustive).
"""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)      # where evidence/ and replays/ are written
NPROC = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)
TRACE_TIMEOUT = 120          # seconds one trace may take before it counts as hanging
DEADLINE = float(os.environ.get("VERIF_DEADLINE", "0"))


class Mismatch(Exception):
    """The implementation does not do what the model says."""


class Known(Exception):
    """A mismatch that is exactly a recorded finding."""

    def __init__(self, key, msg=""):
        super().__init__(key, msg)
        self.key, self.msg = key, msg


class HarnessError(Exception):
    """The check itself cannot give an answer."""


class TraceTimeout(Exception):
    pass


class Skip(Exception):
    """The trace is outside of the property's quantifier (counted, not judged)."""


class Space:
    """A tree-shaped transition system.

    choices(state) -> iterable of components extending the state, or None when
    the state is complete.  run(state) replays a complete state; with
    prefixes=True every state with len >= prefixes is replayed as well.
    """

    def __init__(self, name, choices, run, prefixes=None, note="", key=None):
        self.name, self.choices, self.run = name, choices, run
        self.prefixes, self.note, self.key = prefixes, note, key


def product_space(name, domains, run, note="", key=None):
    """All tuples of the product of `domains` (each a list), built component by component."""
    domains = [list(d) for d in domains]

    def choices(s):
        return domains[len(s)] if len(s) < len(domains) else None
    return Space(name, choices, run, note=note, key=key)


class Stats:
    def __init__(self):
        self.states = self.transitions = self.traces = self.skipped = 0
        self.samples = []
        self.violations = []
        self.known = {}
        self.extra = {}
        self.truncated = False
        self.harness = []

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.skipped += o.skipped
        self.samples = (self.samples + o.samples)[:4]
        self.violations += o.violations
        for k, v in o.known.items():
            self.known[k] = (self.known.get(k, (0, ""))[0] + v[0],
                             self.known.get(k, (0, v[1]))[1])
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v
        self.truncated |= o.truncated
        self.harness += o.harness


CURRENT = None            # Stats of the running worker; checks add counters with count()


def count(name, n=1):
    if CURRENT is not None:
        CURRENT.extra[name] = CURRENT.extra.get(name, 0) + n


def explored(states=0, transitions=0):
    """Exploration done inside a trace (e.g. answers of the controlled RNG)."""
    if CURRENT is not None:
        CURRENT.states += states
        CURRENT.transitions += transitions


def _alarm(*a):
    raise TraceTimeout(f"no result within {TRACE_TIMEOUT}s")


def short(e):
    return f"{type(e).__name__}: {e}"[:1500]


def replay_trace(space, state, st):
    """Run one complete trace; returns True when the exploration may go on."""
    signal.setitimer(signal.ITIMER_REAL, TRACE_TIMEOUT)
    try:
        st.traces += 1
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            note = space.run(state)
        if len(st.samples) < 2 and (st.traces in (1, 40)):
            st.samples.append({"space": space.name, "trace": repr(state)[:400],
                               "outcome": repr(note)[:300] if note is not None else "conforms"})
        return True
    except Skip:
        st.traces -= 1
        st.skipped += 1
        return True
    except Known as e:
        n, m = st.known.get(e.key, (0, ""))
        st.known[e.key] = (n + 1, m or f"{space.name} {state!r}: {e.msg}"[:600])
        return True
    except HarnessError as e:
        st.harness.append(f"{space.name} {state!r}: {e}"[:1000])
        return False
    except Mismatch as e:
        st.violations.append((space.name, state, f"mismatch: {e}"[:1500]))
        return False
    except (Exception, RecursionError) as e:      # the code under test failed on a valid input
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
        st.violations.append((space.name, state, f"unexpected {short(e)}\n{tb[-1500:]}"))
        return False
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def walk(space, state, st, stop, t_end):
    """Depth-first exploration of everything below (and including) state."""
    stack = [state]
    n = 0
    while stack:
        s = stack.pop()
        n += 1
        if n % 16 == 0:
            if stop.is_set():
                st.truncated = True
                return
            if t_end and time.time() > t_end:
                st.truncated = True
                return
        st.states += 1
        ch = space.choices(s)
        if ch is None:
            if not replay_trace(space, s, st):
                return
            continue
        if space.prefixes is not None and len(s) >= space.prefixes:
            if not replay_trace(space, s, st):
                return
        ch = list(ch)
        st.transitions += len(ch)
        stack.extend(s + (c,) for c in reversed(ch))


def _worker(q, res, spaces, stop, t_end):
    global CURRENT
    try:                                             # end with the parent, however that ends
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass
    signal.signal(signal.SIGALRM, _alarm)
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(1000)
    sys.stderr = open(os.devnull, "w")
    try:
        while True:
            job = q.get()
            if job is None:
                break
            si, batch = job
            st = CURRENT = Stats()
            t0 = time.time()
            for state in batch:
                if stop.is_set():
                    st.truncated = True
                    break
                walk(spaces[si], state, st, stop, t_end)
                if st.violations or st.harness:
                    stop.set()
                    break
            st.extra["cpu_ms"] = int(1000 * (time.time() - t0))
            res.put((si, st))
    except BaseException as e:                      # pragma: no cover
        st = Stats()
        st.harness.append("worker: " + short(e) + traceback.format_exc()[-800:])
        res.put((0, st))
    finally:
        res.put(None)
        res.close()
        res.join_thread()
        os._exit(0)


def frontier(space, target):
    """Split the top of the tree into jobs; returns (jobs, stats for the split-off top)."""
    st = Stats()
    level = [()]
    while True:
        if len(level) >= target:
            return level, st
        nxt, leaf = [], []
        for s in level:
            ch = space.choices(s)
            if ch is None or (space.prefixes is not None and len(s) >= space.prefixes):
                leaf.append(s)
                continue
            ch = list(ch)
            st.states += 1
            st.transitions += len(ch)
            nxt.extend(s + (c,) for c in ch)
        if not nxt:
            return leaf, st
        level = leaf + nxt


def explore(spaces, t_end=None):
    ctx = mp.get_context("fork")
    q, res, stop = ctx.Queue(), ctx.Queue(), ctx.Event()
    per = [Stats() for _ in spaces]
    jobs = []
    for i, sp in enumerate(spaces):
        states, st = frontier(sp, 48 * NPROC)
        per[i].merge(st)
        size = max(1, len(states) // (24 * NPROC))
        # interleave so that every batch gets a mix of the space
        nb = (len(states) + size - 1) // size
        for b in range(nb):
            jobs.append((i, states[b::nb]))
    for j in jobs:
        q.put(j)
    for _ in range(NPROC):
        q.put(None)
    ps = [ctx.Process(target=_worker, args=(q, res, spaces, stop, t_end), daemon=True)
          for _ in range(NPROC)]
    for p in ps:
        p.start()
    alive, done = NPROC, 0
    import queue as _q
    while alive:
        try:
            r = res.get(timeout=1.0)
        except _q.Empty:
            dead = [p for p in ps if not p.is_alive()]
            if len(dead) == len(ps) and res.empty():
                break
            continue
        if r is None:
            alive -= 1
            continue
        per[r[0]].merge(r[1])
        done += 1
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    if done < len(jobs) and not stop.is_set():
        per[0].harness.append(f"only {done} of {len(jobs)} jobs were finished (worker died?)")
    return per


# ---------------------------------------------------------------- reporting

def known_findings(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                f = line[7:].split(None, 2)
                d = dict(x.split("=", 1) for x in f[:2])
                if d.get("property") == prop:
                    out[d["key"]] = f[2].strip()
    return out


def write_replay(prop, space, state, msg):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(repr((space, state)).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "space": space, "state": repr(state), "message": msg,
                   "how": f"python3 /verif/check.py {prop} --replay {path}"}, f, indent=1)
    return path


def main(prop, module, tier, seed, replay=None):
    t0 = time.time()
    spaces = module.spaces(tier)
    names = [s.name for s in spaces]
    assert len(set(names)) == len(names), names
    if replay:
        import ast
        rec = json.load(open(replay))
        sp = spaces[names.index(rec["space"])] if rec["space"] in names else None
        if sp is None:
            sp = {s.name: s for s in module.spaces("thorough")}[rec["space"]]
        st = Stats()
        signal.signal(signal.SIGALRM, _alarm)
        replay_trace(sp, ast.literal_eval(rec["state"]), st)
        for v in st.violations:
            print(v[2])
            print(f"VIOLATION property={prop} replay={replay}")
        for k, v in st.known.items():
            print("KNOWN-FINDING:", k, v)
        if not st.violations:
            print("replay: no violation")
        return 1 if st.violations else 0
    budget = DEADLINE or (700 if tier == "quick" else 6 * 3600)
    per = explore(spaces, t0 + budget)
    tot = Stats()
    for p in per:
        tot.merge(p)
    viol = tot.violations
    listed = known_findings(prop)
    for k in list(tot.known):
        if k not in listed:
            n, m = tot.known[k]
            viol.append(("known", k, f"mismatch (finding {k} is not listed): {m}"))
    cov = {
        "states": tot.states, "transitions": tot.transitions,
        "traces_validated_against_impl": tot.traces,
        "samples": [s for p in per for s in p.samples[:2]][:12] or [{"note": "no trace replayed"}],
        "exhaustive": not tot.truncated and not viol,
        "spaces": [{"name": s.name, "bounds": s.note, "states": p.states,
                    "transitions": p.transitions, "traces": p.traces,
                    "out_of_scope": p.skipped, "cpu_ms": p.extra.get("cpu_ms", 0)}
                   for s, p in zip(spaces, per)],
        "model_validation": getattr(module, "BINDING", ""),
    }
    for k, v in tot.extra.items():
        if k != "cpu_ms":
            cov[k] = v
    if tot.known:
        cov["known_findings"] = {k: {"traces": v[0], "first": v[1]} for k, v in tot.known.items()}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    tmp = os.path.join(OUT, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(OUT, "evidence", f"{prop}.json"))
    for s, p in zip(spaces, per):
        print(f"  {s.name}: states={p.states} transitions={p.transitions} traces={p.traces}"
              f" skipped={p.skipped} cpu={p.extra.get('cpu_ms', 0) / 1000:.1f}s")
    print(f"{prop} {tier}: states={tot.states} transitions={tot.transitions} traces={tot.traces}"
          f" wall={time.time() - t0:.1f}s" + (" TRUNCATED" if tot.truncated else ""))
    for k, text in listed.items():
        if k in tot.known:
            print(f"KNOWN-FINDING: property={prop} {text} [{tot.known[k][0]} traces]")
    if viol:
        for sp, state, msg in viol[:3]:
            path = write_replay(prop, sp, state, msg)
            print(f"--- {sp} {state!r}"[:600])
            print(msg)
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if tot.harness:
        for h in tot.harness[:5]:
            print("HARNESS ERROR:", h)
        return 2
    return 0
