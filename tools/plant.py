"""Development helper: turn bug specifications into /verif/seeded entries.

usage: plant.py SPEC.py [id ...] [--check] [--force]
SPEC.py defines BUGS, a list of dicts with
  id, property, edits [(file, old, new), ...], needs, breaks, demo (python text)
Works in a scratch copy of /repo which is removed afterwards: applies the
edits, runs the stable tests and the demonstration with and without them,
keeps the entry when everything is as required, and (--check) runs the
property's check against the changed copy.
"""
import json, os, runpy, shutil, subprocess, sys, concurrent.futures as cf
import xml.etree.ElementTree as ET

PY = "/opt/venv/bin/python"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = """#!/bin/bash
# run with cwd = repository; exit 0: behaves as it should, nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" "$here/demo.py"
"""


def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
    return r.returncode, r.stdout


def stable(copy, tag):
    env = dict(PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", PYTHONPATH=copy)
    base = f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2"
    bad = set()
    for k, extra in (("unit", ""), ("doc", "--doctest-only --doctest-continue-on-failure")):
        x = f"/tmp/plant_{tag}_{k}.xml"
        rc, o = sh(f"{base} {extra} --junitxml={x} giddy", copy, env=env)
        for tc in ET.parse(x).getroot().iter("testcase"):
            name = tc.get("classname") + "::" + tc.get("name")
            if tc.find("failure") is not None or tc.find("error") is not None:
                bad.add(name)
        os.remove(x)
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(b for b in bad if b in want)


def one(bug, check):
    bid = bug["id"]
    copy = f"/tmp/plant_{bid}"
    shutil.rmtree(copy, ignore_errors=True)
    log = []
    try:
        subprocess.run(["git", "worktree", "prune"], cwd="/repo")
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        sh("git checkout -q -- .", copy)
        for f, old, new in bug["edits"]:
            p = os.path.join(copy, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                return bid, False, f"edit matches {n} times in {f}: {old!r}"
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", copy)
        d = os.path.join(OUT, bid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(bug["demo"].lstrip())
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok = True
        rc, o = sh(f"bash {d}/demo.sh", "/repo", 300)
        if rc:
            ok = False; log.append("demo fails unpatched:\n" + o[-800:])
        rc, o = sh(f"bash {d}/demo.sh", copy, 300)
        if rc == 0:
            ok = False; log.append("demo passes with the patch\n" + o[-300:])
        else:
            log.append("demo: " + o.strip().split("\n")[-1][:200])
        bad = stable(copy, bid)
        if bad:
            ok = False; log.append("stable tests fail: " + ", ".join(bad))
        if check and ok:
            for prop in bug.get("checks", [bug["property"]]):
                rc, o = sh(f"{PY} check.py {prop}", os.path.dirname(OUT), env={"VERIF_REPO": copy, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_OUT": f"/tmp/plantout_{bid}"})
                v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
                log.append(f"check {prop}: rc={rc} {'CAUGHT' if rc == 1 and v else 'MISSED' if rc == 0 else 'BROKEN ' + o[-600:]}")
                if v:
                    log.append("   " + "\n   ".join(o.strip().split("\n")[:3])[:500])
        if not ok:
            shutil.rmtree(d)
        return bid, ok, "\n".join(log)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(f"/tmp/plantout_{bid}", ignore_errors=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    bugs = runpy.run_path(args[0])["BUGS"]
    if args[1:]:
        bugs = [b for b in bugs if b["id"] in args[1:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for bid, ok, msg in ex.map(lambda b: one(b, "--check" in sys.argv), bugs):
            print(f"=== {bid}: {'kept' if ok else 'REJECTED'}\n{msg}", flush=True)
