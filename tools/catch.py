"""Development helper: run the checks against the planted changes kept in /verif/seeded.

usage: catch.py [id ...] [--all-checks C01,C02]
"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(f"{HERE}/seeded"))
for i in ids:
    d = f"{HERE}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    copy = f"/tmp/catch_{os.getpid()}"
    shutil.rmtree(copy, ignore_errors=True)
    try:
        shutil.copytree("/repo/giddy", copy + "/giddy", ignore=shutil.ignore_patterns("__pycache__"))
        r = subprocess.run(["patch", "-p1", "-s", "-i", d + "/patch.diff"], cwd=copy, capture_output=True, text=True)
        if r.returncode:
            print(i, "PATCH FAILS", r.stdout); continue
        t0 = time.time()
        r = subprocess.run(["/opt/venv/bin/python", "check.py", prop], cwd=HERE, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=copy, VERIF_OUT=copy + "/out", VERIF_SEED="1", VERIF_TIER="quick"))
        v = any(l.startswith(f"VIOLATION property={prop}") for l in r.stdout.split("\n"))
        print(f"{i:28s} {prop} {'caught' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0 else 'rc%d' % r.returncode} {time.time() - t0:.0f}s", flush=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
