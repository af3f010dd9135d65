"""Run one check:  check.py C01 [--replay FILE]   (tier and seed from VERIF_TIER / VERIF_SEED)"""
import os
import sys
import time

VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") \
        and not os.environ.get("VERIF_NOREEXEC"):
    os.environ["VERIF_NOREEXEC"] = "1"
    os.execv(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:])

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))


def run(argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only see that code and machinery can be loaded")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    import warnings
    warnings.simplefilter("ignore")
    from mc import core
    core.TIER = a.tier
    import giddy
    want = os.path.realpath(core.REPO) + os.sep
    for m in ("components", "directional", "ergodic", "markov", "mobility", "plotting",
              "rank", "sequence", "util"):
        mod = importlib.import_module("giddy." + m)
        assert os.path.realpath(mod.__file__).startswith(want), mod.__file__
    if a.setup:
        import glob
        for f in sorted(glob.glob(os.path.join(HERE, "mc", "checks", "c[0-9]*.py"))):
            importlib.import_module("mc.checks." + os.path.basename(f)[:-3])
        print("ready")
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("mc.checks." + a.prop.lower())
    return core.main(a.prop, mod, a.tier, seed, a.replay)


if __name__ == "__main__":
    t0 = time.time()
    rc = run(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
