"""Development: run only the spaces of a check whose name contains a text.  tools/spaces.py C28 given [tier]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
VENV = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:])
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import warnings

warnings.simplefilter("ignore")
from mc import core

prop, sub, tier = sys.argv[1], sys.argv[2], (sys.argv[3:] + ["quick"])[0]
core.TIER = tier
mod = importlib.import_module("mc.checks." + prop.lower())
sp = [s for s in mod.spaces(tier) if sub in s.name]
per = core.explore(sp)
for s, p in zip(sp, per):
    print(s.name, {k: v for k, v in vars(p).items() if k not in ("known",)} if len(str(vars(p))) < 3000 else str(vars(p))[:3000])
