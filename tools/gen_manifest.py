"""Writes /verif/MANIFEST.json from the list of checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C33": "bounded exhaustive enumeration of panels, graphs, orders and namings; every case executed on the real code and compared with its rearrangement",
    "C34": "bounded exhaustive enumeration of panels; every case executed on the real code and compared with the executions on all of its parts",
    "C35": "bounded exhaustive enumeration of panels, scales, storages and spellings; every case executed on the real code and compared",
    "C29": "explicit-state exploration of operation histories on the real objects, compared with fresh-process baselines",
    "C32": "exhaustive exploration of generator states, hash seeds and random answers on the real code",
    "C11": "exhaustive exploration of the controlled random source (all permutations) against the exact permutation distribution",
    "C24": "exhaustive exploration of the controlled random source (all permutations) against the exact permutation distribution",
    "C28": "exhaustive exploration of the controlled random source (all permutations) against the exact permutation distribution",
    "C15": "exhaustive enumeration of quadrant/significance histories through a controlled local Moran source, against a reference model",
    "C17": "exhaustive enumeration of core histories and graphs through a controlled local Moran source, against a reference model",
    "C31": "exhaustive enumeration of class/significance histories and plot calls, read back from the artists, against a reference model",
}
DEFAULT = "bounded exhaustive enumeration of input states replayed on the real code against an exact reference model"
NOTE = ("model checking: every state of the stated bounded spaces is enumerated (no sampling) and every complete trace is "
        "executed on the real code and compared with the reference model; bounds are in the evidence file and DESIGN.md")
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    c = p["id"]
    checks.append({"property": c, "quick_cmd": f"python3 check.py {c}",
                   "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {c}",
                   "evidence_file": f"evidence/{c}.json",
                   "technique": TECH.get(c, DEFAULT), "level": "model_checking", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
