"""Run the catalogue of analyses in this interpreter and pickle the snapshots to stdout (used by C32 with several hash seeds)."""
import contextlib
import io
import itertools
import os
import pickle
import sys
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
warnings.simplefilter("ignore")


def clusters(ids, edges, cores, quadrant, on):
    from giddy.markov import LISA_Markov
    from mc.checks import _lisa
    from mc.util import make_w
    n = len(ids)
    q = [[quadrant if c[i] else 2 for c in cores] for i in range(n)]
    y, src = _lisa.history(n, len(cores), q, [[0.01] * len(cores)] * n)
    with _lisa.moran_local(src):
        return LISA_Markov(y, make_w(n, edges, ids=ids), permutations=9).spillover(quadrant=quadrant, neighbors_on=on)


def main():
    from mc.checks import _ops as O
    out = {}
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        for wn in O.CONF:
            for an in O.ANALYSES:
                out["analysis", wn, an] = O.snap(O.analyse(an, O.World(wn)))
        n = 6
        for ids in (list("fbdace"), ["Ohio", "Utah", "Iowa", "Texas", "Maine", "Idaho"], [(i, "x") for i in range(n)]):
            for edges in (((0, 1), (2, 3), (4, 5)), ((0, 1), (1, 2), (3, 4), (4, 5)), ((0, 5), (1, 4), (2, 3), (1, 2))):
                for core in itertools.product((0, 1), repeat=n):
                    other = tuple(core[(i + 1) % n] for i in range(n))
                    for on in (False, True):
                        out["clusters", repr((ids, edges, core, on))] = O.snap(clusters(ids, edges, (core, other), 1, on))
    sys.stdout.buffer.write(pickle.dumps(out))
    sys.stdout.buffer.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
