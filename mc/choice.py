"""Controlled random source: every answer the numpy generator can give is enumerated.

`explore_rng(body)` runs body() once per sequence of answers (depth-first over the
tree of choice points, replaying the prefix), and yields (weight, result): weight is
the exact probability (Fraction) of that sequence under a uniform generator.
"""
import contextlib
import itertools
import math
import sys
from fractions import Fraction

import numpy as np

from .core import HarnessError, explored

NAMES = ("permutation", "shuffle", "choice", "randint", "rand", "random",
         "random_sample", "uniform")
FORBIDDEN = ("normal", "randn", "standard_normal", "exponential", "beta", "gamma", "multinomial",
             "poisson", "binomial", "bytes", "integers")
_real = {n: getattr(np.random, n) for n in NAMES}
_real_forbidden = {n: getattr(np.random, n) for n in FORBIDDEN if hasattr(np.random, n)}
_real_ctor = {"default_rng": np.random.default_rng, "RandomState": np.random.RandomState}


class Controller:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.log = []            # (answer index, number of options)

    def pick(self, n):
        n = int(n)
        if n <= 0:
            raise HarnessError("empty choice")
        i = len(self.log)
        a = self.prefix[i] if i < len(self.prefix) else 0
        self.log.append((a, n))
        if len(self.log) > 4000:
            raise HarnessError("more than 4000 random choices in one run")
        return a

    # every function below answers with a decision of `pick`
    def order(self, n):
        a = self.pick(math.factorial(n))
        rest, out = list(range(n)), []
        for i in range(n, 0, -1):
            f = math.factorial(i - 1)
            j, a = divmod(a, f)
            out.append(rest.pop(j))
        return out

    def permutation(self, x, axis=0):
        if isinstance(x, (int, np.integer)):
            return np.array(self.order(int(x)), dtype=int)
        a = np.array(x)
        return np.take(a, self.order(a.shape[axis]), axis=axis)

    permuted = permutation

    def shuffle(self, x, axis=0):
        if isinstance(x, np.ndarray):
            x[...] = np.take(x, self.order(x.shape[axis]), axis=axis)
        else:
            c = [x[i] for i in self.order(len(x))]
            for i, v in enumerate(c):
                x[i] = v

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        pool = np.arange(int(a)) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if p is not None:
            raise HarnessError("weighted choice is not modelled")
        n = pool.shape[0]
        if size is None:
            return pool[self.pick(n)]
        m = int(np.prod(size))
        if replace:
            idx = [self.pick(n) for _ in range(m)]
        else:
            idx = self.order(n)[:m]
        return pool[np.array(idx, dtype=int)].reshape(size)

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        if size is None:
            return low + self.pick(high - low)
        m = int(np.prod(size))
        return np.array([low + self.pick(high - low) for _ in range(m)], dtype=dtype).reshape(size)

    integers = randint

    def random(self, size=None):
        # only the order of continuous draws within one call is modelled
        if size is None:
            raise HarnessError("single continuous draws are not modelled")
        m = int(np.prod(size))
        o = np.argsort(self.order(m))
        return ((o + 0.5) / m).reshape(size)

    random_sample = random

    def rand(self, *shape):
        return self.random(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)


class Cycle(Controller):
    """Answers 0, 1, 2, ... in turn: over a whole number of rounds every answer is given equally often."""

    def pick(self, n):
        n = int(n)
        a = len(self.log) % n
        self.log.append((a, n))
        return a

    def shuffle(self, x, axis=0):
        """In place: the answers are the arrangements of the content, whatever order it is in."""
        if np.ndim(x) == 1:
            x[:] = np.sort(x) if isinstance(x, np.ndarray) else sorted(x)
        super().shuffle(x, axis)


def equally_often(body, options, rounds):
    """body() with every random answer given equally often, or None if the draws are not
    requests for one of so many options."""
    ctl = Cycle()
    with controlled(ctl):
        r = body()
    explored(states=1, transitions=len(ctl.log))
    ok = ctl.log and len(ctl.log) % (options * rounds) == 0 and all(q == options for _, q in ctl.log)
    return r, bool(ok)


class Unscripted(Exception):
    pass


class Scripted(Controller):
    """Answers a request for an arrangement of n units with a given one; nothing else may be drawn."""

    def __init__(self, given):
        super().__init__()
        self.given = list(given)

    def order(self, n):
        if n != len(self.given):
            raise Unscripted()
        self.log.append((0, 1))
        return list(self.given)

    def pick(self, n):
        raise Unscripted()


def four_group(n):
    """Four rearrangements of n units that are closed under composition and their own inverses (n even)."""
    h = n // 2
    one = list(range(n))
    half = one[h:] + one[:h]
    return [one, one[::-1], half, half[::-1]]


def scripted(body, n):
    """body() under each rearrangement of four_group(n), or None if the draws are of another kind."""
    out = []
    for g in four_group(n):
        ctl = Scripted(g)
        with controlled(ctl):
            try:
                out.append(body())
            except Unscripted:
                return None
        if len(ctl.log) != 1:
            return None
    explored(states=len(out), transitions=len(out))
    return out


@contextlib.contextmanager
def controlled(ctl):
    repl = {id(_real[n]): getattr(ctl, n) for n in NAMES}

    def refuse(*a, **k):
        raise HarnessError("random function outside of the controlled ones")
    undo = []

    def put(o, name, val):
        undo.append((o, name, getattr(o, name)))
        setattr(o, name, val)
    for n in NAMES:
        put(np.random, n, getattr(ctl, n))
    for n in _real_forbidden:
        put(np.random, n, refuse)
    put(np.random, "default_rng", lambda *a, **k: ctl)
    put(np.random, "RandomState", lambda *a, **k: ctl)
    for name, mod in list(sys.modules.items()):
        if name.startswith("giddy") and mod is not None:
            for k, v in list(vars(mod).items()):
                if callable(v) and id(v) in repl and v is not None:
                    put(mod, k, repl[id(v)])
    try:
        yield
    finally:
        for o, name, val in reversed(undo):
            setattr(o, name, val)


def explore_rng(body, limit=200000):
    """Run body() for every sequence of random answers; list of (probability, result)."""
    out = []
    prefix = []
    runs = 0
    state0 = np.random.get_state()[1].copy(), np.random.get_state()[2]
    while True:
        ctl = Controller(prefix)
        with controlled(ctl):
            r = body()
        runs += 1
        st = np.random.get_state()
        if st[2] != state0[1] or not (st[1] == state0[0]).all():
            raise HarnessError("a random draw by-passed the controller")
        pr = Fraction(1)
        for _, n in ctl.log:
            pr /= n
        out.append((pr, r, tuple(a for a, _ in ctl.log)))
        log = ctl.log
        while log and log[-1][0] + 1 >= log[-1][1]:
            log.pop()
        if not log:
            break
        prefix = [a for a, _ in log]
        prefix[-1] += 1
        if runs > limit:
            raise HarnessError("random choice tree larger than the limit")
    explored(states=runs, transitions=runs)
    assert sum(p for p, _, _ in out) == 1
    return out


def distribution(pairs, digits=9):
    """{rounded value: exact probability}"""
    d = {}
    for pr, v in pairs:
        k = rnd(v, digits)
        d[k] = d.get(k, 0) + pr
    return d


def rnd(v, digits=9):
    if isinstance(v, (list, tuple, np.ndarray)):
        return tuple(rnd(x, digits) for x in v)
    v = float(v)
    if v != v:
        return "nan"
    if v in (float("inf"), float("-inf")):
        return v
    return round(v, digits) + 0.0


def same_distribution(a, b, tol=1e-6):
    """Compare {value: prob} dicts with rounding-neighbour tolerance; returns None or text."""
    if a == b:
        return None
    ka, kb = sorted(a, key=repr), sorted(b, key=repr)

    def close(x, y):
        if isinstance(x, tuple):
            return isinstance(y, tuple) and len(x) == len(y) and all(map(close, x, y))
        if isinstance(x, str) or isinstance(y, str):
            return x == y
        return x == y or abs(x - y) <= tol * max(1, abs(x))
    rest = dict(b)
    for k in ka:
        need = a[k]
        for k2 in [q for q in rest if close(k, q)]:
            need -= rest.pop(k2)
        if need != 0:
            return f"value {k}: probability {a[k]} expected, difference {need}"
    if rest:
        k = next(iter(rest))
        return f"value {k} occurs with probability {rest[k]} but should not occur"
    return None
