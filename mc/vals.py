"""Strictly increasing codings of rank patterns (scale, precision and storage boundaries)."""
import numpy as np

CODES = {
    "float": lambda p: np.array(p, float),
    "ulp": lambda p: 1.0 + np.array(p) * 2.0 ** -52,
    "near12": lambda p: np.array([1.0 + v * 1e-12 for v in p]),
    "near7": lambda p: np.array([100.0 + v * 1e-7 for v in p]),
    "offset": lambda p: np.array([1e15 + v for v in p]),
    "huge": lambda p: np.array([(v - 1.5) * 1e300 for v in p]),
    "tiny": lambda p: np.array([(v - 1) * 1e-300 for v in p]),
    "denormal": lambda p: np.array([(v - 1) * 5e-324 for v in p]),
    "wide": lambda p: np.array([(-1e300, -1.0, -1e-300, 1e-300, 1.0, 1e300, np.inf)[v] for v in p]),
    "int64": lambda p: np.array([v - 2 for v in p]),
    "big": lambda p: np.array([2 ** 62 + v for v in p], np.int64),
    "int8": lambda p: np.array([(-128, -1, 0, 1, 126, 127)[v] for v in p], np.int8),
    "uint8": lambda p: np.array([(0, 1, 127, 128, 254, 255)[v] for v in p], np.uint8),
    "int16": lambda p: np.array([(-32768, -129, 0, 300, 32766, 32767)[v] for v in p], np.int16),
    "float32": lambda p: np.array([(-3e38, -1e-38, 0, 1e-7, 1, 3e38)[v] for v in p], np.float32),
    "list": lambda p: [int(v) - 3 for v in p],
    "flist": lambda p: [v * 0.1 - 0.2 for v in p],
    "tuple": lambda p: tuple(v * 0.5 for v in p),
    "view": lambda p: np.repeat(np.array(p, float), 3)[::3],
    "reversed view": lambda p: np.array(p[::-1], float)[::-1],
    "column": lambda p: np.array([[float(v), -v] for v in p])[:, 0],
}


def readonly(a):
    if isinstance(a, np.ndarray):
        a = a.view()
        a.setflags(write=False)
    return a
