import math
import numpy as np
from enc import *

SCALES = [1.0, 1.0, 0.5, 2.0, 0.1, 1e-3, 1e6, 3.7, 1e-7]
DYADIC = [1.0, 0.5, 2.0, 1.0, 1024.0, 2.0 ** -20]


def mccfg(invs, consts):
    """configuration text plus the definitions that instantiate the constants"""
    out = ["INIT MInit", "NEXT MNext", "CHECK_DEADLOCK FALSE"]
    out += ["INVARIANT " + i for i in invs]
    defs = []
    for k, v in consts.items():
        out.append("CONSTANT %s <- c_%s" % (k, k))
        defs.append("c_%s == %s" % (k, v))
    return "\n".join(out) + "\n", "\n".join(defs) + "\n"


def sset(xs):
    return "{" + ", ".join(('"%s"' % x) if isinstance(x, str) else str(x) for x in xs) + "}"


def wsize(rng, big=False):
    """heavy-tailed window size"""
    return rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 5, 7, 8, 10, 16, 17, 30, 31, 33] + ([50, 64, 65, 100, 101, 128, 257] if big else []))


def values(rng, n, lim=9):
    """an integer stream of one of several characters"""
    mode = rng.randrange(9)
    if mode == 0:
        return [rng.randint(-lim, lim) for _ in range(n)]
    if mode == 1:
        return [rng.choice([0, 1]) for _ in range(n)]
    if mode == 2:                                   # monotone up / down
        s = sorted(rng.randint(-lim, lim) for _ in range(n))
        return s if rng.random() < .5 else s[::-1]
    if mode == 3:                                   # constant then change
        a, b = rng.randint(-lim, lim), rng.randint(-lim, lim)
        k = rng.randint(0, n)
        return [a] * k + [b] * (n - k)
    if mode == 4:                                   # runs of duplicates
        out = []
        while len(out) < n:
            out += [rng.randint(-lim, lim)] * rng.randint(1, 6)
        return out[:n]
    if mode == 5:                                   # all negative
        return [-rng.randint(1, lim) for _ in range(n)]
    if mode == 6:                                   # mostly zero
        return [rng.randint(-lim, lim) if rng.random() < .2 else 0 for _ in range(n)]
    if mode == 8:                                   # every other value leaves the mean (and median) where it was
        m, out = rng.choice([0, 0, rng.randint(-lim // 2, lim // 2)]), []
        while len(out) < n:
            d = rng.randint(0, lim // 2)
            out += [m] * rng.randint(0, 2) + ([m - d, m + d] if rng.random() < .5 else [m + d, m - d])
        return out[:n]
    p = rng.randint(2, 5)
    pat = [rng.randint(-lim, lim) for _ in range(p)]
    return [pat[i % p] for i in range(n)]


def typed(kind, v):
    if kind == "int":
        return int(v) if float(v).is_integer() else float(v)
    if kind == "np64":
        return np.float64(v)
    if kind == "npint":
        return np.int64(v) if float(v).is_integer() else np.float64(v)
    return float(v)
