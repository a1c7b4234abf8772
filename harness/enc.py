"""Encoding of results of the real code for the trace files."""
import math
import numpy as np

LIM = 10 ** 9


class Timeout(BaseException):
    pass


POOL = [None]


def reuse(a):
    """In half of the scenarios equal arrays are one and the same object, as when
    a caller presents the same instance again."""
    if POOL[0] is None or not isinstance(a, np.ndarray) or a.dtype == object or a.size > 10000:
        return a
    return POOL[0].setdefault((a.dtype.str, a.shape, a.strides, a.flags.writeable, a.tobytes()), a)


def rec(k, v=0, t=""):
    return {"k": k, "v": int(v), "t": t}


def scalar(x):
    """float value of anything of size one, else None"""
    try:
        a = np.asarray(x)
        if a.dtype == object or a.size != 1:
            return None
        return float(a.reshape(()))
    except Exception:
        return None


def num(x, Q=1, scale=1.0):
    """x/scale as fixed-point integer with Q units per one"""
    f = scalar(x)
    if f is None:
        return rec("other", 0, type(x).__name__)
    if math.isnan(f):
        return rec("nan")
    if math.isinf(f):
        return rec("inf" if f > 0 else "ninf")
    v = f / scale * Q
    if not abs(v) <= LIM:
        return rec("big", 1 if v > 0 else -1)
    return rec("num", int(round(v)))


def exc(e):
    return rec("exc", 0, type(e).__name__)


def call(fn, *a, Q=1, scale=1.0, enc=None, **kw):
    """Run one public call; every outcome is an ordinary result."""
    try:
        r = fn(*[reuse(x) for x in a], **kw)
    except Timeout:
        raise
    except Exception as e:
        return exc(e)
    try:
        return enc(r) if enc else num(r, Q, scale)
    except Exception as e:
        return rec("other", 0, "enc:" + type(e).__name__)


OK = rec("ok")


def do(fn, *a, **kw):
    """A call whose return value does not matter."""
    try:
        fn(*[reuse(x) for x in a], **kw)
    except Timeout:
        raise
    except Exception as e:
        return exc(e)
    return dict(OK)
