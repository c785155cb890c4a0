"""Helpers shared by the checks."""

import datetime as dt
import math

import numpy as np

from .engine import Violation

EPOCH = dt.datetime(1970, 1, 1)


def close(a, b, rtol=1e-9, atol=0.0):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def all_close(a, b, rtol=1e-9, atol=None):
    """Elementwise, the absolute tolerance is relative to the largest value."""
    a = [float(x) for x in a]
    b = [float(x) for x in b]
    if len(a) != len(b):
        return False
    if atol is None:
        fin = [abs(x) for x in a + b if math.isfinite(x)]
        atol = rtol * max(fin, default=0.0)
    return all(close(x, y, rtol, atol) for x, y in zip(a, b))


def require(cond, message, *args, key=None):
    if not cond:
        raise Violation(message.format(*args) if args else message, key)


def seconds(year, month=1, day=1, hour=0, minute=0, second=0):
    d = dt.datetime(year, month, day, hour, minute, second) - EPOCH
    return d.days * 86400 + d.seconds


def to64(grid):
    """Seconds to datetime64[s]."""
    return np.array([np.datetime64(int(t), "s") for t in grid], dtype="datetime64[s]")


def attempt(fun, *args, **kwargs):
    """("ok", value) or ("err", exception class name)."""
    try:
        return ("ok", fun(*args, **kwargs))
    except Exception as e:  # pylint: disable=broad-except
        if type(e).__name__ in ("CaseTimeout", "Violation"):
            raise
        return ("err", type(e).__name__)


def sequences(alphabet, depth):
    """All sequences over alphabet of exactly the given length, in order."""
    if depth == 0:
        yield ()
        return
    for first in alphabet:
        for rest in sequences(alphabet, depth - 1):
            yield (first,) + rest
