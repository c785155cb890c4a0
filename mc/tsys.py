"""
One parameter under several views: real code and reference side by side (C01, C06).
"""

import numpy as np

from .engine import Violation
from .refps import RefError, RefSet
from .util import all_close, close, seconds, to64

Y = [seconds(y) for y in (2010, 2011, 2012, 2013)]


def _half(grid):
    r = []
    for a, b in zip(grid[:-1], grid[1:]):
        r += [a, (a + b) // 2]
    return r + [grid[-1]]


GRIDS = {
    "year": tuple(Y),
    "half": tuple(_half(Y)),
    "coarse": (Y[0], Y[1] + 86400 * 180, Y[3]),
    "late": tuple(Y[1:]) + (seconds(2014),),
    "early": (seconds(2008),) + tuple(Y[:-1]),
    "inner": tuple(_half(Y))[2:-1],
    "wide": (seconds(2005), Y[0], Y[1] + 86400 * 180, Y[3], seconds(2016)),
}

POINT_VIEWS = (("kg", "year"), ("g", "year"), ("kg", "half"), ("kg", "coarse"))
AVERAGE_VIEWS = (("kg", "year"), ("g", "year"), ("kg", "half"))

RTOL = {"point": 1e-9, "average": 2e-6}

# all the ways in which the data of a timeseries object can be read
WAYS = (
    "asarray",
    "index",
    "iter",
    "slice",
    "mul",
    "radd",
    "ufunc",
    "reduce",
    "cmp",
    "neg",
    "repr",
    "two",
    "heldslice",
)


def numbers_of(ts, way, expected, rtol):
    """
    Read a timeseries object in a given way; list of numbers that have to be expected.
    """
    n = len(expected)
    if way == "asarray":
        return list(np.asarray(ts))
    if way == "index":
        return [ts[i] for i in range(n - 1)] + [ts[-1]]
    if way == "iter":
        return list(ts)
    if way == "slice":
        return list(np.asarray(ts[:2])) + list(ts[2:])
    if way == "mul":
        return list(np.asarray(ts * 2.0) / 2.0)
    if way == "radd":
        return list(np.asarray(0.0 + ts))
    if way == "ufunc":
        return list(np.asarray(np.add(ts, 0.0)))
    if way == "reduce":
        s = float(np.add.reduce(ts))
        if not close(s, sum(expected), rtol, rtol * max(abs(x) for x in expected) * n):
            return [s]
        return expected
    if way == "cmp":
        scale = max(abs(x) for x in expected)
        tol = max(rtol * scale, 1e-12)
        above = np.asarray(ts <= np.array(expected) + tol)
        below = np.asarray(ts >= np.array(expected) - tol)
        if above.all() and below.all() and above.shape == (n,):
            return expected
        return [0 if a and b else float("nan") for a, b in zip(above, below)]
    if way == "neg":
        return [-x for x in np.asarray(-ts)]
    if way == "repr":
        text = repr(ts)
        inner = text[text.index("[") + 1 : text.index("]")]
        vals = [float(x) for x in inner.split(",")]
        if all_close(vals, expected, 1e-5):
            return expected
        return vals
    if way == "two":
        return list(np.asarray(ts + ts) / 2.0)
    raise ValueError(way)


class System:
    def __init__(self, ctx, kind, specs, hold_slices=True):
        from openscm.core.parameterset import ParameterSet

        self.ctx = ctx
        self.kind = kind
        self.specs = specs
        self.ps = ParameterSet()
        self.ref = RefSet()
        self.views = {}
        self.rviews = {}
        self.held = {}
        self.heldslice = {}
        self.hold_slices = hold_slices
        self.log = []
        self.rtol = RTOL[kind]

    def fail(self, text, *args):
        raise Violation(
            "{} | history: {}".format(text.format(*args), " ; ".join(self.log))
        )

    def _new(self, k):
        unit, grid = self.specs[k]
        v = self.ps.timeseries(
            "Emissions|CO2", unit, to64(GRIDS[grid]), timeseries_type=self.kind
        )
        r = self.ref.request(
            self.kind, ("Emissions", "CO2"), unit=unit, grid=GRIDS[grid]
        )
        self.ctx.step()
        return v, r

    def view(self, k):
        if k not in self.views:
            self.views[k], self.rviews[k] = self._new(k)
        return self.views[k], self.rviews[k]

    def both(self, what, real, ref, compare=None):
        """Run an operation on both sides; outcomes have to agree."""
        self.log.append(what)
        self.ctx.step()
        try:
            expected = ("ok", ref())
        except RefError as e:
            expected = ("err", e.names)
        try:
            got = ("ok", real())
        except Exception as e:  # pylint: disable=broad-except
            if type(e).__name__ in ("CaseTimeout", "Violation"):
                raise
            got = ("err", type(e).__name__, str(e))
        if expected[0] == "err":
            if got[0] != "err":
                self.fail("{}: succeeded, expected {}", what, expected[1])
            if got[1] not in expected[1]:
                self.fail("{}: raised {}, expected {}", what, got[1:], expected[1])
            self.ctx.outcome(got[1])
            return None
        if got[0] == "err":
            self.fail("{}: raised {}", what, got[1:])
        self.ctx.outcome("ok")
        if compare is not None:
            compare(got[1], expected[1])
        return got[1]

    def same(self, what):
        def compare(got, expected):
            if not all_close(got, expected, self.rtol):
                self.fail("{}: got {}, expected {}", what, got, expected)

        return compare

    def pattern(self, k, integer=False):
        """Values to write, different at every step of a history."""
        n = self.rviews[k].n()
        s = len(self.log) + 1
        if integer:
            return np.array([7 * s + 2 * i * i for i in range(n)], dtype=int)
        return np.array([1.5 * s + ((i * 5 + s) % 7) * 0.75 for i in range(n)])

    def hold(self, k, ts):
        if k not in self.held:
            self.held[k] = ts
            if self.hold_slices:
                self.heldslice[k] = ts[1:3]
        return ts

    # -- operations -----------------------------------------------------------------
    def apply(self, op):
        name, k = op[0], op[1]
        v, r = self.view(k)
        what = "{}({})".format(name, ",".join(str(x) for x in op[1:]))
        c = 100.25 + 3.5 * len(self.log)
        if name == "touch":
            self.log.append(what)
        elif name in ("wf", "wi", "wl"):
            data = self.pattern(k, name == "wi")
            given = [float(x) for x in data] if name == "wl" else data

            def real():
                v.values = given
                if name != "wl":
                    data[:] = -999  # what was given is not to be referred to

            copy = [float(x) for x in data]
            self.both(what, real, lambda: r.write(copy))
        elif name == "el":  # element through a fresh timeseries object

            def real():
                ts = self.hold(k, v.values)
                ts[1] = c

            self.both(what, real, lambda: r.update(lambda d: d.__setitem__(1, c)))
        elif name == "hel":  # element through the held object

            def real():
                ts = self.held.get(k)
                if ts is None:
                    ts = self.hold(k, v.values)
                ts[-1] = c

            self.both(what, real, lambda: r.update(lambda d: d.__setitem__(-1, c)))
        elif name == "sl":

            def real():
                ts = self.held.get(k)
                if ts is None:
                    ts = self.hold(k, v.values)
                ts[0:2] = [c, c + 1]

            self.both(
                what,
                real,
                lambda: r.update(lambda d: d.__setitem__(slice(0, 2), [c, c + 1])),
            )
        elif name == "sle":  # element of a slice

            def real():
                ts = self.held.get(k)
                if ts is None:
                    ts = self.hold(k, v.values)
                ts[1:][0] = int(c)

            self.both(what, real, lambda: r.update(lambda d: d.__setitem__(1, int(c))))
        elif name == "io":  # in-place arithmetic on the held object

            def real():
                ts = self.held.get(k)
                if ts is None:
                    ts = self.hold(k, v.values)
                ts += 3

            def ref(d):
                d[:] = [x + 3 for x in d]

            self.both(what, real, lambda: r.update(ref))
        elif name == "out":

            def real():
                ts = self.held.get(k)
                if ts is None:
                    ts = self.hold(k, v.values)
                np.multiply(ts, 3, out=ts)

            def ref(d):
                d[:] = [x * 3 for x in d]

            self.both(what, real, lambda: r.update(ref))
        elif name == "at":  # unbuffered in-place operation

            def real():
                ts = self.held.get(k)
                if ts is None:
                    ts = self.hold(k, v.values)
                np.add.at(ts, [0, 0, 2], 3)

            def ref(d):
                d[0] += 6
                d[2] += 3

            self.both(what, real, lambda: r.update(ref))
        elif name == "msk":  # in-place arithmetic on some elements

            def real():
                v.values[np.array([i % 2 == 0 for i in range(r.n())])] += 2

            def ref(d):
                d[::2] = [x + 2 for x in d[::2]]

            self.both(what, real, lambda: r.update(ref))
        elif name == "where":

            def real():
                ts = self.hold(k, v.values)
                np.subtract(ts, 2, out=ts, where=np.array([i % 2 == 1 for i in range(r.n())]))

            def ref(d):
                d[1::2] = [x - 2 for x in d[1::2]]

            self.both(what, real, lambda: r.update(ref))
        elif name == "hout":  # the object held is only written to

            def real():
                ts = self.held.get(k)
                if ts is None:
                    ts = self.hold(k, v.values)
                np.add(np.arange(r.n()), 4, out=ts, where=np.array([i % 2 == 0 for i in range(r.n())]))

            def ref(d):
                d[::2] = [i + 4.0 for i in range(len(d))][::2]

            self.both(what, real, lambda: r.update(ref))
        elif name == "acc":

            def real():
                ts = self.hold(k, v.values)
                np.add.accumulate(ts, out=ts)

            def ref(d):
                d[:] = [sum(d[: i + 1]) for i in range(len(d))]

            self.both(what, real, lambda: r.update(ref))
        elif name == "arr":  # changing an array made of the values changes nothing

            def real():
                for a in (np.asarray(v.values), np.array(v.values), v.values + 0, +v.values):
                    np.asarray(a)[:] = c
                return list(np.asarray(self.hold(k, v.values)))

            self.both(what, real, r.values, self.same(what))
        elif name == "iv":  # in-place arithmetic on the property

            def real():
                v.values *= 2

            def ref(d):
                d[:] = [x * 2 for x in d]

            self.both(what, real, lambda: r.update(ref))
        elif name == "rev":  # own data as the source

            def real():
                v.values = v.values[::-1]

            def ref(d):
                d.reverse()

            self.both(what, real, lambda: r.update(ref))
        elif name == "cp":  # other view's timeseries object as the source
            j = op[2]
            v2, r2 = self.view(j)

            def real():
                v.values = v2.values

            self.both(what, real, lambda: r.write(r2.values()))
        elif name == "bad":  # wrong length

            def real():
                v.values = np.arange(r.n() + 1.0)

            self.both(what, real, lambda: r.write([0.0] * (r.n() + 1)))
        elif name == "r":

            def real():
                return list(np.asarray(self.hold(k, v.values)))

            self.both(what, real, r.values, self.same(what))
        elif name == "lock":
            self.both(what, v.lock, r.lock)
        elif name == "unlock":
            self.both(what, v.unlock, r.unlock)
        else:
            raise ValueError(op)
        self.ctx.state(
            self.kind,
            self.ref.key(),
            tuple((i, x.key()) for i, x in sorted(self.rviews.items())),
        )

    def read_all(self, way):
        """
        Read every view in the given way, through the object held if there is one.
        """
        for k in range(len(self.specs)):
            if k in self.views:
                v, r = self.views[k], self.rviews[k]
            else:
                try:
                    v, r = self.view(k)
                except Exception as e:  # pylint: disable=broad-except
                    self.fail("new view {}: raised {}", k, repr(e))
            self._read(k, v, r, way, self.held.get(k))
            # a fresh timeseries object, and a fresh view
            self._read(k, v, r, "asarray", None)
        for k in range(len(self.specs)):
            v, r = self._new(k)
            self._read("new {}".format(k), v, r, "index", None)
            u = v.unit, v.length
            if u != (self.specs[k][0], r.n()):
                self.fail("view {}: unit, length {}", k, u)
        self.check_info()

    def check_info(self):
        info = self.ps.info(("Emissions", "CO2"))
        got = (info.empty, info.unit)
        p = self.ref.find(("Emissions", "CO2"), ("World",))
        if got != (not p.written, p.unit):
            self.fail("info: {}, expected {}", got, (not p.written, p.unit))

    def _read(self, k, v, r, way, held):
        what = "read {} as {}{}".format(k, way, "" if held is None else " (held)")
        try:
            expected = r.values()
        except RefError as e:
            expected = e
        self.ctx.step()
        try:
            if isinstance(expected, RefError):
                got = list(np.asarray(v.values if held is None else held))
            elif way == "heldslice":
                hs = self.heldslice.get(k) if held is not None else None
                got = (
                    expected[:1] + list(np.asarray(hs)) + expected[3:]
                    if hs is not None
                    else list(v.values)
                )
            else:
                got = numbers_of(
                    v.values if held is None else held, way, expected, self.rtol
                )
        except Exception as e:  # pylint: disable=broad-except
            if type(e).__name__ in ("CaseTimeout", "Violation"):
                raise
            if isinstance(expected, RefError) and type(e).__name__ in expected.names:
                self.ctx.outcome(type(e).__name__)
                return
            self.fail("{}: raised {}, expected {}", what, repr(e), expected)
        if isinstance(expected, RefError):
            self.fail("{}: returned {}, expected {}", what, got, expected.names)
        if not all_close(got, expected, self.rtol):
            self.fail("{}: got {}, expected {}", what, got, expected)
