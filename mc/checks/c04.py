"""C04: a rejected request or write leaves no trace."""

import numpy as np

from ..engine import Violation
from ..psys import W, Real, same_value
from ..tsys import GRIDS
from ..util import seconds, sequences, to64

PROP = "C04"
ASSUMPTIONS = [
    "regions and the internal version counter are not observable through the public interface",
    "a write that is rejected when a locked view is unlocked discards what was written to that view (C06)",
]
BOUNDS = {
    "quick": "all histories of <=2 valid operations (13 operations on scalar, two views of a timeseries, parent with child, generic, lock/unlock) x 52 rejected calls inserted at every position (histories of <=1 operation also for 6 pairs of regions of the history and the rejected call) x 2 closing probe sequences (read first / add children and request other types first), compared with the same history without the rejected call",
    "thorough": "histories of <=3 operations",
}

SLOTS = {
    "S": ("scalar", ("X", "S"), "kg", None),
    "T1": ("point", ("X", "T"), "kg", "year"),
    "T2": ("point", ("X", "T"), "g", "half"),
    "C1": ("point", ("P", "c"), "kg", "year"),
    "P": ("point", ("P",), "g", "year"),
    "G": ("generic", ("G",), None, None),
}
OPS = (
    "req S",
    "w S",
    "req T1",
    "w T1",
    "w T2",
    "e T1",
    "lock T1",
    "unlock T1",
    "req C1",
    "w C1",
    "req P",
    "r P",
    "w G",
)

EARLY = tuple(seconds(y) for y in (1990, 1991, 1992))
WIDE = tuple(seconds(y) for y in (2000, 2011, 2012, 2020))
INNER = tuple(seconds(2011, m) for m in (1, 2, 3))
DOWN = tuple(seconds(y) for y in (2013, 2012, 2011))


def rejected_calls():
    """name -> function(real)"""
    calls = {}

    def add(name):
        def deco(f):
            calls[name] = f
            return f

        return deco

    def request(name, kind, path, unit="kg", grid=GRIDS["year"], region=None, **kwargs):
        def call(real, region=region):
            if region is None:
                region = real.away
            if kind == "scalar":
                return real.ps.scalar(path, unit, region=region)
            if kind == "generic":
                return real.ps.generic(path, region=region)
            return real.ps.timeseries(
                path, unit, to64(grid), region=region, timeseries_type=kind, **kwargs
            )

        calls[name] = call

    for path in ("N", "N|a", "P|n", "S", "X|S", "X|T", "P", "X"):
        request("unknown unit scalar " + path, "scalar", path, "nosuchunit")
        request("unknown unit point " + path, "point", path, "nosuchunit")
    for path in ("X|S", "X|T", "P|c", "P"):
        request("dimension scalar " + path, "scalar", path, "m")
        request("dimension point " + path, "point", path, "m")
        request("type scalar " + path, "scalar", path)
        request("type average " + path, "average", path)
        request("type generic " + path, "generic", path)
    request("type scalar G", "scalar", "G")
    request("aggregate X scalar", "scalar", "X")
    request("aggregate X point", "point", "X")
    request("aggregate X generic", "generic", "X")
    for path in ("P|c|n", "X|S|n|m", "G|n", "P|n"):
        request("child " + path, "scalar", path)
    for path in ("N|a", "P", "X|T", "X|S"):
        request("descending " + path, "point", path, grid=DOWN)
        request("one point " + path, "point", path, grid=(seconds(2011),))
        request("early " + path, "point", path, grid=EARLY)
        request("no points " + path, "point", path, grid=())
    request("wrong timeseries type", "points", "N|a")
    request("wrong extrapolation", "point", "N|a", extrapolation="cubic")
    request("wrong interpolation", "point", "N|a", interpolation="cubic")
    request("wrong root", "scalar", "N", region=("Earth",))
    request("no region", "point", "N", region=())
    request("no name", "scalar", ())

    def write(name, slot, value):
        def call(real):
            v = real.slots[slot]
            if real.kinds[slot] in ("scalar", "generic"):
                v.value = value
            else:
                v.values = value

        calls[name] = call

    write("scalar string", "S", "abc")
    write("scalar None", "S", None)
    write("scalar dict", "S", {})
    for slot in ("T1", "T2", "C1", "P"):
        n = len(GRIDS[SLOTS[slot][3]])
        write("too long " + slot, slot, np.arange(n + 1.0))
        write("too short " + slot, slot, [1.0] * (n - 1))
        write("strings " + slot, slot, np.array(["a"] * n))
        write("2d " + slot, slot, np.ones((n, 2)))
        write("None " + slot, slot, None)
        write("objects " + slot, slot, [None] * n)

        def element(real, slot=slot, n=n):
            real.slots[slot].values[n] = 1.0

        def string(real, slot=slot):
            real.slots[slot].values[0] = "abc"

        def ragged(real, slot=slot):
            real.slots[slot].values[0:2] = [1.0, 2.0, 3.0]

        def inplace(real, slot=slot, n=n):
            ts = real.slots[slot].values
            ts += np.ones(n + 1)

        calls["element " + slot] = element
        calls["element string " + slot] = string
        calls["slice " + slot] = ragged
        calls["in-place " + slot] = inplace
    write("parent", "P", np.ones(4))

    @add("parent element")
    def _(real):
        real.slots["P"].values[0] = 5.0

    @add("parent in-place")
    def _(real):
        ts = real.slots["P"].values
        ts *= 3.0

    def uncovered(name, grid, slot, element):
        """A view that exists but whose time range does not fit for writing."""

        def call(real):
            if slot not in real.slots:
                raise KeyError
            kind, path, unit, _ = SLOTS[slot]
            v = real.ps.timeseries(path, unit, to64(grid), region=real.home, timeseries_type=kind)
            if element == "lock":
                v.lock()
                v.values = np.arange(1.0, len(grid) + 1)
                v.unlock()
            elif element:
                v.values[0] = 77.0
            else:
                v.values = np.arange(1.0, len(grid) + 1)

        calls[name] = call

    for slot in ("T1", "C1", "P"):
        uncovered("not covered " + slot, INNER, slot, False)
        uncovered("not covered element " + slot, INNER, slot, True)
        uncovered("not covered locked " + slot, INNER, slot, "lock")
        uncovered("not covered read " + slot, WIDE, slot, True)

    @add("read empty")
    def _(real):
        for slot in ("S", "T1", "T2", "C1", "P", "G"):
            if slot in real.slots and real.slots[slot].empty and slot != "P":
                v = real.slots[slot]
                return v.value if slot in "SG" else v.values
        return None

    @add("ensure")
    def _(real):
        for path in ("X|S", "X|T", "P|c", "P", "G"):
            i = real.ps.info(path)
            if i is not None:
                i.ensure()

    return calls


CALLS = None


def calls():
    global CALLS  # pylint: disable=global-statement
    if CALLS is None:
        CALLS = rejected_calls()
    return CALLS


PATHS = ("X", "X|S", "X|T", "P", "P|c", "G", "N", "N|a", "P|n", "S", "P|c|n", "G|n", "X|S|n")


def probe(real, which):
    out = []

    def do(*op):
        out.append((op, real.do(op)))

    def infos():
        for region in dict.fromkeys((real.home, real.away)):
            for path in PATHS:
                do("info", tuple(path.split("|")), region)

    def reads():
        for slot in SLOTS:
            if slot in real.slots:
                do("r", slot)

    if which == 0:
        infos()
        reads()
        for slot in ("T1", "T2"):
            if slot in real.slots:
                do("unlock", slot)
        reads()
        for n, slot in enumerate(SLOTS):
            kind, path, unit, grid = SLOTS[slot]
            do("req", slot + "'", kind, path, real.away, unit, grid)
            if slot + "'" in real.slots:
                do("r", slot + "'")
                do("w", slot + "'", 30 + n)
        reads()
        infos()
    else:
        for path in ("N", "N|a", "P|n", "X|n", "P|c|n", "X|S|n", "X|T|n", "G|n"):
            do("req", path, "scalar", tuple(path.split("|")), real.away, "kg", None)
        for path, kind in (("P", "point"), ("P", "scalar"), ("X", "average"), ("G", "generic")):
            do("req", "q" + path + kind, kind, (path,), real.home, "t", "year")
            if real.away != real.home:
                do("req", "a" + path + kind, kind, (path,), real.away, "t", "year")
        for n, slot in enumerate(("S", "T1", "C1")):
            if slot in real.slots:
                do("w", slot, 40 + n)
        reads()
        infos()
    return out


def cases(tier):
    names = list(rejected_calls())
    for d in range(0, 4 if tier == "thorough" else 3):
        for h in sequences(OPS, d):
            if any(
                o.split(" ")[0] in ("e", "lock", "unlock") and i == 0
                for i, o in enumerate(h)
            ):
                continue  # needs a view to exist
            for position in range(len(h) + 1):
                for regions in REGIONS:
                    if d < 2 or regions == REGIONS[0]:
                        yield (h, position, tuple(names), regions)


# regions of the history and of the rejected requests
A, AB = ("World", "A"), ("World", "A", "B")
REGIONS = ((W, W), (W, A), (W, AB), (A, A), (A, W), (AB, AB), (AB, A))


def apply(real, op, n, out):
    what, slot = op.split(" ")
    if slot not in real.slots:
        if what in ("e", "lock", "unlock"):
            return
        kind, path, unit, grid = SLOTS[slot]
        out.append((op, real.do(("req", slot, kind, path, real.home, unit, grid))))
        if slot not in real.slots:
            return
    if what in ("w", "e"):
        out.append((op, real.do((what, slot, n))))
    elif what != "req":
        out.append((op, real.do((what, slot))))


def execute(ctx, history, position, call, which, regions):
    """None if the call is not rejected there."""
    real = Real(ctx)
    real.home, real.away = regions
    out = []
    error = None
    for n in range(len(history) + 1):
        if n == position and call is not None:
            ctx.step()
            try:
                call(real)
            except KeyError:
                return None, None  # no such view yet
            except Exception as e:  # pylint: disable=broad-except
                if type(e).__name__ in ("CaseTimeout", "Violation"):
                    raise
                error = type(e).__name__
            else:
                return None, None  # a valid call at this position
        if n < len(history):
            apply(real, history[n], n + 1, out)
    out.extend(probe(real, which))
    return out, error


_BASE = {}


def run(case, ctx):
    history, position, names, regions = case
    table = calls()
    for which in (0, 1):
        if (history, which, regions) not in _BASE:
            if len(_BASE) > 50:
                _BASE.clear()
            _BASE[history, which, regions] = execute(ctx, history, None, None, which, regions)[0]
        base = _BASE[history, which, regions]
        for name in names:
            out, error = execute(ctx, history, position, table[name], which, regions)
            if out is None:
                ctx.outcome("not rejected")
                if which == 0:
                    names = tuple(n for n in names if n != name)
                continue
            ctx.trace()
            ctx.outcome(error)
            ctx.state(history, position, name, regions)
            ctx.sample(history=history, position=position, rejected=name, error=error)
            for (op, expected), (op2, got) in zip(base, out):
                if op != op2:
                    raise Violation("harness: operations differ")
                if (
                    expected[0] != got[0]
                    or (got[0] == "err" and got[1] != expected[1])
                    or (got[0] == "ok" and not same_value(got[1], expected[1], 1e-12))
                ):
                    key = None
                    if "generic" in name and error == "ParameterAggregationError":
                        key = "generic-on-parent"
                    ctx.report(
                        "after rejected '{}' ({}) at position {} of {}: {} gives {}, "
                        "without it {}".format(
                            name, error, position, history, op, got, expected
                        ),
                        key,
                    )
                    break
