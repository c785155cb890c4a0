"""C01: every view of a parameter shows the latest write."""

import itertools

from ..engine import Violation
from ..refps import RefError, RefSet
from ..tsys import AVERAGE_VIEWS, POINT_VIEWS, WAYS, System
from ..util import close, sequences

PROP = "C01"
ASSUMPTIONS = [
    "storage of a parameter is on the time points and unit of the first view on it",
    "single-threaded use (openscm has no concurrency)",
    "numpy slices held of an integer buffer are not followed by float writes (numpy truncates)",
]

# scalar units, incl. offset units
SCALAR_UNITS = ("K", "degC", "degF")

BOUNDS = {
    "quick": "point: all histories of <=3 operations over 3 views (2 units, 2 grids; the full operation alphabet) x 13 ways of reading, 4 operations over the core alphabet; with a 4th (coarse) view: 3 core operations; average: all histories of <=3 operations x 4 ways; scalar: 5 operations over 3 units; generic: 4 operations over 2 views and all pairs of 14 values that equal one another; all sequences of 3 writes of 8 almost equal values; up to 65536 writes between two reads; numpy functions with two outputs into views, arrays or nothing; 4 operations incl. lock and unlock on 2 views; <=3 operations with further ways of writing (ufunc.at, masks, where=, accumulate)",
    "thorough": "point: as quick with 4 operations of the full alphabet x 3 ways, 5 of the core alphabet; average: 4 operations; scalar: 6 operations",
}

FULL = ("touch", "wf", "wi", "wl", "el", "hel", "sl", "sle", "io", "out", "iv", "rev", "r")
CORE = ("wf", "hel", "io", "r")
MORE = ("wi", "at", "msk", "where", "acc", "arr", "hout")
# the two outputs of a numpy function: new, an array, or view i of parameter X or Y
OUTS = (None, "array", "X0", "X1", "Y0", "Y1", "Z0")


def _alphabet(names, views):
    return [(n, k) for n in names for k in views]


def cases(tier):
    thorough = tier == "thorough"
    full = _alphabet(FULL, (0, 1, 2)) + [("cp", 0, 1), ("cp", 1, 0)]
    core = _alphabet(CORE, (0, 1, 2))
    core4 = _alphabet(CORE, (0, 1, 2, 3))
    avg = _alphabet(("wf", "el", "io", "r"), (0, 1, 2))
    for d in (1, 2):
        for h in sequences(full, d):
            yield ("point", 3, h, WAYS)
    # further ways of writing
    more = _alphabet(MORE, (0, 1, 2))
    for d in (1, 2, 3):
        for h in sequences(more + core, d):
            if any(op in more for op in h) and (d < 3 or h[0][0] in ("wf", "wi")):
                yield ("point", 3, h, WAYS if d < 3 else ("asarray", "index"))
    # objects held while other views are written
    for h in sequences(core, 1):
        for op in ("at", "hout", "hel"):
            for k in (0, 1, 2):
                yield ("point", 3, (("wf", 0), ("hout", k)) + h + ((op, k),), ("asarray", "index"))
    # views that are locked without having been written to
    lock = _alphabet(("lock", "unlock", "wf", "hel", "r"), (0, 1))
    for h in sequences(lock, 4):
        if h[0] == ("wf", 0):
            yield ("point", 3, h, ("asarray", "index"))
    for h in sequences(lock, 3):
        yield ("average", 3, (("wf", 0),) + h, ("index",)) if h[0][0] == "lock" else ("point", 3, h, ("mul",))
    for names in itertools.product(OUTS, repeat=2):
        for held in (False, True):
            yield ("outs", names, held, ())
    for h in sequences(full, 3):
        if h[0][0] == "wf" and h[1][0] == "r":
            # write, hold, anything: read in every way
            yield ("point", 3, h, WAYS)
        elif h[0][0] in ("wf", "wi", "touch"):
            # the first operation has to create data or a view
            yield ("point", 3, h, ("asarray", "index"))
    for h in sequences(core4, 3):
        yield ("point", 4, h, ("asarray", "index"))
    for h in sequences(core, 4):
        if h[0][0] == "wf":
            yield ("point", 3, h, ("asarray", "index", "iter"))
    for d in (1, 2, 3):
        for h in sequences(avg, d):
            yield ("average", 3, h, ("asarray", "index", "mul", "slice"))
    sc = [(n, k) for n in ("wf", "wi", "r") for k in range(3)]
    for d in range(1, 7 if thorough else 6):
        for h in sequences(sc, d):
            yield ("scalar", 3, h, ())
    ge = [("w", k, i) for k in range(2) for i in range(4)] + [("r", 0), ("r", 1)]
    for d in range(1, 5):
        for h in sequences(ge, d):
            yield ("generic", 2, h, ())
    # values that equal each other
    for h in sequences([("w", k, i) for k in range(2) for i in range(len(GENERIC))], 2):
        for end in ((), (("r", 0),), (("r", 1),)):
            yield ("generic", 2, h[:1] + end + h[1:], ())
    for what in ("point", "average", "scalar"):
        for h in sequences(range(len(CLOSE)), 3):
            yield ("close", what, h, ())
        for n in (2, 127, 128, 255, 256, 257, 32768, 65535, 65536):
            if n < 1000 or what == "scalar" or thorough:
                yield ("many", what, n, ())
    if thorough:
        for h in sequences(full, 4):
            if h[0][0] in ("wf", "wi", "touch"):
                yield ("point", 3, h, ("asarray", "index", "iter"))
        for h in sequences(core, 5):
            if h[0][0] == "wf":
                yield ("point", 3, h, ("asarray", "slice"))
        for h in sequences(avg, 4):
            if h[0][0] == "wf":
                yield ("average", 3, h, ("asarray",))


def run(case, ctx):
    kind, nviews, history, ways = case
    if kind == "scalar":
        return run_scalar(history, ctx)
    if kind == "generic":
        return run_generic(history, ctx)
    if kind == "close":
        return run_close(nviews, history, ctx)
    if kind == "many":
        return run_many(nviews, history, ctx)
    if kind == "outs":
        return run_outs(nviews, history, ctx)
    specs = (POINT_VIEWS if kind == "point" else AVERAGE_VIEWS)[:nviews]
    has_int = any(op[0] == "wi" for op in history)
    for way in ways:
        if way == "heldslice" and has_int:
            continue
        s = System(ctx, kind, specs, hold_slices=not has_int)
        for op in history:
            s.apply(op)
        s.read_all(way)
        ctx.trace()
        ctx.sample(history=s.log, way=way)


def run_scalar(history, ctx):
    import numpy as np
    from openscm.core.parameterset import ParameterSet

    ps, ref = ParameterSet(), RefSet()
    views = {}

    def view(k):
        if k not in views:
            u = SCALAR_UNITS[k]
            views[k] = (
                ps.scalar(("Climate", "T"), u),
                ref.request("scalar", ("Climate", "T"), unit=u),
            )
        return views[k]

    def read(v, r, what):
        ctx.step()
        try:
            expected = r.get()
        except RefError as e:
            expected = e
        try:
            got = v.value
        except Exception as e:  # pylint: disable=broad-except
            if isinstance(expected, RefError) and type(e).__name__ in expected.names:
                ctx.outcome(type(e).__name__)
                return
            raise Violation("{}: raised {!r}, history {}".format(what, e, history))
        if isinstance(expected, RefError) or not close(got, expected, 1e-9, 1e-9):
            raise Violation(
                "{}: {!r}, expected {!r}, history {}".format(what, got, expected, history)
            )
        ctx.outcome("value")

    for i, op in enumerate(history):
        v, r = view(op[1])
        if op[0] == "r":
            read(v, r, "read {}".format(op[1]))
        else:
            x = 250.5 + 10 * i if op[0] == "wf" else 300 + i
            v.value = np.float64(x) if op[0] == "wf" and i % 2 else x
            r.set(x)
            ctx.step()
        ctx.state("scalar", ref.key(), tuple(sorted(views)))
    for k in range(3):
        v, r = view(k)
        read(v, r, "final read {}".format(k))
    for u in SCALAR_UNITS:
        read(
            ps.scalar("Climate|T", u),
            ref.request("scalar", ("Climate", "T"), unit=u),
            "new view " + u,
        )
    ctx.trace()


# factors and offsets of successive writes
CLOSE = ((1.0, 0.0), (1.0 + 1e-6, 0.0), (1e-9, 0.0), (2e-9, 0.0), (1.0, 1e-9), (1e9, 0.0), (1e9 + 1, 0.0), (-1e-9, 0.0))


def _close_views(what):
    from openscm.core.parameterset import ParameterSet
    from ..tsys import GRIDS, to64

    ps = ParameterSet()
    if what == "scalar":
        make = lambda: ps.scalar("X", "kg")
        base = 0.5
    else:
        make = lambda: ps.timeseries("X", "kg", to64(GRIDS["year"]), timeseries_type=what)
        n = len(GRIDS["year"]) - (what == "average")
        base = [0.5 + ((3 * i) % 4) for i in range(n)]
    return make, base


def _close_write(view, what, values):
    import numpy as np

    if what == "scalar":
        view.value = values
    else:
        view.values = np.array(values)


def _close_read(view, what, values, text, ctx):
    ctx.step()
    got = [view.value] if what == "scalar" else list(view.values)
    exp = [values] if what == "scalar" else values
    if len(got) != len(exp) or any(abs(g - e) > 1e-9 * abs(e) + 1e-15 for g, e in zip(got, exp)):
        raise Violation("{}: {}, expected {}".format(text, got, exp))
    ctx.outcome("value")


def run_close(what, history, ctx):
    """Successive writes of almost the same values."""
    for order in itertools.product((0, 1), repeat=len(history)):
        make, base = _close_views(what)
        views = [make(), make()]
        for i, (k, j) in enumerate(zip(history, order)):
            f, o = CLOSE[k]
            values = base * f + o if what == "scalar" else [b * f + o for b in base]
            _close_write(views[j], what, values)
            for view in views + [make()]:
                _close_read(view, what, values, "{} {} {}: write {}".format(what, history, order, i), ctx)
        ctx.state("close", what, history, order)
        ctx.trace()


def run_outs(names, held, ctx):
    """Functions with two outputs"""
    import numpy as np
    from openscm.core.parameterset import ParameterSet
    from ..tsys import GRIDS, to64

    given = np.array([1.25, -2.5, 3.75, 4.125])
    for function, args in (
        (np.modf, (given,)),
        (np.divmod, (given, 0.75)),
        (np.frexp, (given,)),
    ):
        ps = ParameterSet()
        views = {
            x + str(i): ps.timeseries(x, "kg", to64(GRIDS["year"]))
            for x in "XYZ"
            for i in range(2)
        }
        data = {"X": [1.0, 2.0, 3.0, 4.0], "Y": [9.0, 8.0, 7.0, 6.0], "Z": [0.0] * 4}
        for x in data:
            views[x + "0"].values = np.array(data[x])
        objects = {k: v.values for k, v in views.items()}
        array = np.full(4, -1.0)
        out = tuple(
            None if n is None else array if n == "array" else objects[n] if held else views[n].values
            for n in names
        )
        if names[0] is not None and names[0] == names[1]:
            continue  # the order of numpy's writing is not specified
        expected = [[float(x) for x in y] for y in function(*args)]
        ctx.step()
        res = function(*args, out=out, casting="unsafe")
        for n, o, r, e in zip(names, out, res, expected):
            if n == "array" and array.tolist() != e:
                raise Violation("{} {}: array {}".format(function, names, array))
            if n is not None and n != "array":
                data[n[0]] = e
            if n is None and np.asarray(r).tolist() != e:
                raise Violation("{} {}: result {}".format(function, names, r))
            if o is not None and n != "array" and r is not o:
                raise Violation("{} {}: result is not the output".format(function, names))
        for k, v in views.items():
            for ts in (v.values, objects[k]):
                ctx.step()
                if [float(x) for x in ts] != data[k[0]]:
                    raise Violation(
                        "{} with outputs {}: view {} shows {}, expected {}".format(
                            function.__name__, names, k, list(ts), data[k[0]]
                        )
                    )
        ctx.state("outs", function.__name__, names, held)
        ctx.outcome("value")
        ctx.trace()


def run_many(what, n, ctx):
    """Many writes between two reads."""
    for reading in (False, True):
        make, base = _close_views(what)
        a, b = make(), make()
        late = lambda i: base + i if what == "scalar" else [x + i for x in base]
        _close_write(a, what, late(0))
        _close_read(b, what, late(0), "first", ctx)
        for i in range(1, n + 1):
            _close_write(b if reading and i == n else a, what, late(i))
            ctx.step()
        for view in (a, b, make()):
            _close_read(view, what, late(n), "{} writes to {}".format(n, what), ctx)
        ctx.state("many", what, n, reading)
        ctx.trace()


GENERIC = ("text", None, False, ("a", 1), 1, True, 1.0, 0, 0.0, "", "1", 1 + 1e-12, [], ())


def run_generic(history, ctx):
    from openscm.core.parameterset import ParameterSet

    ps = ParameterSet()
    views = {}
    data = []
    for i, op in enumerate(history):
        k = op[1]
        if k not in views:
            views[k] = ps.generic("G")
        if op[0] == "w":
            value = [GENERIC[op[2]], i] if op[2] == 3 else GENERIC[op[2]]
            views[k].value = value
            data = [value]
        else:
            _generic_read(views[k], data, history)
        ctx.step()
        ctx.state("generic", repr(data), tuple(sorted(views)))
    for v in itertools.chain(views.values(), [ps.generic(("G",))]):
        _generic_read(v, data, history)
        ctx.step()
    ctx.trace()


def _generic_read(view, data, history):
    try:
        got = view.value
    except Exception as e:  # pylint: disable=broad-except
        if not data and type(e).__name__ == "ParameterEmptyError":
            return
        raise Violation("generic read raised {!r}, history {}".format(e, history))
    if not data or got != data[0] or type(got) is not type(data[0]):
        raise Violation("generic read {!r}, expected {}, {}".format(got, data, history))
