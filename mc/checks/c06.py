"""C06: lock batches writes and unlock publishes them all."""

import numpy as np

from ..engine import Violation
from ..refps import RefError, RefSet
from ..tsys import GRIDS, System
from ..util import all_close, sequences, to64
from .c01 import CLOSE, _close_read, _close_views, _close_write

PROP = "C06"
ASSUMPTIONS = [
    "a rejected unlock (time range not covered) discards the unpublished data",
    "when two locked views are unlocked the one unlocked last wins (whole series are published)",
]
BOUNDS = {
    "quick": "point: all histories of <=4 operations (lock, unlock, whole/list/element/in-place/wrong-length write, read) over 2 views of different unit and grid, 5 operations over the core alphabet; one view that is not covered by the storage grid: 4 operations; average: 3 operations; read-only parent with a child: 5 operations; all triples of 8 almost equal locked writes; up to 1000 locked writes and 128 locked views",
    "thorough": "point: 6 core operations, average 4, parent 6",
}

SPECS = {
    "main": (("kg", "year"), ("g", "half")),
    "same": (("kg", "year"), ("kg", "year")),
    "late": (("kg", "year"), ("g", "late")),
}
FULL = ("lock", "unlock", "wf", "wl", "el", "hel", "io", "bad", "r")
CORE = ("lock", "unlock", "wf", "hel", "r")


def cases(tier):
    thorough = tier == "thorough"
    full = [(n, k) for n in FULL for k in (0, 1)]
    core = [(n, k) for n in CORE for k in (0, 1)]
    parent = ["lock", "unlock", "wp", "ep", "r", "wc", "rc"]
    for d in (1, 2, 3):
        for h in sequences(full, d):
            yield ("point", "main", h)
            yield ("point", "same", h)
    for h in sequences(core, 4):
        yield ("point", "late", h)
        yield ("point", "same", h)
    for h in sequences(full, 4):
        if h[0][0] in ("lock", "wf"):
            yield ("point", "main", h)
    for h in sequences(core, 5):
        if h[0][0] in ("lock", "wf"):
            yield ("point", "main", h)
    for d in (1, 2, 3):
        for h in sequences(core, d):
            yield ("average", "main", h)
    for d in range(1, 7 if thorough else 6):
        for h in sequences(parent, d):
            yield ("parent", "", h)
    for what in ("point", "average"):
        for h in sequences(range(len(CLOSE)), 3):
            yield ("close", what, h)
        for n in (2, 127, 128, 256, 1000):
            yield ("many", what, n)
    if thorough:
        for h in sequences(core, 6):
            if h[0][0] in ("lock", "wf"):
                yield ("point", "main", h)
        for h in sequences(core, 4):
            yield ("average", "main", h)


def run(case, ctx):
    kind, specs, history = case
    if kind == "parent":
        return run_parent(history, ctx)
    if kind == "close":
        return run_close(specs, history, ctx)
    if kind == "many":
        return run_many(specs, history, ctx)
    s = System(ctx, kind, SPECS[specs], hold_slices=False)
    for op in history:
        s.apply(op)
    s.read_all("index")
    ctx.trace()
    ctx.sample(history=s.log)


def run_close(what, history, ctx):
    """Locked writes of almost the same values: first one, then a second and third."""
    for elements in (False, True):
        make, base = _close_views(what)
        a, b = make(), make()
        data = [[x * f + o for x in base] for f, o in (CLOSE[k] for k in history)]
        _close_write(a, what, data[0])
        held = a.values
        _close_read(b, what, data[0], "first write", ctx)
        a.lock()
        for values in data[1:]:
            if elements:
                for i, x in enumerate(values):
                    held[i] = x
            else:
                _close_write(a, what, values)
            _close_read(a, what, values, "{} {}: locked write".format(what, history), ctx)
            for v in (b, make()):
                _close_read(v, what, data[0], "{} {}: other view".format(what, history), ctx)
        a.unlock()
        for v in (a, b, make()):
            _close_read(v, what, data[2], "{} {}: unlocked".format(what, history), ctx)
        _close_write(a, what, data[1])
        for v in (a, b, make()):
            _close_read(v, what, data[1], "{} {}: after".format(what, history), ctx)
        ctx.state("close", what, history, elements)
        ctx.trace()


def run_many(what, n, ctx):
    """Many locked writes, by n views of n parameters that are all locked."""
    make, base = _close_views(what)
    a, b = make(), make()
    value = lambda i: [x + i for x in base]
    _close_write(b, what, value(0))
    a.lock()
    for i in range(1, n + 1):
        _close_write(a, what, value(i))
        ctx.step()
    _close_read(b, what, value(0), "{} locked writes".format(n), ctx)
    a.unlock()
    _close_read(b, what, value(n), "{} locked writes, unlocked".format(n), ctx)

    from openscm.core.parameterset import ParameterSet

    ps = ParameterSet()
    views = {
        (i, j): ps.timeseries(("P", str(i)), "kg", to64(GRIDS["year"]), timeseries_type=what)
        for i in range(min(n, 128))
        for j in range(2)
    }
    k = len(views) // 2
    for i in range(k):
        _close_write(views[i, 0], what, value(i))
        views[i, 0].lock()
    for i in range(k):
        _close_write(views[i, 0], what, value(-i))
    for i in range(k):
        for j in range(k):
            shown = value(-j) if j < i else value(j)
            if abs(i - j) < 3:
                _close_read(views[j, 1], what, shown, "{} of {} unlocked: parameter {}".format(i, k, j), ctx)
            _close_read(views[j, 0], what, value(-j), "{} of {} unlocked: locked {}".format(i, k, j), ctx)
        views[i, 0].unlock()
    for j in range(k):
        _close_read(views[j, 1], what, value(-j), "all {} unlocked: parameter {}".format(k, j), ctx)
    ctx.state("many", what, n)
    ctx.trace()


def run_parent(history, ctx):
    from openscm.core.parameterset import ParameterSet

    ps, ref = ParameterSet(), RefSet()
    g = GRIDS["year"]
    child = ps.timeseries("A|B", "kg", to64(g))
    rchild = ref.request("point", ("A", "B"), unit="kg", grid=g)
    other = ps.timeseries("A|C", "kg", to64(g))
    rother = ref.request("point", ("A", "C"), unit="kg", grid=g)
    other.values = [1.0, 2.0, 4.0, 8.0]
    rother.write([1.0, 2.0, 4.0, 8.0])
    parent = ps.timeseries("A", "g", to64(g))
    rparent = ref.request("point", ("A",), unit="g", grid=g)
    log = []

    def both(what, real, rf):
        log.append(what)
        ctx.step()
        try:
            expected = rf()
        except RefError as e:
            expected = e
        try:
            got = real()
        except Exception as e:  # pylint: disable=broad-except
            if isinstance(expected, RefError) and type(e).__name__ in expected.names:
                ctx.outcome(type(e).__name__)
                return
            raise Violation("{}: raised {!r} | {}".format(what, e, log))
        if isinstance(expected, RefError):
            raise Violation("{}: succeeded, expected {} | {}".format(what, expected.names, log))
        if expected is not None and not all_close(got, expected):
            raise Violation("{}: {} expected {} | {}".format(what, got, expected, log))
        ctx.outcome("ok")

    def setv(v, data):
        v.values = data

    def sete(v):
        v.values[0] = 1.0

    for i, op in enumerate(history):
        data = [10.0 * i + j for j in range(4)]
        if op == "lock":
            both(op, parent.lock, rparent.lock)
        elif op == "unlock":
            both(op, parent.unlock, rparent.unlock)
        elif op == "wp":
            both(op, lambda: setv(parent, data), lambda: rparent.write(data))
        elif op == "ep":
            both(
                op,
                lambda: sete(parent),
                lambda: (rparent.values(), rparent.update(None))[1],
            )
        elif op == "wc":
            both(op, lambda: setv(child, np.array(data)), lambda: rchild.write(data))
        elif op == "r":
            both(op, lambda: list(parent.values), rparent.values)
        elif op == "rc":
            both(op, lambda: list(child.values), rchild.values)
        ctx.state("parent", ref.key(), rparent.locked, rparent.modified)
    both("final parent", lambda: list(parent.values), rparent.values)
    both("final child", lambda: list(child.values), rchild.values)
    if ps.info("A").empty is not True or ps.info("A|B").empty is rchild.param.written:
        raise Violation("info after {}".format(log))
    ctx.trace()
