"""C09: data is never invented outside the covered time range."""

import itertools

import numpy as np

from .. import ref_time
from ..engine import Violation
from ..util import all_close, attempt, seconds, to64
from .c07 import converter

PROP = "C09"
ASSUMPTIONS = [
    "ascending grids; a target grid does not end before the source begins",
]
BOUNDS = {
    "quick": "4 source grids of 5 points and 3 of 61 to 251 x all combinations of start/end offsets of the target (0, +-1 s, +-1 min, +-1 day, +-1 year on each side) x 3 inner target layouts x point/average x 3 extrapolation types x both directions, through the converter, a parameter set view (read and write) and ScmDataFrame.interpolate; 0-4 values; all type/interpolation/extrapolation names of a list of valid and invalid spellings at every entry point",
    "thorough": "8 source grids, 5 inner layouts",
}

SOURCES = (
    tuple(seconds(y) for y in (2000, 2001, 2002, 2003, 2004)),
    (
        seconds(1969, 12, 31, 23, 59, 58),
        seconds(1970),
        seconds(1970, 1, 1, 0, 0, 5),
        seconds(1970, 1, 2),
        seconds(1990),
    ),
    tuple(seconds(y) for y in (1, 1000, 1001, 3000, 9000)),
    tuple(seconds(2015, m, 1) for m in (1, 2, 3, 4, 5)),
    tuple(seconds(2015, 1, 1, h) for h in (0, 1, 2, 5, 9)),
    tuple(seconds(y) for y in (2000, 2010, 2020, 2050, 2100)),
    tuple(seconds(2016, 2, d) for d in (27, 28, 29, 1)[:3]) + (seconds(2016, 3, 1), seconds(2017)),
    (0, 1, 2, 3, 4),
)
OFFSETS = (0, 1, -1, 60, -60, 86400, -86400, 365 * 86400, -365 * 86400)
NAMES = (
    "none",
    "constant",
    "linear",
    "NONE",
    "Linear",
    "cubic",
    "",
    "nearest",
    "average",
    "point",
    "Average",
    "POINT",
    "AVERAGE_TIMESERIES",
    "scalar",
    "generic",
    "points",
    None,
    1,
)


#: grids of many points
LONG = (
    tuple(seconds(2000 + i // 12, i % 12 + 1) for i in range(61)),
    tuple(seconds(1850 + i) for i in range(251)),
    tuple(seconds(2001, 1, 1) + 7200 * i + i * i for i in range(150)),
)


def cases(tier):
    thorough = tier == "thorough"
    for s in range(len(LONG)):
        for lo, hi in itertools.product((0, 1, -1, 365 * 86400, -365 * 86400), repeat=2):
            for layout in (0, 1, 2):
                yield ("range", 100 + s, lo, hi, layout)
    for s in range(8 if thorough else 4):
        for lo, hi in itertools.product(OFFSETS, repeat=2):
            for layout in range(5 if thorough else 3):
                yield ("range", s, lo, hi, layout)
    for kind in ("point", "average"):
        for n in range(0, 6):
            yield ("short", kind, n)
    for which in ("timeseries_type", "interpolation", "extrapolation"):
        for name in NAMES:
            yield ("name", which, name)


def layout_of(source, lo, hi, layout):
    a, b = source[0] + lo, source[-1] + hi
    inner = {
        0: source[1:-1],
        1: (source[1] + 1, source[-2] - 1),
        2: (),
        3: (source[1],),
        4: (source[0] + 1, source[0] + 2, source[-1] - 2, source[-1] - 1),
    }[layout]
    return (a,) + tuple(t for t in sorted(set(inner)) if a < t < b) + (b,)


def run(case, ctx):
    if case[0] == "range":
        run_range(case, ctx)
    elif case[0] == "short":
        run_short(case, ctx)
    else:
        run_name(case, ctx)
    ctx.trace()


def judge(ctx, what, fun, expected):
    """expected: list of values or None if it has to be refused."""
    ctx.step()
    got = attempt(fun)
    if expected is None:
        if got != ("err", "InsufficientDataError"):
            raise Violation("{}: expected InsufficientDataError, got {}".format(what, got))
        ctx.outcome("refused")
        return
    if got[0] == "err" or not all_close(got[1], expected, 1e-7):
        raise Violation("{}: got {}, expected {}".format(what, got, expected))
    ctx.outcome("converted")


def reference(values, source, target, kind, extrapolation):
    try:
        return ref_time.convert(values, source, target, kind, extrapolation)
    except ref_time.Insufficient:
        return None


def run_range(case, ctx):
    from openscm.core.parameterset import ParameterSet

    _, s, lo, hi, layout = case
    source = SOURCES[s] if s < 100 else LONG[s - 100]
    target = layout_of(source, lo, hi, layout)
    if sorted(set(target)) != list(target) or len(target) < 2 or source[0] > target[1]:
        return
    ctx.state(source, target)
    for kind in ("point", "average"):
        n = ref_time.length(source, kind)
        m = ref_time.length(target, kind)
        if m < 1:
            continue
        values = ([3.0, 8.0, -2.0, 5.0, 11.0] * 60)[:n]
        tvalues = ([4.0, -1.0, 6.5, 2.0, 9.0, 3.0, 7.0] * 60)[:m]
        for extrapolation in ("none", "constant", "linear"):
            what = "{} {} {} -> {}".format(kind, extrapolation, source, target)
            conv = converter(to64(source), to64(target), kind, extrapolation)
            expected = reference(values, source, target, kind, extrapolation)
            back = reference(tvalues, target, source, kind, extrapolation)
            judge(ctx, what, lambda: conv.convert_from(np.array(values)), expected)
            judge(
                ctx, what + " (to)", lambda: conv.convert_to(np.array(tvalues)), back
            )
            ps = ParameterSet()
            v1 = ps.timeseries("X", "kg", to64(source), timeseries_type=kind)
            v1.values = np.array(values)
            v2 = ps.timeseries(
                "X",
                "kg",
                to64(target),
                timeseries_type=kind,
                extrapolation=extrapolation,
            )
            judge(ctx, what + " (view)", lambda: [float(x) for x in v2.values], expected)

            def write():
                v2.values = np.array(tvalues)
                return [float(x) for x in v1.values]

            judge(ctx, what + " (view write)", write, back)
            if expected is not None and layout == 0 and abs(lo) != 60:
                frame(ctx, what, kind, extrapolation, source, values, target, expected)
            elif expected is None and layout == 0:
                frame(ctx, what, kind, extrapolation, source, values, target, None)
    ctx.sample(source=source, target=target)


def frame(ctx, what, kind, extrapolation, source, values, target, expected):
    import datetime as dt

    from openscm.scmdataframe import ScmDataFrame

    if kind == "average":
        # a frame holds one value per time point
        return
    if target[0] < seconds(1) or target[-1] > seconds(9999, 12, 31):
        return  # frames hold datetime objects
    times = [dt.datetime(1970, 1, 1) + dt.timedelta(seconds=t) for t in source]
    df = ScmDataFrame(
        np.array(values),
        index=times,
        columns=dict(
            model="m",
            scenario="s",
            region="World",
            variable="X",
            unit="kg",
            parameter_type="point",
        ),
    )
    out = [dt.datetime(1970, 1, 1) + dt.timedelta(seconds=t) for t in target]
    judge(
        ctx,
        what + " (frame)",
        lambda: [
            float(x)
            for x in df.interpolate(out, extrapolation_type=extrapolation).values[0]
        ],
        expected,
    )


def run_short(case, ctx):
    from openscm.core.parameterset import ParameterSet

    _, kind, n = case
    extra = 1 if kind == "average" else 0
    grid = tuple(seconds(2000 + i) for i in range(n + extra))
    full = tuple(seconds(2000 + i) for i in range(8))
    values = [1.0 + i * i for i in range(n)]
    target = (seconds(2000), seconds(2000, 7), seconds(2001))
    ctx.state(kind, n)
    for extrapolation in ("none", "constant", "linear"):
        if len(grid) >= 2:
            conv = converter(to64(grid), to64(target), kind, extrapolation)
            expected = reference(values, grid, target, kind, extrapolation)
            judge(
                ctx,
                "{} values {} {}".format(n, kind, extrapolation),
                lambda: conv.convert_from(np.array(values)),
                expected,
            )
            conv = converter(to64(full), to64(grid), kind, extrapolation)
            expected = reference(values, grid, full, kind, extrapolation)
            judge(
                ctx,
                "{} values {} {} (to)".format(n, kind, extrapolation),
                lambda: conv.convert_to(np.array(values)),
                expected,
            )

            def write():
                ps = ParameterSet()
                v = ps.timeseries(
                    "X",
                    "kg",
                    to64(grid),
                    timeseries_type=kind,
                    extrapolation=extrapolation,
                )
                v.values = np.array(values)
                return [float(x) for x in v.values]

            judge(
                ctx,
                "{} values {} {} (view)".format(n, kind, extrapolation),
                write,
                values if n >= 3 else None,
            )


VALID = {
    "timeseries_type": ("average", "point", "Average", "POINT"),
    "interpolation": ("linear", "Linear"),
    "extrapolation": ("none", "constant", "linear", "NONE", "Linear"),
}


def run_name(case, ctx):
    from openscm.core.parameters import ParameterType
    from openscm.core.parameterset import ParameterSet
    from openscm.core.time import ExtrapolationType, InterpolationType

    _, which, name = case
    valid = name in VALID[which]
    ctx.state(which, name)
    if not isinstance(name, str) and which != "timeseries_type":
        return  # enum members and only these are passed through
    parse = {
        "timeseries_type": ParameterType.from_timeseries_type,
        "interpolation": InterpolationType.from_interpolation_type,
        "extrapolation": ExtrapolationType.from_extrapolation_type,
    }[which]
    ctx.step()
    got = attempt(parse, name)
    if (got[0] == "ok") != valid:
        raise Violation("{} {!r}: {}".format(which, name, got))
    if valid:
        member = got[1].name
        expected = {
            "average": "AVERAGE_TIMESERIES",
            "point": "POINT_TIMESERIES",
        }.get(name.lower(), name.upper())
        if member != expected:
            raise Violation("{} {!r} gives {}".format(which, name, member))
    grid = to64([seconds(y) for y in (2000, 2001, 2002, 2003)])
    ps = ParameterSet()
    ctx.step()
    got = attempt(ps.timeseries, "X", "kg", grid, **{which: name})
    if (got[0] == "ok") != valid:
        raise Violation("timeseries with {} {!r}: {}".format(which, name, got))
    if not valid and ps.info("X") is not None:
        raise Violation("rejected request created the parameter")
    ctx.outcome("valid" if valid else "rejected")
