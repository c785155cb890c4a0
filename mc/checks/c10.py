"""C10: time points mean the same instant in every representation."""

import datetime as dt
import itertools
from fractions import Fraction

import numpy as np

from ..engine import Violation
from ..util import seconds

PROP = "C10"
ASSUMPTIONS = [
    "Python's datetime is the proleptic Gregorian calendar",
    "text and numbers are mixed in object arrays only (numpy turns a list of both into text), texts of years below 100 are not mixed with ISO texts",
    "years as floats denote the instant that fraction of the year's length after its start; they agree to within one second (exactly where the instant is a whole second)",
]
BOUNDS = {
    "quick": "every year 1..9999 (integers of all widths, floats with 6 fractions, strings); 14 calendar instants in each of 320 years (century, leap, pandas' and epoch limits) in 14 representations, single, in arrays and (73 years) mixed with every other one; create_time_points for 9 starts x 10 periods x lengths 0..40 x both types; every single day of 12 years for the calendar fields; 99 to 5000 time points in steps of 1 s to 1 week in every representation, all mixed, and with one of another kind at 5 positions",
    "thorough": "14 calendar instants in every year 1..9999; every day of 400 years; lengths up to 200",
}

YEARS = sorted(
    set(range(1, 9999, 50))
    | set(range(1890, 1910))
    | set(range(1960, 2030))
    | {1, 2, 3, 4, 9, 10, 31, 32, 99, 100, 101, 999, 1000, 1582, 1583, 1676, 1677, 1678}
    | {2099, 2100, 2101, 2261, 2262, 2263, 2399, 2400, 2401, 9996, 9998, 9999}
)
INSTANTS = (
    (1, 1, 0, 0, 0),
    (1, 1, 0, 0, 1),
    (1, 31, 23, 59, 59),
    (2, 1, 0, 0, 0),
    (2, 28, 12, 0, 0),
    (2, 29, 6, 30, 15),
    (3, 1, 0, 0, 0),
    (6, 30, 23, 59, 59),
    (7, 2, 12, 0, 0),
    (10, 11, 1, 2, 3),
    (11, 30, 13, 0, 0),
    (12, 12, 12, 12, 12),
    (12, 31, 0, 0, 0),
    (12, 31, 23, 59, 59),
)
FRACTIONS = (0.0, 0.25, 0.5, 0.75, 1 / 3, 0.9999)
STARTS = (
    ("1-01-01", "0001-01-01"),
    ("850", "0850-03-01"),
    ("1969", "1969-12-31T23:59:59"),
    ("1970", "1970-01-01"),
    ("2000", "2000-02-28T12:00:00"),
    ("2015", "2015"),
    ("2016-05", "2016-05"),
    ("2262", "2262-04-11T23:47:16"),
    ("9000", "9000-01-01T00:00:01"),
)
PERIODS = (
    np.timedelta64(1, "s"),
    np.timedelta64(59, "s"),
    np.timedelta64(31557600, "s"),
    np.timedelta64(31556952, "s"),
    np.timedelta64(1, "m"),
    np.timedelta64(7, "h"),
    np.timedelta64(1, "D"),
    np.timedelta64(30, "D"),
    np.timedelta64(365, "D"),
    np.timedelta64(2, "W"),
)


def cases(tier):
    for start in range(1, 10000, 100):
        yield ("years", start, min(start + 100, 10000))
    for y in YEARS if tier == "quick" else range(1, 10000):
        yield ("instants", y)
    for s in range(len(STARTS)):
        for p in range(len(PERIODS)):
            yield ("grid", s, p)
    for y in (
        (1, 4, 100, 400, 1600, 1677, 1900, 1970, 2000, 2016, 2262, 9999)
        if tier == "quick"
        else range(1, 10000, 25)
    ):
        yield ("days", y)
    yield ("arrays",)
    for n in (99, 100, 257, 1000, 5000):
        for scale in range(5):
            yield ("long", n, scale)
    yield ("types",)
    yield ("nothing",)


def instants(y):
    for m, d, hh, mm, ss in INSTANTS:
        try:
            yield dt.datetime(y, m, d, hh, mm, ss)
        except ValueError:
            pass


def secs(d):
    return seconds(d.year, d.month, d.day, d.hour, d.minute, d.second)


def representations(d):
    """All representations that can express the instant to the second."""
    iso = "{:04d}-{:02d}-{:02d}".format(d.year, d.month, d.day)
    hms = "{:02d}:{:02d}:{:02d}".format(d.hour, d.minute, d.second)
    n = np.datetime64(secs(d), "s")
    yield "datetime", d
    yield "datetime with microseconds", d.replace(microsecond=999)
    yield "datetime64[s]", n
    yield "datetime64[ms]", n.astype("datetime64[ms]")
    yield "datetime64[us]", n.astype("datetime64[us]")
    yield "iso", iso + "T" + hms
    yield "iso blank", iso + " " + hms
    yield "iso compact", "{:04d}{:02d}{:02d}T{:02d}{:02d}{:02d}".format(
        d.year, d.month, d.day, d.hour, d.minute, d.second
    )
    if 1678 <= d.year <= 2261:
        yield "datetime64[ns]", n.astype("datetime64[ns]")
        import pandas as pd

        yield "Timestamp", pd.Timestamp(d)
    if d.second == 0:
        yield "datetime64[m]", n.astype("datetime64[m]")
        yield "iso minutes", iso + "T" + hms[:5]
        if d.minute == 0:
            yield "datetime64[h]", n.astype("datetime64[h]")
            if d.hour == 0:
                yield "date", d.date()
                yield "datetime64[D]", n.astype("datetime64[D]")
                yield "iso date", iso
                if d.day == 1:
                    yield "datetime64[M]", n.astype("datetime64[M]")
                    if d.year >= 100:  # "0002-01" is ambiguous
                        yield "iso month", iso[:7]
                    if d.month == 1:
                        yield "datetime64[Y]", n.astype("datetime64[Y]")
                        yield "int", d.year
                        yield "float", float(d.year)
                        yield "string year", str(d.year)


def check(ctx, values, expected, what):
    """values -> TimePoints; compare with the seconds expected"""
    from openscm.core.time import TimePoints

    ctx.step()
    try:
        tp = TimePoints(values)
        got = tp.values
    except Exception as e:  # pylint: disable=broad-except
        raise Violation("{} {!r}: {!r}".format(what, values, e))
    if got.dtype != np.dtype("datetime64[s]"):
        raise Violation("{} {!r}: dtype {}".format(what, values, got.dtype))
    got = got.astype("int64").tolist()
    if got != list(expected):
        raise Violation(
            "{} {!r}: {} instead of {}".format(
                what, values, tp.values, [np.datetime64(e, "s") for e in expected]
            )
        )
    ctx.outcome(what)
    return tp


def check_fields(ctx, tp, dates):
    ctx.step(5)
    for name, field in (
        ("years", lambda d: d.year),
        ("months", lambda d: d.month),
        ("days", lambda d: d.day),
        ("hours", lambda d: d.hour),
        ("weekdays", lambda d: d.weekday()),
    ):
        got = list(getattr(tp, name)())
        expected = [field(d) for d in dates]
        if got != expected:
            raise Violation("{} of {}: {}, expected {}".format(name, tp.values, got, expected))
    index = tp.to_index()
    if list(index) != list(dates) or index.name != "time":
        raise Violation("to_index of {}: {}".format(tp.values, index))


def run_nothing(ctx):
    """No time at all is a valid array of times."""
    for values in ([], (), np.array([]), np.array([], dtype=object), np.array([], dtype="datetime64[D]"), np.array([], dtype=int)):
        check_fields(ctx, check(ctx, values, [], "nothing"), [])
        ctx.trace()


def run(case, ctx):
    if case[0] == "nothing":
        return run_nothing(ctx)
    if case[0] == "years":
        years = list(range(case[1], case[2]))
        exp = [seconds(y) for y in years]
        for dtype in (np.int16, np.int32, np.int64, np.uint16, np.uint32, np.uint64):
            check(ctx, np.array(years, dtype=dtype), exp, "int array")
        check(ctx, years, exp, "int list")
        check(ctx, np.array(years, dtype=object), exp, "int objects")
        check(ctx, [float(y) for y in years], exp, "float list")
        check(ctx, [str(y) for y in years], exp, "string list")
        check(ctx, [str(float(y)) for y in years], exp, "float string list")
        for y in years:
            ctx.state("year", y)
            ctx.trace()
            total = 86400 * (
                dt.date(y, 12, 31).toordinal() - dt.date(y, 1, 1).toordinal() + 1
            )
            for f in FRACTIONS:
                value = y + f
                exact = Fraction(value) - y  # the fraction the float really holds
                instant = exact * total
                for v in (value, np.float64(value), repr(value)):
                    ctx.step()
                    from openscm.core.time import TimePoints

                    got = int(TimePoints([v]).values.astype("int64")[0]) - seconds(y)
                    bad = (
                        got != instant
                        if instant.denominator == 1
                        else abs(got - instant) > 1 + Fraction(1, 1000)
                    )
                    if bad:
                        raise Violation(
                            "year {!r}: {} s into the year, expected {}".format(
                                v, got, float(instant)
                            )
                        )
    elif case[0] == "instants":
        dates = list(instants(case[1]))
        by_kind = {}
        for d in dates:
            ctx.state("instant", d)
            ctx.trace()
            for kind, value in representations(d):
                check(ctx, [value], [secs(d)], kind)
                by_kind.setdefault(kind, []).append((value, secs(d)))
        for kind, pairs in by_kind.items():
            values = [v for v, _ in pairs]
            exp = [s for _, s in pairs]
            check(ctx, values, exp, kind)
            check(ctx, tuple(values[::-1]), exp[::-1], kind)
            if not kind.startswith(("float", "int")):
                arr = np.empty(len(values), dtype=object)
                arr[:] = values
                check(ctx, arr, exp, kind)
            else:
                check(ctx, np.array(values), exp, kind)
        # every pair of representations in one sequence
        if case[1] % 10 == 0 or case[1] in (1, 1969, 1677, 2262, 9999):
            chosen = [(k, by_kind[k][0]) for k in by_kind] + [
                (k + " (last)", by_kind[k][-1]) for k in by_kind if by_kind[k][-1] != by_kind[k][0]
            ]
            for (k1, (v1, s1)), (k2, (v2, s2)) in itertools.permutations(chosen, 2):
                if case[1] < 100 and isinstance(v1, str) and isinstance(v2, str):
                    continue  # "10" may be a day
                arr = np.empty(3, dtype=object)
                arr[:] = [v1, v2, v1]
                what = "{} and {}".format(k1.split(" (")[0], k2.split(" (")[0])
                check(ctx, arr, [s1, s2, s1], what)
                if isinstance(v1, str) == isinstance(v2, str):  # numpy writes numbers as text
                    check(ctx, [v1, v2, v1], [s1, s2, s1], what)
        tp = check(ctx, dates, [secs(d) for d in dates], "datetime")
        check_fields(ctx, tp, dates)
    elif case[0] == "days":
        day = dt.datetime(case[1], 1, 1, case[1] % 24, 30)
        dates = []
        while True:
            dates.append(day)
            ctx.state("day", day)
            try:
                day += dt.timedelta(days=1)
            except OverflowError:
                break
            if day.year != case[1]:
                break
        tp = check(ctx, dates, [secs(d) for d in dates], "datetime")
        check_fields(ctx, tp, dates)
        ctx.trace()
    elif case[0] == "grid":
        from openscm.core.time import create_time_points

        start = np.datetime64(STARTS[case[1]][1])
        period = PERIODS[case[2]]
        if "W" in str(period.dtype):  # numpy rounds months plus weeks
            start = start.astype("datetime64[D]" if case[1] != 3 else start.dtype)
        first = int(start.astype("datetime64[s]").astype("int64"))
        length = int(period.astype("timedelta64[s]").astype("int64"))
        for n in range(0, 201 if ctx.thorough else 41):
            for kind, extra in (("point", 0), ("average", 1)):
                if first + (n + extra) * length > seconds(9999, 12, 31):
                    continue
                ctx.state(case, n, kind)
                from openscm.core.parameters import ParameterType

                enum = (
                    ParameterType.POINT_TIMESERIES
                    if kind == "point"
                    else ParameterType.AVERAGE_TIMESERIES
                )
                exp = [first + i * length for i in range(n + extra)]
                for k, s in ((kind, start), (enum, start.astype("datetime64[s]"))):
                    ctx.step()
                    got = create_time_points(s, period, n, k)
                    if got.dtype != np.dtype("datetime64[s]") or got.astype("int64").tolist() != exp:
                        raise Violation(
                            "create_time_points({}, {}, {}, {}): {}".format(s, period, n, k, got)
                        )
                ctx.trace()
    elif case[0] == "long":
        _, n, scale = case
        from openscm.core.time import create_time_points

        first = dt.datetime(1850, 2, 27, 22, 59, 30) if scale else dt.datetime(101, 1, 1)
        # seconds, hours, days, weeks; years and a bit in the last
        step = (86401, 1, 3600, 86400, 7 * 86400)[scale]
        dates = [first + dt.timedelta(seconds=i * step) for i in range(n)]
        by_kind = {}
        for d in dates:
            for kind, value in representations(d):
                by_kind.setdefault(kind, []).append((value, secs(d)))
        for kind, pairs in by_kind.items():
            ctx.state(case, kind)
            ctx.trace()
            values = [v for v, _ in pairs]
            exp = [s for _, s in pairs]
            check(ctx, values, exp, kind)
            arr = np.empty(len(values), dtype=object)
            arr[:] = values
            check(ctx, arr[::-1], exp[::-1], kind)
        # a different representation at every position, and one odd one in all positions
        mixed = np.empty(n, dtype=object)
        for i, d in enumerate(dates):
            found = list(representations(d))
            mixed[i] = found[i % len(found)][1]
        exp = [secs(d) for d in dates]
        check(ctx, mixed, exp, "mixed")
        for at in sorted({0, 1, n // 2, n - 2, n - 1}):
            for kind, value in representations(dates[at]):
                odd = np.empty(n, dtype=object)
                odd[:] = dates
                odd[at] = value
                check(ctx, odd, exp, "one " + kind)
        tp = check(ctx, dates, exp, "datetime")
        check_fields(ctx, tp, dates)
        got = create_time_points(np.datetime64(secs(first), "s"), np.timedelta64(step, "s"), n, "point")
        if got.astype("int64").tolist() != exp:
            raise Violation("create_time_points of {} times {} s: {}".format(n, step, got))
    elif case[0] == "arrays":
        # mixed kinds of strings, empty input, order and duplicates
        a, b = dt.datetime(2016, 2, 29, 1), dt.datetime(2016, 1, 1)
        for values in (
            ["2016-02-29T01:00:00", "2016"],
            ["2016", "2016-02-29T01:00:00"],
        ):
            exp = [secs(a) if "-" in v else secs(b) for v in values]
            check(ctx, values, exp, "mixed strings")
            check(ctx, np.array(values, dtype=object), exp, "mixed strings")
        for empty in ([], (), np.array([]), np.array([], dtype=object), np.array([], dtype="datetime64[D]")):
            check(ctx, empty, [], "empty")
        dates = [dt.datetime(2016, m, 1) for m in (1, 2, 3)]
        for perm in itertools.product(range(3), repeat=3):
            values = [dates[i] for i in perm]
            check(ctx, values, [secs(d) for d in values], "order")
            check(ctx, [d.isoformat() for d in values], [secs(d) for d in values], "order")
            ctx.state("order", perm)
        keep = np.array(["2016-01-01", "2016-02-01"], dtype="datetime64[D]")
        before = keep.copy()
        tp = check(ctx, keep, [secs(dates[0]), secs(dates[1])], "datetime64[D]")
        tp.values[0] = np.datetime64("1999-01-01")
        if (keep != before).any():
            raise Violation("TimePoints shares memory with input of another resolution")
        ctx.trace()
    else:
        from openscm.core.time import create_time_points

        for kind in ("scalar", "generic", "nosuch", "", "Points"):
            ctx.step()
            try:
                create_time_points(np.datetime64("2000"), np.timedelta64(1, "D"), 3, kind)
            except Exception:  # pylint: disable=broad-except
                ctx.outcome("bad type refused")
            else:
                if kind in ("nosuch", "", "Points"):
                    raise Violation("timeseries type {!r} accepted".format(kind))
        for bad in (["nosuch"], ["2015-13-01"], ["2015-02-30"], ["2015-01-01", "x"], [object()]):
            from openscm.core.time import TimePoints

            ctx.step()
            try:
                got = TimePoints(bad).values
            except Exception:  # pylint: disable=broad-except
                ctx.outcome("bad value refused")
            else:
                raise Violation("{!r} accepted as {}".format(bad, got))
        ctx.trace()
