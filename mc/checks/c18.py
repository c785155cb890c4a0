"""C18: filters select exactly the matching series and times."""

import datetime as dt
import itertools
import re

import numpy as np

from openscm.scmdataframe import ScmDataFrame

from ..engine import Violation
from ..frames import RF, build, compare, observe, quietly, to_datetime
from ..util import attempt, seconds

PROP = "C18"
ASSUMPTIONS = [
    "metadata contain no newlines; string patterns are used on columns of strings (or missing values)",
    "level limits are used with exact patterns, prefixes followed by * or * alone, on values that contain the prefix once",
    "week days and months of one list are all written in short or all in long form",
    "a frame drops series and times without any value left",
]
BOUNDS = {
    "quick": "all patterns of <=4 characters over {a | * .} and {a ( + *} against all metadata of <=3 characters; all pairs of 40 patterns as list; 13 levels x 40 patterns x 3 hierarchy separators and with 3 levels each pair of patterns; lists of up to 80 patterns (of characters {a A blank | *}) and 300 times; values given as list, tuple, set, array, index or series; frames of up to 3000 series or times; every year/month/day/hour/weekday and all ranges and pairs over a calendar lattice from year 100 to 9000; all triples of 24 criteria on 3 frames in all orders, jointly, successively and as complement",
    "thorough": "patterns of <=5 characters, all triples of patterns as list, quadruples of criteria",
}


# reference -----------------------------------------------------------------------------


def glob(pattern, text):
    """`*` is any sequence of characters, the whole text has to match."""
    if text is None:
        text = ""
    # classical dynamic programming
    reach = {0}
    for ch in pattern:
        if ch == "*":
            if reach:
                reach = set(range(min(reach), len(text) + 1))
        else:
            reach = {i + 1 for i in reach if i < len(text) and text[i] == ch}
    return len(text) in reach


def level_ok(level, depth):
    if isinstance(level, str):
        number = int(level[:-1])
        return depth <= number if level[-1] == "-" else depth >= number
    return depth == level


def depth_below(pattern, text, separator):
    """Separators in what the `*` at the end of the pattern stands for."""
    prefix = pattern.replace("*", "")
    assert text.startswith(prefix)
    return text[len(prefix) :].count(separator)


def matches(pattern, value):
    if isinstance(pattern, str):
        return isinstance(value, (str, type(None))) and glob(pattern, value)
    return value is not None and value == pattern


def as_list(x):
    return x if isinstance(x, (list, tuple)) else [x]


MONTHS = ("January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December")
DAYS = ("Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday")


def number(name, names):
    return [i for i, n in enumerate(names) if name in (n, n[:3])][0]


def selects_names(values, names, offset, got):
    """Names and ranges of names"""
    for v in as_list(values):
        if isinstance(v, str):
            if "-" in v:
                a, b = [number(x, names) + offset for x in v.split("-")]
                if a <= got <= b:
                    return True
            elif number(v, names) + offset == got:
                return True
        elif v == got:
            return True
    return False


def predicate(criteria, separator="|"):
    """(series predicate, time predicate) of filter arguments."""

    def series(m):
        for col, values in criteria.items():
            if col in ("year", "month", "day", "hour", "time"):
                continue
            if col == "level":
                if "variable" not in criteria and not level_ok(values, depth_below("*", m["variable"], separator)):
                    return False
                continue
            found = False
            for p in as_list(values):
                if matches(p, m[col]):
                    if col == "variable" and "level" in criteria:
                        found |= level_ok(criteria["level"], depth_below(p, m[col] or "", separator))
                    else:
                        found = True
            if not found:
                return False
        return True

    def time(t):
        d = to_datetime(t)
        for col, values in criteria.items():
            if col in ("year", "hour"):
                ok = getattr(d, col) in as_list(values)
            elif col == "month":
                ok = selects_names(values, MONTHS, 1, d.month)
            elif col == "day":
                if isinstance(as_list(values)[0], str):
                    ok = selects_names(values, DAYS, 0, d.weekday())
                else:
                    ok = d.day in as_list(values)
            elif col == "time":
                ok = d in as_list(values)
            else:
                continue
            if not ok:
                return False
        return True

    return series, time


# frames --------------------------------------------------------------------------------


def meta(**kwargs):
    return dict(dict(model="m", scenario="s", region="World", variable="V", unit="K"), **kwargs)


ALPHABETS = ("a|.", "a(+")
MAX = {"quick": (3, 4), "thorough": (4, 5)}


def strings(alphabet, upto):
    for n in range(upto + 1):
        for s in itertools.product(alphabet, repeat=n):
            yield "".join(s)


def text_frame(alphabet, upto, column, cls=None, texts=None):
    texts = list(strings(alphabet, upto)) if texts is None else texts
    rows = []
    for i, s in enumerate(texts):
        m = meta(**{column: s})
        if column != "variable":
            m["variable"] = "V{}".format(i)
        rows.append((m, (i, i + 0.5)))
    rf = RF.make(rows, (seconds(2000), seconds(2001)))
    return rf


NAMES = (
    "Emissions",
    "Emissions|CO2",
    "Emissions|CO2|AFOLU",
    "Emissions|CO2|AFOLU|Deep|Deeper",
    "Emissions|CH4",
    "Emissions Extra|CO2",
    "Emissions (total)|CO2",
    "Emissions.CO2",
    "Emissions__CO2__AFOLU",
    "CO2|Emissions",
    "|",
    "Surface Temperature",
    "Surface Temperature|Arctic|A.B|C+D",
    "[x]|y{1}",
    "^a$|b?",
    "\\d|e",
)
PATTERNS = (
    ("*", "", "Emissions", "Emissions*", "Emissions|*", "Emissions|CO2*", "Emissions|CO2|*", "*|CO2", "*CO2*", "*|*|*")
    + ("Emissions (total)|*", "Emissions.*", "Emissions.CO2", "E*CO2", "E*s*2", "Surface Temperature*", "Surface Temperature|*")
    + ("[x]*", "[x]|y{1}", "^a$|b?", "^a*", "*b?", "\\d|e", "\\d*", "nothing", "nothing*", "**", "|", "|*", "*|", "CO2|*")
    + ("Emissions__*", "emissions*", "*Extra*", "E", "*U", "CO2", "*.*", "*+*", "A", "*A*B*")
)
LEVELS = (0, 1, 2, 3, 4, "0-", "1-", "2-", "3-", "0+", "1+", "2+", "4+")
SEPARATORS = ("|", ".", "__")


def classes(separator):
    return type("Sub", (ScmDataFrame,), dict(data_hierarchy_separator=separator))


CALENDAR = sorted(
    set(
        [seconds(y, 1, 1) for y in (100, 1000, 1969, 1970, 2000, 2263, 9000)]
        + [seconds(2004, m, d, h, mi) for m, d, h, mi in itertools.product((1, 2, 6, 12), (1, 28, 29), (0, 11, 23), (0, 30))]
        + [seconds(2005, m, 15, 5) for m in range(1, 13)]
        + [seconds(2005, 10, d, d % 24, d, d) for d in range(1, 32)]
        + [seconds(2006, 5, 8 + d, 20) for d in range(7)]
        + [seconds(1600, 12, 31, 23, 59, 59), seconds(2300, 2, 28), seconds(2300, 12, 31, 12)]
    )
)


def month_filters():
    for i, a in enumerate(MONTHS):
        yield i + 1
        yield a
        yield a[:3]
        for b in MONTHS:
            yield a + "-" + b
            yield a[:3] + "-" + b[:3]
            yield [a, b]
            yield [a[:3], b[:3]]
            yield [number(a, MONTHS) + 1, number(b, MONTHS) + 1]
    for a, b in itertools.product(("Jan-Mar", "May-May", "Jun-Nov", "Dec"), repeat=2):
        yield [a, b]
        yield [a, "Apr", b]


def day_filters():
    for i in range(1, 32):
        yield i
        yield [i, 32 - i, 5]
    for a in DAYS:
        yield a
        yield a[:3]
        yield [a]
        for b in DAYS:
            yield a + "-" + b
            yield a[:3] + "-" + b[:3]
            yield [a, b]
    for a, b in itertools.product(("Mon-Tue", "Wed-Wed", "Thu-Sat", "Sun"), repeat=2):
        yield [a, b]


def increasing(values, names):
    for v in as_list(values):
        if isinstance(v, str) and "-" in v:
            a, b = v.split("-")
            if number(a, names) > number(b, names):
                return False
    return True


def time_filters():
    years = sorted({to_datetime(t).year for t in CALENDAR})
    for y in years + [1, 1999, 2264, 9999]:
        yield "year", y
        yield "year", [y, 2005, 1970]
        yield "year", range(y - 2, y + 3)
    yield "year", []
    for m in month_filters():
        yield "month", m
    for d in day_filters():
        yield "day", d
    for h in range(24):
        yield "hour", h
        yield "hour", [h, 23 - h]
    for i, t in enumerate(CALENDAR):
        yield "time", to_datetime(t)
        yield "time", [to_datetime(t), to_datetime(CALENDAR[-i])]
        yield "time", to_datetime(t + 1)
        yield "time", to_datetime(t + 86400)
    # long lists
    for n in (7, 13, 15, 24, 31):
        yield "day", list(range(1, n + 1))
        yield "day", list(range(32 - n, 32))
        yield "hour", list(range(24 - n, 24))
        yield "year", list(range(2010 - n, 2010)) + list(range(95, 95 + n))
        yield "time", [to_datetime(t) for t in CALENDAR[::-1][: 2 * n]]
        yield "month", [1 + (i * i) % 6 for i in range(n)]
    yield "month", list(MONTHS[2:11])
    yield "month", [m[:3] for m in MONTHS[:5]] * 4
    yield "day", list(DAYS[1:]) * 3
    yield "year", list(range(2000, 2300))


def combined_frames():
    t = [seconds(2000), seconds(2000, 7, 4, 12), seconds(2001, 1, 1), seconds(2003, 12, 31, 6)]
    full = RF.make(
        [
            (meta(scenario=s, region=r, variable=v, unit=u), [i + 0.25, -i, i * i, 1e9 + i])
            for i, (s, r, (v, u)) in enumerate(
                itertools.product(("a", "b"), ("World", "World|A"), (("E|CO2", "GtC"), ("E|CO2|X", "MtC"), ("T", "K")))
            )
        ],
        t,
    )
    holes = RF.make(
        [
            (meta(scenario="a", tag="x", n=1.0), [1, None, None, 2]),
            (meta(scenario="a", variable="E|CO2", tag="x", n=None), [None, 3, 4, None]),
            (meta(scenario="b", variable="E|CO2", tag=None, n=2.0), [5, None, None, None]),
            (meta(scenario="b", variable="T", region="World|A", tag="", n=2.5), [None, None, None, 6]),
        ],
        t,
    )
    one = RF.make([(meta(scenario="a", tag="x", n=1.0), [1.5])], t[1:2])
    return {"full": full, "holes": holes, "one": one}


FRAMES = combined_frames()
T0, T3 = to_datetime(FRAMES["full"].times[0]), to_datetime(FRAMES["full"].times[3])
CRITERIA = (
    ("scenario", "a"),
    ("scenario", ["a", "c*"]),
    ("scenario", "*"),
    ("region", "World"),
    ("region", "World*"),
    ("variable", "E|*"),
    ("variable", ["T", "V"]),
    ("variable", "E|CO2"),
    ("level", 0),
    ("level", "1+"),
    ("unit", ["GtC", "K"]),
    ("tag", "x"),
    ("tag", ""),
    ("tag", "*"),
    ("n", 2.0),
    ("n", [1.0, 2.5]),
    ("year", 2000),
    ("year", [2001, 2003]),
    ("month", "Jan-Jul"),
    ("month", [12, 1]),
    ("day", "Sat"),
    ("day", [4, 31]),
    ("hour", [0, 6]),
    ("time", [T0, T3]),
)


def cases(tier):
    thorough = tier == "thorough"
    for alphabet in ALPHABETS:
        for first in alphabet + "*":
            for second in ("",) + tuple(alphabet + "*"):
                yield ("text", alphabet, first + second, "variable")
        for first in alphabet + "*":
            yield ("text", alphabet, first, "scenario")
    yield ("text", "a|.", "", "model")
    for i in range(len(PATTERNS)):
        yield ("list", i, 3 if thorough else 2)
        for separator in SEPARATORS:
            yield ("level", i, separator)
    for k in range(16):
        yield ("time", k)
    n = len(CRITERIA)
    for name in FRAMES:
        for i in range(n):
            for j in range(i, n):
                yield ("combined", name, i, j, 4 if thorough else 3)
    for n in (30, 120, 365) + ((1000,) if thorough else ()):
        for t in (6, 130):
            yield ("large", n, t)
    for n in (4, 11, 25, 80):
        for column in ("variable", "scenario", "tag"):
            yield ("many", n, column)
    for name in FRAMES:
        yield ("containers", name)
    yield ("exact",)
    yield ("regexp",)
    yield ("errors",)
    for name in FRAMES:
        yield ("empty", name)


def check(df, rf, criteria, ctx, keep=True, cls=None, separator="|"):
    series, time = predicate(criteria, separator)
    ctx.step()
    res = quietly(df.filter, keep=keep, **criteria)[0]
    expected = rf.filter(series, time, keep)
    ctx.state(repr(sorted(criteria.items())), keep, separator, len(rf.rows))
    ctx.outcome((len(expected.rows), len(expected.times)))
    what = "filter({}, keep={}): ".format(criteria, keep)
    if not expected.rows:
        if len(res) or res.time_points.size or len(res.meta):
            raise Violation("{}{} series, expected none".format(what, len(res)))
        if set(res.meta.columns) != rf.cols:
            raise Violation("{}columns {}".format(what, list(res.meta.columns)))
    else:
        compare(res, expected, rtol=0, what=what, full=False)
    return res, expected


def run_text(case, ctx):
    _, alphabet, prefix, column = case
    upto, plen = MAX[ctx.tier]
    rf = text_frame(alphabet, upto, column)
    df = build(rf)
    texts = [m[column] for m, _ in rf.rows]
    n = 0
    rest = 0 if len(prefix) < 2 and column == "variable" else plen - len(prefix)
    if column != "variable":
        rest = min(rest, 2)
    for tail in strings(alphabet + "*", rest):
        pattern = prefix + tail
        ctx.step()
        found = quietly(df.filter, **{column: pattern})[0]
        got = [int(v) for v in found.timeseries().iloc[:, 0]] if len(found) else []
        expected = [i for i, s in enumerate(texts) if glob(pattern, s)]
        if got != expected:
            raise Violation(
                "pattern {!r} finds {}, expected {}".format(
                    pattern, [texts[i] for i in got], [texts[i] for i in expected]
                )
            )
        ctx.state(column, alphabet, pattern)
        ctx.outcome(len(expected))
        n += 1
    ctx.trace(n)
    ctx.sample(prefix=prefix, patterns=n)


def applicable(pattern, separator):
    """Levels are specified for these patterns on the names."""
    if "*" in pattern.rstrip("*") or pattern == "**":
        return False
    prefix = pattern.rstrip("*")
    return all(n.count(prefix) == 1 for n in NAMES if glob(pattern, n)) if prefix else True


def run_many(case, ctx):
    """Long lists of patterns with and without `*`, which differ by blanks, case and separators."""
    _, n, column = case
    texts = list(strings("a A|", 3))
    rf = text_frame(None, None, column, texts=texts + ([None] if column == "tag" else []))
    df = build(rf)
    patterns = list(strings("a A|", 3)) + [p for p in strings("a |*", 3) if "*" in p]
    plain = [p for p in patterns if "*" not in p]
    for pool, stride in ((patterns, 1), (patterns, 7), (plain, 1), (plain, 3), (plain[::-1], 8)):
        for start in range(0, len(pool), max(n // 2, 5)):
            values = [pool[(start + stride * i) % len(pool)] for i in range(n)]
            for keep in (True, False) if start % 2 else (True,):
                check(df, rf, {column: values}, ctx, keep)
            ctx.trace()


def run_large(case, ctx):
    """Many series whose names contain each other, many times, long lists of values."""
    _, n, t = case
    times = [seconds(1990 + i // 12, 1 + i % 12, 1 + i % 28, i % 24) for i in range(t)]
    rows = []
    for i in range(n):
        m = meta(
            scenario="S{}".format(i % 37),
            region="World" + "|R{}".format(i % 5) * (i % 4),
            variable="|".join(["V{}".format(i % 11)] + ["L{}".format((i >> k) % 3) for k in range(i % 6)]),
            unit=("K", "mK", "kg")[i % 3],
            run=i,
            weight=i / 8.0,
            tag=None if i % 6 == 0 else "t{}".format(i % 10),
        )
        rows.append((m, [i + j / 256.0 if (i + j) % 9 else None for j in range(t)]))
    rf = RF.make(rows, times)
    df = build(rf)
    half = list(range(0, n, 2))
    criteria = [
        dict(run=half),
        dict(run=half[::-1] + [n + 5]),
        dict(run=0),
        dict(run=float(n - 1)),
        dict(weight=[i / 8.0 for i in range(n // 3)]),
        dict(weight=0.125),
        dict(scenario=["S{}".format(i) for i in range(37)]),
        dict(scenario=["S1", "S2*"]),
        dict(scenario="S3"),
        dict(variable="V1|*"),
        dict(variable="V1*"),
        dict(variable="*|L2"),
        dict(variable="*L1*", region="World|R1|*"),
        dict(region="World"),
        dict(region="*|R3"),
        dict(tag=""),
        dict(tag=["t1", "t2", ""]),
        dict(tag="t*", unit="K"),
        dict(unit=["K", "kg"], run=half),
        dict(level=0),
        dict(level="3+"),
        dict(level="2-", region="World*"),
        dict(variable="V2|*", level=1),
        dict(variable=["V2|*", "V10|*"], level="1-"),
        dict(year=1990, run=half),
        dict(year=list(range(1991, 2020)), month=["Jan", "Mar-May"]),
        dict(month=[2, 11], hour=list(range(12))),
        dict(day=list(range(5, 29))),
        dict(day=["Mon", "Wed-Fri"], unit="mK"),
        dict(time=[to_datetime(x) for x in times[:: max(1, t // 40)]]),
        dict(time=[to_datetime(x) for x in times[::-1]], scenario="S7"),
        dict(time=to_datetime(times[-1])),
    ]
    for c in criteria:
        for keep in (True, False):
            check(df, rf, c, ctx, keep)
    for a, b in itertools.combinations(criteria, 2):
        if set(a) & set(b) or (criteria.index(a) + criteria.index(b)) % 3 or n > 200:
            continue
        if "level" in (set(a) | set(b)) and "variable" in (set(a) | set(b)):
            continue
        check(df, rf, dict(a, **b), ctx)
    for c in criteria:
        ctx.trace()


def run_containers(case, ctx):
    """The same values in everything that can hold several."""
    import pandas as pd

    rf = FRAMES[case[1]]
    df = build(rf)
    ts = [to_datetime(t) for t in rf.times]
    values = [
        ("year", [2000, 2001]),
        ("year", [2003]),
        ("month", [1, 7]),
        ("month", [12]),
        ("month", ["Jan", "Jul"]),
        ("month", ["December"]),
        ("day", [4, 31]),
        ("day", ["Sat", "Mon"]),
        ("day", ["Tuesday"]),
        ("day", ["Mon-Wed"]),
        ("hour", [0, 12]),
        ("hour", [6]),
        ("time", [ts[0], ts[-1]]),
        ("time", ts),
        ("scenario", ["a"]),
        ("scenario", ["a*", "b"]),
        ("region", ["World|A"]),
        ("variable", ["T", "E|CO2"]),
        ("variable", ["E|*"]),
        ("unit", ["K", "MtC"]),
        ("model", ["m"]),
        ("tag", ["x", ""]),
        ("n", [1.0, 2.5]),
    ]
    for col, v in values:
        if col in ("tag", "n") and col not in rf.cols:
            continue
        forms = [
            ("list", list(v)),
            ("reversed", v[::-1]),
            ("twice", v + v),
            ("tuple", tuple(v)),
            ("array of objects", np.array(v + [None], dtype=object)[:-1]),
            ("series", pd.Series(v)),
            ("series with index", pd.Series(v, index=[v[0]] * len(v))),
            ("index", pd.Index(v)),
        ]
        if col not in ("month", "day"):
            forms.append(("set", set(v)))
        if col != "year":
            forms.append(("array", np.array(v)))
        if col == "time":
            forms += [("datetime64", np.array(v, dtype="datetime64[s]")), ("datetime64 list", [np.datetime64(x, "s") for x in v])]
        if isinstance(v[0], int) and len(v) == 2:
            step = v[1] - v[0]
            forms.append(("range", range(v[0], v[1] + 1, step)))
        series, time = predicate({col: v})
        for keep in (True, False):
            expected = rf.filter(series, time, keep)
            for name, form in forms:
                res = quietly(df.filter, keep=keep, **{col: form})[0]
                ctx.step()
                ctx.state(case, col, name, keep)
                what = "filter({}={} as {}, keep={}): ".format(col, v, name, keep)
                if not expected.rows:
                    if len(res):
                        raise Violation("{}{} series, expected none".format(what, len(res)))
                else:
                    compare(res, expected, rtol=0, what=what, full=False)
                ctx.trace()
    # the times of a frame, as it gives them
    other = quietly(df.filter, time=[ts[0], ts[-1]])[0]
    series, time = predicate({"time": [to_datetime(t) for t in other.time_points.astype("int64").tolist()]})
    expected = rf.filter(series, time, True)
    for name, form in (("time column", other["time"]), ("time points", other.time_points), ("year column", other["year"])):
        res = quietly(df.filter, **{name.split()[0]: form})[0]
        exp = expected if "year" not in name else rf.filter(*predicate({"year": list(other["year"])}), True)
        compare(res, exp, rtol=0, what="filter by {} of another frame: ".format(name), full=False)
        ctx.step()
    ctx.outcome("containers")


def run(case, ctx):
    kind = case[0]
    if kind == "text":
        return run_text(case, ctx)
    if kind == "many":
        return run_many(case, ctx)
    if kind in ("list", "level"):
        texts = list(NAMES)
    if kind == "list":
        _, i, k = case
        rf = text_frame(None, None, "variable", texts=texts)
        df = build(rf)
        for others in itertools.product(PATTERNS, repeat=k - 1):
            values = [PATTERNS[i]] + list(others)
            check(df, rf, dict(variable=values if others[0] > PATTERNS[i] else tuple(values)), ctx)
            ctx.trace()
        rf = text_frame(None, None, "tag", texts=texts + [None])
        df = build(rf)
        for keep in (True, False):
            check(df, rf, dict(tag=PATTERNS[i]), ctx, keep)
            check(df, rf, dict(tag=[PATTERNS[i], "Surface*"]), ctx, keep)
    elif kind == "level":
        _, i, separator = case
        pattern = PATTERNS[i]
        if not applicable(pattern, separator):
            return
        rf = text_frame(None, None, "variable", texts=texts)
        df = build(rf, classes(separator))
        for level in LEVELS:
            for keep in (True, False):
                check(df, rf, dict(variable=pattern, level=level), ctx, keep, separator=separator)
                check(df, rf, dict(level=level, variable=pattern), ctx, keep, separator=separator)
            check(df, rf, dict(level=level), ctx, separator=separator)
            ctx.trace()
        for j, other in enumerate(PATTERNS):
            if not applicable(other, separator) or (separator != "|" and (i + j) % 5):
                continue
            for level in (1, "1-", "1+") if (i + j) % 2 else (0, "0-", "2-"):
                check(df, rf, dict(variable=[pattern, other], level=level), ctx, separator=separator)
            ctx.trace()
    elif kind == "time":
        rf = RF.make([(meta(), range(len(CALENDAR))), (meta(scenario="t"), [None] * 50 + list(range(len(CALENDAR) - 50)))], CALENDAR)
        df = build(rf)
        for n, (col, values) in enumerate(time_filters()):
            if n % 16 != case[1]:
                continue
            names = MONTHS if col == "month" else DAYS
            if col in ("month", "day") and not increasing(values, names):
                res = attempt(df.filter, **{col: values})
                if res != ("err", "ValueError"):
                    raise Violation("filter({}={}): {}".format(col, values, res))
                continue
            if isinstance(values, range):
                values = list(values)
            for keep in (True, False):
                check(df, rf, {col: values}, ctx, keep)
            ctx.trace()
    elif kind == "combined":
        _, name, i, j, k = case
        rf = FRAMES[name]
        df = build(rf)
        for more in itertools.product(range(len(CRITERIA)), repeat=k - 2):
            if list(more) != sorted(more) or more[0] < j:
                continue
            chosen = [CRITERIA[x] for x in sorted({i, j, *more})]
            if len({c for c, _ in chosen}) < len(chosen) or any(c not in rf.cols | {"year", "month", "day", "hour", "time", "level"} for c, _ in chosen):
                continue
            expected = None
            orders = list(itertools.permutations(chosen)) if len(chosen) <= 2 else [chosen, chosen[::-1]]
            for order in orders:
                _, expected = check(df, rf, dict(order), ctx)
            check(df, rf, dict(chosen), ctx, keep=False)
            if all(v is not None for m, _ in rf.rows for v in m.values()):
                # nothing is missing, so this makes no difference
                same = quietly(df.filter, has_nan=False, **dict(chosen))[0]
                if expected.rows:
                    compare(same, expected, rtol=0, what="{} has_nan=False: ".format(chosen), full=False)
                elif len(same):
                    raise Violation("{} has_nan=False: {} series left".format(chosen, len(same)))
            # one after the other
            cols = {c for c, _ in chosen}
            if not {"level", "variable"} <= cols:
                for order in orders:
                    step = df
                    for c, v in order:
                        step = quietly(step.filter, **{c: v})[0]
                        ctx.step()
                    if not expected.rows:
                        if len(step):
                            raise Violation("{}: {} series left".format(order, len(step)))
                    else:
                        compare(step, expected, rtol=0, what="{} successively: ".format(order), full=False)
            ctx.trace()
    elif kind == "large":
        run_large(case, ctx)
    elif kind == "containers":
        run_containers(case, ctx)
    elif kind == "exact":
        rows = []
        odd = ("a", "a b", "a|b", "(a)", "a.b", "[a]", "a+", "a?", "^a", "a$", "{1}", "a\\", "ä", "")
        for i, (x, y) in enumerate(itertools.product(odd, repeat=2)):
            rows.append((meta(scenario=x or "-", variable=y or "-", tag=x, model="m" + y), (i, -i)))
        rf = RF.make(rows, (seconds(2000), seconds(2001)))
        df = build(rf)
        for m, c in rf.rows:
            res, expected = check(df, rf, {k: m[k] for k in m}, ctx)
            if len(expected.rows) != 1:
                raise AssertionError("reference")
            ctx.trace()
    elif kind == "regexp":
        rf = text_frame(None, None, "variable", texts=list(NAMES))
        df = build(rf)
        for p in ("Emissions.*", "Emissions\\|CO2$", ".*(CO2|CH4)$", "^S", "E.{8}.CO2", "[^E]", "Emissions$|Surface", ""):
            got = list(quietly(df.filter, variable=p, regexp=True)[0].meta["variable"])
            expected = [n for n in NAMES if re.compile(p).match(n)]
            if got != expected:
                raise Violation("regexp {}: {}, expected {}".format(p, got, expected))
            got = list(quietly(df.filter, variable=[p, "CO2"], regexp=True, keep=False)[0].meta["variable"])
            expected = [n for n in NAMES if not re.compile(p).match(n) and not n.startswith("CO2")]
            if got != expected:
                raise Violation("regexp {}: {}, expected {}".format(p, got, expected))
            ctx.step(2)
            ctx.trace()
    elif kind == "errors":
        df = build(FRAMES["holes"])
        for kwargs, names in (
            (dict(unknown="x"), ("ValueError",)),
            (dict(year=2000.5), ("TypeError",)),
            (dict(year="2000"), ("TypeError",)),
            (dict(year=[2000, "2001"]), ("TypeError",)),
            (dict(month="Foo"), ("ValueError",)),
            (dict(month=["Jan", "Foo-Bar"]), ("ValueError",)),
            (dict(day="Foo"), ("ValueError",)),
            (dict(time=2000), ("TypeError",)),
            (dict(time=[2000, 2001]), ("TypeError",)),
            (dict(tag="x", has_nan=False), ("TypeError",)),
            (dict(level="1"), ("ValueError",)),
            (dict(variable="*", level="1="), ("ValueError",)),
        ):
            for keep in (True, False):
                res = attempt(df.filter, keep=keep, **kwargs)
                if res[0] != "err" or res[1] not in names:
                    raise Violation("filter({}): {}, expected {}".format(kwargs, res, names))
                ctx.step()
                ctx.trace()
    elif kind == "empty":
        rf = FRAMES[case[1]]
        for first in (dict(variable="nothing"), dict(year=1)):
            df = quietly(build(rf).filter, **first)[0]
            for c, v in CRITERIA:
                if c not in rf.cols | {"year", "month", "day", "hour", "time", "level"}:
                    continue
                for keep in (True, False):
                    res = quietly(df.filter, keep=keep, **{c: v})[0]
                    ctx.step()
                    if len(res) or res.time_points.size or set(res.meta.columns) != rf.cols:
                        raise Violation("{} of an empty frame: {} series".format((c, v), len(res)))
            ctx.trace()
