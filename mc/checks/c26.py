"""C26: writing to file and reading back preserves the frame."""

import datetime as dt
import functools
import itertools
import os
import shutil
import tempfile
import zlib

import pandas as pd

from openscm.scmdataframe import ScmDataFrame
from openscm.scmdataframe.pyam_compat import LongDatetimeIamDataFrame

from .. import frames
from ..engine import Violation
from ..frames import RF, build, quietly, snapshot, to_datetime
from ..util import seconds, to64

compare = functools.partial(frames.compare, rtol=4e-15, strict=True)

PROP = "C26"
ASSUMPTIONS = [
    "every series and every time has a value; metadata names are lower case",
    "text that pandas reads as missing (empty, NA, nan, ...) or columns of text that look like numbers are not preserved by CSV",
    "values are compared to 4e-15 (pandas reads decimal numbers to a few units in the last place); csv and pyam only (no Excel reader is installed)",
]
BOUNDS = {
    "quick": "all sets of <=2 of 12 and of 3 of 7 times (years 1 to 9999) x all patterns of missing values of two series; 27 texts x 6 metadata columns; 14 values; all sequences of <=3 conversions (csv, pyam, csv with index order) of 7 frames, after 8 operations; up to 150 series and times; times as text in 4 formats for 96 days of 4 years",
    "thorough": "all sets of <=4 times and three series, sequences of 5 conversions",
}

TIMES = [
    seconds(1),
    seconds(99, 12, 31),
    seconds(1000, 2, 28, 1),
    seconds(1677, 9, 21, 0, 12, 43),
    seconds(1970),
    seconds(2000, 2, 29),
    seconds(2000, 3, 1, 0, 0, 1),
    seconds(2000, 12, 11, 10, 9, 8),
    seconds(2010),
    seconds(2011),
    seconds(2262, 4, 11, 23, 47, 17),
    seconds(9999, 12, 31, 23, 59, 59),
]
FEWER = {0, 1, 3, 5, 6, 8, 11}
TEXTS = (
    "a,b", 'a"b', "a'b", '"', "a\nb", " a", "a ", "ä€\u4e2d", "a;b", "a\tb", "#a", "=1+1", "a|b*", "%s", "\\", "007",
    "1.5", "True", "2001-01-01", "-", "a\r\nb", "1e5", "inf", "None ", "(x)", "year", "value",
)
COLUMNS = ("model", "scenario", "variable", "region", "unit", "tag")
VALUES = (0.0, -0.0, 1.0, -1.5, 1 / 3, 0.1 + 0.2, 1e-300, 1e300, 123456789.123456789, 2.0**53 + 2, 1e22, 5e-324, 1e15 + 0.3, -7e-9)


def row(n=0, **kwargs):
    m = dict(model="m", scenario="s", variable="V%d" % n, region="World", unit="K")
    m.update(kwargs)
    return m


def cases(tier):
    thorough = tier == "thorough"
    for size in range(1, 5 if thorough else 4):
        for t in itertools.combinations(range(len(TIMES)), size):
            if size == 3 and not thorough and not set(t) <= FEWER:
                continue
            yield ("times", t, 3 if thorough and size < 4 else 2)
    for text in TEXTS:
        yield ("text", text)
    yield ("values",)
    for f in FRAMES:
        for o in OPERATIONS:
            yield ("sequence", f, o, 5 if thorough else 3)
    yield ("missing",)
    yield ("pyam text",)
    for kind in LARGE:
        for n in (12, 40, 150) + ((400, 1000) if thorough else ()):
            yield ("large", kind, n)


def run(case, ctx):
    global TMP
    TMP = tempfile.mkdtemp(prefix="c26-")
    try:
        globals()["run_" + case[0].replace(" ", "_")](case, ctx)
    finally:
        shutil.rmtree(TMP)


def csv(df):
    path = os.path.join(TMP, "frame.csv")
    if df.to_csv(path) is not None:
        raise Violation("to_csv returns something")
    return ScmDataFrame(path)


def pyam(df):
    return ScmDataFrame(df.to_iamdataframe())


def pyam_data(df):
    return ScmDataFrame(df.to_iamdataframe().data)


def check(rf, what, ctx, how=(csv, pyam)):
    df = build(rf)
    snap = snapshot(df)
    for fun in how:
        compare(fun(df), rf, what="{}{}: ".format(what, fun.__name__), full=False)
        ctx.step()
        ctx.trace()
        ctx.outcome((fun.__name__, len(rf.rows), len(rf.times)))
    if snapshot(df) != snap:
        raise Violation("{}: frame changed".format(what))


def run_times(case, ctx):
    _, chosen, nseries = case
    times = [TIMES[i] for i in chosen]
    n = len(times)
    for series in range(1, nseries + 1):
        patterns = list(itertools.product((True, False), repeat=n))
        for masks in itertools.product(patterns, repeat=series):
            if not all(any(m) for m in masks) or not all(any(m[j] for m in masks) for j in range(n)):
                continue
            rows = [
                (row(i, **({"run": i} if n % 2 else {})), [(i + 1) * (j + 0.5) if m[j] else None for j in range(n)])
                for i, m in enumerate(masks)
            ]
            rf = RF.make(rows, times)
            check(rf, "{} {}".format([str(to_datetime(t)) for t in times], masks), ctx)
            ctx.state(chosen, masks)


def run_text(case, ctx):
    text = case[1]
    for col in COLUMNS:
        for others in (("other",), ("other", text + "x")):
            rows = [(row(0, **{col: v}), [1.0 + i, 2.0, None if i else 3.0]) for i, v in enumerate((text,) + others)]
            for r in rows:
                r[0].setdefault("tag", "t")
            check(RF.make(rows, TIMES[6:9]), "{} {!r}".format(col, text), ctx)
            ctx.state(text, col, others)


def run_values(case, ctx):
    for a, b in itertools.product(VALUES, repeat=2):
        rows = [(row(0, run=1), [a, b]), (row(1, run=2), [b, 1.0])]
        check(RF.make(rows, TIMES[8:10]), "values {}, {}".format(a, b), ctx)
        ctx.state(a, b)


FRAMES = {
    "one": ([(row(), [1, 2, 3])], TIMES[8:11]),
    "two": ([(row(0), [1, None, 3]), (row(1), [4, 5, None])], TIMES[2:5]),
    "meta": ([(row(0, run=1, tag="x"), [1, 2, 3]), (row(0, run=2, tag="y,z"), [4, 5, 6]), (row(1, run=1.5, tag="x"), [7, 8, 9])], TIMES[4:7]),
    "regions": ([(row(0, region="World|%d" % i), [i, 2 * i + 1, -i]) for i in range(4)], TIMES[8:11]),
    "years": ([(row(i), [i, 2, 3]) for i in range(2)], [seconds(2000), seconds(2001), seconds(2005)]),
    "long": ([(row(i, scenario="s%d" % (2 - i)), [i, 2, 3, 4]) for i in range(3)], TIMES[:3] + TIMES[11:]),
}
# every two neighbours differ in one of the metadata only
def similar(n, times, cols=("unit", "region", "scenario", "variable", "model", "run", "tag")):
    rows = []
    m = dict(row(0), run=0, tag="t")
    for k in range(n):
        rows.append((dict(m), [k % 7 + 0.25 * j for j in range(len(times))]))
        c = cols[k % len(cols)]
        m[c] = k + 1 if c == "run" else "V1" if c == "variable" and k % 2 else "%s%d" % (c, k)
    return rows, times


FRAMES["similar"] = similar(16, TIMES[8:11], ("region", "scenario", "variable", "model", "run", "tag"))
LARGE = {
    "series": lambda n: similar(n, TIMES[6:8]),
    "times": lambda n: similar(3, [seconds(1750 + j) for j in range(n)]),
    "both": lambda n: similar(n // 3, [seconds(1750 + j, 7) for j in range(n // 2)]),
    "seconds": lambda n: similar(2, [TIMES[6] + 61 * j for j in range(n)]),
    "long": lambda n: similar(3, [seconds(1000 + 33 * j, 2, 28, 23, 59, 59) for j in range(min(n, 250))]),
}


def run_large(case, ctx):
    _, kind, n = case
    rf = RF.make(*LARGE[kind](n))
    check(rf, "{}: ".format(case), ctx, how=(csv, pyam, pyam_data))
    ctx.state(case)


def op_nothing(df, rf):
    return df, rf


def op_filter(df, rf):
    return df.filter(variable="V0"), rf.filter(lambda m: m["variable"] == "V0")


def op_times(df, rf):
    y = to_datetime(rf.times[-1]).year
    return df.filter(year=y, keep=False), rf.filter(time=lambda t: to_datetime(t).year == y, keep=False)


def op_rename(df, rf):
    change = {"variable": {"V0": "A,B|\"C\""}}
    return df.rename(change), rf.rename(change)


def note_of(m):
    return "n%d" % (zlib.crc32("|".join(str(m[c]) for c in ("model", "scenario", "region", "variable", "unit")).encode()) % 1000)


def op_meta(df, rf):
    new = df.copy()
    new["note"] = [note_of(r) for _, r in df.meta.iterrows()]
    return new, rf.set_meta("note", note_of)


def op_context(df, rf):
    return df.convert_unit("mK", context="AR4GWP100"), rf.convert_unit("mK", context="AR4GWP100")


def op_append(df, rf):
    extra = {c: "7" for c in rf.cols if c not in row()}
    other = RF.make([(row(5, **extra), [5.0, 6.0])], [rf.times[0] + 86400, rf.times[-1]])
    if {"run"} & rf.cols:
        for m, _ in other.rows:
            m["run"] = 7
    return df.append(build(other)), rf.append(other)


def op_interpolate(df, rf):
    if not rf.complete():
        return df, rf
    a, b = rf.times[0], rf.times[-1]
    target = [a, a + (b - a) // 3, b]
    return quietly(df.interpolate, to64(target))[0], rf.interpolate(target)


OPERATIONS = ("nothing", "filter", "times", "rename", "meta", "context", "append", "interpolate")


def run_sequence(case, ctx):
    _, name, operation, depth = case
    rf = RF.make(*FRAMES[name])
    df, rf = globals()["op_" + operation](build(rf), rf)
    compare(df, rf, what="{} {}: ".format(name, operation), full=False)
    for d in range(1, depth + 1):
        for funs in itertools.product((csv, pyam, pyam_data), repeat=d):
            got = df
            for fun in funs:
                got = fun(got)
                ctx.step()
            compare(got, rf, what="{} {} {}: ".format(name, operation, [f.__name__ for f in funs]), full=False)
            ctx.state(case, tuple(f.__name__ for f in funs))
            ctx.trace()
    ctx.outcome(operation)


def run_pyam_text(case, ctx):
    """Times given to the pyam frame for long times as text are not misread."""
    formats = ("%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%d", "%Y/%m/%d %H:%M")
    for y in ("1000", "2005", "2012", "9999"):
        for m, d in itertools.product(range(1, 13), (1, 2, 3, 10, 11, 12, 13, 28)):
            times = [dt.datetime(int(y), m, d), dt.datetime(int(y), m, d, 13, 1)]
            for f in formats:
                given = times[:1] if f == "%Y-%m-%d" else times
                exp = RF.make([(row(), [1.0, 2.0][: len(given)])], [seconds(*t.timetuple()[:6]) for t in given])
                table = pd.DataFrame([dict(row(), time=t.strftime(f), value=1.0 + i) for i, t in enumerate(given)])
                long = LongDatetimeIamDataFrame(table)
                if [t for t in long.data["time"]] != given:
                    raise Violation("{} in format {} read as {}".format(given, f, list(long.data["time"])))
                compare(ScmDataFrame(long), exp, what="{} {}: ".format(given, f), full=False)
                ctx.step(2)
                ctx.state(y, m, d, f)
        ctx.trace()


def run_missing(case, ctx):
    """pyam refuses missing metadata (known); what is not refused has to be right."""
    for col in ("tag", "run"):
        for pattern in itertools.product((None, 1), repeat=3):
            if all(pattern):
                continue
            rows = [(row(i, **{col: p and (p if col == "run" else "x")}), [1, 2, 3]) for i, p in enumerate(pattern)]
            rf = RF.make(rows, TIMES[8:11], extra=(col,))
            df = build(rf)
            snap = snapshot(df)
            for fun in (csv, pyam):
                what = "{} {} {}: ".format(col, pattern, fun.__name__)
                try:
                    got = fun(df)
                except ValueError as e:
                    ctx.outcome("refused")
                    if "empty cells" in str(e):
                        ctx.report(what + str(e)[:100], "missing-metadata-refused")
                    else:
                        raise Violation(what + str(e)[:200])
                else:
                    compare(got, rf, what=what, full=False)
                ctx.step()
                ctx.trace()
                ctx.state(col, pattern, fun.__name__)
                if snapshot(df) != snap:
                    raise Violation(what + "frame changed")
