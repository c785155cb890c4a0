"""C20: the content of a frame does not depend on its construction format."""

import csv
import datetime as dt
import itertools
import os
import tempfile

import numpy as np
import pandas as pd

from openscm.scmdataframe import ScmDataFrame, df_append
from openscm.scmdataframe.base import ScmDataFrameBase
from openscm.scmdataframe.pyam_compat import IamDataFrame, LongDatetimeIamDataFrame

from ..engine import Violation
from ..frames import REQUIRED, RF, build, compare, quietly, to_datetime
from ..util import attempt, seconds

PROP = "C20"
ASSUMPTIONS = [
    "string times are ISO formatted (months etc. may have a single digit) or years; the times of a table in long format are of one kind; arrays (with columns=) are given with ascending, distinct times",
    "every series and every time has at least one value; metadata are complete in long format",
    "metadata strings in files do not look like numbers or missing values",
    "Excel files are not covered (no working reader is installed)",
]
BOUNDS = {
    "quick": "7 frames (years, sub-daily, beyond pandas' limits, extra text and number metadata, missing values, single series) x 9 time representations x 12 layouts x all orders of series and of times (all orders of cells for 2x2) x 5 orders of columns x 3 spellings of column names; CSV files wide and long; arrays with metadata, data and times in every combination of 8 x 12 x 21 kinds of containers; up to 130 series or times in every layout; every set of missing required columns in every layout; all series of the bundled scenarios",
    "thorough": "all orders of columns and all orders of 6 cells",
}


def meta(i, **more):
    return dict(
        dict(
            model="m|x",
            scenario=("a b", "b", "b")[i],
            region=("World", "World", "World|A")[i],
            variable=("Emissions|CO2", "Emissions|CO2", "T (x), \"y\"")[i],
            unit=("GtC/yr", "GtC/yr", "K")[i],
        ),
        **more
    )


Y = [seconds(y) for y in (1996, 2005, 2100)]
FAR = [seconds(y) for y in (1000, 2005, 5000)]
D = [seconds(2005, 2, 28, 23, 59, 59), seconds(2005, 7, 1, 12, 30), seconds(2005, 11, 10, 9)]
V = [[1.25, -2.0, 3e-12], [4.0, 5.5, 6e12], [0.0, 8.0, 9.125]]

FRAMES = {
    "years": RF.make([(meta(i), V[i]) for i in range(3)], Y),
    "far": RF.make([(meta(i, tag="t{}".format(i), n=i + 0.5) , V[i]) for i in range(3)], FAR),
    "days": RF.make([(meta(i, tag="t"), V[i]) for i in range(3)], D),
    "holes": RF.make(
        [(meta(0), [1.0, None, 2.0]), (meta(1), [None, 3.0, None]), (meta(2), [None, None, 4.0])], Y
    ),
    "cells": RF.make([(meta(i, n=2.0 - i), V[i][:2]) for i in range(2)], Y[:2]),
    "old": RF.make([(meta(i), V[i][:2]) for i in range(2)], [seconds(850), seconds(1000)]),
    "one": RF.make([(meta(2, tag="x"), V[1])], D),
}
def unpadded(t):
    d = to_datetime(t)
    return "{:04d}-{}-{} {}:{}:{}".format(d.year, d.month, d.day, d.hour, d.minute, d.second)


# how times are written: (applies to, function)
YEARS = ("years", "far", "holes", "cells", "old")
YEARS_ORDER = {t: i % 3 for i, t in enumerate(Y + [seconds(y) for y in (1000, 5000, 850)])}
TIMES = {
    "datetime": (tuple(FRAMES), to_datetime),
    "text": (tuple(FRAMES), lambda t: to_datetime(t).isoformat(" ")),
    "iso": (tuple(FRAMES), lambda t: to_datetime(t).isoformat()),
    "timestamp": (("years", "days", "holes", "cells", "one"), lambda t: pd.Timestamp(to_datetime(t))),
    "date": (YEARS, lambda t: to_datetime(t).date().isoformat()),
    "year": (YEARS, lambda t: to_datetime(t).year),
    "year text": (YEARS, lambda t: str(to_datetime(t).year)),
    "unpadded": (tuple(FRAMES), unpadded),
    "mixed": (YEARS, lambda t: (to_datetime(t), to_datetime(t).year, to_datetime(t).isoformat())[YEARS_ORDER[t]]),
    "year float": (YEARS, lambda t: float(to_datetime(t).year)),
}
LAYOUTS = (
    "wide",
    "wide index",
    "wide part index",
    "long",
    "long index",
    "long series",
    "array",
    "array frame",
    "wide file",
    "long file",
    "wide file ;",
    "frame",
    "iam",
)
CASES = (str, str.upper, str.title)


class NotApplicable(Exception):
    pass


def cells(rf):
    return [(m, t, c[t]) for m, c in rf.rows for t in rf.times if t in c]


def column_orders(cols, thorough):
    cols = list(cols)
    if thorough and len(cols) <= 6:
        return list(itertools.permutations(cols))
    return [cols, cols[::-1], cols[2:] + cols[:2], cols[1::2] + cols[::2], sorted(cols)]


def make_wide(rf, rows, times, cols, spell, conv):
    data = {spell(c): [m[c] for m, _ in rows] for c in cols}
    for t in times:
        data[conv(t)] = [c.get(t, np.nan) for _, c in rows]
    return pd.DataFrame(data, columns=[spell(c) for c in cols] + [conv(t) for t in times])


def time_name(conv):
    return "year" if isinstance(conv(Y[0]), int) else "time"


def make_long(rf, rows, times, cols, spell, conv, order=None):
    found = [(m, t, c[t]) for m, c in rows for t in times if t in c]
    if order is not None:
        found = [found[i] for i in order]
    data = {spell(c): [m[c] for m, _, _ in found] for c in cols}
    data[spell(time_name(conv))] = [conv(t) for _, t, _ in found]
    data[spell("value")] = [v for _, _, v in found]
    return pd.DataFrame(data)


def write(table, path, sep=","):
    with open(path, "w", newline="", encoding="utf-8") as f:
        w = csv.writer(f, delimiter=sep)
        w.writerow([str(c) for c in table.columns])
        for row in table.values.tolist():
            w.writerow(["" if isinstance(v, float) and np.isnan(v) else repr(v) if isinstance(v, float) else str(v) for v in row])


def construct(layout, rf, rows, times, cols, spell, conv, tmp, order=None):
    if "index" in layout or "series" in layout:
        if spell is not str:
            raise NotApplicable  # only names of columns may be capitalised
    rows = [rf.rows[i] for i in rows]
    times = [rf.times[i] for i in times]
    if layout.startswith("long"):
        table = make_long(rf, rows, times, cols, spell, conv, order)
    elif not layout.startswith("array"):
        table = make_wide(rf, rows, times, cols, spell, conv)
    if layout in ("wide", "long"):
        return ScmDataFrame(table)
    if layout == "wide index":
        if any(isinstance(c, pd.Timestamp) for c in table.columns):
            # as pandas gives it
            idx = table.set_index([spell(c) for c in cols])
            idx.columns = pd.DatetimeIndex(idx.columns)
            return ScmDataFrame(idx)
        return ScmDataFrame(table.set_index([spell(c) for c in cols]))
    if layout == "wide part index":
        return ScmDataFrame(table.set_index([spell(c) for c in cols[1:3]]))
    if layout == "long index":
        return ScmDataFrame(table.set_index([spell(c) for c in cols]))
    if layout == "long series":
        return ScmDataFrame(
            table.set_index([spell(c) for c in cols] + [spell(time_name(conv))])[spell("value")]
        )
    if layout.startswith("array"):
        if times != sorted(times):
            raise NotApplicable
        values = [[c.get(t, np.nan) for _, c in rows] for t in times]
        columns = {}
        for c in cols:
            given = [m[c] for m, _ in rows]
            if len(set(given)) == 1:
                given = given[:1] if len(columns) % 2 else given[0]
            columns[spell(c) if False else c] = given
        index = [conv(t) for t in times]
        if layout == "array":
            kinds = [index, np.array(times).astype("datetime64[s]"), pd.Index(index, dtype=object)]
            if len(rows) == 1:
                return ScmDataFrame(np.array(values)[:, 0], index=index, columns=columns)
            return ScmDataFrame(
                np.array(values) if len(cols) % 2 else values, index=kinds[rf.times.index(times[0]) % 3 + 0], columns=columns
            )
        frame = pd.DataFrame(values, index=pd.Index(index, dtype=object))
        if len(rows) == 1:
            return ScmDataFrame(frame[0], columns=columns)
        return ScmDataFrame(frame, columns=columns)
    if layout.endswith("file") or layout.endswith("file ;"):
        path = os.path.join(tmp, "x.csv")
        write(table, path, ";" if layout.endswith(";") else ",")
        return ScmDataFrame(path, sep=";") if layout.endswith(";") else ScmDataFrame(path)
    if layout == "frame":
        return ScmDataFrame(ScmDataFrameBase(table))
    if layout == "iam":
        if any(np.isnan(v) for v in table[[c for c in table if not isinstance(c, str) or c.lower() not in cols]].values.ravel()):
            raise NotApplicable
        if spell is not str:
            raise NotApplicable
        cls = IamDataFrame
        if isinstance(conv(Y[0]), (float, str)):
            raise NotApplicable
        if not isinstance(conv(Y[0]), int) and (max(times) > seconds(2262) or min(times) < seconds(1678)):
            cls = LongDatetimeIamDataFrame
        return ScmDataFrame(cls(table))
    raise AssertionError(layout)


# how the metadata of arrays may be given
CONTAINERS = {
    "list": list,
    "tuple": tuple,
    "array": np.array,
    "object array": lambda v: np.array(v, dtype=object),
    "index": pd.Index,
    "series": pd.Series,
    "named series": lambda v: pd.Series(v, index=["i{}".format(k) for k in range(len(v))], name="x"),
    "categorical": pd.Categorical,
}
# ... the data (array of times x series)
DATA = {
    "list": lambda v: v.tolist(),
    "tuple": lambda v: tuple(map(tuple, v.tolist())),
    "array": np.array,
    "fortran": np.asfortranarray,
    "reversed view": lambda v: v[::-1].copy()[::-1],
    "strided": lambda v: np.repeat(v, 3, axis=1)[:, ::3],
    "float32": lambda v: v.astype("f4"),
    "objects": lambda v: v.astype(object),
    "read-only": lambda v: np.frombuffer(v.tobytes()).reshape(v.shape),
    "frame": pd.DataFrame,
    "named frame": lambda v: pd.DataFrame(v, columns=["c{}".format(k) for k in range(v.shape[1])]),
    "same names": lambda v: pd.DataFrame(v, columns=["c"] * v.shape[1]),
}
# ... and the times
INDEX = {
    "list": list,
    "tuple": tuple,
    "array": np.array,
    "int16": lambda y: np.array(y, dtype="i2"),
    "unsigned": lambda y: np.array(y, dtype="u8"),
    "float": lambda y: np.array(y, dtype=float),
    "text": lambda y: [str(x) for x in y],
    "text array": lambda y: np.array([str(x) for x in y]),
    "seconds": lambda y: np.array([str(x) for x in y], dtype="M8[s]"),
    "nanoseconds": lambda y: np.array([str(x) for x in y], dtype="M8[ns]"),
    "years": lambda y: np.array([str(x) for x in y], dtype="M8[Y]"),
    "days": lambda y: np.array([str(x) for x in y], dtype="M8[D]"),
    "list of datetime64": lambda y: list(np.array([str(x) for x in y], dtype="M8[s]")),
    "datetimes": lambda y: [dt.datetime(x, 1, 1) for x in y],
    "dates": lambda y: [dt.date(x, 1, 1) for x in y],
    "timestamps": lambda y: [pd.Timestamp(x, 1, 1) for x in y],
    "index": pd.Index,
    "datetime index": lambda y: pd.DatetimeIndex([dt.datetime(x, 1, 1) for x in y]),
    "series": pd.Series,
    "range": lambda y: range(y[0], y[-1] + 1, y[1] - y[0]),
    "named": lambda y: pd.Index(y, name="year"),
}


def cases(tier):
    for name in FRAMES:
        for layout in LAYOUTS:
            for rep, (where, _) in TIMES.items():
                if name in where and not (rep == "mixed" and (layout.startswith("long") or layout == "iam")):
                    yield ("same", name, layout, rep)
    for layout in ("long", "long index", "long series", "long file"):
        yield ("cells", "cells", layout)
        if tier == "thorough":
            yield ("cells", "holes", layout)
    for layout in LAYOUTS:
        yield ("missing", layout)
    yield ("ambiguous",)
    for n in (1, 2, 3):
        for container in CONTAINERS:
            yield ("containers", n, container)
    for layout in LAYOUTS:
        for rep in ("datetime", "text", "year"):
            if not (rep == "text" and layout == "iam"):
                yield ("large", layout, rep, 400 if tier == "thorough" else 130)
    for rcp in ("rcp26", "rcp45", "rcp60", "rcp85"):
        yield ("scenario", rcp)


def check(df, rf, what, ctx):
    ctx.step()
    compare(df, rf, what=what, full=False, rtol=4e-15, strict=True)


def run(case, ctx):
    with tempfile.TemporaryDirectory() as tmp:
        globals()["run_" + case[0]](case, ctx, tmp)


def run_same(case, ctx, tmp):
    _, name, layout, rep = case
    rf, conv = FRAMES[name], TIMES[rep][1]
    if layout.startswith("long") and not all(m[c] is not None for m, _ in rf.rows for c in rf.cols):
        return
    n, k = len(rf.rows), len(rf.times)
    all_cols = list(REQUIRED) + sorted(rf.cols - set(REQUIRED))
    variants = []
    for rows in itertools.permutations(range(n)):
        for times in itertools.permutations(range(k)):
            variants.append((rows, times, all_cols, str))
    for cols in column_orders(all_cols, ctx.thorough):
        for spell in CASES:
            variants.append((tuple(range(n)), tuple(range(k)), list(cols), spell))
    for rows, times, cols, spell in variants:
        try:
            df = quietly(construct, layout, rf, rows, times, cols, spell, conv, tmp)[0]
        except NotApplicable:
            ctx.outcome("not applicable")
            continue
        ctx.state(name, layout, rep, rows, times, tuple(cols), spell.__name__)
        ctx.outcome((layout, rep))
        check(df, rf, "{} {} {}: ".format(case, (rows, times), cols), ctx)
        ctx.trace()


def run_cells(case, ctx, tmp):
    _, name, layout = case
    rf = FRAMES[name]
    n = len(cells(rf))
    cols = list(REQUIRED) + sorted(rf.cols - set(REQUIRED))
    for rep in ("datetime", "year", "text"):
        for order in itertools.permutations(range(n)):
            df = construct(
                layout, rf, range(len(rf.rows)), range(len(rf.times)), cols, str, TIMES[rep][1], tmp, order
            )
            ctx.state(name, layout, rep, order)
            check(df, rf, "{} cells {}: ".format(case, order), ctx)
            ctx.trace()


def run_missing(case, ctx, tmp):
    layout = case[1]
    rf = FRAMES["years"]
    for n in range(1, 6):
        for missing in itertools.combinations(REQUIRED, n):
            cols = [c for c in REQUIRED if c not in missing]
            if layout == "iam":
                continue
            if layout == "wide part index":
                cols = cols + ["x", "y", "z"]
                part = RF([(dict(m, x="1", y="2", z="3"), c) for m, c in rf.rows], rf.times, rf.cols)
            else:
                cols = cols + ["x"]
                part = RF([(dict(m, x="1"), c) for m, c in rf.rows], rf.times, rf.cols)
            for rep in ("year", "datetime"):
                res = attempt(construct, layout, part, range(3), range(3), cols, str, TIMES[rep][1], tmp)
                ctx.step()
                ctx.state(layout, missing, rep)
                if res != ("err", "ValueError"):
                    raise Violation("{} without {}: {}".format(layout, missing, res))
                ctx.trace()


def run_ambiguous(case, ctx, tmp):
    rf = FRAMES["years"]
    cols = list(REQUIRED)
    long = make_long(rf, rf.rows, rf.times, cols, str, TIMES["year"][1])
    wide = make_wide(rf, rf.rows, rf.times, cols, str, to_datetime)
    array = np.array([[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]])
    columns = {c: ["x"] for c in cols}
    bad = {
        "year and time": (lambda: ScmDataFrame(long.assign(time=dt.datetime(2000, 1, 1))), "ValueError"),
        "neither": (lambda: ScmDataFrame(long.drop("year", axis=1)), "ValueError"),
        "neither, index": (lambda: ScmDataFrame(long.drop("year", axis=1).set_index(cols)), "ValueError"),
        "no times": (lambda: ScmDataFrame(wide[cols]), "ValueError"),
        "no times but extra": (lambda: ScmDataFrame(wide[cols].assign(tag="x")), "ValueError"),
        "files": (lambda: ScmDataFrame(["a.csv", "b.csv"]), "ValueError"),
        "number": (lambda: ScmDataFrame(5), "TypeError"),
        "array alone": (lambda: ScmDataFrame(array), "TypeError"),
        "dict": (lambda: ScmDataFrame({"a": 1}), "TypeError"),
        "no file": (lambda: ScmDataFrame(os.path.join(tmp, "none.csv")), "OSError"),
        "wrong length": (
            lambda: ScmDataFrame(array, index=[1, 2, 3], columns=dict(columns, model=["a", "b", "c"])),
            "ValueError",
        ),
        "wrong times": (lambda: ScmDataFrame(array, index=[1, 2], columns=columns), "ValueError"),
        "bad times": (lambda: ScmDataFrame(array, index=["a", "b", "c"], columns=columns), "ValueError"),
    }
    for name, (fun, error) in bad.items():
        res = attempt(fun)
        ctx.step()
        ctx.state(name)
        ctx.outcome(res)
        expected = [error] + (["FileNotFoundError"] if error == "OSError" else []) + (
            ["ParserError"] if name == "bad times" else []
        )
        if res[0] != "err" or res[1] not in expected:
            raise Violation("{}: {}, expected {}".format(name, res, error))
        ctx.trace()


def run_containers(case, ctx, tmp):
    _, n, container = case
    years = [1990, 1995, 2000]
    values = np.array([[1.0 + k, 0.5 * k, -2.0 - k] for k in range(n)]).T
    rf = RF.make(
        [
            (dict(meta(0), scenario="s{}".format(k), tag="t{}".format(k % 2), k=float(k)), list(values[:, k]))
            for k in range(n)
        ],
        [seconds(y) for y in years],
    )
    columns = {}
    for i, c in enumerate(sorted(rf.cols)):
        given = [m[c] for m, _ in rf.rows]
        if len(set(given)) == 1:
            given = given[:1] if i % 2 else given
        columns[c] = CONTAINERS[container](given)
    for (d, data), (i, index) in itertools.product(DATA.items(), INDEX.items()):
        what = "{} data {} times {}: ".format(case, d, i)
        df = ScmDataFrame(data(values), index=index(years), columns=columns)
        check(df, rf, what, ctx)
        if isinstance(data(values), pd.DataFrame):
            table = data(values)
            table.index = pd.Index(index(years))
            check(ScmDataFrame(table, columns=columns), rf, what + "index of the data: ", ctx)
        ctx.state(case, d, i)
        ctx.trace()


def run_large(case, ctx, tmp):
    _, layout, rep, n = case
    for rows, times in ((n, 3), (3, n), (n // 2 + 1, n // 2)):
        rf = RF.make(
            [
                (
                    dict(meta(k % 3), scenario="s{}".format((k * 37) % rows), tag="t{}".format(k % 5)),
                    [((k * times + j) * 7919 % 1000) / 8 - 50 for j in range(times)],
                )
                for k in range(rows)
            ],
            [seconds(1700 + 4 * j) for j in range(times)],
        )
        conv = TIMES[rep][1]
        cols = list(REQUIRED) + ["tag"]
        for order in (1, -1):
            if layout.startswith("array") and order == -1:
                continue
            df = quietly(construct, layout, rf, range(rows)[::order], range(times)[::order], cols, str, conv, tmp)[0]
            ctx.state(case, rows, order)
            check(df, rf, "{} {} series {} times: ".format(case, rows, times), ctx)
            ctx.trace()


def run_scenario(case, ctx, tmp):
    import openscm.scenarios

    rcp = case[1]
    here = os.path.dirname(openscm.scenarios.__file__)
    with open(os.path.join(here, rcp + "_emissions.csv"), newline="") as f:
        lines = list(csv.reader(f))
    head = lines[0]
    times = {i: seconds(*[int(x) for x in h.split(" ")[0].split("-")]) for i, h in enumerate(head) if h[0].isdigit()}
    rows = []
    for line in lines[1:]:
        m = {h: (line[i] or None) for i, h in enumerate(head) if i not in times}
        rows.append((m, {t: float(line[i]) for i, t in times.items() if line[i] != ""}))
    rf = RF(rows, sorted(times.values()), set(head[i] for i in range(len(head)) if i not in times))
    rf = rf.copy().drop_empty()
    everything = openscm.scenarios.rcps
    mine = quietly(everything.filter, scenario=rcp.upper())[0]
    others = sorted(set(everything.meta["scenario"]))
    if others != ["RCP26", "RCP45", "RCP60", "RCP85"]:
        raise Violation("scenarios {}".format(others))
    ctx.step(len(rows))
    ctx.state(rcp, len(rows))
    compare(mine, rf, rtol=4e-15, strict=True, what="{}: ".format(rcp))
    compare(ScmDataFrame(os.path.join(here, rcp + "_emissions.csv")), rf, rtol=4e-15, strict=True, what="{} read: ".format(rcp))
    ctx.trace(len(rows))
