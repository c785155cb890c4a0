"""C27: exports, pivot tables and plots show exactly the frame's data."""

import itertools

import pandas as pd

from ..engine import Violation
from ..frames import RF, Refused, build, compare, norm, quietly, secs, snapshot, to_datetime
from ..util import close, seconds, to64
from . import c26

PROP = "C27"
ASSUMPTIONS = [
    "no metadata are missing (pyam refuses them, C26)",
    "pyam rounds means to two decimals and its 'count' is only the presence of data",
    "plots: complete series at starts of evenly spaced years which pandas can represent (it draws others on its own grid of periods or refuses them); region_plot does not exist in the installed pyam and scatter needs pyam's own metadata",
]
BOUNDS = {
    "quick": "9 frames (missing values, years 1 to 9999, several regions and runs) after each of 8 operations: the exported data; sums for all choices of 1-2 index and a further column out of the metadata and time (of the original frame two and two), for one and one also count, mean, min, max; line plots (plain, coloured and styled by each metadata column); tables of time by each column after all sequences of 2 operations; the exported data and tables of one frame before, between and after all sequences of 2 changes in place; up to 40 series and times",
    "thorough": "sequences of <=3 operations (and changes in place) with all tables, 3 index columns",
}
AGGREGATES = ("count", "mean", "sum", "min", "max")
PLAIN = ["nothing", "filter", "times", "rename", "meta", "context", "append", "interpolate"]


def cases(tier):
    thorough = tier == "thorough"
    for f in FRAMES:
        for n in range(1, 4 if thorough else 3):
            for ops in itertools.product(PLAIN, repeat=n):
                if "nothing" in ops and n > 1:
                    continue
                yield ("tables", f, ops, 3 if thorough else 2)
    for f in FRAMES:
        for o in PLAIN:
            yield ("lines", f, o)
            yield ("export", f, o)
    for f in FRAMES:
        for a in INPLACE:
            yield ("again", f, a, 3 if thorough else 2)
    for kind in c26.LARGE:
        for n in (12, 40) + ((150,) if thorough else ()):
            yield ("large", kind, n)


FRAMES = dict(c26.FRAMES)
FRAMES["xy"] = (
    [
        (dict(c26.row(v, region=r, scenario=s), variable="V%d" % v), [v + 1, 3 * v - i, 2 + i, i * v])
        for v in (0, 1)
        for i, (r, s) in enumerate((("World", "s"), ("World|A", "s"), ("World", "t")))
    ],
    [seconds(y) for y in (2000, 2001, 2002, 2003)],
)
FRAMES["flat"] = ([(c26.row(i, tag="xyz"[i], run=2 * i), [2 - i, 5, i]) for i in range(3)], [seconds(y) for y in (1999, 2009, 2019)])


def later(t):
    """Another time (between the years 1 and 9999)."""
    return t - t % 7000 if t > 0 else t + -t % 7000


def in_filter(df, rf):
    v = sorted(m["variable"] for m, _ in rf.rows)[-1]
    df.filter(variable=v, inplace=True)
    return rf.filter(lambda m: m["variable"] == v)


def in_rename(df, rf):
    change = {"variable": {"V0": "V9", "V9": "V0"}, "region": {"World": "World|C"}}
    df.rename(change, inplace=True)
    return rf.rename(change)


def in_meta(df, rf):
    c = "note" if "note" in rf.cols else "scenario"
    df[c] = [c26.note_of(r) for _, r in df.meta.iterrows()]
    return rf.set_meta(c, c26.note_of)


def in_new(df, rf):
    df.set_meta(len(rf.cols), "note")
    return rf.set_meta("note", lambda m: len(rf.cols))


def in_unit(df, rf):
    df.convert_unit("mK", inplace=True)
    return rf.convert_unit("mK")


def in_time(df, rf):
    df["time"] = to64([later(t) for t in rf.times])
    res = rf.copy()
    res.times = [later(t) for t in rf.times]
    res.rows = [(m, {later(t): v for t, v in c.items()}) for m, c in rf.rows]
    return res


def in_append(df, rf):
    other = RF.make([(dict({c: "7" for c in rf.cols if c not in c26.row()}, **c26.row(5)), [5.0, 6.0])], [rf.times[0] + 86400, rf.times[-1]])
    for c in ("run", "note"):
        if c in rf.cols and not isinstance(rf.rows[0][0][c], str):
            other.rows[0][0][c] = 7
    df.append(build(other), inplace=True)
    return rf.append(other)


INPLACE = {"filter": in_filter, "rename": in_rename, "meta": in_meta, "new": in_new, "unit": in_unit, "time": in_time, "append": in_append}


def run_again(case, ctx):
    """The data of one frame are looked at again and again while it is changed."""
    _, name, first, depth = case
    for rest in itertools.product(INPLACE, repeat=depth - 1):
        rf = RF.make(*FRAMES[name])
        df = build(rf)
        look(df, rf, ctx, "{}: ".format(name))
        for i, o in enumerate((first,) + rest):
            what = "{} after {} in place: ".format(name, ((first,) + rest)[: i + 1])
            try:
                rf = quietly(INPLACE[o], df, rf)[0]
            except Refused:
                break
            if not rf.rows or not rf.unique() or any(v is None for m, _ in rf.rows for v in m.values()):
                break
            look(df, rf, ctx, what)
        ctx.trace()


def look(df, rf, ctx, what):
    iam = exported(df, rf, what)
    # what is exported does not belong to the frame any longer
    iam.data["value"] = -1.0
    iam.rename({"variable": {v: "other" for v in {m["variable"] for m, _ in rf.rows}}}, inplace=True)
    data = cells(rf)
    for c in ("variable", "unit") + (("note",) if "note" in rf.cols else ("scenario",)):
        table(ctx, df, data, ("time",), (c,), "sum", what)
    compare(df, rf, strict=True, what=what)
    ctx.state(what)


def run_large(case, ctx):
    _, kind, n = case
    rf = RF.make(*c26.LARGE[kind](n))
    df = build(rf)
    snap = snapshot(df)
    exported(df, rf, "{}: ".format(case))
    data = cells(rf)
    for index, columns in ((("time",), ("run",)), (("model", "region"), ("unit",)), (("variable", "time"), ("tag", "scenario"))):
        if len({place(m, c) for m, _ in data for c in index + columns}) < 200:
            table(ctx, df, data, index, columns, "sum", "{}: ".format(case))
    if snapshot(df) != snap:
        raise Violation("{}: frame changed".format(case))
    ctx.step()
    ctx.state(case)
    ctx.trace()


def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)


def reach(name, ops):
    rf = RF.make(*FRAMES[name])
    df = build(rf)
    for o in ops:
        if o == "interpolate" and len(rf.times) < 3:
            return None, None
        df, rf = getattr(c26, "op_" + o)(df, rf)
        if not rf.rows:
            return None, None
    return df, rf


def cells(rf):
    """[(metadata and time, value)]"""
    return [(dict(m, time=t), v) for m, c in rf.rows for t, v in c.items()]


def label(x):
    if hasattr(x, "year"):
        return secs(x)
    x = norm(x)
    return float(x) if isinstance(x, int) else x


def place(m, c):
    return m[c] if c == "time" else label(m[c])


def value_of(kind, values):
    if kind == "mean":
        return sum(values) / len(values)
    return {"sum": sum, "min": min, "max": max}[kind](values)


def run_tables(case, ctx):
    _, name, ops, most = case
    df, rf = reach(name, ops)
    if df is None:
        return
    what = "{} after {}: ".format(name, ops)
    snap = snapshot(df)
    data = cells(rf)
    if any(v is None for c in rf.cols for v in (m[c] for m, _ in rf.rows)):
        # (op_context leaves no missing ones, append of frames without a column does)
        ctx.outcome("missing metadata")
        return
    # a column with one value only and one like it tell nothing new
    varying = sorted(c for c in rf.cols if len({repr(m[c]) for m, _ in rf.rows}) > 1)
    names = ["time"] + varying + [c for c in ("unit",) if c not in varying]
    single = len(ops) > 1 and most < 3
    shapes = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)]
    shapes = shapes[:5] if most == 3 else shapes[:4] if ops == ("nothing",) else shapes[:1] if single else shapes[:2]
    for ni, nc in shapes:
        for index in itertools.combinations(names, ni):
            for columns in itertools.combinations([n for n in names if n not in index], nc):
                if single and "time" not in index + columns:
                    continue
                for kind in AGGREGATES if len(ops) == 1 and ni + nc == 2 else ("sum",):
                    table(ctx, df, data, index, columns, kind, what)
    if snapshot(df) != snap:
        raise Violation("{}frame changed by the tables".format(what))
    ctx.trace()
    ctx.outcome(len(rf.rows))


def table(ctx, df, data, index, columns, kind, what):
    index, columns = list(index), list(columns)
    what = "{}pivot of {} by {} ({}): ".format(what, index, columns, kind)
    groups = {}
    for m, v in data:
        key = (tuple(place(m, i) for i in index), tuple(place(m, c) for c in columns))
        groups.setdefault(key, []).append(v)
    short = len(index) == 1 and len(columns) == 1
    got = df.pivot_table(
        index[0] if short else index, columns[0] if short else columns, aggfunc=kind
    )
    ctx.step()
    ctx.state(what)
    if list(got.index.names) != index or list(got.columns.names) != columns:
        raise Violation("{}names {}, {}".format(what, got.index.names, got.columns.names))

    def keys(axis):
        return [tuple(map(label, k)) if isinstance(k, tuple) else (label(k),) for k in axis]

    rows, cols = keys(got.index), keys(got.columns)
    if sorted(map(repr, rows)) != sorted({repr(r) for r, _ in groups}) or sorted(map(repr, cols)) != sorted(
        {repr(c) for _, c in groups}
    ):
        raise Violation("{}rows {}, columns {}".format(what, rows, cols))
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            v = got.iloc[i, j]
            if (r, c) not in groups:
                if not (v == "" or v == 0 or v != v):
                    raise Violation("{}{} at {}, {} where there is no data".format(what, v, r, c))
                continue
            if v == "":
                raise Violation("{}nothing at {}, {}, expected the {} of {}".format(what, r, c, kind, groups[r, c]))
            if kind == "count":
                if not v > 0:
                    raise Violation("{}{} at {}, {}".format(what, v, r, c))
                continue
            expected = value_of(kind, groups[r, c])
            if not close(v, expected, 1e-9, 0.00501 if kind == "mean" else 1e-9):
                raise Violation("{}{} at {}, {}, expected {}".format(what, v, r, c, expected))


def run_export(case, ctx):
    _, name, op = case
    df, rf = reach(name, (op,))
    if df is None or any(v is None for m, _ in rf.rows for v in m.values()):
        return
    ctx.step()
    iam = exported(df, rf, "{} {}: ".format(name, op))
    for m, _ in rf.rows:
        part = iam.filter(variable=m["variable"], region=m["region"])
        if len(part.data) != sum(
            len(c) for n, c in rf.rows if (n["variable"], n["region"]) == (m["variable"], m["region"])
        ):
            raise Violation("{} {}: selection of {} has {}".format(name, op, m, part.data))
    ctx.state(case)
    ctx.trace()


def exported(df, rf, what):
    iam = df.to_iamdataframe()
    expected = sorted(
        repr((sorted((k, repr(place(m, k))) for k in m), round(v, 9))) for m, v in cells(rf)
    )
    got = []
    for _, r in iam.data.iterrows():
        r = dict(r)
        v = float(r.pop("value"))
        got.append(repr((sorted((k, repr(label(x))) for k, x in r.items()), round(v, 9))))
    if sorted(got) != expected:
        raise Violation("{}exported {}, expected {}".format(what, sorted(got)[:20], expected[:20]))
    return iam


def at(x):
    """Seconds of a place on the time axis."""
    if isinstance(x, pd.Period):
        x = x.start_time
    return secs(pd.Timestamp(x))


def years(rf):
    return [to_datetime(t).year for t in rf.times]


def run_lines(case, ctx):
    import matplotlib.pyplot as plt

    _, name, op = case
    df, rf = reach(name, (op,))
    if df is None or any(v is None for m, _ in rf.rows for v in m.values()):
        return
    if not rf.complete() or len(rf.times) < 3:
        return
    if any(not 1678 <= to_datetime(t).year <= 2261 or to_datetime(t).timetuple()[1:6] != (1, 1, 0, 0, 0) for t in rf.times):
        return
    if len({b - a for a, b in zip(years(rf)[:-1], years(rf)[1:])}) > 1:
        return
    what = "{} {}: ".format(name, op)
    snap = snapshot(df)
    expected = sorted(sorted(c.items()) for _, c in rf.rows)
    varying = sorted(c for c in rf.cols if len({m[c] for m, _ in rf.rows}) > 1)
    for kwargs in [{}] + [{k: c} for c in varying for k in ("color", "linestyle")]:
        fig, ax = plt.subplots()
        try:
            res, _ = quietly(df.line_plot, ax=ax, legend=False, **kwargs)
            ctx.step()
            if res is not ax:
                raise Violation("{}{}: returned {}".format(what, kwargs, res))
            lines = [
                ([at(x) for x in line.get_xdata(orig=True)], [float(y) for y in line.get_ydata()], line.get_label())
                for line in ax.lines
            ]
        finally:
            plt.close(fig)
        got = sorted(sorted(zip(x, y)) for x, y, _ in lines)
        if not same(got, expected):
            raise Violation("{}{}: lines {}, expected {}".format(what, kwargs, got, expected))
        if kwargs.get("color"):
            # lines are labelled by the metadata
            labelled = sorted((str(lab), tuple(y)) for _, y, lab in lines)
            want = sorted(
                (str(m[kwargs["color"]]), tuple(v for _, v in sorted(c.items()))) for m, c in rf.rows
            )
            if [a for a, _ in labelled] != [a for a, _ in want] or not same(
                [[(0, v) for v in b] for _, b in labelled], [[(0, v) for v in b] for _, b in want]
            ):
                raise Violation("{}{}: labels {}, expected {}".format(what, kwargs, labelled, want))
        ctx.state(what, repr(kwargs))
    if snapshot(df) != snap:
        raise Violation("{}frame changed".format(what))
    ctx.trace()
    ctx.outcome(len(expected))


def same(a, b):
    return len(a) == len(b) and all(
        len(p) == len(q) and all(s == t and close(v, w, 1e-9, 1e-9) for (s, v), (t, w) in zip(p, q))
        for p, q in zip(a, b)
    )
