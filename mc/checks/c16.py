"""C16: data and metadata stay aligned under every sequence of operations."""

import itertools

import numpy as np
import pandas as pd

from ..engine import Violation
from ..frames import REQUIRED, RF, Refused, build, compare, norm, quietly, to_datetime
from ..util import seconds

PROP = "C16"
ASSUMPTIONS = [
    "frames start from ascending times; times set by the user are ascending",
    "metadata of -999 stand for missing values when appending (documented by the code)",
    "interpolation is only applied to frames without missing values and with at least three times",
    "renaming strings in a column that holds no strings is not specified (pandas refuses some of these)",
    "the conversion reference of C07/C08 and unit factors of mc/frames.py",
]
BOUNDS = {
    "quick": "3 frames (with and without extra metadata, missing values, sub-daily times) x all sequences of <=3 operations over 20 (filters incl. complements leaving holes, renames incl. swaps and collisions, four forms of set_meta, unit conversions with and without context, append, interpolate, resetting times, copies), in place and not, parents re-checked after their children; all operations on frames left without data; 2 operations on a frame with unusual metadata names and one of 60 series; 4 operations over 9 on the frame with extra metadata",
    "thorough": "4 operations over 20, 5 over 9",
}

T = (seconds(2005), seconds(2010), seconds(2015, 6, 1, 12), seconds(2021, 3, 5))


def series(scenario, region, variable, unit, **more):
    return dict(model="m", scenario=scenario, region=region, variable=variable, unit=unit, **more)


def bases():
    plain = RF.make(
        [
            (series("b", "World", "Emissions|CO2", "GtC/yr"), (2, 3, 5)),
            (series("a", "World", "Emissions|CO2", "GtC/yr"), (7, 11, 13)),
            (series("a", "World", "Emissions|CH4", "MtCH4/yr"), (17, 19, 23)),
            (series("a", "World|A", "Surface Temperature", "K"), (29, 31, 37)),
        ],
        T[:3],
    )
    tagged = RF.make(
        [
            (series("a", "World|A", "Emissions|CO2", "MtC/yr", tag="x", n=1.0), (2, 3, 5, 7)),
            (series("a", "World|A", "Emissions|CO2", "MtC/yr", tag="y", n=1.0), (11, 13, 17, 19)),
            (series("b", "World", "Surface Temperature", "K", tag="x", n=2.0), (23, 29, 31, 37)),
        ],
        T,
    )
    holes = RF.make(
        [
            (series("a", "World", "Emissions|CO2", "GtC/yr", tag=None), (2, None, 5)),
            (series("b", "World", "Emissions|CO2", "GtC/yr", tag="x"), (None, 11, 13)),
            (series("a", "World", "Emissions|CO2", "MtC/yr", tag=None), (17, 19, None)),
        ],
        T[1:],
    )
    names = RF.make(
        [
            (series("a", "World", "Emissions|CO2", "MtC/yr", **{"level_1": "l", "indices": "i", "key": 3, "p0": "x", "n": 1.0}), (2, 3, 5)),
            (series("b", "World", "Emissions|CO2", "MtC/yr", **{"level_1": "m", "indices": "i", "key": 3, "p0": "y", "n": 2.0}), (7, 11, 13)),
            (series("b", "World", "Surface Temperature", "K", **{"level_1": "m", "indices": "j", "key": 4, "p0": "y", "n": 2.0}), (17, 19, 23)),
        ],
        T[:3],
    )
    many = RF.make(
        [
            (
                series(
                    "ab"[k % 2],
                    "World" + "|R%d" % k * (k % 4),
                    ("Emissions|CO2", "Surface Temperature", "Emissions|CH4|x")[k % 3],
                    ("GtC/yr", "K", "MtCH4/yr")[k % 3],
                    run=k,
                    tag="xy"[k * 5 % 7 % 2],
                ),
                [k * 3 + j * 0.5 for j in range(3)],
            )
            for k in range(60)
        ],
        T[:3],
    )
    return {"plain": plain, "tagged": tagged, "holes": holes, "names": names, "many": many}


BASES = bases()
OTHER = RF.make(
    [
        (series("a", "World", "Emissions|CO2", "GtC/yr", extra="e"), (41, 43)),
        (series("a", "World", "Emissions|CO2", "MtC/yr", extra=None), (47, 53)),
        (series("b", "World", "Emissions|CO2", "GtC/yr", extra=None), (59, 61)),
    ],
    (T[1], seconds(2012)),
)


class Skip(Exception):
    """The operation is not specified in this state."""


def _inplace(df, inplace, fun):
    if inplace:
        res = fun(df, True)
        if res is not None:
            raise Violation("in-place operation returned {}".format(type(res)))
        return df
    return fun(df, False)


def op_filter(ref_args, **kwargs):
    def real(df, inplace):
        return _inplace(df, inplace, lambda d, i: d.filter(inplace=i, **kwargs))

    def ref(rf):
        if "tag" in kwargs and "tag" not in rf.cols:
            raise Refused("ValueError")
        return rf.filter(**ref_args)

    return real, ref


def op_rename(mapping):
    def ref(rf):
        for c in mapping:
            if c in rf.cols and not any(isinstance(m[c], str) for m, _ in rf.rows):
                raise Skip  # pandas cannot compare a column of numbers with strings
        return rf.rename(mapping)

    return (
        lambda df, inplace: _inplace(df, inplace, lambda d, i: d.rename(mapping, inplace=i)),
        ref,
    )


def _label(m):
    return "{}/{}".format(m["variable"], m["scenario"])


def _set(fun, ref):
    def real(df, inplace):
        df = df if inplace else df.copy()
        fun(df)
        return df

    return real, ref


def _set_list(df):
    df.set_meta([_label(r) for _, r in df.meta.iterrows()], "label")


def _set_series(df):
    # by position of the metadata's index
    meta = df.meta
    df["tag"] = ["t" + r["region"] for _, r in meta.iterrows()]


def _set_index(df):
    index = pd.MultiIndex.from_tuples(
        [("b", "Emissions|CO2"), ("a", "Emissions|CO2"), ("zzz", "Emissions|CO2")],
        names=["scenario", "variable"],
    )
    df.set_meta([5.0, 6.0, 7.0], "n", index=index)


def _ref_index(m):
    if m["variable"] == "Emissions|CO2" and m["scenario"] in "ab":
        return {"b": 5.0, "a": 6.0}[m["scenario"]]
    raise KeyError


def _set_subset(df):
    # give a value to the series found by a filter
    df.set_meta("sub", "tag", index=df.filter(variable="Surface*").timeseries(list(REQUIRED)).index)


def _ref_subset(rf):
    labels = [tuple(m[c] for c in REQUIRED) for m, _ in rf.rows]
    if len(set(labels)) < len(labels):
        raise Skip
    if not any(m["variable"].startswith("Surface") for m, _ in rf.rows):
        raise Skip

    def fun(m):
        if m["variable"].startswith("Surface"):
            return "sub"
        raise KeyError

    return rf.set_meta("tag", fun)


def _ref_scalar(rf):
    return rf.set_meta("n", lambda m: 3.5)


def op_convert(unit, ref_series, context=None, **kwargs):
    return (
        lambda df, inplace: _inplace(
            df, inplace, lambda d, i: d.convert_unit(unit, context=context, inplace=i, **kwargs)
        ),
        lambda rf: rf.convert_unit(unit, ref_series, context),
    )


def op_append():
    return (
        lambda df, inplace: _inplace(df, inplace, lambda d, i: d.append(build(OTHER), inplace=i)),
        lambda rf: rf.append(OTHER),
    )


TARGET = (seconds(2006), seconds(2010), seconds(2011, 7, 1), seconds(2030))


def _ref_interpolate(rf):
    if not rf.complete() or len(rf.times) < 3:
        raise Skip
    return rf.interpolate(TARGET)


def op_interpolate():
    return (
        lambda df, inplace: df.interpolate([to_datetime(t) for t in TARGET]),
        _ref_interpolate,
    )


def _shift(t):
    return t + 86400 * 366


def op_time():
    def real(df, inplace):
        df = df if inplace else df.copy()
        df["time"] = np.array([_shift(int(t)) for t in df.time_points.astype("int64")]).astype("datetime64[s]")
        return df

    def ref(rf):
        res = rf.copy()
        res.times = [_shift(t) for t in rf.times]
        res.rows = [(m, {_shift(t): v for t, v in c.items()}) for m, c in res.rows]
        return res

    return real, ref


def year(t):
    return to_datetime(t).year


OPS = {
    "emissions": op_filter(dict(series=lambda m: m["variable"].startswith("Emissions")), variable="Emissions*"),
    "years": op_filter(dict(time=lambda t: year(t) in (2005, 2011, 2015, 2016, 2021)), year=[2005, 2011, 2015, 2016, 2021]),
    "not-b": op_filter(dict(series=lambda m: m["scenario"] == "b", keep=False), scenario="b", keep=False),
    "hole": op_filter(
        dict(series=lambda m: m["region"] == "World", time=lambda t: year(t) in (2010, 2015), keep=False),
        region="World",
        year=[2010, 2015],
        keep=False,
    ),
    "tag": op_filter(dict(series=lambda m: m["tag"] == "x"), tag="x"),
    "swap": op_rename({"scenario": {"a": "b", "b": "a"}}),
    "merge": op_rename({"scenario": {"a": "b"}}),
    "rename": op_rename({"variable": {"Emissions|CO2": "Emissions|CH4"}, "region": {"World|A": "World"}}),
    "rename-tag": op_rename({"tag": {"x": "y"}}),
    "set-scalar": _set(lambda df: df.set_meta(3.5, "n"), _ref_scalar),
    "set-list": _set(_set_list, lambda rf: rf.set_meta("label", _label)),
    "set-item": _set(_set_series, lambda rf: rf.set_meta("tag", lambda m: "t" + m["region"])),
    "set-index": _set(_set_index, lambda rf: rf.set_meta("n", _ref_index)),
    "set-subset": _set(_set_subset, _ref_subset),
    "MtC": op_convert("MtC/yr", lambda m: m["variable"] == "Emissions|CO2", variable="Emissions|CO2"),
    "AR4": op_convert(
        "GtCO2/yr", lambda m: m["variable"].startswith("Emissions"), "AR4GWP100", variable="Emissions*"
    ),
    "append": op_append(),
    "interpolate": op_interpolate(),
    "time": op_time(),
    "copy": (lambda df, inplace: type(df)(df), lambda rf: rf.copy()),
}
CORE = ("hole", "not-b", "swap", "set-list", "set-index", "MtC", "append", "interpolate", "time")


def cases(tier):
    thorough = tier == "thorough"
    for name in ("index", "level_0", "level_1", "names", "key"):
        yield ("reserved", name)
    small = ("plain", "tagged", "holes")
    for base in BASES:
        for a in OPS:
            yield ("one", base, a, 2)
    for a in CORE:
        yield ("one", "tagged", a, 4 if thorough else 3)
    for base in BASES:
        for a in OPS:
            for b in OPS:
                depth = 4 if thorough else 3
                yield (base, (a, b), depth if base in small else depth - 1, tuple(OPS))
    for base in small if thorough else ("tagged",):
        for a in CORE:
            for b in CORE:
                for c in CORE:
                    yield (base, (a, b, c), 5 if thorough else 4, CORE)


def apply(df, rf, name, inplace, path):
    """(df, rf) after the operation, or None if the branch ends here."""
    real, ref = OPS[name]
    try:
        new = ref(rf)
    except Skip:
        return None
    except Refused as e:
        try:
            quietly(real, df, inplace)
        except Exception as ex:  # pylint: disable=broad-except
            if type(ex).__name__ in ("Violation", "CaseTimeout"):
                raise
            if e.names and type(ex).__name__ not in e.names:
                raise Violation("{}: {!r}, expected {}".format(path, ex, e.names))
            compare(df, rf, strict=True, what="{} refused: ".format(path))
            return df, rf
        raise Violation("{}: not refused".format(path))
    df = quietly(real, df, inplace)[0]
    if not new.unique():
        try:
            df.timeseries()
        except ValueError:
            return None
        raise Violation("{}: timeseries with duplicate metadata".format(path))
    compare(df, new, strict=True, what="{}: ".format(path), full=len(path) <= 2)
    if not new.rows or not new.times:
        if len(path) <= 2:
            nothing(df, new, path)
        return None
    return df, new


EMPTY = ("emissions", "years", "not-b", "hole", "swap", "set-scalar", "set-index", "MtC", "append", "copy")


def nothing(df, rf, path):
    """Frames without data can be used further, too."""
    for name in EMPTY:
        real, ref = OPS[name]
        try:
            expected = ref(rf)
        except Skip:
            continue
        for inplace in (False, True):
            what = "{} and {}{}: ".format(path, name, " in place" if inplace else "")
            try:
                res = quietly(real, df.copy() if inplace else df, inplace)[0]
            except Violation:
                raise
            except Exception as e:
                raise Violation("{}{!r}".format(what, e)) from e
            compare(res, expected, strict=True, what=what, full=False)
    res = quietly(build(OTHER).append, df)[0]
    compare(res, OTHER.append(rf), strict=True, what="{} appended: ".format(path), full=False)
    compare(df, rf, strict=True, what="{} afterwards: ".format(path), full=False)


def explore(df, rf, path, depth, alphabet, ctx):
    ctx.state(rf.canonical())
    if len(path) >= depth:
        ctx.trace()
        return
    for name in alphabet:
        p = path + (name,)
        inplace = (len(p) + len(name)) % 2 == 0
        ctx.step()
        try:
            res = apply(df.copy() if inplace else df, rf, name, inplace, p)
        except Violation:
            raise
        except Exception as e:
            raise Violation("{}: {!r}".format(p, e)) from e
        if res is None:
            ctx.trace()
            ctx.outcome("end")
            continue
        explore(res[0], res[1], p, depth, alphabet, ctx)
    compare(df, rf, strict=True, what="{} changed by operations on copies of it: ".format(path), full=False)


def run_reserved(case, ctx):
    """Setting metadata by index in a frame with metadata of any name."""
    col = case[1]
    rf = BASES["plain"].set_meta(col, lambda m: m["scenario"] + "x")
    for by in (("scenario",), ("scenario", "variable")):
        df = build(rf)
        labels = sorted({tuple(m[c] for c in by) for m, _ in rf.rows})
        index = pd.MultiIndex.from_tuples(labels, names=by)
        values = dict(zip(labels, range(len(labels))))
        expected = rf.set_meta("n", lambda m: values[tuple(m[c] for c in by)])
        ctx.step()
        ctx.state(col, by)
        try:
            df.set_meta([values[k] for k in labels], "n", index=index)
            compare(df, expected, strict=True, what="{} {}: ".format(col, by))
        except (KeyError, ValueError, Violation) as e:
            ctx.report("set_meta by {} with metadata named {!r}: {!r}"[:300].format(by, col, e), "set-meta-" + col)
        ctx.trace()


def run_one(case, ctx):
    """One frame which is changed in place again and again, and read in between."""
    _, base, first, depth = case
    alphabet = OPS if depth == 2 else CORE
    for rest in itertools.product(alphabet, repeat=depth - 1):
        rf = BASES[base]
        df = build(rf)
        compare(df, rf, strict=True, what="{}: ".format(base))
        for i, name in enumerate((first,) + rest):
            path = (base, "in place") + ((first,) + rest)[: i + 1]
            try:
                res = apply(df, rf, name, True, path)
            except Violation:
                raise
            except Exception as e:
                raise Violation("{}: {!r}".format(path, e)) from e
            ctx.step()
            if res is None:
                ctx.outcome("end")
                break
            df, rf = res
            ctx.state(rf.canonical())
        ctx.trace()


def run(case, ctx):
    if case[0] in ("reserved", "one"):
        return globals()["run_" + case[0]](case, ctx)
    base, prefix, depth, alphabet = case
    rf = BASES[base]
    df = build(rf)
    compare(df, rf, strict=True, what="{}: ".format(base))
    for i, name in enumerate(prefix):
        ctx.step()
        inplace = (i + 1 + len(name)) % 2 == 0
        res = apply(df, rf, name, inplace, prefix[: i + 1])
        if res is None:
            ctx.outcome("end")
            ctx.trace()
            return
        df, rf = res
    ctx.outcome((len(rf.rows), len(rf.times), len(rf.cols)))
    ctx.sample(case=case[:2], series=len(rf.rows))
    explore(df, rf, prefix, depth, alphabet, ctx)
