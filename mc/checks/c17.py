"""C17: operations change only what they are asked to change."""

import datetime as dt

import numpy as np
import pandas as pd

from openscm.core.parameterset import ParameterSet
from openscm.scmdataframe import ScmDataFrame, df_append

from ..engine import Violation
from ..frames import REQUIRED, RF, build, observe, quietly, snapshot, to_datetime, wide
from ..util import attempt, seconds
from .c16 import BASES, CORE, OPS, OTHER, T, apply

PROP = "C17"
ASSUMPTIONS = [
    "a parameter set that is passed in is meant to be changed by to_parameterset",
    "pyam's and pandas' own objects are copied faithfully by their copy methods",
]
BOUNDS = {
    "quick": "3 frames, as they are and after each of 9 operations x 110 calls (valid and failing ones of every operation, constructor and accessor): each call not in place, in place, with the source, the result and the arguments changed afterwards",
    "thorough": "after each operation and each pair of 20 operations",
}


# arguments ---------------------------------------------------------------------------


def freeze(x):
    """Content of an argument, as comparable value."""
    if isinstance(x, ScmDataFrame):
        return ("frame", snapshot(x))
    if isinstance(x, pd.DataFrame):
        return (
            "pandas",
            [repr(list(map(str, c))) for c in x.values.tolist()],
            repr(list(x.index)),
            repr(list(x.columns)),
            list(x.index.names),
            list(x.columns.names),
            type(x.index).__name__,
            type(x.columns).__name__,
        )
    if isinstance(x, pd.Series):
        return ("series", x.name, freeze(x.to_frame()))
    if isinstance(x, pd.Index):
        return ("index", repr(list(x)), list(x.names))
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, [str(v) for v in x.ravel()], x.shape)
    if isinstance(x, dict):
        return ("dict", [(k, freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if hasattr(x, "data") and isinstance(x.data, pd.DataFrame):
        return ("iam", freeze(x.data))
    return repr(x)


def spoil(x):
    """Change an argument as much as possible after the call."""
    if isinstance(x, ScmDataFrame):
        disturb(x)
    elif isinstance(x, pd.DataFrame):
        for i in range(len(x.columns)):
            x.isetitem(i, 0) if hasattr(x, "isetitem") else x.iloc.__setitem__((slice(None), i), 0)
        x.index.name = None if isinstance(x.index, pd.MultiIndex) else "spoiled"
    elif isinstance(x, pd.Series):
        x.iloc[:] = 0
    elif isinstance(x, np.ndarray):
        if x.dtype.kind == "M":
            x[...] = np.datetime64("1234-05-06", "s")
        else:
            x[...] = 0
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        del x[:]


def disturb(df):
    """Change a frame by everything that changes it in place."""
    for name in df.meta.columns:
        df.set_meta("spoiled", name) if name != "variable" else None
    df["new"] = list(range(len(df)))
    df["time"] = np.array(
        [np.datetime64(t, "s") + np.timedelta64(1000, "D") for t in df.time_points], dtype="datetime64[s]"
    )
    if len(df.time_points):
        quietly(df.filter, year=int(df["year"].iloc[0]), inplace=True)
    # what the accessors return belongs to the caller
    for x in (df.time_points, df.values):
        if x.size and x.flags.writeable:
            x[...] = x.flat[0]
    for x in (df.meta, df["time"], df["year"]):
        if len(x):
            x.iloc[:] = "spoiled"
    if len(df):
        df["variable"].iloc[:] = "spoiled"


# calls: name -> (arguments, function of frame, arguments and in place, has in place) -


def _f(**kwargs):
    return (lambda: kwargs_copy(kwargs), lambda df, a, i: df.filter(inplace=i, **a), True)


def kwargs_copy(x):
    if isinstance(x, dict):
        return {k: kwargs_copy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [kwargs_copy(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


def _rename(mapping):
    return (lambda: dict(mapping=kwargs_copy(mapping)), lambda df, a, i: df.rename(inplace=i, **a), True)


def _convert(unit, **kwargs):
    return (lambda: kwargs_copy(kwargs), lambda df, a, i: df.convert_unit(unit, inplace=i, **a), True)


def _append(other, **kwargs):
    return (
        lambda: dict(other=other()),
        lambda df, a, i: df.append(a["other"], inplace=i, **kwargs),
        True,
    )


def _new(fun):
    """Returns something new, no in-place form."""
    return (dict, lambda df, a, i: fun(df), False)


def _args(args, fun):
    return (args, lambda df, a, i: fun(df, a), False)


def _set(args, fun):
    """Changes the frame: done on a copy, compared with the frame itself."""

    def call(df, a, inplace):
        res = df if inplace else df.copy()
        out = fun(res, a)
        if out is not None:
            raise Violation("set_meta returned {}".format(type(out)))
        return None if inplace else res

    return (args, call, True)


def iam():
    # without missing metadata, which pyam does not support
    w = wide(OTHER).drop("extra", axis=1)
    return quietly(ScmDataFrame(w).to_iamdataframe)[0]


def shifted(df, days, drop=0):
    n = len(df.time_points) - drop
    return np.array([t + np.timedelta64(days, "D") for t in df.time_points[:n]], dtype="datetime64[s]")


def set_time(df, a):
    df["time"] = a["t"]


def _time(make):
    def call(df, a, inplace):
        res = df if inplace else df.copy()
        a.setdefault("t", make(res))
        before = freeze(a["t"])
        try:
            res["time"] = a["t"]
        finally:
            if freeze(a["t"]) != before:
                raise Violation("array of times changed")
        return None if inplace else res

    return (dict, call, True)


def parameterset(df, a):
    ps = df.to_parameterset(a.get("parameterset"))
    tp = df.time_points
    for _, m in df.meta.iterrows():
        for kind in ("point", "average"):
            try:
                tp_view = tp if kind == "point" else np.append(tp, tp[-1] + (tp[-1] - tp[-2]))
                view = ps.timeseries(m["variable"], m["unit"], tp_view, region=m["region"], timeseries_type=kind)
                view.values = np.zeros(len(tp))
                view.values[0] = 5
            except Exception:  # pylint: disable=broad-except
                pass
    return ps


def from_array(df, a):
    return ScmDataFrame(a["data"], index=a["index"], columns=a["columns"])


COLUMNS = dict(
    model=["m"], scenario=["a", "b"], region=["World"], variable=["V", "W"], unit="K"
)
DATA = [[1.0, 2.0], [3.0, 5.0], [7.0, 11.0]]
TIMES64 = np.array(["2001-01-01", "2002-01-01", "2004-03-01"], dtype="datetime64[s]")


def arrays(**kwargs):
    return lambda: dict(
        dict(data=np.array(DATA), index=[2001, 2002, 2004], columns=kwargs_copy(COLUMNS)),
        **{k: v() for k, v in kwargs.items()}
    )


def long_format():
    w = wide(OTHER)
    return w.melt(id_vars=[c for c in w.columns if isinstance(c, str)], var_name="time", value_name="value").dropna(
        subset=["value"]
    ).fillna("none")


CALLS = {
    "filter list": _f(variable=["Emissions*", "Surface Temperature"], year=[2005, 2010, 2011]),
    "filter keep": _f(region="World", year=[2010, 2015], keep=False),
    "filter months": _f(month=["Jan-Mar", "May-Jul", "Dec"]),
    "filter days": _f(day=["Mon-Wed", "Fri", "Sat-Sun"]),
    "filter hours": _f(hour=[0, 12], level=0),
    "filter level": _f(variable="Emissions|*", level="0-"),
    "filter times": _f(time=[to_datetime(T[0]), to_datetime(T[1])]),
    "filter time array": _f(time=np.array([T[0], T[1]]).astype("datetime64[s]")),
    "filter none": _f(variable="nothing"),
    "filter unknown column": _f(variable="Emissions*", unknown="x"),
    "filter unknown after": _f(unknown="x", variable="Emissions*"),
    "filter bad year": _f(variable="Emissions*", year=2010.5),
    "filter bad month": _f(variable="Emissions*", month=["Foo"]),
    "filter bad range": _f(month=["Jan", "Nov-Feb"]),
    "filter bad time": _f(time=["abc"]),
    "filter tag": _f(tag=["x", "y"]),
    "filter regexp": _f(variable="Emiss.*CO2$", regexp=True),
    "filter bad level": _f(variable="Emissions*", level="1/"),
    "rename": _rename({"variable": {"Emissions|CO2": "E"}, "region": {"World": "Planet"}}),
    "rename swap": _rename({"scenario": {"a": "b", "b": "a"}}),
    "rename merge": _rename({"scenario": {"a": "b"}}),
    "rename then unknown": _rename({"variable": {"Emissions|CO2": "E"}, "unknown": {"x": "y"}}),
    "rename then merge": _rename(
        {"scenario": {"a": "c"}, "variable": {"Emissions|CO2": "E", "Emissions|CH4": "E"}, "unit": {"MtC/yr": "GtC/yr", "MtCH4/yr": "GtC/yr"}}
    ),
    "rename nothing": _rename({}),
    "convert": _convert("MtC/yr", variable="Emissions|CO2"),
    "convert list": _convert("GtCO2/yr", variable=["Emissions|CO2", "Emissions|CH4"], context="AR4GWP100"),
    "convert all": _convert("mK"),
    "convert partly impossible": _convert("MtC/yr", variable=["Emissions|*"]),
    "convert everything": _convert("GtC/yr", context="AR4GWP100"),
    "convert unknown unit": _convert("nonsense", variable="Emissions|CO2"),
    "convert unknown context": _convert("GtC/yr", variable="Emissions*", context="nonsense"),
    "convert unknown column": _convert("GtC/yr", unknown="x"),
    "convert nothing": _convert("GtC/yr", variable="nothing"),
    "append frame": _append(lambda: build(OTHER)),
    "append silently": _append(lambda: build(OTHER), duplicate_msg=False),
    "append return": _append(lambda: build(OTHER), duplicate_msg="return"),
    "append nonsense": _append(lambda: build(OTHER), duplicate_msg="nonsense"),
    "append wide": _append(lambda: wide(OTHER)),
    "append long": _append(long_format),
    "append iam": _append(iam),
    "append incomplete": _append(lambda: wide(OTHER).drop("unit", axis=1)),
    "append number": _append(lambda: 5),
    "append no file": _append(lambda: "/nonexistent/file.csv"),
    "append list": (
        lambda: dict(others=[build(OTHER), build(BASES["tagged"])]),
        lambda df, a, i: df_append([df] + a["others"], inplace=i),
        True,
    ),
    "append to pandas": _args(
        lambda: dict(others=[wide(OTHER)]), lambda df, a: df_append(a["others"] + [df])
    ),
    "append list with number": (
        lambda: dict(others=[build(OTHER), 5]),
        lambda df, a, i: df_append([df] + a["others"], inplace=i),
        True,
    ),
    "append in place to pandas": _args(
        lambda: dict(others=[wide(OTHER)]), lambda df, a: df_append(a["others"] + [df], inplace=True)
    ),
    "interpolate list": _args(
        lambda: dict(t=[dt.datetime(2006, 1, 1), dt.datetime(2010, 1, 1), dt.datetime(2012, 1, 1)]),
        lambda df, a: df.interpolate(a["t"]),
    ),
    "interpolate array": _args(lambda: dict(t=TIMES64.copy()), lambda df, a: df.interpolate(a["t"])),
    "interpolate days": _args(
        lambda: dict(t=TIMES64.astype("datetime64[D]")), lambda df, a: df.interpolate(a["t"], extrapolation_type="linear")
    ),
    "interpolate beyond": _args(lambda: dict(t=TIMES64.copy()), lambda df, a: df.interpolate(a["t"], extrapolation_type="none")),
    "interpolate nonsense": _args(lambda: dict(t=["a", "b", "c"]), lambda df, a: df.interpolate(a["t"])),
    "resample": _new(lambda df: df.resample("AS")),
    "resample months": _new(lambda df: df.resample("3MS", extrapolation_type="linear")),
    "resample business": _new(lambda df: df.resample("B")),
    "process mean": _args(lambda: dict(c=["scenario", "unit"]), lambda df, a: df.process_over(a["c"], "mean")),
    "process quantile": _new(lambda df: df.process_over("scenario", "quantile", q=0.3)),
    "process nonsense": _new(lambda df: df.process_over("scenario", "nonsense")),
    "process unknown": _new(lambda df: df.process_over("scenarios", "mean")),
    "reference": _args(lambda: dict(year=[2005, 2010, 2015]), lambda df, a: df.relative_to_ref_period_mean(**a)),
    "reference text": _args(
        lambda: dict(year=[2010, 2011], append_str="rel"), lambda df, a: df.relative_to_ref_period_mean(**a)
    ),
    "timeseries": _new(lambda df: df.timeseries()),
    "timeseries columns": _args(
        lambda: dict(meta=["variable", "scenario", "region", "unit"]), lambda df, a: df.timeseries(**a)
    ),
    "values": _new(lambda df: df.values),
    "meta": _new(lambda df: df.meta),
    "time_points": _new(lambda df: df.time_points),
    "head": _new(lambda df: df.head(2)),
    "item time": _new(lambda df: df["time"]),
    "item year": _new(lambda df: df["year"]),
    "item": _new(lambda df: df["variable"]),
    "items": _args(lambda: dict(k=["variable", "unit"]), lambda df, a: df[a["k"]]),
    "item unknown": _new(lambda df: df["unknown"]),
    "copy": _new(lambda df: df.copy()),
    "constructor": _new(ScmDataFrame),
    "iam": _new(lambda df: df.to_iamdataframe()),
    "parameterset": _args(dict, parameterset),
    "parameterset given": _args(lambda: {}, lambda df, a: parameterset(df, dict(parameterset=ParameterSet()))),
    "from array": _args(arrays(), from_array),
    "from array with times": _args(arrays(index=TIMES64.copy), from_array),
    "from array with index": _args(arrays(index=lambda: pd.Index([2001, 2002, 2004])), from_array),
    "from pandas with columns": _args(
        arrays(data=lambda: pd.DataFrame(DATA, index=[2001, 2002, 2004]), index=lambda: None), from_array
    ),
    "from pandas with index": _args(
        arrays(data=lambda: pd.DataFrame(DATA, index=[1, 2, 3], columns=["a", "b"])), from_array
    ),
    "from array wrong length": _args(
        arrays(columns=lambda: dict(COLUMNS, model=["a", "b", "c"])), from_array
    ),
    "from array missing": _args(arrays(columns=lambda: dict(model=["a"])), from_array),
    "from wide": _args(lambda: dict(d=wide(OTHER)), lambda df, a: ScmDataFrame(a["d"])),
    "from wide index": _args(
        lambda: dict(d=wide(OTHER).set_index(list(REQUIRED))), lambda df, a: ScmDataFrame(a["d"])
    ),
    "from upper case": _args(
        lambda: dict(d=wide(OTHER).rename(columns={"model": "Model", "unit": "UNIT"})), lambda df, a: ScmDataFrame(a["d"])
    ),
    "from long": _args(lambda: dict(d=long_format()), lambda df, a: ScmDataFrame(a["d"])),
    "from long series": _args(
        lambda: dict(d=long_format().set_index(list(REQUIRED) + ["time", "extra"])["value"]), lambda df, a: ScmDataFrame(a["d"])
    ),
    "from iam": _args(lambda: dict(d=iam()), lambda df, a: ScmDataFrame(a["d"])),
    "from incomplete": _args(lambda: dict(d=wide(OTHER)[list(REQUIRED)]), lambda df, a: ScmDataFrame(a["d"])),
    "set scalar": _set(dict, lambda df, a: df.set_meta(1.5, "n")),
    "set list": _set(
        lambda: dict(v=["p", "q", "r", "s", "t", "u", "v", "w"]),
        lambda df, a: df.set_meta(a["v"] if len(df) == len(a["v"]) else a["v"][: len(df)], "tag"),
    ),
    "set wrong length": _set(lambda: dict(v=["p"] * 20), lambda df, a: df.set_meta(a["v"], "tag")),
    "set series": _set(
        lambda: dict(s=pd.Series([1.0, 2.0], index=pd.Index(["a", "b"], name="scenario"), name="rank")),
        lambda df, a: df.set_meta(a["s"]),
    ),
    "set by index": _set(
        lambda: dict(
            v=["p", "q"],
            index=pd.MultiIndex.from_tuples(
                [("a", "Emissions|CO2"), ("b", "Emissions|CO2")], names=["scenario", "variable"]
            ),
        ),
        lambda df, a: df.set_meta(a["v"], "tag", index=a["index"]),
    ),
    "set by frame": _set(
        lambda: dict(v=[4.0, 5.0], index=pd.DataFrame(dict(scenario=["a", "b"], other=["x", "y"]))),
        lambda df, a: df.set_meta(a["v"], "tag", index=a["index"]),
    ),
    "set duplicate index": _set(
        lambda: dict(v=[4.0, 5.0], index=pd.Index(["a", "a"], name="scenario")),
        lambda df, a: df.set_meta(a["v"], "tag", index=a["index"]),
    ),
    "set unknown index": _set(
        lambda: dict(v=[4.0], index=pd.Index(["a"], name="unknown")),
        lambda df, a: df.set_meta(a["v"], "tag", index=a["index"]),
    ),
    "set bad index": _set(dict, lambda df, a: df.set_meta(5, "tag", index=["a"])),
    "set without name": _set(dict, lambda df, a: df.set_meta(5)),
    "set item": _set(dict, lambda df, a: df.__setitem__("tag", "z")),
    "set item wrong length": _set(dict, lambda df, a: df.__setitem__("tag", ["z"] * 30)),
    "set time": _time(lambda df: shifted(df, 400)),
    "set time list": _time(lambda df: list(shifted(df, 400).astype(object))),
    "set time too short": _time(lambda df: shifted(df, 400, 1)),
    "set time too long": _time(lambda df: np.append(shifted(df, 400), shifted(df, 20000))),
    "set time nonsense": _time(lambda df: ["nonsense"] * len(df.time_points)),
}


def cases(tier):
    states = [()] + [(a,) for a in (OPS if tier == "thorough" else CORE)]
    if tier == "thorough":
        states += [(a, b) for a in OPS for b in OPS]
    for state in states:
        for base in BASES:
            if tier != "thorough" and base == "many" and state and state[0] not in CORE[:4]:
                continue
            for part in range(4):
                yield (base, state, part)


def make(base, state):
    rf = BASES[base]
    df = build(rf)
    for i, name in enumerate(state):
        res = apply(df, rf, name, True, state[: i + 1])
        if res is None:
            return None
        df, rf = res
    return df


def show(df):
    rows, times, cols = observe(df, full=False)
    return sorted((k, [(t, repr(v)) for t, v in sorted(c.items())]) for k, c in rows.items()), times, sorted(cols)


def same(a, b):
    if isinstance(a, ScmDataFrame):
        return isinstance(b, ScmDataFrame) and attempt(show, a) == attempt(show, b)
    return type(a) is type(b) and freeze(a) == freeze(b)


def check(pristine, name, ctx):
    args, call, has_inplace = CALLS[name]

    def need(cond, message):
        if not cond:
            raise Violation("{}: {}".format(name, message))

    snap = snapshot(pristine)

    # not in place
    df, a = pristine.copy(), args()
    need(snapshot(df) == snap, "copy differs")
    frozen = freeze(a)
    first = attempt(quietly, call, df, a, False)
    ctx.step()
    ctx.outcome((name, first[0] if first[0] == "ok" else first[1]))
    need(snapshot(df) == snap, "the frame changed")
    if not name.startswith("set time"):
        need(freeze(a) == frozen, "an argument changed: {} -> {}".format(frozen, freeze(a)))
    if first[0] == "ok":
        result = first[1][0]
        need(result is not df, "returned the frame itself")
        before = freeze_result(result)
        if before is not None:
            # changing the arguments or the source does not reach the result
            spoil(a)
            need(freeze_result(result) == before, "the result shares something with an argument")
            disturb(df)
            need(freeze_result(result) == before, "the result shares something with the frame")
        # changing the result does not reach source or arguments
        df, a = pristine.copy(), args()
        result = quietly(call, df, a, False)[0]
        again = freeze_result(result)
        need(again == before, "a second call gives another result")
        spoil(result) if isinstance(result, (pd.DataFrame, pd.Series, np.ndarray, ScmDataFrame)) else None
        need(snapshot(df) == snap, "the frame shares something with the result")
        if not name.startswith("set time"):
            need(freeze(a) == frozen, "an argument shares something with the result")

    if not has_inplace:
        ctx.trace(2)
        return
    # in place
    df, a = pristine.copy(), args()
    other = attempt(quietly, call, df, a, True)
    ctx.step()
    ctx.trace(3)
    need(other[0] == first[0], "in place {}, otherwise {}".format(other, first))
    if first[0] == "err":
        need(other[1] == first[1], "in place {}, otherwise {}".format(other, first))
        need(snapshot(df) == snap, "failed but the frame changed")
    elif isinstance(first[1][0], pd.DataFrame):
        need(freeze(other[1][0]) == before, "in place returned another table")
        need(snapshot(df) == snap, "returned a table but the frame changed")
    else:
        need(other[1][0] is None, "in place returned {}".format(type(other[1][0])))
        fresh = pristine.copy()
        expected = quietly(call, fresh, args(), False)[0]
        need(same(df, expected), "in place {}, otherwise {}".format(*[attempt(show, x) for x in (df, expected)]))
        need(other[1][1] == first[1][1], "in place warns {}, otherwise {}".format(other[1][1], first[1][1]))
    if not name.startswith("set time"):
        need(freeze(a) == frozen, "in place: an argument changed")
    if first[0] == "ok" and not isinstance(first[1][0], pd.DataFrame):
        after = attempt(snapshot, df)
        spoil(a)
        need(attempt(snapshot, df) == after, "in place: the frame shares something with an argument")


def freeze_result(x):
    if isinstance(x, ScmDataFrame):
        return repr(attempt(show, x))
    if isinstance(x, (pd.DataFrame, pd.Series, np.ndarray)) or hasattr(x, "data"):
        return freeze(x)
    return None


def run(case, ctx):
    base, state, part = case
    pristine = make(base, state)
    if pristine is None or not len(pristine) or attempt(snapshot, pristine)[0] == "err":
        ctx.outcome("no frame")
        return
    ctx.state(base, state)
    snap = snapshot(pristine)
    for name in list(CALLS)[part::4]:
        ctx.state(base, state, name)
        try:
            check(pristine, name, ctx)
        except Violation as v:
            ctx.report("{}: {}".format(case, v.message), key=name)
        if snapshot(pristine) != snap:
            raise Violation("{}: a copy shares something with its source".format(name), key="copy")
