"""
Reference model of a ScmDataFrame and ways to build and observe the real one.

A frame is a set of series, each with its metadata (column -> value) and its cells
(time in seconds -> value).  Missing metadata are ``None``, missing cells are absent.
"""

import math
import warnings

import numpy as np
import pandas as pd
from openscm.scmdataframe import ScmDataFrame  # before forking the workers

from . import ref_time
from .engine import Violation
from .util import close, seconds

REQUIRED = ("model", "scenario", "region", "variable", "unit")


class Refused(Exception):
    """The operation has to fail (with one of the exception names, if given)."""

    def __init__(self, *names):
        super().__init__(*names)
        self.names = names


def norm(v):
    """Metadata value; missing ones are None."""
    if v is None:
        return None
    if isinstance(v, (float, np.floating)) and math.isnan(v):
        return None
    if isinstance(v, np.generic):
        return v.item()
    return v


def key_of(meta):
    """Identity of a series: its metadata that are not missing."""
    res = []
    for k, v in meta.items():
        v = norm(v)
        if v is not None:
            res.append((k, repr(v) if isinstance(v, str) else repr(float(v))))
    return tuple(sorted(res))


class RF:
    """Reference frame."""

    def __init__(self, rows, times, cols):
        self.rows = rows  # [(meta, cells)]
        self.times = list(times)
        self.cols = set(cols)

    @classmethod
    def make(cls, rows, times, extra=()):
        """rows: [(meta dict, values aligned with times)]"""
        cols = set(REQUIRED) | set(extra)
        res = []
        for meta, values in rows:
            cols |= set(meta)
            res.append((dict(meta), {t: float(v) for t, v in zip(times, values) if v is not None}))
        for meta, _ in res:
            for c in cols:
                meta.setdefault(c, None)
        return cls(res, times, cols)

    def copy(self):
        return RF([(dict(m), dict(c)) for m, c in self.rows], self.times, self.cols)

    def keys(self):
        return [key_of(m) for m, _ in self.rows]

    def unique(self):
        k = self.keys()
        return len(set(k)) == len(k)

    def complete(self):
        return all(len(c) == len(self.times) for _, c in self.rows)

    def canonical(self):
        """Hashable."""
        return (
            tuple(sorted((k, tuple(sorted(c.items()))) for k, (_, c) in zip(self.keys(), self.rows))),
            tuple(self.times),
            tuple(sorted(self.cols)),
        )

    # operations ------------------------------------------------------------------

    def drop_empty(self):
        self.rows = [(m, c) for m, c in self.rows if c]
        seen = set().union(*[set(c) for _, c in self.rows]) if self.rows else set()
        self.times = [t for t in self.times if t in seen]
        return self

    def filter(self, series=lambda m: True, time=lambda t: True, keep=True):
        res = self.copy()
        for m, c in res.rows:
            s = series(m)
            for t in list(c):
                if (s and time(t)) != keep:
                    del c[t]
        return res.drop_empty()

    def rename(self, mapping):
        res = self.copy()
        for col, changes in mapping.items():
            if col not in res.cols:
                raise Refused("ValueError")
            for m, _ in res.rows:
                if m[col] in changes:
                    m[col] = changes[m[col]]
            if not res.unique():
                raise Refused("ValueError")
        return res

    def set_meta(self, name, fun):
        """fun: metadata -> value, or KeyError for unchanged."""
        res = self.copy()
        for m, _ in res.rows:
            try:
                m[name] = fun(m)
            except KeyError:
                m.setdefault(name, None)
        res.cols.add(name)
        return res

    def append(self, *others):
        res = RF([], sorted(set(self.times).union(*[o.times for o in others])), set(self.cols).union(*[o.cols for o in others]))
        found = {}
        for f in (self,) + others:
            for m, c in f.rows:
                k = key_of(m)
                if k not in found:
                    found[k] = ({col: m.get(col) for col in res.cols}, {})
                for t, v in c.items():
                    found[k][1].setdefault(t, []).append(v)
        for m, c in found.values():
            res.rows.append((m, {t: sum(v) / len(v) for t, v in c.items()}))
        return res

    def duplicates(self, *others):
        """Whether several values fall on the same series and time."""
        seen = set()
        for f in (self,) + others:
            for m, c in f.rows:
                for t in c:
                    k = (key_of(m), t)
                    if k in seen:
                        return True
                    seen.add(k)
        return False

    def convert_unit(self, unit, series=lambda m: True, context=None):
        res = self.set_meta("unit_context", lambda m: m.get("unit_context"))
        for m, c in res.rows:
            if series(m):
                scale, offset = unit_factor(m["unit"], unit, context)
                for t in c:
                    c[t] = c[t] * scale + offset
                m["unit"] = unit
                m["unit_context"] = context
        return res

    def interpolate(self, target, extrapolation="constant"):
        res = RF([], target, self.cols | {"parameter_type"})
        for m, c in self.rows:
            kind = m.get("parameter_type") or guess_type(m["variable"], m["unit"])
            values = series_convert([c.get(t) for t in self.times], self.times, target, kind, extrapolation)
            res.rows.append((dict(m, parameter_type=kind), dict(zip(target, values))))
        return res


def with_closing_point(times):
    """Average series get a last period as long as the one before it."""
    return list(times) + [times[-1] + (times[-1] - times[-2])]


def series_convert(values, times, target, kind, extrapolation):
    if kind == "average":
        times, target = with_closing_point(times), with_closing_point(target)
    try:
        return ref_time.convert(values, times, target, kind, extrapolation)
    except ref_time.Insufficient:
        raise Refused("InsufficientDataError")


TIME_UNITS = ("yr", "a", "year", "d", "s", "month", "W", "day", "h")


def guess_type(variable, unit):
    """Units with a time dimension are averages; unknown ones depend on the name."""
    if unit in GUESS:
        return GUESS[unit]
    if variable.startswith(("Emissions", "Radiative Forcing")) or "Flux" in variable:
        return "average"
    return "point"


GUESS = {
    "GtC/yr": "average",
    "MtC/yr": "average",
    "MtCO2/yr": "average",
    "ktCH4/yr": "average",
    "GtCO2/yr": "average",
    "MtCH4/yr": "average",
    "MtN2O/yr": "average",
    "GtC": "point",
    "ppm": "point",
    "ppb": "point",
    "K": "point",
    "mK": "point",
    "degC": "point",
    "W/m^2": "average",
    "mW/m^2": "average",
    "EJ/yr": "average",
    "J": "average",
    "": None,
}
GUESS.pop("")

FACTORS = {
    # unit: (dimension, scale, offset)
    "GtC/yr": ("carbon", 1.0, 0.0),
    "MtC/yr": ("carbon", 1e-3, 0.0),
    "t C / yr": ("carbon", 1e-9, 0.0),
    "PgC/a": ("carbon", 1.0, 0.0),
    "GtCO2/yr": ("carbon", 12 / 44, 0.0),
    "MtCO2/yr": ("carbon", 12e-3 / 44, 0.0),
    "MtCH4/yr": ("methane", 1.0, 0.0),
    "ktCH4/yr": ("methane", 1e-3, 0.0),
    "MtN2O/yr": ("nitrogen", 1.0, 0.0),
    "MtN/yr": ("nitrogen", 44 / 14, 0.0),
    "GtC": ("pool", 1.0, 0.0),
    "ppm": ("concentration", 1.0, 0.0),
    "ppb": ("concentration", 1e-3, 0.0),
    "K": ("temperature", 1.0, 0.0),
    "mK": ("temperature", 1e-3, 0.0),
    "degC": ("temperature", 1.0, 273.15),
    "W/m^2": ("forcing", 1.0, 0.0),
    "mW/m^2": ("forcing", 1e-3, 0.0),
    "EJ/yr": ("power", 1.0, 0.0),
    "PJ/yr": ("power", 1e-3, 0.0),
}
# Mt of gas to Gt of C
GWP = {
    ("methane", "AR4GWP100"): 25.0 * 12e-3 / 44,
    ("methane", "SARGWP100"): 21.0 * 12e-3 / 44,
    ("methane", "AR5GWP100"): 28.0 * 12e-3 / 44,
    ("nitrogen", "AR4GWP100"): 298.0 * 12e-3 / 44,
    ("nitrogen", "SARGWP100"): 310.0 * 12e-3 / 44,
    ("nitrogen", "AR5GWP100"): 265.0 * 12e-3 / 44,
}


def unit_factor(source, target, context=None):
    """(scale, offset) of source to target"""
    if context is not None and context not in ("AR4GWP100", "SARGWP100", "AR5GWP100"):
        raise Refused("KeyError")
    if source not in FACTORS or target not in FACTORS:
        raise Refused("UndefinedUnitError")
    d1, s1, o1 = FACTORS[source]
    d2, s2, o2 = FACTORS[target]
    if d1 != d2:
        def carbon(d):
            if d == "carbon":
                return 1.0
            if (d, context) not in GWP:
                raise Refused("DimensionalityError")
            return GWP[d, context]

        s1, s2 = s1 * carbon(d1), s2 * carbon(d2)
    return s1 / s2, (o1 - o2) / s2


# the real frame ----------------------------------------------------------------------


def to_datetime(t):
    import datetime as dt

    return dt.datetime(1970, 1, 1) + dt.timedelta(seconds=int(t))


def wide(rf):
    """pandas frame in wide format with datetime columns."""
    cols = list(REQUIRED) + sorted(rf.cols - set(REQUIRED))
    data = {c: [m[c] for m, _ in rf.rows] for c in cols}
    for t in rf.times:
        data[to_datetime(t)] = [c.get(t, np.nan) for _, c in rf.rows]
    return pd.DataFrame(data, columns=cols + [to_datetime(t) for t in rf.times])


def build(rf, cls=None):
    return (cls or ScmDataFrame)(wide(rf))


def secs(d):
    """datetime to seconds"""
    return seconds(d.year, d.month, d.day, d.hour, d.minute, d.second)


def observe(df, full=True):
    """
    Read everything the public accessors show, require them to agree with each other,
    return ({key: {time: value}}, times, columns).
    """
    meta = df.meta
    cols = list(meta.columns)
    if len(set(cols)) != len(cols) or not set(REQUIRED) <= set(cols):
        raise Violation("metadata columns {}".format(cols))
    n = len(df)
    if n != len(meta):
        raise Violation("length {} but metadata of {} series".format(n, len(meta)))
    tp = [int(x) for x in np.asarray(df.time_points).astype("datetime64[s]").astype("int64")]
    time = [secs(d) for d in df["time"]]
    years = list(df["year"]) if tp else []
    if time != tp or years != [to_datetime(t).year for t in tp]:
        raise Violation("time {}, year {} and time_points {} differ".format(time, years, tp))
    if len(set(tp)) != len(tp):
        raise Violation("time points {} are not unique".format(tp))
    ts = df.timeseries()
    if ts.shape != (n, len(tp)):
        raise Violation("timeseries have shape {}, expected {}".format(ts.shape, (n, len(tp))))
    if [secs(d) for d in ts.columns] != tp:
        raise Violation("timeseries at {} instead of {}".format(list(ts.columns), tp))
    if list(ts.index.names) != cols:
        raise Violation("timeseries index {} instead of {}".format(list(ts.index.names), cols))
    values = df.values if full else ts.values.astype(float)
    if values.dtype != float or values.shape != ts.shape or not (
        (values == ts.values) | (np.isnan(values) & np.isnan(ts.values.astype(float)))
    ).all():
        raise Violation("values differ from timeseries")
    res = {}
    for i in range(n):
        row = {c: norm(meta[c].iloc[i]) for c in cols}
        label = ts.index[i]
        if tuple(norm(x) for x in label) != tuple(row[c] for c in cols):
            raise Violation("series {} has label {} but metadata {}".format(i, label, row))
        k = key_of(row)
        if k in res:
            raise Violation("series {} twice".format(row))
        res[k] = {t: float(v) for t, v in zip(tp, values[i]) if not np.isnan(v)}
    for c in cols if full else ():
        if [norm(x) for x in df[c]] != [norm(x) for x in meta[c]]:
            raise Violation("column {} differs from metadata".format(c))
    if n and full:
        check_subsets(df, cols, ts, values)
        for name, part, a, b in (("head", df.head(2), 0, 2), ("tail", df.tail(1), n - 1, n)):
            labels = [tuple(map(norm, x)) for x in part.index]
            if labels != [tuple(map(norm, x)) for x in ts.index[a:b]] or not np.array_equal(
                part.values, values[a:b], equal_nan=True
            ):
                raise Violation("{} shows {}".format(name, part))
    return res, tp, set(cols)


def check_subsets(df, cols, ts, values):
    """Timeseries with some of the metadata only."""
    labels = [dict(zip(cols, map(norm, x))) for x in ts.index]
    for sub in ([cols[len(values) % len(cols)]], cols[::-1], cols[1:], ["variable", "region"]):
        wanted = [tuple(x[c] for c in sub) for x in labels]
        unique = len(set(map(repr, wanted))) == len(wanted)
        try:
            got = df.timeseries(sub)
        except ValueError:
            if unique:
                raise Violation("timeseries({}) refused".format(sub))
            continue
        if not unique:
            raise Violation("timeseries({}) with duplicates".format(sub))
        shown = [tuple(norm(y) for y in (x if isinstance(x, tuple) else (x,))) for x in got.index]
        if list(got.index.names) != sub or shown != wanted or not np.array_equal(
            got.values.astype(float), values, equal_nan=True
        ):
            raise Violation("timeseries({}): {}".format(sub, got))


def describe(rows):
    return {k: v for k, v in rows.items()}


def compare(df, rf, rtol=1e-9, ordered=True, what="", full=True, strict=False):
    """The real frame shows exactly the reference frame.

    Values are compared relative to the largest of their series or, if strict, each by itself.
    """
    rows, times, cols = observe(df, full)
    if cols != rf.cols:
        raise Violation("{}columns {}, expected {}".format(what, sorted(cols), sorted(rf.cols)))
    if (times if ordered else sorted(times)) != (rf.times if ordered else sorted(rf.times)):
        raise Violation("{}times {}, expected {}".format(what, times, rf.times))
    expected = dict(zip(rf.keys(), (c for _, c in rf.rows)))
    if set(rows) != set(expected):
        raise Violation(
            "{}series {} missing, {} unexpected".format(
                what, sorted(map(str, set(expected) - set(rows))), sorted(map(str, set(rows) - set(expected)))
            )
        )
    for k, c in expected.items():
        scale = max([abs(v) for v in c.values()], default=0.0)
        got = rows[k]
        if set(got) != set(c):
            raise Violation("{}{}: values at {}, expected at {}".format(what, k, sorted(got), sorted(c)))
        for t in c:
            if not close(got[t], c[t], rtol, 0.0 if strict else rtol * scale):
                raise Violation(
                    "{}{} at {}: {}, expected {}".format(what, k, to_datetime(t), got[t], c[t])
                )


def snapshot(df):
    """Everything that must not change, including representation (for C17)."""
    ts = df.timeseries()
    return (
        df.meta.to_dict("split").__repr__(),
        ts.values.astype(float).tobytes(),
        ts.shape,
        [str(x) for x in df.time_points],
        list(map(str, df["time"])),
        list(map(str, ts.columns)),
        repr(ts.index.tolist()),
    )


def quietly(fun, *args, **kwargs):
    """(result, list of warning messages)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        res = fun(*args, **kwargs)
    return res, [str(x.message) for x in w if x.category is UserWarning]
