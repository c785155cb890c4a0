"""C25: group statistics and reference-period means are per group and time."""

import itertools
import math

import numpy as np

from ..engine import Violation
from ..frames import RF, build, norm, secs, snapshot, to_datetime
from ..util import attempt, close, seconds

PROP = "C25"
ASSUMPTIONS = [
    "at least one metadata column remains and all columns given exist; frames are not empty",
    "reference periods select times only, and are given as lists or ranges (as single values only with append_str)",
]
BOUNDS = {
    "quick": "all frames of <=3 series out of 9 (4 metadata columns with missing ones, gaps in the data; pairs in both orders, triples in one) x every set of <=2 (and some of 3, 6) columns x mean, median and 5 quantiles; all frames of <=2 series x 16 reference periods; 11 to 260 members in 1 to 50 groups with 5 to 121 times",
    "thorough": "all frames of <=4 series, every order of triples, every set of <=3 columns",
}

TIMES = [seconds(1000, 6, 1), seconds(2000), seconds(2000, 7, 1), seconds(2001, 3, 4, 5, 6, 7), seconds(3000)]
NONE = None
# (scenario, region, run, tag, values)
POOL = (
    ("a", "World", 0, "x", (1.0, 2.0, 3.0, 4.0, 5.0)),
    ("a", "World", 1, "x", (10.0, -20.0, 30.0, 0.0, 7.0)),
    ("a", "World", 2, "y", (0.5, None, 0.25, 1e6, None)),
    ("b", "World", 0, "x", (100.0, 200.0, 300.0, 400.0, 500.0)),
    ("b", "World", 1, NONE, (3.0, 1.0, 4.0, 1.0, 5.0)),
    ("a", "World|R", 0, "x", (-1.0, -2.0, None, None, 8.0)),
    ("a", "World|R", 1, NONE, (2.0, 7.0, 1.0, 8.0, 2.0)),
    ("b", "World|R", NONE, "y", (6.0, 6.0, None, 6.0, 6.5)),
    ("a", "World", NONE, NONE, (9.0, 8.0, 7.0, 6.0, 5.0)),
)
COLS = ("model", "scenario", "region", "variable", "unit", "run", "tag")
OPERATIONS = (
    ("mean", {}),
    ("median", {}),
    ("quantile", {"q": 0.0}),
    ("quantile", {"q": 0.17}),
    ("quantile", {}),
    ("quantile", {"q": 0.83}),
    ("quantile", {"q": 1.0}),
)


def make(chosen):
    rows = []
    for i in chosen:
        scenario, region, run_, tag, vals = POOL[i]
        m = dict(model="m", scenario=scenario, variable="V|%d" % (i % 2), region=region, unit="K", run=run_, tag=tag)
        rows.append((m, vals))
    return RF.make(rows, TIMES)


def cases(tier):
    thorough = tier == "thorough"
    n = range(len(POOL))
    for size in range(1, 5 if thorough else 4):
        for c in itertools.combinations(n, size):
            if size == 3:
                orders = set(itertools.permutations(c)) if thorough else {c if sum(c) % 2 else c[::-1]}
            else:
                orders = {c, c[::-1]}
            for o in sorted(orders):
                yield ("process", o)
                if size <= (3 if thorough else 2):
                    yield ("period", o)
    for n in (11, 40, 101, 260) + ((1000,) if thorough else ()):
        for layout in range(4):
            yield ("large", n, layout)
    yield ("refused",)


def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)


def statistic(operation, kwargs, vals):
    vals = sorted(vals)
    if not vals:
        return None
    if operation == "mean":
        return sum(vals) / len(vals)
    q = kwargs.get("q", 0.5) if operation == "quantile" else 0.5
    pos = q * (len(vals) - 1)
    i = min(int(math.floor(pos)), len(vals) - 1)
    j = min(i + 1, len(vals) - 1)
    return vals[i] + (vals[j] - vals[i]) * (pos - i)


def table(res, names, times, what):
    """{labels as sorted items: [values]}"""
    if sorted(map(str, res.index.names)) != sorted(names):
        raise Violation("{}levels {}, expected {}".format(what, list(res.index.names), sorted(names)))
    if [secs(d) for d in res.columns] != times:
        raise Violation("{}times {}".format(what, list(res.columns)))
    got = {}
    for label, row in zip(res.index.tolist(), res.values):
        label = label if isinstance(label, tuple) else (label,)
        k = key(dict(zip(res.index.names, label)))
        if k in got:
            raise Violation("{}{} twice".format(what, k))
        got[k] = [float(v) for v in row]
    return got


def key(meta):
    return tuple(
        sorted((k, repr(norm(v)) if isinstance(norm(v), str) or norm(v) is None else repr(float(v))) for k, v in meta.items())
    )


def same(got, exp, what, times=TIMES, atol=1e-9, rtol=1e-9):
    if set(got) != set(exp):
        raise Violation(
            "{}missing {}, unexpected {}".format(what, sorted(set(exp) - set(got)), sorted(set(got) - set(exp)))
        )
    for k in exp:
        for t, a, b in zip(times, got[k], exp[k]):
            if (b is None) != math.isnan(a) or b is not None and not close(a, b, rtol, atol):
                raise Violation("{}{} at {}: {}, expected {}".format(what, k, to_datetime(t), a, b))


def column_sets(thorough):
    for size in (1, 2, 3):
        for c in itertools.combinations(COLS, size):
            if size == 3 and not thorough and not {"run", "tag"} <= set(c):
                continue
            yield c
    yield COLS[1:]
    yield COLS[:1] + COLS[2:]
    yield COLS[:-1]


def run_process(case, ctx):
    chosen = case[1]
    rf = make(chosen)
    df = build(rf)
    snap = snapshot(df)
    for n, cols in enumerate(column_sets(ctx.thorough)):
        names = set(COLS) - set(cols)
        groups = {}
        for m, c in rf.rows:
            groups.setdefault(key({k: m[k] for k in names}), []).append(c)
        for o, (operation, kwargs) in enumerate(OPERATIONS):
            if len(chosen) > 2 and not ctx.thorough and operation == "quantile" and (n + o) % 5:
                continue
            given = cols[0] if len(cols) == 1 and o % 2 else (list(cols) if o % 2 else list(cols)[::-1])
            res = df.process_over(given, operation, **kwargs)
            ctx.step()
            what = "{} {} {} over {}: ".format([POOL[i] for i in chosen], operation, kwargs, cols)
            exp = {
                k: [statistic(operation, kwargs, [c[t] for c in cells if t in c]) for t in TIMES]
                for k, cells in groups.items()
            }
            same(table(res, names, TIMES, what), exp, what)
            ctx.state(chosen, cols, operation, tuple(kwargs.items()))
            ctx.outcome((len(chosen), len(groups), operation))
            ctx.trace()
    if snapshot(df) != snap:
        raise Violation("{}: frame changed".format(chosen))


PERIODS = (
    ({"year": range(2000, 2001)}, lambda d: d.year == 2000),
    ({"year": range(1000, 2001)}, lambda d: 1000 <= d.year <= 2000),
    ({"year": [2000, 3000]}, lambda d: d.year in (2000, 3000)),
    ({"year": [1000]}, lambda d: d.year == 1000),
    ({"year": range(1, 4000)}, lambda d: True),
    ({"month": [1]}, lambda d: d.month == 1),
    ({"month": [1, 7], "year": [2000, 2001]}, lambda d: d.month in (1, 7) and d.year in (2000, 2001)),
    ({"month": ["Mar", "Jul"]}, lambda d: d.month in (3, 7)),
    ({"time": [to_datetime(TIMES[1]), to_datetime(TIMES[3])]}, lambda d: d in (to_datetime(TIMES[1]), to_datetime(TIMES[3]))),
    ({"day": [4]}, lambda d: d.day == 4),
    ({"hour": [5]}, lambda d: d.hour == 5),
)
NAMED = (
    ({"year": 2000}, lambda d: d.year == 2000),
    ({"year": 2001, "append_str": ""}, lambda d: d.year == 2001),
    ({"year": [2000], "keep": False}, lambda d: d.year != 2000),
    ({"time": to_datetime(TIMES[2])}, lambda d: d == to_datetime(TIMES[2])),
    ({"hour": 0}, lambda d: d.hour == 0),
)


def run_period(case, ctx):
    chosen = case[1]
    rf = make(chosen)
    df = build(rf)
    snap = snapshot(df)
    for n, (kwargs, fun) in enumerate(PERIODS + NAMED):
        for append in (False, True):
            args = dict(kwargs)
            if append or n >= len(PERIODS):
                args.setdefault("append_str", "rel. to x|y (z)")
                name = args["append_str"]
            else:
                name = "(ref. period {})".format(
                    ";".join("{}: {} - {}".format(k, list(v)[0], list(v)[-1]) for k, v in kwargs.items())
                )
            res = df.relative_to_ref_period_mean(**args)
            ctx.step()
            exp = {}
            for m, c in rf.rows:
                inside = [c[t] for t in TIMES if t in c and fun(to_datetime(t))]
                mean = sum(inside) / len(inside) if inside else None
                k = key(dict(m, variable="{} {}".format(m["variable"], name)))
                exp[k] = [c[t] - mean if t in c and mean is not None else None for t in TIMES]
            what = "{} relative to {}: ".format([POOL[i] for i in chosen], args)
            same(table(res, set(COLS), TIMES, what), exp, what)
            ctx.state(chosen, n, append)
            ctx.outcome((len(chosen), n))
            ctx.trace()
    if snapshot(df) != snap:
        raise Violation("{}: frame changed".format(chosen))


def run_large(case, ctx):
    """Ensembles: many members, many groups, close and huge values, members missing at some times."""
    _, n, layout = case
    times = [seconds(1850 + i // 2, 1 + 6 * (i % 2)) for i in range((5, 40, 7, 121)[layout])]
    rows = []
    for i in range(n):
        m = dict(
            model="m{}".format(i % 2),
            scenario="s{}".format(i % (3, 50, 1, 2)[layout]),
            variable="V",
            region="World|R{}".format(i % (2, 7, 1, 4)[layout]),
            unit="K",
            run=i,
            tag=None if layout == 1 and i % 5 == 0 else "t{}".format(i % 3),
        )
        vals = []
        for j in range(len(times)):
            v = ((i * i * 7 + 3) * (j + 2)) % 101 / 8.0 + (0.0, 1e-5 * i, 1e6, -200.0)[layout]
            vals.append(None if layout == 3 and (i + j) % 6 == 0 else v)
        rows.append((m, vals))
    rf = RF.make(rows, times)
    df = build(rf)
    for cols in (("run",), ("run", "tag"), ("tag", "run", "model"), ("run", "scenario", "region")):
        names = set(COLS) - set(cols)
        groups = {}
        for m, c in rf.rows:
            groups.setdefault(key({k: m[k] for k in names}), []).append(c)
        for operation, kwargs in OPERATIONS + (("quantile", {"q": 0.05}), ("quantile", {"q": 0.95})):
            res = df.process_over(list(cols), operation, **kwargs)
            what = "{} {} {} over {}: ".format(case, operation, kwargs, cols)
            exp = {
                k: [statistic(operation, kwargs, [c[t] for c in cells if t in c]) for t in times]
                for k, cells in groups.items()
            }
            same(table(res, names, times, what), exp, what, times, 1e-9, 1e-12)
            ctx.step()
            ctx.state(case, cols, operation, tuple(kwargs.items()))
            ctx.trace()
    for kwargs, fun in (
        ({"year": range(1850, 1852)}, lambda d: 1850 <= d.year < 1852),
        ({"year": list(range(1851, 1880))}, lambda d: 1851 <= d.year < 1880),
        ({"month": [7]}, lambda d: d.month == 7),
        ({"year": range(1800, 2000), "month": ["Jan"]}, lambda d: d.month == 1),
    ):
        res = df.relative_to_ref_period_mean(append_str="r", **kwargs)
        ctx.step()
        exp = {}
        for m, c in rf.rows:
            inside = [c[t] for t in times if t in c and fun(to_datetime(t))]
            mean = sum(inside) / len(inside) if inside else None
            k = key(dict(m, variable="V r"))
            exp[k] = [c[t] - mean if t in c and mean is not None else None for t in times]
        what = "{} relative to {}: ".format(case, kwargs)
        same(table(res, set(COLS), times, what), exp, what, times, 1e-7, 1e-12)
        ctx.trace()
    ctx.outcome(("large", n, layout))


def run_refused(case, ctx):
    df = build(make((0, 1, 2)))
    snap = snapshot(df)
    for operation in ("junk", "sum", "Mean", "", "max"):
        res = attempt(df.process_over, "run", operation)
        ctx.step()
        if res != ("err", "ValueError") or snapshot(df) != snap:
            raise Violation("operation {!r}: {}".format(operation, res))
        ctx.trace()
    ctx.outcome("refused")
