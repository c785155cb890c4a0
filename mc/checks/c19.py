"""C19: append is a lossless union that averages only duplicates."""

import itertools

import numpy as np
import pandas as pd

from openscm.scmdataframe import df_append

from ..engine import Violation
from ..frames import RF, build, compare, key_of, norm, quietly, secs, wide
from ..util import attempt, seconds

PROP = "C19"
ASSUMPTIONS = [
    "metadata of -999 stand for missing values when appending (documented by the code)",
    "a series with a missing value in a column is the same as one of a frame without that column",
]
BOUNDS = {
    "quick": "all ordered pairs of the 15 frames over 2 series x 2 times (every set of cells) x 7 combinations of extra columns (absent, missing, given, numbers), appended in place, as list, and to each other, silently or with 'return'; all ordered triples of 9 frames in all three ways of appending (at once, left to right, nested) and in all orders; one series in three and four operands with all assignments of equal and unequal values; operands without data at any place; up to 101 operands, 260 series and 520 times; operands as pandas wide/long, arrays; wide time ranges",
    "thorough": "all pairs x 16 combinations of columns, all triples of the 15 frames, quadruples of 5",
}

T = (seconds(1500), seconds(2000, 2, 29, 13, 30))
CELLS = tuple(itertools.product((0, 1), (0, 1)))
SUBSETS = [s for n in range(1, 5) for s in itertools.combinations(CELLS, n)]
# columns: name -> value for each of the two series
COLUMNS = {
    "none": {},
    "missing": {"tag": (None, None)},
    "first": {"tag": ("x", None)},
    "both": {"tag": ("x", "y")},
    "number": {"n": (1.5, None)},
    "other": {"other": ("x", "x"), "n": (1.5, 2.5)},
}
PAIRS = (
    ("none", "none"),
    ("none", "missing"),
    ("none", "first"),
    ("first", "both"),
    ("missing", "number"),
    ("both", "other"),
    ("number", "none"),
)


def meta(i):
    return dict(
        model="m",
        scenario=("a", "b")[i],
        region="World",
        variable=("Emissions|CO2", "Surface Temperature")[i],
        unit=("GtC/yr", "K")[i],
    )


def frame(subset, columns, position):
    """Reference frame with values that tell where they come from."""
    times = sorted({T[t] for _, t in subset})
    rows = []
    for s in sorted({s for s, _ in subset}):
        m = meta(s)
        m.update({c: v[s] for c, v in COLUMNS[columns].items()})
        rows.append((m, {T[t]: float(10 ** position + 3 * s + t * 0.25) for x, t in subset if x == s}))
    if position % 2:
        rows.reverse()
    res = RF([], times, set(meta(0)) | set(COLUMNS[columns]))
    res.rows = rows
    return res


SMALL = [
    (SUBSETS[0], "none"),
    (SUBSETS[0], "first"),
    (SUBSETS[3], "missing"),
    (SUBSETS[4], "none"),
    (SUBSETS[4], "first"),
    (SUBSETS[9], "number"),
    (SUBSETS[14], "none"),
    (SUBSETS[14], "both"),
    (SUBSETS[6], "other"),
]


# values of one series at two times, mixed with equal values
VALUES = [(1.0, 1.0), (2.0, 1.0), (6.0, 1.0), (1.0, None), (None, 2.0), (6.0, 6.0), (1.0, 2.0)]
LONG = (5, 17, 101, 260)


def valued(values, columns="none"):
    """Reference frame of the first series with given values ."""
    cells = {t: v for t, v in zip(T, values) if v is not None}
    m = meta(0)
    m.update({c: v[0] for c, v in COLUMNS[columns].items()})
    res = RF([], sorted(cells), set(m))
    res.rows = [(m, cells)]
    return res


def cases(tier):
    thorough = tier == "thorough"
    pairs = itertools.product(list(COLUMNS)[:4] + ["number"], repeat=2) if thorough else PAIRS
    for c1, c2 in pairs:
        for i in range(len(SUBSETS)):
            yield ("pairs", i, c1, c2)
    small = SMALL
    if thorough:
        small = [(s, c) for s in SUBSETS for c in ("none", "first")]
    for a, b in itertools.product(range(len(small)), repeat=2):
        yield ("triples", (a, b), thorough)
    if thorough:
        for q in itertools.product(range(5), repeat=4):
            yield ("many", tuple(SMALL[i] for i in q))
    for i in range(len(SMALL)):
        yield ("formats", i)
    for first in VALUES:
        yield ("values", first, 3)
        if thorough or first in VALUES[:3]:
            yield ("values", first, 4)
    for n in LONG:
        yield ("long", n)
    yield ("range",)
    yield ("same",)
    for c in COLUMNS:
        yield ("empty", c)


def warned(messages):
    return any("Duplicate time points" in m for m in messages)


def check_return(table, frames, what):
    """The joint table has every series of every operand."""
    if not isinstance(table, pd.DataFrame):
        raise Violation("{}'return' gives {}".format(what, type(table)))
    names = list(table.index.names)
    if set(names) != set().union(*[f.cols for f in frames]):
        raise Violation("{}'return' has columns {}".format(what, names))
    got, expected = [], []
    for label, row in zip(table.index, table.values):
        m = {n: (None if norm(v) in (-999, "-999") else norm(v)) for n, v in zip(names, label)}
        got.append((key_of(m), sorted((secs(t), float(v)) for t, v in zip(table.columns, row) if not np.isnan(v))))
    for f in frames:
        for m, c in f.rows:
            expected.append((key_of(m), sorted(c.items())))
    if sorted(got) != sorted(expected):
        raise Violation("{}'return' gives {}, expected {}".format(what, sorted(got), sorted(expected)))


def check(frames, ctx, what="", parts=(0, 1)):
    """Append the frames in all ways (two in half of the ways of `parts`)."""
    expected = frames[0].append(*frames[1:])
    duplicates = frames[0].duplicates(*frames[1:])
    ctx.state(tuple(f.canonical() for f in frames))
    ctx.outcome((len(expected.rows), len(expected.times), len(expected.cols), duplicates))

    def fresh():
        return [build(f) for f in frames]

    def verify(res, messages, how, order=None, exp=None):
        ctx.step()
        if warned(messages) != duplicates and exp is None:
            raise Violation("{}{}: duplicates {} but warnings {}".format(what, how, duplicates, messages))
        compare(res, exp or expected, strict=True, what="{}{}: ".format(what, how), full=False)

    dfs = fresh()
    res, messages = quietly(df_append, dfs)
    verify(res, messages, "at once")
    for f, df in zip(frames, dfs):
        compare(df, f, strict=True, what="{}operand afterwards: ".format(what), full=False)
    if len(frames) == 2:
        res, messages = quietly(dfs[0].append, dfs[1])
        verify(res, messages, "append")
        if 0 in parts:
            res, messages = quietly(dfs[1].append, dfs[0])
            verify(res, messages, "append to the other")
            res, messages = quietly(dfs[0].append, dfs[1], duplicate_msg=False)
            ctx.step()
            if warned(messages):
                raise Violation("{}warnings {} with duplicate_msg=False".format(what, messages))
            compare(res, expected, strict=True, what="{}silently: ".format(what), full=False)
        if 1 in parts:
            res, messages = quietly(dfs[0].append, dfs[1], duplicate_msg="return")
            ctx.step()
            if duplicates:
                check_return(res, frames, what)
            else:
                compare(res, expected, strict=True, what="{}'return': ".format(what), full=False)
            nonsense = attempt(quietly, dfs[0].append, dfs[1], duplicate_msg="nonsense")
            if duplicates and nonsense != ("err", "ValueError"):
                raise Violation("{}duplicate_msg='nonsense': {}".format(what, nonsense))
        df = dfs[0]
        res, messages = quietly(df.append, dfs[1], inplace=True)
        if res is not None:
            raise Violation("in place returned {}".format(type(res)))
        verify(df, messages, "in place")
        ctx.trace(6)
        return
    # one after the other, each step is specified by itself
    step, ref = dfs[0], frames[0]
    for f, df in zip(frames[1:], dfs[1:]):
        ref_next = ref.append(f)
        step, messages = quietly(step.append, df)
        ctx.step()
        if warned(messages) != ref.duplicates(f):
            raise Violation("{}one after the other: warnings {}".format(what, messages))
        ref = ref_next
    compare(step, ref, strict=True, what="{}one after the other: ".format(what), full=False)
    if not duplicates:
        compare(step, expected, strict=True, what="{}one after the other: ".format(what), full=False)
    nested = frames[0].append(frames[1].append(*frames[2:]))
    res = quietly(dfs[0].append, quietly(df_append, dfs[1:])[0])[0]
    ctx.step(2)
    compare(res, nested, strict=True, what="{}nested: ".format(what), full=False)
    if len(frames) == 3:
        res, messages = quietly(df_append, [dfs[2], dfs[0], dfs[1]])
        verify(res, messages, "other order")
        res, messages = quietly(df_append, [dfs[1], dfs[0], dfs[2]], inplace=True)
        if res is not None:
            raise Violation("in place returned {}".format(type(res)))
        verify(dfs[1], messages, "in place")
    ctx.trace(3)


def run(case, ctx):
    kind = case[0]
    if kind == "pairs":
        _, i, c1, c2 = case
        for j, s in enumerate(SUBSETS):
            check(
                [frame(SUBSETS[i], c1, 0), frame(s, c2, 1)],
                ctx,
                "{} {}/{} {}: ".format(SUBSETS[i], c1, s, c2),
                (0, 1) if ctx.thorough else ((i + j + PAIRS.index((c1, c2))) % 2,),
            )
    elif kind == "triples":
        _, (a, b), thorough = case
        small = [(s, c) for s in SUBSETS for c in ("none", "first")] if thorough else SMALL
        for c in range(len(small)):
            ops = [small[a], small[b], small[c]]
            check([frame(s, col, k) for k, (s, col) in enumerate(ops)], ctx, "{}: ".format(ops))
    elif kind == "many":
        check([frame(s, col, k) for k, (s, col) in enumerate(case[1])], ctx, "{}: ".format(case))
    elif kind == "formats":
        first = frame(SUBSETS[14], "none", 0)
        second = frame(*SMALL[case[1]], 1)
        expected = first.append(second)
        w = wide(second)
        complete = all(m[c] is not None for m, _ in second.rows for c in second.cols)
        ids = [c for c in w.columns if isinstance(c, str)]
        operands = {"wide": w, "frame": build(second), "index": w.set_index(ids)}
        if complete:
            operands["long"] = w.melt(id_vars=ids, var_name="time", value_name="value").dropna(subset=["value"])
        if not second.cols - set(meta(0)):
            operands["array"] = None
        for name, operand in operands.items():
            for how in range(3):
                df = build(first)
                kwargs = {}
                if name == "array":
                    operand = np.array([[c.get(t, np.nan) for _, c in second.rows] for t in second.times])
                    kwargs = dict(
                        index=np.array(second.times).astype("datetime64[s]"),
                        columns={c: [m[c] for m, _ in second.rows] for c in meta(0)},
                    )
                    if how == 2:
                        continue
                if how == 0:
                    res = quietly(df.append, operand, **kwargs)[0]
                elif how == 1:
                    quietly(df.append, operand, inplace=True, **kwargs)
                    res = df
                else:
                    res = quietly(df_append, [df, operand])[0]
                ctx.step()
                compare(res, expected, strict=True, what="{} {}: ".format(name, how))
                ctx.trace()
            if name in ("wide", "index", "long"):
                res = quietly(df_append, [operand, build(first)])[0]
                compare(res, expected, strict=True, what="{} first: ".format(name))
                ctx.step()
        ctx.state("formats", case[1])
    elif kind == "values":
        # the same series in all operands, with values equal or not
        _, first, n = case
        others = VALUES if n == 3 else VALUES[:3]
        for rest in itertools.product(others, repeat=n - 1):
            check([valued(v) for v in (first,) + rest], ctx, "{}: ".format((first,) + rest))
    elif kind == "long":
        # many operands and many series
        n = case[1]
        ops = [valued([(1.0, 2.0, 6.0)[k % 3], float(k)]) for k in range(min(n, 101))]
        res, messages = quietly(df_append, [build(f) for f in ops])
        compare(res, ops[0].append(*ops[1:]), strict=True, what="{} operands: ".format(n), full=False)
        if not warned(messages):
            raise Violation("no warning for {} operands".format(n))
        wide_ops = []
        for k in range(3):
            f = RF([], list(T), set(meta(0)))
            f.rows = [
                (dict(meta(0), scenario="s{}".format(j)), {t: float(j % (k + 2)) + i for i, t in enumerate(T)})
                for j in range(k, n + k)
            ]
            wide_ops.append(f)
        for ops in (wide_ops[:2], wide_ops[1:], wide_ops):
            res, messages = quietly(df_append, [build(f) for f in ops])
            compare(res, ops[0].append(*ops[1:]), strict=True, what="{} series: ".format(n), full=False)
            ctx.step()
        # many times, every second shared
        times = [seconds(1700 + j) for j in range(2 * n)]
        ops = []
        for k in range(2):
            f = RF([], times[k * n // 2 : k * n // 2 + n], set(meta(0)))
            f.rows = [(meta(0), {t: float((i * (k + 1)) % 7) for i, t in enumerate(f.times)})]
            ops.append(f)
        res, messages = quietly(df_append, [build(f) for f in ops])
        compare(res, ops[0].append(*ops[1:]), strict=True, what="{} times: ".format(n), full=False)
        ctx.step(2)
        ctx.state("long", n)
        ctx.trace(5)
    elif kind == "empty":
        # nothing (left by a filter) is added anywhere
        none = frame(SUBSETS[14], case[1], 0)
        none.rows, none.times = [], []
        for sub, col in SMALL:
            f = frame(sub, col, 1)
            g = frame(SUBSETS[8], "both", 2)
            for ops in ([f, none], [none, f], [f, none, g], [none, f, none, g], [f, g, none]):
                expected = ops[0].append(*ops[1:])
                for inplace in (False, True):
                    dfs = [build(x) if x.rows else build(frame(SUBSETS[14], case[1], 0)).filter(scenario="-") for x in ops]
                    res, messages = quietly(df_append, dfs, inplace=inplace)
                    ctx.step()
                    if warned(messages) != ops[0].duplicates(*ops[1:]):
                        raise Violation("{} with empty frames: warnings {}".format(case, messages))
                    compare(dfs[0] if inplace else res, expected, strict=True, what="{}: ".format(case), full=False)
                    for df, x in list(zip(dfs, ops))[int(inplace):]:
                        compare(df, x, strict=True, what="{} operand afterwards: ".format(case), full=False)
            ctx.state("empty", case[1], sub, col)
            ctx.trace()
    elif kind == "range":
        # grids interleaved, touching, disjoint, over the whole range of times
        grids = [
            [seconds(1), seconds(1000), seconds(9999, 12, 31, 23, 59, 59)],
            [seconds(1969, 12, 31, 23, 59, 59), seconds(1970)],
            [seconds(2000, 1, 1, 0, 0, k) for k in range(3)],
            [seconds(y) for y in range(1700, 2500, 7)],
        ]
        for order in itertools.permutations(range(4)):
            frames = [
                RF.make([(meta(k % 2), [k + 0.5 * j for j in range(len(grids[k]))])], grids[k]) for k in order
            ]
            expected = frames[0].append(*frames[1:])
            res = quietly(df_append, [build(f) for f in frames])[0]
            ctx.step()
            ctx.state(order)
            compare(res, expected, strict=True, what="{}: ".format(order))
            ctx.trace()
    elif kind == "same":
        # the same object several times
        f = frame(SUBSETS[14], "first", 0)
        df = build(f)
        for n in (2, 3):
            res, messages = quietly(df_append, [df] * n)
            compare(res, f, strict=True, what="{} times itself: ".format(n))
            if not warned(messages):
                raise Violation("no warning when appending a frame to itself")
            ctx.step()
            ctx.trace()
        quietly(df.append, df, inplace=True)
        compare(df, f, strict=True, what="itself in place: ")
        res = quietly(df_append, [df])[0]
        compare(res, f, strict=True, what="alone: ")
        if res is df:
            raise Violation("df_append returned its operand")
        for bad in ([5], [df, 5], [df, "/nonexistent.csv"]):
            r = attempt(quietly, df_append, bad)
            if r[0] != "err":
                raise Violation("append of {} not refused".format(bad))
        if attempt(quietly, df_append, [wide(f)], inplace=True) != ("err", "TypeError"):
            raise Violation("in place append to a pandas frame not refused")
        compare(df, f, strict=True, what="after refused: ")
