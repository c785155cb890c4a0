"""C24: frame unit conversion converts exactly the selected series."""

import itertools

from ..engine import Violation
from ..frames import FACTORS, RF, Refused, build, compare, snapshot
from ..util import attempt, seconds

PROP = "C24"
ASSUMPTIONS = [
    "every selected series has a unit; series which a filter on times selects are converted at all times; unit factors of mc/frames.py (SI prefixes, atomic masses, metrics as documented)",
    "filter(unit=...) cannot be combined with convert_unit, whose first argument has that name",
]
BOUNDS = {
    "quick": "all frames of one series x unit_context column absent, null, or set x all targets of its dimension (and two others) x 4 contexts (AR5 only with CH4 or N2O) x 10 filters, in place or not, and back; all ordered pairs of series with one of these columns and half of the filters, all ascending triples with a quarter of them; all sequences of 2 conversions (16 kinds) of 12 frames; 12 to 130 series of 11 units x 3 and 61 times x pairs of 8 conversions",
    "thorough": "all frames of <=3 series in all orders with all columns and half of the filters for triples, ascending quadruples, sequences of 3 conversions",
}

TIMES = [seconds(1000), seconds(2000, 5, 5, 5, 5, 5), seconds(3000)]
# (variable, region, unit, values)
POOL = (
    ("Emissions|CO2|AFOLU", "World", "GtC/yr", (1.0, -2.5, 0.0)),
    ("Emissions|CO2|Fossil", "World", "MtCO2/yr", (3e3, 1e-3, 7.0)),
    ("Emissions|CO2", "World|A", "GtC/yr", (4.0, None, 5.0)),
    ("Emissions|CO2", "World|B", "t C / yr", (1e9, 2e9, 3e9)),
    ("Emissions|CH4", "World", "MtCH4/yr", (300.0, 310.0, 320.0)),
    ("Emissions|N2O", "World", "MtN2O/yr", (5.0, 6.0, 7.0)),
    ("Temperature", "World", "K", (280.0, 281.0, 290.0)),
    ("Temperature", "World|A", "degC", (0.0, -10.0, 20.0)),
    ("Temperature|Land", "World|A", "mK", (1.5, None, 2.5)),
    ("Forcing", "World", "W/m^2", (1.0, 2.0, -3.0)),
    ("Concentration", "World", "ppm", (400.0, 401.0, 402.0)),
)
TARGETS = ("GtC/yr", "MtC/yr", "MtCO2/yr", "PgC/a", "ktCH4/yr", "MtN/yr", "K", "degC", "mK", "mW/m^2", "ppb")
CONTEXTS = (None, "AR4GWP100", "AR5GWP100", "nonsense")
FILTERS = (
    ({}, lambda m: True),
    ({"variable": "Emissions|CO2|*"}, lambda m: m["variable"].startswith("Emissions|CO2|")),
    ({"variable": ["Temperature", "Emissions|CH4"]}, lambda m: m["variable"] in ("Temperature", "Emissions|CH4")),
    ({"region": "World|A"}, lambda m: m["region"] == "World|A"),
    ({"region": "World", "variable": "*"}, lambda m: m["region"] == "World"),
    ({"variable": "no such"}, lambda m: False),
    ({"region": "World|A", "keep": False}, lambda m: m["region"] != "World|A"),
    # series are converted as a whole
    ({"year": 3000, "region": "World*"}, lambda m: True),
    ({"month": 5, "variable": "Temperature*", "region": "World"}, lambda m: m["variable"] == "Temperature" and m["region"] == "World"),
    ({"year": [1999, 2001]}, lambda m: False),
)


def make(chosen, mode):
    rows = []
    for n, i in enumerate(chosen):
        variable, region, unit, vals = POOL[i]
        m = dict(model="m", scenario="s", variable=variable, region=region, unit=unit)
        if mode == "null":
            m["unit_context"] = None
        elif mode == "set":
            m["unit_context"] = ("SARGWP100", None)[n % 2]
        rows.append((m, vals))
    return RF.make(rows, TIMES)


def cases(tier):
    thorough = tier == "thorough"
    n = range(len(POOL))
    for i in n:
        yield ("frame", (i,))
    for c in itertools.permutations(n, 2):
        yield ("frame", c)
    for c in itertools.permutations(n, 3):
        if thorough or list(c) == sorted(c):
            yield ("frame", c)
    if thorough:
        for c in itertools.combinations(n, 4):
            yield ("frame", c)
    for n in (12, 40, 130) + ((400,) if thorough else ()):
        for t in (3, 61):
            for layout in ("cycle", "blocks", "samevariable"):
                yield ("large", n, t, layout)
    for f in SEQUENCE_FRAMES:
        for first in range(len(KINDS)):
            yield ("sequence", f, first, 3 if thorough else 2)


def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)


def relevant(chosen):
    """Targets of a dimension in the frame (with its metrics) plus one that never fits."""
    dims = {FACTORS[POOL[i][2]][0] for i in chosen}
    if dims & {"methane", "nitrogen"}:
        dims.add("carbon")
    return [t for t in TARGETS if FACTORS[t][0] in dims] + ["J", "no unit"]


def run_frame(case, ctx):
    chosen = case[1]
    modes = ("absent", "null", "set")
    if len(chosen) > 1 and not ctx.thorough:
        modes = (modes[(sum(chosen) + (chosen[0] > chosen[1])) % 3],)
    for mode in modes:
        rf = make(chosen, mode)
        df = build(rf)
        snap = snapshot(df)
        metrics = any(POOL[i][2] in ("MtCH4/yr", "MtN2O/yr") for i in chosen)
        for unit, context, (n, (kwargs, fun)) in itertools.product(relevant(chosen), CONTEXTS, enumerate(FILTERS)):
            if len(chosen) > 1 and (n + len(unit)) % (1 if ctx.thorough and len(chosen) == 2 else 2 if ctx.thorough or len(chosen) == 2 else 4):
                continue  # every filter with every second (fourth) target
            if context == "nonsense" and n > 1:
                continue
            if context == "AR5GWP100" and not metrics and not ctx.thorough:
                continue
            what = "{} ({}) to {} with {} for {}: ".format([POOL[i][:3] for i in chosen], mode, unit, context, kwargs)
            args = dict(kwargs)
            if context is not None:
                args["context"] = context
            ctx.state(chosen, mode, unit, context, n)
            try:
                exp = rf.convert_unit(unit, fun, context)
            except Refused as r:
                exp = None
            if exp is None:
                res = attempt(df.convert_unit, unit, **args)
                if res[0] != "err" or res[1] != r_name(rf, unit, fun, context):
                    raise Violation("{}{} instead of {}".format(what, res, r_name(rf, unit, fun, context)))
                if n % 2:
                    res = attempt(df.convert_unit, unit, inplace=True, **args)
                    if res[0] != "err":
                        raise Violation(what + "not refused in place")
                if snapshot(df) != snap:
                    raise Violation(what + "refused, but frame changed")
                ctx.outcome(res[1])
                ctx.step()
                ctx.trace()
                continue
            got = df.convert_unit(unit, **args)
            ctx.step()
            compare(got, exp, what=what, full=False)
            if snapshot(df) != snap:
                raise Violation(what + "frame changed")
            # and in place, of the copy
            same = df.copy()
            if same.convert_unit(unit, inplace=True, **args) is not None:
                raise Violation(what + "in place returns something")
            if snapshot(same) != snapshot(got):
                raise Violation(what + "in place differs")
            ctx.step()
            # and back, if it was one unit before
            sources = {m["unit"] for m, _ in rf.rows if fun(m)}
            if len(sources) == 1 and kwargs.keys() <= {"variable", "region", "keep"}:
                compare(got.convert_unit(sources.pop(), **args), back(exp, rf, fun, context), what=what + "and back: ", full=False)
                ctx.step()
            ctx.trace()
            ctx.outcome((sum(bool(fun(m)) for m, _ in rf.rows), len(rf.rows), context))


def r_name(rf, unit, fun, context):
    """Name of the error; units are looked at one after another."""
    if unit == "no unit":
        return "UndefinedUnitError"
    if context == "nonsense":
        return "KeyError"
    return "DimensionalityError"


def back(exp, rf, fun, context):
    res = exp.copy()
    for (m, c), (m0, c0) in zip(res.rows, rf.rows):
        c.update(c0)
        m["unit"] = m0["unit"]
        if fun(m0):
            m["unit_context"] = context
    return res


LARGE_UNITS = {
    "Emissions|CO2": ("GtC/yr", "MtCO2/yr", "t C / yr", "PgC/a", "MtC/yr", "GtCO2/yr"),
    "Emissions|CH4": ("MtCH4/yr", "ktCH4/yr"),
    "Temperature": ("K", "degC", "mK"),
}
LARGE_CALLS = (
    ("MtC/yr", None, {"variable": "Emissions|CO2*"}, lambda m: m["variable"].startswith("Emissions|CO2")),
    ("MtCO2/yr", "AR4GWP100", {"variable": "Emissions|*"}, lambda m: m["variable"].startswith("Emissions|")),
    ("degC", None, {"variable": "Temperature*"}, lambda m: m["variable"].startswith("Temperature")),
    ("K", None, {"variable": "Temperature*", "scenario": ["s1", "s2", "s11", "s12", "s39", "s100"]}, lambda m: m["variable"].startswith("Temperature") and m["scenario"] in ("s1", "s2", "s11", "s12", "s39", "s100")),
    ("GtC/yr", None, {"variable": "Emissions|CO2*", "region": "World|R1*"}, lambda m: m["variable"].startswith("Emissions|CO2") and m["region"].startswith("World|R1")),
    ("K", None, {"variable": "Emissions|*", "keep": False}, lambda m: not m["variable"].startswith("Emissions|")),
    ("K", None, {}, lambda m: True),
    ("GtC/yr", None, {"variable": "Emissions|*"}, lambda m: m["variable"].startswith("Emissions|")),
)


def run_large(case, ctx):
    """Many series of mixed units, one call and every pair of calls."""
    _, n, t, layout = case
    times = [seconds(1850 + i) for i in range(t)]
    base = []
    for i in range(n):
        variables = list(LARGE_UNITS)
        v = variables[{"cycle": i % 3, "blocks": i * 3 // n, "samevariable": i % 3}[layout]]
        unit = LARGE_UNITS[v][i // 3 % len(LARGE_UNITS[v])]
        m = dict(model="m", scenario="s{}".format(i), variable=v, region="World|R{}".format(i % 13), unit=unit)
        if layout != "samevariable":
            m["variable"] += "|P{}".format(i)
        base.append((m, [((i + 3) * (j + 1)) % 17 + 1e-6 * i + 100.0 * (v == "Temperature") for j in range(t)]))
    for pair in itertools.product(range(len(LARGE_CALLS)), repeat=2) if t == 3 and n < 100 else ((i, i) for i in range(len(LARGE_CALLS))):
        rf = RF.make(base, times)
        df = build(rf)
        what = "{} {}: ".format(case, [LARGE_CALLS[k][:3] for k in pair])
        for k in pair:
            unit, context, kwargs, fun = LARGE_CALLS[k]
            snap = snapshot(df)
            ctx.step()
            try:
                rf = rf.convert_unit(unit, fun, context)
            except Refused:
                res = attempt(df.convert_unit, unit, context=context, inplace=bool(k % 2), **kwargs)
                if res != ("err", "DimensionalityError") or snapshot(df) != snap:
                    raise Violation("{}{}".format(what, res if res[0] == "err" else "accepted"))
                ctx.outcome("refused")
                continue
            new = df.convert_unit(unit, context, **kwargs)
            if snapshot(df) != snap:
                raise Violation(what + "frame changed")
            df = new
            ctx.outcome("converted")
        compare(df, rf, what=what, full=False)
        ctx.state(case, pair)
        ctx.trace()


SEQUENCE_FRAMES = (
    (0, 1, 4),
    (1, 3, 2),
    (4, 5),
    (5, 4, 0, 6),
    (6, 7, 8),
    (7, 9, 1),
    (8, 6),
    (10, 0, 7),
    (2, 3),
    (9, 6, 10),
    (0, 1, 2, 3, 4, 5),
    (6, 7, 8, 9, 10),
)
KINDS = tuple(
    [
        ("GtC/yr", None, 0),
        ("MtCO2/yr", None, 1),
        ("GtC/yr", "AR4GWP100", 0),
        ("MtCO2/yr", "AR5GWP100", 0),
        ("MtCO2/yr", "AR4GWP100", 2),
        ("PgC/a", None, 3),
        ("ktCH4/yr", None, 2),
        ("ktCH4/yr", "AR4GWP100", 0),
        ("MtN/yr", "AR5GWP100", 0),
        ("K", None, 0),
        ("degC", None, 3),
        ("mK", None, 2),
        ("K", "AR4GWP100", 2),
        ("mW/m^2", None, 4),
        ("ppb", None, 4),
        ("no unit", None, 5),
    ]
)


def run_sequence(case, ctx):
    _, chosen, first, depth = case
    for rest in itertools.product(range(len(KINDS)), repeat=depth - 1):
        rf = make(chosen, "absent")
        df = build(rf)
        done = []
        for k in (first,) + rest:
            unit, context, f = KINDS[k]
            kwargs, fun = FILTERS[f]
            done.append((unit, context, kwargs))
            try:
                new = rf.convert_unit(unit, fun, context)
            except Refused:
                snap = snapshot(df)
                res = attempt(df.convert_unit, unit, context=context, inplace=True, **kwargs)
                if res[0] != "err" or snapshot(df) != snap:
                    raise Violation("{} after {}: {}".format(chosen, done, res))
                ctx.outcome("refused")
            else:
                if k % 2:
                    df.convert_unit(unit, context=context, inplace=True, **kwargs)
                else:
                    df = df.convert_unit(unit, context, **kwargs)
                rf = new
                ctx.outcome("converted")
            ctx.step()
            ctx.state(rf.canonical())
        compare(df, rf, what="{} after {}: ".format(chosen, done), full=False)
        ctx.trace()
