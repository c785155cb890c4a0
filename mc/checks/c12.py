"""C12: metric (GWP) conversions match the table and need a context."""

import csv
import itertools
import math
import os
import warnings

import numpy as np

from ..engine import Violation, _in_child
from ..main import REPO
from ..util import close, sequences

PROP = "C12"
ASSUMPTIONS = [
    "the shipped metric_conversions.csv is the specification of the factors (read with the csv module)",
    "the CH4 and NOx contexts are specified for the bare units only (as documented)",
]
BOUNDS = {
    "quick": "every gas of the table x 3 metrics x 4 dimensional forms x 4 unit spellings x {CO2, C} x both directions, without context and with every context (wrong ones included); all ordered gas pairs of one metric in one form; all histories of <= 2 conversions (13 operations: contexts, none, unknown, NaN, refused, undefined) from a freshly started module and of <= 4 in a running one",
    "thorough": "all ordered gas pairs in all metrics and forms; histories of <= 3 from a fresh module and <= 5 in a running one",
}

METRICS = ("SARGWP100", "AR4GWP100", "AR5GWP100")
YEAR = 365.25 * 86400
#: species of which the gas symbol is not the base unit: factor to base unit
TO_BASE = {"N2O": 14 / 44}


def table():
    path = os.path.join(REPO, "openscm", "data", "metric_conversions.csv")
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    header = rows[1][1:]
    res = {}
    for row in rows[3:]:
        for metric, value in zip(header, row[1:]):
            res[row[0], metric] = float(value) if value.strip() else math.nan
    return res


TABLE = table()
GASES = sorted({g for g, _ in TABLE})

# (form, template, scale)
FORMS = {
    "bare": (("{}", 1.0),),
    "mass": (("kg {}", 1.0), ("Mt {}", 1e9), ("kt{}", 1e6), ("g {}", 1e-3)),
    "rate": (("{} / yr", 1 / YEAR), ("{}/d", 1 / 86400)),
    "massrate": (
        ("kg {} / s", 1.0),
        ("Mt {}/yr", 1e9 / YEAR),
        ("kt{}/a", 1e6 / YEAR),
        ("t {} / day", 1e3 / 86400),
    ),
}
CARBON = {"CO2": 1.0, "C": 44 / 12, "carbon_dioxide": 1.0}

# operations of the histories: (label, source, target, context, expected)
OPERATIONS = (
    ("CH4", "CO2", None, "DimensionalityError"),
    ("CH4", "CO2", "AR4GWP100", 25.0),
    ("CH4", "CO2", "SARGWP100", 21.0),
    ("CO2", "CH4", "AR5GWP100", 1 / 28),
    ("kt N2O / yr", "Mt CO2 / yr", "AR4GWP100", 0.298),
    ("kt N2O / yr", "Mt CO2 / yr", None, "DimensionalityError"),
    ("CH4", "C", "CH4_conversions", 0.75),
    ("CH4", "CO2", "NOx_conversions", "DimensionalityError"),
    ("CH4", "CO2", "nosuchcontext", "KeyError"),
    ("CFC13", "CO2", "SARGWP100", math.nan),
    ("CH4", "nosuchunit", "AR4GWP100", "UndefinedUnitError"),
    ("CH4", "K", "AR4GWP100", "DimensionalityError"),
    ("C", "CO2", None, 44 / 12),
    ("NOx", "N2O", "NOx_conversions", 44 / 46),
)


def cases(tier):
    for g in GASES:
        for metric in METRICS:
            yield ("gas", g, metric)
        yield ("without", g)
    for g in GASES:
        for metric in METRICS if tier == "thorough" else ("AR4GWP100",):
            yield ("gaspairs", g, metric)
    yield ("special",)
    fresh = 3 if tier == "thorough" else 2
    for n in range(1, fresh + 1):
        for h in sequences(range(len(OPERATIONS)), n):
            yield ("fresh", h)
    running = 5 if tier == "thorough" else 4
    for h in sequences(range(len(OPERATIONS)), 2 if running == 4 else 3):
        yield ("running", h)


def converter(source, target, context):
    """("ok", converter, warned) or ("err", name, False)"""
    from openscm.core.units import UnitConverter

    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            uc = UnitConverter(source, target, context=context)
        except Exception as e:  # pylint: disable=broad-except
            if type(e).__name__ in ("CaseTimeout",):
                raise
            return ("err", type(e).__name__, False)
    return ("ok", uc, any("nan" in str(x.message) for x in w))


def check(ctx, source, target, context, expected, full=True):
    ctx.step()
    kind, uc, warned = converter(source, target, context)
    what = "{!r} -> {!r} in {}".format(source, target, context)
    if isinstance(expected, str):
        if kind != "err" or uc != expected:
            raise Violation("{}: {} instead of {}".format(what, uc, expected))
        ctx.outcome(expected)
        return
    if kind != "ok":
        raise Violation("{}: {}".format(what, uc))
    for v in (1.0, -2.5, np.array([0.0, 3.0, 1e6])) if full else (1.0,):
        got, back = uc.convert_from(v), uc.convert_to(v)
        for g, b, x in zip(np.ravel(got), np.ravel(back), np.ravel(v)):
            if math.isnan(expected):
                if not (math.isnan(g) and math.isnan(b)):
                    raise Violation("{}: {} although the table is empty".format(what, g))
            elif not (close(g, x * expected, 1e-10) and close(b, x / expected, 1e-10)):
                raise Violation(
                    "{}: {} gives {} and {} back, expected factor {}".format(what, x, g, b, expected)
                )
    if math.isnan(expected):
        if not warned:
            raise Violation("{}: no warning about nan".format(what))
        ctx.outcome("nan")
    else:
        ctx.outcome("converted")


def history(ctx, h):
    for i in h:
        source, target, context, expected = OPERATIONS[i]
        try:
            check(ctx, source, target, context, expected, full=False)
        except Violation as v:
            raise Violation(
                "history {}: {}".format([OPERATIONS[j][:3] for j in h], v.message)
            )


def _fresh(h):
    """In a process of its own."""
    from ..engine import Ctx

    ctx = Ctx()
    try:
        history(ctx, h)
    except Violation as v:
        return v.message
    return "ok"


def run(case, ctx):
    if case[0] == "gas":
        _, g, metric = case
        value = TABLE[g, metric]
        names = {g, g.upper()}
        for form, templates in FORMS.items():
            for i, (ts, fs) in enumerate(templates):
                tt, ft = templates[(i + 1) % len(templates)]
                for name in names:
                    for c, fc in CARBON.items():
                        if "_" in c and tt.startswith("kt{"):
                            continue
                        ctx.state(g, metric, ts, c)
                        factor = value * fs / ft / fc
                        check(ctx, ts.format(name), tt.format(c), metric, factor)
                        check(ctx, tt.format(c), ts.format(name), metric, 1 / factor)
                ctx.trace()
        # different dimensions stay incompatible
        for s, t in (("{}", "kg {}"), ("kg {}", "kg {} / yr"), ("{}/yr", "kg {}/yr")):
            check(ctx, s.format(g), t.format("CO2"), metric, "DimensionalityError")
            check(ctx, t.format("CO2"), s.format(g), metric, "DimensionalityError")
    elif case[0] == "without":
        g = case[1]
        for form, templates in FORMS.items():
            ts, tt = templates[0][0], templates[-1][0]
            for context in (None, "CH4_conversions", "NOx_conversions"):
                if g == "CH4" and form == "bare" and context == "CH4_conversions":
                    continue
                ctx.state(g, form, context)
                for c in ("CO2", "C"):
                    check(ctx, ts.format(g), tt.format(c), context, "DimensionalityError")
                    check(ctx, tt.format(c), ts.format(g), context, "DimensionalityError")
            ctx.trace()
    elif case[0] == "gaspairs":
        _, g, metric = case
        for h in GASES:
            if h == g:
                continue
            for form in FORMS if ctx.thorough else ("massrate",):
                (ts, fs), (tt, ft) = FORMS[form][0], FORMS[form][-1]
                a, b = TABLE[g, metric], TABLE[h, metric]
                ctx.state(g, h, metric, form)
                check(ctx, ts.format(g), tt.format(h), metric, a / b * fs / ft, full=False)
        ctx.trace()
    elif case[0] == "special":
        for a, b, context, factor in (
            ("CH4", "C", "CH4_conversions", 12 / 16),
            ("CH4", "CO2", "CH4_conversions", 44 / 16),
            ("methane", "carbon", "CH4_conversions", 12 / 16),
            ("NOx", "N", "NOx_conversions", 14 / 46),
            ("NOX", "N", "NOx_conversions", 14 / 46),
            ("NOx", "N2O", "NOx_conversions", 44 / 46),
            ("NOx", "N2ON", "NOx_conversions", 28 / 46),
        ):
            ctx.state(a, b)
            check(ctx, a, b, context, factor)
            check(ctx, b, a, context, 1 / factor)
            for other in (None, *METRICS, "CH4_conversions", "NOx_conversions"):
                if other == context or (other in METRICS and a in ("CH4", "methane")):
                    continue
                check(ctx, a, b, other, "DimensionalityError")
                check(ctx, b, a, other, "DimensionalityError")
            ctx.trace()
    elif case[0] == "fresh":
        # workers never load the contexts before these cases' children are forked: see
        # below, a forked child resets the registry by starting from a new import
        message = _in_child(_new_module, case[1])
        ctx.step(len(case[1]))
        ctx.state("fresh", case[1])
        ctx.trace()
        if message != "ok":
            raise Violation("freshly started: {}".format(message))
    else:
        tails = sequences(range(len(OPERATIONS)), 2)
        for tail in tails:
            h = case[1] + tail
            ctx.state("running", h)
            ctx.trace()
            history(ctx, h)


def _new_module(h):
    import sys

    for name in [m for m in sys.modules if m.split(".")[0] == "openscm"]:
        del sys.modules[name]
    return _fresh(h)
