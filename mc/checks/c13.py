"""C13: DICE produces the model's equations for every configuration."""

import itertools

import numpy as np

from .. import dice_ref
from ..dice_ref import DEFAULTS, OUTPUTS, STANDARD, YEAR
from ..engine import Violation
from ..util import all_close, seconds, to64

PROP = "C13"
ASSUMPTIONS = [
    "the reference recurrences (mc/dice_ref.py) are the published DICE equations; a model year is 365 days, parameters apply per period",
    "time settings have a resolution of days or finer and span at least three time points",
    "numbers agree to 1e-8 of the largest value of the series",
]
BOUNDS = {
    "quick": "23 scalar parameters x 3 alternatives (bounds active and inactive) and other units x rounding on/off x 5 emission pathways x 2..7 time points; all pairs of parameters x 9 x 2 emission pathways; time grid: 5 starts x 5 periods x 9 saturation times x partial last periods; emissions in 7 units, 5 finer/wider grids, 4 hierarchical splits; 3 units of each output, aggregated outputs; 12, 31, 61 and 151 time points x emission pathways x rounding, 41 time points x every parameter alternative",
    "thorough": "also all triples of parameter alternatives and all pairs x 9 alternatives x 5 emission pathways; 292 time points",
}

START = seconds(2010)

# alternatives, chosen so that bounds are reached in some of them
ALTERNATIVES = {
    "mat0": (500.0, 588.0, 3000.0),
    "mateq": (400.0, 830.4, 1000.0),
    "mat_lower": (826.0, 900.0, 0.5),
    "ml0": (5000.0, 1001.0, 20000.0),
    "mleq": (1720.0, 500.0, 30000.0),
    "ml_lower": (10010.5, 10009.0, 20000.0),
    "mu0": (460.0, 101.0, 5000.0),
    "mueq": (360.0, 1527.0, 9000.0),
    "mu_lower": (1527.2, 1528.5, 2000.0),
    "tatm0": (0.0, -1.5, 39.99),
    "tatm_upper": (0.81, 0.5, 0.85),
    "tocean0": (2.0, -0.99, 19.99),
    "tocean_lower": (0.008, 0.5, -10.0),
    "tocean_upper": (0.01, 0.0, 0.015),
    "b12": (0.088, 0.0, 0.5),
    "b23": (0.0025, 0.0, 0.3),
    "c1": (0.098, 0.0, 1.5),
    "c3": (0.5, 0.0, 5.0),
    "c4": (0.025, 0.0, 0.9),
    "fex0": (0.5, 0.0, -1.0),
    "fex1": (1.0, 0.25, -0.5),
    "fco22x": (3.6813, 7.0, 1.0),
    "t2xco2": (1.5, 3.1, 6.0),
}
OTHER_UNITS = {
    "GtC": (("MtC", 1e3), ("GtCO2", 44 / 12), ("kg C", 1e12)),
    "delta_degC": (("kelvin", 1.0), ("mK", 1e3), ("delta_degF", 1.8)),
    "W/m^2": (("mW/m^2", 1e3), ("J/s/m^2", 1.0), ("W/cm^2", 1e-4)),
    "": (("dimensionless", 1.0), ("m/km", 1e3), ("g/kg", 1e3)),
    "delta_degC*m^2/W": (("mK*m^2/W", 1e3), ("kelvin/(W/m^2)", 1.0), ("K*cm^2/W", 1e4)),
    "W/m^2/delta_degC": (("mW/m^2/K", 1e3), ("W/m^2/mK", 1e-3), ("W/cm^2/delta_degC", 1e-4)),
}
EMISSIONS = {
    "zero": lambda i: 0.0,
    "constant": lambda i: 10.0,
    "growing": lambda i: 8.0 + 1.5 * i + (0.25 if i % 2 else 0.0),
    "negative": lambda i: 5.0 - 40.0 * i,
    "pulse": lambda i: 4000.0 if i == 1 else 1.0,
}
# the same over many years: rising, peaking and falling below zero, with pulses
LONG = {
    "zero": lambda i: 0.0,
    "constant": lambda i: 10.0,
    "growing": lambda i: 8.0 + 0.3 * i + (0.25 if i % 2 else 0.0),
    "negative": lambda i: 12.0 - 0.4 * i + 0.002 * i * i,
    "pulse": lambda i: 900.0 if i % 37 == 5 else (-300.0 if i % 41 == 9 else 1.0),
}
STARTS = (START, seconds(1, 1, 1), seconds(1969, 12, 31, 12), seconds(2016, 2, 29), seconds(2400, 7, 1, 1, 2, 3))
PERIODS = (YEAR, 5 * YEAR, 30 * 86400, 31557600, 86400 + 1)

# emissions in other units: (unit, how much one GtC/a is)
EMISSION_UNITS = (
    ("GtC/a", 1.0),
    ("GtCO2/yr", 44 / 12),
    ("MtC/yr", 1e3),
    ("Mt CO2 / a", 44e3 / 12),
    ("kg C / s", 1e12 / (365.25 * 86400)),
    ("tCO2/day", 44 / 12 * 1e9 / 365.25),
    ("GtC/month", 1 / 12),
)
OUTPUT_UNITS = {
    "GtC": (("GtCO2", 44 / 12), ("kg C", 1e12)),
    "delta_degC": (("kelvin", 1.0), ("mK", 1e3)),
    "W/m^2": (("mW/m^2", 1e3), ("J/s/m^2", 1.0)),
}


def cases(tier):
    names = list(DEFAULTS)
    for e in EMISSIONS:
        for n in range(3, 9):
            for r in (True, False):
                yield ("plain", e, n, r)
    for p in names:
        for k in range(3):
            for e in EMISSIONS:
                for r in (True, False):
                    yield ("single", p, k, e, 5, r)
            yield ("unit", p, k)
    for p, q in itertools.combinations(names, 2):
        for k, l in itertools.product(range(3), repeat=2):
            for e in ("growing", "negative") if tier == "quick" else EMISSIONS:
                yield ("pair", p, q, k, l, e)
    if tier == "thorough":
        for p, q, s in itertools.combinations(names, 3):
            for k in range(3):
                yield ("triple", p, q, s, k)
    for s in range(len(STARTS)):
        for p in range(len(PERIODS)):
            for sat in range(9):
                for part in (0, 1, 2):
                    yield ("time", s, p, sat, part)
    for u in range(len(EMISSION_UNITS)):
        for r in (True, False):
            for e in EMISSIONS:
                yield ("emissionunit", u, r, e)
    for g in ("split2", "split3", "splitall", "wider", "widerfiner"):
        for e in EMISSIONS:
            for r in (True, False):
                yield ("emissiongrid", g, e, r)
    for split in range(4):
        for e in EMISSIONS:
            yield ("hierarchy", split, e)
    for n in (12, 31, 61, 151) + ((292,) if tier == "thorough" else ()):
        for e in EMISSIONS:
            for r in (True, False):
                yield ("long", n, e, r, None, 0)
    for p in names:
        for k in range(3):
            yield ("long", 41, "growing", True, p, k)
    yield ("presets",)


def build(ctx, start, n, period=YEAR, rounding=None, saturation=None, partial=0, stop=None):
    from openscm.core import OpenSCM

    m = OpenSCM("DICE")
    m.parameters.generic("Start Time").value = np.datetime64(start, "s")
    if stop is None:
        stop = start + (n - 1) * period + partial
    m.parameters.generic("Stop Time").value = np.datetime64(stop, "s")
    if period != YEAR:
        m.parameters.generic(("DICE", "period_length")).value = np.timedelta64(period, "s")
    if rounding is not None:
        m.parameters.generic(("DICE", "original_rounding")).value = rounding
    if saturation is not None:
        m.parameters.generic(("DICE", "forcoth_saturation_time")).value = np.datetime64(saturation, "s")
    ctx.step(3)
    return m, stop


def set_emissions(m, start, n, period, fun, unit="GtC/a", factor=1.0, name=("Emissions", "CO2")):
    grid = to64([start + i * period for i in range(n + 1)])
    v = m.parameters.timeseries(name, unit, grid, timeseries_type="average")
    v.values = np.array([fun(i) * factor for i in range(n)])


def scalar(m, name, value, unit):
    full = STANDARD.get(name, ("DICE", name))
    m.parameters.scalar(full, unit).value = value


def compare(m, expected, start, n, period, units=False):
    for name, (full, unit, kind) in OUTPUTS.items():
        grid = to64([start + i * period for i in range(n + (kind == "average"))])
        for u, f in ((unit, 1.0),) + (OUTPUT_UNITS[unit] if units else ()):
            got = m.output.timeseries(full, u, grid, timeseries_type=kind).values
            exp = [x * f for x in expected[name]]
            if not all_close(list(got), exp, 1e-8):
                raise Violation(
                    "{} in {}: {}, expected {}".format(name, u, list(got), exp)
                )
    if units:
        grid = to64([start + i * period for i in range(n)])
        for full, parts in (
            (("Pool", "CO2", "Ocean"), ("ml", "mu")),
            (("Pool", "CO2"), ("mat", "ml", "mu")),
            ("Surface Temperature", ("tatm",)),
        ):
            u = "GtC" if "Pool" in full else "delta_degC"
            got = m.output.timeseries(full, u, grid, timeseries_type="point").values
            exp = [sum(v) for v in zip(*(expected[p] for p in parts))]
            if not all_close(list(got), exp, 1e-8):
                raise Violation("{}: {}, expected {}".format(full, list(got), exp))


def run(case, ctx):
    ctx.state(case)
    ctx.trace()
    kind = case[0]
    if kind == "plain":
        _, e, n, r = case
        m, stop = build(ctx, START, n, rounding=r)
        set_emissions(m, START, n, YEAR, EMISSIONS[e])
        m.run()
        compare(m, dice_ref.model(EMISSIONS[e], START, stop, rounding=r), START, n, YEAR, units=True)
    elif kind == "long":
        _, n, e, r, p, k = case
        changed = {} if p is None else {p: ALTERNATIVES[p][k]}
        m, stop = build(ctx, START, n, rounding=r)
        fun = LONG[e]
        set_emissions(m, START, n, YEAR, fun)
        for name, value in changed.items():
            scalar(m, name, value, DEFAULTS[name][1])
        m.run()
        exp = dice_ref.model(fun, START, stop, rounding=r, **changed)
        compare(m, exp, START, n, YEAR, units=p is None)
        ctx.step(n)
    elif kind in ("single", "pair", "triple"):
        if kind == "single":
            _, p, k, e, n, r = case
            changed = {p: ALTERNATIVES[p][k]}
        elif kind == "pair":
            _, p, q, k, l, e = case
            n, r = 4, None
            changed = {p: ALTERNATIVES[p][k], q: ALTERNATIVES[q][l]}
        else:
            _, p, q, s, k = case
            n, r, e = 4, None, "growing"
            changed = {x: ALTERNATIVES[x][k] for x in (p, q, s)}
        m, stop = build(ctx, START, n, rounding=r)
        set_emissions(m, START, n, YEAR, EMISSIONS[e])
        for name, value in changed.items():
            scalar(m, name, value, DEFAULTS[name][1])
        m.run()
        exp = dice_ref.model(EMISSIONS[e], START, stop, rounding=r is not False, **changed)
        compare(m, exp, START, n, YEAR)
    elif kind == "unit":
        _, p, k = case
        m, stop = build(ctx, START, 4)
        set_emissions(m, START, 4, YEAR, EMISSIONS["growing"])
        value = ALTERNATIVES[p][k]
        for i, (unit, factor) in enumerate(OTHER_UNITS[DEFAULTS[p][1]]):
            scalar(m, p, value * factor, unit)
            m.run()
            exp = dice_ref.model(EMISSIONS["growing"], START, stop, **{p: value})
            compare(m, exp, START, 4, YEAR)
            ctx.step()
    elif kind == "time":
        _, s, p, sat, part = case
        start, period, n = STARTS[s], PERIODS[p], 5
        saturation = start + (-1, 0, period, 2 * period, 2 * period + 1, 3 * period - 1, 4 * period, 4 * period + 1, 50 * period)[sat]
        partial = (0, 1, period - 1)[part]
        m, stop = build(ctx, start, n, period, None, saturation, partial)
        set_emissions(m, start, n, period, EMISSIONS["growing"])
        m.run()
        exp = dice_ref.model(EMISSIONS["growing"], start, stop, period, saturation=saturation)
        compare(m, exp, start, n, period)
    elif kind == "emissionunit":
        _, u, r, e = case
        unit, factor = EMISSION_UNITS[u]
        m, stop = build(ctx, START, 5, rounding=r)
        set_emissions(m, START, 5, YEAR, EMISSIONS[e], unit, factor)
        m.run()
        compare(m, dice_ref.model(EMISSIONS[e], START, stop, rounding=r), START, 5, YEAR)
    elif kind == "emissiongrid":
        _, g, e, r = case
        n = 5
        m, stop = build(ctx, START, n, rounding=r)
        fun = EMISSIONS[e]
        parts = {"split2": [1 / 3, 2 / 3], "split3": [0.25, 0.25, 0.5], "splitall": [0.1] * 10, "wider": [1.0], "widerfiner": [0.5, 0.5]}[g]
        lead = 2 if g.startswith("wider") else 0
        grid, values = [START - lead * YEAR], []
        for i in range(-lead, n + lead):
            mean = fun(i) if i >= 0 else 3.0
            # values with the given mean over the period
            raw = [(j + 1) % 3 - 1.0 for j in range(len(parts))]
            avg = sum(a * b for a, b in zip(raw, parts))
            t = START + i * YEAR
            done = 0.0
            for a, b in zip(raw, parts):
                done += b
                values.append(mean + (a - avg) * 0.3)
                grid.append(t + int(round(done * YEAR)))
        v = m.parameters.timeseries(("Emissions", "CO2"), "GtC/a", to64(grid), timeseries_type="average")
        v.values = np.array(values)
        m.run()
        compare(m, dice_ref.model(fun, START, stop, rounding=r), START, n, YEAR)
    elif kind == "hierarchy":
        _, split, e = case
        n, fun = 5, EMISSIONS[e]
        m, stop = build(ctx, START, n)
        children = (
            ((("Emissions", "CO2", "Fossil"), "GtC/a", 1.0, 0.7), (("Emissions", "CO2", "Land"), "GtC/a", 1.0, 0.3)),
            ((("Emissions", "CO2", "Fossil"), "MtCO2/a", 44e3 / 12, 1.5), (("Emissions", "CO2", "Land"), "GtC/a", 1.0, -0.5)),
            ((("Emissions", "CO2", "Fossil", "Coal"), "GtC/a", 1.0, 0.2), (("Emissions", "CO2", "Fossil", "Oil"), "GtCO2/a", 44 / 12, 0.5), (("Emissions", "CO2", "Land"), "MtC/a", 1e3, 0.3)),
            ((("Emissions", "CO2", "Only"), "GtC/a", 1.0, 1.0),),
        )[split]
        for name, unit, factor, share in children:
            set_emissions(m, START, n, YEAR, fun, unit, factor * share, name)
        m.run()
        compare(m, dice_ref.model(fun, START, stop), START, n, YEAR)
    else:
        # the defaults are written to unset parameters only, and are the documented ones
        m, stop = build(ctx, START, 4)
        set_emissions(m, START, 4, YEAR, EMISSIONS["growing"])
        scalar(m, "t2xco2", 0.0, "delta_degC")
        m.parameters.scalar(("DICE", "b23"), "").value = 0
        scalar(m, "t2xco2", 4.0, "delta_degC")
        m.run()
        for name, (value, unit) in DEFAULTS.items():
            exp = {"t2xco2": 4.0, "b23": 0.0}.get(name, value)
            got = m.parameters.scalar(STANDARD.get(name, ("DICE", name)), unit).value
            ctx.step()
            if got != exp:
                raise Violation("{} is {} after a run, expected {}".format(name, got, exp))
        compare(m, dice_ref.model(EMISSIONS["growing"], START, stop, t2xco2=4.0, b23=0.0), START, 4, YEAR)
    ctx.step()
    ctx.outcome(kind)
