"""C22: interpolation and resampling treat each series by its own type."""

import itertools

import numpy as np

from openscm.core.parameters import ParameterType
from openscm.core.time import ExtrapolationType
from openscm.scmdataframe.parameter_type import guess_parameter_type

from .. import ref_time
from ..engine import Violation
from ..frames import RF, Refused, build, compare, observe, quietly, secs, snapshot, to_datetime, with_closing_point
from ..offsets_ref import reference_range
from ..util import attempt, seconds, to64

PROP = "C22"
ASSUMPTIONS = [
    "frames of at least two times without missing values (series next to one with missing values are checked too), target times ascending, at least two, of which only the first may be before the first source time (the code refuses others)",
    "average series end with a period as long as the one before it, in source and target",
    "the conversion reference of C07/C08 and the offset reference of C23",
]
BOUNDS = {
    "quick": "all frames of one or two series and all ascending/descending triples out of 9 (types given in several spellings, missing, null; known and unknown units) x 3 grids x 10 targets (given as datetime64, datetime, years, text or mixed) x 3 extrapolation types; resample of 9 frames x 4 spans x 12 rules; frames of 12-72 series sharing variables, units, regions, given types in 6 orders; up to 300 series, times and targets; guessed types of 60 names x 40 units",
    "thorough": "all frames of up to three series and ascending quadruples, further target spellings",
}

YEAR = 365 * 86400
GRIDS = {
    "two": [seconds(2000), seconds(2010)],
    "odd": [seconds(2000), seconds(2001, 3, 1, 5, 6, 7), seconds(2001, 3, 2), seconds(2010, 12, 31)],
    "long": [seconds(1000, 2, 28), seconds(1500), seconds(2500), seconds(9000, 12, 31, 23, 59, 59)],
}
OMIT = "no such column"
# (variable, unit, parameter type as given, expected type)
POOL = (
    ("Emissions|CO2", "GtC/yr", OMIT, "average"),
    ("Surface Temperature", "K", None, "point"),
    ("Heat Flux", "unheard of", float("nan"), "average"),
    ("Pool", "GtC", "average", "average"),
    ("Emissions|CH4", "MtCH4/yr", "point", "point"),
    ("Other", "unheard of", OMIT, "point"),
    ("Surface Temperature|Land", "K", "AVERAGE", "average"),
    ("Concentration", "ppm", "Point", "point"),
    ("Radiative Forcing", "W/m^2", OMIT, "average"),
)
EXTRAPOLATION = ("constant", "linear", "none")


def values(i, n):
    return [((i + 2) * (j + 1) ** 2) % 17 - 3 + 0.25 * j for j in range(n)]


def targets(times):
    a, b = times[0], times[-1]
    last = times[-1] - times[-2]
    mid = a + (b - a) // 2
    return [
        list(times),
        [a, b],
        [a + 1, mid, b - last // 4],
        [a - YEAR, a, mid],
        [mid, b, b + last, b + 3 * last],
        [a - 7 * YEAR, a, b + YEAR, b + 2 * YEAR],
        [a - 7 * YEAR, a + YEAR],
        [b + 2 * last, b + 2 * last + 86400],
        [a + (b - a) * i // 23 for i in range(24)],
        [seconds(y) for y in sorted({year_of(a) + 1, year_of(b) - 1, year_of(b), year_of(b) + 1})],
    ]


def year_of(t):
    return to_datetime(t).year


def make(chosen, times):
    rows = []
    omit = all(POOL[i][2] == OMIT for i in chosen)
    for i in chosen:
        variable, unit, kind, _ = POOL[i]
        m = dict(model="m", scenario="s", variable=variable, region="World", unit=unit, tag=i)
        if not omit:
            m["parameter_type"] = None if kind == OMIT else kind
        rows.append((m, values(i, len(times))))
    return RF.make(rows, times)


def expected(rf, chosen, target, extrapolation):
    rows = []
    for i, (m, c) in zip(chosen, rf.rows):
        kind = POOL[i][3]
        src, dst = rf.times, target
        if kind == "average":
            src, dst = with_closing_point(src), with_closing_point(dst)
        try:
            v = ref_time.convert([c[t] for t in rf.times], src, dst, kind, extrapolation)
        except ref_time.Insufficient:
            raise Refused("InsufficientDataError")
        rows.append((dict(m, parameter_type=kind), v))
    return RF.make(rows, target)


def cases(tier):
    thorough = tier == "thorough"
    n = range(len(POOL))
    for i in n:
        yield ("frame", (i,))
    for c in itertools.permutations(n, 2):
        yield ("frame", c)
    for c in itertools.permutations(n, 3):
        if thorough or list(c) in (sorted(c), sorted(c, reverse=True)):
            yield ("frame", c)
    if thorough:
        for c in itertools.combinations(n, 4):
            yield ("frame", c)
    for i in n:
        yield ("resample", (i, (i + 1) % len(POOL)))
    for v in NAMES:
        yield ("guess", v)
    for i in n:
        yield ("gap", i)
    for order in range(6):
        for region in (("World", "World"), ("World", "World|A|B|C"), ("", "x")):
            yield ("mixed", order, region)
    for size in (40, 130, 300):
        yield ("large", size)
    yield ("refused",)


def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)


def spelled(target, how):
    if how == 0:
        return to64(target)
    if how == 1:
        return [to_datetime(t) for t in target]
    if how == 2:
        return np.array([to_datetime(t) for t in target])
    if how == 3:
        return to64(target).astype("datetime64[us]")
    # as numbers of years where possible, as text otherwise
    res = [to_datetime(t) for t in target]
    for k, d in enumerate(res):
        if d == d.replace(month=1, day=1, hour=0, minute=0, second=0) and not (how == 6 and k % 2):
            res[k] = d.year if how != 5 else float(d.year)
        elif how != 6:
            res[k] = d.isoformat() if k % 2 or how == 5 else d
    if how == 6:
        return res
    out = np.empty(len(res), dtype=object)
    out[:] = res
    return list(res) if all(isinstance(d, int) for d in res) else out


def run_frame(case, ctx):
    chosen = case[1]
    for gi, grid in enumerate(GRIDS):
        times = GRIDS[grid]
        rf = make(chosen, times)
        df = build(rf)
        snap = snapshot(df)
        guessed = any(POOL[i][2] == OMIT or POOL[i][2] is None or POOL[i][2] != POOL[i][2] for i in chosen)
        for ti, target in enumerate(targets(times)):
            if to_year(target[0]) < 1 or to_year(2 * target[-1] - target[-2]) > 9999:
                continue
            for ei, extrapolation in enumerate(EXTRAPOLATION):
                what = "{} from {} to {} with {}: ".format([POOL[i] for i in chosen], grid, [str(to_datetime(t)) for t in target], extrapolation)
                for how in range(7) if ctx.thorough or len(chosen) == 1 else ((gi + 2 * ti + ei + sum(chosen)) % 7,):
                    given = spelled(target, how)
                    kwargs = {} if extrapolation == "constant" and how == 0 else {
                        "extrapolation_type": extrapolation if how % 2 else ExtrapolationType.from_extrapolation_type(extrapolation)
                    }
                    try:
                        exp = expected(rf, chosen, target, extrapolation)
                    except Refused:
                        res = attempt(df.interpolate, given, **kwargs)
                        if res != ("err", "InsufficientDataError"):
                            raise Violation("{}{} instead of InsufficientDataError".format(what, res))
                        ctx.outcome("insufficient")
                    else:
                        res, messages = quietly(df.interpolate, given, **kwargs)
                        compare(res, exp, what=what, full=False)
                        if any("parameter_type" in m for m in messages) != guessed:
                            raise Violation("{}warnings {}, {} guessed".format(what, messages, "types" if guessed else "nothing"))
                        ctx.outcome((len(chosen), extrapolation))
                    ctx.step()
                    ctx.trace()
                    ctx.state(chosen, grid, tuple(target), extrapolation, how)
        if snapshot(df) != snap:
            raise Violation("{} on {}: frame changed".format(chosen, grid))


def to_year(t):
    return 1970 + t // (366 * 86400)


RULES = ("AS", "A", "AS-JUL", "QS", "Q-FEB", "MS", "M", "SMS", "W-WED", "10D", "2AS", "7M")
SPANS = (
    [seconds(2000), seconds(2001), seconds(2003)],
    [seconds(1999, 5, 6, 7, 8, 9), seconds(2000, 2, 29), seconds(2001, 7, 1, 1)],
    [seconds(100, 4, 30, 23), seconds(101, 5, 30), seconds(103)],
    [seconds(8000, 1, 31), seconds(8000, 7, 1), seconds(8001, 12, 31, 12)],
)


def run_resample(case, ctx):
    chosen = case[1]
    for s, times in enumerate(SPANS):
        rf = make(chosen, times)
        df = build(rf)
        for rule in RULES:
            target = [secs(d) for d in reference_range(rule, to_datetime(times[0]), to_datetime(times[-1]))]
            for extrapolation in ("constant", "linear"):
                kwargs = {} if extrapolation == "constant" else dict(extrapolation_type=extrapolation)
                if rule == "AS" and extrapolation == "constant":
                    res, _ = quietly(df.resample)
                else:
                    res, _ = quietly(df.resample, rule, **kwargs)
                exp = expected(rf, chosen, target, extrapolation)
                compare(res, exp, what="{} resampled by {} over {}: ".format(chosen, rule, [str(to_datetime(t)) for t in times]), full=False)
                ctx.step()
                ctx.trace()
                ctx.state(chosen, s, rule, extrapolation)
        ctx.outcome("resampled")


# name: type guessed from it
NAMES = {
    "Emissions": "average",
    "Emissions|CO2|MAGICC AFOLU": "average",
    "Emissions of CO2": "average",
    "Net Emissions": "point",
    "emissions": "point",
    "CO2_EMIS": "average",
    "KYOTOGHG_GWPEMIS": "average",
    "A|B_EMIS|C": "average",
    "EMIS": "point",
    "GWPEMIS": "point",
    "CO2_emis": "point",
    "Flux": "average",
    "Heat Flux": "average",
    "Net Land to Atmosphere Flux|CO2": "average",
    "flux": "point",
    "CO2_RF": "average",
    "CO2_SRF": "average",
    "CO2_EFFRF": "average",
    "CO2_PEFFRF": "average",
    "CO2_ERF": "point",
    "RF": "point",
    "CO2RF": "point",
    "Radiative Forcing": "average",
    "Radiative Forcing|CH4": "average",
    "Effective Radiative Forcing": "point",
    "HEATUPTAKE_EBALANCE_TOTAL": "average",
    "HEATUPTAKE": "point",
    "Atmospheric Concentrations|CO2": "point",
    "CO2_CONC": "point",
    "Surface Temperature": "point",
    "SURFACE_TEMP": "point",
    "TEMP": "point",
    "Ocean Heat Content": "point",
    "": "point",
    "X": "point",
    "a.b*c": "point",
}
# unit: type, or None if not known
UNITS = {
    "GtC/yr": "average",
    "GtC / yr": "average",
    "GtC/a": "average",
    "MtCO2 yr^-1": "average",
    "Mt CH4/yr": "average",
    "kt C3F8/yr": "average",
    "W/m^2": "average",
    "mW m^-2": "average",
    "J": "average",
    "ZJ": "average",
    "EJ/yr": "average",
    "ppm/yr": "average",
    "K/day": "average",
    "1/s": "average",
    "s": "average",
    "yr": "average",
    "m s^-2": "average",
    "N": "point",  # nitrogen
    "K": "point",
    "mK": "point",
    "degC": "point",
    "delta_degC": "point",
    "GtC": "point",
    "MtCO2": "point",
    "ppm": "point",
    "ppb": "point",
    "ppt": "point",
    "m": "point",
    "m^2": "point",
    "kg": "point",
    "kg/m^3": "point",
    "dimensionless": "point",
    "yr/s": "point",
    "W yr/J": "point",
    "": None,
    "unheard of": None,
    "USD2010": None,
    "fraction of x": None,
}


def run_guess(case, ctx):
    name = case[1]
    for unit, kind in list(UNITS.items()) + [(None, None)]:
        exp = kind or NAMES[name]
        got = guess_parameter_type(name, unit)
        ctx.step()
        ctx.state(name, unit)
        if got != ParameterType.from_timeseries_type(exp):
            raise Violation("type of {!r} in {!r} is {}, expected {}".format(name, unit, got, exp))
        ctx.trace()
        ctx.outcome((kind, NAMES[name]))


def type_of(variable, unit, kind):
    if kind == kind and kind not in (None, OMIT):
        return kind.lower()
    return UNITS[unit] or NAMES[variable]


def convert_all(rf, kinds, target, extrapolation="constant"):
    """Reference conversion of a frame given the types of its series."""
    rows = []
    for kind, (m, c) in zip(kinds, rf.rows):
        src, dst = rf.times, target
        if kind == "average":
            src, dst = with_closing_point(src), with_closing_point(dst)
        v = ref_time.convert([c[t] for t in rf.times], src, dst, kind, extrapolation)
        rows.append((dict(m, parameter_type=kind), v))
    return RF.make(rows, target)


def run_mixed(case, ctx):
    """Frames whose series share some of variable, unit, region and given type."""
    _, order, regions = case
    everything = list(
        itertools.product(
            ("Emissions|CO2|MAGICC AFOLU", "CO2_RF", "X"),
            ("GtC/yr", "K", "unheard of", "GtC"),
            (None, "point", "average"),
            regions if regions[0] != regions[1] else regions[:1],
        )
    )
    if order == 1:
        everything.reverse()
    elif order > 1:
        everything = [e for k in range(order) for e in everything[k::order]]
    times = GRIDS["odd"]
    for omit in (False, True):
        rows, kinds = [], []
        for k, (variable, unit, kind, region) in enumerate(everything):
            m = dict(model="m", scenario="s%d" % k, variable=variable, region=region, unit=unit)
            if not omit:
                m["parameter_type"] = kind
            elif kind is not None:
                continue
            rows.append((m, values(k, len(times))))
            kinds.append(type_of(variable, unit, OMIT if omit else kind))
        rf = RF.make(rows, times)
        df = build(rf)
        for target in targets(times)[:5]:
            exp = convert_all(rf, kinds, target)
            res, _ = quietly(df.interpolate, to64(target))
            compare(res, exp, what="{} to {}: ".format(case, [str(to_datetime(t)) for t in target]), full=False)
            ctx.step()
            ctx.trace()
            ctx.state(case, omit, tuple(target))
    ctx.outcome("mixed")


def run_large(case, ctx):
    n = case[1]
    for nseries, ntimes, ntarget in ((n, 3, 5), (2, n, 7), (3, 5, n), (2, n, n)):
        times = [seconds(1750 + j) for j in range(ntimes)]
        a, b = times[0], times[-1]
        target = [a + (b - a) * j // (ntarget - 1) for j in range(ntarget)]
        rows, kinds = [], []
        for k in range(nseries):
            kind = ("average", "point")[k * 7 % 5 % 2]
            m = dict(model="m", scenario="s%d" % k, variable="X", region="World", unit="K", parameter_type=kind)
            rows.append((m, values(k, ntimes)))
            kinds.append(kind)
        rf = RF.make(rows, times)
        res, _ = quietly(build(rf).interpolate, to64(target))
        compare(res, convert_all(rf, kinds, target), what="{} series, {} to {} times: ".format(nseries, ntimes, ntarget), full=False)
        ctx.step()
        ctx.trace()
        ctx.state(case, nseries, ntimes, ntarget)
    ctx.outcome("large")


def run_gap(case, ctx):
    """A series with missing values does not influence any other one."""
    i = case[1]
    times = GRIDS["odd"]
    for j, hole in itertools.product(range(len(POOL)), range(len(times))):
        if i == j:
            continue
        for order in ((i, j), (j, i)):
            rf = make(order, times)
            df_rf = rf.copy()
            k = order.index(i)
            del df_rf.rows[k][1][times[hole]]
            df = build(df_rf)
            for target in targets(times)[:4]:
                exp = expected(rf, order, target, "constant")
                got, tp, _ = observe(quietly(df.interpolate, to64(target))[0], full=False)
                if tp != target:
                    raise Violation("{} times {}".format(order, tp))
                one = RF([exp.rows[1 - k]], target, exp.cols)
                key = one.keys()[0]
                vals = exp.rows[1 - k][1]
                if key not in got or set(got[key]) != set(vals) or any(abs(got[key][t] - v) > 1e-8 for t, v in vals.items()):
                    raise Violation("{} with {} missing in {}: {}, expected {}".format(order, hole, i, got.get(key), vals))
                ctx.step()
                ctx.trace()
                ctx.state(order, hole, i, tuple(target))
    ctx.outcome("gap")


def run_refused(case, ctx):
    times = GRIDS["odd"]
    for bad in ("junk", "averages", ""):
        for other in ("point", "average", None):
            for first in (False, True):
                kinds = (bad, other) if first else (other, bad)
                rows = [
                    (dict(model="m", scenario="s", variable="V%d" % n, region="World", unit="K", parameter_type=k), values(n, len(times)))
                    for n, k in enumerate(kinds)
                ]
                df = build(RF.make(rows, times))
                snap = snapshot(df)
                res = attempt(df.interpolate, to64(times))
                ctx.step()
                ctx.state(kinds)
                if res != ("err", "ValueError"):
                    raise Violation("type {!r}: {}".format(bad, res))
                if snapshot(df) != snap:
                    raise Violation("type {!r}: frame changed".format(bad))
                ctx.trace()
    df = build(make((0, 3), times))
    for kwargs in (dict(extrapolation_type="junk"), dict(interpolation_type="junk")):
        snap = snapshot(df)
        res = attempt(df.interpolate, to64(times), **kwargs)
        if res[0] != "err" or snapshot(df) != snap:
            raise Violation("{}: {}".format(kwargs, res))
        ctx.step()
