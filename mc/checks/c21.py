"""C21: frames and parameter sets convert into each other faithfully."""

import itertools

import numpy as np

from openscm.core.parameters import ParameterType
from openscm.core.parameterset import ParameterSet
from openscm.scmdataframe import ScmDataFrame, convert_openscm_to_scmdataframe

from .. import ref_time
from ..engine import Violation
from ..frames import REQUIRED, RF, compare, guess_type, snapshot, to_datetime, unit_factor, with_closing_point
from ..util import all_close, attempt, seconds, to64

PROP = "C21"
ASSUMPTIONS = [
    "frames have at least three times, no missing values, and no series that is the parent of another one",
    "parameter sets hold at least one timeseries; generic parameters hold strings or numbers and all of them have been written; the root region is World",
    "the conversion reference of C07/C08 and unit factors of mc/frames.py",
]
BOUNDS = {
    "quick": "all frames of <=3 series out of 11 (nested variables and regions, units, types given or guessed) x 2 grids x 4 sets of further metadata, into a new parameter set, one with other parameters and one with the same ones, each series read back in 2 units and 3 grids and as parent, and converted back onto 3 grids; all parameter sets of <=2 leaf timeseries (5 names x 3 regions x 2 types x 2 grids) in all creation orders x scalars and generics, converted onto 4 grids; 6 to 120 series in wide and deep variable and region trees x 4 to 251 times with 14 further metadata",
    "thorough": "frames of 4 series, parameter sets of 3 timeseries, 400 series",
}

GRIDS = {
    "years": [seconds(2000), seconds(2001), seconds(2003), seconds(2010)],
    "odd": [seconds(1000, 3, 1), seconds(1900, 2, 28, 23, 59, 59), seconds(2500, 1, 1, 12)],
}
# (variable, region, unit, parameter type or None)
POOL = (
    ("Emissions|CO2|AFOLU", "World", "GtC/yr", None),
    ("Emissions|CO2|Fossil", "World", "MtCO2/yr", "average"),
    ("Emissions|CO2|AFOLU", "World|A", "GtC/yr", None),
    ("Emissions|CH4", "World|A|B", "MtCH4/yr", None),
    ("Surface Temperature", "World", "K", None),
    ("Surface Temperature", "World|A", "degC", "point"),
    ("Surface Temperature", "World|C", "K", "average"),
    ("Pool|CO2", "World", "GtC", "point"),
    ("Flux|CO2", "World", "GtC/yr", "point"),
    ("Radiative Forcing", "World|A|B", "W/m^2", None),
    ("Concentration", "World", "ppm", None),
)
OTHER_UNIT = {
    "GtC/yr": "MtCO2/yr",
    "MtCO2/yr": "GtC/yr",
    "MtCH4/yr": "ktCH4/yr",
    "K": "mK",
    "degC": "K",
    "GtC": "GtC",
    "W/m^2": "mW/m^2",
    "ppm": "ppb",
}


def build(rf):
    """Tables with metadata in columns make their names lower case, dictionaries do not."""
    cols = list(REQUIRED) + sorted(rf.cols - set(REQUIRED))
    return ScmDataFrame(
        np.array([[c.get(t, np.nan) for _, c in rf.rows] for t in rf.times]),
        index=to64(rf.times),
        columns={k: [m[k] for m, _ in rf.rows] for k in cols},
    )


METAS = (
    {},
    {"climate_model": "unspecified", "run": 7.0},
    {"ECS (K)": 3.25, "note": "x|y"},
    {"Rate (GtC/yr)": -1.5, "Low (degC)": 4.0, "tag": "t"},
)


def values(i, n):
    return [((i + 2) * (j + 1) ** 2) % 13 + 0.125 * j for j in range(n)]


def kind_of(variable, unit, kind):
    return kind or guess_type(variable, unit)


def parts(name):
    return tuple(name.split("|"))


def compatible(chosen):
    """No series is the parent of another one in the same region."""
    for a, b in itertools.permutations(chosen, 2):
        if a[1] == b[1] and parts(b[0])[: len(parts(a[0]))] == parts(a[0]):
            return False
    return True


def frame(chosen, grid, more):
    times = GRIDS[grid]
    rows = []
    typed = any(c[3] for c in chosen)
    for i in chosen:
        n = POOL.index(i)
        m = dict(model="m", scenario="s", variable=i[0], region=i[1], unit=i[2], **more)
        if typed:
            m["parameter_type"] = kind_of(i[0], i[2], i[3])
        rows.append((m, values(n, len(times))))
    return RF.make(rows, times)


def cases(tier):
    thorough = tier == "thorough"
    for n in range(1, 5 if thorough else 4):
        for chosen in itertools.permutations(range(len(POOL)), n):
            if n > 1 and list(chosen) != sorted(chosen) and list(chosen) != sorted(chosen, reverse=True):
                continue
            yield ("frame", chosen)
    leaves = list(itertools.product(range(len(NAMES)), range(len(REGIONS)), ("point", "average"), tuple(GRIDS)))
    for a in range(len(leaves)):
        for b in range(len(leaves)):
            yield ("set", (leaves[a],) if a == b else (leaves[a], leaves[b]), thorough)
    for n, t in ((9, 13), (40, 31), (120, 4), (6, 251)) + (((400, 12),) if thorough else ()):
        for shape in ("wide", "deep", "regions"):
            for typed in (False, True):
                yield ("large", n, t, shape, typed)
    yield ("meta",)
    yield ("refused",)


def read(ps, variable, region, unit, times, kind):
    tp = with_closing_point(times) if kind == "average" else times
    return ps.timeseries(variable, unit, to64(tp), region=region, timeseries_type=kind).values


def expected_series(vals, times, target, kind, source_unit, unit):
    scale, offset = unit_factor(source_unit, unit)
    src = with_closing_point(times) if kind == "average" else times
    dst = with_closing_point(target) if kind == "average" else target
    return [v * scale + offset for v in ref_time.convert(vals, src, dst, kind, "none")]


def inner_grids(times):
    a, b = times[0], times[-1]
    last = times[-1] - times[-2]
    return [
        list(times),
        [a, a + (b - a) // 3, b - last // 2, b],
        [a + 86400, times[1], times[1] + 86400],
        [times[-2] - last // 4, times[-2], times[-2] + last // 2],
    ]


def check_meta(ps, more, what):
    for k, v in more.items():
        if "(" in k:
            name, unit = k.split(" (")
            got = ps.scalar(name, unit.rstrip(")")).value
            ok = abs(got - v) <= 1e-9 * abs(v) and ps.info(name).parameter_type == ParameterType.SCALAR
        else:
            got = ps.generic(k).value
            ok = got == v
        if not ok:
            raise Violation("{}{} is {!r} instead of {!r}".format(what, k, got, v))


def check_set(ps, chosen, grid, more, what, ctx, deep):
    times = GRIDS[grid]
    for c in chosen:
        variable, region, unit, kind = c
        kind = kind_of(variable, unit, kind)
        vals = values(POOL.index(c), len(times))
        info = ps.info(variable, region)
        if info is None or tuple(info.region) != parts(region) or tuple(info.name) != parts(variable):
            raise Violation("{}no parameter {} in {}: {}".format(what, variable, region, info))
        if info.unit != unit or info.parameter_type != ParameterType.from_timeseries_type(kind):
            raise Violation("{}{} has {} {}".format(what, c, info.unit, info.parameter_type))
        for target in inner_grids(times) if deep else inner_grids(times)[:2]:
            for u in (unit, OTHER_UNIT[unit]):
                got = read(ps, variable, region, u, target, kind)
                exp = expected_series(vals, times, target, kind, unit, u)
                ctx.step()
                if not all_close(got, exp):
                    raise Violation("{}{} in {}: {}, expected {}".format(what, c, u, list(got), exp))
    check_meta(ps, dict(model="m", scenario="s"), what)
    check_meta(ps, {k: v for k, v in more.items() if k != "climate_model"}, what)


def converted(rf, more, target, args):
    """Reference of the conversion back."""
    rows = []
    for m, c in rf.rows:
        kind = m.get("parameter_type") or guess_type(m["variable"], m["unit"])
        vals = expected_series([c[t] for t in rf.times], rf.times, target, kind, m["unit"], m["unit"])
        rows.append((dict(m, parameter_type=kind, climate_model=more.get("climate_model", args.get("climate_model", "unspecified"))), vals))
    return RF.make(rows, target)


def run(case, ctx):
    globals()["run_" + case[0]](case, ctx)


def run_frame(case, ctx):
    chosen = [POOL[i] for i in case[1]]
    if not compatible(chosen):
        ctx.outcome("parent and child")
        return
    for (g, grid), (k, more) in itertools.product(enumerate(GRIDS), enumerate(METAS)):
        if len(chosen) > 2 and (g + k + sum(case[1])) % 4:
            continue  # a quarter of the combinations for three series: still every series with each
        rf = frame(chosen, grid, more)
        df = build(rf)
        snap = snapshot(df)
        what = "{} {} {}: ".format(chosen, grid, more)
        for given in (False, "filled", "same"):
            target_ps = None
            if given == "same":
                # all its parameters have other values
                former = {k2: v if isinstance(v, str) else v + 1 for k2, v in more.items()}
                old = RF.make(
                    [(dict(m, **former), [1 - 2 * c[t] for t in rf.times]) for m, c in rf.rows], rf.times
                )
                target_ps = build(old).to_parameterset()
                for k2, v in former.items():
                    if "(" not in k2:
                        target_ps.generic(k2).value = [v]
            if given == "filled":
                target_ps = ParameterSet()
                target_ps.scalar("Old", "K").value = 5.0
                target_ps.timeseries(
                    "Emissions|N2O", "MtN2O/yr", to64(with_closing_point(GRIDS["odd"])), region="World|A", timeseries_type="average"
                ).values = [1.0, 2.0, 3.0]
            ps = df.to_parameterset(target_ps) if given else df.to_parameterset()
            ctx.step()
            if given and ps is not target_ps:
                raise Violation(what + "not the parameter set passed in")
            if snapshot(df) != snap:
                raise Violation(what + "the frame changed")
            check_set(ps, chosen, grid, more, what, ctx, not given)
            ctx.state(tuple(case[1]), grid, k, given)
            ctx.trace()
            if given == "same":
                continue
            if given:
                if ps.scalar("Old", "K").value != 5.0 or not all_close(
                    read(ps, "Emissions|N2O", "World|A", "MtN2O/yr", GRIDS["odd"], "average"), [1, 2, 3]
                ):
                    raise Violation(what + "former parameters changed")
                continue
            # and back, before and after anything else has been read from it
            for target in inner_grids(GRIDS[grid]):
                for args in ({}, dict(climate_model="cm", model="other", scenario="other")):
                    back = convert_openscm_to_scmdataframe(df.to_parameterset(), to64(target), **args)
                    ctx.step(2)
                    expected = converted(rf, more, target, args)
                    compare(back, expected, what=what + "back on {}: ".format([str(to_datetime(t)) for t in target]), full=False)
                    ctx.trace()
                    ctx.outcome((len(expected.rows), len(expected.cols)))
                if target != inner_grids(GRIDS[grid])[0] and len(chosen) > 1:
                    break
            # the set that has been read in other units and grids
            back = convert_openscm_to_scmdataframe(ps, to64(GRIDS[grid]))
            compare(back, converted(rf, more, GRIDS[grid], {}), what=what + "back after reading: ", full=False)
            # and once more
            if set(more) <= {"climate_model", "run"}:
                again = back.to_parameterset()
                check_set(again, chosen, grid, more, what + "again: ", ctx, False)


NAMES = ("X", "A|X", "A|Y", "A|B|X", "C")
REGIONS = ("World", "World|R", "World|R|S")
EXTRAS = (
    (),
    (("generic", "note", "text"),),
    (("scalar", "ECS", "K", 3.0), ("generic", "scenario", "mine"), ("generic", "G|H", 2.5)),
    (("scalar", "S|T", "mK", 1500.0), ("generic", "model", "M"), ("generic", "climate_model", "CM")),
)


def run_set(case, ctx):
    _, leaves, thorough = case
    full = [(NAMES[n], REGIONS[r], kind, grid) for n, r, kind, grid in leaves]
    for a, b in itertools.permutations(full, 2):
        if a[1] == b[1] and parts(b[0])[: len(parts(a[0]))] == parts(a[0]):
            ctx.outcome("parent and child")
            return
    all_extras = EXTRAS if len(leaves) == 1 else (EXTRAS[sum(x[0] + 2 * x[1] for x in leaves) % 4],)
    for extras in all_extras:
        ps = ParameterSet()
        what = "{} {}: ".format(full, extras)
        rows = []
        more = {}

        def extra():
            for e in extras:
                if e[0] == "scalar":
                    ps.scalar(e[1], e[2]).value = e[3]
                    more["{} ({})".format(e[1], e[2])] = e[3]
                else:
                    ps.generic(e[1]).value = e[2]
                    more[e[1]] = e[2]

        if len(leaves) % 2:
            extra()
        for i, (name, region, kind, grid) in enumerate(full):
            times = GRIDS[grid]
            unit = ("GtC", "GtC/yr")[i % 2]
            vals = values(i, len(times))
            tp = with_closing_point(times) if kind == "average" else times
            view = ps.timeseries(name, unit, to64(tp), region=region, timeseries_type=kind)
            view.values = vals
            rows.append((name, region, kind, times, unit, vals))
        if not len(leaves) % 2:
            extra()
        lo = max(r[3][0] for r in rows)
        hi = min(r[3][-1] for r in rows)
        targets = [[lo, lo + (hi - lo) // 3, lo + (hi - lo) // 2], [lo, hi], [lo + 1, lo + 86400 * 30, lo + 86400 * 31]]
        if len({tuple(r[3]) for r in rows}) == 1:
            targets.append(rows[0][3])
        for target in targets:
            last = target[-1] + (target[-1] - target[-2])
            if any(k == "average" and last > with_closing_point(t)[-1] for _, _, k, t, _, _ in rows):
                res = attempt(convert_openscm_to_scmdataframe, ps, to64(target))
                if res != ("err", "InsufficientDataError"):
                    raise Violation(what + "beyond the data on {}: {}".format(target, res))
                ctx.outcome("beyond")
                continue
            df = convert_openscm_to_scmdataframe(ps, to64(target), model="m", scenario="s", climate_model="c")
            ctx.step()
            exp = []
            for name, region, kind, times, unit, vals in rows:
                m = dict(model="m", scenario="s", climate_model="c", variable=name, region=region, unit=unit, parameter_type=kind)
                m.update(more)
                exp.append((m, expected_series(vals, times, target, kind, unit, unit)))
            expected = RF.make(exp, target)
            compare(df, expected, what=what, full=False)
            ctx.state(leaves, extras, tuple(target))
            ctx.outcome((len(exp), len(expected.cols)))
            ctx.trace()
        # beyond the range of the data
        for bad in ([lo - 86400, lo, hi], [lo, hi, hi + 86400 * 366 * 1000]):
            res = attempt(convert_openscm_to_scmdataframe, ps, to64(bad))
            ctx.step()
            if res != ("err", "InsufficientDataError"):
                raise Violation(what + "beyond the data: {}".format(res))


def run_large(case, ctx):
    """Many series, many times, many metadata columns, with values close to each other."""
    _, n, t, shape, typed = case
    times = [seconds(1850 + (i * 7) // 4, 1 + i * 7 % 4 * 3, 1 + i % 3) for i in range(t)]
    more = {"run": 12.0, "note": "x|y", "ECS (K)": 3.25}
    more.update({"m{:02}".format(i): (float(i), "v{}".format(i))[i % 2] for i in range(11)})
    units = (("GtC/yr", "average"), ("K", "point"), ("W/m^2", "point"), ("GtC", "point"))
    rows = []
    for i in range(n):
        unit, kind = units[i % 4]
        name = ("Emissions|CO2" if kind == "average" else "Level{}".format(i % 4)) + {
            "wide": "|S{}".format(i),
            "deep": "|" + "|".join("L{}".format((i >> k) & 1) for k in range(9)),
            "regions": "",
        }[shape]
        region = "World" + {
            "wide": "",
            "deep": "|A|B" if i % 3 else "",
            "regions": "|" + "|".join("R{}".format((i // 4 >> k) & 1) for k in range(8)),
        }[shape]
        m = dict(model="m", scenario="s", variable=name, region=region, unit=unit, **more)
        if typed:
            m["parameter_type"] = kind
        else:
            kind = guess_type(name, unit)
        rows.append((m, kind, [((i + 2) * (j + 1) ** 2) % 131 + 1e-7 * i for j in range(t)]))
    rf = RF.make([(m, v) for m, _, v in rows], times)
    df = build(rf)
    ps = df.to_parameterset()
    ctx.state(case)
    ctx.step(n)
    for given in inner_grids(times)[:2]:
        for m, kind, vals in rows:
            u = OTHER_UNIT[m["unit"]]
            got = read(ps, m["variable"], m["region"], u, given, kind)
            exp = expected_series(vals, times, given, kind, m["unit"], u)
            if not all_close(got, exp):
                raise Violation("{} {} in {}: {}, expected {}".format(m["variable"], m["region"], u, list(got), exp))
            ctx.step()
    check_meta(ps, more, "{}: ".format(case))
    # the average of all parts as parent: sums for the deep tree
    if shape != "regions":
        for region in ("World", "World|A|B"):
            parts_ = [(m, v) for m, _, v in rows if m["region"] == region and m["variable"].startswith("Emissions")]
            if parts_:
                got = read(ps, "Emissions|CO2", region, "GtC/yr", times, "average")
                exp = [sum(c) for c in zip(*(v for _, v in parts_))]
                if not all_close(got, exp):
                    raise Violation("{}: total in {} {}, expected {}".format(case, region, list(got), exp))
    for target in (times, [times[0], times[t // 3], times[t // 2]], [times[0] + 86400 * i for i in range(60)]):
        back = convert_openscm_to_scmdataframe(ps, to64(target))
        exp = []
        for m, kind, vals in rows:
            v = expected_series(vals, times, target, kind, m["unit"], m["unit"])
            exp.append((dict(m, parameter_type=kind, climate_model="unspecified"), v))
        compare(back, RF.make(exp, target), what="{} back: ".format(case), full=False)
        ctx.step()
    ctx.trace()
    ctx.outcome(case[1:4])


def run_meta(case, ctx):
    """Every text and number as further metadata."""
    names = ("tag", "run id", "a.b", "ECS (K)", "x (GtC/yr)", "T (degC)", "Forcing ( W/m^2 )")
    vals = ("text", "", "a|b", 0.0, -1.5, 1e30, 3)
    for name, v in itertools.product(names, vals):
        if "(" in name and isinstance(v, str):
            continue
        rf = RF.make([(dict(model="m", scenario="s", variable="V", region="World", unit="K", **{name: v}), [1, 2, 3])], GRIDS["odd"])
        df = build(rf)
        ps = df.to_parameterset()
        ctx.step()
        ctx.state(name, v)
        if "(" in name:
            n, u = name.split("(")[0].strip(), name.split("(")[1].split(")")[0].strip()
            got = ps.scalar(n, u).value
            if abs(got - v) > 1e-9 * abs(v):
                raise Violation("{} is {} instead of {}".format(name, got, v))
            if ps.info(n).unit != u:
                raise Violation("{} has unit {}".format(name, ps.info(n).unit))
        elif ps.generic(name).value != v:
            raise Violation("{} is {!r} instead of {!r}".format(name, ps.generic(name).value, v))
        ctx.trace()


def run_refused(case, ctx):
    times = GRIDS["years"]

    def row(**kwargs):
        m = dict(model="m", scenario="s", variable="V", region="World", unit="K")
        m.update(kwargs)
        return (m, values(0, 4))

    bad = [
        [row(), row(scenario="t", variable="W")],
        [row(), row(model="t")],
        [row(tag="x"), row(tag="y", variable="W")],
        [row(tag="x"), row(tag=None, variable="W")],
        [row(climate_model="MAGICC")],
        [row(climate_model="MAGICC"), row(climate_model="MAGICC", variable="W")],
        [row(climate_model="unspecified"), row(climate_model="MAGICC", variable="W")],
    ]
    for rows in bad:
        df = build(RF.make(rows, times))
        for ps in (None, ParameterSet()):
            res = attempt(df.to_parameterset, ps)
            ctx.step()
            ctx.state(repr(rows), ps is None)
            if res != ("err", "ValueError"):
                raise Violation("{}: {}".format(rows, res))
            if ps is not None and (ps.info("V") is not None or ps.info("model") is not None):
                raise Violation("{}: refused but parameters created".format(rows))
            ctx.trace()
    # only parameters of the root region become metadata
    for kind in ("scalar", "generic"):
        ps = ParameterSet()
        ps.timeseries("V", "K", to64(times), timeseries_type="point").values = [1, 2, 3, 4]
        if kind == "scalar":
            ps.scalar("S", "K", region="World|A").value = 1
        else:
            ps.generic("S", region="World|A").value = 1
        res = attempt(convert_openscm_to_scmdataframe, ps, to64(times))
        ctx.step()
        if res != ("err", "ValueError"):
            raise Violation("{} in a subregion: {}".format(kind, res))
        ctx.trace()
