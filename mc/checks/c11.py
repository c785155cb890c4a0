"""C11: unit conversion is consistent for all units."""

import itertools

import numpy as np

from ..engine import Violation
from ..util import close

PROP = "C11"
ASSUMPTIONS = [
    "species, their conversion factors and aliases are transcribed from the documentation of the supported units",
    "a year is 365.25 days and a month a twelfth of it (Pint's definition)",
]
BOUNDS = {
    "quick": "all ordered pairs of all 200+ gas names, aliases and upper-case forms; each name in 15 mass/time/joint forms against its base species both ways; all ordered pairs of 300+ forms of CO2, N and SO2 emissions; all ordered pairs over 55 non-gas units (temperature, concentration, forcing, time, mass, length, energy); 13 values, scalars and arrays, both directions; unknown units in either position",
    "thorough": "all forms of all gases: all ordered pairs within a species; all ordered triples of CO2 forms",
}

# species -> {symbol: factor to the species' base unit}
FAMILIES = {
    "carbon": {"C": 1.0, "carbon": 1.0, "CO2": 12 / 44, "carbon_dioxide": 12 / 44},
    "methane": {"CH4": 1.0, "methane": 1.0},
    "nitrogen": {
        "N": 1.0,
        "nitrogen": 1.0,
        "N2O": 14 / 44,
        "nitrous_oxide": 14 / 44,
        "N2ON": 14 / 28,
        "nitrous_oxide_farming_style": 14 / 28,
        "NH3": 14 / 17,
        "ammonia": 14 / 17,
    },
    "NOx": {"NOx": 1.0, "NOX": 1.0, "nox": 1.0},
    "sulfur": {
        "S": 1.0,
        "sulfur": 1.0,
        "SO2": 0.5,
        "sulfur_dioxide": 0.5,
        "SOx": 0.5,
        "SOX": 0.5,
    },
    "BC": {"BC": 1.0, "black_carbon": 1.0},
    "OC": {"OC": 1.0},
    "CO": {"CO": 1.0, "carbon_monoxide": 1.0},
    "VOC": {
        "VOC": 1.0,
        "NMVOC": 1.0,
        "non_methane_volatile_organic_compounds": 1.0,
    },
    "HFC4310mee": {"HFC4310mee": 1.0, "HFC4310MEE": 1.0, "HFC4310": 1.0},
}
SINGLE = """CFC11 CFC12 CFC13 CFC113 CFC114 CFC115 HCFC21 HCFC22 HCFC123 HCFC124 HCFC141b
HCFC142b HCFC225ca HCFC225cb HFC23 HFC32 HFC41 HFC125 HFC134 HFC134a HFC143 HFC143a
HFC152 HFC152a HFC161 HFC227ea HFC236cb HFC236ea HFC236fa HFC245ca HFC245fa HFC365mfc
Halon1201 Halon1202 Halon1211 Halon1301 Halon2402 CF4 C2F6 cC3F6 C3F8 cC4F8 C4F10 C5F12
C6F14 C7F16 C8F18 C10F18 HFE125 HFE134 HFE143a HCFE235da2 HFE245cb2 HFE245fa2
HFE347mcc3 HFE347pcf2 HFE356pcc3 HFE449sl HFE569sf2 HFE4310pccc124 HFE236ca12
HFE338pcc13 HFE227ea HFE236ea2 HFE236fa HFE245fa1 HFE263fb2 HFE329mcc2 HFE338mcf2
HFE347mcf2 HFE356mec3 HFE356pcf2 HFE356pcf3 HFE365mcf3 HFE374pc2 PFPMIE CCl4 CHCl3
CH2Cl2 CH3CCl3 CH3Cl CH3Br SF5CF3 SF6 NF3""".split()
for _g in SINGLE:
    FAMILIES[_g] = {_g: 1.0}
    FAMILIES[_g].setdefault(_g.upper(), 1.0)
# "cC3F6" and "C3F8" style names are distinct from each other also in upper case

GASES = {}  # symbol -> (species, factor)
for _sp, _members in FAMILIES.items():
    for _sym, _f in _members.items():
        GASES[_sym] = (_sp, _f)
JOINT = [s for s in GASES if "_" not in s and s not in ("carbon", "methane", "nitrogen", "sulfur", "ammonia")]

YEAR = 365.25 * 86400
MASS = {"g": 1e-3, "kg": 1.0, "t": 1e3, "kt": 1e6, "Mt": 1e9, "Gt": 1e12, "Tg": 1e9, "Pg": 1e12}
TIME = {"yr": YEAR, "a": YEAR, "year": YEAR, "annum": YEAR, "d": 86400.0, "day": 86400.0, "h": 3600.0, "s": 1.0, "month": YEAR / 12}

OTHER = {
    # name: (dimension, scale, offset)
    "K": ("temperature", 1.0, 0.0),
    "kelvin": ("temperature", 1.0, 0.0),
    "degC": ("temperature", 1.0, 273.15),
    "degreeC": ("temperature", 1.0, 273.15),
    "degF": ("temperature", 5 / 9, 459.67 * 5 / 9),
    "degreeF": ("temperature", 5 / 9, 459.67 * 5 / 9),
    "mK": ("temperature", 1e-3, 0.0),
    "kK": ("temperature", 1e3, 0.0),
    "GK": ("temperature", 1e9, 0.0),
    "ppt": ("concentration", 1.0, 0.0),
    "ppb": ("concentration", 1e3, 0.0),
    "ppm": ("concentration", 1e6, 0.0),
    "W/m^2": ("forcing", 1.0, 0.0),
    "W / m ** 2": ("forcing", 1.0, 0.0),
    "mW/m^2": ("forcing", 1e-3, 0.0),
    "W/cm^2": ("forcing", 1e4, 0.0),
    "J/s/m^2": ("forcing", 1.0, 0.0),
    "kJ/m^2/d": ("forcing", 1e3 / 86400, 0.0),
    "W": ("power", 1.0, 0.0),
    "TW": ("power", 1e12, 0.0),
    "J/yr": ("power", 1 / YEAR, 0.0),
    "ZJ/a": ("power", 1e21 / YEAR, 0.0),
    "J": ("energy", 1.0, 0.0),
    "EJ": ("energy", 1e18, 0.0),
    "kW*h": ("energy", 3.6e6, 0.0),
    "W*s": ("energy", 1.0, 0.0),
    "m": ("length", 1.0, 0.0),
    "mm": ("length", 1e-3, 0.0),
    "km": ("length", 1e3, 0.0),
    "ft": ("length", 0.3048, 0.0),
    "m/yr": ("speed", 1 / YEAR, 0.0),
    "mm/d": ("speed", 1e-3 / 86400, 0.0),
    "m^2": ("area", 1.0, 0.0),
    "ha": ("area", 1e4, 0.0),
    "": ("none", 1.0, 0.0),
    "dimensionless": ("none", 1.0, 0.0),
    "m/m": ("none", 1.0, 0.0),
    "km/m": ("none", 1e3, 0.0),
    "1/yr": ("rate", 1 / YEAR, 0.0),
    "1/a": ("rate", 1 / YEAR, 0.0),
    "d^-1": ("rate", 1 / 86400, 0.0),
    "delta_degC": ("temperature", 1.0, 0.0),
    "K/(W/m^2)": ("sensitivity", 1.0, 0.0),
    "mK*m^2/W": ("sensitivity", 1e-3, 0.0),
    "W/m^2/K": ("feedback", 1.0, 0.0),
    "W/m^2/delta_degC": ("feedback", 1.0, 0.0),
}
for _n, _f in MASS.items():
    OTHER[_n] = ("mass", _f, 0.0)
for _n, _f in TIME.items():
    OTHER[_n] = ("time", _f, 0.0)
OTHER["min"] = ("time", 60.0, 0.0)

VALUES = (0, 1, -1, 3, 0.5, -2.75, 1e-9, 1e12, 280.0, 1e-30, True, np.float64(2.5), np.int64(7))

UNKNOWN = (
    "nosuchunit",
    "tXYZ",
    "GtCO3/yr",
    "CO2eqv",
    "HFC9999",
    "kgCH5",
    "W/mm2x",
    "Mt N2OO/yr",
    "yrr",
    "degQ",
)


def forms(symbol, species, factor):
    """(text, dimension, scale) of one gas symbol in all forms."""
    yield (symbol, (species, 0, 0), factor)
    for m, t in (("kg", None), ("t", None), ("Mt", None), ("kt", None)):
        yield ("{} {}".format(m, symbol), (species, 1, 0), MASS[m] * factor)
    for m, t in (("Gt", "yr"), ("Mt", "a"), ("kg", "s"), ("kt", "d"), ("g", "h")):
        yield ("{} {} / {}".format(m, symbol, t), (species, 1, 1), MASS[m] / TIME[t] * factor)
    yield ("{}/yr".format(symbol), (species, 0, 1), factor / YEAR)
    if symbol in JOINT:
        for m, t in (("g", None), ("t", None), ("Mt", None), ("kg", None), ("kt", None), ("Gt", None), ("Tg", None)):
            yield (m + symbol, (species, 1, 0), MASS[m] * factor)
        for m, t in (("Gt", "yr"), ("Mt", "a"), ("kt", "yr"), ("kg", "d"), ("t", "month")):
            yield ("{}{}/{}".format(m, symbol, t), (species, 1, 1), MASS[m] / TIME[t] * factor)


def many_forms(species):
    for symbol, factor in FAMILIES[species].items():
        yield (symbol, (species, 0, 0), factor)
        for m, fm in MASS.items():
            yield (m + " " + symbol, (species, 1, 0), fm * factor)
            if symbol in JOINT:
                yield (m + symbol, (species, 1, 0), fm * factor)
            for t in ("yr", "d", "month"):
                yield ("{} {}/{}".format(m, symbol, t), (species, 1, 1), fm * factor / TIME[t])
            if symbol in JOINT:
                yield ("{}{}/a".format(m, symbol), (species, 1, 1), fm * factor / YEAR)


def cases(tier):
    for g in GASES:
        yield ("gas", g)
        yield ("forms", g)
    for species in FAMILIES if tier == "thorough" else ("carbon", "nitrogen", "sulfur"):
        for i in range(len(list(many_forms(species)))):
            yield ("pairs", species, i)
    for name in OTHER:
        yield ("other", name)
    for name in UNKNOWN:
        yield ("unknown", name)
    if tier == "thorough":
        n = len(list(many_forms("carbon")))
        for i in range(0, n):
            for j in range(0, n):
                yield ("triple", i, j)


def convert(ctx, source, target, d1, d2, s1, s2, o1=0.0, o2=0.0, values=VALUES[1:4], full=False):
    """One converter against the definitions."""
    from openscm.core.units import UnitConverter

    ctx.step()
    ctx.state(source, target)
    try:
        uc = UnitConverter(source, target)
    except Exception as e:  # pylint: disable=broad-except
        if type(e).__name__ == "DimensionalityError" and d1 != d2:
            ctx.outcome("refused")
            return None
        raise Violation("{} -> {}: {!r}".format(source, target, e))
    if d1 != d2:
        raise Violation("{} -> {} not refused".format(source, target))
    if (uc.source, uc.target) != (source, target):
        raise Violation("names of {} -> {}: {}".format(source, target, (uc.source, uc.target)))
    tol = 1e-9 * (abs(o1) + abs(o2)) / s2
    for v in values:
        expected = (float(v) * s1 + o1 - o2) / s2
        back = (float(v) * s2 + o2 - o1) / s1
        got, got_back = uc.convert_from(v), uc.convert_to(v)
        if source == target:
            if float(got) != float(v) or float(got_back) != float(v):
                raise Violation("identity of {}: {!r} gives {!r}".format(source, v, got))
        if not close(got, expected, 1e-10, tol):
            raise Violation("{} {} is {} {}, expected {}".format(v, source, got, target, expected))
        if not close(got_back, back, 1e-10, 1e-9 * (abs(o1) + abs(o2)) / s1):
            raise Violation("{} {} is {} {} (to), expected {}".format(v, target, got_back, source, back))
        if not close(uc.convert_to(got), float(v), 1e-9, 1e-9 * (abs(o1) + abs(o2)) / s1):
            raise Violation("{} -> {} and back: {} to {}".format(source, target, v, uc.convert_to(got)))
    if full:
        for shape in ((3,), (2, 3), (0,)):
            n = int(np.prod(shape))
            arr = np.array([1.5 * i - 1 for i in range(n)]).reshape(shape)
            keep = arr.copy()
            for fun in (uc.convert_from, uc.convert_to):
                out = fun(arr)
                one = [fun(float(x)) for x in keep.ravel()]
                if out.shape != shape or not all(
                    close(a, b, 1e-14, 1e-14) for a, b in zip(out.ravel(), one)
                ):
                    raise Violation("{} -> {}: array {} gives {}".format(source, target, keep, out))
                if (arr != keep).any():
                    raise Violation("{} -> {} changes its input".format(source, target))
        ints = np.array([1, 2, 3])
        if not all(
            close(a, uc.convert_from(b)) for a, b in zip(uc.convert_from(ints), (1, 2, 3))
        ):
            raise Violation("{} -> {} integers".format(source, target))
    ctx.outcome("converted")
    return uc


def run(case, ctx):
    from openscm.core.units import UnitConverter

    if case[0] == "gas":
        g = case[1]
        species, f = GASES[g]
        for h, (species2, f2) in GASES.items():
            convert(ctx, g, h, species, species2, f, f2)
            ctx.trace()
        for h in ("kg", "yr", "K", "ppm", "", "W/m^2"):
            convert(ctx, g, h, species, None, f, 1.0)
            convert(ctx, h, g, None, species, 1.0, f)
    elif case[0] == "forms":
        g = case[1]
        species, f = GASES[g]
        base = next(iter(FAMILIES[species]))
        reference = {
            (species, 0, 0): (base, 1.0),
            (species, 1, 0): ("kg " + base, 1.0),
            (species, 1, 1): ("Mt {}/yr".format(base), 1e9 / YEAR),
            (species, 0, 1): ("{}/s".format(base), 1.0),
        }
        for text, dim, scale in forms(g, species, f):
            for dim2, (text2, scale2) in reference.items():
                convert(ctx, text, text2, dim, dim2, scale, scale2, full=dim == dim2)
                convert(ctx, text2, text, dim2, dim, scale2, scale)
            convert(ctx, text, text, dim, dim, scale, scale, values=VALUES)
            ctx.trace()
    elif case[0] == "pairs":
        all_forms = list(many_forms(case[1]))
        text, dim, scale = all_forms[case[2]]
        for text2, dim2, scale2 in all_forms:
            convert(ctx, text, text2, dim, dim2, scale, scale2, values=(3,))
            ctx.trace()
    elif case[0] == "other":
        d, s, o = OTHER[case[1]]
        for name, (d2, s2, o2) in OTHER.items():
            convert(ctx, case[1], name, d, d2, s, s2, o, o2, values=VALUES, full=True)
            ctx.trace()
    elif case[0] == "unknown":
        for other in ("kg", "GtC/yr", case[1], "K", ""):
            for pair in ((case[1], other), (other, case[1])):
                ctx.step()
                try:
                    UnitConverter(*pair)
                except Exception as e:  # pylint: disable=broad-except
                    if type(e).__name__ != "UndefinedUnitError":
                        raise Violation("{}: {!r}".format(pair, e))
                    ctx.outcome("unknown")
                else:
                    raise Violation("{} accepted".format(pair))
        ctx.trace()
    else:
        all_forms = list(many_forms("carbon"))
        (ta, da, sa), (tb, db, sb) = all_forms[case[1]], all_forms[case[2]]
        if da != db:
            return
        first = convert(ctx, ta, tb, da, db, sa, sb)
        for tc, dc, sc in all_forms[:: 7]:
            if dc == db:
                second = convert(ctx, tb, tc, db, dc, sb, sc)
                got = second.convert_from(first.convert_from(3.5))
                direct = convert(ctx, ta, tc, da, dc, sa, sc).convert_from(3.5)
                if not close(got, direct, 1e-9):
                    raise Violation("{} -> {} -> {}".format(ta, tb, tc))
        ctx.trace()
