"""The DICE climate recurrences, written from the published model (independent of the code)."""

from math import floor, log2

YEAR = 365 * 86400

DEFAULTS = dict(
    mat0=(830.4, "GtC"),
    mateq=(588.0, "GtC"),
    mat_lower=(10.0, "GtC"),
    ml0=(10010.0, "GtC"),
    mleq=(10000.0, "GtC"),
    ml_lower=(1000.0, "GtC"),
    mu0=(1527.0, "GtC"),
    mueq=(1350.0, "GtC"),
    mu_lower=(100.0, "GtC"),
    tatm0=(0.8, "delta_degC"),
    tatm_upper=(40.0, "delta_degC"),
    tocean0=(0.0068, "delta_degC"),
    tocean_lower=(-1.0, "delta_degC"),
    tocean_upper=(20.0, "delta_degC"),
    b12=(0.0181, ""),
    b23=(0.00071, ""),
    c1=(0.0222, "delta_degC*m^2/W"),
    c3=(0.09175, "W/m^2/delta_degC"),
    c4=(0.00487, ""),
    fex0=(0.25, "W/m^2"),
    fex1=(0.7, "W/m^2"),
    fco22x=(3.8, "W/m^2"),
    t2xco2=(2.9, "delta_degC"),
)
STANDARD = {
    "fco22x": "Radiative Forcing Sensitivity",
    "t2xco2": "Equilibrium Climate Sensitivity",
}
SATURATION = 4102444800  # 2100-01-01

OUTPUTS = {
    "mat": (("Pool", "CO2", "Atmosphere"), "GtC", "point"),
    "ml": (("Pool", "CO2", "Ocean", "lower"), "GtC", "point"),
    "mu": (("Pool", "CO2", "Ocean", "shallow"), "GtC", "point"),
    "tatm": (("Surface Temperature", "Increase"), "delta_degC", "point"),
    "tocean": (("Ocean Temperature", "Increase"), "delta_degC", "point"),
    "forc": (("Radiative Forcing", "CO2"), "W/m^2", "average"),
}


def count(start, stop, period):
    return floor((stop - start) / period) + 1


def model(emissions, start, stop, period=YEAR, rounding=True, saturation=SATURATION, steps=None, **changed):
    """
    emissions: function of the step number giving the mean in GtC/a; all times in
    seconds; returns the output series (lists) for ``steps`` time steps (default all)
    """
    p = {k: v for k, (v, _) in DEFAULTS.items()}
    p.update(changed)
    n = count(start, stop, period)
    if steps is None:
        steps = n - 1
    mat, ml, mu = [p["mat0"]], [p["ml0"]], [p["mu0"]]
    tatm, tocean = [p["tatm0"]], [p["tocean0"]]
    forc = [p["fco22x"] * log2(p["mat0"] / p["mateq"]) + p["fex0"]]
    # carbon cycle transition matrix: columns sum to one, equilibrium is a fixed point
    b12, b23 = p["b12"], p["b23"]
    b21 = b12 * p["mateq"] / p["mueq"]
    b32 = b23 * p["mueq"] / p["mleq"]
    lam = p["fco22x"] / p["t2xco2"]
    for t in range(1, steps + 1):
        e = emissions(t - 1) * (44 / 12 / 3.666 if rounding else 1.0)
        a, u, l = mat[-1], mu[-1], ml[-1]
        mat.append(max(p["mat_lower"], a * (1 - b12) + u * b21 + e * period / YEAR))
        mu.append(max(p["mu_lower"], a * b12 + u * (1 - b21 - b23) + l * b32))
        ml.append(max(p["ml_lower"], l * (1 - b32) + u * b23))
        if start + period * t >= saturation:
            other = p["fex1"]
        else:
            other = p["fex0"] + (p["fex1"] - p["fex0"]) * (period * t) / (saturation - start)
        f = p["fco22x"] * log2(mat[-1] / p["mateq"]) + other
        forc.append(f)
        ta, to = tatm[-1], tocean[-1]
        tocean.append(max(p["tocean_lower"], min(p["tocean_upper"], to + p["c4"] * (ta - to))))
        tatm.append(min(p["tatm_upper"], ta + p["c1"] * (f - lam * ta - p["c3"] * (ta - to))))
    return dict(mat=mat, ml=ml, mu=mu, tatm=tatm, tocean=tocean, forc=forc)
