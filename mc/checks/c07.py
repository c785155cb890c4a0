"""C07: point timeseries conversion is exact linear interpolation."""

import itertools

import numpy as np

from .. import ref_time
from ..engine import Violation
from ..util import all_close, seconds, to64

PROP = "C07"
ASSUMPTIONS = [
    "grids are strictly ascending; a target grid does not end before the source begins (the converter refuses this regardless of extrapolation)",
    "numbers agree to 1e-13 of the largest value involved",
]
BOUNDS = {
    "quick": "all source grids of 3-4 points and all target grids of 2-5 points on a lattice of 7 instants (irregular: leap day, year ends, seconds; dates before 1970, beyond 2262) at two origins x unit vectors and 3 value patterns x 3 extrapolation types x both directions x 3 time representations; series of 3 to 2049 points (5 spacings) to ~20 target grids each (same, shifted by seconds to hours, split, merged, beyond one or both ends; up to 4097 points) x 4 value patterns (thirds, large, tiny, spike)",
    "thorough": "source grids of 3-6 points and target grids of 2-7 points on a lattice of 8 instants",
}

LATTICES = (
    (
        seconds(2015, 1, 1),
        seconds(2015, 12, 31, 23, 59, 59),
        seconds(2016, 1, 1),
        seconds(2016, 2, 29, 12),
        seconds(2016, 3, 1),
        seconds(2017, 7, 2, 3, 4, 5),
        seconds(2020, 1, 1),
        seconds(2020, 1, 2),
    ),
    (
        seconds(1, 1, 1),
        seconds(850, 6, 1),
        seconds(1969, 12, 31),
        seconds(1970, 1, 1),
        seconds(2262, 4, 12),
        seconds(2500, 1, 1),
        seconds(9999, 12, 31),
        seconds(9999, 12, 31, 1),
    ),
)


def grids(lattice, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.combinations(range(lattice), n)


def cases(tier):
    thorough = tier == "thorough"
    m = 8 if thorough else 7
    for which in range(len(LATTICES)):
        for source in grids(m, 3, 6 if thorough else 4):
            for extrapolation in ("none", "constant", "linear"):
                yield (which, source, extrapolation, m, 7 if thorough else 5)
    for name in STEPS:
        for n in SIZES if thorough else SIZES[:-1]:
            for extrapolation in ("none", "constant", "linear"):
                yield ("long", name, n, extrapolation)


# long series: time steps (used in turn)
STEPS = {
    "second": (1,),
    "daily": (86400,),
    "monthly": tuple(86400 * d for d in (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)),
    "yearly": tuple(86400 * d for d in (365, 365, 366, 365)),
    "mixed": (1, 86400 * 3650, 3600, 86400),
}
SIZES = (3, 4, 9, 32, 50, 64, 101, 128, 200, 257, 513, 1001, 2049, 10001)
SHIFTS = (1, 59, 3600, 12 * 3600)


def long_grid(name, n):
    grid = [seconds(2001, 1, 1)]
    while len(grid) < n:
        grid.append(grid[-1] + STEPS[name][len(grid) % len(STEPS[name])])
    return tuple(grid)


def long_targets(grid):
    """name -> target grid"""
    n = len(grid)
    span = grid[-1] - grid[0]
    t = {
        "same": grid,
        "ends": (grid[0], grid[-1]),
        "every third": grid[::3] + (() if (n - 1) % 3 == 0 else grid[-1:]),
        "middles": tuple(sorted({grid[0], grid[-1], *((a + b) // 2 for a, b in zip(grid, grid[1:]))})),
        "doubled": tuple(sorted({*grid, *((a + b) // 2 for a, b in zip(grid, grid[1:]))})),
        "wide": (grid[0] - span,) + grid[::2] + (grid[-1] + 1, grid[-1] + span),
        "before": (grid[0] - 2,) + grid[: n // 2 + 1],
        "after": grid[n // 2 :] + (grid[-1] + 1,),
        "fine": tuple(sorted({grid[0] + (span * i) // 150 for i in range(151)})),
        "fine wide": tuple(sorted({grid[0] - span // 3 + (span * i) // 60 for i in range(111)})),
    }
    step = min(b - a for a, b in zip(grid, grid[1:]))
    for s in SHIFTS:
        if s < step or s == 1:
            t["later {}".format(s)] = tuple(x + s for x in grid)
            t["earlier {}".format(s)] = tuple(x - s for x in grid)
            if s < step:
                t["inner {}".format(s)] = grid[:1] + tuple(x + s for x in grid[1:-1]) + grid[-1:]
                t["last {}".format(s)] = grid[:-1] + (grid[-1] + s,)
                t["first {}".format(s)] = (grid[0] - s,) + grid[1:]
    return t


def long_values(n):
    spike = [0.1 * ((i * 7) % 3) for i in range(n)]
    spike[n // 2] = 12345.678
    return (
        [i + 1 / 3 for i in range(n)],
        [1e9 + ((i * 37) % 11) * 1e-3 for i in range(n)],
        [((i * 5) % 7 - 3) * 1e-13 for i in range(n)],
        spike,
    )


def run_long(case, ctx):
    _, name, n, extrapolation = case
    source = long_grid(name, n)
    for what, target in long_targets(source).items():
        if len(target) < 2:
            continue
        covered = target[0] >= source[0] and target[-1] <= source[-1]
        if source[0] <= target[1]:
            conv = converter(to64(source), to64(target), "point", extrapolation)
            for values in long_values(n):
                check(ctx, conv.convert_from, values, source, target, extrapolation, covered)
        if target[0] <= source[1]:
            conv = converter(to64(target), to64(source), "point", extrapolation)
            for values in long_values(n)[-1:]:
                check(ctx, conv.convert_to, values, source, target, extrapolation, covered)
        ctx.state("long", name, n, what, extrapolation)
        ctx.trace()


PATTERNS = ("unit", "ramp", "zigzag", "const")


def vectors(n):
    for i in range(n):
        yield tuple(1.0 if j == i else 0.0 for j in range(n))
    yield tuple(3.0 - 2.5 * j for j in range(n))
    yield tuple((-1) ** j * (10.0 + j * j) for j in range(n))
    yield (7.25,) * n
    # almost constant, large and tiny
    yield tuple(1e9 + ((i * 5) % 3) * 1e-2 for i in range(n))
    yield tuple(((i * 5) % 3 - 1) * 1e-12 for i in range(n))
    # integers, as given by users
    yield tuple(range(1, 2 * n, 2))


def converter(source, target, kind, extrapolation):
    from openscm.core.parameters import ParameterType
    from openscm.core.time import (
        ExtrapolationType,
        InterpolationType,
        TimeseriesConverter,
    )

    return TimeseriesConverter(
        source,
        target,
        ParameterType.POINT_TIMESERIES
        if kind == "point"
        else ParameterType.AVERAGE_TIMESERIES,
        InterpolationType.LINEAR,
        ExtrapolationType[extrapolation.upper()],
    )


def represent(grid, how):
    g = to64(grid)
    if how == 1:
        return g.astype("datetime64[m]") if all(t % 60 == 0 for t in grid) else g
    if how == 2:
        return np.array(grid, dtype=np.int64)
    return g


def run(case, ctx):
    if case[0] == "long":
        return run_long(case, ctx)
    which, source_idx, extrapolation, m, max_target = case
    lattice = LATTICES[which]
    source = tuple(lattice[i] for i in source_idx)
    vecs = list(vectors(len(source)))
    for t_i, target_idx in enumerate(grids(m, 2, max_target)):
        target = tuple(lattice[i] for i in target_idx)
        if source[0] > target[1]:
            continue
        conv = converter(represent(source, t_i % 3), represent(target, t_i % 3), "point", extrapolation)
        ctx.state(which, source_idx, target_idx, extrapolation)
        tvecs = vecs
        covered = target[0] >= source[0] and target[-1] <= source[-1]
        for v in tvecs:
            check(ctx, conv.convert_from, v, source, target, extrapolation, covered)
        if len(target) >= 3:
            covered = source[0] >= target[0] and source[-1] <= target[-1]
            back = list(vectors(len(target)))
            for v in back[-4:] + back[:1]:
                check(ctx, conv.convert_to, v, target, source, extrapolation, covered)
        if conv.source_length != len(source) or conv.target_length != len(target):
            raise Violation("lengths for {} {}".format(source, target))
        ctx.trace()
    ctx.sample(source=source, extrapolation=extrapolation)


def short(x):
    x = [float(y) if isinstance(y, float) else int(y) for y in x]
    return x if len(x) < 20 else "{} ... {} ({} values)".format(x[:6], x[-6:], len(x))


def check(ctx, fun, values, source, target, extrapolation, covered):
    ctx.step()
    given = np.array(values)
    try:
        got = fun(given)
    except Exception as e:  # pylint: disable=broad-except
        if type(e).__name__ == "InsufficientDataError":
            if extrapolation == "none" and not covered:
                ctx.outcome("InsufficientDataError")
                return
        raise Violation(
            "{!r} for {} from {} to {} ({})".format(e, *(short(x) for x in (values, source, target)), extrapolation)
        )
    if extrapolation == "none" and not covered:
        raise Violation(
            "not refused: {} from {} to {}: {}".format(*(short(x) for x in (values, source, target, got)))
        )
    expected = ref_time.convert(values, source, target, "point", extrapolation)
    scale = max(
        [abs(float(x)) for x in expected] + [abs(float(x)) for x in values]
    )
    if not all_close(got, expected, 1e-13, 1e-13 * scale):
        raise Violation(
            "{} from {} to {} ({}): got {}, expected {}".format(
                *(short(x) for x in (values, source, target)), extrapolation, short(got), short(expected)
            )
        )
    if list(given) != list(values):
        raise Violation("values given have been changed")
    ctx.outcome("extrapolated" if not covered else "interpolated")
