"""C08: average timeseries conversion preserves means."""

import itertools

import numpy as np

from .. import ref_time
from ..engine import Violation
from ..util import all_close, seconds, to64
from .c07 import STEPS, converter, grids, long_grid, long_targets, long_values, represent, short

PROP = "C08"
ASSUMPTIONS = [
    "grids are strictly ascending; a target grid does not end before the source begins (the converter refuses this regardless of extrapolation)",
    "constant extrapolation continues with the first/last period's mean",
    "numbers agree to 1e-8 of the largest value involved (numerical integration)",
]
BOUNDS = {
    "quick": "all source grids of 4-5 edges and target grids of 2-4 edges on a lattice of 7 instants (days to centuries, leap day) (2-3 edges for the second lattice) at two origins x unit vectors, ramp, zigzag and constant values x 3 extrapolation types x both directions; long series: monthly, daily and yearly sources of up to 400 periods with a spike at every (yearly, 5-yearly) or every 5th (monthly, daily) position merged into one or few periods; series of 4 to 258 edges (5 spacings) onto ~20 target grids of up to 260 edges each (same, shifted by seconds to hours, split, merged, beyond one or both ends)",
    "thorough": "source grids of 4-8 edges, target grids of 2-8 edges on a lattice of 8 instants",
}

LATTICES = (
    (
        seconds(2000, 1, 1),
        seconds(2004, 2, 28),
        seconds(2004, 2, 29),
        seconds(2004, 3, 1),
        seconds(2010, 1, 1),
        seconds(2019, 12, 31, 23, 59, 59),
        seconds(2020, 1, 1),
        seconds(2020, 7, 1, 12),
    ),
    (
        seconds(1, 1, 1),
        seconds(1500, 1, 1),
        seconds(1968, 1, 1),
        seconds(1970, 1, 1),
        seconds(1971, 1, 1),
        seconds(2263, 1, 1),
        seconds(9999, 12, 31),
        seconds(9999, 12, 31, 12),
    ),
)


def cases(tier):
    thorough = tier == "thorough"
    m = 8 if thorough else 7
    for which in range(2):
        for source in grids(m, 4, 8 if thorough else 5):
            for extrapolation in ("none", "constant", "linear"):
                yield ("lattice", which, source, extrapolation, m, 8 if thorough else 4 - which)
    for name in LONG:
        n = len(LONG[name]) - 1
        for spike in range(0, n, 1 if thorough or n < 130 else 5):
            yield ("long", name, spike)
    for name in STEPS:
        for n in SIZES if thorough else SIZES[:-2]:
            for extrapolation in ("none", "constant", "linear"):
                if n < 65 or extrapolation == "constant":
                    yield ("sizes", name, n, extrapolation)


# edges of long series
SIZES = (4, 5, 10, 33, 51, 65, 102, 129, 201, 258, 514, 1002)


def run_sizes(case, ctx):
    _, name, n, extrapolation = case
    source = long_grid(name, n)
    for what, target in long_targets(source).items():
        if len(target) < 2 or len(target) > 260 or source[0] > target[1]:
            continue
        covered = target[0] >= source[0] and target[-1] <= source[-1]
        conv = converter(to64(source), to64(target), "average", extrapolation)
        for values in long_values(n - 1)[1 if n > 40 else 0 :: 2]:
            check(ctx, conv.convert_from, values, source, target, extrapolation, covered)
        if target[0] <= source[1] and n < 65:
            conv = converter(to64(target), to64(source), "average", extrapolation)
            values = long_values(n - 1)[-1]
            check(ctx, conv.convert_to, values, source, target, extrapolation, covered)
        ctx.state("sizes", name, n, what, extrapolation)
        ctx.trace()


def _monthly(n):
    return tuple(seconds(2000 + i // 12, i % 12 + 1) for i in range(n + 1))


LONG = {
    "monthly": _monthly(240),
    "yearly": tuple(seconds(1950 + i) for i in range(101)),
    "daily": tuple(seconds(2016, 1, 1) + 86400 * i for i in range(367)),
    "5yearly": tuple(seconds(1900 + 5 * i) for i in range(41)),
}


def vectors(n):
    for i in range(n):
        yield tuple(1.0 if j == i else 0.0 for j in range(n))
    yield tuple(3.0 - 2.5 * j for j in range(n))
    yield tuple((-1) ** j * (10.0 + j * j) for j in range(n))
    yield (7,) * n


def run(case, ctx):
    if case[0] == "long":
        return run_long(case, ctx)
    if case[0] == "sizes":
        return run_sizes(case, ctx)
    _, which, source_idx, extrapolation, m, max_target = case
    lattice = LATTICES[which]
    source = tuple(lattice[i] for i in source_idx)
    vecs = list(vectors(len(source) - 1))
    for t_i, target_idx in enumerate(grids(m, 2, max_target)):
        target = tuple(lattice[i] for i in target_idx)
        if source[0] > target[1]:
            continue
        conv = converter(
            represent(source, t_i % 3), represent(target, t_i % 3), "average", extrapolation
        )
        ctx.state(which, source_idx, target_idx, extrapolation)
        covered = target[0] >= source[0] and target[-1] <= source[-1]
        chosen = vecs if covered or extrapolation != "none" else vecs[:1]
        for v in chosen:
            check(ctx, conv.convert_from, v, source, target, extrapolation, covered)
        if len(target) >= 4:
            covered = source[0] >= target[0] and source[-1] <= target[-1]
            for v in list(vectors(len(target) - 1))[-2:]:
                check(ctx, conv.convert_to, v, target, source, extrapolation, covered)
        if (conv.source_length, conv.target_length) != (len(source) - 1, len(target) - 1):
            raise Violation("lengths for {} {}".format(source, target))
        ctx.trace()
    ctx.sample(source=source, extrapolation=extrapolation)


def check(ctx, fun, values, source, target, extrapolation, covered):
    ctx.step()
    given = np.array(values)
    try:
        got = fun(given)
    except Exception as e:  # pylint: disable=broad-except
        if type(e).__name__ == "InsufficientDataError":
            if extrapolation == "none" and not covered:
                ctx.outcome("InsufficientDataError")
                return
        raise Violation(
            "{!r} for {} from {} to {} ({})".format(e, *(short(x) for x in (values, source, target)), extrapolation)
        )
    if extrapolation == "none" and not covered:
        raise Violation(
            "not refused: {} from {} to {}: {}".format(*(short(x) for x in (values, source, target, got)))
        )
    expected = ref_time.convert(values, source, target, "average", extrapolation)
    scale = max([abs(float(x)) for x in expected] + [abs(float(x)) for x in values])
    if not all_close(got, expected, 1e-8, 1e-8 * scale):
        raise Violation(
            "{} from {} to {} ({}): got {}, expected {}".format(
                *(short(x) for x in (values, source, target)), extrapolation, short(got), short(expected)
            )
        )
    if list(given) != list(values):
        raise Violation("values given have been changed")
    if target == source and not all_close(got, values, 1e-8, 1e-8 * scale):
        raise Violation("identity {} on {}: {}".format(values, source, got))
    if covered:
        # merging whole periods: duration-weighted mean, independent of any curve
        for a, b, x in zip(target[:-1], target[1:], got):
            if a in source and b in source:
                i, j = source.index(a), source.index(b)
                mean = sum(
                    values[k] * (source[k + 1] - source[k]) for k in range(i, j)
                ) / (b - a)
                if abs(mean - x) > 1e-8 * scale:
                    raise Violation(
                        "mean over {}..{} of {} on {}: {}, expected {}".format(
                            a, b, short(values), short(source), x, mean
                        )
                    )
    ctx.outcome("extrapolated" if not covered else "merged/split")


def run_long(case, ctx):
    _, name, spike = case
    source = LONG[name]
    n = len(source) - 1
    values = [0.5 * ((i * 7) % 3) for i in range(n)]
    values[spike] = 100.0
    targets = [
        (source[0], source[-1]),
        (source[0], source[n // 3], source[-1]),
        tuple(source[:: max(1, n // 8)]),
    ]
    for target in targets:
        conv = converter(to64(source), to64(target), "average", "none")
        ctx.step()
        got = conv.convert_from(np.array(values))
        expected = []
        for a, b in zip(target[:-1], target[1:]):
            i, j = source.index(a), source.index(b)
            expected.append(
                sum(values[k] * (source[k + 1] - source[k]) for k in range(i, j)) / (b - a)
            )
        ctx.state(name, spike, len(target))
        if not all_close(got, expected, 1e-8, 1e-6):
            raise Violation(
                "{} with spike at {} onto {} periods: {}, expected {}".format(
                    name, spike, len(target) - 1, list(got), expected
                )
            )
    ctx.trace()
    ctx.outcome("long")
