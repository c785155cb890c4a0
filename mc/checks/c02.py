"""C02: a parent parameter always reads as the sum of its descendants."""

import itertools

from ..psys import W, Both
from ..util import sequences

PROP = "C02"
ASSUMPTIONS = [
    "grids which do not cover each other are read with every extrapolation; a leaf is then continued from its own data before the leaves are summed",
    "a request that is refused because of its children's types leaves no trace (C04)",
]
BOUNDS = {
    "quick": "tree A{B{D,E},C} with a different unit/grid for each leaf: all histories of <=5 operations (creation, writes of leaves through two views, reads of two inner nodes in two units/grids, fresh or through the object held) for scalar and point; A{B,C} average <=5; all tree shapes of <=3 leaves and depth <=4: all creation orders x written subsets x reads of all inner nodes; all type assignments to 2 leaves (flat and nested) x requested type; all unit assignments; leaves of depth 2-5 whose last names are equal, all creation orders; all combinations of 5 grids that do not cover each other for two leaves and the parent x extrapolation; trees of 4-33 leaves (flat, chain, comb, binary, with equal names) in regions of depth 1-4; values that are not a number in every subset of three leaves",
    "thorough": "6 operations for scalar, point; 6 for average; shapes of <=4 leaves",
}

LEAVES = {
    "B|D": ("kg", "year", "g", "half"),
    "B|E": ("g", "half", "t", "year"),
    "C": ("t", "year", "kg", "year"),
}
PARENTS = {"A1": ("A", "kg", "year"), "A2": ("A", "g", "half"), "B1": ("A|B", "kg", "year")}


def cases(tier):
    thorough = tier == "thorough"
    # type and unit assignments
    kinds = ("scalar", "point", "average", "generic")
    for k1, k2, k3 in itertools.product(kinds, repeat=3):
        for nested in (False, True):
            for order in (0, 1):
                yield ("types", k1, k2, k3, nested, order)
    units = ("kg", "g", "m")
    for kind in ("scalar", "point", "average"):
        for us in itertools.product(units, repeat=3):
            for nested in (False, True):
                yield ("units", kind, us, nested)
    # shapes
    for paths in shapes(4 if thorough else 3):
        for kind in ("scalar", "point", "average"):
            if kind == "average" and len(paths) > 3:
                continue
            for perm in itertools.permutations(range(len(paths))):
                for missing in range(-1, len(paths)):
                    yield ("shape", kind, paths, perm, missing)
    # leaves whose last names are equal
    deep = ("B|D|F", "C|D|F", "C|E|F", "B|D|G|F", "C|D|G|F", "D|F", "F")
    for n in (2, 3):
        for paths in itertools.combinations(deep, n):
            for kind in ("scalar", "point", "average"):
                for perm in itertools.permutations(range(n)):
                    yield ("shape", kind, paths, perm, -1)
    # large trees, in other regions
    for kind in ("scalar", "point", "average"):
        for region in (W, ("World", "X"), ("World", "X", "Y", "Z")):
            for shape in ("flat", "chain", "comb", "binary", "stairs"):
                for n in (4, 9, 17, 33) + ((65, 129) if thorough else ()):
                    if not (kind == "average" and n > 17):
                        yield ("big", kind, region, shape, n)
    # time ranges
    grids = ("year", "late", "early", "inner", "wide")
    for kind in ("point", "average"):
        for gs in itertools.product(grids, repeat=3):
            for extrapolation in ("none", "constant", "linear"):
                for nested in (False, True):
                    yield ("range", kind, gs, extrapolation, nested)
    # not a number
    for kind in ("scalar", "point"):
        for which in itertools.product((False, True), repeat=3):
            for unit in ("kg", "g"):
                yield ("nan", kind, which, unit)
    # histories
    ops = ["w B|D", "w B|E", "w C", "c C", "c B|D", "x B|D", "r A1", "h A1", "r A2", "h B1"]
    small = ["w B", "w C", "c B", "x B", "h A1", "r A2"]
    for kind, depth in (("scalar", 5), ("point", 5)):
        for d in range(1, depth + 1 + thorough):
            for h in sequences(ops, d):
                if kind == "scalar" and any(o[0] == "h" for o in h):
                    continue
                if d >= 5 and not (h[0][0] in "wc" and h[1][0] in "wc"):
                    continue
                yield ("hist", kind, h)
    for d in range(1, 6 + thorough):
        for h in sequences(small, d):
            if d >= 4 and h[0][0] not in "wc":
                continue
            yield ("hist2", "average", h)


def shapes(max_leaves):
    """Sets of leaf paths below the root A."""
    nodes = ("B", "C", "B|D", "B|E", "C|D", "B|D|F", "B|D|G", "B|D|F|H")
    for n in range(1, max_leaves + 1):
        for paths in itertools.combinations(nodes, n):
            if any(
                a != b and (a + "|").startswith(b + "|") for a in paths for b in paths
            ):
                continue
            yield paths


def run(case, ctx):
    getattr(__import__(__name__, fromlist=["x"]), "run_" + case[0].rstrip("2"))(case, ctx)


def _name(text):
    return tuple(text.split("|"))


def run_types(case, ctx):
    _, k1, k2, k3, nested, order = case
    names = [("A", "B", "D") if nested else ("A", "B"), ("A", "C")]
    reqs = [
        ("req", 0, k1, names[0], W, "kg", "year"),
        ("req", 1, k2, names[1], W, "kg", "year"),
    ]
    if order:
        reqs.reverse()
    b = Both(ctx)
    for r in reqs:
        b.do(r)
    for s in (0, 1):
        b.do(("w", s, s))
    if k3 == "generic":
        # recorded under C04: leaves the parent typed, so this is the last request on it
        b.do(("req", 2, k3, ("A",), W, "kg", "year"))
    else:
        b.do(("info", ("A",), W))
        got = b.do(("req", 2, k3, ("A",), W, "kg", "year"))
        if got[0] == "ok":
            b.do(("r", 2))
            b.do(("w", 2, 9))
        b.do(("info", ("A",), W))
    for s in (0, 1):
        b.do(("w", s, s + 4))
        b.do(("r", s))
    if b.enabled(("r", 2)):
        b.do(("r", 2))
    ctx.trace()


def run_units(case, ctx):
    _, kind, units, nested = case
    names = [("A", "B", "D") if nested else ("A", "B"), ("A", "C")]
    b = Both(ctx)
    for s in (0, 1):
        b.do(("req", s, kind, names[s], W, units[s], "year"))
        b.do(("w", s, s + 1))
    got = b.do(("req", 2, kind, ("A",), W, units[2], "year"))
    if got[0] == "ok":
        b.do(("r", 2))
        b.do(("e" if kind != "scalar" else "w", 1, 3))
        b.do(("r", 2))
    else:
        b.do(("info", ("A",), W))
        for s in (0, 1):
            b.do(("r", s))
    ctx.trace()


def run_range(case, ctx):
    _, kind, grids, extrapolation, nested = case
    names = [("A", "B", "D") if nested else ("A", "B"), ("A", "C")]
    b = Both(ctx)
    for s in (0, 1):
        b.do(("req", s, kind, names[s], W, ("kg", "g")[s], grids[s]))
        b.do(("w", s, s + 1))
    inner = [("A",), ("A", "B")] if nested else [("A",)]
    for j, node in enumerate(inner):
        got = b.do(("req", (9, j), kind, node, W, "g", grids[2], "tuple", extrapolation))
        if got[0] == "err":
            b.do(("info", node, W))
            continue
        b.do(("r", (9, j)))
        b.do(("req", (8, j), kind, node, W, "kg", grids[2], "tuple", extrapolation))
        b.do(("rh", (8, j)))
    b.do(("w", 0, 7))
    b.do(("w", 1, 4))
    for j in range(len(inner)):
        if b.enabled(("r", (8, j))):
            b.do(("rh", (8, j)))
            b.do(("r", (9, j)))
    ctx.trace()


def big(shape, n):
    if shape == "flat":
        return [("L%d" % i,) for i in range(n)]
    if shape == "chain":
        return [tuple("N%d" % j for j in range(min(n, 40)))]
    if shape == "comb":
        return [("x",) * min(i, 12) + ("L%d" % i,) for i in range(n)]
    if shape == "binary":
        return [tuple(format(i, "b").zfill(n.bit_length())) for i in range(n)]
    return [("S%d" % (i % 3),) * (1 + i % 5) + ("S%d" % i, "x") for i in range(n)]


def run_big(case, ctx):
    _, kind, region, shape, n = case
    b = Both(ctx)
    paths = big(shape, n)
    units, grids = ("kg", "g", "t", "kg"), ("year", "half") if kind == "point" else ("year",)
    other = ("World",) if region != W else ("World", "X")
    for i, p in enumerate(paths):
        # (leaves written partly before others are created)
        b.do(("req", i, kind, ("A",) + p, region, units[i % 4], grids[i % len(grids)]))
        if i % 3 == 0:
            b.do(("w", i, i % 7))
        if i % 5 == 0:
            b.do(("req", "o%d" % i, kind, ("A",) + p, other, "kg", "year"))
            b.do(("w", "o%d" % i, 3))
    for i, p in enumerate(paths):
        if i % 3:
            b.do(("w", i, i % 7))
    inner = sorted({p[:k] for p in paths for k in range(len(p))}, key=lambda p: (len(p), p))
    inner = inner[:3] + inner[3::max(1, len(inner) // 4)]
    for j, node in enumerate(inner):
        b.do(("req", ("p", j), kind, ("A",) + node, region, ("g", "kg")[j % 2], "year"))
        b.do(("r" if kind == "scalar" else "rh", ("p", j)))
    for i in {0, len(paths) // 2, len(paths) - 1}:
        b.do(("w", i, 9 + i % 5))
        for j in range(len(inner)):
            b.do(("r", ("p", j)))
            if kind != "scalar":
                b.do(("rh", ("p", j)))
    ctx.trace()


def run_nan(case, ctx):
    _, kind, which, unit = case
    b = Both(ctx)
    for i, name in enumerate((("A", "B", "D"), ("A", "B", "E"), ("A", "C"))):
        b.do(("req", i, kind, name, W, "kg", "year"))
        b.do(("w", i, None if which[i] else i))
    for j, node in enumerate((("A",), ("A", "B"))):
        b.do(("req", (9, j), kind, node, W, unit, "year"))
        b.do(("r", (9, j)))
    for i in range(3):
        b.do(("w", i, i + 5 if which[i] else None))
        for j in (0, 1):
            b.do(("r", (9, j)))
    ctx.trace()


def run_shape(case, ctx):
    _, kind, paths, perm, missing = case
    b = Both(ctx)
    grids = ("year", "half", "year", "coarse") if kind == "point" else ("year",) * 4
    units = ("kg", "g", "t", "kg")
    # parameters that must not take part: other region, similar names
    for n, (name, region) in enumerate(
        [(("A", "B"), ("World", "X")), (("AB",), W), (("B",), W), (("A2", "B"), W)]
    ):
        b.do(("req", "o%d" % n, kind, name, region, "kg", "year"))
        b.do(("w", "o%d" % n, 20 + n))
    for i in perm:
        b.do(("req", i, kind, ("A",) + _name(paths[i]), W, units[i], grids[i]))
    for i in perm[::-1]:
        if i != missing:
            b.do(("w", i, i))
    inner = sorted({p[:k] for p in map(_name, paths) for k in range(len(p))})
    for j, node in enumerate(inner):
        for u in ("kg", "g"):
            slot = "p%d%s" % (j, u)
            b.do(("req", slot, kind, ("A",) + node, W, u, "year" if u == "kg" else "half"))
            b.do(("r", slot))
    for i in perm:
        b.do(("w", i, i + 10))
        for j in range(len(inner)):
            b.do(("r" if kind == "scalar" else "rh", "p%dkg" % j))
            b.do(("r", "p%dg" % j))
    ctx.trace()
    ctx.sample(shape=paths, kind=kind, order=perm)


def run_hist(case, ctx):
    kind, history = case[1:]
    leaves = LEAVES
    if case[0] == "hist2":
        leaves = {"B": ("kg", "year", "g", "half"), "C": ("t", "half", "kg", "year")}
    b = Both(ctx)
    parents = {k: v for k, v in PARENTS.items() if k != "B1" or case[0] == "hist"}
    for n, op in enumerate(history):
        what, name = op.split(" ")
        if name in leaves:
            u1, g1, u2, g2 = leaves[name]
            second = what == "x"
            slot = name + ("2" if second else "")
            if not b.enabled(("r", slot)):
                got = b.do(
                    (
                        "req",
                        slot,
                        kind,
                        ("A",) + _name(name),
                        W,
                        u2 if second else u1,
                        g2 if second else g1,
                    )
                )
                if got[0] == "err":
                    continue
            if what in ("w", "x"):
                b.do(("w", slot, n + (ord(name[-1]) - 60) * 3))
        else:
            pname, unit, grid = parents[name]
            if not b.enabled(("r", name)):
                got = b.do(("req", name, kind, _name(pname), W, unit, grid))
                if got[0] == "err":
                    continue
            b.do((("rh" if what == "h" else "r"), name))
    for name, (pname, unit, grid) in sorted(parents.items()):
        if not b.enabled(("r", name)):
            if b.do(("req", name, kind, _name(pname), W, unit, grid))[0] == "err":
                continue
        if kind != "scalar":
            b.do(("rh", name))
        b.do(("r", name))
    ctx.trace()
    ctx.sample(history=history, kind=kind)
