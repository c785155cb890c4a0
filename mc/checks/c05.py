"""C05: parameters are addressed uniquely by name, region and set."""

import itertools

from ..engine import Violation
from ..psys import W, Both, agree, spell

PROP = "C05"
ASSUMPTIONS = [
    "names do not contain the separator inside one level",
]
BOUNDS = {
    "quick": "all ordered pairs of 9 names x 7 regions (depth <=3), in all 9 pairs of spellings (string, tuple, list) for different names and for the same one, written and read in every spelling with information queried before and after; the same in three sets with the same or different roots, as scalars, timeseries and generics; all ordered triples over 4 names x 3 regions; three types; all ordered pairs of 20 similar names (case, spaces, unicode forms, numbers, empty) at 5 levels of names and regions; up to 300 parameters in one set; sets with another root region",
    "thorough": "triples over 6 names x 4 regions",
}

NAMES = (
    ("A",),
    ("B",),
    ("A", "B"),
    ("B", "A"),
    ("AB",),
    ("A", "B", "C"),
    ("A", "C"),
    ("a",),
    ("A ", "B"),
)
REGIONS = (
    W,
    ("World", "X"),
    ("World", "Y"),
    ("World", "X", "Y"),
    ("World", "Y", "X"),
    ("World", "World"),
    ("World", "X", "Y", "Z"),
)
# similar names of one level
LIKE = (
    "X", "x", " X", "X ", "X.", "X_", "X-", "X X", "XX", "X\n", "\u00e9", "e\u0301", "e", "1", "01", "1.0", "None",
    "World", "world", "",
)
SPELLINGS = ("str", "tuple", "list")


def cases(tier):
    thorough = tier == "thorough"
    addresses = list(itertools.product(NAMES, REGIONS))
    for a, b in itertools.product(addresses, repeat=2):
        if a[1] == b[1] or a[0] == b[0]:
            for s in itertools.product(SPELLINGS, repeat=2):
                yield ("pair", "scalar", a, b, s)
        else:
            yield ("pair", "scalar", a, b, ("str", "tuple"))
        if a[1] == b[1] or a[0] == b[0]:
            if not (a[1] == b[1] and a[0][: len(b[0])] == b[0] and a != b):
                # a generic view of a parent: see the known finding of C04
                yield ("pair", "generic", a, b, ("str", "list"))
            yield ("pair", "point", a, b, ("tuple", "str"))
    names, regions = (NAMES[:3] + NAMES[5:6], REGIONS[:2] + REGIONS[3:4])
    if thorough:
        names, regions = NAMES[:6], REGIONS[:4]
    small = list(itertools.product(names, regions))
    for t in itertools.product(small, repeat=3):
        yield ("triple", t)
    for a, b in itertools.product(addresses[:30], repeat=2):
        yield ("sets", a, b, ("World", "World"), "scalar")
        if a[1] == b[1]:
            yield ("sets", a, b, ("Earth", "Earth"), "point")
            yield ("sets", a, b, ("", ""), "generic")
            yield ("sets", a, b, ("World", "Earth"), "scalar")
            yield ("sets", a, b, ("X", "World"), "point")
    for a, b in itertools.product(LIKE, repeat=2):
        for where in range(5):
            if where == 0 and "" in (a, b):
                continue
            for kind in ("scalar", "point", "generic"):
                yield ("like", kind, a, b, where)
    for kind in ("scalar", "point", "generic"):
        for shape in MANY:
            yield ("many", kind, shape)
    for root in ("World", "Earth", "World|X"):
        for region in REGIONS + (("Earth",), ("Earth", "X"), ()):
            yield ("root", root, region)


def check_info(b, addresses, spelling):
    """Information on each address, in all spellings, and on unknown ones."""
    for name, region in addresses:
        b.do(("info", name, region))
        got = b.real.info(spell(name, spelling), spell(region, spelling))
        expected = b.ref.rs.info(name, region)
        if got != expected:
            raise Violation("info {}: {} {}".format((name, region), got, expected))
        if expected is None or expected[4]:
            agree(
                ("ensure", name, region),
                b.real.do(("ensure", spell(name, spelling), spell(region, spelling))),
                b.ref.do(("ensure", name, region)),
                b.log,
            )


EXTRA = [
    (("A",), W), (("A", "B"), ("World", "X")), (("Z",), W), (("A",), ("World", "Q")),
    # names with an empty level
    (("A",), W + ("",)), (("A", "B"), ("World", "X", "")), (("A",), ("World", "", "X")), (("A", ""), W), (("A", "", "B"), W), (("A",), ("", "World")),
]


def run(case, ctx):
    if case[0] == "pair":
        _, kind, a, b, spellings = case
        run_addresses(ctx, kind, (a, b), spellings)
    elif case[0] == "like":
        _, kind, x, y, where = case
        a, b = (
            [((v,), W) for v in (x, y)],
            [(("A", v), W) for v in (x, y)],
            [(("A", v, "B"), ("World", "Y")) for v in (x, y)],
            [(("A",), ("World", v)) for v in (x, y)],
            [(("A", "B"), ("World", v, "Y")) for v in (x, y)],
        )[where]
        for spellings in (("tuple", "str"), ("str", "list")):
            run_addresses(ctx, kind, (a, b), spellings)
    elif case[0] == "triple":
        run_addresses(ctx, "scalar", case[1], ("tuple", "str", "list"))
    elif case[0] == "many":
        run_many(ctx, *case[1:])
    elif case[0] == "sets":
        run_sets(ctx, *case[1:])
    else:
        run_root(ctx, case[1], case[2])
    ctx.trace()


def run_addresses(ctx, kind, addresses, spellings):
    b = Both(ctx)
    unit, grid = "kg", "year"
    asked = list(dict.fromkeys(list(addresses) + EXTRA))
    check_info(b, asked, "tuple")
    for i, ((name, region), spelling) in enumerate(zip(addresses, spellings)):
        got = b.do(("req", i, kind, name, region, unit, grid, spelling))
        if got[0] == "ok":
            check_info(b, addresses, spelling)
            b.do(("w", i, i + 1))
            check_info(b, addresses, spelling)
    check_info(b, asked, "str")
    check_info(b, asked, "list")
    for (name, region) in addresses:
        for spelling in SPELLINGS:
            if kind == "generic" and b.ref.rs.find(name, region) is not None:
                if b.ref.rs.find(name, region).children:
                    continue
            slot = ("n", name, region, spelling)
            got = b.do(("req", slot, kind, name, region, unit, grid, spelling))
            if got[0] == "ok":
                b.do(("r", slot))
    for i in range(len(addresses)):
        if b.enabled(("r", i)):
            b.do(("r", i))
    ctx.sample(addresses=addresses, spellings=spellings)


def run_sets(ctx, a, b, roots, kind):
    """Parameter sets never share data (a third one has the root of the first)."""
    sets = [Both(ctx, root) for root in roots + roots[:1]]
    others = lambda i: [s for j, s in enumerate(sets) if j != i]

    def at(i, address):
        root = (roots + roots[:1])[i]
        return address[0], (root,) + tuple(address[1][1:])

    if kind == "generic" and (a[0][: len(b[0])] == b[0] or b[0][: len(a[0])] == a[0]):
        kind = "scalar"  # a generic view of a parent: see the known finding of C04
    for i, s in enumerate(sets):
        s.do(("req", 0, kind, *at(i, a), "kg", "year"))
        for j, o in enumerate(sets):
            o.do(("info", *at(j, b)))
        s.do(("w", 0, 10 + i))
    for s in sets:
        s.do(("r", 0))
    for i, s in enumerate(sets):
        if s.do(("req", 1, kind, *at(i, b), "g", "year"))[0] == "ok":
            s.do(("w", 1, 20 + i))
        for o in others(i):
            o.do(("r", 0))
    for i, s in enumerate(sets):
        for slot in (0, 1):
            if s.enabled(("r", slot)):
                s.do(("r", slot))
        for address in (a, b):
            s.do(("info", *at(i, address)))
            s.do(("info", *address))


# addresses: all leaves
MANY = {
    "names": [(("N%d" % i,), W) for i in range(300)],
    "children": [(("A", "N%d" % i), W) for i in range(130)],
    "regions": [(("A",), ("World", "R%d" % i)) for i in range(130)],
    "subregions": [(("A", "B"), ("World", "X", "R%d" % i, "S")) for i in range(70)],
    "depths": [(("A",) * n + ("L",), ("World",) + ("X",) * m) for n in range(0, 12) for m in range(0, 12, 2)],
    "grid": [(("A", "N%d" % i), ("World", "R%d" % j)) for i in range(12) for j in range(12)],
    "numbers": [((str(i),), ("World", str(j))) for i in range(12) for j in range(12)],
    "short": [((a, b), ("World",) + r) for a in "abc" for b in "abc" for r in ((), ("a",), ("b",), ("a", "b"), ("b", "a"), ("a", "a"))],
}


def run_many(ctx, kind, shape):
    """Many parameters in one set, written and read in several orders."""
    b = Both(ctx)
    addresses = MANY[shape]
    n = len(addresses)
    for i, (name, region) in enumerate(addresses):
        b.do(("req", i, kind, name, region, "kg", "year", SPELLINGS[i % 3]))
        if i % 2:
            b.do(("w", i, i))
    for i in range(0, n, 7):
        b.do(("info", *addresses[i]))
    for i in list(range(0, n, 2))[::-1]:
        b.do(("w", i, i))
    for i in range(n):
        j = i * 37 % n if n % 37 else i
        b.do(("r", j))
        name, region = addresses[j]
        b.do(("req", "again", kind, name, region, "kg", "year", SPELLINGS[(i + 1) % 3]))
        b.do(("r", "again"))
        if i % 5 == 0:
            b.do(("info", name, region))
            b.do(("info", name, region + ("no",)))
            b.do(("info", name + ("no",), region))


def run_root(ctx, root, region):
    b = Both(ctx, root)
    got = b.do(("req", 0, "scalar", ("A", "B"), region, "kg", None, "tuple"))
    if got[0] == "ok":
        b.do(("w", 0, 1))
        b.do(("r", 0))
        for r in REGIONS + (("Earth",), ("Earth", "X")):
            b.do(("info", ("A", "B"), r))
            b.do(("info", ("A",), r))
    elif region:
        b.do(("info", ("A", "B"), region))
