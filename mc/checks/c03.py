"""C03: type and hierarchy access rules hold for every access order."""

import itertools

import numpy as np

from ..engine import Violation
from ..psys import W, Both
from ..util import sequences

PROP = "C03"
ASSUMPTIONS = [
    "requesting a generic view of a parent with children is the last request on that parent (its trace is a known finding of C04)",
]
BOUNDS = {
    "quick": "all histories of <=4 operations (requests as 4 types on 3 names of a chain, writes, reads), and <=4 operations over a branching tree with 2 types; histories of <=2 operations in all combinations of 4 regions, 4 sets of names (depth <=8) and 4 ways of writing and reading (elements, objects held, second views, locked), longer ones in some; every form of write (whole value, element, slice, in-place operator, numpy out=, unlock after locked write, second view) tried on every parameter with children at the end",
    "thorough": "5 operations",
}

A, AB, ABC, AD = ("A",), ("A", "B"), ("A", "B", "C"), ("A", "D")


REGIONS = (W, ("World", "X"), ("World", "X", "Y", "Z"), ("World", ""))
# other names for the parameters, as long as their hierarchy is the same
RENAMED = (
    {},
    {A: ("P", "Q", "A"), AB: ("P", "Q", "A", "R", "B"), ABC: ("P", "Q", "A", "R", "B", "S", "T", "C"), AD: ("P", "Q", "A", "D")},
    {A: ("x",), AB: ("x", "x"), ABC: ("x", "x", "x"), AD: ("x", "x x")},
    {A: ("0",), AB: ("0", ""), ABC: ("0", "", "a|".strip("|")), AD: ("0", " ")},
)
# (how to write, how to read)
WAYS = (("w", "r"), ("e", "rh"), ("second", "second"), ("locked", "ensure"))


def cases(tier):
    thorough = tier == "thorough"
    kinds = ("scalar", "point", "average", "generic")
    chain = [("req", k, n) for n in (A, AB, ABC) for k in kinds]
    chain += [(o, n) for n in (A, AB, ABC) for o in "wr"]
    tree = [("req", k, n) for n in (A, AB, AD, ABC) for k in ("scalar", "point")]
    tree += [(o, n) for n in (A, AB, AD, ABC) for o in "wr"]
    depth = 5 if thorough else 4
    variants = list(itertools.product(range(len(REGIONS)), range(len(RENAMED)), range(len(WAYS))))
    n = 0
    for d in range(1, depth + 1):
        for which, alphabet in (("chain", chain), ("tree", tree)):
            for h in sequences(alphabet, d):
                if h[0][0] != "req" or which == "tree" and not any(o[-1] == AD for o in h):
                    continue
                if d <= 2:
                    for v in variants:
                        yield (which, h, v)
                elif d == 3:
                    for w in range(len(WAYS)):
                        n += 1
                        yield (which, h, (n % len(REGIONS), n % len(RENAMED), w))
                else:
                    n += 1
                    yield (which, h, variants[0])
                    if n % 4 == 0 or thorough:
                        yield (which, h, variants[n // 4 % len(variants)])


def run(case, ctx):
    which, history, (region, renamed, way) = case
    region, renamed, (writing, reading) = REGIONS[region], RENAMED[renamed], WAYS[way]
    names = (A, AB, ABC) if which == "chain" else (A, AB, AD, ABC)
    b = Both(ctx)
    slots = {}
    tainted = set()

    def request(slot, kind, name):
        return b.do(("req", slot, kind, renamed.get(name, name), region, "kg", "year"))

    def write(slot, n):
        kind = b.ref.kinds[slot]
        series = kind in ("point", "average")
        if writing == "second":
            if request((slot, 2), kind, slot[0])[0] == "ok":
                b.do(("w", (slot, 2), n))
        elif writing == "locked" and series:
            b.do(("lock", slot))
            b.do(("w", slot, n))
            b.do(("unlock", slot))
        elif writing == "e" and series:
            if n % 2:
                b.do(("w", slot, n))
            b.do(("e", slot, n))
        else:
            b.do(("w", slot, n))

    def read(slot):
        kind = b.ref.kinds[slot]
        if reading == "second":
            if request((slot, 3), kind, slot[0])[0] == "ok":
                b.do(("r", (slot, 3)))
        elif reading == "rh" and kind in ("point", "average"):
            b.do(("rh", slot))
        elif reading == "ensure":
            b.do(("ensure", renamed.get(slot[0], slot[0]), region))
            b.do(("r", slot))
        else:
            b.do(("r", slot))

    for n, op in enumerate(history):
        name = op[-1]
        if op[0] == "req":
            if name in tainted:
                return
            slot = (name, op[1])
            got = request(slot, op[1], name)
            if got[0] == "ok":
                slots[name] = slot
            elif op[1] == "generic" and got[1] == "ParameterAggregationError":
                tainted.add(name)
        elif name not in slots:
            return  # nothing to write or read: same as a shorter history
        elif op[0] == "w":
            write(slots[name], n + 1)
        else:
            read(slots[name])
    for name in names:
        if name not in tainted:
            b.do(("info", renamed.get(name, name), region))
    for name, slot in sorted(slots.items()):
        b.do(("r", slot))
        forms_of_write(b, slot, ctx)
    for name, slot in sorted(slots.items()):
        b.do(("r", slot))
    ctx.trace()
    ctx.sample(history=history)


def forms_of_write(b, slot, ctx):
    """A parameter with children rejects every form of write."""
    ref, view, kind = b.ref.slots[slot], b.real.slots[slot], b.real.kinds[slot]
    if not ref.param.children:
        return
    forms = []

    def form(f):
        forms.append(f)
        return f

    if kind == "scalar":

        @form
        def whole():
            view.value = 3.0

        @form
        def inplace():
            view.value += 1.0

    else:

        @form
        def whole_array():
            view.values = np.ones(view.length)

        @form
        def wrong_length():
            view.values = np.ones(view.length + 1)

        @form
        def element():
            view.values[0] = 1.0

        @form
        def sliced():
            view.values[0:2] = [1.0, 2.0]

        @form
        def slice_element():
            view.values[1:][0] = 2.0

        @form
        def inplace_op():
            ts = view.values
            ts += 1.0

        @form
        def reversed_slice():
            view.values[::-1] = [1.0] * view.length

        @form
        def chosen():
            view.values[[0, 1]] = 2.0

        @form
        def all_elements():
            view.values[...] = 2.0

        @form
        def masked():
            view.values[np.arange(view.length) > 0] = 2.0

        @form
        def at():
            np.add.at(view.values, [0, 1], 2.0)

        @form
        def out_where():
            ts = view.values
            np.multiply(ts, 2.0, out=ts, where=np.arange(view.length) > 0)

        @form
        def listed():
            view.values = [1.0] * view.length

        @form
        def out():
            ts = view.values
            np.add(ts, 1.0, out=ts)

        @form
        def inplace_property():
            view.values *= 2.0

        @form
        def locked():
            view.lock()
            try:
                view.values = np.ones(view.length)
            finally:
                view.unlock()

    readable = all(c.written for c in ref.param.leaves())
    for f in forms:
        ctx.step()
        try:
            f()
        except Exception as e:  # pylint: disable=broad-except
            name = type(e).__name__
            ok = name == "ParameterReadonlyError"
            if not readable and name == "ParameterEmptyError":
                ok = f.__name__ not in ("whole", "whole_array", "locked")
            if not ok:
                raise Violation("{}: {!r} | {}".format(f.__name__, e, b.log))
        else:
            raise Violation("{} on a parent succeeded | {}".format(f.__name__, b.log))
    ctx.outcome("readonly")
