"""
Operations on a whole parameter set: executors for the real code and for the reference.

Operations are tuples:

* ("req", slot, kind, name, region, unit, grid[, spelling[, extrapolation]])   request a view,
  keep it in a slot
* ("w", slot, n)      write (n distinguishes values)
* ("e", slot, n)      element write (timeseries)
* ("r", slot)         read
* ("rh", slot)        read through the timeseries object obtained first from this slot
* ("lock", slot), ("unlock", slot)
* ("info", name, region), ("ensure", name, region)

The outcome of an operation is ("ok", value) or ("err", exception name(s)).  An operation
on a slot that holds no view is disabled (None).
"""

import numpy as np

from .engine import Violation
from .refps import RefError, RefSet
from .tsys import GRIDS
from .util import all_close, close, to64

W = ("World",)
NAN = float("nan")
KIND_NAMES = {
    "SCALAR": "scalar",
    "GENERIC": "generic",
    "POINT_TIMESERIES": "point",
    "AVERAGE_TIMESERIES": "average",
}


def value_for(kind, n, length):
    if n is None:
        # not a number: the scalar, the second value of a timeseries
        return NAN if kind == "scalar" else [1.5, NAN] + [2.5] * (length - 2)
    if kind == "scalar":
        return 1.25 + 3.5 * n
    if kind == "generic":
        return "value {}".format(n)
    return [1.5 + 4.0 * n + ((3 * i + n) % 5) * 0.5 for i in range(length)]


def spell(name, spelling):
    if spelling == "str":
        return "|".join(name)
    return list(name) if spelling == "list" else tuple(name)


class Real:
    def __init__(self, ctx, root="World"):
        from openscm.core.parameterset import ParameterSet

        self.ctx = ctx
        self.ps = ParameterSet(root) if root != "World" else ParameterSet()
        self.slots = {}
        self.kinds = {}
        self.held = {}

    def request(
        self, kind, name, region, unit, grid, spelling="tuple", extrapolation=None, **kwargs
    ):
        name, region = spell(name, spelling), spell(region, spelling)
        if kind == "scalar":
            return self.ps.scalar(name, unit, region=region)
        if kind == "generic":
            return self.ps.generic(name, region=region)
        if extrapolation is not None:
            kwargs["extrapolation"] = extrapolation
        return self.ps.timeseries(
            name,
            unit,
            to64(GRIDS[grid]),
            region=region,
            timeseries_type=kind,
            **kwargs
        )

    def do(self, op):
        self.ctx.step()
        try:
            return ("ok", self._do(op))
        except Exception as e:  # pylint: disable=broad-except
            if type(e).__name__ in ("CaseTimeout", "Violation"):
                raise
            return ("err", type(e).__name__)

    def _do(self, op):
        name = op[0]
        if name == "req":
            v = self.request(*op[2:])
            self.slots[op[1]] = v
            self.kinds[op[1]] = op[2]
            self.held.pop(op[1], None)
            return None
        if name == "info":
            return self.info(*op[1:])
        if name == "ensure":
            i = self.ps.info(op[1], op[2])
            return None if i is None else i.ensure()
        v, kind = self.slots[op[1]], self.kinds[op[1]]
        if name == "w":
            if kind in ("scalar", "generic"):
                v.value = value_for(kind, op[2], 0)
            else:
                v.values = np.array(value_for(kind, op[2], v.length))
            return None
        if name == "e":
            v.values[1] = 50.5 + op[2]
            return None
        if name == "r":
            if kind in ("scalar", "generic"):
                return v.value
            return [float(x) for x in v.values]
        if name == "rh":
            if op[1] not in self.held:
                self.held[op[1]] = v.values
            return [float(x) for x in self.held[op[1]]]
        if name == "lock":
            return v.lock()
        if name == "unlock":
            return v.unlock()
        raise ValueError(op)

    def info(self, name, region=W):
        i = self.ps.info(name, region)
        if i is None:
            return None
        t = i.parameter_type
        return (
            tuple(i.name),
            tuple(i.region),
            None if t is None else KIND_NAMES[t.name],
            i.unit,
            bool(i.empty),
        )


class Ref:
    def __init__(self, root="World"):
        self.rs = RefSet(root)
        self.slots = {}
        self.kinds = {}

    def do(self, op):
        try:
            return ("ok", self._do(op))
        except RefError as e:
            return ("err", e.names)

    def _do(self, op):
        name = op[0]
        if name == "req":
            kind, pname, region, unit, grid = op[2:7]
            extrapolation = op[8] if len(op) > 8 else "none"
            v = self.rs.request(
                kind,
                pname,
                region,
                None if kind == "generic" else unit,
                GRIDS[grid] if kind in ("point", "average") else None,
                extrapolation,
            )
            self.slots[op[1]] = v
            self.kinds[op[1]] = kind
            return None
        if name == "info":
            return self.rs.info(op[1], op[2] if len(op) > 2 else W)
        if name == "ensure":
            i = self.rs.info(op[1], op[2])
            if i is not None and i[4]:
                raise RefError("ParameterEmptyError")
            return None
        v, kind = self.slots[op[1]], self.kinds[op[1]]
        if name == "w":
            if kind in ("scalar", "generic"):
                v.set(value_for(kind, op[2], 0))
            else:
                v.write(value_for(kind, op[2], v.n()))
            return None
        if name == "e":
            if v.param.children:
                # the values are read first; either failure may be reported
                try:
                    v.values()
                except RefError as e:
                    raise RefError("ParameterReadonlyError", *e.names)
            v.update(lambda d: d.__setitem__(1, 50.5 + op[2]))
            return None
        if name in ("r", "rh"):
            return v.get() if kind in ("scalar", "generic") else v.values()
        if name == "lock":
            return v.lock()
        if name == "unlock":
            return v.unlock()
        raise ValueError(op)

    def key(self):
        return (self.rs.key(), tuple((k, self.slots[k].key()) for k in sorted(self.slots, key=str)))


def same_value(got, expected, rtol=2e-6):
    if isinstance(expected, list) and expected and isinstance(expected[0], float):
        return isinstance(got, list) and all_close(got, expected, rtol)
    if isinstance(expected, float):
        try:
            return close(got, expected, rtol, 1e-9)
        except (TypeError, ValueError):
            return False
    return got == expected


def agree(op, got, expected, log):
    """Raise a violation unless the outcomes agree."""
    if expected[0] == "err":
        names = expected[1] if isinstance(expected[1], tuple) else (expected[1],)
        if got[0] != "err":
            raise Violation(
                "{}: returned {!r}, expected {} | history: {}".format(
                    op, got[1], names, log
                )
            )
        if got[1] not in names:
            raise Violation(
                "{}: raised {}, expected {} | history: {}".format(op, got[1], names, log)
            )
    elif got[0] == "err":
        raise Violation(
            "{}: raised {}, expected {!r} | history: {}".format(
                op, got[1], expected[1], log
            )
        )
    elif not same_value(got[1], expected[1]):
        raise Violation(
            "{}: returned {!r}, expected {!r} | history: {}".format(
                op, got[1], expected[1], log
            )
        )


class Both:
    """Executes on both sides and compares the outcome of every operation."""

    def __init__(self, ctx, root="World"):
        self.ctx = ctx
        self.real = Real(ctx, root)
        self.ref = Ref(root)
        self.log = []

    def enabled(self, op):
        return op[0] in ("req", "info", "ensure") or op[1] in self.ref.slots

    def do(self, op):
        expected = self.ref.do(op)
        got = self.real.do(op)
        agree(op, got, expected, self.log)
        self.log.append(op)
        self.ctx.outcome(got[1] if got[0] == "err" else "ok")
        self.ctx.state(self.ref.key())
        return got
