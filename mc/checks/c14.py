"""C14: running and stepping are equivalent, repeatable and isolated."""

import itertools

import numpy as np

from .. import dice_ref
from ..dice_ref import DEFAULTS, OUTPUTS, STANDARD, YEAR
from ..engine import Violation
from ..util import all_close, seconds, sequences, to64

PROP = "C14"
ASSUMPTIONS = [
    "the DICE reference of C13",
    "what steps return after inputs changed since the last reset is only specified again after the next reset or run (the model time is)",
]
BOUNDS = {
    "quick": "DICE with 4 time points: all histories of <= 4 operations (run, reset, step, change of equilibrium climate sensitivity / b12 / emissions, reading, replacing the model on the same sets) and of 5 starting with run or reset; two models (separate, shared inputs): all interleavings of <= 4 of run/reset/step on each and a parameter change; two models on one output set; 3, 9 and 25 time points: every number of steps, 5 changes, then a run or all steps; failing runs (missing time, missing emissions, step beyond the end) at every position of <= 3",
    "thorough": "histories of 6 and interleavings of 5; 60 time points",
}

START = seconds(2010)
N = 4
STOP = START + (N - 1) * YEAR

OPS = ("run", "reset", "step", "ecs", "b12", "emissions", "read", "renew")
TWO = ("run0", "reset0", "step0", "run1", "reset1", "step1", "ecs0")
FAULTS = ("run", "reset", "step", "drop", "give")
GRID = ("run", "longer", "shorter", "later", "finer")

ECS = (2.9, 4.5, 1.5)
B12 = (0.0181, 0.05)
PATHS = (lambda i: 10.0 + i, lambda i: 3.0 - 2.0 * i, lambda i: 500.0 * (i % 2))


def cases(tier):
    deep = 5 if tier == "quick" else 6
    for n in range(1, deep + 1):
        for h in sequences(OPS, n):
            if n == 5 and tier == "quick" and h[0] not in ("run", "reset"):
                continue
            if n > 1 and any(a == b == "read" for a, b in zip(h, h[1:])):
                continue
            if h[-1] not in ("run", "reset", "step") and n > 1:
                # the last operation matters only if it computes something; inputs and
                # outputs are compared at the end of every history
                continue
            yield ("one", h)
    two = 4 if tier == "quick" else 5
    for shared in ("separate", "inputs"):
        for n in range(2, two + 1):
            for h in sequences(TWO, n):
                if h[0].endswith("1") or not any(o.endswith("1") for o in h):
                    continue
                yield ("two", shared, h)
    for h in sequences(("run0", "run1", "ecs0"), 3):
        yield ("sharedoutput", h)
    for n in (3, 9, 25) + ((60,) if tier == "thorough" else ()):
        for k in range(n + 1):
            for change in ("none", "ecs", "b12", "emissions", "renew"):
                for again in ("run", "reset"):
                    yield ("long", n, k, change, again)
    for n in range(1, 4):
        for h in sequences(FAULTS, n):
            for missing in ("Start Time", "Stop Time", "emissions"):
                yield ("fault", missing, h)
    for n in range(2, 4):
        for h in sequences(GRID, n):
            if h[0] == "run" and h[-1] == "run":
                yield ("grid", h)


class Model:
    """One DICE model and the reference of what it must show."""

    def __init__(self, ctx, inputs=None, output=None, stop=None, n=N):
        from openscm.core import OpenSCM

        self.ctx = ctx
        self.n = n
        self.stop = START + (n - 1) * YEAR
        if stop is None:
            stop = self.stop
        self.scm = OpenSCM("DICE", inputs, output)
        self.ecs = self.b12 = self.path = 0
        self.timestep = None  # None: not reset yet
        self.known = None  # expected outputs up to the time step, None: unspecified
        self.stale = False
        if inputs is None:
            self.scm.parameters.generic("Start Time").value = np.datetime64(START, "s")
            self.scm.parameters.generic("Stop Time").value = np.datetime64(stop, "s")
            self.write_emissions()

    def inputs(self):
        return dict(t2xco2=ECS[self.ecs % 3], b12=B12[self.b12 % 2])

    def compute(self, steps):
        return dice_ref.model(PATHS[self.path % 3], START, self.stop, steps=steps, **self.inputs())

    def emission_view(self):
        return self.scm.parameters.timeseries(
            ("Emissions", "CO2"), "GtC/a", to64([START + i * YEAR for i in range(self.n + 1)]), timeseries_type="average"
        )

    def write_emissions(self):
        self.emission_view().values = np.array([PATHS[self.path % 3](i) for i in range(self.n)])

    def touch(self):
        self.stale = True

    def op(self, op):
        self.ctx.step()
        if op == "run":
            self.scm.run()
            self.timestep, self.stale = self.n - 1, False
            self.known = self.compute(self.n - 1)
        elif op == "reset":
            self.scm.reset_stepping()
            self.timestep, self.stale = 0, False
            self.known = self.compute(0)
        elif op == "step":
            if self.timestep is None:
                return  # before the first reset: not specified
            if self.timestep >= self.n - 1:
                try:
                    self.scm.step()
                except IndexError:
                    self.ctx.outcome("step beyond the end refused")
                else:
                    raise Violation("step beyond the end did not fail")
                self.timestep = None
                self.known = None
                return
            time = self.scm.step()
            self.timestep += 1
            if np.datetime64(time, "s").astype("int64") != START + self.timestep * YEAR:
                raise Violation("step {} returned {}".format(self.timestep, time))
            self.known = None if self.stale or self.known is None else self.compute(self.timestep)
        elif op == "ecs":
            self.ecs += 1
            self.scm.parameters.scalar(STANDARD["t2xco2"], "delta_degC").value = ECS[self.ecs % 3]
            self.touch()
        elif op == "b12":
            self.b12 += 1
            self.scm.parameters.scalar(("DICE", "b12"), "").value = B12[self.b12 % 2]
            self.touch()
        elif op == "emissions":
            self.path += 1
            self.write_emissions()
            self.touch()
        elif op == "read":
            self.check_outputs()
        elif op == "renew":
            from openscm.core import OpenSCM

            self.scm = OpenSCM("DICE", self.scm.parameters, self.scm.output)
            self.timestep = None
        self.ctx.outcome(op)

    def check_outputs(self):
        if self.known is None:
            return
        for name, (full, unit, kind) in OUTPUTS.items():
            exp = self.known[name]
            grid = to64([START + i * YEAR for i in range(self.n + (kind == "average"))])
            got = self.scm.output.timeseries(full, unit, grid, timeseries_type=kind).values
            if not all_close(list(got)[: len(exp)], exp, 1e-8):
                raise Violation("{}: {}, expected {}".format(name, list(got), exp))

    def check_inputs(self):
        p = self.scm.parameters
        got = list(self.emission_view().values)
        if not all_close(got, [PATHS[self.path % 3](i) for i in range(self.n)]):
            raise Violation("emissions are {}".format(got))
        if p.generic("Start Time").value != np.datetime64(START, "s"):
            raise Violation("start time is {}".format(p.generic("Start Time").value))
        if p.generic("Stop Time").value != np.datetime64(self.stop, "s"):
            raise Violation("stop time is {}".format(p.generic("Stop Time").value))
        if self.timestep is None and self.known is None:
            # the adapter may not have set defaults
            return
        for name, (value, unit) in DEFAULTS.items():
            got = p.scalar(STANDARD.get(name, ("DICE", name)), unit).value
            if got != self.inputs().get(name, value):
                raise Violation("input {} is {} after the history".format(name, got))


def run(case, ctx):
    ctx.trace()
    ctx.state(case)
    kind = case[0]
    if kind == "one":
        m = Model(ctx)
        for op in case[1]:
            m.op(op)
        m.check_outputs()
        m.check_inputs()
    elif kind == "two":
        _, shared, h = case
        a = Model(ctx)
        if shared == "inputs":
            b = Model(ctx, a.scm.parameters)
        else:
            b = Model(ctx)
        models = (a, b)
        for op in h:
            m = models[int(op[-1])]
            m.op(op[:-1])
            if op == "ecs0" and shared == "inputs":
                b.ecs += 1
                b.touch()
        for m in models:
            m.check_outputs()
            m.check_inputs()
        if (a.scm.parameters is b.scm.parameters) != (shared == "inputs") or a.scm.output is b.scm.output:
            raise Violation("parameter sets are shared")
    elif kind == "sharedoutput":
        a = Model(ctx)
        b = Model(ctx, None, a.scm.output)
        b.op("emissions")
        last = None
        for op in case[1]:
            m = (a, b)[int(op[-1])]
            m.op(op[:-1])
            if op.startswith("run"):
                last = m
        if last is not None:
            last.check_outputs()
        a.check_inputs()
        b.check_inputs()
    elif kind == "long":
        # k steps (k = n: one too many), a change, and everything once more
        _, n, k, change, again = case
        m = Model(ctx, n=n)
        m.op("reset")
        for _ in range(k):
            m.op("step")
        if k < n:
            m.check_outputs()
            m.check_inputs()
        if change != "none":
            m.op(change)
        m.op(again)
        m.check_outputs()
        if again == "reset":
            for _ in range(n - 1):
                m.op("step")
        m.check_outputs()
        m.check_inputs()
    elif kind == "fault":
        fault(case, ctx)
    else:
        grid(case, ctx)


def fault(case, ctx):
    """Runs with missing inputs fail; once they are given, all is well again."""
    from openscm.core import OpenSCM

    _, missing, h = case
    scm = OpenSCM("DICE")
    ref = Model(ctx)  # provides the expectations
    given = {"Start Time": False, "Stop Time": False, "emissions": False}

    def give(what):
        given[what] = True
        if what == "emissions":
            scm.parameters.timeseries(
                ("Emissions", "CO2"), "GtC/a", to64([START + i * YEAR for i in range(N + 1)]), timeseries_type="average"
            ).values = np.array([PATHS[0](i) for i in range(N)])
        else:
            scm.parameters.generic(what).value = np.datetime64(START if what == "Start Time" else STOP, "s")

    for what in given:
        if what != missing:
            give(what)
    active = False
    step = 0
    for op in h + ("give", "run", "reset", "step"):
        ctx.step()
        complete = all(given.values())
        if op == "give":
            if not given[missing]:
                give(missing)
        elif op == "drop":
            scm = OpenSCM("DICE", scm.parameters, scm.output)
            active = False
        elif op in ("run", "reset"):
            fun = scm.run if op == "run" else scm.reset_stepping
            expect_failure = not complete and (missing != "emissions" or op == "run")
            try:
                fun()
            except Exception as e:  # pylint: disable=broad-except
                if not expect_failure or type(e).__name__ != "ParameterEmptyError":
                    raise Violation("{} with {}: {!r}".format(op, given, e))
                ctx.outcome("failed " + op)
                active = False
                continue
            if expect_failure:
                raise Violation("{} without {} succeeded".format(op, missing))
            active, step = True, N - 1 if op == "run" else 0
        elif op == "step":
            if not active or step >= N - 1:
                continue
            try:
                scm.step()
            except Exception as e:  # pylint: disable=broad-except
                if given["emissions"] or type(e).__name__ != "ParameterEmptyError":
                    raise Violation("step with {}: {!r}".format(given, e))
                active = False
                ctx.outcome("failed step")
                continue
            step += 1
        if active and all(given.values()):
            ref.scm = scm
            ref.known = ref.compute(step)
            ref.check_outputs()
    ref.scm = scm
    ref.timestep = step
    ref.check_inputs()


def grid(case, ctx):
    """Changing the time settings between runs."""
    h = case[1]
    start, n, period = START, N, YEAR
    m = Model(ctx, stop=START + (2 * N) * YEAR)
    wide = to64([START + i * YEAR for i in range(-2, 3 * N)])
    m.scm = None
    from openscm.core import OpenSCM

    scm = OpenSCM("DICE")
    scm.parameters.timeseries(("Emissions", "CO2"), "GtC/a", wide, timeseries_type="average").values = np.full(len(wide) - 1, 10.0)
    changes = []
    for op in ("first",) + h:
        ctx.step()
        if op == "longer":
            n += 2
        elif op == "shorter":
            n -= 1
        elif op == "later":
            start += period
        elif op == "finer":
            period //= 5
            n = (n - 1) * 5 + 1
        if op == "run":
            what = "after run and {}".format("+".join(changes) or "no change")
            try:
                scm.run()
                stop = start + (n - 1) * period
                exp = dice_ref.model(lambda i: 10.0, start, stop, period)
                for name, (full, unit, kind) in OUTPUTS.items():
                    g = to64([start + i * period for i in range(n + (kind == "average"))])
                    got = scm.output.timeseries(full, unit, g, timeseries_type=kind).values
                    if not all_close(list(got), exp[name], 1e-8):
                        raise Violation("{}: {}, expected {}".format(name, list(got), exp[name]))
            except Exception as e:  # pylint: disable=broad-except
                if not changes:
                    raise
                raise Violation(
                    "run on an output set written by a run with other time settings, {}: {!r}".format(what, e),
                    key="rerun-other-time-settings/" + type(e).__name__,
                )
            ctx.outcome("rerun ok")
        else:
            if op != "first":
                changes.append(op)
            scm.parameters.generic("Start Time").value = np.datetime64(start, "s")
            scm.parameters.generic("Stop Time").value = np.datetime64(start + (n - 1) * period, "s")
            scm.parameters.generic(("DICE", "period_length")).value = np.timedelta64(period, "s")
