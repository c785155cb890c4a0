"""C15: adapter lifecycle hooks are called in the documented order."""

import gc
import itertools
import sys

import numpy as np

from ..engine import Violation, _in_child
from ..util import sequences

PROP = "C15"
ASSUMPTIONS = [
    "a recording adapter stands in for the class openscm.adapters.dice.DICE, so that it is created through OpenSCM like any other",
    "what a step without a preceding successful reset does is not specified",
]
BOUNDS = {
    "quick": "all histories of <= 5 operations (run, reset, step) on one adapter with no fault, and every single and double fault at any of its hook calls (3 exception types) for histories of <= 4; all interleavings of <= 5 operations on two adapters with every single fault for <= 3; direct use of the base class: all histories of <= 5 of its 5 methods; missing start time; all histories of <= 4 loads (known, unknown, module missing)",
    "thorough": "histories of 7, double faults for 5, triple faults for 3, interleavings of 6, loads of 5",
}

OPS = ("run", "reset", "step")
TWO = ("run0", "reset0", "step0", "run1", "reset1", "step1", "drop0")
DIRECT = ("initialize_model_input", "initialize_run_parameters", "reset", "run", "step")


class Fault(Exception):
    pass


class HardFault(BaseException):
    pass


FAULTS = (Fault, HardFault, StopIteration)
LOADS = ("DICE", "blocked", "nosuch", "dice", "")


class Recorder:
    """Log of hook calls and plan of faults."""

    log = []
    faults = {}
    last = None
    next = (0, 1)  # identity and time step of the next adapter

    @classmethod
    def start(cls, faults=()):
        cls.log = []
        cls.faults = dict(faults)
        cls.last = None

    @classmethod
    def hook(cls, adapter, name):
        n = len(cls.log)
        cls.log.append((adapter.ident, name))
        if n in cls.faults:
            cls.last = FAULTS[cls.faults[n]](name)
            raise cls.last


def recording_class():
    import openscm.adapters.dice as dice
    from openscm.adapters import Adapter

    if getattr(dice.DICE, "recording", False):
        return dice.DICE

    class Recording(Adapter):
        recording = True

        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self.ident, self.tick = Recorder.next

        def _initialize_model(self):
            Recorder.hook(self, "model")

        def _initialize_model_input(self):
            Recorder.hook(self, "input")

        def _initialize_run_parameters(self):
            Recorder.hook(self, "runparameters")

        def _reset(self):
            Recorder.hook(self, "reset")

        def _run(self):
            Recorder.hook(self, "run")

        def _step(self):
            Recorder.hook(self, "step")
            self._current_time = self._current_time + self.tick

        def _shutdown(self):
            Recorder.log.append((self.ident, "shutdown"))

    dice.DICE = Recording
    return Recording


class Reference:
    """The documented lifecycle of one adapter."""

    def __init__(self, ident, start=None, tick=None):
        self.ident = ident
        self.initialized = False
        self.ready = False
        self.start = start
        self.tick = tick
        self.time = None

    def hooks(self, op):
        model = [] if self.initialized else ["model"]
        return {
            "run": model + ["input", "runparameters", "reset", "run"],
            "reset": model + ["input", "runparameters", "reset"],
            "step": ["step"],
        }[op]

    def expect(self, op, log, faults):
        """Append what must be logged; returns the fault expected or None."""
        for h in self.hooks(op):
            n = len(log)
            log.append((self.ident, h))
            if n in faults:
                if h in ("input", "runparameters", "reset"):
                    self.ready = False
                return FAULTS[faults[n]]
            if h == "model":
                self.initialized = True
            elif h == "reset":
                self.ready = True
                self.time = self.start
            elif h == "step":
                self.time = self.time + self.tick
        return None


def longest(h):
    """Upper bound for the number of hook calls of a history."""
    return sum({"run": 5, "reset": 4, "step": 1, "drop": 0}[o.rstrip("01")] for o in h)


def cases(tier):
    deep = tier == "thorough"
    for n in range(1, 8 if deep else 6):
        for h in sequences(OPS, n):
            yield ("one", h, ())
    for n in range(1, 6 if deep else 5):
        for h in sequences(OPS, n):
            for i in range(longest(h)):
                for k in range(len(FAULTS)):
                    yield ("one", h, ((i, k),))
                for j in range(i + 1, longest(h)):
                    yield ("one", h, ((i, 0), (j, 0)))
                    if deep and n <= 3:
                        for l in range(j + 1, longest(h)):
                            yield ("one", h, ((i, 0), (j, 0), (l, 0)))
    for n in range(2, 7 if deep else 6):
        for h in sequences(TWO, n):
            if h[0].endswith("1") or not any(o.endswith("1") for o in h):
                continue
            yield ("two", h, ())
            if n <= 3:
                for i in range(longest(h)):
                    yield ("two", h, ((i, 0),))
    for n in range(1, 6):
        for h in sequences(DIRECT, n):
            yield ("direct", h)
    for h in sequences(OPS, 3):
        for give in range(4):
            yield ("nostart", h, give)
    for n in range(1, 6 if deep else 5):
        for h in sequences(range(len(LOADS)), n):
            yield ("load", h)


STARTS = (
    (20, 1),
    (np.datetime64("2010-01-01"), np.timedelta64(365, "D")),
    (np.datetime64("1850-03-04T05:06:07"), np.timedelta64(3600, "s")),
    (1850.5, 0.25),
)


def new_model(ident, start):
    from openscm.core import OpenSCM

    recording_class()
    Recorder.next = (ident, start[1])
    scm = OpenSCM("DICE")
    if start[0] is not None:
        scm.parameters.generic("Start Time").value = start[0]
    return scm


def call(fun):
    """(result, exception)"""
    try:
        return fun(), None
    except (Fault, HardFault, StopIteration) as e:
        return None, e


def run(case, ctx):
    ctx.trace()
    ctx.state(case)
    if case[0] in ("one", "two"):
        lifecycle(case, ctx)
    elif case[0] == "direct":
        direct(case, ctx)
    elif case[0] == "nostart":
        nostart(case, ctx)
    else:
        message = _in_child(load, case[1])
        ctx.step(len(case[1]))
        ctx.outcome("load history")
        if message != "ok":
            raise Violation("loading {}: {}".format([LOADS[i] for i in case[1]], message))


def collect(expected):
    if Recorder.log != expected:
        gc.collect()  # dropped objects may be part of reference cycles


def lifecycle(case, ctx):
    _, h, faults = case
    start = STARTS[len(h) % len(STARTS)]
    Recorder.start(faults)
    number = 2 if case[0] == "two" else 1
    models = [new_model(i, start) for i in range(number)]
    if Recorder.log:
        raise Violation("creating a model already calls {}".format(Recorder.log))
    refs = [Reference(i, *start) for i in range(number)]
    expected = []
    faults = dict(faults)
    for op in h:
        ident = int(op[-1]) if number == 2 else 0
        op = op.rstrip("01")
        m, ref = models[ident], refs[ident]
        if op == "drop":
            m = models[ident] = None
            expected.append((ident, "shutdown"))
            collect(expected)
            models[ident] = new_model(ident, start)
            refs[ident] = Reference(ident, *start)
        else:
            if op == "step" and not ref.ready:
                m = None
                continue
            ctx.step()
            fault = ref.expect(op, expected, faults)
            fun = {"run": m.run, "reset": m.reset_stepping, "step": m.step}[op]
            result, exc = call(fun)
            if fault is None and exc is not None:
                raise Violation("{} raised {!r}".format(op, exc))
            if fault is not None:
                if exc is not Recorder.last or not isinstance(exc, fault):
                    raise Violation("fault {} in {} gave {!r}".format(fault.__name__, op, exc))
                ctx.outcome("fault in " + Recorder.log[-1][1])
                exc = None
                Recorder.last = None
            elif op == "step" and result != ref.time:
                raise Violation("step returned {!r}, expected {!r}".format(result, ref.time))
            else:
                ctx.outcome(op)
        m = fun = None
        if Recorder.log != expected:
            raise Violation(
                "after {}: hooks {}, expected {}".format(op, Recorder.log, expected)
            )
    for i in range(number):
        models[i] = None
        expected.append((i, "shutdown"))
        collect(expected)
        if Recorder.log != expected:
            raise Violation("dropped: hooks {}, expected {}".format(Recorder.log, expected))


def direct(case, ctx):
    from openscm.core.parameterset import ParameterSet

    cls = recording_class()
    Recorder.start()
    inputs, outputs = ParameterSet(), ParameterSet()
    inputs.generic("Start Time").value = 20
    Recorder.next = (0, 3)
    adapter = cls(inputs, outputs)
    expected = []
    initialized, time = False, None
    names = {"initialize_model_input": "input", "initialize_run_parameters": "runparameters"}
    for op in case[1]:
        if op == "step" and time is None:
            continue
        ctx.step()
        result = getattr(adapter, op)()
        if op in names and not initialized:
            expected.append((0, "model"))
            initialized = True
        expected.append((0, names.get(op, op)))
        if op == "reset":
            time = 20
        elif op == "step":
            time += 3
            if result != time:
                raise Violation("step returned {!r}, expected {}".format(result, time))
        if Recorder.log != expected:
            raise Violation("{}: hooks {}, expected {}".format(op, Recorder.log, expected))
    del adapter
    collect(expected + [(0, "shutdown")])
    if Recorder.log != expected + [(0, "shutdown")]:
        raise Violation("dropped: hooks {}".format(Recorder.log))
    ctx.outcome("direct")


def nostart(case, ctx):
    """The start time is missing until it is given before operation number ``give``."""
    _, h, give = case
    Recorder.start()
    m = new_model(0, (None, 1))
    ready, time, initialized = False, None, False
    for i, op in enumerate(h):
        if i == give:
            m.parameters.generic("Start Time").value = 7
        before = list(Recorder.log)
        ctx.step()
        if op == "step":
            if not ready:
                continue
            time += 1
            if m.step() != time:
                raise Violation("step time after a missing start time")
            continue
        try:
            (m.run if op == "run" else m.reset_stepping)()
        except Exception as e:  # pylint: disable=broad-except
            if type(e).__name__ != "ParameterEmptyError" or i >= give:
                raise Violation("{}: {!r}".format(op, e))
            if (0, "reset") in Recorder.log[len(before):] or (0, "run") in Recorder.log[len(before):]:
                raise Violation("hooks {} although the start time is missing".format(Recorder.log))
            ctx.outcome("no start time")
        else:
            if i < give:
                raise Violation("{} without a start time succeeded".format(op))
            ready, time = True, 7
            new = [n for _, n in Recorder.log[len(before):]]
            exp = ["input", "runparameters", "reset"] + (["run"] if op == "run" else [])
            if not initialized and (0, "model") not in before:
                exp = ["model"] + exp
            if new != exp:
                raise Violation("hooks {}, expected {}".format(new, exp))
        initialized = (0, "model") in Recorder.log
    if Recorder.log.count((0, "model")) > 1:
        raise Violation("initialised more than once: {}".format(Recorder.log))


def load(h):
    """In a process of its own, with newly imported modules."""
    for name in [m for m in sys.modules if m.startswith("openscm.adapters") or m == "openscm.core"]:
        del sys.modules[name]
    from openscm.adapters import Adapter, load_adapter
    from openscm.core import OpenSCM
    from openscm.errors import AdapterNeedsModuleError

    loaded = None
    for i in h:
        name = LOADS[i]
        if name == "blocked":
            keep = sys.modules.get("openscm.adapters.dice")
            sys.modules["openscm.adapters.dice"] = None
            try:
                cls = load_adapter("DICE")
            except AdapterNeedsModuleError:
                if loaded is not None:
                    return "module needed again after it was loaded"
            except Exception as e:  # pylint: disable=broad-except
                return "missing module: {!r}".format(e)
            else:
                if cls is not loaded:
                    return "loaded {} without its module".format(cls)
            finally:
                if keep is None:
                    del sys.modules["openscm.adapters.dice"]
                else:
                    sys.modules["openscm.adapters.dice"] = keep
        elif name == "DICE":
            cls = load_adapter(name)
            if not issubclass(cls, Adapter) or cls.__name__ != "DICE" or loaded not in (None, cls):
                return "DICE loaded as {}".format(cls)
            loaded = cls
            if OpenSCM(name).model != "DICE":
                return "wrong model name"
        else:
            for fun in (load_adapter, OpenSCM):
                try:
                    got = fun(name)
                except KeyError:
                    continue
                except Exception as e:  # pylint: disable=broad-except
                    return "{!r}: {!r}".format(name, e)
                return "{!r} loaded {}".format(name, got)
    return "ok"
