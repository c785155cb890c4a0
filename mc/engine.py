"""
Exhaustive explorer.

A check module provides

* ``PROP``: the property id
* ``cases(tier)``: the complete, ordered list of cases (histories, inputs, fault
  positions, ...) within the stated bounds of the tier
* ``run(case, ctx)``: executes one case on the real code and on the reference model and
  raises :class:`Violation` on the first disagreement
* ``BOUNDS``/``ASSUMPTIONS``: what is enumerated and what is trusted

Every case of the list is executed (no sampling).  The list is split over forked workers
with a fixed assignment, so that a run is deterministic and the module-level state of
the code under test accumulates over the cases of one worker in the same way in each run.
"""

import collections
import json
import logging
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

NUM_WORKERS = 8
CASE_TIMEOUT = 180  # seconds; no case needs more than a few seconds
MAX_VIOLATIONS_PER_WORKER = 5


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


class CaseTimeout(Exception):
    pass


class Ctx:
    """What a worker counts and records while exploring."""

    def __init__(self, tier="quick"):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.soft = []  # violations reported without stopping the case

    def state(self, *key):
        """Count a (reference) state or input/outcome configuration that was visited."""
        self.states.add(hash(key))

    def step(self, n=1):
        """Count operations executed on the real code."""
        self.transitions += n

    def trace(self, n=1):
        """Count complete executions that were compared with the reference."""
        self.traces += n

    def outcome(self, label):
        self.outcomes[label] += 1

    def sample(self, **what):
        if len(self.samples) < 2:
            self.samples.append(what)

    def report(self, message, key=None):
        self.soft.append((message, key))


def _alarm(_signum, _frame):
    raise CaseTimeout("case did not terminate within {} s".format(CASE_TIMEOUT))


def run_case(module, case, ctx):
    """
    Run one case; returns the list of violations [(message, key), ...].
    """
    ctx.soft = []
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            module.run(case, ctx)
    except Violation as v:
        ctx.soft.append((v.message, v.key))
    except CaseTimeout as e:
        ctx.soft.append((str(e), None))
    except Exception as e:  # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(
            "{}:{}".format(os.path.basename(f.filename), f.lineno) for f in tb[-4:]
        )
        ctx.soft.append(
            ("unexpected {}: {} ({})".format(type(e).__name__, e, where), None)
        )
    finally:
        signal.alarm(0)
    return ctx.soft


def assign(index, num_workers=NUM_WORKERS):
    return ((index * 2654435761) >> 9) % num_workers


def _worker(module, cases, tier, wid, deadline, known_keys, conn):
    ctx = Ctx(tier)
    violations = []
    done = 0
    known = {}
    unknown = 0
    capped = False
    per = collections.Counter()
    try:
        for i, case in enumerate(cases):
            if assign(i) != wid:
                continue
            if time.time() > deadline:
                capped = True
                break
            for message, key in run_case(module, case, ctx):
                if key is not None and key in known_keys:
                    known.setdefault(key, (i, message))
                else:
                    unknown += 1
                    per[key] += 1
                    if per[key] <= 2:
                        violations.append((i, message, key))
            done += 1
            if unknown >= MAX_VIOLATIONS_PER_WORKER:
                break
    finally:
        conn.send(
            dict(
                states=ctx.states,
                transitions=ctx.transitions,
                traces=ctx.traces,
                outcomes=ctx.outcomes,
                samples=ctx.samples,
                violations=violations,
                known=known,
                done=done,
                capped=capped,
            )
        )
        conn.close()


def _in_child(fun, *args):
    """Run ``fun(*args)`` in a forked child and return its result (None if it died)."""
    mp = multiprocessing.get_context("fork")
    parent, child = mp.Pipe(duplex=False)

    def body():
        try:
            child.send(fun(*args))
        finally:
            child.close()

    p = mp.Process(target=body)
    p.start()
    child.close()
    try:
        res = parent.recv()
    except EOFError:
        res = None
    p.join()
    return res


def _replay_alone(module, case, tier):
    return run_case(module, case, Ctx(tier))


def _replay_worker(module, cases, tier, upto):
    """Replay everything the worker that found a violation did up to that case."""
    ctx = Ctx(tier)
    wid = assign(upto)
    for i, case in enumerate(cases):
        if i <= upto and assign(i) == wid:
            res = run_case(module, case, ctx)
            if i == upto:
                return res
    return []


def explore(module, tier, known_keys, deadline):
    """
    Execute all cases of a check.  Returns the merged result.
    """
    logging.disable(logging.CRITICAL)  # e.g. about empty filter results
    cases = list(module.cases(tier))
    mp = multiprocessing.get_context("fork")
    procs = []
    for wid in range(NUM_WORKERS):
        parent, child = mp.Pipe(duplex=False)
        p = mp.Process(
            target=_worker, args=(module, cases, tier, wid, deadline, known_keys, child)
        )
        p.start()
        child.close()
        procs.append((p, parent))
    res = dict(
        states=set(),
        transitions=0,
        traces=0,
        outcomes=collections.Counter(),
        samples=[],
        violations=[],
        known={},
        done=0,
        capped=False,
        cases=cases,
    )
    for wid, (p, conn) in enumerate(procs):
        try:
            r = conn.recv()
        except EOFError:
            r = None
        p.join()
        if r is None:
            res["violations"].append(
                (wid, "worker process died (exit code {})".format(p.exitcode), None)
            )
            continue
        res["states"] |= r["states"]
        for k in ("transitions", "traces", "done"):
            res[k] += r[k]
        res["outcomes"].update(r["outcomes"])
        res["samples"].extend(r["samples"])
        res["violations"].extend(r["violations"])
        for k, v in r["known"].items():
            if k not in res["known"] or v < res["known"][k]:
                res["known"][k] = v
        res["capped"] |= r["capped"]
    res["violations"].sort(key=lambda v: v[0])
    return res


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def main_check(module, tier, seed, root, known_findings):
    """Run a check, write evidence and report; returns the exit code."""
    start = time.time()
    prop = module.PROP
    limit = 780 if tier == "quick" else 6 * 3600
    known_keys = {k["key"]: k for k in known_findings if k["property"] == prop}
    res = explore(module, tier, set(known_keys), start + limit)
    violations = res["violations"]
    # one representative (the shortest) per finding key, at most five
    shown, seen = [], set()
    for v in violations:
        tag = v[2] if v[2] is not None else v[1][:60]
        if tag not in seen:
            seen.add(tag)
            shown.append(v)
    shown = shown[:5]
    lines = []
    for n, (index, message, key) in enumerate(shown):
        case = res["cases"][index] if index < len(res["cases"]) else None
        alone = _in_child(_replay_alone, module, case, tier)
        reproduced = "alone" if alone else None
        if not reproduced and n == 0:
            again = _in_child(_replay_worker, module, res["cases"], tier, index)
            reproduced = "after the preceding cases of its worker" if again else None
        path = os.path.join(root, "evidence", "replay", "{}-{}.json".format(prop, n))
        with open(path, "w") as f:
            json.dump(
                dict(
                    property=prop,
                    tier=tier,
                    index=index,
                    key=key,
                    message=message,
                    case=jsonable(case),
                    case_repr=repr(case),
                    reproduced=reproduced,
                    replay="./run.sh replay " + os.path.relpath(path, root),
                ),
                f,
                indent=1,
            )
        print("  case {}: {}".format(index, repr(case)[:600]))
        print("  -> {} [reproduced: {}]".format(message[:1500], reproduced))
        lines.append("VIOLATION property={} replay={}".format(prop, path))
    for key in sorted(res["known"]):
        print(
            "KNOWN-FINDING: property={} {}".format(prop, known_keys[key]["what"])
        )
    wall = time.time() - start
    bounds = module.BOUNDS[tier] if isinstance(module.BOUNDS, dict) else module.BOUNDS
    samples = res["samples"][:6]
    if res["cases"]:
        samples.append(dict(first_case=repr(res["cases"][0])[:500]))
        samples.append(dict(last_case=repr(res["cases"][-1])[:500]))
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=len(res["states"]),
            transitions=res["transitions"],
            traces_validated_against_impl=res["traces"],
            samples=jsonable(samples),
            cases=len(res["cases"]),
            cases_executed=res["done"],
            exhaustive=bool(
                not res["capped"]
                and res["done"] == len(res["cases"])
                and not violations
            ),
            distinct_outcomes=len(res["outcomes"]),
            outcomes={str(k): v for k, v in res["outcomes"].most_common(40)},
            bounds=bounds,
        ),
        assumptions=list(module.ASSUMPTIONS),
        known_findings_seen=sorted(res["known"]),
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    with open(os.path.join(root, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")
    print(
        "{} [{}] cases={}/{} states={} transitions={} traces={} outcomes={} "
        "violations={}{} wall={:.1f}s".format(
            prop,
            tier,
            res["done"],
            len(res["cases"]),
            len(res["states"]),
            res["transitions"],
            res["traces"],
            len(res["outcomes"]),
            len(violations),
            " CAPPED" if res["capped"] else "",
            wall,
        )
    )
    for line in lines:
        print(line)
    sys.stdout.flush()
    return 1 if violations else 0
