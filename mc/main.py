"""Command line: ``python -m mc.main C01 ...`` or ``python -m mc.main replay FILE``."""

import ast
import importlib
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")


def load_known_findings():
    """
    Lines ``known: property=<id> key=<key> <what>``; ``fixed:`` lines suppress nothing.
    """
    res = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                _, prop, key, what = line.strip().split(" ", 3)
                res.append(
                    dict(
                        property=prop.split("=", 1)[1],
                        key=key.split("=", 1)[1],
                        what=what,
                    )
                )
    return res


def import_failed(prop, tier, seed, start):
    """The code under test cannot even be imported: nothing can hold."""
    message = traceback.format_exc()
    path = os.path.join(ROOT, "evidence", "replay", prop + "-0.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, message=message, case="import"), f, indent=1)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(
            dict(
                property=prop,
                tier=tier,
                seed=seed,
                level="model_checking",
                coverage=dict(
                    states=0,
                    transitions=0,
                    traces_validated_against_impl=0,
                    samples=["import failed"],
                ),
                wall_s=round(time.time() - start, 2),
                violations=1,
            ),
            f,
        )
    print(message)
    print("VIOLATION property={} replay={}".format(prop, path))
    return 1


def main(argv):
    start = time.time()
    sys.path.insert(0, REPO)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    from . import engine

    if argv and argv[0] == "replay":
        with open(argv[1]) as f:
            d = json.load(f)
        module = importlib.import_module("mc.checks." + d["property"].lower())
        case = ast.literal_eval(d["case_repr"])
        res = engine.run_case(module, case, engine.Ctx(d.get("tier", "quick")))
        for message, _ in res:
            print(message)
        print("reproduced" if res else "not reproduced (on its own)")
        return 1 if res else 0

    if argv == ["setup"]:
        import openscm  # noqa: F401  pylint: disable=import-outside-toplevel,unused-import

        return 0

    code = 0
    for prop in argv:
        start = time.time()
        try:
            import openscm

            if not os.path.abspath(openscm.__file__).startswith(
                os.path.abspath(REPO) + os.sep
            ):
                raise RuntimeError("openscm imported from " + openscm.__file__)
            module = importlib.import_module("mc.checks." + prop.lower())
        except Exception:  # pylint: disable=broad-except
            code |= import_failed(prop, tier, seed, start)
            continue
        code |= engine.main_check(module, tier, seed, ROOT, load_known_findings())
    return code


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
