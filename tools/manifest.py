"""Writes MANIFEST.json from properties.jsonl and the check modules present."""

import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get("MC_REPO", "/repo"))

DEFAULT = "explicit-state model checking: exhaustive bounded enumeration on the real code, compared step by step with a reference model"


def main():
    checks, missing = [], []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        prop = json.loads(line)["id"]
        if not os.path.exists(os.path.join(ROOT, "mc", "checks", prop.lower() + ".py")):
            missing.append(dict(property=prop, reason="check not built yet"))
            continue
        m = importlib.import_module("mc.checks." + prop.lower())
        bounds = m.BOUNDS["quick"] if isinstance(m.BOUNDS, dict) else m.BOUNDS
        checks.append(
            dict(
                property=prop,
                quick_cmd="./run.sh " + prop,
                thorough_cmd="VERIF_TIER=thorough ./run.sh " + prop,
                evidence_file="evidence/{}.json".format(prop),
                technique=getattr(m, "TECHNIQUE", DEFAULT),
                level="model_checking",
                level_note="Within the bounds (quick): {}. Assumes/trusts: {}".format(
                    bounds, "; ".join(m.ASSUMPTIONS) or "the reference model in mc/."
                ),
            )
        )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(
            dict(
                version=1,
                setup_cmd="./run.sh setup",
                checks=checks,
                not_applicable=missing,
                notes="Generated by tools/manifest.py. No hooks are needed in /repo: the checks drive its public interface.",
            ),
            f,
            indent=1,
        )
        f.write("\n")


if __name__ == "__main__":
    main()
