#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json. A property is claimed when sa/checks/<id>.py exists."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.props import NA, PROPS  # noqa: E402


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        assert p["statement"].count(". ") <= 2, i
        path = os.path.join(V, "sa", "checks", i.lower() + ".py")
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif os.path.exists(path):
            m = importlib.import_module(f"sa.checks.{i.lower()}")
            checks.append(
                {
                    "property": i,
                    "quick_cmd": f"python3 check.py {i} --tier quick",
                    "thorough_cmd": f"python3 check.py {i} --tier thorough",
                    "technique": m.META["technique"],
                    "level": m.META["level"],
                    "level_note": m.META["level_note"],
                }
            )
        else:
            na.append({"property": i, "reason": "No check has been built for this property yet."})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(
            {
                "version": 1,
                "setup_cmd": "python3 tools/setup.py",
                "checks": checks,
                "not_applicable": na,
                "notes": "Every check is 'python3 check.py <id>': it dumps the type-checked MIR of the crates it needs from /repo's current tree (driver/) and decides the property on that (sa/). No hooks in /repo are needed.",
            },
            f,
            indent=1,
            ensure_ascii=False,
        )
        f.write("\n")
    print(len(PROPS), "properties,", len(checks), "claimed")


if __name__ == "__main__":
    main()
