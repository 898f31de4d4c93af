#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current tree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import build  # noqa: E402
from sa.mir import Prog  # noqa: E402
from sa.report import Report  # noqa: E402


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i : i + 2]
    ids = args
    rc = 0
    for pid in ids:
        try:
            m = importlib.import_module(f"sa.checks.{pid.lower()}")
            rep = Report(pid, tier)
            prog = None
            if m.META.get("packages"):
                d = build.dump(m.META["packages"])
                prog = Prog(d, m.META["crates"])
                rep.counts["functions loaded"] = len(prog.fns)
                rep.counts["crates"] = dict(prog.crates)
            m.run(prog, rep, tier)
            r = rep.finish(m.META)
        except build.CheckError as e:
            print(f"{pid}: check could not be carried out: {e}", file=sys.stderr)
            r = 2
        rc = max(rc, r) if r != 1 else (1 if rc in (0, 1) else rc)
    return rc


if __name__ == "__main__":
    sys.exit(main())
