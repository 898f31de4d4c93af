"""Verdicts, known findings and evidence files."""
import json
import os
import time

from .build import VERIF, CheckError

EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.ob = []  # (rule, instance, ok)
        self.viol = {}  # key -> dict
        self.notes = []
        self.counts = {}
        self.rules = {}

    # -- recording
    def rule(self, name, text):
        self.rules[name] = text

    def good(self, rule, instance):
        self.ob.append((rule, instance, True))

    def bad(self, rule, key, msg, where=None):
        """key: stable identity of the violating construct (no line numbers)."""
        k = f"{rule}|{key}"
        self.ob.append((rule, key, False))
        if k not in self.viol:
            self.viol[k] = {"rule": rule, "key": k, "message": msg, "where": where}

    def check(self, cond, rule, key, msg, where=None):
        if cond:
            self.good(rule, key)
        else:
            self.bad(rule, key, msg, where)
        return cond

    def count(self, name, n):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, rule, what, n, least):
        """An analysis that found fewer instances than were confirmed by hand has lost its subject."""
        self.counts[what] = n
        if n < least:
            self.bad(rule, f"floor:{what}", f"{what}: {n} found, at least {least} expected: the construct the property rests on is gone")
        else:
            self.good(rule, f"floor:{what}")

    def note(self, s):
        self.notes.append(s)

    # -- result
    def finish(self, meta):
        known = load_known()
        listed = known.get(self.prop, {})
        out = []
        kf = []
        for k, v in sorted(self.viol.items()):
            if k in listed:
                kf.append((k, listed[k]))
            else:
                out.append(v)
        done = sum(1 for o in self.ob if o[2])
        per = {}
        for r, i, okk in self.ob:
            p = per.setdefault(r, [0, 0])
            p[0] += 1
            p[1] += okk
        if not self.ob:
            raise CheckError("no obligation was analysed")
        os.makedirs(EVID, exist_ok=True)
        inst = {}
        for r, i, okk in self.ob:
            inst.setdefault(r, [])
            if len(inst[r]) < 60 and i not in inst[r]:
                inst[r].append(i)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": meta["level"],
            "coverage": {
                "explanation": meta["explanation"],
                "obligations": len(self.ob),
                "discharged": done,
                "known_findings": len(kf),
                "rules": {r: {"text": self.rules.get(r, ""), "obligations": per[r][0], "discharged": per[r][1], "instances": inst[r]} for r in per},
                "analysed": self.counts,
                "checker_cmd": f"python3 /verif/check.py {self.prop} --tier {self.tier}",
                "trusted_base": ["rustc nightly (name resolution, types, MIR construction)", "/verif/driver (MIR to JSON)", "/verif/sa (analysis)", "the library models named in DESIGN.md"],
                "violations_found": [dict(v) for v in out],
                "notes": self.notes,
            },
            "assumptions": meta.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(out),
        }
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        for k, why in kf:
            print(f"KNOWN-FINDING: property={self.prop} {why} [{k}]")
        if out:
            rp = os.path.join(EVID, f"{self.prop}.violation.json")
            with open(rp, "w") as f:
                json.dump(out, f, indent=1)
                f.write("\n")
            for v in out:
                w = f" at {v['where']}" if v["where"] else ""
                print(f"  {v['rule']}: {v['message']}{w}  [key {v['key']}]")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        print(f"{self.prop}: {done}/{len(self.ob)} obligations discharged, {len(kf)} known finding(s), {ev['wall_s']} s")
        return 0


def load_known():
    """Lines: 'finding: property=<id> key=<exact key> :: <what fails>'; 'fixed:' lines suppress nothing."""
    r = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for ln in f:
                ln = ln.rstrip("\n")
                if ln.startswith("finding: "):
                    head, why = ln[len("finding: "):].split(" :: ", 1)
                    pid, key = head.split(" key=", 1)
                    r.setdefault(pid.removeprefix("property="), {})[key.strip()] = why
    return r
