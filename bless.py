#!/usr/bin/env python3
"""Developer tool, never run by a check: freezes the contracts of the current tree after they were reviewed."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine.facts import Program
from engine.load import SPECS, REF_TAR, big, in_scope, save, spec_path
from engine.refresh import FACTS, refresh
from engine.units import Side, unit_ids
from engine import rules
from props import PROPS


def main():
    refresh(True)
    P = Program(FACTS)
    U = unit_ids(P)
    s = Side(P, U)
    done = set()
    for p in PROPS:
        ids = sorted(u for u in U if in_scope(p, P.fns[u]))
        out = {}
        for u in ids:
            c = s.contract(u)
            c = json.loads(json.dumps(c))
            c["where"] = {}
            c["file"] = P.fns[u].file
            c["open"] = 1 if (P.fns[u].pub or P.fns[u].ti) else 0
            out[u] = c
        save(spec_path(p["id"]), out)
        done |= set(ids)
        print(p["id"], len(ids))
    with open(os.path.join(SPECS, "units.json"), "w") as fh:
        json.dump(sorted(U), fh, indent=0)
    for name, f in sorted(rules.FREEZE.items()):
        with open(os.path.join(SPECS, name + ".json"), "w") as fh:
            json.dump(f(P), fh, indent=0, sort_keys=True)
            fh.write("\n")
    print("in no property:", sorted(U - done))
    subprocess.run("tar --sort=name --mtime=@0 --owner=0 --group=0 -cJf %s -C %s ." % (REF_TAR, FACTS), shell=True, check=True)


big(main)
