#!/usr/bin/env python3
"""Developer tool: writes properties.jsonl and MANIFEST.json from props.py (the one place where properties are stated)."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
from engine import rules

TECH = "static dependence (data and control flow) analysis of MIR against reviewed per-function contracts"
NOTE = ("Decides, for every function in scope and on all its paths at once, which inputs, conditions and variants each reported error, built "
        "value, call and result may and must depend on, and compares that with contracts frozen after review; %s"
        "Does not decide values computed from the right inputs by the right calls with wrong literals inside external crates, nor order of "
        "independent effects outside the listed rules. Trusts rustc's MIR, the listed models of std and external crates.")


def main():
    with open("properties.jsonl", "w") as fh:
        for p in PROPS + NA:
            assert len(p["title"]) <= 80, p["id"]
            assert len(re.findall(r"\.(\s|$)", p["statement"])) <= 3, p["id"]
            files = p.get("files") or sorted({m[1] for m in p["mech"]})
            fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                                 "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                             "hook_needed": None}}) + "\n")
    checks = []
    for p in PROPS:
        rt = [rules.TITLES[r] for r in p["rules"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": (TECH if p["scope"] else "static MIR rule") + ("".join("; " + t for t in rt)),
                       "level": "other",
                       "level_note": NOTE % (("in addition it decides: " + "; ".join(rt) + ". ") if rt else "")})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
         "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in NA],
         "notes": "All checks share one fact extraction (a rustc driver run under cargo +nightly check) which is refreshed incrementally "
                  "from /repo's working tree on every run and verified against the hashes of its source files."}
    with open("MANIFEST.json", "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
