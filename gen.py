#!/usr/bin/env python3
"""gen.py : writes properties.jsonl, checks.json and MANIFEST.json from props.py.
gen.py freeze CNN... : records the drivers a property's check is expected to analyse (from the last verdicts)."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from props import PROPS
STATEMENT = "static analysis: abstract interpretation of the compiler's MIR (relational numeric domain, quantified array facts), with per-driver proof obligations"

def drivers_of(crate, prefix):
    p = os.path.join(ROOT, "drv", crate, "drivers.txt")
    if not os.path.exists(p):
        return []
    return [l for l in open(p).read().split() if re.match(prefix + "_", l)]

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks, man, na = {}, [], []
    for p in PROPS:
        if p.get("witness"):
            checks[p["id"]] = {"parts": [], "witness": p["witness"], "rule": p["rule"], "level": p["level"], "assumptions": p["assumptions"]}
            man.append({
                "property": p["id"],
                "quick_cmd": f"python3 check.py {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                "technique": "static analysis: type-level witness crate that fails to build when a type stops being Send or Sync",
                "level": p["level"], "level_note": p["note"],
            })
            continue
        if not p["parts"]:
            na.append({"property": p["id"], "reason": p["na"] or "not claimed: its specification drivers are not finished"})
            continue
        parts = []
        for crate, prefix, floor in p["parts"]:
            ds = drivers_of(crate, prefix)
            parts.append({"crate": crate, "fns": prefix, "drivers": ds})
        checks[p["id"]] = {"parts": parts, "rule": p["rule"], "level": p["level"], "floor": sum(x[2] for x in p["parts"]), "assumptions": p["assumptions"]}
        man.append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
            "technique": STATEMENT,
            "level": p["level"],
            "level_note": p["note"] or ("Sound over-approximation of every execution of the analysed drivers for all list sizes and parameter values, floats read as reals; "
                           "alarms are raised only on a path whose abstract state is exact and has a concrete member. Trusts rustc's MIR, the analyser and its library models."),
        })
    json.dump(checks, open(os.path.join(ROOT, "checks.json"), "w"), indent=1)
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": man, "not_applicable": na,
               "notes": "One analyser (analyzer/, an abstract interpreter over monomorphised MIR), specification drivers in drv/, tables in props.py (gen.py regenerates this file)."},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    print(len(man), "claimed,", len(na), "not applicable")

main()
