#!/usr/bin/env python3
"""writes MANIFEST.json from checks.json and properties.jsonl"""
import json
H = "/verif"
cfg = json.load(open(f"{H}/checks.json"))
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
NA = {
 "C23": "the macro's input goes through syn 0.11/synom parser macros and rustc's token streams; contracts on those would all be assumed, so nothing would be decided",
}
LATER = "not yet under contract (work in progress; see DESIGN.md)"
checks = []
na = []
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"./check {i} --tier thorough",
            "technique": "contract-based deductive verification (Verus) of the functions extracted from /repo on every run; concrete falsification through the public API when an obligation fails",
            "level": c.get("level", "proof"),
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, LATER)})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}, open(f"{H}/MANIFEST.json", "w"), indent=1)
