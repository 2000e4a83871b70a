#!/usr/bin/env python3
"""gen.py: writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = runpy.run_path(os.path.join(V, "tools/props.py"))["P"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None},
        }) + "\n")
cl = [p for p in sorted(P, key=lambda p: p["id"]) if p["claimed"]]
ids = " ".join(p["id"] for p in cl)
M = {"version": 1,
     "setup_cmd": "for p in %s; do BUILD_ONLY=1 ./check.sh $p || exit 1; done" % ids,
     "checks": [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in cl],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]]}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
