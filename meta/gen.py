#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        a = {"files": p["files"], "mechanism": p["mech"]}
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
na = dict(NA)
m = {"version": 1, "setup_cmd": "make -s -C tool OUT=/verif/build && python3 -m engine.extract",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]} for p in PROPS if p["id"] not in na],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA],
     "hooks": {"guard": "", "enable": "", "source_commits": []},
     "notes": "All checks parse /repo's current working tree with clang (tool/xtract.cpp) and decide their rules on it; nothing of Udopia/candy-kingdom is executed. Facts are cached in build/ under a hash of all sources."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), sc)
    print("valid:", len(m["checks"]), "checks,", len(NA), "not applicable")
except ImportError: print("jsonschema not available")
