#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (tools/props.py)"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from props import PROPS, NA, TECH
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
claimed = [p for p in PROPS if p["id"] not in NA]
man = dict(version=1, setup_cmd="python3 tools/setup.py",
           checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                        technique=TECH, level="proof", level_note=p["note"]) for p in claimed],
           not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
           notes="PyVC (pyvc/) verifies the contracts in contracts/ on the source of /repo/irtorch as found on every run; see DESIGN.md.")
with open(os.path.join(H, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1)
try:
    import jsonschema
    S = lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
    for l in open(os.path.join(H, "properties.jsonl")): jsonschema.validate(json.loads(l), S("PROPERTIES"))
    jsonschema.validate(man, S("MANIFEST"))
    print("schemas ok", len(claimed), "claimed")
except ImportError: print("no jsonschema")
