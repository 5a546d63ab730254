"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P + props.NOT:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p.get("observe"):
            a["observe_at"] = p["observe"]
        a["hook_needed"] = p.get("hook")
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
TECH = "TLA+ specification: exhaustive TLC model with every transition replayed into the code, and trace validation of recorded histories with TLC"
NOTE = "exhaustive within the small bounds of the models, sampled beyond them; the code is judged on the histories that were run"
m = {"version": 1, "setup_cmd": "cd harness && cargo build --offline --target-dir ../target",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                 "technique": p["tech"] or TECH, "level": p["level"], "level_note": p["note"] or NOTE} for p in props.P],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.NOT]}
if props.HOOKS:
    m["hooks"] = props.HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for p in props.P:
    assert len(p["title"]) <= 80, p["title"]
    for x in p["files"]:
        assert os.path.exists(os.path.join("/repo", x)), x
