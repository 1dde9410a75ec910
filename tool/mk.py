import importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("props", os.path.join(V, "policy", "props.py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in m.P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}
        if p["state"]: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        if p["observe"]: d["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
na = dict(m.NA)
man = {"version": 1, "setup_cmd": "python3 -m elcheck setup",
       "checks": [{"property": p["id"], "quick_cmd": "python3 -m elcheck %s --tier=quick" % p["id"],
                   "thorough_cmd": "python3 -m elcheck %s --tier=thorough" % p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in m.P if p["id"] not in na],
       "not_applicable": [{"property": a, "reason": b} for a, b in m.NA],
       "notes": "All checks are static analyses of /repo's current sources; see DESIGN.md."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m.P), "properties,", len(man["checks"]), "claimed")
