"""writes properties.jsonl and MANIFEST.json from plist.py (run by hand after changing the list)"""
import json, os
import plist
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in plist.P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
        pid = p["id"]
        assert len(p["title"]) <= 80, p["title"]
        if os.path.exists(os.path.join(V, "harness", "props", pid.lower() + ".py")):
            checks.append(dict(property=pid, quick_cmd=f"./check {pid}", thorough_cmd=f"./check {pid} thorough",
                               evidence_file=f"evidence/{pid}.json", technique=p["_technique"], level="model_checking", level_note=p["_note"]))
        else:
            na.append(dict(property=pid, reason=plist.NA.get(pid, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="TLA+ with TLC; see DESIGN.md. Repository changes are fix: commits only, no hooks."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
