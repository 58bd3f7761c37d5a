"""Regenerates properties.jsonl and MANIFEST.json from props_src.py and the checks present."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props_src
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props_src.P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              state=[dict(name=a, meaning=b, where=c) for a, b, c in (p["state"] or [])],
                              observe_at=p["observe"] or [], hook_needed=None))
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in props_src.P:
    if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")) and p["claimed"]:
        checks.append(dict(property=p["id"], quick_cmd="./check.sh %s" % p["id"],
                           thorough_cmd="./check.sh %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique=p["technique"], level=p["level"], level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["reason"] or "check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="All checks explore the real code in /repo's working tree; no hooks in /repo are needed.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
