"""Regenerates properties.jsonl and MANIFEST.json from tools/props/*.py entries."""
import json, os, glob, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
props, na = [], []
for f in sorted(glob.glob(os.path.join(HERE, "props", "*.py"))):
    ns = {}
    exec(open(f).read(), ns)
    props += ns.get("PROPS", []); 
props.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fp:
    for p in props:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        fp.write(json.dumps(d) + "\n")
checks = []
for p in props:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]}); continue
    if not os.path.exists(os.path.join(ROOT, "ffsa", "rules", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "check not built yet"}); continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 -m ffsa {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 -m ffsa {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other", "level_note": p["note"]})
man = {"version": 1, "setup_cmd": "python3 -m compileall -q ffsa", "checks": checks, "not_applicable": na,
       "notes": "Pure static analysis over /repo's current source (AST + abstract interpretation); nothing of fastforward is imported or run. No hooks in /repo."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties", len(checks), "checks", len(na), "n/a")
