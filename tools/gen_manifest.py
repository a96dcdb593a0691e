"""Writes /verif/MANIFEST.json from the property modules in vp/props (a module's docstring, TECHNIQUE and LEVEL_NOTE)."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}

checks = []
claimed = set()
for path in sorted(glob.glob(os.path.join(ROOT, "vp", "props", "c[0-9][0-9].py"))):
    pid = os.path.basename(path)[:-3].upper()
    tree = ast.parse(open(path).read())
    const = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id in ("TECHNIQUE", "LEVEL_NOTE"):
                const[n.targets[0].id] = ast.literal_eval(n.value)
    claimed.add(pid)
    checks.append({
        "property": pid,
        "quick_cmd": f"./check.sh {pid} quick",
        "thorough_cmd": f"./check.sh {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": const["TECHNIQUE"],
        "level": "exploration",
        "level_note": const["LEVEL_NOTE"],
    })
na = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    if p["id"] not in claimed:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
