"""Write MANIFEST.json from the check modules present in mc/checks (no import of thinc needed)."""
import ast, json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = V / "mc" / "checks" / f"{pid.lower()}.py"
    if not f.exists():
        na.append({"property": pid, "reason": "no check built yet"})
        continue
    consts = {}
    for node in ast.parse(f.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("LEVEL", "TECHNIQUE", "NOTE"):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({"property": pid, "quick_cmd": f"./check {pid} --tier quick", "thorough_cmd": f"./check {pid} --tier thorough",
                   "technique": consts["TECHNIQUE"], "level": consts["LEVEL"], "level_note": consts["NOTE"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks run the real code of /repo's working tree (extension modules are rebuilt in a scratch copy when the tree's own build is not current). No hooks in /repo are needed."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
