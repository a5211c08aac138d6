"""Regenerates /verif/MANIFEST.json from the check modules present."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for f in sorted(glob.glob(os.path.join(V, "checks", "c[0-9][0-9].py"))):
    vals = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("ID", "TECHNIQUE", "LEVEL_NOTE"):
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    i = vals["ID"]
    checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": vals["TECHNIQUE"], "level": "exploration",
                   "level_note": vals.get("LEVEL_NOTE", "Held on the executions listed in the evidence file; says nothing about inputs not run.")})
claimed = {c["property"] for c in checks}
missing = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if json.loads(l)["id"] not in claimed]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in missing],
     "notes": "No hooks in /repo: every monitor observes the public interface from outside (pure Python, one process image per worker)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), missing)
