"""Writes MANIFEST.json from the modules that exist in harness/checks (TECHNIQUE and NOTE attributes)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(V, "harness", "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
        continue
    c = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("TECHNIQUE", "NOTE"):
            c[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({"property": p["id"], "quick_cmd": "./run.sh %s" % p["id"],
                   "thorough_cmd": "./run.sh %s --tier thorough" % p["id"],
                   "technique": "property-based testing (Hypothesis): " + c["TECHNIQUE"], "level": "exploration",
                   "level_note": c["NOTE"]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. known_findings.json lists recorded and repaired defects."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
