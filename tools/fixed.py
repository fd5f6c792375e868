"""tools/fixed.py PID "what failed" [commit]: record a repaired defect (commit defaults to /repo HEAD)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, what = sys.argv[1:3]
c = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], text=True).strip()
p = os.path.join(V, "known_findings.json")
d = json.load(open(p))
d["findings"].append({"property": pid, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (pid, c, what)})
json.dump(d, open(p, "w"), indent=1)
