"""tools/seeds.py [ID...]: (re)generate seeded/<id>/ from the definitions in tools/seeds.d/*.py (patches against /repo's HEAD)."""
import glob, json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os, sys, tempfile, contextlib
sys.path.insert(0, os.getcwd())
import pandas as pd
import ticdat
from ticdat import TicDatFactory, PanDatFactory
'''
SH = '''#!/bin/bash
# exit 0 when the property holds in the tree at the current directory
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
BUGS = {}


def bug(id, prop, edits, demo, needs, breaks):
    assert id not in BUGS
    BUGS[id] = (prop, edits, demo, needs, breaks)


for f in sorted(glob.glob(os.path.join(V, "tools", "seeds.d", "*.py"))):
    exec(open(f).read())
for id in sys.argv[1:] or BUGS:
    prop, edits, demo, needs, breaks = BUGS[id]
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as tmp:
        diffs = []
        for path in dict.fromkeys(e[0] for e in edits):
            src = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + path]).decode()
            nl = "\r\n" if "\r\n" in src else "\n"
            base = subprocess.check_output(["git", "-C", "/repo", "show", "6384514:" + path], text=True).splitlines()
            new = src
            for p, a, b in edits:
                if p == path:
                    a, b = a.replace("\n", nl), b.replace("\n", nl)
                    if new.count(a) != 1:
                        print(id, "text occurs %d times:" % new.count(a), repr(a))
                    new = new.replace(a, b)
            for side, text in (("a", src), ("b", new)):
                os.makedirs(os.path.dirname(os.path.join(tmp, side, path)), exist_ok=True)
                open(os.path.join(tmp, side, path), "w", newline="").write(text)
            out = subprocess.run(["git", "diff", "--no-index", "a/" + path, "b/" + path], cwd=tmp, capture_output=True).stdout.decode()
            out = out.replace("a/a/", "a/").replace("b/b/", "b/")
            for line in out.split("\n"):
                if line.startswith("-") and not line.startswith("---") and line[1:].rstrip("\r") not in base:
                    print(id, "changes a line that is not in the original:", line)
            diffs.append(out)
    open(os.path.join(d, "patch.diff"), "w", newline="").write("".join(diffs))
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
