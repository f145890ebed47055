#!/usr/bin/env python3
"""refactor.py DEST SET..: copy /repo to DEST with the behaviour-preserving edits of tools/refactorings/SET.py; runs the stable tests there"""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
dest = sys.argv[1]
if os.path.exists(dest):
    shutil.rmtree(dest)
shutil.copytree("/repo", dest, symlinks=True)
for s in sys.argv[2:]:
    ns = {}
    exec(open("%s/tools/refactorings/%s.py" % (V, s)).read(), ns)
    for f, a, b in ns["EDITS"]:
        p = dest + "/" + f
        t = open(p).read()
        if t.count(a) != 1:
            sys.exit("%s: %d matches of %r" % (f, t.count(a), a[:80]))
        open(p, "w").write(t.replace(a, b))
print("applied")
r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "tests", "-p", "no:cacheprovider", "--deselect", "x"], cwd=dest, env=dict(os.environ, PYTHONPATH=V + "/stubs:" + dest), capture_output=True, text=True)
print("\n".join(r.stdout.strip().split("\n")[-6:]))
