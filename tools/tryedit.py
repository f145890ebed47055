#!/usr/bin/env python3
"""tryedit.py FILE [-j N] [ID...]: for every spec of SEEDS in FILE (no demo needed): applies the edits to a scratch copy, runs the
stable tests and the check of the spec's property against the copy, and prints what happened"""
import os, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkseed
V = mkseed.V


def one(s):
    wt = "/tmp/tryedit.%d.%d" % (os.getpid(), threading.get_ident())
    shutil.copytree("/repo", wt, symlinks=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(wt, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT MATCHES %d TIMES" % t.count(old), repr(old[:60]), flush=True)
                return
            open(p, "w").write(t.replace(old, new))
        with LOCK:
            bad = mkseed.tests(wt)
        res = []
        for p in s["prop"].split(","):
            e = wt + ".ev"
            try:
                r = subprocess.run(["/opt/venv/bin/python", "check.py", p], cwd=V, capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, SYMX_REPO=wt, SYMX_EVIDENCE=e, SYMX_JOBS=str(max(1, 8 // J))))
                rc, l = r.returncode, [x for x in (r.stdout + r.stderr).split("\n") if "VIOLATION" in x or "ERROR" in x]
            except subprocess.TimeoutExpired:
                rc, l = 99, []
            shutil.rmtree(e, ignore_errors=True)
            res.append("%s rc=%d %s" % (p, rc, (l or [""])[0][:150]))
        print(s["id"], "TESTS FAIL %d" % len(bad) if bad else "tests ok", "CAUGHT" if any(" rc=1" in x for x in res) else "MISSED", res, flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


a = sys.argv[1:]
J = 2
if "-j" in a:
    J = int(a[a.index("-j") + 1])
    del a[a.index("-j"):a.index("-j") + 2]
LOCK = threading.Lock()
ns = {}
exec(open(a[0]).read(), ns)
with ThreadPoolExecutor(J) as ex:
    list(ex.map(one, [s for s in ns["SEEDS"] if not a[1:] or s["id"] in a[1:]]))
