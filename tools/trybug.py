#!/usr/bin/env python3
"""trybug.py [-j N] ID...: runs the quick check of each seeded change's property (or PROP after ID:PROP) on a scratch copy with the change"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
def one(a):
    i, _, prop = a.partition(":")
    prop = prop or json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
    wt = "/tmp/trybug.%d.%s" % (os.getpid(), i)
    shutil.copytree("/repo", wt, symlinks=True)
    ev = "/tmp/trybugev.%d.%s" % (os.getpid(), i)
    try:
        r = subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (V, i)], cwd=wt, capture_output=True, text=True)
        if r.returncode:
            return i, prop, "patch does not apply", ""
        t = time.time()
        r = subprocess.run(["/opt/venv/bin/python", "check.py", prop], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, SYMX_REPO=wt, SYMX_EVIDENCE=ev))
        return i, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode), "%.0fs %s" % (time.time() - t, r.stdout.strip()[:300].replace("\n", " | ") if r.returncode == 1 else r.stdout.strip()[-700:] + r.stderr[-500:])
    finally:
        shutil.rmtree(wt)
        shutil.rmtree(ev, ignore_errors=True)
with ThreadPoolExecutor(2) as ex:
    for x in ex.map(one, args):
        print(*x, flush=True)
