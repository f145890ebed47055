#!/usr/bin/env python3
"""mkseed.py FILE [ID...]: builds seeded/<id>/ from the specs in FILE (a python file defining SEEDS), after confirming in a
scratch copy that the change applies, the stable tests pass with it, and the demo passes without and fails with it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys, types
from unittest.mock import MagicMock
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
sys.modules.setdefault("open3d", MagicMock())
import numpy as np
import torch
torch.manual_seed(0)


def check(ok, what):
    if not ok:
        print("FAIL:", what)
        sys.exit(1)


def close(a, b, what, tol=1e-3):
    a, b = torch.as_tensor(a).double(), torch.as_tensor(b).double()
    check(a.shape == b.shape and torch.allclose(a, b, atol=tol, rtol=tol), what)


'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def tests(repo):
    out = "/tmp/mkseed.%d.xml" % os.getpid()
    h = "/tmp/mkseed_harness.%d" % os.getpid()
    os.makedirs(h, exist_ok=True)
    open(h + "/gradslam_without_open3d.py", "w").write(open("/opt/vp/harness/gradslam_without_open3d.py").read().replace('"/repo"', repr(repo)))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="4", PYTHONPATH=h, CUDA_VISIBLE_DEVICES="")
    ig = " ".join("--ignore=tests/" + x for x in ("slam/test_fusionutils.py", "structures/test_pointclouds.py", "structures/test_utils.py",
                                                 "odometry/test_gradicp.py", "odometry/test_icp.py", "odometry/test_icputils.py"))
    sh("/opt/venv/bin/python -m pytest tests -q -p gradslam_without_open3d -p no:cacheprovider %s --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s" % (ig, out), cwd=repo, env=env)
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(out).iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add(tc.get("classname") + "::" + tc.get("name"))
    os.remove(out)
    shutil.rmtree(h)
    return stable() - ok


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    wt = "/tmp/seedwt.%d" % os.getpid()
    shutil.copytree("/repo", wt, symlinks=True)
    try:
        for s in ns["SEEDS"]:
            if want and s["id"] not in want:
                continue
            sh("git checkout -q -- .", cwd=wt)
            okk = True
            for f, old, new in s["edits"]:
                p = os.path.join(wt, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "edit does not match once:", t.count(old), repr(old[:60]))
                    okk = False
                    break
                open(p, "w").write(t.replace(old, new))
            if not okk:
                continue
            diff = sh("git diff", cwd=wt).stdout
            d = os.path.join(V, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            open(d + "/demo.py", "w").write(PRE + s["demo"].strip("\n") + "\nprint('ok')\n")
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(d + "/demo.sh", 0o755)
            a = sh("bash %s/demo.sh" % d, cwd="/repo")
            b = sh("bash %s/demo.sh" % d, cwd=wt)
            missing = tests(wt)
            good = a.returncode == 0 and b.returncode != 0 and not missing
            print(s["id"], "OK" if good else "BAD", "clean rc", a.returncode, "bug rc", b.returncode, (b.stdout.strip() + b.stderr.strip()[-150:]).replace("\n", " | "), "missing", len(missing))
            if not good:
                print(a.stdout[-500:], a.stderr[-1500:], list(missing)[:3])
                shutil.rmtree(d)
                continue
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(wt)


if __name__ == "__main__":
    main()
