"""C32: frame-to-frame transforms telescope to the pose trajectory"""
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .datasets import *
from .C16 import matrix
from .C28 import mm, bounded
from .C29 import marks


def poses(c, kind, n):
    if kind == "rigid":
        return rigid(c, "P", (n,))[1]
    a = affine(c, "P", (n,))[1]
    bounded(c, a)
    return a


def trajectory(n, kind, form, dtype=np.float64):
    def h(c):
        from gradslam.datasets import datautils as D
        a = poses(c, kind, n)
        with c.patched(D):
            x = c.narr(a, dtype) if form == "array" else [c.narr(a[i], dtype) for i in range(n)]
            r = c.run(lambda: D.poses_to_transforms(x))
        c.check(type(r) is type(x) or form == "array", "same container")
        c.check(len(r) == n, "one transform per pose")
        t = empty((n, 4, 4))
        y = empty((n, 4, 4))
        for i in range(n):
            t[i], y[i] = c.E(r[i]), c.E(x[i])
        c.check_eq(y, a, "given poses unchanged", tol=1e-6)
        c.check_eq(t[0], np.eye(4), "first transform is the identity")
        for i in range(1, n):
            c.check_eq(mm(a[i - 1:i], t[i:i + 1]), a[i:i + 1], "previous pose followed by transform %d" % i, tol=2e-2)
        if n <= 3:
            s = t[0:1]
            for i in range(1, n):
                s = mm(s, t[i:i + 1])
                c.check_eq(mm(a[0:1], s), a[i:i + 1], "first %d transforms chained" % i, tol=5e-2)
    return h


def quatpose(c, name, half=False):
    """half: only quaternions with a positive x (the reader compares each number with zero)"""
    q = [c.number("%s.%s" % (name, s), 0.0625 if half and s == "qx" else -1, 1) for s in ("qx", "qy", "qz", "qw")]
    n2 = sum(x * x for x in q)
    c.fact(n2, 0.25)
    t = [c.number("%s.t%s" % (name, s), -64, 64) for s in "xyz"]
    m = empty((4, 4))
    m[...] = np.eye(4)
    m[:3, :3] = matrix(q, n2)
    m[:3, 3] = t
    return m, t + q


def recorded(kind, n, start, step, L, stride=None):
    """poses and transforms a loader serves for recorded poses"""
    def h(c):
        m, raw = empty((n, 4, 4)), []
        for i in range(n):
            m[i], r = quatpose(c, "P%d" % i, half=kind == "tum" and (n, start, stride) != (2, 0, None))
            raw.append(r)
        kw = {} if stride is None else {"stride": stride}
        wins = [start] if stride is None else list(range(start, n - (L - 1) * step, stride))
        with Files() as f, loader(c, kind, marks) as mod:
            if kind == "tum":
                base = put_tum(f, c, (n,), pose=lambda t, i: raw[i])
                ds = c.run(lambda: mod.TUM(base, seqlen=L, dilation=step - 1, start=start, height=1, width=1, **kw))
            elif kind == "icl":
                base = put_icl(f, c, (n,), pose=lambda t, i: [list(r) for r in m[i][:3]])
                ds = c.run(lambda: mod.ICL(base, seqlen=L, dilation=step - 1, start=start, height=1, width=1, **kw))
            else:
                base, meta = put_scannet(f, c, (n,), pose=lambda t, i: [list(r) for r in m[i][:3]])
                ds = c.run(lambda: mod.Scannet(base, meta, None, start=start, end=start + L, height=1, width=1))
            its = [c.run(lambda: ds[w]) for w in range(len(wins))]
            c.check(len(ds) == len(wins), "windows")
            only = []
            for k in ("pose", "transform"):
                if kind != "scannet":
                    cls = mod.TUM if kind == "tum" else mod.ICL
                    dd = c.run(lambda: cls(base, seqlen=L, dilation=step - 1, start=start, height=1, width=1, **kw, **{"return_" + k: False}))
                else:
                    dd = c.run(lambda: mod.Scannet(base, meta, None, start=start, end=start + L, height=1, width=1, **{"return_" + k: False}))
                only.append([c.E(c.run(lambda: dd[w])[3]) for w in range(len(wins))])
        for w, it in enumerate(its):
            window(c, it, [o[w] for o in only], m[[wins[w] + j * step for j in range(L)]], L)
    return h


def window(c, it, only, a, L):
    P, T = c.E(it[3]), c.E(it[4])
    c.check(P.shape == (L, 4, 4) and T.shape == (L, 4, 4), "shapes")
    c.check_eq(P[0], np.eye(4), "first pose is the reference", tol=1e-3)
    c.check_eq(T[0], np.eye(4), "first transform is the identity", tol=1e-3)
    c.check_eq(only[0], T, "transforms without poses")
    c.check_eq(only[1], P, "poses without transforms")
    for i in range(1, L):
        c.check_eq(mm(a[0:1], P[i:i + 1]), a[i:i + 1], "pose %d relative to the first" % i, tol=5e-2)
        c.check_eq(mm(a[i - 1:i], T[i:i + 1]), a[i:i + 1], "transform %d" % i, tol=5e-2)
        if L == 2:
            c.check_eq(mm(P[i - 1:i], T[i:i + 1]), P[i:i + 1], "served poses and transforms agree", tol=5e-2)


def cases(tier):
    t = tier == "thorough"
    for form in ("list", "array"):
        for n, kind in [(1, "affine"), (2, "affine"), (3, "affine")] + ([(4, "affine"), (5, "affine")] if t else []):
            yield Case("transforms_%s_%d_%s" % (form, n, kind), trajectory(n, kind, form), budget=200, bounds={"poses": n, "kind": kind})
    for kind in ("tum", "icl", "scannet"):
        for q in [(2, 0, 1, 2), (3, 1, 1, 2)] + ([(4, 0, 2, 2), (3, 0, 1, 2, 1)] if kind != "scannet" else []) + ([(3, 0, 1, 3), (5, 1, 1, 4)] if t else []):
            yield Case("%s_%s" % (kind, "-".join(map(str, q))), recorded(kind, *q), budget=300, bounds={"frames": q[0], "start": q[1], "step": q[2], "served": q[3]})


ASSUMPTIONS = ["recorded rotations are exact rotations (quaternions of squared norm at least 1/4); affine poses have determinant at least 1/4",
               "in TUM folders of more than two frames the quaternions have qx of at least 1/16", "images are one pixel; text files are real files in a scratch folder; the image decoder is replaced"]
