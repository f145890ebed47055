"""dataset folders for the loader checks (C29, C31, C32): real text files in a scratch folder, images served by a stand-in for the image reader"""
import contextlib
import math
import os
import re
import types

import numpy as np
import torch
from .common import *
from .C30 import Files

NAMES = {"tum": ["rgbd_dataset_freiburg1_a", "rgbd_dataset_freiburg2_b", "rgbd_dataset_freiburg3_c"],
         "icl": ["living_room_traj1_frei_png", "living_room_traj2_frei_png", "living_room_traj3_frei_png"],
         "scannet": ["scene0000_00", "scene0001_00", "scene0002_01"]}


def resize_model(img, dsize, interpolation):
    """cv2.resize (nearest and linear) on arrays of symbolic numbers"""
    import cv2
    from symx.npshim import arr
    w, h = dsize
    H, W = img.shape[:2]
    a = np.asarray(img, dtype=object)
    nom = getattr(img, "nom", "f")
    if (H, W) == (h, w):
        return arr(a.copy(), nom)
    o = empty((h, w) + a.shape[2:])
    if interpolation == cv2.INTER_NEAREST:
        for y in range(h):
            for x in range(w):
                o[y, x] = a[min(y * H // h, H - 1), min(x * W // w, W - 1)]
    elif interpolation == cv2.INTER_LINEAR:
        from fractions import Fraction as F

        def tap(d, n, N):
            f = (F(2 * d + 1, 2)) * F(N, n) - F(1, 2)
            s = math.floor(f)
            f -= s
            if s < 0:
                s, f = 0, F(0)
            if s >= N - 1:
                s, f = N - 1, F(0)
            return s, min(s + 1, N - 1), f
        for y in range(h):
            s0, s1, f = tap(y, h, H)
            for x in range(w):
                t0, t1, g = tap(x, w, W)
                o[y, x] = (a[s0, t0] * (1 - f) * (1 - g) + a[s0, t1] * (1 - f) * g + a[s1, t0] * f * (1 - g) + a[s1, t1] * f * g)
    else:
        raise NotImplementedError("interpolation %s" % interpolation)
    return arr(o, nom)


@contextlib.contextmanager
def loader(c, kind, read):
    """the loader module with its image reader (read(path) -> array) and, symbolically, cv2 and builtins replaced"""
    import cv2
    from gradslam.datasets import datautils, icl, scannet, tum, tumutils
    mod = {"tum": tum, "icl": icl, "scannet": scannet}[kind]
    saved = mod.imageio, mod.cv2

    def imread(path, *a, **k):
        r = read(path)
        if c.symbolic:
            from symx.npshim import arr
            return r if getattr(r, "nom", None) else arr(r, "i")
        return np.asarray(r)
    mod.imageio = types.SimpleNamespace(imread=imread, v2=types.SimpleNamespace(imread=imread))
    if c.symbolic:
        fake = types.SimpleNamespace(**{k: getattr(cv2, k) for k in dir(cv2) if k.startswith("INTER_")})

        def resize(img, dsize, dst=None, fx=0, fy=0, interpolation=cv2.INTER_LINEAR):
            return resize_model(img, tuple(int(x) for x in dsize), interpolation)
        fake.resize = resize
        mod.cv2 = fake
    try:
        with c.patched(mod, tumutils, datautils, builtins=("float", "isinstance", "range")):
            yield mod
    finally:
        mod.imageio, mod.cv2 = saved


def trans(x):
    return [[1.0, 0.0, 0.0, x], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0]]


def code(path):
    """(trajectory, kind, frame) of an image path"""
    parts = path.split("/")
    m = re.match(r"(\d+)", parts[-1])
    for names in NAMES.values():
        for p in parts:
            if p in names:
                return names.index(p), parts[-2], int(m.group(1))
    for p in parts:
        if p == "living_room_traj0_frei_png":
            return 0, parts[-2], int(m.group(1))
    raise AssertionError(path)


def put_tum(f, c, counts, pose=None, names=None):
    """frame i is recorded at i + 0.5 s; depth and pose stamps differ a little"""
    for t, n in enumerate(counts):
        d = "base/" + (names or NAMES["tum"])[t]
        f.put(d + "/rgb.txt", "# color\n# x\n" + "".join("%d.5 rgb/%d.png\n" % (i, i) for i in range(n)))
        f.put(d + "/depth.txt", "# depth\n" + "".join("%d.505 depth/%d.png\n" % (i, i) for i in range(n)))
        ln = []
        for i in range(n):
            p = pose(t, i) if pose else [float(i * i), 0.0, 0.0, 0.0, 0.0, 0.0, 1.0]
            ln.append(" ".join(["%d.51" % i] + [c.token(x) for x in p]))
        f.put(d + "/groundtruth.txt", "# pose\n" + "\n".join(ln) + "\n")
    return os.path.join(f.d.name, "base")


def put_icl(f, c, counts, pose=None, names=None, poses=None):
    for t, n in enumerate(counts):
        nm = (names or NAMES["icl"])[t]
        d = "base/" + nm
        f.put(d + "/associations.txt", "".join("%d depth/%d.png %d rgb/%d.png\n" % (i, i, i, i) for i in range(n)))
        num = nm[len("living_room_traj"):].split("_")[0]
        txt = ""
        for i in range(n if poses is None else poses[t]):
            m = pose(t, i) if pose else trans(float(i * i))
            txt += "".join(" ".join(c.token(x) for x in r) + "\n" for r in m) + "\n"
        f.put(d + "/livingRoom%sn.gt.sim" % num, txt)
    return os.path.join(f.d.name, "base")


def put_scannet(f, c, counts, pose=None, names=None, K=None):
    for t, n in enumerate(counts):
        nm = (names or NAMES["scannet"])[t]
        txt = ""
        for i in range(n):
            w = ["color", "%s/color/%d.jpg" % (nm, i), "depth", "%s/depth/%d.png" % (nm, i), "pose", "%s/pose/%d.txt" % (nm, i), "label-filt", "%s/label-filt/%d.png" % (nm, i),
                 "a", "b", "c", "d", "e", "f", "intrinsic_depth", "%s/intrinsic/intrinsic_depth.txt" % nm]
            txt += " ".join(w) + "\n"
            m = (pose(t, i) if pose else trans(float(i * i))) + [[0.0, 0.0, 0.0, 1.0]]
            f.put("base/%s/pose/%d.txt" % (nm, i), "".join(" ".join(c.token(x) for x in r) + "\n" for r in m))
        k = K(t) if K else [[500.0 + t, 0.0, 320.0, 0.0], [0.0, 510.0, 240.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]]
        f.put("base/%s/intrinsic/intrinsic_depth.txt" % nm, "".join(" ".join(c.token(x) for x in r) + "\n" for r in k))
        f.put("meta/%s-seq_0.txt" % nm, txt)
    return os.path.join(f.d.name, "base"), os.path.join(f.d.name, "meta")


PUT = {"tum": put_tum, "icl": put_icl, "scannet": put_scannet}
