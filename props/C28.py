"""C28: ground truth odometry returns the relative pose"""
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .fusion import *


def mm(a, b):
    o = empty(a.shape[:-2] + (4, 4))
    for ix in np.ndindex(*o.shape):
        o[ix] = sum(a[ix[:-1] + (k,)] * b[ix[:-2] + (k, ix[-1])] for k in range(4))
    return o


def bounded(c, a):
    for ix in np.ndindex(*a.shape[:-2]):
        m = a[ix]
        c.fact((m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0]) +
                m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0])), 0.25)


def images(c, tag, B, L, H, W, cf, P):
    from gradslam.structures.rgbdimages import RGBDImages
    K, _ = intrinsics(c, tag + ".K", B)
    return c.run(lambda: RGBDImages(to_layout(c, c.real(tag + ".rgb", (B, L, H, W, 3)), cf), to_layout(c, c.real(tag + ".d", (B, L, H, W, 1)), cf), K, P, channels_first=cf))


def provide(B, H, W, cf, kind, window=None):
    """window: frames (s1, s2) cut out of sequences of three"""
    def h(c):
        from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
        L = 3 if window else 1
        make = rigid if kind == "rigid" else affine
        P1, a = make(c, "A", (B, L))
        P2, b = make(c, "B", (B, L))
        s1, s2 = window or (0, 0)
        bounded(c, a[:, s1:s1 + 1])
        if kind == "swap":
            bounded(c, b[:, s2:s2 + 1])
        f1, f2 = images(c, "f1", B, L, H, W, cf, P1), images(c, "f2", B, L, H, W, False, P2)
        if window:
            f1, f2 = c.run(lambda: f1[:, s1]), c.run(lambda: f2[:, s2])
        x, y = a[:, s1:s1 + 1], b[:, s2:s2 + 1]
        p = GroundTruthOdometryProvider()
        d = c.E(f1.depth_image)
        T = c.run(lambda: p.provide(f1, f2))
        c.check(tuple(T.shape) == (B, 1, 4, 4), "shape")
        t = c.E(T)
        c.check_eq(mm(x, t), y, "first pose composed with it gives the second", tol=5e-2)
        if kind == "swap":
            U = c.run(lambda: p.provide(f2, f1))
            I = empty((B, 1, 4, 4))
            for k in range(B):
                I[k, 0] = np.eye(4)
            c.check_eq(mm(t, c.E(U)), I, "swapping gives the inverse", tol=1e-1)
            S = c.run(lambda: p.provide(f1, f1))
            c.check_eq(S, I, "no motion between a frame and itself", tol=1e-2)
        if kind == "rigid":
            # for exact rotations the inverse is the transpose, so the relative motion is rigid too
            inv = empty((B, 1, 4, 4))
            for k in range(B):
                for i in range(3):
                    for q in range(3):
                        inv[k, 0, i, q] = x[k, 0, q, i]
                    inv[k, 0, i, 3] = -sum(x[k, 0, q, i] * x[k, 0, q, 3] for q in range(3))
                inv[k, 0, 3] = [0.0, 0.0, 0.0, 1.0]
            c.check_eq(t, mm(inv, y), "rigid relative motion", tol=2e-2)
        c.check_eq(f1.poses, x, "first poses unchanged")
        c.check_eq(f2.poses, y, "second poses unchanged")
        c.check_eq(f1.depth_image, d, "depth unchanged")
    return h


def rejects():
    def h(c):
        from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
        p = GroundTruthOdometryProvider()
        P, _ = const_pose(c, "p", ("id", "mix"), 2)
        P1, _ = const_pose(c, "q", ("id",), 1)
        two, one = images(c, "two", 2, 2, 2, 2, False, P), images(c, "one", 1, 1, 2, 2, False, P1)
        bare = images(c, "bare", 1, 1, 2, 2, False, None)
        a = c.run(lambda: two[:, 0])
        for k, (e, args) in enumerate(((TypeError, (None, one)), (TypeError, (one, P1)), (ValueError, (bare, one)), (ValueError, (one, bare)), (ValueError, (two, a)),
                                       (ValueError, (a, two)), (ValueError, (a, one)), (ValueError, (one, a)))):
            c.check(c.raises(lambda: c.run(lambda: p.provide(*args)), e), "bad input %d" % k)
    return h


def cases(tier):
    q = [(2, 2, 3, False, "affine"), (1, 3, 2, True, "swap"), (1, 2, 2, False, "rigid"), (2, 2, 2, True, "affine", (2, 0)), (3, 2, 2, False, "affine")]
    if tier == "thorough":
        q += [(2, 2, 3, True, "swap", (0, 1)), (4, 2, 2, False, "affine"), (2, 2, 2, False, "rigid")]
    for s in q:
        yield Case("provide_B%d_%s_cf%d%s" % (s[0], s[4], s[3], "_window%d%d" % s[5] if len(s) > 5 else ""), provide(*s), budget=400, per_obl=60, bounds={"B,H,W": s[:3], "poses": s[4]})
    yield Case("rejects", rejects())


ASSUMPTIONS = ["the first pose's rotation block has determinant at least 1/4 (arbitrary affine poses, or exact rotations)"]
