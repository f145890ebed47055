"""C27: downsampling for odometry keeps a faithful subset"""
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .fusion import *


def clouds(counts, rows, ds, attrs=("points", "normals", "colors"), H=5, W=6, touch=False):
    """rows: (batch, point); the projected pixel of each row is any pixel of the image"""
    def h(c):
        from gradslam.odometry import icputils as U
        pc, m = cloud(c, "map", counts, attrs)
        if touch:
            c.run(lambda: pc.points_padded)
        arr = empty((len(rows), 4))
        for k, (b, n) in enumerate(rows):
            arr[k] = [b, n, c.integer("h%d" % k, 0, H - 1), c.integer("w%d" % k, 0, W - 1)]
        tab = c.tensor(arr, dtype=torch.int64) if len(rows) else torch.zeros((0, 4), dtype=torch.int64)
        before = c.E(tab)
        r = c.run(lambda: U.downsample_pointclouds(pc, tab, ds))
        B = len(counts)
        want = [[] for _ in range(B)]
        for k, (b, n) in enumerate(rows):
            hh, ww = arr[k, 2], arr[k, 3]
            on = c.and_(c.or_(*[hh == v for v in range(0, H, ds)]), c.or_(*[ww == v for v in range(0, W, ds)]))
            if c.branch(on):
                want[b].append(n)
        c.check(len(r) == B, "batch size")
        got = c.run(lambda: list(r.points_list))
        for a in ("points", "normals", "colors"):
            L = c.run(lambda: getattr(r, a + "_list"))
            if a not in attrs:
                c.check(L is None, "no %s" % a)
                continue
            c.check(L is not None and len(L) == B, a)
            for b in range(B):
                w = m[a][b][want[b]] if want[b] else empty((0, 3))
                c.check(tuple(L[b].shape) == (len(want[b]), 3), "count of element %d" % b)
                if tuple(L[b].shape) == (len(want[b]), 3) and len(want[b]):
                    c.check_eq(L[b], w, "%s of element %d" % (a, b))
        c.check_eq(tab, before, "table unchanged")
        for a in attrs:
            for b in range(B):
                c.check_eq(c.run(lambda: getattr(pc, a + "_list")[b]), m[a][b], "map unchanged")
    return h


def images(B, H, W, ds, cf, missing, posed=True):
    """missing: pixels (b,h,w) whose depth is free (possibly missing); the others are present"""
    def h(c):
        from gradslam.odometry import icputils as U
        D = empty((B, 1, H, W, 1))
        for ix in np.ndindex(*D.shape):
            if (ix[0], ix[2], ix[3]) in missing:
                D[ix] = c.number("d%s" % list(ix), -1, 5)
            else:
                D[ix] = c.number("d%s" % list(ix), .5, 5)
        D = c.tensor(D if c.symbolic else D.astype(float))
        P, _ = affine(c, "pose", (B, 1)) if posed else (None, None)
        im, fr = frames(c, "f", B, 1, H, W, cf, P, depth=D)
        V, N = last(c, im, "global_vertex_map"), last(c, im, "global_normal_map")
        r = c.run(lambda: U.downsample_rgbdimages(im, ds))
        keep = [[(i, j) for i in range(0, H, ds) for j in range(0, W, ds) if c.branch(fr["depth"][b, 0, i, j, 0] > 0)] for b in range(B)]
        c.check(len(r) == B, "batch size")
        src = {"points": V, "normals": N, "colors": fr["rgb"]}
        for a, M in src.items():
            L = c.run(lambda: getattr(r, a + "_list"))
            c.check(L is not None and len(L) == B, a)
            for b in range(B):
                ok = tuple(L[b].shape) == (len(keep[b]), 3)
                c.check(ok, "count of element %d" % b)
                if ok and keep[b]:
                    c.check_eq(L[b], np.array([M[b, 0, i, j] for i, j in keep[b]], dtype=object), "%s of element %d" % (a, b), tol=1e-2)
        c.check(im.channels_first == cf, "layout of the frames unchanged")
        c.check_eq(last(c, im, "depth_image"), fr["depth"], "depth unchanged")
        c.check_eq(last(c, im, "rgb_image"), fr["rgb"], "color unchanged")
        if posed:
            c.check_eq(im.poses, c.E(P), "poses unchanged")
    return h


def rejects():
    def h(c):
        from gradslam.odometry import icputils as U
        pc, _ = cloud(c, "map", (2, 1), ("points", "normals"))
        P, _ = const_pose(c, "pose", ("id",), 2)
        im, _ = frames(c, "f", 1, 2, 2, 2, P=P)
        one = table(c, [(0, 0, 0, 0)])
        f, g = U.downsample_pointclouds, U.downsample_rgbdimages
        for k, (e, a) in enumerate(((TypeError, (im, one, 2)), (TypeError, (pc, [[0, 0, 0, 0]], 2)), (TypeError, (pc, one, 2.0)), (TypeError, (pc, one, None)),
                                    (ValueError, (pc, one[0], 2)), (ValueError, (pc, one[:, :3], 2)))):
            c.check(c.raises(lambda: c.run(lambda: f(*a)), e), "clouds %d" % k)
        for k, (e, a) in enumerate(((TypeError, (pc, 2)), (TypeError, (im[:, :1], 1.0)), (ValueError, (im, 2)))):
            c.check(c.raises(lambda: c.run(lambda: g(*a)), e), "frames %d" % k)
    return h


def cases(tier):
    t = tier == "thorough"
    q = [((2, 3), [(0, 1), (1, 2), (1, 0)], 2), ((3,), [(0, 2), (0, 0)], 3), ((2, 1), [(1, 0), (0, 1), (0, 0)], 1, ("points",)), ((0, 2), [(1, 1), (1, 1)], 4, ("points", "colors")),
         ((2, 2), [], 2), ((2, 2, 1), [(2, 0), (0, 1), (1, 0)], 2, ("points", "normals", "colors", "features"), 4, 3, True)]
    if t:
        q += [((3, 2), [(0, 2), (0, 0), (1, 1), (0, 1)], 3), ((2, 1, 2), [(0, 0), (2, 1), (1, 0), (2, 0), (0, 1)], 2), ((4,), [(0, 3), (0, 1), (0, 1), (0, 0)], 7, ("points", "normals"), 9, 9)]
    for s in q:
        yield Case("clouds_%s_ds%d_%d" % ("-".join(map(str, s[0])), s[2], len(s[1])), clouds(*s), budget=200, max_paths=5000, bounds={"points per cloud": s[0], "rows": s[1], "ratio": s[2], "pixels": "any of an image of %s" % (s[4:6] or (5, 6),)})
    q = [(2, 3, 4, 2, False, {(0, 0, 0), (0, 2, 2), (1, 0, 2)}), (1, 4, 3, 3, True, {(0, 0, 0), (0, 3, 0)}), (1, 2, 2, 1, False, {(0, 0, 1), (0, 1, 1)}, False),
         (2, 2, 3, 2, True, {(0, 0, 0), (1, 0, 2)}, False), (1, 3, 2, 4, False, {(0, 0, 0), (0, 1, 1)})]
    if t:
        q += [(2, 5, 4, 2, True, {(0, 0, 0), (0, 2, 2), (1, 4, 2), (1, 0, 2)}), (3, 3, 3, 2, False, {(0, 0, 0), (1, 2, 2), (2, 0, 2)}), (1, 3, 3, 1, True, {(0, i, j) for i in range(3) for j in range(3) if (i + j) % 2})]
    for s in q:
        yield Case("frames_%dx%dx%d_ds%d_cf%d%s" % (s[0], s[1], s[2], s[3], s[4], "" if s[6:] != (False,) else "_noposes"), images(*s), budget=300, max_paths=5000, feas_ms=300,
                   bounds={"B,H,W": s[:3], "ratio": s[3], "pixels that may lack depth": len(s[5])})
    yield Case("rejects", rejects())
