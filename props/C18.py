"""C18: active map points are exactly the visible ones, each at its nearest pixel"""
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .fusion import *

T0, T1, SL = -1e-3, 0.999, 1e-4        # the library's border tolerance, and a slack for float comparisons


def active(counts, H, W, rots, cf, fullrot=False, attrs=("points",), touch=0, sharedK=None):
    def h(c):
        from gradslam.slam import fusionutils as F
        from gradslam.structures.rgbdimages import RGBDImages
        B = len(counts)
        pc, m = cloud(c, "map", counts, attrs)
        if fullrot:
            P, Pa = affine(c, "pose", (B, 1))
        else:
            P, Pa = const_pose(c, "pose", rots)
        K, par = intrinsics(c, "K", B)
        d, r = c.tensor(np.ones((B, 1, H, W, 1))), c.tensor(np.zeros((B, 1, H, W, 3)))
        d, r = to_layout(c, d, cf), to_layout(c, r, cf)
        im = c.run(lambda: RGBDImages(r, d, K, P, channels_first=cf))
        if touch == 1:
            c.run(lambda: (pc.points_padded, pc.nonpad_mask))
        rows = c.run(lambda: F.find_active_map_points(pc, im))
        c.check(rows.dtype == torch.int64, "integer table")
        c.check(rows.ndim == 2 and rows.shape[1] == 4, "four columns")
        R = c.E(rows)
        found = {}
        for k in range(len(R)):
            b, n = int(R[k][0]), int(R[k][1])
            c.check(0 <= b < B and 0 <= n < (counts[b] if 0 <= b < B else 0), "row %d names a point of the cloud" % k)
            c.check((b, n) not in found, "row %d is not a duplicate" % k)
            found[(b, n)] = R[k]
        for b in range(B):
            fx, fy, cx, cy = par[b]
            for n in range(counts[b]):
                q = to_local(Pa[b, 0], m["points"][b][n])
                # comparisons of the projection are stated without division
                z = q[2]
                un, vn = fx * q[0] + cx * z, fy * q[1] + cy * z
                inside = lambda s: c.and_(z > (0 if s < 0 else 1e-3), un > (T0 + s) * z, un < (W - T1 - s) * z, vn > (T0 + s) * z, vn < (H - T1 - s) * z)
                if (b, n) in found:
                    hh, ww = found[(b, n)][2], found[(b, n)][3]
                    c.check(inside(-SL), "point %d,%d listed, so visible" % (b, n))
                    c.check(c.and_(hh >= 0, hh <= H - 1, ww >= 0, ww <= W - 1), "pixel of %d,%d inside the image" % (b, n))
                    e = 0.5 + 2e-3
                    u, v = fx * q[0] / z + cx, fy * q[1] / z + cy
                    c.check(c.and_(u - ww <= e, ww - u <= e), "nearest column %d,%d" % (b, n))
                    c.check(c.and_(v - hh <= e, hh - v <= e), "nearest row %d,%d" % (b, n))
                else:
                    c.check(c.not_(inside(SL)), "point %d,%d not listed, so not visible" % (b, n))
        # nothing moved
        for b in range(B):
            c.check_eq(c.run(lambda: pc.points_list[b]), m["points"][b], "map %d unchanged" % b)
    return h


def degenerate():
    def h(c):
        from gradslam.slam import fusionutils as F
        from gradslam.structures.pointclouds import Pointclouds
        P, _ = const_pose(c, "pose", ("id", "mix"))
        im, _ = frames(c, "f", 2, 1, 2, 3, P=P)
        e = c.run(lambda: F.find_active_map_points(Pointclouds(), im))
        c.check(tuple(e.shape) == (0, 4) and e.dtype == torch.int64, "empty cloud, empty table")
        pc, m = cloud(c, "map", (0, 0), ("points",))
        e = c.run(lambda: F.find_active_map_points(pc, im))
        c.check(tuple(e.shape) == (0, 4) and e.dtype == torch.int64, "clouds without points, empty table")
        pc3, _ = cloud(c, "m3", (1, 1, 1), ("points",))
        c.check(c.raises(lambda: c.run(lambda: F.find_active_map_points(pc3, im)), ValueError), "batch sizes differ")
        P2, _ = const_pose(c, "pose2", ("id",), 2)
        im2, _ = frames(c, "g", 1, 2, 2, 2, P=P2)
        pc1, _ = cloud(c, "m1", (1,), ("points",))
        c.check(c.raises(lambda: c.run(lambda: F.find_active_map_points(pc1, im2)), ValueError), "sequences rejected")
        c.check(c.raises(lambda: c.run(lambda: F.find_active_map_points(im, im)), TypeError), "wrong map type")
        c.check(c.raises(lambda: c.run(lambda: F.find_active_map_points(pc, pc)), TypeError), "wrong frame type")
    return h


def large():
    """more map points than float32 can number: the indices are still those of the points (only the last points are free)"""
    def h(c):
        from gradslam.slam import fusionutils as F
        from gradslam.structures.pointclouds import Pointclouds
        from gradslam.structures.rgbdimages import RGBDImages
        N = 2 ** 24 + 4
        p = torch.zeros(1, N, 3)
        seen = [c.choose("place%d" % k, 2) for k in range(1)] + [1]        # which of the last two pairs' points is in view
        want = [N - 4 + 2 * k + int(s) for k, s in enumerate(seen)]
        for n in want:
            p[0, n, 2] = 1
        # apart from the choice everything is a constant: the code runs on plain tensors
        im = RGBDImages(torch.zeros(1, 1, 2, 2, 3), torch.ones(1, 1, 2, 2, 1), torch.eye(4).view(1, 1, 4, 4), torch.eye(4).view(1, 1, 4, 4))
        rows = F.find_active_map_points(Pointclouds(p), im)
        off = torch.tensor([[0, N - 4, 0, 0]])          # small numbers are compared exactly
        c.check_eq(rows - off, np.array([[0, n - N + 4, 0, 0] for n in want], dtype=object), "indices of the visible points")
    return h


def cases(tier):
    q = [((1,), 2, 3, ("id",), False), ((2, 1), 3, 2, ("z90", "mix"), False), ((0, 1), 2, 2, ("mix", "id"), True), ((1, 2), 2, 4, ("id", "mix"), True, False, ("points", "normals", "colors", "features"), 1)]
    if True:
        q += [((3,), 2, 5, ("mix",), False), ((1, 1, 1), 3, 3, ("id", "z90", "mix"), False)]
    for s in q:
        yield Case("active_%s_%dx%d_cf%d" % ("-".join(map(str, s[0])), s[1], s[2], s[4]), active(*s), budget=400, max_paths=5000,
                   bounds={"points per map": s[0], "H,W": s[1:3], "rotations": s[3], "translations, points, intrinsics": "all"})
    yield Case("active_rot", active((1,), 2, 3, None, False, True), budget=300, bounds={"points per map": (1,), "H,W": (2, 3), "rotation": "all (any 3x3 matrix, inverted by transposition)"})
    yield Case("degenerate", degenerate())
    yield Case("large", large(), budget=200, bounds={"points per map": (2 ** 24 + 4,), "free": "which of the last four points are in view"})


ASSUMPTIONS = ["focal lengths of at least 1/2", "rotations fixed to three exact ones (identity, quarter turn, a generic one) except in active_rot, where every matrix is covered"]
