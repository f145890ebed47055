"""C22: aggregate mapping appends exactly the frame's valid points"""
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .fusion import *

A3 = ("points", "normals", "colors")


def pixels(c, im, D, B, H, W):
    """per batch element: rows of the valid pixels in global coordinates"""
    val = {"points": last(c, im, "global_vertex_map"), "normals": last(c, im, "global_normal_map"), "colors": last(c, im, "rgb_image")}
    out = {a: [] for a in A3}
    for b in range(B):
        sel = [(r, s) for r, s in np.ndindex(H, W) if c.branch(D[b, 0, r, s, 0] > 0)]
        for a in A3:
            out[a].append(np.array([list(val[a][b, 0, r, s]) for r, s in sel], dtype=object).reshape(-1, 3))
    return out, val


def compare(c, pc, want, tag):
    B = len(want["points"])
    c.check(len(pc) == B, tag + "batch size")
    c.check(not pc.has_features, tag + "no features")
    for a in A3:
        g = c.run(lambda: getattr(pc, a + "_list"))
        c.check(g is not None and len(g) == B, tag + a)
        if g is None or len(g) != B:
            continue
        for b in range(B):
            c.check_eq(g[b], want[a][b], "%s%s[%d]" % (tag, a, b))
        p = c.run(lambda: getattr(pc, a + "_padded"))
        N = max(len(x) for x in want[a])
        w = empty((B, N, 3))
        w[...] = 0.0
        for b in range(B):
            w[b, :len(want[a][b])] = want[a][b]
        c.check_eq(p, w, "%s%s_padded" % (tag, a))
    c.check_eq(c.run(lambda: pc.num_points_per_pointcloud), np.array([len(x) for x in want["points"]], dtype=object), tag + "counts")


def aggregate(counts, H, W, cf, poses, touch, n=1, missing=True):
    def h(c):
        from gradslam.slam import fusionutils as F
        from gradslam.structures.pointclouds import Pointclouds
        B = len(counts)
        fresh = all(k is None for k in counts)
        if fresh:
            pc, m = Pointclouds(), {a: [empty((0, 3)) for b in range(B)] for a in A3}
        else:
            pc, m = cloud(c, "map", counts, A3)
        if touch == 1:
            c.run(lambda: (pc.points_padded, pc.normals_padded, pc.colors_padded))
        src = {a: [x.copy() for x in m[a]] for a in A3}
        res = pc
        inplace = c.branch(c.flag("inplace"))
        for k in range(n):
            P, _ = affine(c, "pose%d" % k, (B, 1)) if poses else (None, None)
            im, fr = frames(c, "f%d" % k, B, 1, H, W, cf, P, dlo=-1 if missing else .5)
            add, val = pixels(c, im, fr["depth"], B, H, W)
            prev = res
            res = c.run(lambda: F.update_map_aggregate(prev, im, inplace=inplace)) if k or inplace else c.run(lambda: F.update_map_aggregate(prev, im))
            m = {a: [np.concatenate([x, y], 0) for x, y in zip(m[a], add[a])] for a in A3}
            compare(c, res, m, "map %d " % k)
            c.check((res is prev) == inplace, "in place")
            for a, nm in zip(A3, ("global_vertex_map", "global_normal_map", "rgb_image")):
                c.check_eq(last(c, im, nm), val[a], "frame %s unchanged" % a)
        if not inplace:
            if fresh:
                c.check(not pc.has_points and len(pc) == 0, "given map still empty")
            else:
                compare(c, pc, src, "given map ")
            # results and given map do not share storage
            c.run(lambda: res.offset_(1.0))
            if fresh:
                c.check(not pc.has_points, "given map still empty later")
            else:
                compare(c, pc, src, "given map later ")
    return h


def rejects():
    def h(c):
        from gradslam.slam import fusionutils as F
        pc, m = cloud(c, "map", (2, 1), A3)
        P, _ = const_pose(c, "pose", ("id", "mix"))
        im, _ = frames(c, "f", 2, 1, 2, 2, P=P)
        f = F.update_map_aggregate
        for ip in (False, True):
            c.check(c.raises(lambda: c.run(lambda: f(im, im, ip)), TypeError), "map type")
            c.check(c.raises(lambda: c.run(lambda: f(pc, pc, ip)), TypeError), "frame type")
            P2, _ = const_pose(c, "pose2", ("id", "mix"), 2)
            im2, _ = frames(c, "g", 2, 2, 2, 2, P=P2)
            c.check(c.raises(lambda: c.run(lambda: f(pc, im2, ip)), ValueError), "sequences")
            three, _ = cloud(c, "three", (1, 1, 1), A3)
            c.check(c.raises(lambda: c.run(lambda: f(three, im, ip)), (ValueError, NotImplementedError, TypeError)), "batch sizes differ")
            q, mq = cloud(c, "q", (2, 1), A3 + ("features",))
            c.check(c.raises(lambda: c.run(lambda: f(q, im, ip)), ValueError), "a map with features cannot take points without")
            for b in range(2):
                c.check_eq(c.run(lambda: q.points_list[b]), mq["points"][b], "rejected call leaves the map")
        compare(c, pc, m, "map unchanged by rejected calls ")
    return h


def cases(tier):
    q = [((None,), 2, 2, False, True, 0, 2), ((2,), 2, 2, True, True, 1), ((1, 0), 2, 2, False, True, 0), ((None, None), 2, 2, True, False, 0, 1), ((2, 1), 2, 3, False, True, 1, 2, False), ((0, 0), 2, 2, False, False, 0)]
    if tier == "thorough":
        q += [((2, 0, 1), 2, 2, True, True, 1), ((None,), 3, 3, False, True, 0), ((2, 1), 3, 4, True, True, 0, 2, False)]
    for k, s in enumerate(q):
        yield Case("aggregate%d_%dx%d_cf%d_P%d" % (k, s[1], s[2], s[3], s[4]), aggregate(*s), budget=800, max_paths=20000, feas_ms=300,
                   bounds={"points per map": s[0], "H,W": s[1:3], "poses": s[4], "frames": s[6] if len(s) > 6 else 1})
    yield Case("rejects", rejects())


ASSUMPTIONS = ["images of at least 2x2 pixels"]
