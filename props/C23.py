"""C23: a SLAM run is the fold of its steps"""
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .fusion import *

KM = [[2, 0, .5, 0], [0, 2, .5, 0], [0, 0, 1, 0], [0, 0, 0, 1]]


class Odometry:
    """an arbitrary odometry provider: its estimates are free matrices, its arguments are recorded"""

    def __init__(self, c, ts):
        self.c, self.ts, self.calls = c, ts, []

    def provide(self, maps_pc, frames_pc):
        self.calls.append((maps_pc, frames_pc))
        return self.ts[len(self.calls) - 1]


def mm(A, B):
    n = A.shape[:-2]
    o = empty(n + (4, 4))
    for ix in np.ndindex(*n):
        for i in range(4):
            for j in range(4):
                o[ix][i, j] = sum(A[ix][i, k] * B[ix][k, j] for k in range(4))
    return o


def snapshot(c, im):
    d = {n: c.E(getattr(im, n)) for n in ("depth_image", "rgb_image", "intrinsics")}
    d["poses"] = None if im.poses is None else c.E(im.poses)
    return d


def unchanged(c, im, d, tag):
    for n, v in d.items():
        t = getattr(im, n)
        if v is None or t is None:
            c.check(v is None and t is None, tag + n)
        else:
            c.check_eq(t, v, tag + n)


def cloud_arrays(c, pc):
    out = {"n": len(pc)}
    for a in ("points", "normals", "colors", "features"):
        l = c.run(lambda: getattr(pc, a + "_list"))
        out[a] = None if l is None else [c.E(t) for t in l]
    return out


def same_cloud(c, pc, want, tag):
    c.check(len(pc) == want["n"], tag + "batch size")
    for a in ("points", "normals", "colors", "features"):
        l = c.run(lambda: getattr(pc, a + "_list"))
        w = want[a]
        c.check((l is None) == (w is None), tag + a)
        if l is None or w is None:
            continue
        c.check(len(l) == len(w), tag + a + " batch")
        for b in range(min(len(l), len(w))):
            c.check_eq(l[b], w[b], "%s%s[%d]" % (tag, a, b))


def slam_of(kind, odom, ds, **k):
    from gradslam.slam.icpslam import ICPSLAM
    from gradslam.slam.pointfusion import PointFusion
    return (PointFusion if kind == "fusion" else ICPSLAM)(odom=odom, dsratio=ds, numiters=1, **k)


def fold(kind, odom, B, L, H, W, cf, ds, with_poses, depth, poses, ts_kind, inplace_choice=True, constK=True):
    """depth: 'any' | concrete arrays per frame; poses: 'any' | rotation names (constant over the sequence) | None"""
    def h(c):
        from gradslam.structures.pointclouds import Pointclouds
        from gradslam.structures.rgbdimages import RGBDImages
        icp = odom != "gt"
        if poses is None:
            P, Pa = None, None
        elif poses == "any":
            P, Pa = affine(c, "pose", (B, L))
        else:
            Pa = empty((B, L, 4, 4))
            for b in range(B):
                for l in range(L):
                    Pa[b, l] = np.array(poses[l], dtype=object)
            P = c.tensor(Pa if c.symbolic else Pa.astype(float))
        D = None
        if depth not in ("any", "all"):
            D = c.tensor(np.array(depth, dtype=object).reshape(B, L, H, W, 1))
        K = c.tensor(np.tile(np.array(KM, dtype=object), (B, 1, 1, 1))) if constK else None
        fr, _ = frames(c, "f", B, L, H, W, cf, P, K=K, dlo=.5 if depth == "all" else -1, depth=D)
        if depth == "any" and icp:
            # the odometry needs a point to work with
            for b in range(B):
                for l in range(L):
                    c.assume(last(c, fr, "depth_image")[b, l, 0, 0, 0] > 0)
        snap = snapshot(c, fr)
        ts, ta = [], []
        for k in range(L - 1):
            if ts_kind == "any" or (ts_kind == "last" and k == L - 2):
                t, a = affine(c, "T%d" % k, (B, 1))
            else:
                a = empty((B, 1, 4, 4))
                for b in range(B):
                    a[b, 0] = np.array([[0, -1, 0, .25], [1, 0, 0, -.5], [0, 0, 1, .125 * (k + 1)], [0, 0, 0, 1]], dtype=object)
                t = c.tensor(a)
            ts.append(t)
            ta.append(a)
        s1, s2, s3 = [slam_of(kind, odom, ds) for _ in range(3)]
        o1, o2, o3 = Odometry(c, ts), Odometry(c, ts), Odometry(c, ts)
        if icp:
            s1.odomprov, s2.odomprov, s3.odomprov = o1, o2, o3
        # whole sequence
        pc, rec = c.run(lambda: s1(fr))
        unchanged(c, fr, snap, "input sequence ")
        # documented poses
        want = []
        for s in range(L):
            if not icp:
                want.append(Pa[:, s])
            elif s == 0:
                want.append(Pa[:, 0] if Pa is not None else np.tile(np.eye(4), (B, 1, 1)).astype(object))
            else:
                want.append(mm(ta[s - 1][:, 0], want[-1]))
        c.check(tuple(rec.shape) == (B, L, 4, 4), "poses shape")
        c.check_eq(rec, np.stack(want, 1), "recovered poses")
        c.check(len(o1.calls) == (L - 1 if icp else 0), "one estimate per later frame")
        # step by step
        ref = None
        for tag, slam, odo, inplace in (("in place ", s2, o2, True), ("out of place ", s3, o3, False)):
            if ref is not None and not inplace_choice:
                continue
            m = Pointclouds()
            prev = None
            for s in range(L):
                live = c.run(lambda: fr[:, s])
                if s == 0 and live.poses is None:
                    live.poses = c.tensor(np.tile(np.eye(4), (B, 1, 1, 1)))
                before = None if inplace or not m.has_points else cloud_arrays(c, m)
                ls = snapshot(c, live)
                ps = snapshot(c, prev) if prev is not None else None
                m2, p2 = c.run(lambda: slam.step(m, live, prev, inplace=inplace))
                if inplace:
                    c.check(m2 is m, "step %d returns the map itself" % s)
                else:
                    c.check(m2 is not m, "step %d returns another map" % s)
                    if before is not None:
                        same_cloud(c, m, before, "given map %d " % s)
                    else:
                        c.check(not m.has_points, "given map %d empty" % s)
                    unchanged(c, live, ls, "live frame %d " % s)
                if ps is not None:
                    unchanged(c, prev, ps, "previous frame %d " % s)
                c.check(tuple(p2.shape) == (B, 1, 4, 4), "pose shape")
                c.check_eq(p2, want[s].reshape(B, 1, 4, 4), tag + "pose %d" % s)
                live.poses = p2
                if icp and s:
                    given(c, odo.calls[s - 1], m if not inplace else None, live, want[s - 1], ds, s)
                m = m2
                prev = live if icp else None
            if ref is None:
                ref = cloud_arrays(c, m)
                same_cloud(c, pc, ref, "map of the run ")
            else:
                same_cloud(c, m, ref, "map out of place ")
        for k in range(len(o1.calls)):
            for side in (0, 1):
                x = cloud_arrays(c, o2.calls[k][side])
                same_cloud(c, o1.calls[k][side], x, "odometry input %d/%d " % (k, side))
        unchanged(c, fr, snap, "input sequence after stepping ")
    return h


def given(c, call, mp, live, prev_pose, ds, s):
    """the estimate is asked for: frame points at the previous pose against map points"""
    maps_pc, frames_pc = call
    B = len(live)
    V, D = last(c, live, "vertex_map"), last(c, live, "depth_image")
    H, W = D.shape[2:4]
    pts = c.run(lambda: frames_pc.points_list)
    c.check(len(pts) == B, "odometry frame batch")
    for b in range(B):
        rows = []
        for r in range(0, H, ds):
            for k in range(0, W, ds):
                if c.branch(D[b, 0, r, k, 0] > 0):
                    v = V[b, 0, r, k]
                    rows.append([sum(prev_pose[b][i, j] * v[j] for j in range(3)) + prev_pose[b][i, 3] for i in range(3)])
        c.check_eq(pts[b], np.array(rows, dtype=object).reshape(-1, 3), "odometry frame points %d/%d" % (s, b))
    if mp is None:
        return
    ml, ql = c.run(lambda: mp.points_list), c.run(lambda: maps_pc.points_list)
    nl = c.run(lambda: maps_pc.normals_list)
    c.check(nl is not None, "odometry map has normals")
    for b in range(B):
        M, Q = c.E(ml[b]), c.E(ql[b])
        c.check(len(Q) <= len(M), "odometry map points are map points")


def options():
    def h(c):
        import math
        from gradslam.slam.icpslam import ICPSLAM
        from gradslam.slam.pointfusion import PointFusion
        from gradslam.structures.pointclouds import Pointclouds
        for cls in (ICPSLAM, PointFusion):
            for bad in ("foo", "", None, "ICP"):
                c.check(c.raises(lambda: cls(odom=bad), ValueError), "unknown odometry")
            c.check(cls().odom == "gradicp" and cls().dsratio == 4, "defaults")
        for bad in ("a", None, [1]):
            c.check(c.raises(lambda: PointFusion(dist_th=bad), TypeError), "distance threshold type")
            c.check(c.raises(lambda: PointFusion(angle_th=bad), TypeError), "angle threshold type")
        for ang in (0, 20, 45.0, 90):
            c.check(abs(PointFusion(angle_th=ang).dot_th - math.cos(math.radians(ang))) < 1e-9, "normals threshold is the cosine")
        f, _ = frames(c, "f", 1, 2, 2, 2)
        pc = Pointclouds()
        for cls in (ICPSLAM, PointFusion):
            for odom in ("gt", "icp", "gradicp"):
                s = cls(odom=odom)
                c.check(c.raises(lambda: c.run(lambda: s(pc)), TypeError), "forward needs frames")
                c.check(c.raises(lambda: c.run(lambda: s.step(pc, pc, None)), TypeError), "step needs a frame")
                l0 = c.run(lambda: f[:, 0])
                c.check(c.raises(lambda: c.run(lambda: s.step(l0, l0, None)), TypeError), "step needs a map")
                c.check(c.raises(lambda: c.run(lambda: s.step(pc, l0, pc)), TypeError), "previous frame type")
                c.check(c.raises(lambda: c.run(lambda: s.step(pc, l0, None)), ValueError), "first frame without pose")
                l1 = c.run(lambda: f[:, 1])
                c.check(c.raises(lambda: c.run(lambda: s.step(pc, l1, l0)), ValueError), "previous frame without pose")
                c.check(not pc.has_points and l0.poses is None and l1.poses is None, "rejected calls change nothing")
    return h


EYE = np.eye(4).tolist()
P1 = [[0, -1, 0, .25], [1, 0, 0, .125], [0, 0, 1, -.25], [0, 0, 0, 1]]
D2 = [1, 1.5, 0, 2, 1.25, 0, 1, 1]
D3 = [1, 1.5, 0, 2, 1.25, 0, 1, 1, 2, 2, 1, 0]


def cases(tier):
    q = [("icp_gt", ("icp", "gt", 1, 2, 2, 2, False, 1, True, "any", "any", "any", True, False)),
         ("icp_gt_b2", ("icp", "gt", 2, 2, 2, 2, True, 1, True, "all", "any", "any", True, False)),
         ("icp_gt_l3", ("icp", "gt", 1, 3, 2, 2, False, 1, True, "all", "any", "any", True, False)),
         ("fusion_gt", ("fusion", "gt", 1, 2, 2, 2, False, 1, True, D2, [EYE, EYE], "any")),
         ("fusion_gt_moving", ("fusion", "gt", 1, 3, 2, 2, True, 1, True, D3, [P1, EYE, P1], "any")),
         ("icp_icp_nopose", ("icp", "icp", 1, 2, 2, 2, False, 1, False, "all", None, "any")),
         ("icp_icp_pose", ("icp", "icp", 1, 2, 2, 2, True, 2, True, "any", [P1, P1], "any")),
         ("icp_gradicp_l3", ("icp", "gradicp", 1, 3, 2, 2, False, 1, False, D3, None, "last")),
         ("fusion_icp_b2", ("fusion", "icp", 2, 2, 2, 2, False, 1, True, D2 + D2[::-1], [P1, EYE], "const")),
         ("fusion_gradicp_l3", ("fusion", "gradicp", 1, 3, 2, 2, True, 1, False, D3, None, "const"))]
    if tier == "thorough":
        q += [("icp_gt_l4", ("icp", "gt", 1, 4, 2, 3, False, 1, True, "all", "any", "any", True, False)),
              ("fusion_gt_depth", ("fusion", "gt", 1, 2, 2, 2, False, 1, True, "all", [P1, P1], "any"))]
    for nm, s in q:
        yield Case(nm, fold(*s), budget=400 if tier == "quick" else 850, max_paths=20000, feas_ms=300, bounds={"slam": s[0], "odometry": s[1] + ("" if s[1] == "gt" else " (arbitrary estimates)"), "B,L,H,W": s[2:6], "dsratio": s[7], "depth": s[9], "poses": s[10]})
    yield Case("options", options())


ASSUMPTIONS = ["the odometry estimate is an arbitrary matrix (the estimators themselves: C24-C26)", "cases with listed depths or poses use these fixed geometries, with symbolic colors and estimates"]
