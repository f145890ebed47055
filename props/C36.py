"""C36: batch elements never influence one another: the batched call gives, for every element, what the call on that element alone gives"""
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .fusion import *
from .C26 import Fn

A4 = ("points", "normals", "colors", "features")
MAPS = ("rgb_image", "depth_image", "intrinsics", "vertex_map", "normal_map", "global_vertex_map", "global_normal_map", "valid_depth_mask")


def one(c, arr, b):
    """element b of an object array as a tensor of batch size one"""
    a = np.asarray(arr, dtype=object)[b:b + 1]
    return c.tensor(a if c.symbolic else a.astype(float))


class Scene:
    """frames with their arrays; alone(b) builds the same frames of element b only"""

    def __init__(self, c, B, L, H, W, cf, poses="affine", depth=None, K="any", dlo=-1):
        self.c, self.cf, self.B = c, cf, B
        if poses is None:
            self.P = None
        elif isinstance(poses, str):
            self.P = c.E(affine(c, "pose", (B, L))[0])
        else:
            self.P = empty((B, L, 4, 4))
            for b in range(B):
                for l in range(L):
                    self.P[b, l] = np.array(poses[b], dtype=object)
        self.D = c.E(c.real("depth", (B, L, H, W, 1), dlo, 8)) if depth is None else np.array(depth, dtype=object).reshape(B, L, H, W, 1)
        self.C = c.E(c.real("rgb", (B, L, H, W, 3)))
        self.K = c.E(intrinsics(c, "K", B)[0]) if K == "any" else np.tile(np.array(K, dtype=object), (B, 1, 1, 1))

    def of(self, bs):
        from gradslam.structures.rgbdimages import RGBDImages
        c = self.c
        pick = lambda a: c.tensor(a[bs] if c.symbolic else a[bs].astype(float))
        return c.run(lambda: RGBDImages(to_layout(c, pick(self.C), self.cf), to_layout(c, pick(self.D), self.cf), pick(self.K), None if self.P is None else pick(self.P), channels_first=self.cf))

    def batch(self):
        return self.of(list(range(self.B)))

    def alone(self, b):
        return self.of([b])


def lone_cloud(c, m, b):
    from gradslam.structures.pointclouds import Pointclouds
    mk = lambda x: c.tensor(x if c.symbolic else x.astype(float))
    return c.run(lambda: Pointclouds(**{a: [mk(v[b])] for a, v in m.items()}))


def lists(c, pc, a):
    return c.run(lambda: getattr(pc, a + "_list"))


def same_element(c, pc, b, alone, tag, tol=1e-3):
    """element b of a cloud batch is the single element of another"""
    c.check(len(alone) == 1, tag + "batch size alone")
    for a in A4:
        x, y = lists(c, pc, a), lists(c, alone, a)
        c.check((x is None) == (y is None), "%s%s presence" % (tag, a))
        if x is None or y is None:
            continue
        c.check(tuple(x[b].shape) == tuple(y[0].shape), "%s%s[%d] shape" % (tag, a, b))
        if tuple(x[b].shape) != tuple(y[0].shape):
            continue
        c.check_eq(x[b], c.E(y[0]), "%s%s[%d]" % (tag, a, b), tol=tol)
        p = c.run(lambda: getattr(pc, a + "_padded"))
        n = y[0].shape[0]
        c.check_eq(c.E(p)[b, :n], c.E(y[0]), "%s%s_padded[%d]" % (tag, a, b), tol=tol)
    c.check_eq(c.run(lambda: pc.num_points_per_pointcloud)[b], c.E(c.run(lambda: alone.num_points_per_pointcloud))[0], tag + "count")


def maps(B, L, H, W, cf, poses, change=None):
    def h(c):
        s = Scene(c, B, L, H, W, cf, poses)
        im = s.batch()
        lone = [s.alone(b) for b in range(B)]
        if change:
            # setters after the maps exist
            c.run(lambda: [getattr(x, n) for x in [im] + lone for n in MAPS])
            nd = c.E(c.real("depth2", (B, L, H, W, 1), -1, 8))
            mk = lambda a: to_layout(c, c.tensor(a if c.symbolic else a.astype(float)), cf)
            im.depth_image = mk(nd)
            for b in range(B):
                lone[b].depth_image = mk(nd[b:b + 1])
        for n in MAPS:
            X = c.E(c.run(lambda: getattr(im, n)))
            for b in range(B):
                c.check_eq(X[b:b + 1], c.E(c.run(lambda: getattr(lone[b], n))), "%s of element %d" % (n, b))
    return h


def clouds(op, counts, attrs=A4, touch=0):
    def h(c):
        from gradslam.structures.pointclouds import Pointclouds
        B = len(counts)
        pc, m = cloud(c, "map", counts, attrs)
        lone = [lone_cloud(c, m, b) for b in range(B)]
        if touch == 1:
            c.run(lambda: (pc.points_padded, pc.normals_padded, pc.nonpad_mask))
        sl = lambda a, b: one(c, a, b)
        if op in ("add", "sub", "mul", "div"):
            q = c.E(c.real("q", (B, 1, 3), *((.25, 4) if op == "div" else ())))
            f = {"add": lambda p, x: p + x, "sub": lambda p, x: p - x, "mul": lambda p, x: p * x, "div": lambda p, x: p / x}[op]
        elif op in ("scale_", "offset_"):
            q = c.E(c.real("q", (B, 1, 3)))
            f = (lambda p, x: p.scale_(x)) if op == "scale_" else (lambda p, x: p.offset_(x))
        elif op == "rotate":
            q = c.E(c.real("q", (B, 3, 3)))
            f = lambda p, x: p.rotate(x)
        elif op == "transform":
            q = c.E(affine(c, "q", (B,))[0])
            f = lambda p, x: p.transform(x)
        elif op == "transform_post":
            q = c.E(affine(c, "q", (B,))[0])
            f = lambda p, x: p.transform(x, pre_multiplication=False)
        elif op == "pinhole":
            q = c.E(intrinsics(c, "K", B)[0])[:, 0]
            f = lambda p, x: p.pinhole_projection(x)
        elif op == "clone":
            q = c.E(c.real("q", (B, 1, 3)))
            f = lambda p, x: p.clone().detach() + x
        elif op == "append":
            other, mo = cloud(c, "other", counts[::-1], attrs)
            lo = [lone_cloud(c, mo, b) for b in range(B)]
            r = c.run(lambda: pc.append_points(other))
            for b in range(B):
                same_element(c, pc, b, c.run(lambda: lone[b].append_points(lo[b])), "")
            return
        full = c.tensor(q if c.symbolic else q.astype(float))
        if op == "pinhole":
            # points in front of the camera
            for b in range(B):
                for n in range(counts[b]):
                    c.assume(m["points"][b][n, 2] > .125)
        r = c.run(lambda: f(pc, full))
        for b in range(B):
            same_element(c, r, b, c.run(lambda: f(lone[b], sl(q, b))), "", tol=1e-2)
    return h


def rows_of(R, b):
    return [list(r) for r in R if int(r[0]) == b]


def same_rows(c, R, b, alone, tag):
    x = rows_of(R, b)
    y = c.E(alone)
    c.check(len(x) == len(y), tag + "number of rows of element %d" % b)
    if len(x) == len(y) and len(x):
        want = np.array([list(r) for r in y], dtype=object)
        c.check(all(int(r[0]) == 0 for r in want), tag + "batch index alone")
        c.check_eq(np.array(x, dtype=object)[:, 1:], want[:, 1:], tag + "rows of element %d" % b)


def active(counts, H, W, cf):
    """association of map points with pixels; depth does not matter"""
    def h(c):
        from gradslam.slam import fusionutils as F
        B = len(counts)
        pc, m = cloud(c, "map", counts, ("points",))
        P, Pa = const_pose(c, "pose", ("id", "mix", "z90")[:B])
        s = Scene(c, B, 1, H, W, cf, None, depth=np.ones((B, H, W)))
        s.P = Pa
        R = c.E(c.run(lambda: F.find_active_map_points(pc, s.batch())))
        for b in range(B):
            if counts[b]:
                same_rows(c, R, b, c.run(lambda: F.find_active_map_points(lone_cloud(c, m, b), s.alone(b))), "")
            else:
                c.check(len(rows_of(R, b)) == 0, "no rows for an empty element")
    return h


def filters(counts, H, W, cf, rows, dist_th, dot_th):
    def h(c):
        from gradslam.slam import fusionutils as F
        B = len(counts)
        pc, m = cloud(c, "map", counts, A4, flo=0)
        s = Scene(c, B, 1, H, W, cf, [EYE, PZ, EYE][:B], depth=[[[1 + .25 * r + .5 * k * k - .125 * b for k in range(W)] for r in range(H)] for b in range(B)], K=KM)
        tab = table(c, rows)
        im = s.batch()
        k, _ = c.run(lambda: F.find_similar_map_points(pc, im, tab, dist_th, dot_th))
        u = c.run(lambda: F.find_best_unique_correspondences(pc, im, tab))
        K, U = c.E(k), c.E(u)
        for b in range(B):
            sub = [(0,) + r[1:] for r in rows if r[0] == b]
            if not sub:
                c.check(not rows_of(K, b) and not rows_of(U, b), "no rows for element %d" % b)
                continue
            t1, p1, i1 = table(c, sub), lone_cloud(c, m, b), s.alone(b)
            same_rows(c, K, b, c.run(lambda: F.find_similar_map_points(p1, i1, t1, dist_th, dot_th))[0], "similar ")
            same_rows(c, U, b, c.run(lambda: F.find_best_unique_correspondences(p1, i1, t1)), "best ")
    return h


def fuse(counts, H, W, cf, rows, inplace, aggregate=False):
    def h(c):
        from gradslam.slam import fusionutils as F
        B = len(counts)
        at = A4[:3] if aggregate else A4
        pc, m = cloud(c, "map", counts, at, flo=None if aggregate else 1e-3)
        lone = [lone_cloud(c, m, b) for b in range(B)]
        s = Scene(c, B, 1, H, W, cf, "affine")
        for b, n, r, k in rows:
            c.assume(s.D[b, 0, r, k, 0] > 0)
        im = s.batch()
        if aggregate:
            r = c.run(lambda: F.update_map_aggregate(pc, im, inplace))
        else:
            r = c.run(lambda: F.fuse_with_map(pc, im, table(c, rows), .6, inplace))
        for b in range(B):
            i1 = s.alone(b)
            if aggregate:
                a = c.run(lambda: F.update_map_aggregate(lone[b], i1, inplace))
            else:
                a = c.run(lambda: F.fuse_with_map(lone[b], i1, table(c, [(0,) + q[1:] for q in rows if q[0] == b]), .6, inplace))
            same_element(c, r, b, a, "")
    return h


KM = [[2, 0, .5, 0], [0, 2, .5, 0], [0, 0, 1, 0], [0, 0, 0, 1]]
EYE = np.eye(4).tolist()
PZ = [[0, -1, 0, .25], [1, 0, 0, .125], [0, 0, 1, -.25], [0, 0, 0, 1]]


def slam(kind, odom, L, depths, poses, ds=1, cf=False, aslist=True):
    """whole runs: geometry fixed per element, colors free; the estimator is an arbitrary function of the clouds it is given"""
    def h(c):
        import gradslam.odometry.icp as I
        import gradslam.odometry.gradicp as Gm
        from gradslam.slam.icpslam import ICPSLAM
        from gradslam.slam.pointfusion import PointFusion
        B = len(depths)
        H = W = 2
        s = Scene(c, B, L, H, W, cf, poses, depth=np.array(depths, dtype=object), K=KM)
        est = Fn(c, lambda k: transform(c, k))

        def stub(src, tgt, nrm, *a, **k):
            return est(*estimator_key(c, src, tgt, nrm, *a, **k)), torch.arange(src.shape[1])
        saved = I.point_to_plane_ICP, Gm.point_to_plane_gradICP
        I.point_to_plane_ICP = Gm.point_to_plane_gradICP = stub
        try:
            run = lambda f: (PointFusion if kind == "fusion" else ICPSLAM)(odom=odom, dsratio=ds, numiters=1)(f)
            pc, rec = c.run(lambda: run(s.batch()))
            R = c.E(rec)
            for b in range(B):
                p1, r1 = c.run(lambda: run(s.alone(b)))
                c.check_eq(R[b:b + 1], c.E(r1), "poses of element %d" % b)
                same_element(c, pc, b, p1, "map ")
        finally:
            I.point_to_plane_ICP, Gm.point_to_plane_gradICP = saved
    return h


def estimator_key(c, src_pc, tgt_pc, tgt_normals, initial_transform=None, *rest, **k):
    """what an alignment may depend on: the clouds, the transform it starts from (none: the identity) and the parameters"""
    k = dict(k)
    par = [float(x) for x in rest] if all(isinstance(x, (int, float)) for x in rest) else []
    par += [float(k[n]) for n in sorted(k) if isinstance(k[n], (int, float))]
    e = np.eye(4) if initial_transform is None else c.E(initial_transform)
    return [c.E(src_pc), c.E(tgt_pc), c.E(tgt_normals), e.astype(object), np.array(par, dtype=object)]


def transform(c, k):
    o = np.array([[0, -1, 0, 0], [1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]] if k % 2 else np.eye(4), dtype=object)
    o[:3, 3] = [[.25, -.5, .125], [0, .125, .5], [-.25, 0, 0], [.5, .5, 0]][k % 4]
    return c.tensor(o if c.symbolic else o.astype(float))


def down(counts, rows, ds, H=5, W=6):
    def h(c):
        from gradslam.odometry import icputils as U
        B = len(counts)
        pc, m = cloud(c, "map", counts, A4[:3])
        arr = empty((len(rows), 4))
        for k, (b, n) in enumerate(rows):
            arr[k] = [b, n, c.integer("h%d" % k, 0, H - 1), c.integer("w%d" % k, 0, W - 1)]
        r = c.run(lambda: U.downsample_pointclouds(pc, c.tensor(arr, dtype=torch.int64), ds))
        for b in range(B):
            sub = arr[[i for i, q in enumerate(rows) if q[0] == b]].copy()
            if len(sub):
                sub[:, 0] = 0
            t = c.tensor(sub, dtype=torch.int64) if len(sub) else torch.zeros((0, 4), dtype=torch.int64)
            same_element(c, r, b, c.run(lambda: U.downsample_pointclouds(lone_cloud(c, m, b), t, ds)), "")
    return h


def down_frames(B, H, W, ds, cf, poses):
    def h(c):
        from gradslam.odometry import icputils as U
        s = Scene(c, B, 1, H, W, cf, poses)
        r = c.run(lambda: U.downsample_rgbdimages(s.batch(), ds))
        for b in range(B):
            same_element(c, r, b, c.run(lambda: U.downsample_rgbdimages(s.alone(b), ds)), "")
    return h


def odometry(kind, counts, mcounts):
    def h(c):
        import gradslam.odometry.icp as I
        import gradslam.odometry.gradicp as Gm
        from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
        B = len(counts)
        if kind == "gt":
            s, t = Scene(c, B, 1, 2, 2, False, "affine"), None
            Q, q = affine(c, "Q", (B, 1))
            for b in range(B):
                M = s.P[b, 0]
                c.fact(M[0, 0] * (M[1, 1] * M[2, 2] - M[1, 2] * M[2, 1]) - M[0, 1] * (M[1, 0] * M[2, 2] - M[1, 2] * M[2, 0]) + M[0, 2] * (M[1, 0] * M[2, 1] - M[1, 1] * M[2, 0]), .25)
            p = GroundTruthOdometryProvider()
            first = s.batch(), [s.alone(b) for b in range(B)]
            s.P = q
            second = s.batch(), [s.alone(b) for b in range(B)]
            T = c.E(c.run(lambda: p.provide(first[0], second[0])))
            for b in range(B):
                c.check_eq(T[b:b + 1], c.E(c.run(lambda: p.provide(first[1][b], second[1][b]))), "transform of element %d" % b)
            return
        maps_, mm = cloud(c, "map", mcounts, ("points", "normals"))
        live, ff = cloud(c, "live", counts, ("points",))
        est = Fn(c, lambda k: c.real("T%d" % k, (4, 4)))
        stub = lambda *a, **k: (est(*estimator_key(c, *a, **k)), torch.arange(1))
        saved = I.point_to_plane_ICP, Gm.point_to_plane_gradICP
        I.point_to_plane_ICP = Gm.point_to_plane_gradICP = stub
        try:
            p = I.ICPOdometryProvider() if kind == "icp" else Gm.GradICPOdometryProvider()
            T = c.E(c.run(lambda: p.provide(maps_, live)))
            for b in range(B):
                a = c.E(c.run(lambda: p.provide(lone_cloud(c, mm, b), lone_cloud(c, ff, b))))
                c.check_eq(T[b:b + 1], a, "transform of element %d" % b)
        finally:
            I.point_to_plane_ICP, Gm.point_to_plane_gradICP = saved
    return h


def odometry_empty(kind, lone, swap):
    """real estimators: an element without map points or without live points (lone: which) does not disturb its neighbour, a patch at any height over a plane"""
    def h(c):
        import gradslam.odometry.icp as I
        import gradslam.odometry.gradicp as Gm
        from gradslam.structures.pointclouds import Pointclouds
        z = c.number("z", -2, 2)
        c.assume(c.or_(z > .01, z < -.01))
        sq = [[2, 0], [-2, 0], [0, 2], [0, -2]]
        mk = lambda v: c.tensor(v if c.symbolic else v.astype(float))
        obj = lambda v: np.array(v, dtype=object)
        src, tgt, nrm = (obj([[float(a), float(b), x] for a, b in sq]) for x in (z, 0.0, 0.0))
        nrm[:] = [0.0, 0.0, 1.0]
        w = c.E(c.real("other", (3, 3)))
        none = np.zeros((0, 3), dtype=object)
        osrc, otgt = (none if "live" in lone else w), (none if "map" in lone else w)
        order = (lambda a, b: [b, a]) if swap else (lambda a, b: [a, b])
        maps_ = c.run(lambda: Pointclouds([mk(x) for x in order(tgt, otgt)], normals=[mk(x) for x in order(nrm, otgt)]))
        live = c.run(lambda: Pointclouds([mk(x) for x in order(src, osrc)]))
        p = (I.ICPOdometryProvider if kind == "icp" else Gm.GradICPOdometryProvider)(numiters=1, damp=.5)
        T = c.E(c.run(lambda: p.provide(maps_, live)))
        c.check(T.shape == (2, 1, 4, 4), "shape")
        a = c.E(c.run(lambda: p.provide(c.run(lambda: Pointclouds([mk(tgt)], normals=[mk(nrm)])), c.run(lambda: Pointclouds([mk(src)])))))
        c.check_eq(T[int(swap)], a[0], "transform of the element with points")
        c.check_eq(T[1 - int(swap), 0], np.eye(4), "transform of the element without")
    return h


def geometry():
    def h(c):
        from gradslam.geometry import geometryutils as G, projutils as P
        B = 2
        K = c.E(intrinsics(c, "K", B)[0])[:, 0]
        T, T2 = c.E(affine(c, "T", (B,))[0]), c.E(affine(c, "S", (B,))[0])
        x = c.E(c.real("x", (B, 3, 3)))
        for b in range(B):
            for n in range(3):
                c.fact(x[b, n, 2], .125)
        q = c.E(c.real("q", (B, 4), -2, 2))
        for b in range(B):
            c.fact(sum(v * v for v in q[b]), .25)
        p, d = c.E(c.real("p", (B, 3, 2))), c.E(c.real("d", (B, 3), 0, 8))
        fs = {"project_points": (lambda x, K: P.project_points(x, K), (x, K)),
              "unproject_points": (lambda p, K, d: P.unproject_points(p, P.inverse_intrinsics(K)[:, :3, :3], d), (p, K, d)),
              "inverse_intrinsics": (lambda K: P.inverse_intrinsics(K), (K,)),
              "relative_transformation": (lambda a, b: G.relative_transformation(a, b, orthogonal_rotations=True), (T, T2)),
              "inverse_transform_3d": (lambda a: G.inverse_transfom_3d(a), (T,)),
              "compose_transforms_3d": (lambda a, b: G.compose_transforms_3d(a, b), (T, T2)),
              "homogenize_points": (lambda x: G.homogenize_points(x), (x,)),
              "unhomogenize_points": (lambda x: P.unhomogenize_points(x), (x,)),
              "quaternion_to_rotation_matrix": (lambda q: G.quaternion_to_rotation_matrix(q), (q,)),
              "normalize_quaternion": (lambda q: G.normalize_quaternion(q), (q,)),
              "transform_pts_nd_KF": (lambda x, T: G.transform_pts_nd_KF(x.transpose(1, 2), T), (x, T)),
              "quaternion_to_axisangle": (lambda q: G.quaternion_to_axisangle(q), (q,))}
        mk = lambda a: c.tensor(a if c.symbolic else a.astype(float))
        for n, (f, a) in fs.items():
            r = c.E(c.run(lambda: f(*[mk(v) for v in a])))
            for b in range(B):
                c.check_eq(r[b:b + 1], c.E(c.run(lambda: f(*[mk(v[b:b + 1]) for v in a]))), "%s of element %d" % (n, b), tol=1e-2)
    return h


def cases(tier):
    t = tier == "thorough"
    q = [(2, 1, 2, 3, False, "affine"), (2, 2, 2, 2, True, "affine"), (3, 1, 2, 2, False, None), (2, 1, 3, 2, True, "affine", True)]
    if t:
        q += [(3, 2, 3, 3, True, "affine"), (2, 3, 2, 2, False, "affine", True)]
    for s in q:
        yield Case("maps_%dx%dx%dx%d_cf%d_%s%s" % (s[:6] + ("_set" if len(s) > 6 else "",)), maps(*s), budget=300, bounds={"B,L,H,W": s[:4]})
    for op in ("add", "sub", "mul", "div", "scale_", "offset_", "rotate", "transform", "transform_post", "pinhole", "clone", "append"):
        for counts, touch in (((1, 3), 0), ((2, 0, 1), 1)) + ((((3, 1, 0, 2), 0),) if t else ()):
            yield Case("cloud_%s_%s" % (op, "-".join(map(str, counts))), clouds(op, counts, A4 if op != "pinhole" else ("points",), touch), budget=200, bounds={"points per element": counts})
    q = [((1, 2), 2, 3, False), ((0, 1), 2, 2, True), ((2, 1), 3, 2, True)] + ([((1, 1, 2), 2, 2, False)] if t else [])
    for s in q:
        yield Case("active_%s" % "-".join(map(str, s[0])), active(*s), budget=400, max_paths=5000, bounds={"points per element": s[0], "H,W": s[1:3]})
    q = [((2, 1), 2, 3, False, [(0, 1, 1, 2), (0, 0, 1, 2), (1, 0, 1, 2)], .25, .5), ((1, 2), 2, 2, True, [(1, 1, 0, 0), (0, 0, 0, 0), (1, 0, 0, 0)], .5, 0), ((0, 2), 2, 2, False, [(1, 1, 1, 0), (1, 0, 1, 0)], 1, 0)]
    if t:
        q += [((2, 2), 2, 2, False, [(1, 1, 0, 0), (0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0)], .5, 0)]
    for k, s in enumerate(q):
        yield Case("filters%d_%s" % (k, "-".join(map(str, s[0]))), filters(*s), budget=400, max_paths=5000, feas_ms=300, bounds={"points per element": s[0], "H,W": s[1:3], "rows": s[4], "depth, pose": "fixed; map free"})
    q = [((2, 1), 2, 2, False, [(0, 1, 0, 1), (1, 0, 0, 0)], False), ((1, 3), 2, 2, True, [(1, 2, 0, 1), (1, 0, 1, 1)], True), ((0, 2), 2, 2, False, [(1, 1, 1, 1)], True)]
    if t:
        q += [((2, 1, 1), 2, 2, True, [(0, 1, 0, 1), (2, 0, 0, 0)], False)]
    for k, s in enumerate(q):
        yield Case("fuse%d_%s" % (k, "-".join(map(str, s[0]))), fuse(*s), budget=400, max_paths=20000, feas_ms=300, bounds={"points per element": s[0], "H,W": s[1:3], "rows": s[4]})
    for k, s in enumerate([((2, 1), 2, 2, False, [], True, True), ((0, 1), 2, 2, True, [], False, True)]):
        yield Case("aggregate%d" % k, fuse(*s), budget=400, max_paths=20000, feas_ms=300, bounds={"points per element": s[0], "H,W": s[1:3]})
    dA, dB, dZ = [1, 1.5, 0, 2, 1.25, 0, 1, 1], [0, 2, 1, 1, 2, 1.5, 1, 0], [0] * 8
    q = [("fusion", "gt", 2, [dA, dB], [EYE, PZ]), ("fusion", "gt", 2, [dA, dZ], [PZ, EYE], 1, True), ("icp", "gt", 2, [dZ, dB], [PZ, EYE]),
         ("fusion", "icp", 2, [dA, dB], [PZ, EYE]), ("icp", "gradicp", 2, [dB, dA], [EYE, PZ], 1, True), ("fusion", "gradicp", 2, [dA, dB], None)]
    if t:
        q += [("fusion", "gt", 3, [dA + dB[:4], dB + dA[4:]], [EYE, PZ]), ("fusion", "icp", 3, [dA + dB[:4], dB + dA[4:]], None), ("fusion", "gt", 2, [dA, dZ, dB], [PZ, EYE, PZ])]
    for k, s in enumerate(q):
        yield Case("slam%d_%s_%s" % ((k,) + s[:2]), slam(*s), budget=400, max_paths=5000, feas_ms=300, bounds={"B,L": (len(s[3]), s[2]), "depth": s[3], "poses": s[4]})
    for s in [((2, 3), [(0, 1), (1, 2), (1, 0)], 2), ((2, 0, 1), [(2, 0), (0, 0), (0, 1)], 3)]:
        yield Case("down_%s" % "-".join(map(str, s[0])), down(*s), budget=300, max_paths=5000, bounds={"points per element": s[0], "rows": s[1]})
    for s in [(2, 2, 3, 2, False, "affine"), (2, 3, 2, 2, True, None)] + ([(2, 2, 2, 1, True, "affine")] if t else []):
        yield Case("frames_%dx%dx%d_ds%d_cf%d" % s[:5], down_frames(*s), budget=300, max_paths=5000, feas_ms=300, bounds={"B,H,W": s[:3], "ratio": s[3]})
    for kind in ("icp", "gradicp", "gt"):
        yield Case("odometry_%s" % kind, odometry(kind, (2, 1, 3), (1, 3, 2)), budget=300, bounds={"points per element": [(2, 1, 3), (1, 3, 2)]})
    for s in [("icp", "map", False), ("icp", "live", True), ("gradicp", "map", True), ("gradicp", "map live", False)]:
        yield Case("odometry_empty_%s_%s_%d" % (s[0], s[1].replace(" ", "_"), s[2]), odometry_empty(*s), budget=200, bounds={"points of the other element": 4, "iterations": 1})
    yield Case("geometry", geometry(), budget=300, bounds={"B": 2})


ASSUMPTIONS = ["whole runs (slam*): listed depths and poses, free colors, the estimator an arbitrary function of the clouds it is given"]
