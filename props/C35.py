"""C35: gradients flow and equal the true derivatives"""
import itertools

import numpy as np
import torch
from symx.engine import Case
from .common import *
from .fusion import *


def geometry(name, value):
    def h(c):
        from gradslam.geometry import geometryutils as G, projutils as P, se3utils as S
        r = lambda n, s, lo=None, hi=None: c.real(n, s, lo, hi)
        if name == "homogenize":
            fn, xs = (lambda x: [G.homogenize_points(x), P.homogenize_points(x)]), [r("x", (2, 3))]
        elif name == "unhomogenize":
            fn, xs = (lambda x: [G.unhomogenize_points(x), P.unhomogenize_points(x)]), [r("x", (2, 4))]
        elif name == "unhomogenize2":
            fn, xs = (lambda x: P.unhomogenize_points(x)), [r("x", (1, 2, 3))]
        elif name in ("project", "project_near"):
            K, _ = intrinsics(c, "K", 1)
            x = r("x", (2, 3), *((-4, 4) if name == "project" else (None, None)))
            fn, xs = (lambda x, K: P.project_points(x, K)), [x, c.run(lambda: K[0, 0].clone())]
        elif name == "unproject":
            K, _ = intrinsics(c, "K", 1, lo=.5)
            fn, xs = (lambda p, d, K: P.unproject_points(p, P.inverse_intrinsics(K), d)), [r("p", (2, 2), -64, 64), r("d", (2,), 0, 64), c.run(lambda: K[0, 0, :3, :3].clone())]
        elif name == "inverse_intrinsics":
            K, _ = intrinsics(c, "K", 1)
            fn, xs = (lambda K: P.inverse_intrinsics(K)), [c.run(lambda: K[0].clone())]
        elif name == "transform_pointcloud":
            fn, xs = (lambda x, T: G.transform_pointcloud(x, T)), [r("x", (2, 3)), affine(c, "T", ())[0]]
        elif name == "transform_normals":
            fn, xs = (lambda x, T: G.transform_normals(x, T)), [r("x", (2, 3)), affine(c, "T", ())[0]]
        elif name == "relative":
            a, b = affine(c, "A", (1,)), affine(c, "B", (1,))
            fn, xs = (lambda a, b: G.relative_transformation(a, b, orthogonal_rotations=True)), [a[0], b[0]]
        elif name == "inverse_transform":
            fn, xs = (lambda a: G.inverse_transfom_3d(a)), [affine(c, "A", (1,))[0]]
        elif name == "compose":
            fn, xs = (lambda a, b: G.compose_transforms_3d(a, b)), [affine(c, "A", (1,))[0], affine(c, "B", (1,))[0]]
        elif name == "transform_pts":
            fn, xs = (lambda p, t: G.transform_pts_3d(p, t)), [r("p", (2, 3)), affine(c, "A", ())[0]]
        elif name == "so3_hat":
            fn, xs = (lambda w: S.so3_hat(w)), [r("w", (3,))]
        elif name == "se3_hat":
            fn, xs = (lambda w: S.se3_hat(w)), [r("w", (6,))]
        elif name == "so3_exp":
            fn, xs = (lambda w: S.so3_exp(w)), [r("w", (3,), -3, 3)]
        elif name == "se3_exp":
            fn, xs = (lambda w: S.se3_exp(w)), [r("w", (6,), -3, 3)]
        elif name == "quaternion_rotation":
            q = r("q", (1, 4), -2, 2)
            e = c.E(q)[0]
            c.fact(sum(x * x for x in e), .0625)
            fn, xs = (lambda q: G.quaternion_to_rotation_matrix(q)), [q]
        elif name == "normalize_quaternion":
            q = r("q", (1, 4), -2, 2)
            e = c.E(q)[0]
            c.fact(sum(x * x for x in e), .0625)
            fn, xs = (lambda q: G.normalize_quaternion(q)), [q]
        elif name == "axisangle":
            q = r("q", (1, 4), -1, 1)
            fn, xs = (lambda q: G.quaternion_to_axisangle(q)), [q]
        elif name == "pixel_coords":
            fn, xs = (lambda p: [G.normalize_pixel_coords(p, 4, 6), G.unnormalize_pixel_coords(p, 4, 6)]), [r("p", (1, 2, 2, 2))]
        c.check_grad(fn, xs, name, value=value)
    return h


def maps(attr, pattern, H, W, value, which, rows=None, flat=False, fixK=False, fixD=False, oneK=None):
    """derived maps of a frame whose missing depths are zero; which: inputs to differentiate by"""
    def h(c):
        from gradslam.structures.rgbdimages import RGBDImages
        d = empty((1, 1, H, W, 1))
        for k, ix in enumerate(np.ndindex(H, W)):
            d[0, 0, ix[0], ix[1], 0] = (2.0 if flat else [1.5, 2.0, 1.0, 1.25, 3.0, 2.5][k] if fixD else c.number("d%d" % k, .25, 8)) if pattern[k] else 0.0
        rgb = c.real("rgb", (1, 1, H, W, 3))
        if fixK:
            k = np.array([[[[2.0, 0, .5, 0], [0, 1.5, .25, 0], [0, 0, 1.0, 0], [0, 0, 0, 1.0]]]], dtype=object)
            if oneK:
                k[0, 0][oneK] = c.number("k", .5 if oneK[0] == oneK[1] else None)
            K = c.tensor(k if c.symbolic else k.astype(float))
        else:
            K, _ = intrinsics(c, "K", 1)
        P, _ = affine(c, "P", (1, 1))
        x = {"d": c.tensor(d if c.symbolic else d.astype(float)), "K": K, "P": P}
        names = list(which)

        def fn(*a):
            y = dict(x, **dict(zip(names, a)))
            im = RGBDImages(rgb, y["d"], y["K"], y["P"])
            return getattr(im, attr)
        leaves = [c.run(lambda: x[n].clone().detach()) for n in names]
        c.check_grad(fn, leaves, attr, value=value, rows=rows)
    return h


def clouds(op, value, counts=(2, 1)):
    """cloud operations by the points, normals and the parameter"""
    def h(c):
        from gradslam.structures.pointclouds import Pointclouds
        pts = [c.real("p%d" % b, (n, 3), *((-4, 4) if op == "pinhole" else (None, None))) for b, n in enumerate(counts)]
        nrm = [c.real("n%d" % b, (n, 3)) for b, n in enumerate(counts)]
        B = len(counts)
        par = {"offset": lambda: c.real("o", (B, 1, 3)), "scale": lambda: c.real("k", (B, 1, 1)), "div": lambda: c.real("k", (B, 1, 1), .25, 4), "rotate": lambda: c.real("R", (3, 3)),
               "transform": lambda: affine(c, "T", (B,))[0], "pinhole": lambda: intrinsics(c, "K", B)[0], "padded": None, "append": None}[op]
        xs = pts + nrm + ([c.run(lambda: par().clone())] if par else [])

        def fn(*a):
            pc = Pointclouds([x for x in a[:B]], [x for x in a[B:2 * B]])
            q = a[2 * B] if par else None
            if op == "offset":
                pc = pc + q
            elif op == "scale":
                pc = pc * q
            elif op == "div":
                pc = pc / q
            elif op == "rotate":
                pc = pc.rotate(q)
            elif op == "transform":
                pc = pc.transform(q)
            elif op == "pinhole":
                pc = pc.pinhole_projection(q.squeeze(1))
            elif op == "append":
                pc = pc.clone()
                pc.append_points(pc)
            return [pc.points_padded, pc.normals_padded] + list(pc.points_list) + list(pc.normals_list)
        c.check_grad(fn, xs, op, value=value)
    return h


def fuse(counts, rows, value, cf, inplace, by, aggregate=False, dots=None):
    """the fusion update by the live depth, the pose and the map"""
    def h(c):
        from gradslam.slam import fusionutils as F
        from gradslam.structures.pointclouds import Pointclouds
        from gradslam.structures.rgbdimages import RGBDImages
        B, H, W = len(counts), 2, 2
        m = {}
        for a in ("points", "normals", "colors") + (() if aggregate else ("features",)):
            m[a] = [c.real("m%s%d" % (a[0], b), (n, 1 if a == "features" else 3), .25 if a == "features" else -4, 4) for b, n in enumerate(counts)]
        d = empty((B, 1, H, W, 1))
        miss = {(b, 1, 0) for b in range(B)}
        for ix in np.ndindex(B, H, W):
            d[ix[0], 0, ix[1], ix[2], 0] = 0.0 if ix in miss else c.number("d%d_%d_%d" % ix, .25, 4)
        D = c.tensor(d if c.symbolic else d.astype(float))
        rgb = c.real("rgb", (B, 1, H, W, 3))
        K, _ = intrinsics(c, "K", B)
        P, _ = const_pose(c, "P", ("mix", "z90")[:B])
        x = {"d": D, "rgb": rgb, "P": P, "K": K}
        for a in m:
            for b in range(B):
                x["m" + a[0] + str(b)] = m[a][b]
        tab = table(c, rows)
        leaves = [c.run(lambda: x[n].clone().detach()) for n in by]

        def fn(*v):
            y = dict(x, **dict(zip(by, v)))
            im = RGBDImages(y["rgb"], y["d"], y["K"], y["P"])
            if cf:
                im = im.to_channels_first()
            pc = Pointclouds(**{a: [y["m" + a[0] + str(b)] for b in range(B)] for a in m}).clone()
            r = F.update_map_aggregate(pc, im, inplace) if aggregate else F.fuse_with_map(pc, im, tab, .6, inplace=inplace)
            return [getattr(r, a + "_list")[b] for a in m for b in range(B)]
        nrm = range(B, 2 * B)      # the composition of the normal map with the update: each is checked on its own
        c.check_grad(fn, leaves, "fused", value=value, skip=(lambda q, k: q in nrm and by[k] in "dK") if value else None)
    return h


def linear(what, value):
    def h(c):
        from gradslam.odometry import icputils as U
        if what == "system":
            xs = [c.real("s", (1, 2, 3), -4, 4), c.real("t", (1, 2, 3), -4, 4), c.real("n", (1, 2, 3), -1, 1)]
            c.check_grad(lambda s, t, n: list(U.gauss_newton_solve(s, t, n)[:2]), xs, "system", value=value)
        else:
            m, n = what
            A, b, d = c.real("A", (m, n), -4, 4), c.real("b", (m, 1), -4, 4), c.real("d", (), 0, 4)
            a, dv = c.E(A), c.E(d).item()
            M = [[sum(a[k, i] * a[k, j] for k in range(m)) + (dv if i == j else 0) for j in range(n)] for i in range(n)]
            c.fact(M[0][0] * M[1][1] - M[0][1] * M[1][0] if n == 2 else M[0][0], .25)
            c.check_grad(lambda A, b, d: U.solve_linear_system(A, b, d), [A, b, d], "solve", value=value)
    return h


def icp(kind, iters, value, init=True):
    """the ICP loops by the source cloud, the initial transform and the solver's increments (linearisation and solve stand-ins
    that are smooth functions of their inputs; theirs are checked in the cases above)"""
    def h(c):
        from gradslam.odometry import icputils as U
        src, tgt, nrm = c.real("s", (1, 1, 3), -2, 2), c.real("t", (1, 1, 3), -2, 2), c.real("n", (1, 1, 3), -1, 1)
        xi = []
        for k in range(iters):      # translations: the exponential map has its own cases
            x = empty((6, 1))
            for i in range(6):
                x[i, 0] = c.number("xi%d.%d" % (k, i), -2, 2) if i < 3 else 0.0
            xi.append(c.tensor(x if c.symbolic else x.astype(float)))
        T0 = c.tensor(initial(c))
        count = [0]

        def gn(s, t, n, thresh=None):
            return torch.cat([n[0], n[0]], 1), ((t[0] - s[0]) * n[0]).sum(1, keepdim=True), torch.zeros(1, dtype=torch.int64)

        def solve(A, b, damp=1e-8):
            count[0] += 1
            return leaves[-1][count[0] - 1]

        leaves = [None]

        def fn(s, T, *x):
            count[0] = 0
            leaves[-1] = [v * 1.0 for v in x]
            sv = U.gauss_newton_solve, U.solve_linear_system
            U.gauss_newton_solve, U.solve_linear_system = gn, solve
            try:
                f = U.point_to_plane_ICP if kind == "lm" else U.point_to_plane_gradICP
                return (f(s, tgt, nrm, T, iters) if kind == "lm" else f(s, tgt, nrm, T, iters, nu=1))[0]
            finally:
                U.gauss_newton_solve, U.solve_linear_system = sv
        c.check_grad(fn, [src, T0] + xi, kind, value=value)
    return h


def initial(c):
    o = empty((4, 4))
    for i in range(3):
        for j in range(4):
            o[i, j] = c.number("T%d%d" % (i, j), -2, 2)
    o[3] = [0.0, 0.0, 0.0, 1.0]
    return o if c.symbolic else o.astype(float)


def zero_twist():
    """at zero rotation the derivative of the exponential is the generators', translation carried by half the rotation"""
    def h(c):
        from gradslam.geometry import se3utils as S
        x = empty((6,))
        for i in range(6):
            x[i] = c.number("v%d" % i, -4, 4) if i < 3 else 0.0
        xi = c.tensor(x if c.symbolic else x.astype(float))
        w0 = c.tensor(np.array([0.0, 0.0, 0.0]))
        v = c.E(xi)[:3]
        gen = lambda i: [[0.0 if j == k else (1.0 if (j - k) % 3 == 1 else -1.0) * (1.0 if i == 3 - j - k else 0.0) for k in range(3)] for j in range(3)]
        for leaf, fn, n in ((xi, S.se3_exp, 4), (w0, S.so3_exp, 3)):
            leaf.requires_grad_(True)
            o = c.run(lambda: fn(leaf))
            for i in range(n):
                for j in range(n):
                    g = c.run(lambda: torch.autograd.grad(o[i, j], leaf, retain_graph=True, allow_unused=True)[0])
                    g = np.zeros(leaf.shape[0]) if g is None else c.E(g)
                    want = [0.0] * len(g)
                    for k in range(3):
                        m = gen(k)
                        if i < 3 and j < 3:
                            want[len(g) - 3 + k] = m[i][j]
                        elif i < 3:
                            want[k] = 1.0 if i == k else 0.0
                            want[3 + k] = .5 * sum(m[i][q] * v[q] for q in range(3))
                    c.check_eq(g, np.array(want, dtype=object), "%s[%d,%d]" % (fn.__name__, i, j))
    return h


def cases(tier):
    t = tier == "thorough"
    G = ["homogenize", "unhomogenize", "unhomogenize2", "project", "project_near", "unproject", "inverse_intrinsics", "transform_pointcloud", "transform_normals", "relative", "inverse_transform",
         "compose", "transform_pts", "so3_hat", "se3_hat", "so3_exp", "se3_exp", "quaternion_rotation", "normalize_quaternion", "axisangle", "pixel_coords"]
    for n in G:
        for v in (True, False):
            yield Case("%s_%s" % (n, "value" if v else "finite"), geometry(n, v), budget=120, per_obl=10)
    yield Case("zero_twist", zero_twist())
    p2 = [(1, 1, 1, 1), (1, 0, 0, 1), (0, 1, 1, 1)]
    p3 = [(1, 1, 1, 1, 1, 1), (1, 1, 0, 1, 1, 1), (1, 0, 1, 1, 1, 1)]
    s = lambda p: "".join(map(str, p))
    for attr, which in (("vertex_map", "dK"), ("global_vertex_map", "dKP")):
        for p in p2:
            for v in (True, False):
                yield Case("%s_%s_%s" % (attr, s(p), "value" if v else "finite"), maps(attr, p, 2, 2, v, which), budget=120, per_obl=10)
    for attr, which in (("normal_map", "dK"), ("global_normal_map", "dKP")):
        for p in itertools.product((0, 1), repeat=4):
            yield Case("%s_%s_finite" % (attr, s(p)), maps(attr, p, 2, 2, False, which), budget=120, per_obl=10)
        yield Case("%s_flat_finite" % attr, maps(attr, (1, 1, 1, 1), 2, 2, False, which, flat=True), budget=120, per_obl=10)
        for p in p2:
            yield Case("%s_%s_value_d" % (attr, s(p)), maps(attr, p, 2, 2, True, "d", fixK=True), budget=120, per_obl=10)
            for ix in [(0, 2), (1, 2)]:
                yield Case("%s_%s_value_K%d%d" % ((attr, s(p)) + ix), maps(attr, p, 2, 2, True, "K", fixK=True, fixD=True, oneK=ix), budget=120, per_obl=10)
    if t:
        for p in itertools.product((0, 1), repeat=6):
            yield Case("normal_map_%s_23_finite" % s(p), maps("normal_map", p, 2, 3, False, "dK"), budget=300, per_obl=20)
        for p in p3:
            yield Case("normal_map_%s_23_value" % s(p), maps("normal_map", p, 2, 3, True, "d", fixK=True), budget=600, per_obl=60)
            yield Case("global_normal_map_%s_32_value" % s(p), maps("global_normal_map", p, 3, 2, True, "d", fixK=True), budget=600, per_obl=60)
    for op in ("offset", "scale", "div", "rotate", "transform", "pinhole", "padded", "append"):
        for v in (True, False):
            yield Case("cloud_%s_%s" % (op, "value" if v else "finite"), clouds(op, v), budget=120, per_obl=10)
    for k, a in enumerate([((2,), [(0, 1, 0, 1)], False, False, ("d", "rgb", "mp0", "mf0")), ((2,), [(0, 0, 0, 0)], True, True, ("P", "K", "mc0", "mn0")), ((1, 2), [(0, 0, 0, 1), (1, 1, 1, 1)], False, False, ("d", "mp1", "mf1"))]):
        for v in (True, False):
            yield Case("fuse%d_%s" % (k, "value" if v else "finite"), fuse(a[0], a[1], v, *a[2:]), budget=200, per_obl=20)
    for v in (True, False):
        yield Case("aggregate_%s" % ("value" if v else "finite"), fuse((1, 2), [], v, False, False, ("d", "P", "mp1", "mn0"), True), budget=200, per_obl=20)
    for v in (True, False):
        for w in ("system", (2, 1), (2, 2)):
            yield Case("linear_%s_%s" % (w if isinstance(w, str) else "%dx%d" % w, "value" if v else "finite"), linear(w, v), budget=200, per_obl=20)
        for kind in ("lm", "gradlm"):
            if t and kind == "lm":
                yield Case("icp2_%s_%s" % (kind, "value" if v else "finite"), icp(kind, 2, v), budget=800, per_obl=60)
            yield Case("icp_%s_%s" % (kind, "value" if v else "finite"), icp(kind, 1, v), budget=200, per_obl=20)


ASSUMPTIONS = ["equality with the derivative is asked off the boundaries of branches; finiteness everywhere the output is finite (real arithmetic: overflow is outside)",
               "normal maps: by depth with fixed intrinsics, by each principal point coordinate with fixed depth (the focal lengths act through the vertex map, which is checked)",
               "ICP loops: linearisation and solve are smooth stand-ins (differentiated on their own), translational increments, nu = 1",
               "fusion: the normals' derivatives by depth and intrinsics are those of the normal map and are checked there"]
