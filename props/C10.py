"""C10: rotations and rigid transforms of clouds"""
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .clouds import *


def matrix(c, name, B, n, batched):
    """affine (n=4) or linear (n=3) matrices, shared or one per cloud; returns tensor, [R_b], [t_b]"""
    k = B if batched else 1
    arr = empty((k, n, n))
    for b in range(k):
        for i in range(3):
            for j in range(3):
                arr[b, i, j] = c.number("%s%d[%d,%d]" % (name, b, i, j))
        if n == 4:
            for i in range(3):
                arr[b, i, 3] = c.number("%s%d.t%d" % (name, b, i))
                arr[b, 3, i] = 0.0
            arr[b, 3, 3] = 1.0
    t = c.tensor(arr if batched else arr[0])
    R = [arr[b if batched else 0, :3, :3] for b in range(B)]
    tv = [arr[b if batched else 0, :3, 3] if n == 4 else np.array([0.0] * 3, dtype=object) for b in range(B)]
    return t, R, tv


def moved(m, R, tv, pre):
    o = m.copy()
    o.points = [ew(rot_rows(x, R[b], pre), lambda v, j: v + tv[b][j]) for b, x in enumerate(m.points)]
    if m.normals is not None:
        o.normals = [rot_rows(x, R[b], pre) for b, x in enumerate(m.normals)]
    return o


def moves(counts, attrs, padded):
    def h(c):
        B = len(counts)
        pc, m = make(c, "a", counts, attrs, padded)
        how = ("rotate", "rotate_", "transform", "transform_", "matmul3", "matmul4")[c.choose("how", 6)]
        batched = c.branch(c.flag("batched"))
        pre = c.branch(c.flag("pre"))
        touched = c.choose("before", 3)
        if touched == 1:
            c.run(lambda: (pc.points_padded, pc.nonpad_mask))
        elif touched == 2:
            c.run(lambda: (pc.points_list, pc.normals_list, pc.colors_list))
        n = 3 if "rot" in how or how.endswith("3") else 4
        t, R, tv = matrix(c, "M", B, n, batched)
        src = m.copy()
        if how.startswith("matmul"):
            out = moved(m, R, tv, False)
            r = c.run(lambda: pc @ t)
        else:
            out = moved(m, R, tv, pre)
            if pre and c.branch(c.flag("default")):
                r = c.run(lambda: getattr(pc, how)(t))      # pre-multiplication is the default
            else:
                r = c.run(lambda: getattr(pc, how)(t, pre_multiplication=pre))
        verify(c, r, out, "result ", views=("list", "padded", "mask"))
        if how.endswith("_"):
            c.check(r is pc, "in place returns self")
        else:
            verify(c, pc, src, "source ")
    return h


def compose(counts, attrs, pre):
    def h(c):
        from gradslam.geometry import geometryutils as G
        B = len(counts)
        pc, m = make(c, "a", counts, attrs)
        t1, R1, v1 = matrix(c, "A", B, 4, False)
        t2, R2, v2 = matrix(c, "B", B, 4, False)
        a = c.run(lambda: pc.transform(t1, pre_multiplication=True).transform(t2, pre_multiplication=True))
        b = c.run(lambda: pc.transform(G.compose_transformations(t2.unsqueeze(0), t1.unsqueeze(0))[0]))
        b2 = c.run(lambda: pc.transform(G.compose_transforms_3d(t2, t1)))
        for k in range(B):
            for x in ("points", "normals"):
                w = as_list(c, b, x)[k]
                c.check_eq(as_list(c, a, x)[k], w, "%s composed %d" % (x, k), tol=1e-2)
                c.check_eq(as_list(c, b2, x)[k], w, "%s composed(3d) %d" % (x, k), tol=1e-2)
        # row-vector convention: rotations compose the other way round
        r1, r2 = c.run(lambda: t1[:3, :3]), c.run(lambda: t2[:3, :3])
        d = c.run(lambda: (pc @ r1) @ r2)
        e = c.run(lambda: pc @ (r1 @ r2))
        for k in range(B):
            for x in ("points", "normals"):
                c.check_eq(as_list(c, d, x)[k], c.E(as_list(c, e, x)[k]), "%s row convention %d" % (x, k), tol=1e-2)
    return h


def inverse(counts, attrs, batched):
    def h(c):
        from gradslam.geometry import geometryutils as G
        B = len(counts)
        pc, m = make(c, "a", counts, attrs)
        T, arr = rigid(c, "T", (B,) if batched else ())
        Ti = c.run(lambda: G.inverse_transformation(T if batched else T.unsqueeze(0)))
        if not batched:
            Ti = c.run(lambda: Ti[0])
        q = c.run(lambda: pc.transform(T).transform(Ti))
        verify(c, q, m, "there and back ", tol=1e-2)
    return h


def helpers(counts):
    """free helpers agree with the cloud methods"""
    def h(c):
        from gradslam.geometry import geometryutils as G
        pc, m = make(c, "a", counts, ("points", "normals"))
        T, R, tv = matrix(c, "M", len(counts), 4, False)
        out = moved(m, R, tv, True)
        p = c.run(lambda: pc.transform(T))
        for b in range(len(counts)):
            if not counts[b]:
                continue
            x = c.run(lambda: pc.points_list[b])
            n = c.run(lambda: pc.normals_list[b])
            g = c.run(lambda: G.transform_pts_3d(x, T))
            c.check_eq(g, out.points[b], "transform_pts_3d %d" % b)
            g = c.run(lambda: G.transform_pointcloud(x, T))
            c.check_eq(g, out.points[b], "transform_pointcloud %d" % b)
            g = c.run(lambda: G.transform_normals(n, T))
            c.check_eq(g, out.normals[b], "transform_normals %d" % b)
            c.check_eq(c.run(lambda: p.points_list[b]), out.points[b], "cloud %d" % b)
    return h


def project(counts, batched, padded):
    def h(c):
        B = len(counts)
        pc, m = make(c, "a", counts, ("points", "normals", "colors"), padded)
        K = empty((B, 4, 4))
        par = []
        for b in range(B if batched else 1):
            fx, fy, cx, cy = [c.number("K%d.%s" % (b, s), lo, None) for s, lo in (("fx", .5), ("fy", .5), ("cx", None), ("cy", None))]
            par.append((fx, fy, cx, cy))
            K[b] = np.array([[fx, 0, cx, 0], [0, fy, cy, 0], [0, 0, 1, 0], [0, 0, 0, 1]], dtype=object)
        t = c.tensor(K if batched else K[0])
        for b in range(B):
            for i in range(counts[b]):
                c.fact(m.points[b][i, 2], 0.125)
        r = c.run(lambda: pc.pinhole_projection(t))
        out = m.copy()
        for b in range(B):
            fx, fy, cx, cy = par[b if batched else 0]
            for i in range(counts[b]):
                x, y, z = m.points[b][i]
                out.points[b][i] = [fx * x / z + cx, fy * y / z + cy, 1.0]
        verify(c, r, out, "projected ")
        verify(c, pc, m, "source ")
        q = c.run(lambda: pc.pinhole_projection_(t))
        c.check(q is pc, "in place returns self")
        verify(c, pc, out, "in place ")
    return h


def rejects(counts):
    def h(c):
        pc, m = make(c, "a", counts, ATTR)
        B = len(counts)
        for s in ((3,), (2, 2), (4, 4), (B + 1, 3, 3), (1, 1, 3, 3), (3, 4)):
            c.check(c.raises(lambda: c.run(lambda: pc.rotate_(c.real("r%s" % (s,), s))), (ValueError, TypeError)), "rotate_ %s rejected" % (s,))
        for s in ((3,), (3, 3), (B + 1, 4, 4), (1, 1, 4, 4), (3, 4)):
            c.check(c.raises(lambda: c.run(lambda: pc.transform_(c.real("t%s" % (s,), s))), (ValueError, TypeError)), "transform_ %s rejected" % (s,))
        for f in (lambda: pc.rotate_(1.0), lambda: pc.transform_([[1.0]]), lambda: pc.pinhole_projection_(2.0)):
            c.check(c.raises(lambda: c.run(f), TypeError), "non tensor rejected")
        c.check(c.raises(lambda: c.run(lambda: pc @ 2.0), (NotImplementedError, TypeError)), "matmul number rejected")
        verify(c, pc, m)
    return h


def cases(tier):
    q = [((2, 1), ATTR, False), ((0, 2), ("points", "normals"), False), ((2, 2), ("points", "normals", "features"), True), ((1, 2, 1), ("points", "colors"), False)]
    q += [((3, 1, 0, 2), ATTR, False), ((3, 3, 3), ATTR, True)]
    if tier == "thorough":
        q += [((5, 0, 4, 2), ATTR, False), ((1, 1, 1, 1), ATTR, False), ((4, 4, 4, 4), ATTR, True)]
    for s in q:
        yield Case("moves_%s_pad%d" % ("-".join(map(str, s[0])), s[2]), moves(*s), budget=400, max_paths=5000, bounds={"counts": s[0], "attributes": s[1]})
    for pre in (True,):
        yield Case("compose", compose((2, 1), ATTR, pre), budget=300, bounds={"counts": (2, 1)})
    yield Case("inverse_shared", inverse((2, 1), ("points", "normals"), False), budget=300, bounds={"counts": (2, 1)})
    yield Case("inverse_per_cloud", inverse((1, 2), ("points", "normals"), True), budget=300, bounds={"counts": (1, 2)})
    yield Case("helpers", helpers((2, 1)), bounds={"counts": (2, 1)})
    yield Case("project_shared", project((2, 1), False, False), bounds={"counts": (2, 1)})
    yield Case("project_per_cloud", project((0, 2), True, False), bounds={"counts": (0, 2)})
    yield Case("project_padded", project((1, 1), True, True), bounds={"counts": (1, 1)})
    yield Case("rejects", rejects((2, 1)))


ASSUMPTIONS = ["rigid inverses: rotations parametrised by a quaternion of squared norm at least 1/4", "projected points have depth of at least 1/8"]
