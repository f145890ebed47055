"""C15: group laws of the rigid transform helpers"""
import numpy as np
import torch
from symx.engine import Case
from .common import *

ZERO34 = np.array([[0, 0, 0, 1.0]], dtype=object)


def mm(A, B):
    """product of (affine) object matrices"""
    n = A.shape[-1]
    o = empty(A.shape[:-1] + (B.shape[-1],))
    for ix in np.ndindex(*o.shape):
        o[ix] = sum(A[ix[:-1] + (k,)] * B[ix[:-2] + (k, ix[-1])] for k in range(n))
    return o


def eye(shape):
    o = empty(shape + (4, 4))
    o[...] = np.eye(4)
    return o


def algebra(shape, rig):
    """composition is the matrix product, for any affine matrices; inverse of a rigid one"""
    def h(c):
        from gradslam.geometry import geometryutils as G
        mk = (lambda n: rigid(c, n, shape)) if rig else (lambda n: affine(c, n, shape))
        A, a = mk("A")
        B, b = mk("B")
        ab = mm(a, b)
        for nm, f in (("compose_transforms_3d", G.compose_transforms_3d), ("compose_transformations", G.compose_transformations)):
            r = c.run(lambda: f(A, B))
            c.check_eq(r, ab, nm)
            if not rig:
                C, cc = mk("C")
                l = c.run(lambda: f(f(A, B), C))
                rr = c.run(lambda: f(A, f(B, C)))
                c.check_eq(l, c.E(rr), nm + " associative", tol=1e-2)
                c.check_eq(l, mm(ab, cc), nm + " threefold", tol=1e-2)
                E = c.tensor(eye(shape))
                c.check_eq(c.run(lambda: f(A, E)), a, nm + " right identity")
                c.check_eq(c.run(lambda: f(E, A)), a, nm + " left identity")
        c.check_eq(A, a, "first argument unchanged")
        c.check_eq(B, b, "second argument unchanged")
    return h


def inverse(shape):
    def h(c):
        from gradslam.geometry import geometryutils as G
        A, a = rigid(c, "A", shape)
        for nm, f in (("inverse_transfom_3d", G.inverse_transfom_3d), ("inverse_transformation", G.inverse_transformation)):
            r = c.run(lambda: f(A))
            e = c.E(r)
            c.check_eq(mm(a, e), eye(shape), nm + " right inverse", tol=1e-2)
            c.check_eq(mm(e, a), eye(shape), nm + " left inverse", tol=1e-2)
            c.check_eq(c.run(lambda: f(f(A))), a, nm + " involution", tol=1e-2)
        c.check_eq(A, a, "argument unchanged")
    return h


def bounded_det(c, a, shape):
    for ix in np.ndindex(*shape):
        m = a[ix]
        det = (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0]) +
               m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))
        c.fact(det, 0.25)


def relative(shape, how):
    def h(c):
        from gradslam.geometry import geometryutils as G
        if how == "general":
            # arbitrary affine first pose (the library accepts imperfect rotations) of bounded condition
            A, a = affine(c, "A", shape)
            bounded_det(c, a, shape)
            B, b = affine(c, "B", shape)
            r = c.run(lambda: G.relative_transformation(A, B))
            c.check_eq(mm(a, c.E(r)), b, "composing the first with the relative transform gives the second", tol=5e-2)
            r2 = c.run(lambda: G.relative_transformation(A, B, orthogonal_rotations=False))
            c.check_eq(r2, c.E(r), "the default is the general inverse")
            return
        A, a = rigid(c, "A", shape)
        B, b = affine(c, "B", shape)
        if how == "inverse":
            bounded_det(c, a, shape)        # (implied: the determinant of a rotation is one)
        f = {"orthogonal": lambda: G.relative_transformation(A, B, orthogonal_rotations=True),
             "3d": lambda: G.relative_transform_3d(A, B), "inverse": lambda: G.relative_transformation(A, B)}[how]
        r = c.run(f)
        ai = c.E(c.run(lambda: G.inverse_transfom_3d(A)))
        c.check_eq(r, mm(ai, b), "inverse(T1) T2", tol=1e-2)
        if how != "inverse":
            c.check_eq(mm(a, c.E(r)), b, "composing gives T2", tol=1e-2)
        c.check_eq(A, a, "first argument unchanged")
        c.check_eq(B, b, "second argument unchanged")
    return h


def points(shape):
    """all point helpers: p -> R p + t"""
    def h(c):
        from gradslam.geometry import geometryutils as G
        T, m = affine(c, "T", ())
        for dim in (3, 4):
            t = c.real("p", shape + (3,))
            p = c.E(t)
            w = empty(shape + (3,))
            for ix in np.ndindex(*shape):
                for i in range(3):
                    w[ix + (i,)] = sum(m[i, j] * p[ix + (j,)] for j in range(3)) + m[i, 3]
            if dim == 4:
                x = c.run(lambda: G.homogenize_points(t))
            else:
                x = t
            r = c.run(lambda: G.transform_pts_3d(x, T))
            c.check_eq(r, w, "transform_pts_3d (%d coordinates)" % dim)
        c.check_eq(t, p, "points unchanged")
        if len(shape) == 1:
            c.check_eq(c.run(lambda: G.transform_pointcloud(t, T)), w, "transform_pointcloud")
            n = c.run(lambda: G.transform_normals(t, T))
            for ix in np.ndindex(*shape):
                for i in range(3):
                    w[ix + (i,)] = sum(m[i, j] * p[ix + (j,)] for j in range(3))
            c.check_eq(n, w, "transform_normals")
            c.check_eq(t, p, "points unchanged")
    return h


def points_nd(B, N, D):
    def h(c):
        from gradslam.geometry import geometryutils as G
        t = c.real("p", (B, N, D))
        p = c.E(t)
        M = empty((B, D + 1, D + 1))
        for ix in np.ndindex(*M.shape):
            M[ix] = c.number("M%s" % (list(ix),)) if ix[1] < D else (1.0 if ix[2] == D else 0.0)
        r = c.run(lambda: G.transform_pts_nd_KF(t, c.tensor(M)))
        w = empty((B, N, D))
        for b, k, i in np.ndindex(B, N, D):
            w[b, k, i] = sum(M[b, i, j] * p[b, k, j] for j in range(D)) + M[b, i, D]
        c.check_eq(r, w, "transform_pts_nd_KF")
    return h


def action(shape):
    """transforming by A then B is transforming by the composition B A; rigid motions keep distances"""
    def h(c):
        from gradslam.geometry import geometryutils as G
        A, a = affine(c, "A", ())
        B, b = affine(c, "B", ())
        t = c.real("p", shape + (3,))
        C = c.run(lambda: G.compose_transforms_3d(B, A))
        for nm in ("transform_pts_3d", "transform_pointcloud") if len(shape) == 1 else ("transform_pts_3d",):
            f = getattr(G, nm)
            x = c.run(lambda: f(f(t, A), B))
            y = c.run(lambda: f(t, C))
            c.check_eq(x, c.E(y), nm + " twice", tol=1e-2)
        R, r = rigid(c, "R", ())
        p = c.E(t).reshape(-1, 3)
        q = c.E(c.run(lambda: G.transform_pts_3d(t, R))).reshape(-1, 3)
        for i in range(len(p)):
            for j in range(i):
                c.check_eq([sum((q[i] - q[j]) ** 2)], [sum((p[i] - p[j]) ** 2)], "distances are kept", tol=1e-2)
        back = c.run(lambda: G.transform_pts_3d(G.transform_pts_3d(t, R), G.inverse_transfom_3d(R)))
        c.check_eq(back, c.E(t), "there and back", tol=1e-2)
    return h


def pixel(shape, H, W):
    """cam2pixel / pixel2cam / grids / pixel normalisation"""
    def h(c):
        from gradslam.geometry import geometryutils as G
        T, m = affine(c, "T", ())
        pa = empty(shape + (H, W, 3))
        for ix in np.ndindex(*pa.shape):
            pa[ix] = c.number("p%s" % (list(ix),))
        t = c.tensor(pa)
        r = c.run(lambda: G.cam2pixel(t, T))
        w = empty(shape + (H, W, 2))
        w3 = empty(shape + (H, W, 3))
        for ix in np.ndindex(*(shape + (H, W))):
            x, y, z = [sum(m[i, j] * pa[ix + (j,)] for j in range(3)) + m[i, 3] for i in range(3)]
            w3[ix] = [x, y, z]
            d = c.ite(z == 0, 1.0, z)
            w[ix] = [x / d, y / d]
        c.check_eq(r, w, "cam2pixel", tol=1e-2)
        dep = c.real("d", shape + (1, H, W))
        q = c.run(lambda: G.pixel2cam(dep, T, t))
        dd = c.E(dep)
        for ix in np.ndindex(*(shape + (H, W))):
            w3[ix] = [v * dd[ix[0], 0, ix[1], ix[2]] for v in w3[ix]]
        c.check_eq(q, w3, "pixel2cam", tol=1e-2)
    return h


def grids(H, W):
    def h(c):
        from gradslam.geometry import geometryutils as G
        g = c.run(lambda: G.create_meshgrid(H, W, False))
        w = empty((1, H, W, 2))
        for r in range(H):
            for k in range(W):
                w[0, r, k] = [float(r), float(k)]
        c.check_eq(g, w, "pixel grid")
        n = c.run(lambda: G.create_meshgrid(H, W, True))
        c.check_eq(c.run(lambda: G.normalize_pixel_coords(g, H, W)), c.E(n), "normalised grid")
        x = c.real("x", (2, 2))
        e = c.E(x)
        y = c.run(lambda: G.normalize_pixel_coords(x, H, W))
        v = empty((2, 2))
        for ix in np.ndindex(2, 2):
            v[ix] = e[ix] * 2.0 / ((H if ix[1] == 0 else W) - 1) - 1
        c.check_eq(y, v, "normalised coordinates")
        c.check_eq(c.run(lambda: G.unnormalize_pixel_coords(y, H, W)), e, "there and back", tol=1e-2)
    return h


def rejects():
    def h(c):
        from gradslam.geometry import geometryutils as G
        R = lambda s: c.real("x%s" % (s,), s)
        bad = [(lambda: G.transform_pts_3d(R((3,)), R((4, 4))), ValueError), (lambda: G.transform_pts_3d(R((2, 3)), R((2, 4, 4))), ValueError),
               (lambda: G.transform_pts_3d(R((2, 3)), R((3, 4))), ValueError), (lambda: G.transform_pts_3d([1], R((4, 4))), TypeError),
               (lambda: G.transform_pts_3d(R((2, 3)), 1), TypeError), (lambda: G.transform_pointcloud(R((2, 2)), R((4, 4))), ValueError),
               (lambda: G.transform_pointcloud(R((1, 2, 3)), R((4, 4))), ValueError), (lambda: G.transform_pointcloud(R((2, 3)), R((3, 3))), ValueError),
               (lambda: G.transform_normals(R((2, 2)), R((4, 4))), ValueError), (lambda: G.transform_normals(R((2, 3)), R((3, 4))), ValueError),
               (lambda: G.transform_normals(1, R((3, 4))), TypeError), (lambda: G.transform_pts_nd_KF(R((2, 2, 3)), R((3, 4, 4))), ValueError),
               (lambda: G.transform_pts_nd_KF(R((2, 2, 3)), R((2, 3, 3))), ValueError), (lambda: G.relative_transformation(R((4, 4)), R((1, 4, 4))), ValueError),
               (lambda: G.relative_transformation(1, R((1, 4, 4))), TypeError), (lambda: G.relative_transformation(R((4, 4)), 2), TypeError),
               (lambda: G.inverse_transfom_3d(1), TypeError), (lambda: G.compose_transforms_3d(1, R((4, 4))), TypeError)]
        for k, (f, t) in enumerate(bad):
            c.check(c.raises(lambda: c.run(f), t), "bad call %d rejected" % k)
    return h


def cases(tier):
    deep = True
    for s in [(), (2,)] + ([(3,), (1,)] if deep else []):
        for rig in (False, True):
            yield Case("algebra_%s_rigid%d" % (s, rig), algebra(s, rig), budget=200, bounds={"batch": s})
        yield Case("inverse_%s" % (s,), inverse(s), budget=200, bounds={"batch": s})
        for how in ("orthogonal", "3d", "inverse"):
            yield Case("relative_%s_%s" % (how, s), relative(s, how), budget=200, bounds={"batch": s})
        yield Case("relative_general_%s" % (s,), relative(s, "general"), budget=200, bounds={"batch": s})
    for s in [(2,), (1,), (2, 2), (1, 2, 2), (0,)] + ([(5,), (2, 1, 3), (2, 2, 2), (3, 4)] if deep else []):
        if s != (0,):
            yield Case("points_%s" % (s,), points(s), bounds={"points": s})
    for s in [(2, 2, 3), (1, 1, 2), (2, 1, 1)] + ([(3, 2, 4), (2, 3, 3)] if deep else []):
        yield Case("points_nd_%s" % (s,), points_nd(*s), bounds={"B,N,D": s})
    for s in [(2,), (1, 1, 2)] + ([(3,), (2, 2)] if deep else []):
        yield Case("action_%s" % (s,), action(s), budget=200, bounds={"points": s})
    yield Case("pixel_1", pixel((1,), 2, 1), bounds={"B,H,W": (1, 2, 1)})
    yield Case("pixel_2", pixel((2,), 1, 2), bounds={"B,H,W": (2, 1, 2)})
    for hw in [(2, 3), (4, 2)] + ([(5, 7)] if deep else []):
        yield Case("grids_%dx%d" % hw, grids(*hw), bounds={"H,W": hw})
    yield Case("rejects", rejects())


ASSUMPTIONS = ["rotations parametrised by a quaternion of squared norm at least 1/4; general first poses have a rotation block of determinant at least 1/4",
               "pixel normalisation for images of at least two rows and columns"]
