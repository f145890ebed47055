"""C13: projection, unprojection and the inverse-intrinsics helper"""
import itertools
import numpy as np
import torch
from symx.engine import Case
from .common import *

LO = 0.125


def pinhole(c, name, shape, size):
    """(*shape,size,size) intrinsics; object array of (fx,fy,cx,cy)"""
    arr = empty(tuple(shape) + (size, size))
    arr[...] = 0.0
    par = empty(shape) if shape else {}
    for ix in np.ndindex(*shape):
        fx, fy, cx, cy = [c.number("%s%s.%s" % (name, list(ix), s), lo) for s, lo in (("fx", .5), ("fy", .5), ("cx", None), ("cy", None))]
        arr[ix + (0, 0)], arr[ix + (1, 1)], arr[ix + (0, 2)], arr[ix + (1, 2)] = fx, fy, cx, cy
        arr[ix + (2, 2)] = 1.0
        arr[ix + (size - 1, size - 1)] = 1.0
        par[ix] = (fx, fy, cx, cy)
    return c.tensor(arr), par


def sel(kshape, ix):
    """index of the matrix used by point ix: leading axes shared with the points"""
    return ix[:len(kshape)]


def proj(pshape, kshape, dim):
    """general pinhole projection: formula, argument unchanged"""
    def h(c):
        from gradslam.geometry import projutils as P
        K, par = pinhole(c, "K", kshape, 4)
        p = empty(pshape + (dim,))
        for ix in np.ndindex(*pshape):
            for j in range(3):
                p[ix + (j,)] = c.number("p%s.%d" % (list(ix), j), LO if j == 2 else None)
            if dim == 4:
                p[ix + (3,)] = c.number("p%s.w" % (list(ix),))       # the pinhole matrix ignores w
        t = c.tensor(p)
        r = c.run(lambda: P.project_points(t, K))
        w = empty(pshape + (2,))
        for ix in np.ndindex(*pshape):
            fx, fy, cx, cy = par[sel(kshape, ix)]
            x, y, z = p[ix][:3]
            w[ix] = [fx * x / z + cx, fy * y / z + cy]
        c.check_eq(r, w, "projection")
        c.check_eq(t, p, "points unchanged")
    return h


def general(pshape, kshape, dim):
    """arbitrary 4x4 projection matrix: homogeneous product, divided by z; a zero z is left undivided (never infinite)"""
    def h(c):
        from gradslam.geometry import projutils as P
        M = c.real("M", kshape + (4, 4))
        m = c.E(M)
        t = c.real("p", pshape + (dim,))
        p = c.E(t)
        r = c.run(lambda: P.project_points(t, M))
        w = empty(pshape + (2,))
        for ix in np.ndindex(*pshape):
            mm = m[sel(kshape, ix)]
            q = list(p[ix]) + ([1.0] if dim == 3 else [])
            x, y, z = [sum(mm[i, j] * q[j] for j in range(4)) for i in range(3)]
            d = c.ite(z == 0, 1.0, z)
            w[ix] = [x / d, y / d]
        c.check_eq(r, w, "general projection")
        c.check_finite(r, "projection")
    return h


def unproj(pshape, kshape, dim):
    def h(c):
        from gradslam.geometry import projutils as P
        Ki = c.real("Ki", kshape + (3, 3))
        ki = c.E(Ki)
        t, d = c.real("uv", pshape + (dim,)), c.real("d", pshape)
        p, dd = c.E(t), c.E(d)
        r = c.run(lambda: P.unproject_points(t, Ki, d))
        w = empty(pshape + (3,))
        for ix in np.ndindex(*pshape):
            m = ki[sel(kshape, ix)]
            q = list(p[ix]) + ([1.0] if dim == 2 else [])
            w[ix] = [sum(m[i, j] * q[j] for j in range(3)) * dd[ix] for i in range(3)]
        c.check_eq(r, w, "unprojection")
        c.check_eq(t, p, "pixels unchanged")
        c.check_eq(d, dd, "depths unchanged")
    return h


def roundtrip(pshape, kshape, how):
    def h(c):
        from gradslam.geometry import projutils as P
        K, par = pinhole(c, "K", kshape, 4)
        K3 = c.run(lambda: K[..., :3, :3])
        Ki = c.run(lambda: torch.inverse(K3) if how == "inverse" else P.inverse_intrinsics(K3, eps=0.0))
        t, d = c.real("uv", pshape + (2,)), c.real("d", pshape, LO)
        x = c.run(lambda: P.unproject_points(t, Ki, d))
        c.check_eq(c.run(lambda: x[..., 2]), c.E(d), "depth of the unprojected point")
        u = c.run(lambda: P.project_points(x, K))
        c.check_eq(u, c.E(t), "pixel -> point -> pixel", tol=1e-2)
        pa = empty(pshape + (3,))
        for ix in np.ndindex(*pshape):
            for j in range(3):
                pa[ix + (j,)] = c.number("p%s.%d" % (list(ix), j), LO if j == 2 else None)
        q = c.tensor(pa)
        u = c.run(lambda: P.project_points(q, K))
        x = c.run(lambda: P.unproject_points(u, Ki, q[..., 2]))
        c.check_eq(x, pa, "point -> pixel -> point", tol=1e-2)
    return h


def kf(B, N):
    """the frame-to-frame projection helper: pinhole of the transformed point, one matrix per batch element"""
    def h(c):
        from gradslam.geometry import geometryutils as G
        K, par = pinhole(c, "K", (B,), 4)
        T = np.empty((B, 4, 4), object)
        T[...] = 0.0
        for b in range(B):
            for i in range(3):
                for j in range(4):
                    T[b, i, j] = c.number("T%d.%d%d" % (b, i, j))
            T[b, 3, 3] = 1.0
        t = c.real("p", (B, N, 3))
        p = c.E(t)
        M = c.run(lambda: torch.matmul(K, c.tensor(T)))
        r = c.run(lambda: G.cam2pixel_KF(t, M))
        w = empty((B, N, 2))
        for b in range(B):
            fx, fy, cx, cy = par[(b,)]
            for n in range(N):
                x, y, z = [sum(T[b, i, j] * p[b, n, j] for j in range(3)) + T[b, i, 3] for i in range(3)]
                d = c.ite(z == 0, 1.0, z)
                w[b, n] = [(fx * x + cx * z) / d, (fy * y + cy * z) / d]
        c.check_eq(r, w, "projection into the other frame", tol=1e-2)
        c.check_finite(r, "projection into the other frame")
        c.check_eq(t, p, "points unchanged")
        c.check_eq(M, c.E(c.run(lambda: torch.matmul(K, c.tensor(T)))), "matrix unchanged")
    return h


def inverse(kshape, size, order):
    def h(c):
        from gradslam.geometry import projutils as P
        K, par = pinhole(c, "K", kshape, size)
        if order == "view":
            K = c.run(lambda: K.transpose(-1, -2).contiguous().transpose(-1, -2))
        e = c.choose("eps", 3)
        if e == 0:
            eps, r = 1e-6, c.run(lambda: P.inverse_intrinsics(K))
        elif e == 1:
            eps, r = 0.0, c.run(lambda: P.inverse_intrinsics(K, 0.0))
        else:
            eps, r = 0.25, c.run(lambda: P.inverse_intrinsics(K, eps=0.25))
        w = empty(kshape + (size, size))
        w[...] = 0.0
        ke = empty(kshape + (size, size))
        ke[...] = 0.0
        for ix in np.ndindex(*kshape):
            fx, fy, cx, cy = par[ix]
            w[ix + (0, 0)], w[ix + (1, 1)], w[ix + (0, 2)], w[ix + (1, 2)] = 1.0 / (fx + eps), 1.0 / (fy + eps), -cx / (fx + eps), -cy / (fy + eps)
            ke[ix + (0, 0)], ke[ix + (1, 1)], ke[ix + (0, 2)], ke[ix + (1, 2)] = fx + eps, fy + eps, cx, cy
            for a in (w, ke):
                a[ix + (2, 2)] = a[ix + (size - 1, size - 1)] = 1.0
        c.check_eq(r, w, "inverse intrinsics")
        ktl = c.tensor(ke)
        for p in (c.run(lambda: torch.matmul(r, ktl)), c.run(lambda: torch.matmul(ktl, r))):
            for ix in np.ndindex(*kshape):
                c.check_eq(c.run(lambda: p[ix]), np.eye(size).astype(object), "product with the (regularised) intrinsics", tol=1e-2)
        # the argument is untouched
        k2, _ = pinhole(c, "K", kshape, size)
        c.check_eq(K, c.E(k2), "argument unchanged")
        c.check(r is not K, "new tensor")
    return h


def rejects():
    def h(c):
        from gradslam.geometry import projutils as P
        R = lambda s: c.real("x%s" % (s,), s)
        bad = [(lambda: P.project_points(R((3,)), R((4, 4))), ValueError), (lambda: P.project_points(R((2, 2)), R((4, 4))), ValueError),
               (lambda: P.project_points(R((2, 5)), R((4, 4))), ValueError), (lambda: P.project_points(R((2, 3)), R((3, 4))), ValueError),
               (lambda: P.project_points(R((2, 3)), R((4,))), ValueError), (lambda: P.project_points(R((2, 3)), R((2, 4, 4))), ValueError),
               (lambda: P.project_points(R((2, 1, 3)), R((3, 4, 4))), ValueError), (lambda: P.project_points(1.0, R((4, 4))), TypeError),
               (lambda: P.project_points(R((2, 3)), [[1.0]]), TypeError),
               (lambda: P.unproject_points(R((2,)), R((3, 3)), R((1,))), ValueError), (lambda: P.unproject_points(R((2, 4)), R((3, 3)), R((2,))), ValueError),
               (lambda: P.unproject_points(R((2, 2)), R((4, 4)), R((2,))), ValueError), (lambda: P.unproject_points(R((2, 2)), R((3, 3)), R((3,))), ValueError),
               (lambda: P.unproject_points(R((2, 2)), R((2, 3, 3)), R((2,))), ValueError), (lambda: P.unproject_points(R((2, 1, 2)), R((3, 3, 3)), R((2, 1))), ValueError),
               (lambda: P.unproject_points(1, R((3, 3)), R((3,))), TypeError), (lambda: P.unproject_points(R((2, 2)), 1, R((2,))), TypeError),
               (lambda: P.unproject_points(R((2, 2)), R((3, 3)), 1.0), TypeError),
               (lambda: P.inverse_intrinsics(R((4,))), ValueError), (lambda: P.inverse_intrinsics(R((3, 4))), ValueError), (lambda: P.inverse_intrinsics(R((2, 2))), ValueError),
               (lambda: P.inverse_intrinsics(np.eye(4)), TypeError)]
        for k, (f, t) in enumerate(bad):
            c.check(c.raises(lambda: c.run(f), t), "bad call %d rejected" % k)
    return h


def cases(tier):
    deep = tier == "thorough"
    shp = [((2,), ()), ((2, 2), ()), ((2, 2), (2,)), ((2, 1, 2), ()), ((2, 1, 2), (2, 1))]
    if True:
        shp += [((3, 3), (3,)), ((2, 2, 3), (2, 2)), ((1, 2, 2, 2), ()), ((2, 1, 2, 2), (2, 1, 2)), ((5,), ())]
    for ps, ks in shp:
        b = {"points": ps, "matrices": ks}
        for dim in (3, 4):
            yield Case("project_%s_%s_%d" % (ps, ks, dim), proj(ps, ks, dim), bounds=b)
        yield Case("general_%s_%s_3" % (ps, ks), general(ps, ks, 3), bounds=b)
        yield Case("general_%s_%s_4" % (ps, ks), general(ps, ks, 4), bounds=b)
        for dim in (2, 3):
            yield Case("unproject_%s_%s_%d" % (ps, ks, dim), unproj(ps, ks, dim), bounds=b)
        yield Case("roundtrip_%s_%s" % (ps, ks), roundtrip(ps, ks, "helper"), bounds=b)
    yield Case("roundtrip_inverse", roundtrip((2,), (), "inverse"), bounds={"points": 2})
    for ks in ((), (2,), (2, 1), (1, 2, 2)):
        for size in (3, 4):
            yield Case("inverse_%s_%d" % (ks, size), inverse(ks, size, "plain"), bounds={"matrices": ks, "size": size})
    yield Case("inverse_view", inverse((2,), 4, "view"), bounds={"matrices": (2,)})
    for B, N in ((1, 2), (2, 2), (2, 1)):
        yield Case("kf_%d_%d" % (B, N), kf(B, N), bounds={"batch, points": (B, N)})
    yield Case("rejects", rejects())


ASSUMPTIONS = ["focal lengths of at least 1/2 and depths of at least 1/8 where the statement divides by them"]
