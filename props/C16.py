"""C16: quaternion conversions"""
import numpy as np
import torch
from symx.engine import Case
from .common import *


def quat(c, name, sq=0.0625, hi=None):
    q = [c.number("%s.%s" % (name, s), -8, 8) for s in "xyzw"]
    n2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
    c.fact(n2, sq)
    return np.array(q, dtype=object), n2


def matrix(q, n2):
    """the rotation a (nonzero) quaternion denotes"""
    x, y, z, w = q
    s = 2.0 / n2
    return np.array([[1 - s * (y * y + z * z), s * (x * y - z * w), s * (x * z + y * w)],
                     [s * (x * y + z * w), 1 - s * (x * x + z * z), s * (y * z - x * w)],
                     [s * (x * z - y * w), s * (y * z + x * w), 1 - s * (x * x + y * y)]], dtype=object)


def det(m):
    return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0]) +
            m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))


def proper(c, r, lab):
    e = np.eye(3)
    for i in range(3):
        for j in range(3):
            c.check_eq([sum(r[i, k] * r[j, k] for k in range(3))], [e[i, j]], lab + " orthonormal rows %d%d" % (i, j), tol=1e-2)
    c.check_eq([det(r)], [1.0], lab + " determinant", tol=1e-2)


def build(c, shape):
    arr = empty(shape + (4,))
    n2 = empty(shape) if shape else {}
    for ix in np.ndindex(*shape):
        arr[ix], n2[ix] = quat(c, "q%s" % (list(ix),))
    return c.tensor(arr), arr, n2


def rot(shape):
    def h(c):
        from gradslam.geometry import geometryutils as G
        t, q, n2 = build(c, shape)
        r = c.run(lambda: G.quaternion_to_rotation_matrix(t))
        flat = [q[ix] for ix in np.ndindex(*shape)]
        w = [matrix(q[ix], n2[ix]) for ix in np.ndindex(*shape)]
        if len(shape) == 0:
            c.check_eq(r, w[0], "rotation")
            m = c.E(r)
            proper(c, m, "rotation")
        else:
            c.check(tuple(r.shape) == (len(w), 3, 3), "shape")
            for k in range(len(w)):
                c.check_eq(r[k] if not c.symbolic else c.run(lambda: r[k]), w[k], "rotation %d" % k)
        c.check_eq(t, q, "quaternion unchanged")
        n = c.run(lambda: G.normalize_quaternion(t))
        e = c.E(n)
        for ix in np.ndindex(*shape):
            L = c.sqrt(n2[ix])
            for j in range(4):
                c.check_eq([e[ix + (j,)] * L], [q[ix + (j,)]], "normalised direction")
            c.check_eq([sum(v * v for v in e[ix])], [1.0], "unit length")
        m2 = c.run(lambda: G.quaternion_to_rotation_matrix(-t))
        c.check_eq(m2, c.E(r), "q and -q")
        k = c.number("k", 0.25, 4)
        m3 = c.run(lambda: G.quaternion_to_rotation_matrix(c.tensor(q * k)))
        c.check_eq(m3, c.E(r), "scaled")
        m4 = c.run(lambda: G.quaternion_to_rotation_matrix(n))
        c.check_eq(m4, c.E(r), "of the normalised")
    return h


def compose():
    """the rotation of a product is the product of the rotations (so the right rotation, not its transpose, is denoted)"""
    def h(c):
        from gradslam.geometry import geometryutils as G
        a, na = quat(c, "a")
        b, nb = quat(c, "b")
        x1, y1, z1, w1 = a
        x2, y2, z2, w2 = b
        p = [w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2, w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2, w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2]
        np2 = sum(v * v for v in p)
        c.fact(np2, 0.00390625)     # = |a|^2 |b|^2
        f = lambda v: c.E(c.run(lambda: G.quaternion_to_rotation_matrix(c.tensor(v))))
        ra, rb, rp = f(a), f(b), f(p)
        for i in range(3):
            for j in range(3):
                c.check_eq([sum(ra[i, k] * rb[k, j] for k in range(3)) * na * nb], [rp[i, j] * np2], "homomorphism", tol=1e-2)
    return h


def pointquat(shape, kind):
    def h(c):
        from gradslam.datasets import datautils as D
        from gradslam.geometry import geometryutils as G
        a = empty(shape + (7,))
        n2 = {}
        for ix in np.ndindex(*shape):
            a[ix + (slice(3, 7),)], n2[ix] = quat(c, "q%s" % (list(ix),))
            for j in range(3):
                a[ix + (j,)] = c.number("t%s%d" % (list(ix), j))
        x = c.tensor(a) if kind == "torch" else c.narr(a, np.float64 if kind == "np64" else np.float32)
        with c.patched(D):
            r = c.run(lambda: D.pointquaternion_to_homogeneous(x))
        w = empty(shape + (4, 4))
        w[...] = 0.0
        for ix in np.ndindex(*shape):
            w[ix][:3, :3] = matrix(a[ix][3:], n2[ix])
            w[ix][:3, 3] = a[ix][:3]
            w[ix][3, 3] = 1.0
        c.check(isinstance(r, torch.Tensor) == (kind == "torch"), "same kind of container")
        c.check_eq(c.E(r), w, "pose of a point and quaternion")
        c.check_eq(c.E(x), a, "argument unchanged")
        for ix in np.ndindex(*shape):
            q = c.tensor(a[ix][3:])
            m = c.run(lambda: G.quaternion_to_rotation_matrix(q))
            c.check_eq(c.E(r)[ix][:3, :3], c.E(m), "agrees with quaternion_to_rotation_matrix")
    return h


def parser():
    """tumutils.transform44 on the fields of a trajectory line"""
    def h(c):
        from gradslam.datasets import tumutils as U, datautils as D
        q, n2 = quat(c, "q")
        t = [c.number("t%d" % j) for j in range(3)]
        l = ["1311868164.3", *t, *q]
        with c.patched(U, D):
            r = c.run(lambda: U.transform44(l))
            w = c.run(lambda: D.pointquaternion_to_homogeneous(c.narr(np.array(t + list(q), dtype=object), np.float64)))
        m = empty((4, 4))
        m[...] = 0.0
        m[:3, :3] = matrix(q, n2)
        m[:3, 3] = t
        m[3, 3] = 1.0
        c.check_eq(c.E(r), m, "parsed pose")
        c.check_eq(c.E(w), c.E(r), "both conversions agree")
        with c.patched(U):
            r = c.run(lambda: U.transform44(["0", *t, 0.0, 0.0, 0.0, 0.0]))
        m[:3, :3] = np.eye(3)
        c.check_eq(c.E(r), m, "no rotation")
    return h


def axisangle(shape):
    """axis-angle of a unit quaternion: along its vector part; the angle is the one whose half has the quaternion's sine and cosine"""
    def h(c):
        from gradslam.geometry import geometryutils as G
        a = empty(shape + (4,))
        for ix in np.ndindex(*shape):
            for j in range(4):
                a[ix + (j,)] = c.number("q%s%d" % (list(ix), j), -1, 1)
        t = c.tensor(a)
        r = c.run(lambda: G.quaternion_to_axisangle(t))
        e = c.E(r)
        for ix in np.ndindex(*shape):
            x, y, z, w = a[ix]
            v = e[ix]
            c.check_eq([v[0] * y], [v[1] * x], "parallel xy")
            c.check_eq([v[1] * z], [v[2] * y], "parallel yz")
            c.check_eq([v[0] * z], [v[2] * x], "parallel xz")
            n2 = x * x + y * y + z * z
            sn = c.sqrt(n2)
            ang = 2.0 * c.ite(w < 0, c.atan2(-sn, -w), c.atan2(sn, w))
            k = ang / c.ite(n2 > 0, sn, 1.0)
            c.check_eq(v, [c.ite(n2 > 0, q * k, 2.0 * q) for q in (x, y, z)], "axis times angle")
        c.check_finite(r, "axis-angle")
        c.check_eq(t, a, "argument unchanged")
    return h


def rejects():
    def h(c):
        from gradslam.datasets import datautils as D
        from gradslam.geometry import geometryutils as G
        for k, (f, t) in enumerate([(lambda: G.quaternion_to_rotation_matrix(c.real("a", (3,))), ValueError), (lambda: G.normalize_quaternion(c.real("b", (4, 3))), ValueError),
                                    (lambda: G.quaternion_to_axisangle(c.real("d", (3,))), ValueError), (lambda: D.pointquaternion_to_homogeneous(c.real("e", (4,))), ValueError),
                                    (lambda: D.pointquaternion_to_homogeneous([1.0] * 7), TypeError), (lambda: D.pointquaternion_to_homogeneous(c.real("f", (7,)), 1), TypeError),
                                    (lambda: G.quaternion_to_axisangle(1.0), TypeError)]):
            c.check(c.raises(lambda: c.run(f), t), "bad call %d rejected" % k)
    return h


def cases(tier):
    deep = True
    for s in [(), (2,), (2, 1)] + ([(3,), (2, 2)] if deep else []):
        yield Case("rotation_%s" % (s,), rot(s), bounds={"shape": s})
    yield Case("compose", compose(), budget=200)
    for s in [(), (2,), (1, 2)] + ([(3,), (2, 2)] if deep else []):
        for kind in ("torch", "np32", "np64"):
            yield Case("pointquat_%s_%s" % (kind, s), pointquat(s, kind), bounds={"shape": s})
    yield Case("parser", parser())
    yield Case("axisangle", axisangle(()))
    yield Case("axisangle_batch", axisangle((2,)))
    yield Case("rejects", rejects())


ASSUMPTIONS = ["quaternions with components in [-8, 8] and squared norm of at least 1/16 (scaled copies: factor between 1/4 and 4)",
               "numpy arrays are replaced by object arrays of symbolic numbers; float32 casts are the identity on reals"]
