"""C17: the SE(3) exponential map"""
import numpy as np
import torch
from symx.engine import Case
from .common import *

LIM = 1e-6          # the library switches to the linearisation below this angle


def vec(c, name, n=3, lim=4):
    return np.array([c.number("%s%d" % (name, i), -lim, lim) for i in range(n)], dtype=object)


def hat(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]], dtype=object)


def mul(a, b):
    o = empty((a.shape[0],) + b.shape[1:])
    for ix in np.ndindex(*o.shape):
        o[ix] = sum(a[ix[0], k] * b[(k,) + ix[1:]] for k in range(a.shape[1]))
    return o


def regime(c, w, small):
    n2 = w[0] * w[0] + w[1] * w[1] + w[2] * w[2]
    if small:
        c.fact(n2, None, 0.98e-12)
    else:
        c.fact(n2, 1.02e-12)
    return n2


def coef(c, n2):
    th = c.sqrt(n2)
    s, k = c.sin(th), c.cos(th)
    return th, s, k, s / th, (1.0 - k) / (th * th), (th - s) / (th * th * th)


def hats():
    def h(c):
        from gradslam.geometry import se3utils as S
        w, v = vec(c, "w"), vec(c, "v")
        m = c.E(c.run(lambda: S.so3_hat(c.tensor(w))))
        c.check_eq(m, hat(w), "so3_hat")
        x = m @ v
        c.check_eq(x, [w[1] * v[2] - w[2] * v[1], w[2] * v[0] - w[0] * v[2], w[0] * v[1] - w[1] * v[0]], "cross product")
        g = empty((4, 4))
        g[...] = 0.0
        g[:3, :3] = hat(w)
        g[:3, 3] = v
        c.check_eq(c.run(lambda: S.se3_hat(c.tensor(np.concatenate([v, w])))), g, "se3_hat")
    return h


def formula():
    """Rodrigues' formula, the last row, translation V v; so3_exp is the rotation block"""
    def h(c):
        from gradslam.geometry import se3utils as S
        w, v = vec(c, "w"), vec(c, "v")
        n2 = regime(c, w, False)
        th, s, k, A, B, C = coef(c, n2)
        W = hat(w)
        W2 = mul(W, W)
        R = np.eye(3) + A * W + B * W2
        V = np.eye(3) + B * W + C * W2
        xi = c.tensor(np.concatenate([v, w]))
        r = c.run(lambda: S.se3_exp(xi))
        g = empty((4, 4))
        g[:3, :3] = R
        g[:3, 3] = mul(V, v)
        g[3] = [0.0, 0.0, 0.0, 1.0]
        c.check_eq(r, g, "exponential", tol=1e-2)
        q = c.run(lambda: S.so3_exp(c.tensor(w)))
        c.check_eq(q, R, "so3_exp", tol=1e-2)
        c.check_eq(xi, np.concatenate([v, w]), "twist unchanged")
    return h


def group():
    """orthonormal, determinant one, axis kept, angle |w|, right-hand sense"""
    def h(c):
        from gradslam.geometry import se3utils as S
        w, v = vec(c, "w"), vec(c, "v")
        n2 = regime(c, w, False)
        th, s, k, A, B, C = coef(c, n2)
        for nm, r in (("se3", c.E(c.run(lambda: S.se3_exp(c.tensor(np.concatenate([v, w]))[:])))), ("so3", c.E(c.run(lambda: S.so3_exp(c.tensor(w)))))):
            R = r[:3, :3]
            c.check_eq(mul(R, R.T), np.eye(3), nm + " orthonormal", tol=1e-2)
            d = (R[0, 0] * (R[1, 1] * R[2, 2] - R[1, 2] * R[2, 1]) - R[0, 1] * (R[1, 0] * R[2, 2] - R[1, 2] * R[2, 0]) +
                 R[0, 2] * (R[1, 0] * R[2, 1] - R[1, 1] * R[2, 0]))
            c.check_eq([d], [1.0], nm + " determinant", tol=1e-2)
            c.check_eq(mul(R, w), w, nm + " axis is fixed", tol=1e-2)
            c.check_eq([R[0, 0] + R[1, 1] + R[2, 2]], [1.0 + 2.0 * k], nm + " angle", tol=1e-2)
            c.check_eq([(R[2, 1] - R[1, 2]) * th, (R[0, 2] - R[2, 0]) * th, (R[1, 0] - R[0, 1]) * th], [2.0 * s * x for x in w], nm + " right-hand sense", tol=1e-2)
    return h


def inverse():
    def h(c):
        from gradslam.geometry import se3utils as S
        w, v = vec(c, "w"), vec(c, "v")
        regime(c, w, False)
        xi = c.tensor(np.concatenate([v, w]))
        a = c.E(c.run(lambda: S.se3_exp(xi)))
        b = c.E(c.run(lambda: S.se3_exp(-xi)))
        c.check_eq(mul(a, b), np.eye(4), "exp(xi) exp(-xi)", tol=1e-2)
        c.check_eq(mul(b, a), np.eye(4), "exp(-xi) exp(xi)", tol=1e-2)
        # agreement with the translation-free and rotation-free subgroups
        z = c.E(c.run(lambda: S.se3_exp(c.tensor(np.concatenate([np.zeros(3), w])))))
        c.check_eq(z[:3, 3], [0.0] * 3, "pure rotation does not translate")
    return h


def oneparam():
    """exp(a xi) exp(b xi) = exp((a+b) xi): checked for doubling, a = b = 1"""
    def h(c):
        from gradslam.geometry import se3utils as S
        w, v = vec(c, "w"), vec(c, "v")
        n2 = regime(c, w, False)
        th, s, k, A, B, C = coef(c, n2)
        c.assume(c.and_(c.sin(2.0 * th) == 2.0 * s * k, c.cos(2.0 * th) == k * k - s * s) if c.symbolic else True)
        a = c.E(c.run(lambda: S.se3_exp(c.tensor(np.concatenate([v, w])))))
        # double angle written out on the spec side
        s2, k2 = 2.0 * s * k, k * k - s * s
        W = hat(w)
        W2 = mul(W, W)
        R = np.eye(3) + s2 / th * W + (1.0 - k2) / n2 * W2
        t = mul(2.0 * np.eye(3) + (1.0 - k2) / n2 * W + (2.0 * th - s2) / (th * n2) * W2, v)
        g = mul(a, a)
        c.check_eq(g[:3, :3], R, "rotation of the doubled twist", tol=1e-2)
        c.check_eq(g[:3, 3], t, "translation of the doubled twist", tol=1e-2)
    return h


def small():
    """|w| below the threshold: finite, the linearisation, and a rotation up to 1e-10"""
    def h(c):
        from gradslam.geometry import se3utils as S
        w, v = vec(c, "w"), vec(c, "v")
        n2 = regime(c, w, True)
        xi = c.tensor(np.concatenate([v, w]))
        for sgn in (1, -1):
            r = c.E(c.run(lambda: S.se3_exp(xi if sgn == 1 else -xi)))
            c.check_finite(r, "finite")
            c.check_eq(r[:3, :3], np.eye(3) + sgn * hat(w), "linearised rotation", tol=1e-5)
            c.check_eq(r[3], [0.0, 0.0, 0.0, 1.0], "last row")
            lin = mul(np.eye(3) + sgn * .5 * hat(w), v)
            for i in range(3):
                d = r[i, 3] - sgn * lin[i]
                c.check(c.and_(d < (1e-10 if c.double else 1e-5), d > (-1e-10 if c.double else -1e-5)), "translation is V v to first order %d" % i)
                d = r[i, 3] - sgn * v[i]
                c.check(c.and_(d < 2e-5, d > -2e-5), "translation close to v %d" % i)
        q = c.E(c.run(lambda: S.so3_exp(c.tensor(w))))
        c.check_eq(q, np.eye(3) + hat(w), "so3 linearised", tol=1e-5)
    return h


def zero():
    def h(c):
        from gradslam.geometry import se3utils as S
        v = vec(c, "v")
        r = c.run(lambda: S.se3_exp(c.tensor(np.concatenate([v, np.zeros(3)]))))
        g = empty((4, 4))
        g[...] = np.eye(4)
        g[:3, 3] = v
        c.check_eq(r, g, "pure translation")
        c.check_eq(c.run(lambda: S.so3_exp(c.tensor(np.zeros(3)))), np.eye(3), "identity")
    return h


def everywhere():
    """no assumption on the angle at all: rows of unit length and mutually orthogonal up to 1e-9 (so the switch-over point is fine)"""
    def h(c):
        from gradslam.geometry import se3utils as S
        w = vec(c, "w")
        n2 = w[0] * w[0] + w[1] * w[1] + w[2] * w[2]
        R = c.E(c.run(lambda: S.so3_exp(c.tensor(w))))
        if not c.symbolic:
            tol = 1e-5
        else:
            tol = 1e-9
        m = mul(R, R.T)
        for i in range(3):
            for j in range(i + 1):
                d = m[i, j] - (1.0 if i == j else 0.0)
                c.check(c.and_(d <= tol, d >= -tol), "orthonormal %d%d" % (i, j))
    return h


def cases(tier):
    yield Case("hats", hats())
    yield Case("formula", formula())
    yield Case("group", group(), budget=200)
    yield Case("inverse", inverse(), budget=300)
    yield Case("doubling", oneparam(), budget=300)
    yield Case("small", small())
    yield Case("zero", zero())
    yield Case("everywhere", everywhere(), budget=200)


ASSUMPTIONS = ["twist components in [-4, 4]; the two regimes (angle above / below 1e-6) are separated by a margin of 1%, except in case 'everywhere'",
               "sin and cos are functions with sin^2+cos^2=1"]
