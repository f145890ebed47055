"""C14: homogeneous coordinates"""
import numpy as np
import torch
from symx.engine import Case
from .common import *


def mods():
    from gradslam.geometry import projutils, geometryutils
    return (("projutils", projutils), ("geometryutils", geometryutils))


def roundtrip(shape):
    def h(c):
        for nm, G in mods():
            t = c.real("p", shape)
            p = c.E(t)
            x = c.run(lambda: G.homogenize_points(t))
            w = empty(shape[:-1] + (shape[-1] + 1,))
            w[..., :-1] = p
            w[..., -1] = 1.0
            c.check(tuple(x.shape) == w.shape, nm + " shape")
            c.check_eq(x, w, nm + " homogenised")
            c.check_eq(t, p, nm + " input unchanged")
            c.check_eq(c.run(lambda: G.unhomogenize_points(x)), p, nm + " there and back")
            k = empty(shape[:-1] + (1,))
            for ix in np.ndindex(*k.shape):
                m = c.number("m%s" % (list(ix),), 0.03125)
                k[ix] = m if c.branch(c.flag("pos%s" % (list(ix),))) else -m
            y = c.run(lambda: G.unhomogenize_points(x * c.tensor(k)))
            c.check_eq(y, p, nm + " any multiple", tol=1e-2)
    return h


def divide(shape):
    """any homogeneous point: divided by w where |w| > eps, leading coordinates otherwise"""
    def h(c):
        for nm, G in mods():
            t = c.real("q", shape)
            q = c.E(t)
            e = c.choose("eps", 3)
            eps = (1e-6, 0.5, 0.0)[e]
            r = c.run(lambda: G.unhomogenize_points(t) if e == 0 else G.unhomogenize_points(t, eps=eps))
            w = empty(shape[:-1] + (shape[-1] - 1,))
            for ix in np.ndindex(*w.shape):
                s = q[ix[:-1] + (-1,)]
                big = c.or_(s > eps, s < -eps)
                w[ix] = q[ix] / c.ite(big, s, 1.0)
            c.check_eq(r, w, nm + " un-homogenised")
            c.check_finite(r, nm)
            c.check(tuple(r.shape) == w.shape, nm + " shape")
            c.check_eq(t, q, nm + " input unchanged")
    return h


def rejects():
    def h(c):
        for nm, G in mods():
            for f in (G.homogenize_points, G.unhomogenize_points):
                c.check(c.raises(lambda: c.run(lambda: f(c.real("v", (3,)))), ValueError), nm + " vector rejected")
                c.check(c.raises(lambda: c.run(lambda: f(np.ones((2, 3)))), TypeError), nm + " array rejected")
    return h


def cases(tier):
    shp = [(2, 3), (3, 2), (1, 4), (2, 2, 3), (2, 1, 2, 2), (0, 3), (2, 1)]
    if True:
        shp += [(2, 3, 4), (2, 2, 2, 3), (1, 1, 1, 2, 5), (6, 3)]
    for s in shp:
        if np.prod(s[:-1]) <= 4:
            yield Case("roundtrip_%s" % (s,), roundtrip(s), max_paths=3000, bounds={"shape": s})
    for s in shp:
        if s[-1] > 1:
            yield Case("divide_%s" % (s,), divide(s), max_paths=3000, bounds={"shape": s})
    yield Case("rejects", rejects())


ASSUMPTIONS = ["multiples of absolute value at least 1/32 (the library treats weights below 1e-6 as points at infinity)"]
