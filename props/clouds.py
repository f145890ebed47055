"""reference model of a cloud batch (python lists of object arrays) and history driver, shared by C08-C12"""
import numpy as np
import torch
from .common import *

ATTR = ("points", "normals", "colors", "features")
NF = 2


class Model:
    """what the cloud batch must contain: attr -> list of (n_b, C) object arrays, or None"""

    def __init__(self, **k):
        for a in ATTR:
            setattr(self, a, k.get(a))

    def copy(self):
        return Model(**{a: None if getattr(self, a) is None else [x.copy() for x in getattr(self, a)] for a in ATTR})

    @property
    def counts(self):
        return [len(x) for x in self.points] if self.points is not None else []

    def padded(self, a):
        v = getattr(self, a)
        if v is None:
            return None
        n = max(self.counts)
        o = np.empty((len(v), n, v[0].shape[1]), dtype=object)
        o[...] = 0.0
        for b, x in enumerate(v):
            o[b, :len(x)] = x
        return o


def width(a):
    return NF if a == "features" else 3


def inputs(c, tag, counts, attrs, equal_pad=False):
    """fresh symbolic values: list of tensors per attribute"""
    return {a: [c.real("%s.%s%d" % (tag, a, b), (n, width(a))) for b, n in enumerate(counts)] for a in attrs}


def arrs(c, d):
    return {a: [c.E(t) for t in v] for a, v in d.items()}


def pad_tensor(c, a, v, N):
    """zero-padded tensor of a list of tensors (harness side)"""
    o = np.empty((len(v), N, width(a)), dtype=object)
    o[...] = 0.0
    for b, t in enumerate(v):
        x = c.E(t)
        o[b, :len(x)] = x
    return c.tensor(o)


def make(c, tag, counts, attrs, padded=False):
    """real cloud + model"""
    from gradslam.structures.pointclouds import Pointclouds
    d = inputs(c, tag, counts, attrs)
    m = Model(**arrs(c, d))
    if padded:
        assert len(set(counts)) == 1
        d = {a: pad_tensor(c, a, v, counts[0]) for a, v in d.items()}
    return c.run(lambda: Pointclouds(**d)), m


def as_list(c, pc, a):
    return c.run(lambda: getattr(pc, a + "_list"))


def verify(c, pc, m, tag="", views=("list", "padded", "mask"), tol=1e-3):
    """every representation of pc equals the model"""
    c.check(len(pc) == len(m.counts), tag + "batch size")
    c.check(bool(pc.has_points) == (m.points is not None), tag + "has points")
    if m.points is None:
        return
    for a in ATTR[1:]:
        c.check(bool(getattr(pc, "has_" + a)) == (getattr(m, a) is not None), tag + "has " + a)
    c.check(pc.num_features == (m.features[0].shape[1] if m.features is not None else 0), tag + "num features")
    cnt = c.run(lambda: pc.num_points_per_pointcloud)
    c.check_eq(cnt, np.array(m.counts, dtype=object), tag + "counts")
    for v in views:
        if v == "mask":
            mk = c.run(lambda: pc.nonpad_mask)
            want = np.array([[i < n for i in range(max(m.counts))] for n in m.counts], dtype=object).reshape(len(m.counts), max(m.counts))
            c.check_eq(mk, want, tag + "mask")
            continue
        for a in ATTR:
            w = getattr(m, a)
            if v == "list":
                g = as_list(c, pc, a)
                if w is None:
                    c.check(g is None, tag + a + " absent")
                    continue
                c.check(g is not None and len(g) == len(w), tag + a + " list length")
                if g is None or len(g) != len(w):
                    continue
                for b in range(len(w)):
                    c.check_eq(g[b], w[b], "%s%s_list[%d]" % (tag, a, b), tol=tol)
            else:
                g = c.run(lambda: getattr(pc, a + "_padded"))
                if w is None:
                    c.check(g is None, tag + a + " absent")
                    continue
                c.check(g is not None, tag + a + "_padded present")
                if g is not None:
                    c.check_eq(g, m.padded(a), "%s%s_padded" % (tag, a), tol=tol)


def rot_rows(x, R, pre):
    """rows of x moved by R: p -> R p (pre) or p R"""
    o = empty(x.shape)
    for i in range(len(x)):
        for j in range(3):
            o[i, j] = sum((R[j, k] if pre else R[k, j]) * x[i, k] for k in range(3))
    return o


def ew(x, f):
    """elementwise map of an object array; f(value, column)"""
    o = empty(x.shape)
    for ix in np.ndindex(*x.shape):
        o[ix] = f(x[ix], ix[-1])
    return o


def mutate(c, pc, k, m):
    """in-place change of pc; number of ways: 12"""
    B = len(m.counts)
    fresh = [c.real("n%d" % b, (n, 3)) for b, n in enumerate(m.counts)]
    if k == 0:
        c.run(lambda: pc.offset_(2.0))
    elif k == 1:
        c.run(lambda: pc.scale_(3.0))
    elif k == 2:
        c.run(lambda: pc.rotate_(c.real("R", (3, 3))))
    elif k == 3:
        c.run(lambda: pc.transform_(affine(c, "T", ())[0]))
    elif k == 4:
        c.run(lambda: setattr(pc, "points_list", fresh))
    elif k == 5:
        c.run(lambda: setattr(pc, "normals_padded", pad_tensor(c, "normals", fresh, max(m.counts))))
    elif k == 6:
        c.run(lambda: [x.mul_(2.0) for x in pc.points_list + pc.normals_list + pc.colors_list + pc.features_list])
    elif k == 7:
        c.run(lambda: [x.add_(2.0) for x in (pc.points_padded, pc.normals_padded, pc.colors_padded, pc.features_padded)])
    elif k == 8:
        b, mb = make(c, "ap", [1] * B, ATTR)
        c.run(lambda: pc.append_points(b))
    elif k == 9:
        c.run(lambda: pc.nonpad_mask.logical_not_())
    elif k == 10:
        c.run(lambda: pc.num_points_per_pointcloud.mul_(0))
    elif k == 11:
        c.run(lambda: setattr(pc, "colors_list", fresh))
