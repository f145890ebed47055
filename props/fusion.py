"""builders shared by the fusion, mapping and odometry checks (C18-C28, C36)"""
from fractions import Fraction

import numpy as np
import torch
from .common import *

F3 = Fraction(1, 3)
ROT = {
    "id": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "z90": [[0, -1, 0], [1, 0, 0], [0, 0, 1]],
    "mix": [[2 * F3, -F3, 2 * F3], [2 * F3, 2 * F3, -F3], [-F3, 2 * F3, 2 * F3]],
}


def const_pose(c, name, kinds, L=1):
    """(B,L,4,4) poses: fixed exact rotations (one per batch element), symbolic translations"""
    B = len(kinds)
    arr = empty((B, L, 4, 4))
    for b in range(B):
        for l in range(L):
            R = ROT[kinds[b]] if isinstance(kinds[b], str) else kinds[b]
            for i in range(3):
                for j in range(3):
                    arr[b, l, i, j] = R[i][j]
                arr[b, l, i, 3] = c.number("%s[%d,%d].t%d" % (name, b, l, i))
                arr[b, l, 3, i] = 0.0
            arr[b, l, 3, 3] = 1.0
    return c.tensor(arr if c.symbolic else arr.astype(float)), arr


def cloud(c, tag, counts, attrs=("points", "normals", "colors", "features"), nf=1, padded=False, flo=None, N=None, pts=None):
    """real cloud and its attribute arrays; features are nf channels (confidence counts, >= flo)"""
    from gradslam.structures.pointclouds import Pointclouds
    d, m = {}, {}
    for a in attrs:
        w = nf if a == "features" else 3
        d[a] = [c.real("%s.%s%d" % (tag, a, b), (n, w), flo if a == "features" else None) for b, n in enumerate(counts)]
        m[a] = [c.E(t) for t in d[a]]
    return c.run(lambda: Pointclouds(**d)), m


def frames(c, tag, B, L, H, W, cf=False, P=None, K=None, dlo=-1, dhi=8, rgb=True, depth=None):
    """RGBD frames with symbolic color and depth (some may be missing); returns object, arrays dict"""
    from gradslam.structures.rgbdimages import RGBDImages
    D = c.real(tag + ".depth", (B, L, H, W, 1), dlo, dhi) if depth is None else depth
    C = c.real(tag + ".rgb", (B, L, H, W, 3))
    par = None
    if K is None:
        K, par = intrinsics(c, tag + ".K", B)
    d, r = to_layout(c, D, cf), to_layout(c, C, cf)
    im = c.run(lambda: RGBDImages(r, d, K, P, channels_first=cf))
    return im, {"depth": c.E(D), "rgb": c.E(C), "par": par, "K": K, "P": P}


def last(c, im, name):
    """a map of the frames as channels-last object array"""
    a = c.E(c.run(lambda: getattr(im, name)))
    return np.transpose(a, (0, 1, 3, 4, 2)) if im.channels_first else a


def to_local(Rt, p):
    """inverse rigid transform of p by the 4x4 (or 3x4) array"""
    q = [p[i] - Rt[i, 3] for i in range(3)]
    return [sum(Rt[k, i] * q[k] for k in range(3)) for i in range(3)]


def table(c, rows):
    return torch.tensor(rows, dtype=torch.int64).reshape(-1, 4)
