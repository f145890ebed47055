"""shared builders for harnesses (work for symbolic and concrete contexts)"""
import itertools

import numpy as np
import torch

from symx.engine import Case


def intrinsics(c, name, B, lo=0.5, hi=None, size=4, exact_rest=True, skew=False, extra=(1,)):
    """(B,1,4,4) pinhole intrinsics with symbolic fx, fy, cx, cy"""
    rows = []
    par = []
    for b in range(B):
        fx = c.number("%s%d.fx" % (name, b), lo, hi)
        fy = c.number("%s%d.fy" % (name, b), lo, hi)
        cx = c.number("%s%d.cx" % (name, b))
        cy = c.number("%s%d.cy" % (name, b))
        par.append((fx, fy, cx, cy))
        m = [[fx, 0, cx, 0], [0, fy, cy, 0], [0, 0, 1, 0], [0, 0, 0, 1]]
        if size == 3:
            m = [[fx, 0, cx], [0, fy, cy], [0, 0, 1]]
        rows.append(m)
    t = c.tensor(rows)
    return (t.unsqueeze(1) if not c.symbolic else c.run(lambda: t.unsqueeze(1))), par


def affine(c, name, shape, rigid=False):
    """(*shape,4,4) affine matrices with symbolic 3x4 part; returns tensor and object array (*shape,3,4)"""
    arr = np.empty(tuple(shape) + (4, 4), dtype=object)
    for ix in np.ndindex(*shape):
        for i in range(3):
            for j in range(4):
                arr[ix + (i, j)] = c.number("%s%s[%d,%d]" % (name, list(ix), i, j))
        for j in range(4):
            arr[ix + (3, j)] = 1.0 if j == 3 else 0.0
        if rigid:
            assume_rotation(c, arr[ix][:3, :3])
    return c.tensor(arr), arr


def assume_rotation(c, R):
    """assume the 3x3 object array is a proper rotation (within float tolerance in replays)"""
    def eq(a, v):
        d = a - v
        if c.symbolic:
            c.assume(d == 0)
        else:
            c.assume(abs(d) < 1e-3)
    for i in range(3):
        for j in range(i, 3):
            eq(R[i, 0] * R[j, 0] + R[i, 1] * R[j, 1] + R[i, 2] * R[j, 2], 1 if i == j else 0)
    for i in range(3):
        a, b, k = (i, (i + 1) % 3, (i + 2) % 3)
        for t in range(3):
            u, v = (t + 1) % 3, (t + 2) % 3
            eq(R[0, u] * R[1, v] - R[0, v] * R[1, u], R[2, t]) if i == 2 else None


def rotation_quat(c, name):
    """symbolic rotation parametrised by a (nonzero) quaternion: every rotation matrix, no side constraint needed"""
    q = [c.number("%s.q%d" % (name, i), -1, 1) for i in range(4)]
    w, x, y, z = q
    n = w * w + x * x + y * y + z * z
    c.fact(n, 0.25)
    R = [[(w * w + x * x - y * y - z * z) / n, 2 * (x * y - w * z) / n, 2 * (x * z + w * y) / n],
         [2 * (x * y + w * z) / n, (w * w - x * x + y * y - z * z) / n, 2 * (y * z - w * x) / n],
         [2 * (x * z - w * y) / n, 2 * (y * z + w * x) / n, (w * w - x * x - y * y + z * z) / n]]
    return np.array(R, dtype=object)


def rigid(c, name, shape):
    arr = np.empty(tuple(shape) + (4, 4), dtype=object)
    for ix in np.ndindex(*shape):
        arr[ix + (slice(0, 3), slice(0, 3))] = rotation_quat(c, "%s%s" % (name, list(ix)))
        for i in range(3):
            arr[ix + (i, 3)] = c.number("%s%s.t%d" % (name, list(ix), i))
        for j in range(4):
            arr[ix + (3, j)] = 1.0 if j == 3 else 0.0
    return c.tensor(arr), arr


def empty(shape):
    return np.empty(tuple(shape), dtype=object)


def perm_cf(a):
    """(B,L,H,W,C) object array -> (B,L,C,H,W)"""
    return np.transpose(a, (0, 1, 4, 2, 3))


def to_layout(c, t, channels_first):
    """channels-last tensor -> requested layout"""
    if not channels_first:
        return t
    return c.run(lambda: t.permute(0, 1, 4, 2, 3).contiguous())


EPS = 1e-6


def backproject(c, par, d, r, col):
    fx, fy, cx, cy = par
    return [(col - cx) / (fx + EPS) * d, (r - cy) / (fy + EPS) * d, d]
