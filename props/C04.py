import numpy as np
import torch
from symx.engine import Case
from .common import *
from .C02 import build

EXPLAIN = "normals are compared with the normalised cross product of forward differences of the vertex map."


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def harness(B, L, H, W, cf, geo=True):
    def h(c):
        im, depth, rgb, par, _ = build(c, B, L, H, W, cf, False)
        D = c.E(depth)
        nm = c.run(lambda: im.normal_map)
        N = c.E(nm)
        if cf:
            N = np.transpose(N, (0, 1, 3, 4, 2))
        c.check_finite(N, "normal")
        V = empty((B, L, H, W, 3))
        for b, l, r, k in np.ndindex(B, L, H, W):
            p = backproject(c, par[b], D[b, l, r, k, 0], r, k)
            for i in range(3):
                V[b, l, r, k, i] = c.ite(D[b, l, r, k, 0] > 0, p[i], 0.0)
        for b, l, r, k in np.ndindex(B, L, H, W):
            r0, k0 = min(r, H - 2), min(k, W - 2)
            dh = [V[b, l, r, k0 + 1, i] - V[b, l, r, k0, i] for i in range(3)]
            dv = [V[b, l, r0 + 1, k, i] - V[b, l, r0, k, i] for i in range(3)]
            x = cross(dh, dv)
            n2 = dot(x, x)
            nn = c.sqrt(n2)
            valid = c.and_(D[b, l, r, k, 0] > 0, n2 > (0 if c.symbolic else 1e-24))
            n = N[b, l, r, k]
            den = c.ite(n2 > 0, nn, 1.0)
            if not c.symbolic and list(dh) == list(dv):
                c.check_eq(n, [0.0] * 3, "no normal without neighbours[%d,%d,%d,%d]" % (b, l, r, k))
            if not c.symbolic and n2 < (1e-22 if c.double else 1e-5):
                continue        # float cancellation region: not judged in replays
            for i in range(3):
                c.check_eq([n[i]], [c.ite(valid, x[i] / den, 0.0)], "normal[%d,%d,%d,%d,%d]" % (b, l, r, k, i), tol=2e-2)
    return h


def geometry(H, W):
    """unit length and orthogonality, on one image"""
    def h(c):
        im, depth, rgb, par, _ = build(c, 1, 1, H, W, False, False, lo=0)
        D = c.E(depth)
        N = c.E(c.run(lambda: im.normal_map))
        V = c.E(c.run(lambda: im.vertex_map))
        for r, k in np.ndindex(H, W):
            n = N[0, 0, r, k]
            r0, k0 = min(r, H - 2), min(k, W - 2)
            dh = V[0, 0, r, k0 + 1] - V[0, 0, r, k0]
            dv = V[0, 0, r0 + 1, k] - V[0, 0, r0, k]
            x = cross(dh, dv)
            n2 = dot(x, x)
            if not c.symbolic and n2 < (1e-22 if c.double else 1e-5):
                continue
            c.check_eq([dot(n, dh), dot(n, dv)], [0.0, 0.0], "orthogonal", tol=2e-2)
            c.check_eq([c.ite(c.and_(n2 > 0, D[0, 0, r, k, 0] > 0), dot(n, n), 1.0)], [1.0], "unit", tol=2e-2)
    return h


def cases(tier):
    q = [(1, 1, 2, 2, False), (1, 1, 2, 3, True), (1, 1, 3, 2, False), (2, 1, 2, 2, False), (1, 2, 2, 2, True), (1, 1, 3, 3, False), (2, 2, 3, 3, True)]
    if tier == "thorough":
        q += [(1, 1, 4, 4, False), (3, 2, 3, 4, True), (1, 3, 4, 3, False)]
    for s in q:
        yield Case("formula_B%dL%dH%dW%d_cf%d" % tuple(int(x) for x in s[:5]), harness(*s), budget=600, per_obl=60,
                   bounds=dict(zip("B L H W channels_first".split(), s)))
    for s in [(2, 2), (2, 3), (3, 2), (3, 3)] + ([(4, 3), (3, 5), (2, 6)] if tier == "thorough" else []):
        yield Case("geometry_H%dW%d" % s, geometry(*s), budget=600, per_obl=60, bounds=dict(H=s[0], W=s[1]))
