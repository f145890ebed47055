import numpy as np
import torch
from symx.engine import Case
from .common import *
from .C02 import build


def harness(B, L, H, W, cf, poses, rd, first=()):
    def h(c):
        im, depth, rgb, par, Pa = build(c, B, L, H, W, cf, poses)
        D = c.E(depth)
        for f in first:
            c.run(lambda: getattr(im, f))
        gv, gn = c.run(lambda: (im.global_vertex_map, im.global_normal_map)) if rd else c.run(lambda: (im.global_normal_map, im.global_vertex_map))[::-1]
        v, n = c.run(lambda: (im.vertex_map, im.normal_map))
        GV, GN, V, N = [c.E(x) for x in (gv, gn, v, n)]
        if cf:
            GV, GN, V, N = [np.transpose(x, (0, 1, 3, 4, 2)) for x in (GV, GN, V, N)]
        eV, eN = empty(GV.shape), empty(GN.shape)
        for b, l, r, k in np.ndindex(B, L, H, W):
            d = D[b, l, r, k, 0]
            loc = backproject(c, par[b], d, r, k)
            for i in range(3):
                if poses:
                    M = Pa[b, l]
                    x = M[i, 0] * loc[0] + M[i, 1] * loc[1] + M[i, 2] * loc[2] + M[i, 3]
                    y = M[i, 0] * N[b, l, r, k, 0] + M[i, 1] * N[b, l, r, k, 1] + M[i, 2] * N[b, l, r, k, 2]
                else:
                    x, y = loc[i], N[b, l, r, k, i]
                eV[b, l, r, k, i] = c.ite(d > 0, x, 0.0)
                eN[b, l, r, k, i] = c.ite(d > 0, y, 0.0)
        c.check_eq(GV, eV, "global vertex", tol=3e-3)
        c.check_eq(GN, eN, "global normal", tol=3e-3)
        if poses:
            c.check_eq(im.poses, Pa, "poses untouched")
    return h


def cases(tier):
    q = [(2, 2, 2, 3, False, True, True), (2, 2, 3, 2, True, True, False, ("vertex_map",)), (3, 1, 2, 2, False, True, False),
         (2, 1, 2, 3, False, False, True), (1, 3, 2, 2, True, False, True), (1, 1, 3, 3, False, True, True, ("normal_map",)), (2, 4, 2, 4, True, True, True), (3, 3, 2, 2, False, True, True, ("global_vertex_map",))]
    if tier == "thorough":
        q += [(3, 3, 3, 3, False, True, True), (2, 3, 4, 5, True, True, True), (1, 6, 3, 3, False, True, False)]
    for s in q:
        yield Case("B%dL%dH%dW%d_cf%d_pose%d_order%d" % tuple(int(x) for x in s[:7]), harness(*s), budget=500,
                   bounds=dict(zip("B L H W channels_first poses order touched_before".split(), s)))
