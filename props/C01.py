import numpy as np
import torch
from symx.engine import Case
from .common import *

EXPLAIN = "vertex maps are compared with the pinhole formula pixel by pixel and re-projected."


def harness(B, L, H, W, cf, poses, given=False):
    def h(c):
        from gradslam.structures.rgbdimages import RGBDImages
        depth = c.real("depth", (B, L, H, W, 1), -4, 8)
        rgb = c.real("rgb", (B, L, H, W, 3))
        K, par = intrinsics(c, "K", B)
        P = affine(c, "pose", (B, L))[0] if poses else None
        dl = to_layout(c, depth, cf)
        rl = to_layout(c, rgb, cf)
        # given: the caller's own pixel positions (column, row, 1), one per pixel
        pos = None
        if given:
            q = empty((B, L, H, W, 3))
            for ix in np.ndindex(B, L, H, W):
                q[ix + (0,)], q[ix + (1,)], q[ix + (2,)] = c.number("u%s" % list(ix), -1, 8), c.number("v%s" % list(ix), -1, 8), 1.0
            pos = c.tensor(q)
        at = lambda b, l, r, k: (q[b, l, r, k, 1], q[b, l, r, k, 0]) if given else (r, k)
        im = c.run(lambda: RGBDImages(rl, dl, K, P, channels_first=cf, **({"pixel_pos": pos} if given else {})))
        vm = c.run(lambda: im.vertex_map)
        V = c.E(vm)
        if cf:
            V = np.transpose(V, (0, 1, 3, 4, 2))
        D = c.E(depth)
        exp = empty((B, L, H, W, 3))
        for b, l, r, k in np.ndindex(B, L, H, W):
            d = D[b, l, r, k, 0]
            p = backproject(c, par[b], d, *at(b, l, r, k))
            for i in range(3):
                exp[b, l, r, k, i] = c.ite(d > 0, p[i], 0.0)
        c.check_eq(V, exp, "vertex")
        # reprojection and depth
        fx, fy, cx, cy = par[0]
        for b, l, r, k in np.ndindex(B, L, H, W):
            fx, fy, cx, cy = par[b]
            d = D[b, l, r, k, 0]
            v = V[b, l, r, k]
            z = c.ite(d > 0, v[2], 1.0)
            c.check_eq([c.ite(d > 0, v[2] - d, 0.0)], [0.0], "z=depth")
            y, x = at(b, l, r, k)
            u = c.ite(d > 0, (fx + EPS) * v[0] / z + cx - x, 0.0)
            w = c.ite(d > 0, (fy + EPS) * v[1] / z + cy - y, 0.0)
            c.check_eq([u, w], [0.0, 0.0], "reprojects", tol=1e-2)
        c.check_eq(im.rgb_image, rl, "rgb kept")
        c.check_eq(im.depth_image, dl, "depth kept")
        if given:
            c.check_eq(im.pixel_pos, q, "pixel positions kept")
    return h


def cases(tier):
    cfg = [(1, 1, 2, 3, False, True), (1, 1, 3, 2, True, False), (2, 2, 2, 3, False, True), (2, 1, 3, 3, True, True), (3, 2, 1, 2, False, False), (2, 2, 2, 3, False, True, True), (2, 1, 3, 2, True, True, True),
           (2, 3, 3, 4, True, True), (3, 1, 4, 5, False, True), (1, 2, 5, 4, False, False), (2, 2, 6, 6, False, True), (3, 3, 2, 4, False, True, True)]
    if tier == "thorough":
        cfg += [(3, 3, 8, 7, True, True), (2, 4, 12, 9, False, True), (4, 2, 6, 10, True, False)]
    for s in cfg:
        yield Case("B%dL%dH%dW%d_cf%d_pose%d" % tuple(int(x) for x in s[:6]) + "_positions" * (len(s) > 6), harness(*s), budget=300,
                   bounds=dict(zip("B L H W channels_first poses own_pixel_positions".split(), s)))
