import numpy as np
import torch
from symx.engine import Case
from .common import *


def build(c, B, L, H, W, cf, poses, lo=-3, hi=8):
    from gradslam.structures.rgbdimages import RGBDImages
    depth = c.real("depth", (B, L, H, W, 1), lo, hi)
    rgb = c.real("rgb", (B, L, H, W, 3))
    K, par = intrinsics(c, "K", B)
    P, Pa = affine(c, "pose", (B, L)) if poses else (None, None)
    dl, rl = to_layout(c, depth, cf), to_layout(c, rgb, cf)
    im = c.run(lambda: RGBDImages(rl, dl, K, P, channels_first=cf))
    return im, depth, rgb, par, Pa


def maps(B, L, H, W, cf, poses, order):
    def h(c):
        im, depth, rgb, par, Pa = build(c, B, L, H, W, cf, poses)
        D = c.E(depth)
        vals = {}
        for nm in order:
            t = c.run(lambda: getattr(im, nm))
            a = c.E(t)
            if cf:
                a = np.transpose(a, (0, 1, 3, 4, 2))
            vals[nm] = a
        for b, l, r, k in np.ndindex(B, L, H, W):
            d = D[b, l, r, k, 0]
            c.check_eq([vals["valid_depth_mask"][b, l, r, k, 0]], [d > 0], "mask")
        for nm in ("vertex_map", "normal_map", "global_vertex_map", "global_normal_map"):
            a = vals[nm]
            c.check_finite(a, nm)
            for b, l, r, k in np.ndindex(B, L, H, W):
                d = D[b, l, r, k, 0]
                for i in range(3):
                    c.check_eq([c.ite(d > 0, 0.0, a[b, l, r, k, i])], [0.0], "%s zero where no depth" % nm, tol=1e-9)
    return h


def cloud(B, H, W, cf, poses, glob, filt, touch=()):
    def h(c):
        from gradslam.structures.utils import pointclouds_from_rgbdimages
        im, depth, rgb, par, Pa = build(c, B, 1, H, W, cf, poses)
        D, RGB = c.E(depth), c.E(rgb)
        for t in touch:
            c.run(lambda: getattr(im, t))
        pc = c.run(lambda: pointclouds_from_rgbdimages(im, global_coordinates=glob, filter_missing_depths=filt))
        vm = c.run(lambda: im.global_vertex_map if glob else im.vertex_map)
        nm = c.run(lambda: im.global_normal_map if glob else im.normal_map)
        V, N = c.E(vm), c.E(nm)
        if cf:
            V, N = np.transpose(V, (0, 1, 3, 4, 2)), np.transpose(N, (0, 1, 3, 4, 2))
        pts, nrm, col = c.run(lambda: (pc.points_list, pc.normals_list, pc.colors_list))
        c.check(len(pts) == B, "batch")
        for b in range(B):
            sel = []
            for r, k in np.ndindex(H, W):
                if not filt or c.branch(D[b, 0, r, k, 0] > 0):
                    sel.append((r, k))
            def want(A):
                o = empty((len(sel), 3))
                for i, (r, k) in enumerate(sel):
                    o[i] = A[b, 0, r, k]
                return o
            c.check_eq(pts[b], want(V), "points%d" % b)
            c.check_eq(nrm[b], want(N), "normals%d" % b)
            c.check_eq(col[b], want(RGB), "colors%d" % b)
            c.check(len(pts[b]) == len(sel), "count")
    return h


A = ("valid_depth_mask", "vertex_map", "normal_map", "global_vertex_map", "global_normal_map")


def cases(tier):
    q = [(1, 1, 3, 2, False, True, A), (2, 2, 2, 3, True, True, A[::-1]), (2, 1, 2, 2, False, False, A[::-1]),
         (2, 1, 3, 3, False, True, (A[4], A[0], A[3], A[2], A[1])), (3, 3, 2, 2, True, True, A)]
    if tier == "thorough":
        q += [(2, 2, 4, 3, False, True, A), (3, 1, 3, 4, True, False, A), (1, 1, 5, 6, False, True, A)]
    for s in q:
        yield Case("maps_B%dL%dH%dW%d_cf%d_pose%d_%s" % (tuple(int(x) for x in s[:6]) + (s[6][0],)), maps(*s), budget=400,
                   bounds=dict(zip("B L H W channels_first poses order".split(), s)))
    q = [(1, 2, 3, False, True, True, True), (2, 2, 2, False, True, True, True), (2, 2, 2, True, True, False, True),
         (2, 2, 2, False, True, True, False), (1, 3, 2, True, False, True, True, ("valid_depth_mask", "normal_map")),
         (1, 2, 2, False, True, True, True, ("global_normal_map",))]
    if tier == "thorough":
        q += [(2, 2, 2, True, True, True, True), (1, 3, 3, False, True, True, True), (3, 2, 2, False, True, False, True)]
    for s in q:
        yield Case("cloud_B%dH%dW%d_cf%d_pose%d_global%d_filter%d" % tuple(int(x) for x in s[:7]), cloud(*s), budget=500, max_paths=5000,
                   bounds=dict(zip("B H W channels_first poses global filter touched_before".split(), s)))
