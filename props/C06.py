"""C06: channel layout conversions are pure axis permutations"""
import numpy as np
import torch
from symx.engine import Case
from .common import *

MAPS = ("valid_depth_mask", "vertex_map", "normal_map", "global_vertex_map", "global_normal_map")
FIELDS = ("rgb_image", "depth_image") + MAPS
CONV = ("to_channels_last", "to_channels_first", "to_channels_last_", "to_channels_first_", "last_copy", "first_copy")


def make(c, shape, cf, poses, pos=False):
    from gradslam.structures.rgbdimages import RGBDImages
    B, L, H, W = shape
    rgb, depth = c.real("rgb", (B, L, H, W, 3)), c.real("depth", (B, L, H, W, 1), -1, 8)
    K, _ = intrinsics(c, "K", B)
    P = affine(c, "P", (B, L))[0] if poses else None
    d, r = to_layout(c, depth, cf), to_layout(c, rgb, cf)
    k = {"pixel_pos": c.real("pos", (B, L, H, W, 3), -1, 8)} if pos else {}
    im = c.run(lambda: RGBDImages(r, d, K, P, channels_first=cf, **k))
    ref = c.run(lambda: RGBDImages(rgb, depth, K, P, channels_first=False, **k))
    return im, {f: c.E(c.run(lambda: getattr(ref, f))) for f in FIELDS}, (K, P)


def verify(c, im, want, cf, KP, shape, tag):
    c.check(im.channels_first == cf, tag + "layout flag")
    c.check(im.cdim == (2 if cf else 4), tag + "cdim")
    c.check(tuple(im.shape) == tuple(shape), tag + "shape")
    c.check((im.h, im.w, len(im)) == (shape[2], shape[3], shape[0]), tag + "h, w")
    for f in FIELDS:
        w = want[f]
        c.check_eq(c.run(lambda: getattr(im, f)), perm_cf(w) if cf else w, tag + f)
    c.check_eq(c.run(lambda: im.intrinsics), KP[0], tag + "intrinsics")
    if KP[1] is not None:
        c.check_eq(c.run(lambda: im.poses), KP[1], tag + "poses")
    else:
        c.check(im.poses is None, tag + "no poses")


def conv(shape, cf, poses, n, touched, pos=False):
    def h(c):
        im, want, KP = make(c, shape, cf, poses, pos)
        cur = cf
        # any subset of maps may have been derived before
        if touched == "choose":
            for f in MAPS:
                if c.branch(c.flag("touch_" + f)):
                    c.run(lambda: getattr(im, f))
        elif touched == "some":
            for f in ((), MAPS[:1], MAPS[2:3], MAPS[3:4], MAPS[4:])[c.choose("touched", 5)]:
                c.run(lambda: getattr(im, f))
        elif touched:
            for f in MAPS:
                c.run(lambda: getattr(im, f))
        hist = []
        for k in range(n):
            op = CONV[c.choose("op%d" % k, len(CONV))]
            new = "first" in op
            if op.endswith("_"):
                r = c.run(lambda: getattr(im, op)())
                c.check(r is im, "in place returns self")
            elif "copy" in op:
                r = c.run(lambda: im.to_channels_first(copy=True) if new else im.to_channels_last(copy=True))
                c.check(r is not im, "copy=True returns a copy")
                hist.append((im, cur))
            else:
                r = c.run(lambda: getattr(im, op)())
                if r is not im:
                    hist.append((im, cur))
                else:
                    c.check(new == cur, "returns self only when nothing is to do")
            im, cur = r, new
        verify(c, im, want, cur, KP, shape, "")
        for i, (o, l) in enumerate(hist):
            verify(c, o, want, l, KP, shape, "source%d " % i)
    return h


def cases(tier):
    q = [((1, 1, 2, 3), False, True, 2, "some"), ((1, 1, 2, 3), True, True, 2, "some"), ((2, 2, 3, 2), True, True, 2, True),
         ((2, 1, 2, 2), False, False, 2, True), ((1, 2, 2, 4), False, True, 2, False), ((2, 1, 2, 2), False, True, 2, False, True), ((1, 2, 2, 2), True, True, 2, True, True), ((3, 3, 2, 2), True, True, 2, True)]
    if tier == "thorough":
        q += [((1, 1, 2, 3), False, True, 3, "choose"), ((1, 1, 2, 3), True, True, 2, "choose"), ((2, 2, 3, 4), True, True, 3, True)]
    for s in q:
        yield Case("conv_%s_cf%d_P%d_n%d_%s" % ("x".join(map(str, s[0])), s[1], s[2], s[3], s[4]) + "_positions" * (len(s) > 5), conv(*s), budget=500, max_paths=20000,
                   bounds={"B,L,H,W": s[0], "channels_first": s[1], "poses": s[2], "conversions": s[3], "derived_before": s[4]})


ASSUMPTIONS = ["images of at least 2x2 pixels (normals need two rows and columns)"]
