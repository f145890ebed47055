"""C07: indexing / clone / detach / to of RGB-D batches"""
import numpy as np
import torch
from symx.engine import Case
from .common import *

MAPS = ("valid_depth_mask", "vertex_map", "normal_map", "global_vertex_map", "global_normal_map")
TOUCH = ((), MAPS, MAPS[1:2], MAPS[2:3], MAPS[3:4], ("valid_depth_mask", "global_normal_map"))


def make(c, shape, cf, poses, tag="", pos=False):
    from gradslam.structures.rgbdimages import RGBDImages
    B, L, H, W = shape
    rgb, depth = c.real("rgb" + tag, (B, L, H, W, 3)), c.real("depth" + tag, (B, L, H, W, 1), -1, 8)
    K, _ = intrinsics(c, "K" + tag, B)
    P = affine(c, "P" + tag, (B, L))[0] if poses else None
    d, r = to_layout(c, depth, cf), to_layout(c, rgb, cf)
    q = c.real("pos" + tag, (B, L, H, W, 3), -1, 8) if pos else None
    return c.run(lambda: RGBDImages(r, d, K, P, channels_first=cf, pixel_pos=q)), (rgb, depth, K, P, q)


def sub(c, data, bs, ls, cf):
    """independently built batch of the selected frames"""
    from gradslam.structures.rgbdimages import RGBDImages
    rgb, depth, K, P, q = data
    pick = lambda t: c.run(lambda: torch.stack([torch.stack([t[b, l] for l in ls]) for b in bs]))
    Ks = c.run(lambda: torch.stack([K[b] for b in bs]))
    return c.run(lambda: RGBDImages(to_layout(c, pick(rgb), cf), to_layout(c, pick(depth), cf), Ks, None if P is None else pick(P), channels_first=cf, pixel_pos=None if q is None else pick(q)))


def same(c, a, b, tag):
    c.check(a.channels_first == b.channels_first, tag + "layout")
    c.check(tuple(a.shape) == tuple(b.shape) and len(a) == len(b) and (a.h, a.w) == (b.h, b.w), tag + "shape")
    for f in ("rgb_image", "depth_image", "intrinsics") + MAPS:
        c.check_eq(c.run(lambda: getattr(a, f)), c.run(lambda: getattr(b, f)), tag + f)
    c.check((a.poses is None) == (b.poses is None), tag + "has poses")
    c.check(a.has_poses == b.has_poses, tag + "has_poses")
    if a.poses is not None and b.poses is not None:
        c.check_eq(c.run(lambda: a.poses), c.run(lambda: b.poses), tag + "poses")


def touch(c, im, k):
    for f in TOUCH[k]:
        c.run(lambda: getattr(im, f))


def indexing(shape, cf, poses, nt=3, pos=False):
    B, L = shape[:2]

    def h(c):
        im, data = make(c, shape, cf, poses, pos=pos)
        touch(c, im, c.choose("touched", nt))
        ints = lambda n: [(i, [i]) for i in range(n)]
        sl = lambda n: [(slice(a, b), list(range(n))[a:b]) for a in [None] + list(range(n)) for b in [None] + list(range(n + 2)) if list(range(n))[a:b]]
        sl = (lambda f: lambda n: f(n) + ([(slice(None, None, 2), list(range(n))[::2])] if n > 1 else []))(sl)
        ib, il = ints(B) + sl(B), ints(L) + sl(L)
        kind = c.choose("kind", 3)
        if kind == 0:
            i, bs = ints(B)[c.choose("b0", B)]
            ix, ls = i, list(range(L))
        elif kind == 1:
            i, bs = ib[c.choose("b1", len(ib))]
            j, ls = il[c.choose("l", len(il))]
            ix = (i, j)
        else:
            # documented single-axis selections
            opts = sl(B) + [([b], [b]) for b in range(B)] + [(list(range(B))[::-1], list(range(B))[::-1])] + \
                [(torch.tensor([b == 0 for b in range(B)]), [0])] + [((i,), [i]) for i in range(B)]
            ix, bs = opts[c.choose("b2", len(opts))]
            ls = list(range(L))
        got = c.run(lambda: im[ix])
        want = sub(c, data, bs, ls, cf)
        same(c, got, want, "selected ")
        # the source is unchanged
        ref = sub(c, data, list(range(B)), list(range(L)), cf)
        same(c, im, ref, "source ")
    return h


def rejects(shape, cf):
    B, L = shape[:2]

    def h(c):
        im, data = make(c, shape, cf, True)
        for ix in [B, (B, 0), (0, L), (slice(B, B + 1), 0), (0, slice(L, L + 3)), (slice(0, 0), slice(0, 1)), (0, 0, 0), B + 3, (B + 1, L + 1), "a", None]:
            c.check(c.raises(lambda: c.run(lambda: im[ix]), (IndexError, TypeError)), "index %s rejected" % (ix,))
        same(c, im, sub(c, data, list(range(B)), list(range(L)), cf), "source ")
    return h


MUT = ["inplace_rgb", "inplace_depth", "inplace_K", "inplace_P", "set_depth", "set_intrinsics", "set_poses", "set_rgb", "convert", "inplace_map"]


def mutate(c, im, op, data, cf, B, L, H, W):
    rgb, depth, K, P, q = data
    if op == "inplace_rgb":
        c.run(lambda: im.rgb_image.mul_(3.0))
        rgb = c.run(lambda: rgb * 3.0)
    elif op == "inplace_depth":
        c.run(lambda: im.depth_image.mul_(2.0))
    elif op == "inplace_K":
        c.run(lambda: im.intrinsics.mul_(2.0))
    elif op == "inplace_P":
        c.run(lambda: im.poses.mul_(2.0))
    elif op == "inplace_map":
        for f in MAPS[1:]:
            c.run(lambda: getattr(im, f).mul_(2.0))
        c.run(lambda: im.valid_depth_mask.logical_not_())
    elif op == "set_depth":
        v = to_layout(c, c.real("depthX", (B, L, H, W, 1)), cf)
        c.run(lambda: setattr(im, "depth_image", v))
    elif op == "set_rgb":
        v = to_layout(c, c.real("rgbX", (B, L, H, W, 3)), cf)
        c.run(lambda: setattr(im, "rgb_image", v))
    elif op == "set_intrinsics":
        v = intrinsics(c, "KX", B)[0]
        c.run(lambda: setattr(im, "intrinsics", v))
    elif op == "set_poses":
        v = affine(c, "PX", (B, L))[0]
        c.run(lambda: setattr(im, "poses", v))
    elif op == "convert":
        c.run(lambda: im.to_channels_last_() if cf else im.to_channels_first_())


def snapshot(c, im):
    s = {}
    for f in ("rgb_image", "depth_image", "intrinsics", "poses") + MAPS:
        v = c.run(lambda: getattr(im, f))
        s[f] = None if v is None else c.E(v)
    return s


def copies(shape, cf, how, pos=False):
    B, L, H, W = shape

    def h(c):
        im, data = make(c, shape, cf, True, pos=pos)
        touch(c, im, c.choose("touched", 3))
        if how == "clone":
            cp = c.run(lambda: im.clone())
        elif how == "to":
            cp = c.run(lambda: im.to("cpu", copy=True))
        elif how == "cpu":
            r = c.run(lambda: im.cpu())
            c.check(r is im, "cpu() of a cpu batch is itself")
            cp = c.run(lambda: im.clone())
        elif how == "detach":
            cp = c.run(lambda: im.detach())
        c.check(cp is not im, "new object")
        a, b = (cp, im) if c.branch(c.flag("mutate_copy")) else (im, cp)
        read_first = c.branch(c.flag("read_first"))
        ref = sub(c, data, list(range(B)), list(range(L)), cf)
        if read_first:
            same(c, b, ref, "before ")
            same(c, a, ref, "before (2) ")
        mutate(c, a, MUT[c.choose("mut", len(MUT))], data, cf, B, L, H, W)
        same(c, b, ref, "after ")
    return h


def detach_grad(shape, cf):
    def h(c):
        from gradslam.structures.rgbdimages import RGBDImages
        B, L, H, W = shape
        rgb, depth = c.real("rgb", (B, L, H, W, 3), grad=True), c.real("depth", (B, L, H, W, 1), 1, 8, grad=True)
        K, _ = intrinsics(c, "K", B)
        P = affine(c, "P", (B, L))[0]
        im = c.run(lambda: RGBDImages(rgb, depth, K, P))
        t = c.choose("touched", len(TOUCH))
        touch(c, im, t)
        d = c.run(lambda: im.detach())
        same(c, d, im, "")
        for f in ("rgb_image", "depth_image", "intrinsics", "poses") + MAPS:
            v = c.run(lambda: getattr(d, f))
            c.check(not v.requires_grad, f + " carries no gradient after detach")
        c.check(im.depth_image.requires_grad and im.rgb_image.requires_grad, "source keeps its gradient")
    return h


def cases(tier):
    q = [((2, 2, 2, 3), False, True, 2), ((2, 1, 2, 2), True, True, 6), ((1, 3, 2, 2), True, False, 2), ((3, 1, 2, 2), False, False, 3), ((2, 2, 2, 2), True, True, 1, True), ((3, 3, 2, 2), True, True, 2)]
    if tier == "thorough":
        q += [((2, 2, 2, 2), True, True, 6), ((2, 3, 2, 3), False, True, 6), ((3, 3, 3, 2), True, True, 6), ((3, 4, 2, 2), False, True, 6)]
    for s in q:
        yield Case("index_%s_cf%d_P%d" % ("x".join(map(str, s[0])), s[1], s[2]) + "_positions" * (len(s) > 4), indexing(*s), budget=600, max_paths=20000,
                   bounds={"B,L,H,W": s[0], "channels_first": s[1], "poses": s[2]})
    for cf in (False, True):
        yield Case("rejects_cf%d" % cf, rejects((2, 2, 2, 2), cf), bounds={"B,L,H,W": (2, 2, 2, 2)})
    for how in ("clone", "to", "cpu", "detach"):
        for cf in (False, True):
            yield Case("%s_cf%d" % (how, cf), copies((2, 1, 2, 2), cf, how, cf != (how == "clone")), budget=300, bounds={"B,L,H,W": (2, 1, 2, 2)})
    yield Case("detach_grad", detach_grad((1, 2, 2, 2), False), budget=200, bounds={"B,L,H,W": (1, 2, 2, 2)})


ASSUMPTIONS = ["images of at least 2x2 pixels (normals need two rows and columns)"]
