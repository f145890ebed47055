"""C05: histories of sets / reads / layout conversions; derived maps always equal those of a fresh object"""
import numpy as np
import torch
from symx.engine import Case
from .common import *

MAPS = ("valid_depth_mask", "vertex_map", "normal_map", "global_vertex_map", "global_normal_map")
OPS = ["read_all", "read_valid", "read_normal", "read_gnormal", "read_gvertex", "set_rgb", "set_depth", "set_intrinsics",
       "set_poses", "set_poses_none", "to_cl_", "to_cf_", "to_cl", "to_cf"]


class State:
    pass


def fresh(c, st, k):
    B, L, H, W = st.shape
    if k == "rgb":
        return c.real("rgb%d" % st.n, (B, L, H, W, 3))
    if k == "depth":
        return c.real("depth%d" % st.n, (B, L, H, W, 1), -1, 8)
    if k == "K":
        return intrinsics(c, "K%d_" % st.n, B)[0]
    if k == "P":
        return affine(c, "P%d_" % st.n, (B, L))[0]


def images(c, st):
    from gradslam.structures.rgbdimages import RGBDImages
    return c.run(lambda: RGBDImages(to_layout(c, st.rgb, st.cf), to_layout(c, st.depth, st.cf), st.K, st.P, channels_first=st.cf))


def apply(c, st, op):
    st.n += 1
    im = st.im
    if op.startswith("read"):
        for m in (MAPS if op == "read_all" else {"read_valid": MAPS[:1], "read_normal": MAPS[2:3], "read_gnormal": MAPS[4:5],
                                                 "read_gvertex": MAPS[3:4]}[op]):
            c.run(lambda: getattr(im, m))
    elif op == "set_rgb":
        st.rgb = fresh(c, st, "rgb")
        v = to_layout(c, st.rgb, st.cf)
        c.run(lambda: setattr(im, "rgb_image", v))
    elif op == "set_depth":
        st.depth = fresh(c, st, "depth")
        v = to_layout(c, st.depth, st.cf)
        c.run(lambda: setattr(im, "depth_image", v))
    elif op == "set_intrinsics":
        st.K = fresh(c, st, "K")
        c.run(lambda: setattr(im, "intrinsics", st.K))
    elif op == "set_poses":
        st.P = fresh(c, st, "P")
        c.run(lambda: setattr(im, "poses", st.P))
    elif op == "set_poses_none":
        st.P = None
        c.run(lambda: setattr(im, "poses", None))
    elif op in ("to_cl_", "to_cf_"):
        st.cf = op == "to_cf_"
        r = c.run(lambda: im.to_channels_first_() if st.cf else im.to_channels_last_())
        c.check(r is im, "in-place conversion returns self")
    else:
        st.cf = op == "to_cf"
        st.im = c.run(lambda: im.to_channels_first(copy=True) if st.cf else im.to_channels_last(copy=True))


def verify(c, st, tag):
    f = images(c, st)
    im = st.im
    c.check_eq(c.run(lambda: im.rgb_image), to_layout(c, st.rgb, st.cf), tag + "rgb")
    c.check_eq(c.run(lambda: im.depth_image), to_layout(c, st.depth, st.cf), tag + "depth")
    c.check_eq(c.run(lambda: im.intrinsics), st.K, tag + "intrinsics")
    c.check((im.poses is None) == (st.P is None), tag + "has poses")
    if st.P is not None:
        c.check_eq(c.run(lambda: im.poses), st.P, tag + "poses")
    c.check(im.channels_first == st.cf, tag + "layout")
    for m in MAPS:
        c.check_eq(c.run(lambda: getattr(im, m)), c.run(lambda: getattr(f, m)), tag + m)


def history(shape, cf, first, n, ops=OPS, poses=True):
    def h(c):
        st = State()
        st.shape, st.cf, st.n = shape, cf, 0
        st.rgb, st.depth, st.K, st.P = fresh(c, st, "rgb"), fresh(c, st, "depth"), fresh(c, st, "K"), fresh(c, st, "P") if poses else None
        st.im = images(c, st)
        apply(c, st, first)
        for k in range(n - 1):
            apply(c, st, ops[c.choose("op%d" % k, len(ops))])
        verify(c, st, "")
    return h


def rejected(shape, cf, conv, touch):
    """wrongly shaped values raise and change nothing"""
    def h(c):
        st = State()
        st.shape, st.cf, st.n = shape, cf, 0
        st.rgb, st.depth, st.K, st.P = fresh(c, st, "rgb"), fresh(c, st, "depth"), fresh(c, st, "K"), fresh(c, st, "P")
        st.im = images(c, st)
        if touch:
            apply(c, st, "read_all")
        if conv:
            apply(c, st, "to_cl_" if cf else "to_cf_")
        B, L, H, W = shape
        bad = {
            "rgb_image": [(B, L, W, H, 3), (B, L, 3, W, H), (B, L, H, W, 3) if st.cf else (B, L, 3, H, W), (B, L, H, W, 1), (B, L + 1, H, W, 3), (L, H, W, 3)],
            "depth_image": [(B, L, W, H, 1), (B, L, 1, W, H), (B, L, H, W, 1) if st.cf else (B, L, 1, H, W), (B, L, H, W, 3), (B + 1, L, H, W, 1), (B, L, H, W)],
            "intrinsics": [(B, L, 4, 4) if L > 1 else (B, 2, 4, 4), (B, 4, 4), (B, 1, 3, 3), (B + 1, 1, 4, 4)],
            "poses": [(B, 1, 4, 4) if L > 1 else (B, 2, 4, 4), (B, L, 3, 4), (B, 4, 4)],
        }
        for k, shapes in bad.items():
            for i, s in enumerate(shapes):
                v = c.real("bad_%s%d" % (k, i), s)
                c.check(c.raises(lambda: c.run(lambda: setattr(st.im, k, v)), (ValueError, TypeError)), "%s %s rejected" % (k, s))
            c.check(c.raises(lambda: c.run(lambda: setattr(st.im, k, [1.0])), (ValueError, TypeError)), "%s list rejected" % k)
        verify(c, st, "after rejection ")
    return h


def edited(shape, cf, field):
    """the current tensor of a field edited in place by its owner and assigned again"""
    def h(c):
        st = State()
        st.shape, st.cf, st.n = shape, cf, 0
        st.rgb, st.depth, st.K, st.P = fresh(c, st, "rgb"), fresh(c, st, "depth"), fresh(c, st, "K"), fresh(c, st, "P")
        st.im = images(c, st)
        apply(c, st, ("read_all", "read_gnormal", "read_valid")[c.choose("read", 3)])
        if c.branch(c.flag("convert")):
            apply(c, st, "to_cl_" if cf else "to_cf_")
        st.n += 1
        a, k = {"rgb_image": ("rgb", "rgb"), "depth_image": ("depth", "depth"), "intrinsics": ("K", "K"), "poses": ("P", "P")}[field]
        new = fresh(c, st, k)
        t = c.run(lambda: getattr(st.im, field))
        v = to_layout(c, new, st.cf) if a in ("rgb", "depth") else new
        c.run(lambda: t.copy_(v))
        c.run(lambda: setattr(st.im, field, t))
        setattr(st, a, new)
        verify(c, st, "")
    return h


def cases(tier):
    n = 3 if tier == "quick" else 4
    for i, f in enumerate(OPS):
        yield Case("history_cl_%s" % f, history((1, 1, 2, 3), False, f, n), budget=700 if tier == "quick" else 3000,
                   bounds={"B,L,H,W": (1, 1, 2, 3), "operations": n, "first": f}, max_paths=20000)
    # two-element channels-first sequences, longer first prefix
    for f in ("read_all", "to_cl_", "set_depth", "read_valid"):
        yield Case("history_cf_%s" % f, history((2, 2, 2, 3), True, f, 2 if tier == "quick" else 3), budget=400,
                   bounds={"B,L,H,W": (2, 2, 2, 3), "operations": 2, "first": f}, max_paths=20000)
    for field in ("rgb_image", "depth_image", "intrinsics", "poses"):
        yield Case("edited_%s" % field, edited((1, 2, 2, 2), field == "poses", field), budget=200, bounds={"B,L,H,W": (1, 2, 2, 2)})
    for cf in (False, True):
        for conv in (False, True):
            yield Case("rejected_cf%d_conv%d" % (cf, conv), rejected((1, 2, 2, 4), cf, conv, conv), budget=200,
                       bounds={"B,L,H,W": (1, 2, 2, 4)})


ASSUMPTIONS = ["images of at least 2x2 pixels (normals need two rows and columns)"]
