"""C31: image and intrinsics preprocessing"""
import itertools
import warnings

import numpy as np
import torch
from symx.engine import Case
from .common import *
from .datasets import *

# scannet20 index of every nyu40 class that scannet20 knows
KEEP = {1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 9, 10: 10, 11: 11, 12: 12, 14: 13, 16: 14, 24: 15, 28: 16, 33: 17, 34: 18, 36: 19, 39: 20}


def make(c, a, kind, lib):
    if lib == "np":
        return c.narr(a, np.float64)
    return c.tensor(a)


def matrices(c, name, shape, n):
    a = empty(shape + (n, n))
    for ix in np.ndindex(*a.shape):
        a[ix] = c.number("%s%s" % (name, list(ix)), -4096, 4096)
    return a


def quiet(c, fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return c.run(fn)


def scale(shape, n, lib, ints=False):
    def h(c):
        from gradslam.datasets import datautils as D
        k = matrices(c, "k", shape, n)
        hr, wr = (c.integer("h", 1, 8), c.integer("w", 1, 8)) if ints else (c.number("h", 0.0625, 16), c.number("w", 0.0625, 16))
        with c.patched(D):
            x = make(c, k, "f", lib)
            r = quiet(c, lambda: D.scale_intrinsics(x, hr, wr))
            p = quiet(c, lambda: D.scale_intrinsics(x, h_ratio=hr, w_ratio=wr))
        want = empty(k.shape)
        for ix in np.ndindex(*k.shape):
            i, j = ix[-2:]
            f = wr if (i, j) in ((0, 0), (0, 2)) else hr if (i, j) in ((1, 1), (1, 2)) else 1.0
            want[ix] = k[ix] * f
        c.check(tuple(r.shape) == k.shape, "shape")
        c.check_eq(r, want, "scaled intrinsics")
        c.check_eq(p, want, "scaled intrinsics (keywords)")
        c.check_eq(x, k, "given matrix")
        if lib == "torch":
            c.check(r.dtype == torch.float32, "float32")
        elif not c.symbolic:
            c.check(r.dtype == np.float32, "float32")
    return h


def dilate(n, lib):
    """projections scale with the image"""
    def h(c):
        from gradslam.datasets import datautils as D
        from gradslam.geometry import projutils as P
        fx, fy, cx, cy = [c.number(s, 1, 2048) for s in ("fx", "fy", "cx", "cy")]
        hr, wr = c.number("h", 0.0625, 16), c.number("w", 0.0625, 16)
        pt = [c.number("p%s" % s, -64, 64) for s in "xy"] + [c.number("pz", 0.0625, 64)]
        k = np.array([[fx, 0.0, cx, 0.0], [0.0, fy, cy, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]], dtype=object)
        with c.patched(D):
            x = make(c, k[:n, :n], "f", lib)
            s = quiet(c, lambda: D.scale_intrinsics(x, hr, wr))
        t = s if lib == "torch" else c.tensor(c.E(s) if c.symbolic else s)
        pts = c.tensor([pt])
        if n == 3:
            e = c.E(t)
            full = empty((4, 4))
            full[...] = np.eye(4)
            full[:3, :3] = e
            t = c.tensor(full)
        uv = c.E(c.run(lambda: P.project_points(pts, t)))
        c.check_eq([uv[0, 0] * pt[2]], [wr * (fx * pt[0] + cx * pt[2])], "column scales with the width")
        c.check_eq([uv[0, 1] * pt[2]], [hr * (fy * pt[1] + cy * pt[2])], "row scales with the height")
    return h


def first(shape, lib, twice=False):
    def h(c):
        from gradslam.datasets import datautils as D
        a = empty(shape)
        for n, ix in enumerate(np.ndindex(*shape)):
            a[ix] = c.number("x%d" % n, -512, 512)
        with c.patched(D):
            x = make(c, a, "f", lib)
            r = quiet(c, lambda: D.channels_first(x))
            c.check_eq(x, a, "given image")
            want = np.moveaxis(a, -1, -3)
            c.check(tuple(r.shape) == want.shape, "shape")
            if tuple(r.shape) == want.shape:
                c.check_eq(r, want, "channels first")
            if not c.symbolic:
                c.check(bool(r.flags["C_CONTIGUOUS"] if lib == "np" else r.is_contiguous()), "contiguous")
    return h


def normalised(shape, lib):
    def h(c):
        from gradslam.datasets import datautils as D
        a = empty(shape)
        for n, ix in enumerate(np.ndindex(*shape)):
            a[ix] = c.number("x%d" % n, 0, 255)
        with c.patched(D, builtins=("float",)):
            x = make(c, a, "f", lib)
            r = quiet(c, lambda: D.normalize_image(x))
        c.check(tuple(r.shape) == tuple(shape), "shape")
        e = c.E(r)
        c.check_eq(e.reshape(-1) * 255, a.reshape(-1), "affine onto [0,1]")
        for v in e.reshape(-1):
            c.check(c.and_(v >= 0, v <= 1.00001), "between 0 and 1")
        c.check_eq(x, a, "given image")
    return h


def bad(c):
    from gradslam.datasets import datautils as D
    k = [[1.0, 0.0], [0.0, 1.0]]
    for f in (D.normalize_image, D.channels_first):
        c.check(c.raises(lambda: f(k), TypeError), "%s of a list" % f.__name__)
    c.check(c.raises(lambda: D.scale_intrinsics(k, 1.0, 1.0), TypeError), "scale_intrinsics of a list")
    for lib in ("np", "torch"):
        for s in ((2, 2), (3, 4), (2, 3, 2)):
            x = np.ones(s) if lib == "np" else torch.ones(*s)
            c.check(c.raises(lambda: D.scale_intrinsics(x, 1.0, 1.0), ValueError), "%s of %s" % (lib, s))
        x = np.ones((3, 4)) if lib == "np" else torch.ones(3, 4)
        c.check(c.raises(lambda: D.channels_first(x), ValueError), "two dimensions")


def remap(shape):
    def h(c):
        from gradslam.datasets import scannet as S
        a = empty(shape)
        for n, ix in enumerate(np.ndindex(*shape)):
            a[ix] = c.integer("l%d" % n, 0, 40)
        with c.patched(S):
            r = c.run(lambda: S.nyu40_to_scannet20(c.narr(a, np.uint8)))
        e = c.E(r)
        c.check(e.shape == shape, "shape")
        for n, ix in enumerate(np.ndindex(*shape)):
            w = 0
            for s, t in KEEP.items():
                w = c.ite(a[ix] == s, t, w)
            c.check_eq([e[ix]], [w], "class of label %d" % n)
    return h


def tables(c):
    """the class a kept label is mapped to carries the same name"""
    from gradslam.datasets import scannet as S
    a, b = list(S.get_color_encoding("nyu40").items()), list(S.get_color_encoding("scannet20").items())
    k = c.integer("label", 0, 40)
    with c.patched(S):
        r = c.E(c.run(lambda: S.nyu40_to_scannet20(c.narr(np.array([[k]], dtype=object), np.uint8))))[0, 0]
    for i in range(41):
        name = a[i][0]
        j = [t for t, (n, _) in enumerate(b) if n == name]
        if j:
            c.check(c.or_(k != i, r == j[0]), "%s keeps its name" % name)
            c.check(a[i][1] == b[j[0]][1], "%s keeps its color" % name)
        else:
            c.check(c.or_(k != i, r == 0), "%s is ignored" % name)


def paint(shape, n):
    def h(c):
        from gradslam.datasets import datautils as D
        a = empty(shape)
        for t, ix in enumerate(np.ndindex(*shape)):
            a[ix] = c.integer("l%d" % t, 0, n)
        pal = [[c.integer("c%d%s" % (k, s), 0, 255) for s in "rgb"] for k in range(n)]
        with c.patched(D):
            x = c.narr(a, np.int64)
            r = c.E(c.run(lambda: D.create_label_image(x, [tuple(p) for p in pal])))
        c.check(r.shape == shape + (3,), "shape")
        for ix in np.ndindex(*shape):
            for q in range(3):
                w = 0
                for k in range(n):
                    w = c.ite(a[ix] == k, pal[k][q], w)
                c.check_eq([r[ix + (q,)]], [w], "color of the class")
        c.check_eq(x, a, "prediction")
    return h


def images(c, kind, sizes):
    """reader of symbolic images: every pixel of every file is its own number"""
    H, W = sizes
    store = {}

    def read(path):
        if path not in store:
            t, k, i = code(path)
            if k in ("rgb", "color"):
                s, top = (H, W, 3), 255
            elif k == "depth":
                s, top = (H, W), 65535
            else:
                s, top = (H, W), 40
            a = empty(s)
            for n, ix in enumerate(np.ndindex(*s)):
                a[ix] = c.integer("%s%d.%d" % (k[0], i, n), 0, top)
            store[path] = a
        a = store[path]
        if c.symbolic:
            from symx.npshim import arr
            return arr(a.copy(), "i")
        k = code(path)[1]
        return a.astype(np.uint8 if k in ("rgb", "color", "label-filt") else np.uint16)
    return read, store


def interp(img, h, w):
    return np.asarray(resize_model(img, (w, h), 1), dtype=object)


def nearest(img, h, w):
    return np.asarray(resize_model(img, (w, h), 0), dtype=object)


BASE_K = {"tum": (525.0, 525.0, 319.5, 239.5), "icl": (481.2, -480.0, 319.5, 239.5)}


def served(kind, size, out, cf, norm, L=2, seg="scannet20"):
    """what a loader serves for the images of a folder"""
    def h(c):
        import importlib
        H, W = size
        hh, ww = out
        read, store = images(c, kind, size)
        with Files() as f, loader(c, kind, read) as mod, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kk = [[c.number("k%s" % n, 1, 2048) for n in ("fx", "fy", "cx", "cy")]] if kind == "scannet" else None
            if kind == "scannet":
                p = kk[0]
                base, meta = put_scannet(f, c, (L,), K=lambda t: [[p[0], 0.0, p[2], 0.0], [0.0, p[1], p[3], 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]])
                ds = c.run(lambda: mod.Scannet(base, meta, None, height=hh, width=ww, channels_first=cf, normalize_color=norm, seg_classes=seg))
            else:
                base = PUT[kind](f, c, (L,))
                cls = getattr(mod, kind.upper())
                ds = c.run(lambda: cls(base, seqlen=L, height=hh, width=ww, channels_first=cf, normalize_color=norm))
            it = c.run(lambda: ds[0])
            again = c.run(lambda: ds[0])
        color, depth, K = c.E(it[0]), c.E(it[1]), c.E(it[2])
        c.check(color.shape == ((L, 3, hh, ww) if cf else (L, hh, ww, 3)), "color shape")
        c.check(depth.shape == ((L, 1, hh, ww) if cf else (L, hh, ww, 1)), "depth shape")
        c.check(K.shape == (1, 4, 4), "intrinsics shape")
        if cf:
            color, depth = np.moveaxis(color, -3, -1), np.moveaxis(depth, -3, -1)
        for i in range(L):
            for path, a in store.items():
                _, k, j = code(path)
                if j != i:
                    continue
                if k in ("rgb", "color"):
                    c.check_eq(color[i] * (255 if norm else 1), interp(a, hh, ww), "color of frame %d" % i)
                elif k == "depth":
                    c.check_eq(depth[i, ..., 0] * (1000 if kind == "scannet" else 5000), nearest(a, hh, ww), "depth of frame %d in meters" % i)
                else:
                    e = c.E(it[6])
                    c.check(e.shape[:3] == (L, hh, ww), "label shape")
                    e = e.reshape(L, hh, ww)
                    want = nearest(a, hh, ww)
                    if seg == "scannet20":
                        for ix in np.ndindex(*want.shape):
                            w = 0
                            for s, t in KEEP.items():
                                w = c.ite(want[ix] == s, t, w)
                            want[ix] = w
                    c.check_eq(e[i], want, "labels of frame %d" % i)
        fx, fy, cx, cy = kk[0] if kind == "scannet" else BASE_K[kind]
        want = [[fx * ww / 640.0, 0.0, cx * ww / 640.0, 0.0], [0.0, fy * hh / 480.0, cy * hh / 480.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]]
        c.check_eq(K[0], np.array(want, dtype=object), "intrinsics of the resized frame")
        for n in (0, 1, 2):
            c.check_eq(again[n], c.E(it[n]), "served twice: output %d" % n)
    return h


def parts(kind):
    """switching outputs off removes exactly them"""
    def h(c):
        from .C29 import marks
        names = ["depth", "intrinsics", "pose", "transform", "names"] + (["timestamps"] if kind == "tum" else ["labels"] if kind == "scannet" else [])
        on = {n: bool(c.flag(n)) for n in names}
        with Files() as f, loader(c, kind, marks) as mod, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kw = {"return_" + n: on[n] for n in names}
            if kind == "scannet":
                base, meta = put_scannet(f, c, (3,))
                make = lambda k: mod.Scannet(base, meta, None, start=1, height=1, width=1, **k)
            else:
                base = PUT[kind](f, c, (3,))
                make = lambda k: getattr(mod, kind.upper())(base, seqlen=2, start=1, height=1, width=1, **k)
            it = c.run(lambda: make(kw)[0])
            full = c.run(lambda: make({})[0])
        c.check(len(full) == 1 + len(names), "all outputs")
        keep = [full[0]] + [full[1 + k] for k, n in enumerate(names) if on[n]]
        c.check(len(it) == len(keep), "number of outputs")
        for k, (a, b) in enumerate(zip(it, keep)):
            if isinstance(b, str):
                cut = kind == "tum" and not (on["pose"] or on["transform"])      # pose stamps are there only when poses are read
                c.check([l.split()[:4] if cut else l for l in a.split("\n")] == [l.split()[:4] if cut else l for l in b.split("\n")], "text output")
            else:
                c.check(tuple(a.shape) == tuple(b.shape), "shape")
                if tuple(a.shape) == tuple(b.shape):
                    c.check_eq(a, c.E(b), "output")
    return h


def cases(tier):
    t = tier == "thorough"
    for lib in ("np", "torch"):
        for shape, n in [((), 3), ((), 4), ((2,), 3), ((2, 1), 4)] + ([((2, 2), 3), ((1, 2, 2), 4)] if t else []):
            yield Case("scale_%s_%s" % (lib, "x".join(map(str, shape + (n, n)))), scale(shape, n, lib))
        yield Case("scale_%s_ints" % lib, scale((), 4, lib, ints=True))
        for n in (3, 4):
            yield Case("projection_%s_%d" % (lib, n), dilate(n, lib))
        for s in [(2, 3, 3), (3, 2, 1), (1, 2, 4), (2, 2, 3, 1), (1, 2, 3, 2, 2)] + ([(2, 1, 4, 5, 3), (4, 4, 4)] if t else []):
            yield Case("channels_first_%s_%s" % (lib, "x".join(map(str, s))), first(s, lib))
        for s in [(3,), (2, 2, 3)] + ([(2, 1, 3, 2)] if t else []):
            yield Case("normalize_%s_%s" % (lib, "x".join(map(str, s))), normalised(s, lib))
    yield Case("rejects", bad)
    for s in [(1, 1), (2, 2), (1, 3)]:
        yield Case("labels_%dx%d" % s, remap(s))
    yield Case("label_tables", tables)
    for s, n in [((1, 2), 2), ((2, 2), 3), ((2, 1), 4)] + ([((3, 3), 5)] if t else []):
        yield Case("paint_%dx%d_%d" % (s + (n,)), paint(s, n))
    sizes = [((2, 3), (2, 3)), ((4, 2), (2, 3)), ((2, 2), (3, 4))] + ([((5, 3), (3, 4)), ((3, 7), (4, 2)), ((6, 8), (3, 4))] if t else [])
    for kind in ("tum", "icl", "scannet"):
        for k, (a, b) in enumerate(sizes):
            for cf, norm in itertools.product((False, True), repeat=2):
                if not t and k and cf != norm and k != 1:
                    continue
                yield Case("%s_%dx%d_to_%dx%d_%d%d" % (kind, *a, *b, cf, norm), served(kind, a, b, cf, norm, L=1 if k else 2), budget=200,
                           bounds={"recorded size": a, "served size": b, "channels_first": cf, "normalize_color": norm})
        yield Case("%s_outputs" % kind, parts(kind), budget=200, max_paths=300, bounds={"outputs": "every combination of return flags"})
    yield Case("scannet_nyu40", served("scannet", (2, 2), (2, 3), False, False, L=1, seg="nyu40"))


ASSUMPTIONS = ["cv2.resize is modelled (nearest: floor(x*W/w); bilinear with half-pixel centres, no antialiasing) and the real cv2 is used in replays",
               "the decoder of image files is replaced; pixels are integers 0..255 (color), 0..65535 (depth), 0..40 (labels)"]
