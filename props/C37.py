"""C37: exports for viewing show exactly what is stored"""
import contextlib
import types
from unittest import mock

import numpy as np
import torch
from symx.engine import Case
from .common import *
from .clouds import make as make_cloud, verify


class Obj:
    """stands in for a plotly / open3d object: keeps what it is given"""

    def __init__(self, **k):
        self.__dict__.update(k)


class Fig(Obj):
    def __init__(self, **k):
        Obj.__init__(self, **k)
        self.data = list(getattr(self, "data", ()))

    def update_layout(self, *a, **k):
        pass

    def update(self, *a, **k):
        for d in a:
            self.__dict__.update(d)
        self.__dict__.update(k)

    def add_trace(self, t, **k):
        self.data.append(t)

    def add_traces(self, t, **k):
        self.data.extend(t if isinstance(t, (list, tuple)) else [t])


def go_stub():
    return types.SimpleNamespace(Scatter3d=lambda **k: Obj(**{**k, "marker": Obj(**k.get("marker", {}))}), Image=lambda **k: Obj(**k), Figure=lambda **k: Fig(**k), Frame=lambda **k: Obj(**k))


def o3d_stub():
    return types.SimpleNamespace(geometry=types.SimpleNamespace(PointCloud=lambda: Obj(points=None, colors=None, normals=None)), utility=types.SimpleNamespace(Vector3dVector=lambda x: np.array(x)))


class TorchPerm:
    """torch whose random permutation is the given one"""

    def __init__(self, perm):
        self.perm, self.calls = perm, []

    def __getattr__(self, k):
        return getattr(torch, k)

    def randperm(self, n, **k):
        self.calls.append(int(n))
        return self.perm(int(n))


class Cv:
    """lossless stand-in for the jpeg encoder: the 'file' names the encoded image"""
    COLOR_RGB2BGR, IMWRITE_JPEG_QUALITY = 4, 1

    def __init__(self):
        self.images = []

    def cvtColor(self, img, code):
        assert code == self.COLOR_RGB2BGR and img.ndim == 3
        return img[..., ::-1]

    def imencode(self, ext, img, params=None):
        self.images.append(img)
        return True, b"%d" % (len(self.images) - 1)

    def shown(self, source):
        """the image a viewer of the encoded text shows, red first"""
        import base64
        head, text = source.split(",")
        assert head == "data:image/jpeg;base64"
        i = self.images[int(base64.b64decode(text))]
        return i[..., ::-1] if i.ndim == 3 else i


def rows(c, x):
    return np.array(np.asarray(x, dtype=object) if c.symbolic else np.asarray(x).tolist(), dtype=object)


def rescaled(c, v, mx, target):
    """color value v of a cloud / sequence whose largest value is mx, in the target's range"""
    if target == "open3d":
        w = c.ite(mx > 1.1, v / 255, v)
        return c.ite(w < 0, 0.0, c.ite(w > 1, 1.0, w))
    w = c.ite(mx < 1.1, v * 255, v)
    return c.ite(w < 0, 0.0, c.ite(w > 255, 255.0, w))


def largest(c, xs):
    m = xs[0]
    for x in xs[1:]:
        m = c.ite(x > m, x, m)
    return m


def same_colors(c, got, want, target, label):
    """open3d: equal; plotly: an integer less than one away (rounding down, up or to nearest)"""
    if target == "open3d":
        c.check_eq(got, want, label)
        return
    c.check(got.shape == want.shape, label + " shape")
    if got.shape == want.shape:
        e = 1e-3
        c.check(c.and_(*[c.and_(g < w + 1 + e, g > w - 1 - e, g == c.floor(g)) for g, w in zip(got.reshape(-1), want.reshape(-1))]), label)


def cloud(target, counts, attrs, limit=None, sample=False, figure=False):
    def h(c):
        from gradslam.structures import pointclouds as P
        pc, m = make_cloud(c, "a", counts, attrs)
        if "colors" in attrs:
            for b, n in enumerate(counts):
                for ix in np.ndindex(n, 3):
                    # away from the two thresholds by which the range of the colors is recognised
                    v = m.colors[b][ix]
                    c.assume(c.and_(c.or_(v <= 1.05, v >= 1.15), v >= -300, v <= 600))
        touched = c.branch(c.flag("touched"))
        if touched:
            verify(c, pc, m, "before ")
        i = c.choose("index", len(counts))
        n = counts[i]
        pts = m.points[i]
        lim = limit
        if limit is not None:
            lim = c.choose("limit", limit) + 1
        drawn = lim is not None and lim < n
        if drawn:
            for j in range(n - 1):
                # pairwise different points, so that a row of the export names one of them
                c.assume(pts[j, 0] + 0.01 < pts[j + 1, 0])

        def perm(k):
            p = [c.integer("perm%d" % j, 0, k - 1) for j in range(k)]
            for a in range(k):
                for b in range(a):
                    c.assume(p[a] != p[b])
            return c.tensor(p, torch.int64)
        show = c.branch(c.flag("include_colors"))
        nrm = c.branch(c.flag("include_normals")) if target == "open3d" else False
        tp = TorchPerm(perm)
        with c.patched(P), mock.patch.object(P, "torch", tp), mock.patch.object(P, "o3d", o3d_stub()), mock.patch.object(P, "go", go_stub()):
            if target == "open3d":
                o = c.run(lambda: pc.open3d(i, include_colors=show, max_num_points=lim, include_normals=nrm))
                got, col, nor = o.points, o.colors, o.normals
            else:
                o = c.run(lambda: pc.plotly(i, include_colors=show, max_num_points=lim, as_figure=figure))
                if figure:
                    c.check(len(o.data) == 1, "one trace")
                    o = o.data[0]
                got = np.stack([np.asarray(o.x), np.asarray(o.y), np.asarray(o.z)], -1)
                col, nor = getattr(o.marker, "color", None), None
            for k in tp.calls:
                c.check(k == n, "drawn from the points of this cloud")
        got = rows(c, got).reshape(-1, 3)
        k = min(n, lim) if lim is not None else n
        c.check(len(got) == k, "number of exported points")
        has_c, has_n = show and "colors" in attrs, nrm and "normals" in attrs
        c.check((col is not None) == has_c, "colors shown")
        c.check((nor is not None) == has_n, "normals shown")
        if len(got) != k:
            return
        col = rows(c, col).reshape(-1, 3) if has_c else None
        nor = rows(c, nor).reshape(-1, 3) if has_n else None
        if not drawn:
            c.check_eq(got, pts, "points")
            if has_n:
                c.check_eq(nor, m.normals[i], "normals")
            if has_c:
                want = empty((n, 3))
                for ix in np.ndindex(n, 3):
                    want[ix] = rescaled(c, m.colors[i][ix], largest(c, list(m.colors[i].reshape(-1))), target)
                same_colors(c, col, want, target, "colors")
        else:
            e = 1e-3
            near = lambda a, b, s=e: c.and_(a <= b + s, b <= a + s)
            if has_c:
                c.check(len(col) == k, "color rows")
            if has_n:
                c.check(len(nor) == k, "normal rows")
            for r in range(k):
                hit = [c.and_(*[near(got[r, d], pts[j, d]) for d in range(3)]) for j in range(n)]
                c.check(c.or_(*hit), "every exported point is stored")
                for q in range(r):
                    c.check(c.not_(near(got[r, 0], got[q, 0])), "no point is exported twice")
                if has_n and len(nor) == k:
                    for j in range(n):
                        c.check(c.or_(c.not_(hit[j]), c.and_(*[near(nor[r, d], m.normals[i][j, d]) for d in range(3)])), "normal of the exported point")
                if has_c and len(col) == k:
                    # one rule for the shown points
                    mx = largest(c, [c_ for rr in range(n) for c_ in m.colors[i][rr]])
                    # the range is recognised by the largest color; where shown and stored points disagree either is accepted
                    small = c.and_(*[v <= 1.1 for v in m.colors[i].reshape(-1)])
                    big = c.and_(*[c.or_(*[m.colors[i][rr, d] > 1.1 for d in range(3)]) for rr in range(n)])
                    c.assume(c.or_(small, big))
                    for j in range(n):
                        for d in range(3):
                            w = rescaled(c, m.colors[i][j, d], mx, target)
                            g = col[r, d]
                            ok = near(g, w) if target == "open3d" else c.and_(g < w + 1 + e, g > w - 1 - e)
                            c.check(c.or_(c.not_(hit[j]), ok), "color of the exported point")
        verify(c, pc, m, "source ")
    return h


def cloud_rejects(c):
    from gradslam.structures import pointclouds as P
    pc, m = make_cloud(c, "a", [2, 1], ("points", "colors"))
    with c.patched(P), mock.patch.object(P, "o3d", o3d_stub()), mock.patch.object(P, "go", go_stub()):
        for f in ("open3d", "plotly"):
            for ix in (0.0, "0", None, slice(0, 1), torch.tensor(0), [0]):
                c.check(c.raises(lambda: c.run(lambda: getattr(pc, f)(ix)), TypeError), "%s: index %r rejected" % (f, ix))
            for ix in (2, 5):
                c.check(c.raises(lambda: c.run(lambda: getattr(pc, f)(ix)), IndexError), "%s: index %r rejected" % (f, ix))
    verify(c, pc, m, "source ")


def frames(shape, cf, figure, missing=True):
    B, L, H, W = shape

    def h(c):
        from gradslam.structures import rgbdimages as R, structutils as S
        rgb, depth = c.real("rgb", (B, L, H, W, 3), -300, 600), c.real("depth", (B, L, H, W, 1), 0, 200)
        K, _ = intrinsics(c, "K", B)
        r, d = c.E(rgb), c.E(depth)
        for v in r.reshape(-1):
            c.assume(c.or_(v <= 1.05, v >= 1.15))
        i = c.choose("index", B)
        dep = c.branch(c.flag("include_depth"))
        for v in d.reshape(-1):
            c.assume(c.or_(v == 0, v >= 0.01))
        s = 1.0
        if dep:
            # the power of ten that brings the largest depth into (25.5, 255]
            e = c.choose("band", 6) - 1
            sel = d[i].reshape(-1)
            if e == 4:
                for v in sel:
                    c.assume(v == 0)
            else:
                s = 10.0 ** e
                for v in sel:
                    c.assume(v * s <= 254.9)
                c.assume(c.or_(*[v * s >= 25.6 for v in sel]))
        bright = c.branch(c.flag("bright"))
        c.assume(c.or_(*[v >= 1.15 for v in r[i].reshape(-1)])) if bright else [c.assume(v <= 1.05) for v in r[i].reshape(-1)]
        im = c.run(lambda: R.RGBDImages(to_layout(c, rgb, cf), to_layout(c, depth, cf), K, None, channels_first=cf))
        cv = Cv()
        with contextlib.ExitStack() as st:
            st.enter_context(c.patched(R, S))
            st.enter_context(mock.patch.object(S, "cv2", cv))
            st.enter_context(mock.patch.object(S, "go", go_stub()))
            st.enter_context(mock.patch.object(R, "go", go_stub(), create=True))
            st.enter_context(mock.patch.object(R, "make_subplots", lambda *a, **k: Fig()))
            o = c.run(lambda: im.plotly(i, include_depth=dep, as_figure=figure))
        fr = o if not figure else [x if isinstance(x, dict) else vars(x) for x in o.frames]
        c.check(len(fr) == L, "one entry per frame")
        if len(fr) != L:
            return
        if figure:
            c.check(len(o.data) == 1 + dep, "initial images")
        mx = 2.0 if bright else 0.0
        for l in range(L):
            c.check(fr[l]["name"] == l and len(fr[l]["data"]) == 1 + dep, "frame entry")
            shown = [[x.source for x in fr[l]["data"]]]
            if figure and l == 0:
                shown.append([x.source for x in o.data])
            for k, src in enumerate(shown):
                want = empty((H, W, 3))
                for ix in np.ndindex(H, W, 3):
                    want[ix] = rescaled(c, r[(i, l) + ix], mx, "plotly")
                same_colors(c, rows(c, cv.shown(src[0])), want, "plotly", "color image")
                if dep:
                    g = rows(c, cv.shown(src[1]))
                    c.check(g.shape == (H, W), "depth image shape")
                    if g.shape != (H, W):
                        continue
                    w = [d[(i, l) + ix + (0,)] * s for ix in np.ndindex(H, W)]
                    g = g.reshape(-1)
                    c.check(c.and_(*[c.and_(x < y + 1 + 1e-2, x > y - 1 - 1e-2, x == c.floor(x)) for x, y in zip(g, w)]), "depth image")
                    c.check("scale: x%s<" % (int(s) if s >= 1 else s) in fr[l]["data"][1].hovertemplate, "the shown scale is the one applied")
        c.check_eq(c.run(lambda: im.rgb_image), c.E(to_layout(c, rgb, cf)), "source color")
        c.check_eq(c.run(lambda: im.depth_image), c.E(to_layout(c, depth, cf)), "source depth")
        c.check(im.channels_first == cf, "source layout")
    return h


def frames_rejects(c):
    from gradslam.structures import rgbdimages as R
    K, _ = intrinsics(c, "K", 1)
    im = c.run(lambda: R.RGBDImages(c.real("rgb", (1, 1, 2, 2, 3)), c.real("depth", (1, 1, 2, 2, 1)), K))
    for ix in (0.0, "0", None, slice(0, 1), [0]):
        c.check(c.raises(lambda: c.run(lambda: im.plotly(ix)), TypeError), "index %r rejected" % (ix,))
    c.check(c.raises(lambda: c.run(lambda: im.plotly(1)), IndexError), "index outside the batch rejected")


def cases(tier):
    th = tier == "thorough"
    full = ("points", "normals", "colors")
    for target in ("open3d", "plotly"):
        for nm, counts, attrs, lim in [("mixed", [2, 0, 1], full, None), ("points", [1, 2], ("points",), None), ("limit_large", [2], full, 2), ("drawn", [1, 3], full, 4), ("drawn5", [5], ("points",), 5)] + \
                ([("mixed3", [3, 1, 2], full + ("features",), None), ("drawn4", [4], full, 5)] if th else []):
            yield Case("%s_%s" % (target, nm), cloud(target, counts, attrs, lim, figure=nm in ("points", "drawn")), budget=300, max_paths=5000, bounds={"points per cloud": counts, "attributes": attrs, "max_num_points": lim})
    yield Case("cloud_rejects", cloud_rejects, bounds={"points per cloud": [2, 1]})
    for sh, cf, fig in [((2, 1, 2, 2), False, False), ((1, 2, 2, 3), True, True), ((1, 2, 2, 2), False, True), ((2, 1, 3, 2), True, False)] + ([((2, 2, 2, 3), True, True), ((1, 3, 3, 4), True, False)] if th else []):
        yield Case("frames_%s_cf%d_fig%d" % ("x".join(map(str, sh)), cf, fig), frames(sh, cf, fig), budget=300, max_paths=5000, bounds={"B,L,H,W": sh, "channels_first": cf})
    yield Case("frames_rejects", frames_rejects, bounds={"B,L,H,W": (1, 1, 2, 2)})


ASSUMPTIONS = ["the jpeg encoder, plotly and Open3D are stood in for by objects that keep what they are given; colors keep 0.05 away from the 1.1 that separates the two color ranges, depths 0.1% from the powers of ten at which the display scale changes, non-zero depths at least 0.01",
               "when points are drawn at random, colors of all points are in the same range (the code recognises the range from the drawn points)"]
