"""C21: fusing a frame is a confidence-weighted average plus the unmatched pixels"""
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .fusion import *

A4 = ("points", "normals", "colors", "features")


def alpha_of(c, p, s):
    e = c.exp(-(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]) / (2 * s * s))
    return c.ite(e < 1e-7, 1e-7, e)


def frame_values(c, im, sigma):
    """the live frame's pixel values as the library's own maps give them (checked on their own in C01-C06)"""
    V, N, C = last(c, im, "global_vertex_map"), last(c, im, "global_normal_map"), last(c, im, "rgb_image")
    L = last(c, im, "vertex_map")
    al = empty(L.shape[:-1] + (1,))
    for ix in np.ndindex(*L.shape[:-1]):
        al[ix][0] = alpha_of(c, L[ix], sigma)
    return {"points": V, "normals": N, "colors": C, "features": al}


def fused(c, m, counts, rows, val, D, H, W):
    """reference result: attr -> list of arrays"""
    B = len(counts)
    out = {a: [x.copy() for x in m[a]] for a in A4}
    matched = set()
    for b, n, r, s in rows:
        matched.add((b, r, s))
        o = m["features"][b][n, 0]
        w = val["features"][b, 0, r, s, 0]
        for a in A4[:3]:
            for i in range(3):
                out[a][b][n, i] = (o * m[a][b][n, i] + w * val[a][b, 0, r, s, i]) / (o + w)
        out["features"][b][n, 0] = o + w
    for b in range(B):
        add = {a: [] for a in A4}
        for r, s in np.ndindex(H, W):
            if (b, r, s) in matched:
                continue
            if c.branch(D[b, 0, r, s, 0] > 0):
                for a in A4:
                    add[a].append(list(val[a][b, 0, r, s]))
        for a in A4:
            w = 1 if a == "features" else 3
            x = np.array(add[a], dtype=object).reshape(-1, w)
            out[a][b] = np.concatenate([out[a][b].reshape(-1, w), x], 0)
    return out


def compare(c, pc, want, tag, tol=1e-3):
    B = len(want["points"])
    c.check(len(pc) == B, tag + "batch size")
    for a in A4:
        g = c.run(lambda: getattr(pc, a + "_list"))
        c.check(g is not None and len(g) == B, tag + a)
        if g is None or len(g) != B:
            continue
        for b in range(B):
            c.check_eq(g[b], want[a][b], "%s%s[%d]" % (tag, a, b), tol=tol)
    n = [len(x) for x in want["points"]]
    c.check_eq(c.run(lambda: pc.num_points_per_pointcloud), np.array(n, dtype=object), tag + "counts")
    N = max(n)
    mk = np.array([[i < k for i in range(N)] for k in n], dtype=object).reshape(B, N)
    c.check_eq(c.run(lambda: pc.nonpad_mask), mk, tag + "mask")


def fuse(counts, H, W, cf, rows, sigma, touch=0, missing=True, simple=False, cold=()):
    def h(c):
        from gradslam.slam import fusionutils as F
        B = len(counts)
        pc, m = cloud(c, "map", counts, A4, flo=1e-3)
        P, _ = const_pose(c, "pose", ("id", "mix", "z90")[:B]) if simple else affine(c, "pose", (B, 1))
        im, fr = frames(c, "f", B, 1, H, W, cf, P, dlo=-1 if missing else .5)
        val = frame_values(c, im, sigma)
        if touch == 1:
            c.run(lambda: (pc.points_padded, pc.normals_padded, pc.colors_padded, pc.features_padded))
        elif touch == 2:
            c.run(lambda: (pc.points_list, pc.colors_list, pc.nonpad_mask))
        if missing and rows:
            for b, n, r, s in rows:        # associations come from the similarity filter: pixels with depth
                c.assume(fr["depth"][b, 0, r, s, 0] > 0)
        tab = table(c, rows)
        inplace = c.branch(c.flag("inplace"))
        res = c.run(lambda: F.fuse_with_map(pc, im, tab, sigma, inplace=inplace))
        want = fused(c, m, counts, rows, val, fr["depth"], H, W)
        compare(c, res, want, "")
        if inplace:
            c.check(res is pc, "in place returns the map itself")
        else:
            c.check(res is not pc, "out of place returns another map")
            compare(c, pc, m, "given map ")
            # the result is independent of the given map
            c.run(lambda: res.offset_(1.0)) if False else None
        v2 = frame_values(c, im, sigma)
        for a in A4[:3]:
            c.check_eq(v2[a], val[a], "frame %s unchanged" % a)
        c.check_eq(tab, np.array(rows, dtype=object).reshape(-1, 4), "table unchanged")
    return h


def first(B, H, W, cf, sigma, how):
    """an empty map becomes exactly the frame"""
    def h(c):
        from gradslam.slam import fusionutils as F
        from gradslam.structures.pointclouds import Pointclouds
        pc = Pointclouds()
        P, _ = affine(c, "pose", (B, 1)) if how == 0 else const_pose(c, "pose", ("id", "mix")[:B])
        im, fr = frames(c, "f", B, 1, H, W, cf, P)
        inplace = c.branch(c.flag("inplace"))
        val = frame_values(c, im, sigma)
        if how == 0:
            res = c.run(lambda: F.fuse_with_map(pc, im, table(c, []), sigma, inplace=inplace))
        else:
            res = c.run(lambda: F.update_map_fusion(pc, im, .05, .9, sigma, inplace=inplace))
        m = {a: [empty((0, 1 if a == "features" else 3)) for b in range(B)] for a in A4}
        want = fused(c, m, (0,) * B, [], val, fr["depth"], H, W)
        compare(c, res, want, "")
        c.check((res is pc) == inplace, "in place")
        if not inplace:
            c.check(not pc.has_points and len(pc) == 0, "given map still empty")
    return h


PTS = [[-.5, -.25, 1], [.01, -.25, 1], [-1, -.5, 2], [5, 5, 1]]        # pixels (0,0) (0,1) (0,0) and outside


def pipeline(counts, H, W, dist_th, dot_th, sigma):
    """update_map_fusion: associations as in C18-C20, then the fusion above; pixels without depth never take part"""
    def h(c):
        from gradslam.slam import fusionutils as F
        from gradslam.structures.pointclouds import Pointclouds
        B = len(counts)
        pts = [c.tensor(PTS[:n]) for n in counts]
        oth = {a: [c.real("%s%d" % (a, b), (n, 1 if a == "features" else 3), 1e-3 if a == "features" else None) for b, n in enumerate(counts)] for a in A4[1:]}
        pc = c.run(lambda: Pointclouds(points=pts, **oth))
        m = {a: [c.E(t) for t in (pts if a == "points" else oth[a])] for a in A4}
        K = empty((B, 1, 4, 4))
        for b in range(B):
            K[b, 0] = np.array([[2, 0, 1, 0], [0, 2, .5, 0], [0, 0, 1, 0], [0, 0, 0, 1]], dtype=object)
        P = c.tensor(np.tile(np.eye(4), (B, 1, 1, 1)))
        im, fr = frames(c, "f", B, 1, H, W, False, P, K=c.tensor(K))
        val = frame_values(c, im, sigma)
        D = fr["depth"]
        inplace = c.branch(c.flag("inplace"))
        tab = c.run(lambda: F.find_correspondences(pc, im, dist_th, dot_th))
        rows = [tuple(int(x) for x in r) for r in c.E(tab)]
        res = c.run(lambda: F.update_map_fusion(pc, im, dist_th, dot_th, sigma, inplace=inplace))
        for b, n, r, s in rows:
            c.check(D[b, 0, r, s, 0] > 0, "associated pixels have depth")
        want = fused(c, m, counts, rows, val, D, H, W)
        compare(c, res, want, "")
        c.check((res is pc) == inplace, "in place")
        if not inplace:
            compare(c, pc, m, "given map ")
    return h


def alphas(shape, dim, keepdim):
    def h(c):
        from gradslam.slam import fusionutils as F
        p = c.real("p", shape)
        s = c.real("sigma", (), .125, 4)
        lo = .01
        for k, (sg, sv) in enumerate(((s, c.E(s).item()), (.5, .5), (2, 2))):
            for eps in (None, lo):
                g = c.run(lambda: F.get_alpha(p, sg, dim, keepdim) if eps is None else F.get_alpha(p, sg, dim, keepdim, eps=eps))
                G = c.E(g)
                A = np.moveaxis(c.E(p), dim, -1)
                sh = A.shape[:-1]
                full = list(shape)
                full[dim] = 1
                c.check(tuple(g.shape) == (tuple(full) if keepdim else tuple(sh)), "shape")
                G = np.moveaxis(G, dim, -1)[..., 0] if keepdim else G
                for ix in np.ndindex(*sh):
                    e = c.exp(-(A[ix][0] ** 2 + A[ix][1] ** 2 + A[ix][2] ** 2) / (2 * sv * sv))
                    fl = 1e-7 if eps is None else eps
                    c.check_eq([G[ix]], [c.ite(e < fl, fl, e)], "confidence %d%s" % (k, ix))
                    c.check(c.and_(G[ix] > 0, G[ix] <= 1.001), "between zero and one")
    return h


def rejects():
    def h(c):
        from gradslam.slam import fusionutils as F
        from gradslam.structures.pointclouds import Pointclouds
        pc, m = cloud(c, "map", (2, 1), A4)
        P, _ = const_pose(c, "pose", ("id", "mix"))
        im, _ = frames(c, "f", 2, 1, 2, 2, P=P)
        f = F.fuse_with_map
        one = table(c, [(0, 0, 0, 0)])
        bad = [(TypeError, (im, im, one, .6)), (TypeError, (pc, pc, one, .6)), (TypeError, (pc, im, [[0, 0, 0, 0]], .6)), (TypeError, (pc, im, one.float(), .6)),
               (ValueError, (pc, im, one[0], .6)), (ValueError, (pc, im, one[:, :3], .6)), (TypeError, (pc, im, one, "a"))]
        for k, (e, a) in enumerate(bad):
            for ip in (False, True):
                c.check(c.raises(lambda: c.run(lambda: f(*a, inplace=ip)), e), "bad input %d" % k)
        for miss in ("normals", "colors", "features"):
            q, _ = cloud(c, "no" + miss, (2, 1), tuple(a for a in A4 if a != miss))
            c.check(c.raises(lambda: c.run(lambda: f(q, im, one, .6, inplace=True)), ValueError), "map without " + miss)
        compare(c, pc, m, "map unchanged by rejected calls ")
        x = c.real("x", (2, 3))
        g = F.get_alpha
        c.check(c.raises(lambda: c.run(lambda: g([1.0, 2, 3], .6)), TypeError), "alpha needs a tensor")
        c.check(c.raises(lambda: c.run(lambda: g(x, None)), TypeError), "alpha sigma type")
        c.check(c.raises(lambda: c.run(lambda: g(x, .6, eps=1)), TypeError), "alpha eps type")
        c.check(c.raises(lambda: c.run(lambda: g(x, .6, dim=0)), ValueError), "alpha three components")
        c.check(c.raises(lambda: c.run(lambda: g(x, c.real("sv", (1,)))), ValueError), "alpha scalar sigma")
    return h


def cases(tier):
    q = [((1,), 2, 2, False, [(0, 0, 1, 0)], .6),
         ((2, 1), 2, 2, False, [(0, 1, 0, 1)], .5, 1),
         ((2, 1), 2, 2, True, [(1, 0, 0, 0), (0, 0, 1, 1)], .6, 2, True, True),
         ((0, 2), 2, 2, False, [(1, 1, 1, 0), (1, 0, 0, 1)], 1, 0, False),
         ((2, 1), 2, 3, True, [], .6, 1, False, True)]
    if tier == "thorough":
        q += [((3, 2), 2, 3, False, [(0, 2, 1, 0), (0, 0, 0, 2), (1, 1, 0, 0)], .6, 2), ((2, 0, 1), 3, 2, True, [(0, 1, 0, 1), (2, 0, 2, 1)], .6, 1, False)]
    for k, s in enumerate(q):
        yield Case("fuse%d_%s_%dx%d_cf%d" % (k, "-".join(map(str, s[0])), s[1], s[2], s[3]), fuse(*s), budget=400, max_paths=5000, feas_ms=300,
                   bounds={"points per map": s[0], "H,W": s[1:3], "associations": s[4], "sigma": s[5]})
    yield Case("first_1_2x2", first(1, 2, 2, False, .6, 0), budget=200, bounds={"B,H,W": (1, 2, 2)})
    yield Case("first_2_2x2", first(2, 2, 2, True, .6, 1), budget=400, max_paths=5000, feas_ms=300, bounds={"B,H,W": (2, 2, 2)})
    yield Case("pipeline", pipeline((2,), 2, 2, .5, 0, .6), budget=400, max_paths=5000, feas_ms=300, bounds={"points per map": (2,), "H,W": (2, 2), "map points": PTS})
    if tier == "thorough":
        yield Case("pipeline_batch", pipeline((3, 4), 2, 2, .5, .5, .6), budget=850, max_paths=50000, feas_ms=200, bounds={"points per map": (3, 4), "H,W": (2, 2), "map points": PTS})
    yield Case("alpha_2x3", alphas((2, 3), -1, False), bounds={"shape": (2, 3)})
    yield Case("alpha_3x2_keep", alphas((3, 2), 0, True), bounds={"shape": (3, 2)})
    yield Case("rejects", rejects())


ASSUMPTIONS = ["map confidences of at least 1e-3", "associated pixels have depth (the similarity filter guarantees it for a non-negative normal threshold; checked in case pipeline)"]
