"""C19: the similarity filter keeps exactly the close associations with similar normals"""
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .fusion import *


def close_pairs(shape, dim, dist_th, dot_th):
    """are_points_close / are_normals_similar on their own"""
    def h(c):
        from gradslam.slam import fusionutils as F
        a, b = c.real("a", shape), c.real("b", shape)
        A, B = np.moveaxis(c.E(a), dim, -1), np.moveaxis(c.E(b), dim, -1)
        r1 = c.run(lambda: F.are_points_close(a, b, dist_th, dim=dim))
        r2 = c.run(lambda: F.are_normals_similar(a, b, dot_th, dim=dim))
        c.check(r1.dtype == torch.bool and r2.dtype == torch.bool, "boolean results")
        R1, R2 = c.E(r1), c.E(r2)
        c.check(tuple(R1.shape) == tuple(A.shape[:-1]) and tuple(R2.shape) == tuple(A.shape[:-1]), "shapes")
        for ix in np.ndindex(*A.shape[:-1]):
            d = sum((A[ix][i] - B[ix][i]) ** 2 for i in range(3))
            s = sum(A[ix][i] * B[ix][i] for i in range(3))
            near(c, R1[ix], d, dist_th * dist_th if dist_th > 0 else -1, True, "close %s" % (ix,))
            near(c, R2[ix], s, dot_th, False, "similar %s" % (ix,))
    return h


def near(c, got, val, th, below, label):
    """got <=> val < th (below) or val > th; float comparisons may differ right at the threshold"""
    m = 1e-5 * max(1.0, abs(th))
    if below:
        c.check(c.or_(c.not_(got), val < th + m), label + " only if")
        c.check(c.or_(got, val > th - m), label + " if")
    else:
        c.check(c.or_(c.not_(got), val > th - m), label + " only if")
        c.check(c.or_(got, val < th + m), label + " if")


def similar(counts, H, W, cf, rows, dist_th, dot_th, touch=0):
    def h(c):
        from gradslam.slam import fusionutils as F
        B = len(counts)
        pc, m = cloud(c, "map", counts, ("points", "normals"))
        P, _ = affine(c, "pose", (B, 1))
        im, fr = frames(c, "f", B, 1, H, W, cf, P)
        V, N = last(c, im, "global_vertex_map"), last(c, im, "global_normal_map")
        if touch:
            c.run(lambda: (pc.points_padded, pc.normals_padded))
        tab = table(c, rows)
        keep, mask = c.run(lambda: F.find_similar_map_points(pc, im, tab, dist_th, dot_th))
        c.check(mask.dtype == torch.bool and tuple(mask.shape) == (len(rows),), "mask over the rows")
        M = c.E(mask)
        want = []
        for k, (b, n, r, s) in enumerate(rows):
            v, q = V[b, 0, r, s], m["points"][b][n]
            g, o = N[b, 0, r, s], m["normals"][b][n]
            d = sum((v[i] - q[i]) ** 2 for i in range(3))
            t = sum(g[i] * o[i] for i in range(3))
            kept = c.branch(M[k])
            if kept:
                want.append(rows[k])
                c.check(d < dist_th ** 2 + 1e-5, "row %d kept, so close" % k)
                c.check(t > dot_th - 1e-5, "row %d kept, so normals agree" % k)
            else:
                c.check(c.or_(d > dist_th ** 2 - 1e-5, t < dot_th + 1e-5), "row %d dropped, so far or turned away" % k)
        c.check(keep.dtype == torch.int64 and tuple(keep.shape) == (len(want), 4), "as many rows as the mask")
        if tuple(keep.shape) == (len(want), 4):
            c.check_eq(keep, np.array(want, dtype=object).reshape(-1, 4), "the rows of the mask, in order")
        c.check_eq(tab, np.array(rows, dtype=object), "table unchanged")
        for b in range(B):
            for a in ("points", "normals"):
                c.check_eq(c.run(lambda: getattr(pc, a + "_list")[b]), m[a][b], "map %s %d unchanged" % (a, b))
        W2 = last(c, im, "global_vertex_map")
        c.check_eq(W2, V, "frame unchanged")
    return h


def rejects():
    def h(c):
        from gradslam.slam import fusionutils as F
        from gradslam.structures.pointclouds import Pointclouds
        pc, m = cloud(c, "map", (2, 1), ("points", "normals"))
        P, _ = const_pose(c, "pose", ("id", "mix"))
        im, _ = frames(c, "f", 2, 1, 2, 2, P=P)
        none = torch.zeros((0, 4), dtype=torch.int64)
        f = F.find_similar_map_points
        for p, t, w in ((pc, none, "no rows"), (Pointclouds(), table(c, [(0, 0, 0, 0)]), "no points")):
            k, s = c.run(lambda: f(p, im, t, .1, .5))
            c.check(tuple(k.shape) == (0, 4) and k.dtype == torch.int64 and tuple(s.shape) == (0,) and s.dtype == torch.bool, w)
        one = table(c, [(0, 0, 0, 0)])
        bad = [(TypeError, (im, im, one, .1, .5)), (TypeError, (pc, pc, one, .1, .5)), (TypeError, (pc, im, [[0, 0, 0, 0]], .1, .5)),
               (TypeError, (pc, im, one.float(), .1, .5)), (TypeError, (pc, im, one.int(), .1, .5)), (ValueError, (pc, im, one[0], .1, .5)),
               (ValueError, (pc, im, one[:, :3], .1, .5)), (TypeError, (pc, im, one, "a", .5)), (TypeError, (pc, im, one, .1, None))]
        for k, (e, a) in enumerate(bad):
            c.check(c.raises(lambda: c.run(lambda: f(*a)), e), "bad input %d" % k)
        bare, _ = cloud(c, "bare", (2, 1), ("points",))
        c.check(c.raises(lambda: c.run(lambda: f(bare, im, one, .1, .5)), ValueError), "map without normals")
        three, _ = cloud(c, "three", (1, 1, 1), ("points", "normals"))
        c.check(c.raises(lambda: c.run(lambda: f(three, im, one, .1, .5)), ValueError), "batch sizes differ")
        x, y = c.real("x", (2, 3)), c.real("y", (3, 3))
        for g in (F.are_points_close, F.are_normals_similar):
            c.check(c.raises(lambda: c.run(lambda: g(x, y, .1)), ValueError), "shapes differ")
            c.check(c.raises(lambda: c.run(lambda: g(x, x, .1, dim=0)), ValueError), "not three components")
            c.check(c.raises(lambda: c.run(lambda: g(1.0, x, .1)), TypeError), "not a tensor")
            c.check(c.raises(lambda: c.run(lambda: g(x, [1], .1)), TypeError), "not a tensor 2")
            c.check(c.raises(lambda: c.run(lambda: g(x, x, None)), TypeError), "threshold type")
    return h


def cases(tier):
    for s in (((2, 3), -1, .25, .5), ((3, 2), 0, 2, -1), ((2, 3, 2), 1, .05, 0), ((1, 2, 3), 2, 0, 1)):
        yield Case("pairs_%s_%d" % ("x".join(map(str, s[0])), s[1]), close_pairs(*s), budget=100, bounds={"shape": s[0], "dim": s[1], "thresholds": s[2:]})
    q = [((2, 1), 2, 3, False, [(0, 1, 1, 2), (0, 0, 0, 1), (1, 0, 1, 0)], .25, .5),
         ((2, 1), 3, 2, True, [(0, 0, 0, 0), (0, 1, 0, 0), (1, 0, 1, 1)], .05, .9, 1),
         ((0, 3), 2, 2, False, [(1, 2, 0, 0), (1, 0, 1, 0)], 1, 0)]
    if tier == "thorough":
        q += [((2, 2), 3, 3, False, [(1, 1, 1, 1), (0, 0, 0, 0), (0, 1, 1, 0), (1, 0, 0, 1)], .25, .75),
              ((3, 1), 2, 3, True, [(0, 2, 0, 0), (0, 1, 0, 1), (0, 0, 0, 0), (1, 0, 0, 0)], .25, .75)]
    for s in q:
        yield Case("similar_%s_%dx%d_cf%d" % ("-".join(map(str, s[0])), s[1], s[2], s[3]), similar(*s), budget=400, max_paths=5000, feas_ms=300,
                   bounds={"points per map": s[0], "H,W": s[1:3], "rows": s[4], "thresholds": s[5:7]})
    yield Case("rejects", rejects())


ASSUMPTIONS = ["results exactly at a threshold (within 1e-5) are not constrained"]
