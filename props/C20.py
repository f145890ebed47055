"""C20: disambiguation keeps exactly one, the best, candidate per live pixel"""
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .fusion import *


def best(counts, H, W, cf, rows, flo=0, fixed_conf=None, simple=True, touch=0):
    def h(c):
        from gradslam.slam import fusionutils as F
        B = len(counts)
        pc, m = cloud(c, "map", counts, ("points", "features"), flo=flo)
        if fixed_conf is not None:
            pc, m = cloud_fixed(c, counts, fixed_conf)
        P, _ = affine(c, "pose", (B, 1)) if not simple else (None, None)
        im, fr = frames(c, "f", B, 1, H, W, cf, P, dlo=.5 if simple else -1)
        V = last(c, im, "global_vertex_map")
        if touch:
            c.run(lambda: (pc.points_padded, pc.features_padded))
        tab = table(c, rows)
        res = c.run(lambda: F.find_best_unique_correspondences(pc, im, tab))
        c.check(res.dtype == torch.int64 and res.ndim == 2 and res.shape[1] == 4, "integer table of four columns")
        R = c.E(res)
        pix = {}
        for k in range(len(R)):
            row = tuple(int(x) for x in R[k])
            c.check(row in set(map(tuple, rows)), "row %d was a candidate" % k)
            p = (row[0], row[2], row[3])
            c.check(p not in pix, "one association for pixel %s" % (p,))
            pix[p] = row
        cand = {}
        for b, n, r, s in rows:
            cand.setdefault((b, r, s), []).append((b, n, r, s))
        c.check(set(cand) == set(pix), "every pixel with a candidate keeps one")
        if set(cand) == set(pix):
            for p, lst in cand.items():
                b, n, r, s = pix[p]
                if (b, n, r, s) not in lst:
                    continue
                cn, dn = m["features"][b][n, 0], dist(V[b, 0, r, s], m["points"][b][n])
                for (_, n2, _, _) in lst:
                    if n2 == n:
                        continue
                    c2, d2 = m["features"][b][n2, 0], dist(V[b, 0, r, s], m["points"][b][n2])
                    # confidences / distances within float resolution of one another may go either way
                    if c.symbolic:
                        c.check(cn >= c2, "pixel %s: most confident (%d over %d)" % (p, n, n2))
                        c.check(c.or_(cn > c2, dn <= d2), "pixel %s: closest among equals (%d over %d)" % (p, n, n2))
                    else:
                        c.check(cn >= c2 - 1e-5 * max(1, abs(c2)), "pixel %s: most confident (%d over %d)" % (p, n, n2))
                        c.check(c.or_(cn > c2, abs(cn - c2) <= 1e-5 * max(1, abs(c2)) and cn != c2, dn <= d2 + 1e-4 * max(1, d2)), "pixel %s: closest among equals (%d over %d)" % (p, n, n2))
        c.check_eq(tab, np.array(rows, dtype=object), "table unchanged")
        for b in range(B):
            for a in ("points", "features"):
                c.check_eq(c.run(lambda: getattr(pc, a + "_list")[b]), m[a][b], "map %s %d unchanged" % (a, b))
    return h


def cloud_fixed(c, counts, conf):
    from gradslam.structures.pointclouds import Pointclouds
    pts = [c.real("fix.points%d" % b, (n, 3)) for b, n in enumerate(counts)]
    ft = [c.tensor(np.array(conf[b], dtype=object).reshape(-1, 1)) for b in range(len(counts))]
    return c.run(lambda: Pointclouds(points=pts, features=ft)), {"points": [c.E(t) for t in pts], "features": [c.E(t) for t in ft]}


def dist(v, q):
    return sum((v[i] - q[i]) ** 2 for i in range(3))


PTS = [[-.5, -.25, 1], [.01, -.25, 1], [-1, -.5, 2], [0, .3, 1], [5, 5, 1]]     # pixels (0,0) (0,1) (0,0) (1,1) outside


def pipeline(counts, H, W, dist_th, dot_th):
    """find_correspondences is the composition of its three documented stages (fixed geometry, everything else free)"""
    def h(c):
        from gradslam.slam import fusionutils as F
        from gradslam.structures.pointclouds import Pointclouds
        B = len(counts)
        pts = [c.tensor(PTS[:n]) for n in counts]
        nrm = [c.real("n%d" % b, (n, 3)) for b, n in enumerate(counts)]
        ft = [c.real("c%d" % b, (n, 1), 0) for b, n in enumerate(counts)]
        pc = c.run(lambda: Pointclouds(points=pts, normals=nrm, features=ft))
        P, _ = c.tensor(np.tile(np.eye(4), (B, 1, 1, 1))), None
        im, fr = frames(c, "f", B, 1, H, W, False, P, dlo=.5, K=fixed_K(c, B))
        got = c.run(lambda: F.find_correspondences(pc, im, dist_th, dot_th))
        act = c.run(lambda: F.find_active_map_points(pc, im))
        sim, mask = c.run(lambda: F.find_similar_map_points(pc, im, act, dist_th, dot_th))
        want = c.run(lambda: F.find_best_unique_correspondences(pc, im, sim))
        c.check(got.dtype == torch.int64, "integer table")
        c.check_eq(got, c.E(want), "composition of the stages")
        for b in range(B):
            c.check(tuple(c.run(lambda: pc.points_list[b]).shape) == (counts[b], 3), "map unchanged")
    return h


def fixed_K(c, B):
    K = empty((B, 1, 4, 4))
    for b in range(B):
        K[b, 0] = np.array([[2, 0, 1, 0], [0, 2, .5, 0], [0, 0, 1, 0], [0, 0, 0, 1]], dtype=object)
    return c.tensor(K)


def rejects():
    def h(c):
        from gradslam.slam import fusionutils as F
        from gradslam.structures.pointclouds import Pointclouds
        pc, m = cloud(c, "map", (2, 1), ("points", "features"))
        im, _ = frames(c, "f", 2, 1, 2, 2)
        f = F.find_best_unique_correspondences
        one, none = table(c, [(0, 0, 0, 0)]), torch.zeros((0, 4), dtype=torch.int64)
        for p, t in ((pc, none), (Pointclouds(), one)):
            k = c.run(lambda: f(p, im, t))
            c.check(tuple(k.shape) == (0, 4) and k.dtype == torch.int64, "nothing to associate")
        bad = [(TypeError, (im, im, one)), (TypeError, (pc, im, [[0, 0, 0, 0]])), (TypeError, (pc, im, one.float())), (ValueError, (pc, im, one[0])), (ValueError, (pc, im, one[:, :3]))]
        for k, (e, a) in enumerate(bad):
            c.check(c.raises(lambda: c.run(lambda: f(*a)), e), "bad input %d" % k)
        bare, _ = cloud(c, "bare", (2, 1), ("points",))
        c.check(c.raises(lambda: c.run(lambda: f(bare, im, one)), ValueError), "map without confidences")
        three, _ = cloud(c, "three", (1, 1, 1), ("points", "features"))
        c.check(c.raises(lambda: c.run(lambda: f(three, im, one)), ValueError), "batch sizes differ")
    return h


def large():
    """more map points than float32 can number (free: confidences of the last points)"""
    def h(c):
        from gradslam.slam import fusionutils as F
        from gradslam.structures.pointclouds import Pointclouds
        N = 2 ** 24 + 4
        big = torch.zeros(1, N, 3)
        high = [c.choose("best%d" % k, 2) for k in range(2)]
        f = torch.ones(1, N, 1)
        for k, s in enumerate(high):
            f[0, N - 4 + 2 * k + int(s)] = 2
        pc = c.run(lambda: Pointclouds(big, features=f))
        im, _ = frames(c, "f", 1, 1, 2, 2, False, None, dlo=.5)
        rows = [(0, N - 4 + 2 * k + j, 1, k) for k in range(2) for j in range(2)]
        tab = torch.tensor(rows)
        res = c.run(lambda: F.find_best_unique_correspondences(pc, im, tab))
        off = torch.tensor([[0, N - 4, 0, 0]])          # small numbers are compared exactly
        c.check_eq(res - off, np.array([[0, 2 * k + int(s), 1, k] for k, s in enumerate(high)], dtype=object), "indices of the best points")
    return h


def cases(tier):
    q = [((3,), 2, 2, False, [(0, 0, 1, 0), (0, 1, 1, 0), (0, 2, 0, 1)]),
         ((3,), 2, 3, False, [(0, 2, 1, 2), (0, 0, 1, 2), (0, 1, 1, 2)]),
         ((2, 2), 2, 2, True, [(0, 0, 0, 1), (1, 1, 0, 1), (0, 1, 0, 1), (1, 0, 1, 0)]),
         ((1, 2), 2, 2, False, [(1, 0, 0, 0), (0, 0, 0, 0), (1, 1, 0, 0)], 0, None, False, 1),
         ((3,), 2, 2, False, [(0, 0, 1, 1), (0, 1, 1, 1), (0, 2, 1, 1)], 0, [[2, 2, 2]]),
         ((3,), 2, 2, False, [(0, 0, 1, 1), (0, 1, 1, 1), (0, 2, 1, 1)], 0, [[2, 3, 3]])]
    if True:
        q += [((4,), 2, 2, False, [(0, 0, 1, 1), (0, 1, 1, 1), (0, 2, 1, 1), (0, 3, 1, 1)], 0, [[1, 3, 3, 2]]),
              ((2, 2), 2, 2, False, [(0, 0, 0, 0), (0, 1, 0, 0), (1, 0, 0, 0), (1, 1, 0, 0)]),
              ((4,), 3, 3, False, [(0, 0, 1, 2), (0, 1, 2, 1), (0, 2, 2, 1), (0, 3, 1, 2)])]
    for k, s in enumerate(q):
        yield Case("best%d_%s_%dx%d_cf%d" % (k, "-".join(map(str, s[0])), s[1], s[2], s[3]), best(*s), budget=400, max_paths=5000, feas_ms=300,
                   bounds={"points per map": s[0], "H,W": s[1:3], "rows": s[4], "confidences": "all >= 0" if len(s) < 7 or s[6] is None else s[6]})
    yield Case("pipeline", pipeline((3,), 2, 2, .5, 0), budget=400, max_paths=5000, feas_ms=300, bounds={"points per map": (3,), "H,W": (2, 2), "map points": PTS})
    if True:
        yield Case("pipeline_batch", pipeline((2, 5), 2, 2, .5, 0), budget=800, max_paths=5000, feas_ms=300, bounds={"points per map": (2, 5), "H,W": (2, 2), "map points": PTS})
    yield Case("large", large(), budget=200, max_paths=100, bounds={"points per map": (2 ** 24 + 4,), "free": "which of the last points is the most confident; the frame"})
    yield Case("rejects", rejects())


ASSUMPTIONS = ["one confidence channel, confidences not negative",
               "'distance to the viewing ray' is the library's: the distance of the map point to the live pixel's point"]
