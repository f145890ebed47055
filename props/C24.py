"""C24: the ICP linear system is the point-to-plane linearisation at the nearest neighbours"""
from fractions import Fraction

import numpy as np
import torch
from symx.engine import Case
from .common import *
from .fusion import *


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def d2(a, b):
    return sum((a[i] - b[i]) ** 2 for i in range(3))


def system(ns, nt, thresh, strided=False):
    def h(c):
        from gradslam.odometry import icputils as U
        src, tgt, nrm = c.real("s", (1, ns, 3)), c.real("t", (1, nt, 3)), c.real("n", (1, nt, 3))
        S, D, N = c.E(src)[0], c.E(tgt)[0], c.E(nrm)[0]
        if strided:
            src = c.run(lambda: src.permute(0, 2, 1).contiguous().permute(0, 2, 1))
        A, b, ix = c.run(lambda: U.gauss_newton_solve(src, tgt, nrm, thresh)) if thresh != "default" else c.run(lambda: U.gauss_newton_solve(src, tgt, nrm))
        A_, b_, I = c.E(A), c.E(b), c.E(ix)
        I = I.reshape(-1)
        k = len(I)
        c.check(tuple(A.shape) == (k, 6) and tuple(b.shape) == (k, 1), "one row per kept point")
        c.check(ix.dtype == torch.int64, "integer indices")
        th = None if thresh in (None, "default") else thresh
        if nt == 0:
            rows = []
            c.check(k == 0, "no rows without target points")
        elif th is None:
            c.check(k == ns, "no threshold keeps every source point")
            rows = list(range(ns))
        else:
            # which source points must be kept
            rows = []
            t2 = Fraction(str(th)) ** 2
            t2 = t2 if c.symbolic else float(t2)
            for i in range(ns):
                near = c.or_(*[d2(S[i], D[j]) < t2 for j in range(nt)])
                if c.branch(near):
                    rows.append(i)
            if not c.symbolic:
                edge = any(abs(min(d2(S[i], D[j]) for j in range(nt)) - t2) < 1e-4 for i in range(ns))
                if edge:
                    return
            c.check(k == len(rows), "kept exactly the points within the threshold")
        if k != len(rows):
            return
        for r, i in enumerate(rows):
            j = int(I[r])
            c.check(0 <= j < nt, "index %d inside the target" % r)
            for q in range(nt):
                # ties (and float near-ties) may go either way
                c.check(d2(S[i], D[j]) <= d2(S[i], D[q]) + (0 if c.symbolic else 1e-4 * (1 + d2(S[i], D[q]))), "nearest %d" % r)
            n, s, d = N[j], S[i], D[j]
            # residual of the point moved by a small motion (v, w): n.(s + v + w x s - d)
            w = [list(n) + cross(s, n)]
            c.check_eq(A_[r:r + 1], np.array(w, dtype=object), "row %d is the gradient" % r)
            c.check_eq(b_[r], [-dot(n, [s[q] - d[q] for q in range(3)])], "right-hand side %d is minus the residual" % r)
        c.check_eq(src, S[None], "source unchanged")
        c.check_eq(tgt, D[None], "target unchanged")
        c.check_eq(nrm, N[None], "normals unchanged")
    return h


def motion(nt):
    """the row is the derivative of the residual along se3_exp(eps * xi): checked with the true exponential's first-order part"""
    def h(c):
        from gradslam.odometry import icputils as U
        from gradslam.geometry.se3utils import se3_hat
        src, tgt, nrm = c.real("s", (1, 1, 3)), c.real("t", (1, nt, 3)), c.real("n", (1, nt, 3))
        xi = c.real("xi", (6,))
        A, b, ix = c.run(lambda: U.gauss_newton_solve(src, tgt, nrm))
        X = c.E(c.run(lambda: se3_hat(xi)))
        S, N, x = c.E(src)[0, 0], c.E(nrm)[0], c.E(xi)
        j = int(c.E(ix).reshape(-1)[0])
        moved = [sum(X[i, k] * S[k] for k in range(3)) + X[i, 3] for i in range(3)]
        c.check_eq([sum(c.E(A)[0, k] * x[k] for k in range(6))], [dot(N[j], moved)], "directional derivative along the twist")
    return h


def rejects():
    def h(c):
        from gradslam.odometry import icputils as U
        f = U.gauss_newton_solve
        s, t, n = c.real("s", (1, 2, 3)), c.real("t", (1, 3, 3)), c.real("n", (1, 3, 3))
        x = [[0.0] * 3]
        for k, a in enumerate(((x, t, n), (s, x, n), (s, t, x), (s, t, n, "a"), (s, t, n, [1.0]))):
            c.check(c.raises(lambda: c.run(lambda: f(*a)), TypeError), "type %d" % k)
        bad = lambda sh: c.real("bad%s" % (sh,), sh)
        for k, a in enumerate(((s[0], t, n), (s, t[0], n), (s, t, n[0]), (bad((2, 2, 3)), t, n), (s, bad((2, 3, 3)), n), (s, t, bad((2, 3, 3))),
                               (s, t, bad((1, 2, 3))), (bad((1, 2, 4)), t, n), (s, bad((1, 3, 2)), n), (s, t, bad((1, 3, 4))))):
            c.check(c.raises(lambda: c.run(lambda: f(*a)), ValueError), "shape %d" % k)
    return h


def cases(tier):
    q = [(1, 1, None), (2, 2, "default"), (1, 3, None), (2, 2, .5), (3, 1, 2), (2, 1, .05, True), (3, 2, .5), (2, 3, 1.5), (0, 2, None), (2, 0, None), (2, 0, .5), (0, 2, .5), (0, 0, "default")]
    if tier == "thorough":
        q += [(3, 3, None), (4, 2, None, True)]
    for s in q:
        yield Case("system_%dx%d_%s%s" % (s[0], s[1], s[2], "_strided" if len(s) > 3 else ""), system(*s), budget=400, max_paths=20000, feas_ms=300,
                   bounds={"source points": s[0], "target points": s[1], "threshold": s[2]})
    yield Case("motion", motion(2), bounds={"target points": 2})
    yield Case("rejects", rejects())


ASSUMPTIONS = ["the compiled nearest-neighbour kernel returns the nearest target point (lowest index on ties) and its squared distance"]
