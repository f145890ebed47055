"""C26: Levenberg-Marquardt / gradLM ICP"""
from fractions import Fraction

import numpy as np
import torch
from symx import solver, terms as T
from symx.engine import Case
from symx.scalars import _n
from .common import *
from .fusion import *

G = (1.0, 0.0, 0.0, 0.0)


def mul(a, b):
    o = empty((a.shape[0],) + b.shape[1:])
    for ix in np.ndindex(*o.shape):
        o[ix] = sum(a[ix[0], k] * b[(k,) + ix[1:]] for k in range(a.shape[1]))
    return o


def same(c, a, b):
    a, b = np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1)
    if a.shape != b.shape:
        return False
    for x, y in zip(a, b):
        if c.symbolic:
            x, y = _n(x), _n(y)
            if x is not y and not solver.poly_zero(T.sub(x, y)):
                return False
        elif abs(float(x) - float(y)) > 1e-4 * (1 + abs(float(y))):
            return False
    return True


class Fn:
    """an arbitrary function: equal arguments get the same, otherwise unconstrained, result"""

    def __init__(self, c, make):
        self.c, self.make, self.memo = c, make, []

    def __call__(self, *keys):
        for k, v in self.memo:
            if all(same(self.c, x, y) for x, y in zip(k, keys)):
                return v
        v = self.make(len(self.memo))
        self.memo.append((keys, v))
        return v


def expmap(c, x, spin):
    """exp of the twist x = (v, w); spin says which components of w are non-zero"""
    o = empty((4, 4))
    o[...] = 0.0
    if not spin:
        for i in range(4):
            o[i, i] = 1.0
        o[:3, 3] = x[:3]
        return o
    w = x[3:]
    W = np.array([[0.0, -w[2], w[1]], [w[2], 0.0, -w[0]], [-w[1], w[0], 0.0]], dtype=object)
    th = c.sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2])
    s, k = c.sin(th), c.cos(th)
    W2 = mul(W, W)
    R = np.eye(3) + (s / th) * W + ((1.0 - k) / (th * th)) * W2
    V = np.eye(3) + ((1.0 - k) / (th * th)) * W + ((th - s) / (th * th * th)) * W2
    o[:3, :3] = R
    o[:3, 3] = mul(V, x[:3])
    o[3] = [0.0, 0.0, 0.0, 1.0]
    return o


def apply(Tm, P):
    o = empty(P.shape)
    for n in range(P.shape[0]):
        for i in range(3):
            o[n, i] = sum(Tm[i, k] * P[n, k] for k in range(3)) + Tm[i, 3]
    return o


class Solver:
    """stands for the linearisation (C24) and the linear solve (C25): every residual, every increment"""

    def __init__(self, c, U, spin, npt, rows=None):
        self.c, self.U, self.spin = c, U, spin
        rows = rows or (npt,)       # how many points have a neighbour within the threshold, cycled over the linearisations
        # spin: pattern of twists (0 translation, 1 about z, 3 any axis), cycled over the solves
        self.lin = Fn(c, lambda k: (c.real("A%d" % k, (rows[k % len(rows)], 6), -2, 2), c.real("b%d" % k, (rows[k % len(rows)], 1), -3, 3), torch.arange(rows[k % len(rows)])))
        self.sol = Fn(c, self._twist)
        self.bad = None

    def _twist(self, k):
        kind = self.spin[k % len(self.spin)]
        x = empty((6, 1))
        for i in range(3):
            x[i, 0] = self.c.number("xi%d.v%d" % (k, i), -2, 2)
        for i in range(3):
            x[3 + i, 0] = self.c.number("xi%d.w%d" % (k, i), -2, 2) if kind == 3 else self.c.number("xi%d.w%d" % (k, i), .25, 2) if kind and i == 2 else 0.0
        if kind == 3:
            self.c.fact(x[3, 0] * x[3, 0] + x[4, 0] * x[4, 0] + x[5, 0] * x[5, 0], .0625)
        return self.c.tensor(x if self.c.symbolic else x.astype(float)), x, kind

    def install(self, tgt, nrm, thresh):
        U, c = self.U, self.c
        self.saved = U.gauss_newton_solve, U.solve_linear_system

        def gn(src_pc, tgt_pc, tgt_normals, dist_thresh=None):
            if not same(c, c.E(tgt_pc), tgt) or not same(c, c.E(tgt_normals), nrm):
                self.bad = "target"
            if dist_thresh != thresh:
                self.bad = "threshold"
            if tuple(src_pc.shape) != (1,) + self.shape:
                self.bad = "source shape"
            return self.lin(c.E(src_pc).reshape(self.shape))

        def solve(A, b, damp=1e-8):
            d = c.E(damp).item() if torch.is_tensor(damp) else damp
            return self.sol(c.E(A), c.E(b), np.array([d], dtype=object))[0]
        U.gauss_newton_solve, U.solve_linear_system = gn, solve

    def restore(self):
        self.U.gauss_newton_solve, self.U.solve_linear_system = self.saved

    def linear(self, P):
        A, b, _ = self.lin(P)
        return self.c.E(A), self.c.E(b)

    def increment(self, A, b, d):
        t, x, kind = self.sol(A, b, np.array([d], dtype=object))
        return x[:, 0], kind


def sq(b):
    return sum(v * v for v in b.reshape(-1))


def initial(c, kind):
    if kind is None:
        return None, np.eye(4).astype(object)
    o = empty((4, 4))
    R = [[c.number("T.r%d%d" % (i, j)) for j in range(3)] for i in range(3)] if kind == "affine" else ROT[kind]
    for i in range(3):
        for j in range(3):
            o[i, j] = R[i][j]
        o[i, 3] = c.number("T.t%d" % i)
    o[3] = [0.0, 0.0, 0.0, 1.0]
    return c.tensor(o if c.symbolic else o.astype(float)), o


def lm(iters, init, npt=1, spin=(0,), thresh=None, damp=None, strided=False, rows=None):
    """the loop against a reference, for every residual and increment the solver could return"""
    def h(c):
        from gradslam.odometry import icputils as U
        src, tgt, nrm = c.real("s", (1, npt, 3), -3, 3), c.real("t", (1, 2, 3), -3, 3), c.real("n", (1, 2, 3), -1, 1)
        P = c.E(src)[0]
        t0, T0 = initial(c, init)
        sv = Solver(c, U, spin, npt, rows)
        sv.shape = (npt, 3)
        sv.install(c.E(tgt), c.E(nrm), thresh)
        s0 = c.E(src)
        k = {} if damp is None else {"damp": damp}
        try:
            sp = c.run(lambda: src.permute(0, 2, 1).contiguous().permute(0, 2, 1)) if strided else src
            r = c.run(lambda: U.point_to_plane_ICP(sp, tgt, nrm, t0, iters, dist_thresh=thresh, **k))
        finally:
            sv.restore()
        c.check(sv.bad is None, "solver called on %s" % (sv.bad or "the right target"))
        tr = r[0]
        c.check(tuple(tr.shape) == (4, 4), "shape")
        d = 1e-8 if damp is None else damp
        M, Q = T0, apply(T0, P)
        A, b = sv.linear(Q)
        first = sq(b)
        cur = first
        for it in range(iters):
            x, kind = sv.increment(A, b, d)
            X = expmap(c, x, kind)
            Q1 = apply(X, Q)
            A1, b1 = sv.linear(Q1)
            e0, e1 = sq(b), sq(b1)
            if not c.symbolic and abs(float(e0) - float(e1)) < 1e-4:
                return
            if c.branch(e1 < e0):
                M, Q, A, b = mul(X, M), Q1, A1, b1
                d = d / 2
                cur = e1
            else:
                d = d * 2
        c.check_eq(tr, M, "accepted increments composed with the initial transform", tol=1e-2)
        c.check(cur <= first, "residual not increased")
        if iters:
            # the increment and damping of the next solve are exercised by the loop; the last accepted cloud is the returned transform of the source
            c.check_eq(apply(c.E(tr), P), Q, "transform carries the source to the accepted cloud", tol=1e-2)
        c.check_eq(src, s0, "source unchanged")
        if t0 is not None:
            c.check_eq(t0, T0, "initial transform unchanged")
    return h


def gradlm(iters, init, npt=1, spin=(0,), thresh=None, damp=None, par=None, rows=None):
    def h(c):
        from gradslam.odometry import icputils as U
        src, tgt, nrm = c.real("s", (1, npt, 3), -3, 3), c.real("t", (1, 2, 3), -3, 3), c.real("n", (1, 2, 3), -1, 1)
        P = c.E(src)[0]
        t0, T0 = initial(c, init)
        sv = Solver(c, U, spin, npt, rows)
        sv.shape = (npt, 3)
        sv.install(c.E(tgt), c.E(nrm), thresh)
        s0 = c.E(src)
        k = {} if damp is None else {"damp": damp}
        lmax, B, B2, nu = par or (2.0, 1.0, 1.0, 200.0)
        if par:
            k.update(lambda_max=lmax, B=B, B2=B2, nu=nu)
        try:
            r = c.run(lambda: U.point_to_plane_gradICP(src, tgt, nrm, t0, iters, dist_thresh=thresh, **k))
        finally:
            sv.restore()
        c.check(sv.bad is None, "solver called on %s" % (sv.bad or "the right target"))
        tr = r[0]
        c.check(tuple(tr.shape) == (4, 4), "shape")
        d = 1e-8 if damp is None else damp
        M, Q = T0, apply(T0, P)
        for it in range(iters):
            A, b = sv.linear(Q)
            x, kind = sv.increment(A, b, d)
            A1, b1 = sv.linear(apply(expmap(c, x, kind), Q))
            r1 = sq(b1) - sq(b)
            r1 = c.ite(r1 < -70, -70.0, c.ite(r1 > 70, 70.0, r1))
            lmin = 1 / lmax
            fac = lmin + (lmax - lmin) / (1 + c.exp(-B * r1))
            gate = 1 / ((1 + c.exp(-B2 * r1)) ** (1 / nu))
            d = d * fac
            if kind:
                c.assume(gate * gate * sq(x[3:]) > 1.1e-12)   # below that angle the exponential is linearised (C17)
            X = expmap(c, np.array([gate * v for v in x], dtype=object), kind)
            M, Q = mul(X, M), apply(X, Q)
        c.check_eq(tr, M, "gated increments composed with the initial transform", tol=1e-2)
        c.check_eq(src, s0, "source unchanged")
        if t0 is not None:
            c.check_eq(t0, T0, "initial transform unchanged")
    return h


SQ = [[1, 0], [-1, 0], [0, 1], [0, -1]]


def whole(iters, grad, damp, axis=2):
    """end to end with the real linearisation, solve and nearest neighbours: a square patch at any height over a parallel plane"""
    def h(c):
        from gradslam.odometry import icputils as U
        z = c.number("z", -2, 2)
        c.assume(c.or_(z > .01, z < -.01))
        pos = lambda a, zz: [a[0] * 2.0, a[1] * 2.0, zz] if axis == 2 else [zz, a[0] * 2.0, a[1] * 2.0]
        src = np.array([[pos(a, z) for a in SQ]], dtype=object)
        tgt = np.array([[pos(a, 0.0) for a in SQ]], dtype=object)
        nrm = np.array([[[float(i == axis) for i in range(3)]] * 4], dtype=object)
        if not c.symbolic:
            src, tgt = src.astype(float), tgt.astype(float)
        s, t, n = c.tensor(src), c.tensor(tgt), c.tensor(nrm.astype(float))
        if grad:
            f = lambda: U.point_to_plane_gradICP(s, t, n, None, iters, damp)
        else:
            f = lambda: U.point_to_plane_ICP(s, t, n, None, iters, damp)
        tr, idx = c.run(f)
        c.check(list(c.E(idx).reshape(-1)) == [0, 1, 2, 3], "every point pairs with the one below it")
        d, q, tot = Fraction(str(damp)) if c.symbolic else damp, z, 0.0
        for it in range(iters):
            x = -4 * q / (4 + d)
            if grad:
                e0, e1 = 4 * q * q, 4 * (q + x) * (q + x)
                r = e1 - e0
                r = c.ite(r < -70, -70.0, c.ite(r > 70, 70.0, r))
                d = d * (.5 + 1.5 / (1 + c.exp(-r)))
                x = x / ((1 + c.exp(-r)) ** (1 / 200.0))
            else:
                d = d / 2
            q, tot = q + x, tot + x
        M = np.eye(4).astype(object)
        M[axis, 3] = tot
        c.check_eq(tr, M, "translation onto the plane", tol=1e-2)
    return h


def nothing(ns, nt, grad, thresh, init):
    """without points on one side there is nothing to align: the initial transform comes back (real linearisation and solve)"""
    def h(c):
        from gradslam.odometry import icputils as U
        src, tgt, nrm = c.real("s", (1, ns, 3)), c.real("t", (1, nt, 3)), c.real("n", (1, nt, 3))
        T0, E0 = initial(c, init)
        fn = U.point_to_plane_gradICP if grad else U.point_to_plane_ICP
        tr, idx = c.run(lambda: fn(src, tgt, nrm, T0, 2, .5, thresh))
        c.check_eq(tr, np.eye(4) if E0 is None else E0, "initial transform")
        c.check(len(c.E(idx).reshape(-1)) == 0, "no correspondences")
    return h


def provider(grad, B, opts=None):
    """the provider aligns frame b to map b with its own parameters, starting from the identity"""
    def h(c):
        import gradslam.odometry.icp as I
        import gradslam.odometry.gradicp as Gm
        mod, name, cls = (Gm, "point_to_plane_gradICP", "GradICPOdometryProvider") if grad else (I, "point_to_plane_ICP", "ICPOdometryProvider")
        counts = [2, 1, 3][:B]
        mc = [3, 2, 1][:B]
        maps, mm = cloud(c, "map", mc, ("points", "normals"))
        live, ff = cloud(c, "live", counts, ("points",) if opts is None else ("points", "normals", "colors"))
        o = opts or {}
        p = getattr(mod, cls)(**o)
        want = {"numiters": 20, "damp": 1e-8, "dist_thresh": None}
        if grad:
            want.update(lambda_max=2.0, B=1.0, B2=1.0, nu=200.0)
        want.update(o)
        seen, real = [], getattr(mod, name)
        import inspect
        sig = inspect.signature(real)

        def stub(*a, **k):
            ba = sig.bind(*a, **k)
            ba.apply_defaults()
            seen.append(dict(ba.arguments))
            return c.real("tr%d" % (len(seen) - 1), (4, 4)), torch.arange(1)
        setattr(mod, name, stub)
        try:
            out = c.run(lambda: p.provide(maps, live))
        finally:
            setattr(mod, name, real)
        c.check(tuple(out.shape) == (B, 1, 4, 4), "shape")
        O = c.E(out)
        c.check(len(seen) >= B, "one alignment per batch element")
        done = []
        for b in range(B):
            hit = [i for i, s in enumerate(seen) if tuple(s["src_pc"].shape) == (1, counts[b], 3) and tuple(s["tgt_pc"].shape) == (1, mc[b], 3)]
            c.check(len(hit) == 1, "element %d aligned" % b)
            if len(hit) != 1:
                continue
            s = seen[hit[0]]
            c.check_eq(s["src_pc"], [ff["points"][b]], "source %d" % b)
            c.check_eq(s["tgt_pc"], [mm["points"][b]], "target %d" % b)
            c.check_eq(s["tgt_normals"], [mm["normals"][b]], "normals %d" % b)
            t = s["initial_transform"]
            c.check_eq(np.eye(4) if t is None else t, np.eye(4), "starts from the identity")
            for key, v in want.items():
                c.check(s[key] == v, "%s passed on" % key)
            c.check_eq(O[b, 0], c.real("tr%d" % hit[0], (4, 4)), "transform %d" % b)
        for b in range(B):
            c.check_eq(maps.points_list[b], mm["points"][b], "map unchanged")
            c.check_eq(live.points_list[b], ff["points"][b], "frame unchanged")
    return h


def rejects():
    def h(c):
        from gradslam.odometry.icp import ICPOdometryProvider
        from gradslam.odometry.gradicp import GradICPOdometryProvider
        from gradslam.odometry import icputils as U
        m, _ = cloud(c, "m", [2, 1], ("points", "normals"))
        m0, _ = cloud(c, "m0", [2, 1], ("points",))
        f, _ = cloud(c, "f", [1, 2], ("points",))
        f1, _ = cloud(c, "f1", [1], ("points",))
        for cls in (ICPOdometryProvider, GradICPOdometryProvider):
            p = cls(numiters=0)
            for a in ((m, None), ([1], f), (m, c.real("x", (1, 2, 3)))):
                c.check(c.raises(lambda: c.run(lambda: p.provide(*a)), TypeError), "type")
            c.check(c.raises(lambda: c.run(lambda: p.provide(m0, f)), ValueError), "map normals are needed")
            c.check(c.raises(lambda: c.run(lambda: p.provide(m, f1)), ValueError), "batch sizes")
        s, t, n = c.real("s", (1, 2, 3)), c.real("t", (1, 3, 3)), c.real("n", (1, 3, 3))
        e = torch.eye(4)
        x = [[0.0] * 3]
        for fn in (U.point_to_plane_ICP, U.point_to_plane_gradICP):
            for k, a in enumerate(((x, t, n), (s, x, n), (s, t, x), (s, t, n, [1]), (s, t, n, e, 2.0), (s, t, n, e, "3"))):
                c.check(c.raises(lambda: c.run(lambda: fn(*a)), TypeError), "type %d" % k)
            for k, a in enumerate(((s, t, n, e[0]), (s, t, n, e[:3]), (s, t, n, e[None]))):
                c.check(c.raises(lambda: c.run(lambda: fn(*a)), ValueError), "shape %d" % k)
        for k in ("lambda_max", "B", "B2", "nu"):
            c.check(c.raises(lambda: c.run(lambda: U.point_to_plane_gradICP(s, t, n, e, 1, **{k: "a"})), TypeError), k)
    return h


def cases(tier):
    t = tier == "thorough"
    L = [(0, None), (0, "affine"), (1, None, 1, (3,)), (1, "affine", 2, (0,), .5), (2, "affine", 1, (0, 1)), (3, "mix", 1, (0,), None, 0.5), (2, None, 2, (1,), 2, None, True), (2, None, 3, (0,), .5, None, False, (1, 2, 1)), (2, "affine", 3, (0,), 1.0, .25, False, (3, 1, 2))]
    if t:
        L += [(4, "affine", 1, (0,)), (3, "affine", 2, (1,)), (2, "affine", 2, (3, 0)), (5, None, 1, (0,)), (3, "affine", 3, (0, 1), 1.5, .01)]
    for s in L:
        yield Case("lm_" + "_".join(str(x) for x in s).replace(" ", ""), lm(*s), budget=300, feas_ms=300, bounds={"iterations": s[0], "initial transform": str(s[1])})
    D = [(0, None), (0, "affine"), (1, "affine", 1, (0,)), (1, None, 1, (1,)), (2, "mix", 1, (0,), .5, .25), (2, None, 1, (0,), None, None, (4, .5, 2, 2)), (3, None, 1, (0,)), (2, None, 3, (0,), .5, None, None, (1, 2, 3)), (1, "affine", 3, (0,), 2, .5, None, (3, 1))]
    if t:
        D += [(3, "affine", 1, (0,), None, 1.0, (3.0, 2.0, .5, 3)), (2, "affine", 2, (1,)), (1, "affine", 2, (3,)), (4, "mix", 1, (0,))]
    for s in D:
        yield Case("gradlm_" + "_".join(str(x) for x in s).replace(" ", ""), gradlm(*s), budget=300, feas_ms=300, bounds={"iterations": s[0], "initial transform": str(s[1])})
    W = [(1, False, .5), (3, False, 1.0), (1, True, .5), (2, False, 2.0, 0)]
    if t:
        W += [(6, False, .5), (2, True, 1.0)]
    for s in W:
        yield Case("whole_" + "_".join(str(x) for x in s), whole(*s), budget=200, feas_ms=300, bounds={"iterations": s[0], "points": 4, "damping": s[2]})
    for s in [(0, 2, False, None, "affine"), (2, 0, False, None, None), (2, 0, True, .5, "affine"), (0, 2, True, None, None), (1, 0, False, .5, "affine"), (0, 0, True, None, "affine")]:
        yield Case("nothing_" + "_".join(str(x) for x in s), nothing(*s), feas_ms=300, bounds={"iterations": 2, "source, target points": s[:2]})
    for g in (False, True):
        yield Case("provider%s_1" % "_grad"[:5 * g], provider(g, 1))
        o = {"numiters": 3, "damp": .25, "dist_thresh": .5}
        if g:
            o.update(lambda_max=3.0, B=.5, B2=2.0, nu=5)
        yield Case("provider%s_3_options" % "_grad"[:5 * g], provider(g, 3, o))
    yield Case("rejects", rejects())


ASSUMPTIONS = ["in the loop cases the linearisation and the linear solve are arbitrary functions of their arguments (their own behaviour is C24 and C25)"]
