"""C25: the damped normal equations are solved"""
import numpy as np
import torch
from symx.engine import Case
from .common import *


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n))


def solve(m, n, damping, const=None):
    """damping: 'tensor' (any value), a float, or 'default'"""
    def h(c):
        from gradslam.odometry import icputils as U
        if const is None:
            A = c.real("A", (m, n), -4, 4)
        else:
            A = c.tensor(np.array(const, dtype=object).reshape(m, n))
        b = c.real("b", (m, 1), -4, 4)
        if damping == "tensor":
            d = c.real("damp", (), 0, 4)
            dv = c.E(d).item()
        else:
            d, dv = damping, (1e-8 if damping == "default" else damping)
        a, bb = c.E(A), c.E(b)
        M = [[sum(a[k, i] * a[k, j] for k in range(m)) + (dv if i == j else 0) for j in range(n)] for i in range(n)]
        v = [sum(a[k, i] * bb[k, 0] for k in range(m)) for i in range(n)]
        if n <= 3:
            c.fact(det(M), .25)
        elif damping == "tensor":
            c.assume(dv >= .5)
        x = c.run(lambda: U.solve_linear_system(A, b) if damping == "default" else U.solve_linear_system(A, b, d))
        c.check(tuple(x.shape) == (n, 1), "shape")
        X = c.E(x)
        for i in range(n):
            c.check_eq([sum(M[i][k] * X[k, 0] for k in range(n))], [v[i]], "normal equation %d" % i, tol=2e-2)
        c.check_eq(A, a, "matrix unchanged")
        c.check_eq(b, bb, "right-hand side unchanged")
        if damping == "tensor":
            c.check_eq([c.E(d).item()], [dv], "damping unchanged")
    return h


def double():
    """double precision systems are solved in double precision"""
    def h(c):
        from gradslam.odometry import icputils as U
        A, b = c.real("A", (2, 2), -4, 4, dtype=torch.float64), c.real("b", (2, 1), -4, 4, dtype=torch.float64)
        a, bb = c.E(A), c.E(b)
        M = [[sum(a[k, i] * a[k, j] for k in range(2)) + (1.0 if i == j else 0) for j in range(2)] for i in range(2)]
        c.fact(det(M), 1)
        x = c.run(lambda: U.solve_linear_system(A, b, 1.0))
        c.check(x.dtype == torch.float64, "dtype kept")
        X = c.E(x)
        for i in range(2):
            c.check_eq([sum(M[i][k] * X[k, 0] for k in range(2))], [sum(a[k, i] * bb[k, 0] for k in range(2))], "normal equation %d" % i, tol=1e-6)
    return h


def rejects():
    def h(c):
        from gradslam.odometry import icputils as U
        f = U.solve_linear_system
        A, b = c.real("A", (3, 2)), c.real("b", (3, 1))
        for k, a in enumerate((([[1.0]], b), (A, [[1.0]]), (A, b, 1), (A, b, "x"), (A, b, None))):
            c.check(c.raises(lambda: c.run(lambda: f(*a)), TypeError), "type %d" % k)
        for k, a in enumerate(((A[0], b), (A, b[:, 0]), (A, c.real("b2", (3, 2))), (A, c.real("b3", (2, 1))), (A, b, c.real("d1", (1,))), (c.real("A3", (1, 3, 2)), b))):
            c.check(c.raises(lambda: c.run(lambda: f(*a)), ValueError), "shape %d" % k)
    return h


C6 = [[1, 0, 0, .5, 0, -.25], [0, 1, 0, 0, .5, .75], [0, 0, 1, -.5, .25, 0], [.5, .5, .5, 1, 0, 0], [1, -1, 0, 0, 1, .5], [0, 1, 1, .5, 0, 1], [-1, 0, .5, .25, 1, 1]]


def cases(tier):
    q = [(1, 1, "tensor"), (3, 1, "tensor"), (1, 2, "tensor"), (2, 2, "tensor"), (3, 2, .5), (2, 2, "default"), (1, 3, .25)]
    if tier == "thorough":
        q += [(4, 2, "tensor"), (2, 3, 1.0), (3, 3, .5), (3, 3, "tensor")]
    for s in q:
        yield Case("solve_%dx%d_%s" % s, solve(*s), budget=200 if tier == "quick" else 800, per_obl=100, bounds={"equations, variables": s[:2], "damping": s[2]})
    yield Case("solve_7x6_icp", solve(7, 6, "tensor", C6), budget=200, per_obl=60, bounds={"equations, variables": (7, 6), "matrix": "one fixed full-rank matrix, any right-hand side, damping of at least 1/2"})
    yield Case("double", double())
    yield Case("rejects", rejects())


ASSUMPTIONS = ["damped normal matrix of determinant at least 1/4, entries of at most 4"]
