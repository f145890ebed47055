"""C09: cloud arithmetic acts once per real point, never on padding"""
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .clouds import *

OPS = ("add", "sub", "mul", "div", "offset_", "scale_")


def operand(c, kind, B, nonzero):
    """value passed to the code, and f(b, j) -> scalar"""
    if isinstance(kind, (int, float)):
        return kind, lambda b, j: kind
    shape = {"s": (), "1": (1,), "v3": (3,), "11": (1, 1), "13": (1, 3), "b1": (B, 1, 1), "b3": (B, 1, 3), "113": (1, 1, 3)}[kind]
    t = c.real("x%d" % nonzero, shape, 0.125 if nonzero else None, 8 if nonzero else None)
    a = c.E(t)

    def f(b, j):
        if kind == "s":
            return a.reshape(-1)[0]
        if kind in ("1", "11"):
            return a.reshape(-1)[0]
        if kind in ("v3", "13", "113"):
            return a.reshape(-1)[j]
        if kind == "b1":
            return a[b, 0, 0]
        return a[b, 0, j]
    return t, f


def act(op, v, s):
    return v + s if op in ("add", "offset_") else v - s if op == "sub" else v * s if op in ("mul", "scale_") else v / s


def arith(counts, attrs, padded, kinds):
    def h(c):
        pc, m = make(c, "a", counts, attrs, padded)
        k = kinds[c.choose("kind", len(kinds))]
        op = OPS[c.choose("op", len(OPS))]
        pre = c.choose("before", 4)
        if pre == 1:
            c.run(lambda: pc.points_padded)
        elif pre == 2:
            c.run(lambda: (pc.points_list, pc.normals_list, pc.nonpad_mask))
        elif pre == 3:
            pc = c.run(lambda: pc.clone())
        x, f = operand(c, k, len(counts), op == "div")
        if op == "div" and isinstance(k, (int, float)) and k == 0:
            x, f = 4.0, lambda b, j: 4.0
        src = m.copy()
        out = m.copy()
        out.points = [ew(p, lambda v, j: act(op, v, f(b, j))) for b, p in enumerate(m.points)]
        if op.endswith("_"):
            r = c.run(lambda: getattr(pc, op)(x))
            c.check(r is pc, "in place returns self")
            verify(c, pc, out, "in place ", views=("padded", "list", "mask"))
        else:
            r = c.run(lambda: {"add": lambda: pc + x, "sub": lambda: pc - x, "mul": lambda: pc * x, "div": lambda: pc / x}[op]())
            c.check(r is not pc, "out of place returns a new cloud")
            verify(c, r, out, "result ", views=("padded", "list", "mask"))
            verify(c, pc, src, "source ", views=("list", "padded", "mask"))
        if torch.is_tensor(x):
            c.check_eq(c.E(x), c.E(x), "operand")
    return h


def twice(counts, attrs, padded):
    """chains of operations; in-place equals out-of-place"""
    def h(c):
        pc, m = make(c, "a", counts, attrs, padded)
        q = c.run(lambda: pc.clone())
        t1, t2, s1 = c.real("t1", (3,)), c.real("t2", (len(counts), 1, 3)), c.real("s1", ())
        o1 = c.run(lambda: pc.clone().offset_(t1).scale_(s1).offset_(t2))
        o2 = c.run(lambda: ((pc + t1) * s1) + t2)
        A, Bt, S = c.E(t1), c.E(t2), c.E(s1).reshape(-1)[0]
        out = m.copy()
        out.points = [ew(p, lambda v, j: (v + A[j]) * S + Bt[b, 0, j]) for b, p in enumerate(m.points)]
        verify(c, o1, out, "in place ")
        verify(c, o2, out, "out of place ")
        verify(c, pc, m, "source ")
        verify(c, q, m, "clone ")
        o3 = c.run(lambda: ((pc - t1) + t1))
        verify(c, o3, m, "there and back ")
    return h


def rejects(counts):
    def h(c):
        pc, m = make(c, "a", counts, ATTR)
        for v in ("x", [1.0], None, (1.0, 2.0, 3.0)):
            for op in ("offset_", "scale_"):
                c.check(c.raises(lambda: c.run(lambda: getattr(pc, op)(v)), (TypeError, NotImplementedError)), "%s(%r) rejected" % (op, v))
            for nm, f in (("+", lambda: pc + v), ("-", lambda: pc - v), ("*", lambda: pc * v), ("/", lambda: pc / v)):
                c.check(c.raises(lambda: c.run(f), (TypeError, NotImplementedError)), "%s %r rejected" % (nm, v))
        verify(c, pc, m)
    return h


def empty_cloud():
    def h(c):
        from gradslam.structures.pointclouds import Pointclouds
        pc = c.run(lambda: Pointclouds())
        t = c.real("t", (3,))
        for f in (lambda: pc + t, lambda: pc - t, lambda: pc * t, lambda: pc / 2.0, lambda: pc.offset_(t), lambda: pc.scale_(t)):
            r = c.run(f)
            c.check(len(r) == 0 and not r.has_points and r.points_list is None and r.points_padded is None, "empty stays empty")
    return h


SCALARS = (2, -1.5, 0, 0.25)


def cases(tier):
    q = [((2, 1), ATTR, False), ((0, 2), ("points", "normals"), False), ((2, 2), ("points", "features"), True), ((1, 3, 2), ("points", "colors"), False)]
    q += [((3, 2, 0, 4), ATTR, False)]
    if tier == "thorough":
        q += [((4, 2, 0, 3), ATTR, False), ((3, 3, 3), ATTR, True)]
    for s in q:
        for kinds in (SCALARS, ("s", "1", "v3", "11", "13", "113"), ("b1", "b3")):
            yield Case("arith_%s_pad%d_%s" % ("-".join(map(str, s[0])), s[2], kinds[0]), arith(*s, kinds), budget=400, max_paths=5000,
                       bounds={"counts": s[0], "attributes": s[1], "operand shapes": kinds})
        yield Case("chain_%s_pad%d" % ("-".join(map(str, s[0])), s[2]), twice(*s), budget=200, bounds={"counts": s[0]})
    yield Case("rejects", rejects((2, 1)))
    yield Case("empty", empty_cloud())


ASSUMPTIONS = ["divisors are at least 1/8 in magnitude for tensor operands; python scalar operands are the listed constants"]
