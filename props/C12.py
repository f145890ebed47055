"""C12: indexing / clone / detach / to of cloud batches"""
import itertools
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .clouds import *
from .C11 import touch


def pick(m, ix):
    return Model(**{x: None if getattr(m, x) is None else [getattr(m, x)[i] for i in ix] for x in ATTR})


def selections(B, deep):
    """(label, index object, selected)"""
    out = []
    for i in range(-B, B):
        out.append(("int%d" % i, i, [i % B]))
    bounds = [None] + list(range(-B, B + 2))
    for a in bounds:
        for b in bounds:
            for s in (None, 2, -1):
                sel = list(range(B))[slice(a, b, s)]
                if sel:
                    out.append(("slice%s:%s:%s" % (a, b, s), slice(a, b, s), sel))
    for n in (1, 2) if not deep else (1, 2, 3):
        for t in itertools.product(range(B), repeat=n):
            out.append(("list%s" % (t,), list(t), list(t)))
            out.append(("tensor%s" % (t,), torch.tensor(t), list(t)))
    out.append(("list-1", [-1], [B - 1]))
    for t in itertools.product((False, True), repeat=B):
        if any(t):
            out.append(("mask%s" % (t,), torch.tensor(t), [i for i in range(B) if t[i]]))
    return out


def indexing(counts, attrs, padded, deep):
    B = len(counts)
    sels = selections(B, deep)

    def h(c):
        a, m = make(c, "a", counts, attrs, padded)
        touch(c, a, c.choose("touch", 4))
        off = c.real("off", (3,))
        if c.branch(c.flag("moved_before")):
            c.run(lambda: a.offset_(off))
            o = c.E(off)
            m.points = [ew(x, lambda v, j: v + o[j]) for x in m.points]
        for lab, ix, sel in sels:
            r = c.run(lambda: a[ix])
            verify(c, r, pick(m, sel), lab + " ")
        verify(c, a, m, "source ")
    return h


def boolean(counts, attrs):
    """a symbolic boolean selection: every mask at once (the code forks on nonzero)"""
    B = len(counts)

    def h(c):
        a, m = make(c, "a", counts, attrs)
        mask = c.boolean("mask", (B,))
        ms = c.E(mask)
        sel = [i for i in range(B) if c.branch(ms[i])]
        c.assume(len(sel) > 0)
        r = c.run(lambda: a[mask])
        verify(c, r, pick(m, sel), "boolean selection ")
    return h


def rejects(counts):
    B = len(counts)

    def h(c):
        from gradslam.structures.pointclouds import Pointclouds
        a, m = make(c, "a", counts, ATTR)
        touch(c, a, c.choose("touch", 3))
        bad = [B, -B - 1, B + 3, [0, B], [B], 1.0, "0", None, (0,), torch.tensor([0.0]), torch.tensor([[0]]), torch.tensor(0),
               torch.tensor([B]), torch.tensor([[True] * B])]
        for ix in bad:
            c.check(c.raises(lambda: c.run(lambda: a[ix]), (IndexError, TypeError)), "index %r rejected" % (ix,))
        e = c.run(lambda: Pointclouds())
        for ix in (0, [0], slice(None), torch.tensor([0])):
            c.check(c.raises(lambda: c.run(lambda: e[ix]), IndexError), "empty[%r] rejected" % (ix,))
        verify(c, a, m, "source ")
    return h


def copies(counts, padded, how):
    def h(c):
        a, m = make(c, "a", counts, ATTR, padded)
        touch(c, a, c.choose("touch", 4))
        if how == "clone":
            cp = c.run(lambda: a.clone())
        elif how == "to":
            c.check(c.run(lambda: a.to("cpu")) is a, "to() with the same device is itself")
            c.check(c.run(lambda: a.to(torch.device("cpu"))) is a, "to() with the same device is itself")
            c.check(c.run(lambda: a.cpu()) is a, "cpu() of a cpu batch is itself")
            cp = c.run(lambda: a.to("cpu", copy=True)) if c.branch(c.flag("by_name")) else c.run(lambda: a.to(torch.device("cpu"), copy=True))
        else:
            cp = c.run(lambda: a.detach())
        c.check(cp is not a, "new object")
        x, y = (cp, a) if c.branch(c.flag("mutate_copy")) else (a, cp)
        if c.branch(c.flag("read_first")):
            verify(c, y, m, "before ")
            verify(c, x, m, "before (2) ")
        mutate(c, x, c.choose("mutation", 12), m)
        verify(c, y, m, "after ")
    return h


def setters_then_clone(counts):
    """attributes assigned in mixed representations survive a copy"""
    def h(c):
        from gradslam.structures.pointclouds import Pointclouds
        a, m = make(c, "a", counts, ("points", "colors"))
        N = max(counts)
        for x in ("normals", "features", "colors"):
            k = c.choose("set_" + x, 3)
            v = [c.real("v.%s%d" % (x, b), (n, width(x))) for b, n in enumerate(counts)]
            if k == 0:
                continue
            if k == 1:
                c.run(lambda: setattr(a, x + "_list", v))
            else:
                c.run(lambda: setattr(a, x + "_padded", pad_tensor(c, x, v, N)))
            setattr(m, x, [c.E(t) for t in v])
        w = c.choose("copy", 4)
        r = c.run(lambda: (a.clone, a.detach, lambda: a.to("cpu", copy=True), lambda: a[:])[w]())
        verify(c, r, m, "copy ")
        verify(c, a, m, "source ")
    return h


def detach_grad(counts, padded):
    def h(c):
        from gradslam.structures.pointclouds import Pointclouds
        src = {x: [c.real("%s%d" % (x, b), (n, width(x)), grad=True) for b, n in enumerate(counts)] for x in ATTR}
        m = Model(**arrs(c, src))
        if padded:
            d = {x: c.run(lambda: torch.stack(v)) for x, v in src.items()}
        else:
            d = src
        a = c.run(lambda: Pointclouds(**d))
        touch(c, a, c.choose("touch", 4))
        if c.branch(c.flag("moved")):
            t = c.real("off", (3,), grad=True)
            c.run(lambda: a.offset_(t))
            o = c.E(c.run(lambda: t.detach()))
            m.points = [ew(x, lambda v, j: v + o[j]) for x in m.points]
        r = c.run(lambda: a.detach())
        for x in ATTR:
            for t in c.run(lambda: getattr(r, x + "_list")) + [c.run(lambda: getattr(r, x + "_padded"))]:
                c.check(not t.requires_grad, x + " carries no gradient after detach")
            for t in c.run(lambda: getattr(a, x + "_list")) + [c.run(lambda: getattr(a, x + "_padded"))]:
                c.check(t.requires_grad, "source %s keeps its gradient" % x)
            for b in range(len(counts)):
                c.check_eq(c.run(lambda: getattr(r, x + "_list")[b].detach()), getattr(m, x)[b], "detached %s%d" % (x, b))
    return h


def cases(tier):
    deep = True
    for s in [((2, 1, 3), ATTR, False), ((0, 2), ("points", "normals"), False), ((2, 2, 2), ATTR, True), ((3,), ("points", "colors"), False)] + (
            [((1, 0, 2, 3), ATTR, False)] + ([((2, 4, 0, 1, 3), ATTR, False), ((3, 3, 3, 3), ATTR, True)] if tier == "thorough" else [])):
        yield Case("index_%s_%d" % ("-".join(map(str, s[0])), s[2]), indexing(*s, deep), bounds={"counts": s[0], "attributes": s[1]})
    yield Case("boolean", boolean((2, 0, 1) if not deep else (2, 0, 1, 3), ATTR), bounds={"counts": (2, 0, 1)})
    yield Case("rejects", rejects((2, 1)), bounds={"counts": (2, 1)})
    for how in ("clone", "to", "detach"):
        for counts, pad in (((2, 1), False), ((2, 2), True)) + ((((1, 0, 3), False),) if deep else ()):
            yield Case("%s_%s_%d" % (how, "-".join(map(str, counts)), pad), copies(counts, pad, how), max_paths=4000, bounds={"counts": counts})
    yield Case("setters_then_clone", setters_then_clone((2, 1)), bounds={"counts": (2, 1)})
    yield Case("detach_grad", detach_grad((2, 1), False), bounds={"counts": (2, 1)})
    yield Case("detach_grad_padded", detach_grad((2, 2), True), bounds={"counts": (2, 2)})


ASSUMPTIONS = ["selections that choose at least one cloud"]
