"""C11: appending cloud batches"""
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .clouds import *


def joined(a, b):
    o = a.copy()
    for x in ATTR:
        if getattr(o, x) is not None:
            setattr(o, x, [np.concatenate([p, q], 0) for p, q in zip(getattr(a, x), getattr(b, x))])
    return o


def touch(c, pc, k):
    if k == 1:
        c.run(lambda: (pc.points_padded, pc.normals_padded, pc.colors_padded, pc.features_padded, pc.nonpad_mask))
    elif k == 2:
        c.run(lambda: (pc.points_list, pc.normals_list, pc.colors_list, pc.features_list))
    elif k == 3:
        c.run(lambda: (pc.points_padded, pc.points_list, pc.colors_padded))


def appends(c1, c2, attrs, pad1, pad2):
    def h(c):
        a, ma = make(c, "a", c1, attrs, pad1)
        b, mb = make(c, "b", c2, attrs, pad2)
        touch(c, a, c.choose("touch_a", 4))
        touch(c, b, c.choose("touch_b", 3))
        off = c.real("off", (3,))
        if c.branch(c.flag("moved_before")):
            # pending in-place change of the padded representation
            c.run(lambda: a.offset_(off))
            o = c.E(off)
            ma.points = [ew(x, lambda v, j: v + o[j]) for x in ma.points]
        r = c.run(lambda: a.append_points(b))
        c.check(r is a, "returns itself")
        m = joined(ma, mb)
        verify(c, a, m, "appended ")
        verify(c, b, mb, "source ")
        # independence: moving the result leaves the appended batch alone, and the other way round
        if c.branch(c.flag("move_result")):
            c.run(lambda: a.offset_(off))
            o = c.E(off)
            m.points = [ew(x, lambda v, j: v + o[j]) for x in m.points]
            verify(c, b, mb, "source after moving the result ")
        else:
            c.run(lambda: b.points_list[0].add_(1.0)) if c2[0] else None
            c.run(lambda: b.points_padded.mul_(2.0))
        verify(c, a, m, "result later ")
    return h


def twice(cs, attrs):
    """(a + b) + c: order of three appends, and appending to itself"""
    def h(c):
        a, ma = make(c, "a", cs[0], attrs)
        b, mb = make(c, "b", cs[1], attrs)
        d, md = make(c, "d", cs[2], attrs)
        if c.branch(c.flag("read_between")):
            c.run(lambda: a.append_points(b))
            verify(c, a, joined(ma, mb), "first ")
            c.run(lambda: a.append_points(d))
        else:
            c.run(lambda: a.append_points(b).append_points(d))
        m = joined(joined(ma, mb), md)
        verify(c, a, m, "three ")
        verify(c, b, mb, "second source ")
        verify(c, d, md, "third source ")
    return h


def itself(counts, attrs, padded):
    def h(c):
        a, ma = make(c, "a", counts, attrs, padded)
        touch(c, a, c.choose("touch", 4))
        c.run(lambda: a.append_points(a))
        verify(c, a, joined(ma, ma), "doubled ")
    return h


def empties(counts, attrs, padded):
    def h(c):
        from gradslam.structures.pointclouds import Pointclouds
        a, ma = make(c, "a", counts, attrs, padded)
        k = c.choose("touch", 4)
        touch(c, a, k)
        if c.branch(c.flag("empty_receiver")):
            e = c.run(lambda: Pointclouds())
            if c.branch(c.flag("receiver_read")):
                c.check(not e.has_points and not e.has_normals and not e.has_colors and not e.has_features, "empty has nothing")
            r = c.run(lambda: e.append_points(a))
            c.check(r is e, "returns itself")
            verify(c, e, ma, "into empty ")
            verify(c, a, ma, "source ")
            off = c.real("off", (3,))
            o = c.E(off)
            m2 = ma.copy()
            m2.points = [ew(x, lambda v, j: v + o[j]) for x in ma.points]
            w = c.choose("mutate", 3 if attrs != ATTR else 7)
            if w == 0:
                c.run(lambda: e.offset_(off))
                verify(c, e, m2, "moved result ")
                verify(c, a, ma, "source of moved result ")
            elif w == 1:
                c.run(lambda: a.offset_(off))
                verify(c, a, m2, "moved source ")
                verify(c, e, ma, "result of moved source ")
            elif w > 2:
                # the tensors themselves are not shared
                x, y = (e, a) if w < 5 else (a, e)
                mutate(c, x, 6 + w % 2, ma)
                verify(c, y, ma, "other batch after in-place change ")
            else:
                b, mb = make(c, "b", [1] * len(counts), attrs)
                c.run(lambda: e.append_points(b))
                verify(c, e, joined(ma, mb), "second append ")
                verify(c, a, ma, "source after second append ")
        else:
            e = c.run(lambda: Pointclouds())
            r = c.run(lambda: a.append_points(e))
            c.check(r is a, "returns itself")
            verify(c, a, ma, "plus nothing ")
            c.check(not e.has_points, "empty stays empty")
    return h


def rejects(counts, attrs):
    def h(c):
        a, ma = make(c, "a", counts, attrs)
        touch(c, a, c.choose("touch", 3))
        B = len(counts)
        bad = [("batch", [1] * (B + 1), attrs), ("batch1", [2], attrs)]
        for x in ATTR[1:]:
            bad.append(("toggle " + x, counts, tuple(y for y in attrs if y != x) if x in attrs else attrs + (x,)))
        for k, (lab, cnt, at) in enumerate(bad):
            b, mb = make(c, "b%d" % k, cnt, at)
            c.check(c.raises(lambda: c.run(lambda: a.append_points(b)), ValueError), lab + " rejected")
            verify(c, b, mb, lab + " source ")
        if "features" in attrs:
            from gradslam.structures.pointclouds import Pointclouds
            w = c.run(lambda: Pointclouds(**dict({x: [c.real("w.%s%d" % (x, b), (n, 3)) for b, n in enumerate(counts)] for x in attrs})))
            c.check(c.raises(lambda: c.run(lambda: a.append_points(w)), ValueError), "feature width rejected")
        c.check(c.raises(lambda: c.run(lambda: a.append_points([torch.zeros(1, 3)])), TypeError), "list rejected")
        c.check(c.raises(lambda: c.run(lambda: a.append_points(None)), TypeError), "None rejected")
        verify(c, a, ma, "receiver ")
    return h


def cases(tier):
    P, N = ("points",), ("points", "normals", "colors")
    q = [((2, 1), (1, 2), ATTR, False, False), ((0, 2), (1, 0), N, False, False), ((1, 1), (2, 2), ATTR, True, True),
         ((2, 1), (1, 1), P, False, True), ((2, 2, 2), (0, 1, 3), ("points", "features"), True, False)]
    if True:
        q += [((4, 0, 3), (0, 2, 2), ATTR, False, False), ((3, 3), (1, 4), ATTR, True, False), ((1,), (5,), ATTR, False, True), ((1, 2, 3, 4), (2, 2, 2, 2), N, False, True)]
    if tier == "thorough":
        q += [((5, 0, 4, 1), (0, 6, 2, 1), ATTR, False, False), ((3, 3, 3), (4, 1, 0), ATTR, True, False), ((0, 0, 1), (2, 0, 5), ATTR, False, True)]
    for s in q:
        yield Case("append_%s_%s_%d%d" % ("-".join(map(str, s[0])), "-".join(map(str, s[1])), s[3], s[4]), appends(*s), budget=300, max_paths=5000,
                   bounds={"counts": s[0], "appended counts": s[1], "attributes": s[2], "padded": s[3:]})
    yield Case("twice", twice(((1, 2), (2, 0), (1, 1)), ATTR), bounds={"counts": "(1,2)+(2,0)+(1,1)"})
    yield Case("itself", itself((2, 1), ATTR, False), bounds={"counts": (2, 1)})
    yield Case("itself_padded", itself((2, 2), N, True), bounds={"counts": (2, 2)})
    for s in [((2, 1), ATTR, False), ((1, 0), N, False), ((2, 2), ATTR, True), ((1, 1), P, True)] + [((3, 0, 2), ATTR, False)]:
        yield Case("empty_%s_%d_%d" % ("-".join(map(str, s[0])), s[2], len(s[1])), empties(*s), bounds={"counts": s[0]})
    yield Case("rejects_all", rejects((2, 1), ATTR), bounds={"counts": (2, 1)})
    yield Case("rejects_points", rejects((1, 1), P), bounds={"counts": (1, 1)})


ASSUMPTIONS = []
