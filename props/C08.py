"""C08: all representations of a cloud batch agree after any history"""
import numpy as np
import torch
from symx.engine import Case
from .common import *
from .clouds import *

READS = ["points_list", "points_padded", "normals_list", "normals_padded", "colors_list", "colors_padded", "features_list",
         "features_padded", "nonpad_mask", "has"]


def apply(c, st, op):
    st.n += 1
    pc, m = st.pc, st.m
    tag = "s%d" % st.n
    if op == "read_lists":
        for a in ATTR:
            c.run(lambda: getattr(pc, a + "_list"))
    elif op == "read_padded":
        for a in ATTR:
            c.run(lambda: getattr(pc, a + "_padded"))
    elif op == "read_mask":
        c.run(lambda: pc.nonpad_mask)
    elif op == "read_has":
        for a in ATTR:
            getattr(pc, "has_" + a)
    elif op.startswith("set_list_"):
        a = op[9:]
        v = [c.real("%s.%s%d" % (tag, a, b), (n, width(a))) for b, n in enumerate(m.counts)]
        c.run(lambda: setattr(pc, a + "_list", v))
        setattr(m, a, [c.E(x) for x in v])
    elif op.startswith("set_padded_"):
        a = op[11:]
        v = [c.real("%s.%s%d" % (tag, a, b), (n, width(a))) for b, n in enumerate(m.counts)]
        p = pad_tensor(c, a, v, max(m.counts))
        c.run(lambda: setattr(pc, a + "_padded", p))
        setattr(m, a, [c.E(x) for x in v])
    elif op == "offset_":
        t = c.real(tag + ".t", (3,))
        r = c.run(lambda: pc.offset_(t))
        c.check(r is pc, "in-place returns self")
        tv = c.E(t)
        m.points = [ew(x, lambda v, j: v + tv[j]) for x in m.points]
    elif op == "scale_":
        s = c.real(tag + ".s", ())
        r = c.run(lambda: pc.scale_(s))
        c.check(r is pc, "in-place returns self")
        k = c.E(s).reshape(-1)[0]
        m.points = [ew(x, lambda v, j: v * k) for x in m.points]
    elif op == "rotate_":
        R = c.real(tag + ".R", (3, 3))
        r = c.run(lambda: pc.rotate_(R))
        c.check(r is pc, "in-place returns self")
        A = c.E(R)
        m.points = [rot_rows(x, A, True) for x in m.points]
        if m.normals is not None:
            m.normals = [rot_rows(x, A, True) for x in m.normals]
    elif op == "append":
        o, om = make(c, tag, st.more, [a for a in ATTR if getattr(m, a) is not None])
        c.run(lambda: pc.append_points(o))
        for a in ATTR:
            if getattr(m, a) is not None:
                setattr(m, a, [np.concatenate([x, y]) for x, y in zip(getattr(m, a), getattr(om, a))])
    elif op == "clone":
        st.pc = c.run(lambda: pc.clone())
    elif op == "detach":
        st.pc = c.run(lambda: pc.detach())
    elif op == "index":
        k = list(range(len(m.counts)))[::-1]
        st.pc = c.run(lambda: pc[k])
        for a in ATTR:
            if getattr(m, a) is not None:
                setattr(m, a, getattr(m, a)[::-1])


OPS = ["read_lists", "read_padded", "read_mask", "read_has"] + ["set_list_" + a for a in ATTR] + ["set_padded_" + a for a in ATTR] + \
    ["offset_", "scale_", "rotate_", "append", "clone", "detach", "index"]
SHORT = ["read_padded", "set_list_points", "set_list_normals", "set_padded_colors", "offset_", "rotate_", "append", "clone"]


class St:
    pass


def history(counts, attrs, padded, first, rest, views, more=(1, 0)):
    def h(c):
        st = St()
        st.n = 0
        st.more = more
        st.pc, st.m = make(c, "a", counts, attrs, padded)
        ops = OPS
        if first:
            apply(c, st, first)
        for k, menu in enumerate(rest):
            apply(c, st, menu[c.choose("op%d" % k, len(menu))])
        verify(c, st.pc, st.m, views=views)
        # reading again changes nothing
        verify(c, st.pc, st.m, "again ", views=views[::-1])
    return h


def shapes(n, hi, attrs, ops, views):
    """any sizes of the clouds of a batch, in any order"""
    def h(c):
        st = St()
        st.n = 0
        counts = tuple(c.choose("count%d" % i, hi + 1) for i in range(n))
        if max(counts) == 0:
            return
        st.more = tuple((k + 1) % 2 for k in counts)
        st.pc, st.m = make(c, "a", counts, attrs, False)
        apply(c, st, ops[c.choose("op", len(ops))])
        verify(c, st.pc, st.m, views=views)
    return h


def widths(n, hi):
    """a feature list is taken exactly when its clouds have the same number of features"""
    def h(c):
        pc, m = make(c, "a", (2, 1, 1)[:n], ("points", "colors", "features"), False)
        if c.flag("read"):
            c.run(lambda: pc.features_padded)
        ws = [1 + c.choose("width%d" % b, hi) for b in range(n)]
        v = [c.real("f%d" % b, (k, w)) for b, (k, w) in enumerate(zip(m.counts, ws))]
        try:
            c.run(lambda: setattr(pc, "features_list", v))
        except ValueError:
            c.check(len(set(ws)) > 1, "features of one width are taken")
        else:
            c.check(len(set(ws)) == 1, "clouds with different numbers of features in one batch")
            if len(set(ws)) > 1:
                return
            m.features = [c.E(x) for x in v]
        verify(c, pc, m, views=V2)
    return h


V1, V2, V3 = ("list", "padded", "mask"), ("mask", "padded", "list"), ("padded", "mask", "list")


def padding_helpers(shapes, pad):
    """list_to_padded / padded_to_list: rows keep their place, the rest is the pad value, cutting the padding off gives the list back"""
    def h(c):
        from gradslam.structures import structutils as S
        xs = [c.real("x%d" % i, s) for i, s in enumerate(shapes)]
        es = [c.E(x) for x in xs]
        m0, m1 = max(s[0] for s in shapes if s[0]), max(s[1] for s in shapes if s[0])
        size = [None, (m0, m1), (m0 + 1, m1 + 2)][c.choose("pad_size", 3)]
        kw = {} if pad == 0 else {"pad_value": pad}
        r = c.run(lambda: S.list_to_padded(xs, size, **kw))
        P0, P1 = size or (m0, m1)
        w = empty((len(xs), P0, P1))
        w[...] = float(pad)
        for i, e in enumerate(es):
            if e.shape[0]:
                w[i, :e.shape[0], :e.shape[1]] = e
        c.check_eq(r, w, "padded")
        full = c.run(lambda: S.padded_to_list(r))
        c.check(len(full) == len(xs), "length")
        for i in range(len(xs)):
            c.check_eq(full[i], w[i], "unsplit entry")
        back = c.run(lambda: S.padded_to_list(r, [tuple(s) for s in shapes]))
        rows = c.run(lambda: S.padded_to_list(r, [s[0] for s in shapes]))
        for i, e in enumerate(es):
            c.check_eq(back[i], e, "back from the padded tensor")
            c.check_eq(rows[i], w[i, :e.shape[0]], "rows of the padded tensor")
            c.check_eq(xs[i], e, "source unchanged")
        for f in (lambda: S.padded_to_list(r, [1] * (len(xs) + 1)), lambda: S.padded_to_list(r[0]), lambda: S.list_to_padded(xs, (P0,)),
                  lambda: S.padded_to_list(r, [(1, 1, 1)] * len(xs))):
            c.check(c.raises(lambda: c.run(f), ValueError), "wrong sizes rejected")
        if len(set(shapes)) == 1:
            c.check_eq(c.run(lambda: S.list_to_padded(xs, equisized=True)), np.stack(es), "equal sizes")
    return h


def cases(tier):
    th = tier == "thorough"
    for i, f in enumerate(OPS):
        v = (V1, V2, V3)
        for counts, pad in (((2, 1), False), ((1, 1), True)) + ((((2, 0, 3), False), ((2, 2, 2), True)) if th else ()):
            yield Case("%s_%s" % ("padded" if pad else "list", f) + "_%d" % len(counts) * (len(counts) > 2), history(counts, ATTR, pad, f, [OPS, OPS], v[(i + pad) % 3]), budget=900, max_paths=20000,
                       bounds={"counts": counts, "operations": 3, "first": f})
    for i, f in enumerate(SHORT):
        yield Case("long_list_%s" % f, history((0, 2), ("points", "normals", "colors"), False, f, [SHORT] * (4 if th else 3), (V2, V3, V1)[i % 3]), budget=900, max_paths=20000,
                   bounds={"counts": (0, 2), "operations": 5 if th else 4, "first": f})
        yield Case("long_padded_%s" % f, history((1, 1), ("points", "normals"), True, f, [SHORT] * (4 if th else 3), (V1, V2, V3)[i % 3], (0, 1)), budget=900, max_paths=20000,
                   bounds={"counts": (1, 1), "operations": 5 if th else 4, "first": f})
    yield Case("shapes", shapes(3, 4 if th else 3, ("points", "features"), ["read_mask", "append", "index", "set_list_points"], V2), budget=600, max_paths=20000, bounds={"counts": "each of three clouds 0..%d" % (4 if th else 3)})
    yield Case("shapes_two", shapes(2, 6 if th else 4, ("points", "normals", "colors"), ["read_mask", "append", "offset_"], V3), budget=600, max_paths=20000, bounds={"counts": "each of two clouds 0..%d" % (6 if th else 4)})
    for k, s in enumerate((((2, 3), (0, 3), (1, 3)), ((1, 2), (3, 1)), ((2, 2), (2, 2)))):
        yield Case("padding_%d" % k, padding_helpers(s, (0, 0, 2.5)[k]), bounds={"entries": s})
    for n in (2, 3):
        yield Case("widths_%d" % n, widths(n, 3 if th else 2), bounds={"features per point": "1..%d in every cloud" % (3 if th else 2)})
    yield Case("bare", history((2, 0, 1), ("points",), False, None, [OPS, SHORT], V1, (0, 1, 1)), budget=300, bounds={"counts": (2, 0, 1), "operations": 2})


EXPLAIN = "the history (which operation at each step) and all values are symbolic; the model is a plain list of points per cloud."
