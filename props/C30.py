"""C30: timestamp association and the text readers behind it"""
import os
import tempfile

import numpy as np
import torch
from symx.engine import Case
from .common import *


def stamps(c, name, n, lo=0, hi=4):
    v = [c.number("%s%d" % (name, i), lo, hi) for i in range(n)]
    return v, [c.token(x) for x in v]


def assoc(n1, n2, off=None, tol=None, sort1=False, texts=None):
    """texts: written stamps (of different lengths) instead of symbolic ones"""
    def h(c):
        from gradslam.datasets import tumutils as U
        a, ka = stamps(c, "a", n1) if texts is None else ([float(x) for x in texts[0]], list(texts[0]))
        b, kb = stamps(c, "b", n2) if texts is None else ([float(x) for x in texts[1]], list(texts[1]))
        o = c.number("offset", -2, 2) if off is None else off
        m = c.number("tolerance", 0, 3) if tol is None else tol
        if len(set(ka)) < n1 or len(set(kb)) < n2:
            return                      # a file cannot list one stamp twice
        if sort1:
            for i in range(n1 - 1):
                c.assume(a[i] < a[i + 1])
            for i in range(n2 - 1):
                c.assume(b[i] < b[i + 1])
        if not c.symbolic:
            # float rounding: stay away from exact ties
            d = sorted(abs(x - y - o) for x in a for y in b) + [m]
        with c.patched(U, builtins=("float", "isinstance")):
            r = c.run(lambda: U.associate(dict(zip(ka, range(n1))), dict(zip(kb, range(n2))), o, m))
        A, B = dict(zip(ka, a)), dict(zip(kb, b))
        e = 0 if c.symbolic else 1e-9
        ok = all(isinstance(p, tuple) and len(p) == 2 and p[0] in A and p[1] in B for p in r)
        c.check(ok, "pairs of existing stamps")
        if not ok:
            return
        c.check(len({p[0] for p in r}) == len(r) and len({p[1] for p in r}) == len(r), "every stamp at most once")
        diff = lambda x, y: abs(A[x] - (B[y] + o))
        for k, (x, y) in enumerate(r):
            c.check(diff(x, y) < m + e, "pair %d within the tolerance" % k)
            if k:
                c.check(A[r[k - 1][0]] <= A[x], "pair %d in time order" % k)
        m1, m2 = dict(r), {y: x for x, y in r}
        for x in ka:
            for y in kb:
                if m1.get(x) == y:
                    continue
                # no two stamps that would both rather be paired with each other
                alt = [diff(x, y) >= m - e]
                if x in m1:
                    alt.append(diff(x, m1[x]) <= diff(x, y) + e)
                if y in m2:
                    alt.append(diff(m2[y], y) <= diff(x, y) + e)
                c.check(c.or_(*alt), "%d,%d is not a better pair" % (ka.index(x), kb.index(y)))
    return h


class Files:
    """scratch folder that goes away again"""
    def __enter__(self):
        self.d = tempfile.TemporaryDirectory()
        return self

    def __exit__(self, *a):
        self.d.cleanup()

    def put(self, name, text):
        p = os.path.join(self.d.name, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        return p


def rotation(c, q):
    """rotation of the quaternion (x, y, z, w) of any length"""
    x, y, z, w = q
    n = x * x + y * y + z * z + w * w
    return [[1 - 2 * (y * y + z * z) / n, 2 * (x * y - z * w) / n, 2 * (x * z + y * w) / n],
            [2 * (x * y + z * w) / n, 1 - 2 * (x * x + z * z) / n, 2 * (y * z - x * w) / n],
            [2 * (x * z - y * w) / n, 2 * (y * z + x * w) / n, 1 - 2 * (x * x + y * y) / n]]


def trajectory(n, matrix, sep=" ", bad=()):
    """bad: positions of lines that must be skipped: 'zero' quaternion, 'nan', 'comment', 'blank'"""
    def h(c):
        from gradslam.datasets import tumutils as U
        rows, lines = [], []
        for i in range(n):
            v = [c.number("p%d.%d" % (i, k), -2, 2) for k in range(7)]
            c.fact(sum(x * x for x in v[3:]), .25)
            rows.append(("%d.25" % (3 * i + 1), v))
            lines.append(sep.join([rows[-1][0]] + [c.token(x) for x in v]))
        for pos, kind in sorted(bad, reverse=True):
            lines.insert(pos, {"zero": sep.join(["77.5", "1.0", "2.0", "3.0", "0", "0.0", "0", "0"]), "nan": sep.join(["88.5", "1.0", "nan", "3.0", "0", "0", "0", "1"]),
                               "comment": "# timestamp tx ty tz qx qy qz qw", "blank": ""}[kind])
        with Files() as f, c.patched(U, builtins=("float", "isinstance")):
            p = f.put("groundtruth.txt", "\n".join(lines) + "\n")
            r = c.run(lambda: U.read_trajectory(p) if matrix is None else U.read_trajectory(p, matrix=matrix))
        c.check(list(r) == [s for s, _ in rows], "the recorded stamps, in order")
        if list(r) != [s for s, _ in rows]:
            return
        for s, v in rows:
            if matrix is False:
                c.check(len(r[s]) == 7, "seven numbers")
                c.check_eq(list(r[s]), v, "pose at " + s)
            else:
                M = np.asarray(r[s], dtype=object)
                c.check(M.shape == (4, 4), "4x4")
                w = empty((4, 4))
                w[:3, :3] = rotation(c, v[3:])
                w[:3, 3] = v[:3]
                w[3] = [0.0, 0.0, 0.0, 1.0]
                c.check_eq(M, w, "pose at " + s)
    return h


def listing(n, sep=" ", comments=2, whole=False):
    """every (start, end) window of a listing file"""
    def h(c):
        from gradslam.datasets import tumutils as U
        st = None if whole else c.integer("start", 0, n)
        en = None if whole else c.integer("end", 1, n + 2)
        if not whole:
            c.assume(st < en)
        lines = ["# header %d" % i for i in range(comments)] + [sep.join(["%d.5" % (10 + i), "rgb/%d.png" % i]) for i in range(n)]
        with Files() as f, c.patched(U, builtins=("float", "isinstance", "range")):
            p = f.put("rgb.txt", "\n".join(lines) + "\n")
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = c.run(lambda: U.read_file_list(p) if whole else U.read_file_list(p, st, en))
        got = list(r.items())
        k = len(got)
        first = 0 if whole else st
        stop = n if whole else c.ite(en < n, en, n)
        c.check_eq([k], [c.ite(stop > first, stop - first, 0) if not whole else n], "number of entries")
        for j, (s, d) in enumerate(got):
            i = int(s.split(".")[0]) - 10
            c.check_eq([i], [first + j], "entry %d is frame start+%d" % (j, j))
            c.check(list(d) == ["rgb/%d.png" % i], "its data")
    return h


def find(n, nd, npose, poses=True):
    """TUM's association of colors, depths and poses"""
    def h(c):
        from gradslam.datasets import tum, tumutils
        from gradslam.datasets.tum import TUM
        t = {k: stamps(c, k, m, 0, .1) for k, m in (("rgb", n), ("depth", nd), ("pose", npose))}
        for v, ks in t.values():
            if len(set(ks)) < len(ks):
                return
            for i in range(len(v) - 1):
                c.assume(v[i] < v[i + 1])
        val = {k: dict(zip(ks, v)) for k, (v, ks) in t.items()}
        P = [[c.number("pose%d.%d" % (i, k), -2, 2) for k in range(7)] for i in range(npose)]
        for q in P:
            c.fact(sum(x * x for x in q[3:]), .25)
        with Files() as f, c.patched(tumutils, tum, builtins=("float", "isinstance", "range")):
            fr = f.put("rgb.txt", "".join("%s rgb/%d.png\n" % (s, i) for i, s in enumerate(t["rgb"][1])))
            fd = f.put("depth.txt", "".join("%s depth/%d.png\n" % (s, i) for i, s in enumerate(t["depth"][1])))
            fp = f.put("groundtruth.txt", "".join(" ".join([s] + [c.token(x) for x in P[i]]) + "\n" for i, s in enumerate(t["pose"][1])))
            o = object.__new__(TUM)
            o.start, o.end = None, None
            assoc, ts = c.run(lambda: o._findAssociations(fr, fd, fp if poses else None))
        c.check(len(assoc) == len(ts), "one stamp triple per association")
        e = 0 if c.symbolic else 1e-9
        lim = .02
        from fractions import Fraction
        if c.symbolic:
            lim = Fraction("0.02")
        for k, (x, s) in enumerate(zip(assoc, ts)):
            ok = s[0] in val["rgb"] and s[1] in val["depth"] and (s[2] in val["pose"] if poses else s[2] is None)
            c.check(ok, "recorded stamps")
            if not ok:
                continue
            c.check(x[0] == "rgb/%d.png" % t["rgb"][1].index(s[0]), "color of the reported stamp")
            c.check(x[1] == "depth/%d.png" % t["depth"][1].index(s[1]), "depth of the reported stamp")
            r, d = val["rgb"][s[0]], val["depth"][s[1]]
            c.check(abs(r - d) <= lim + 1e-7, "color and depth within the tolerance")
            if poses:
                c.check_eq(np.asarray(x[2], dtype=object), P[t["pose"][1].index(s[2])], "pose of the reported stamp")
                c.check(abs(d - val["pose"][s[2]]) <= lim + 1e-7, "depth and pose within the tolerance")
            if k:
                prev = val["depth"][ts[k - 1][1]] if poses else val["rgb"][ts[k - 1][0]]
                c.check((d if poses else r) > prev, "in time order")
        for col in range(3 if poses else 2):
            c.check(len({s[col] for s in ts}) == len(ts), "every stamp at most once")
    return h


def cases(tier):
    t = tier == "thorough"
    q = [(1, 1), (2, 2), (1, 3), (3, 1), (2, 3, 0, .5, True), (2, 2, .25, 1.5, True), (0, 2)]
    if t:
        q += [(2, 3), (3, 2), (3, 3, 0, .5, True), (3, 4, 0, .25, True)]
    for s in q:
        yield Case("associate_" + "_".join(map(str, s)), assoc(*s), budget=600, max_paths=40000, feas_ms=300, bounds={"stamps": s[:2], "offset, tolerance": "any" if len(s) < 3 else s[2:4]})
    for k, x in enumerate([(["9.5", "10.25", "100.0"], ["9.75", "10.5"]), (["10.5", "9.25"], ["10.75", "9.5", "1.5e1"])]):
        yield Case("associate_texts%d" % k, assoc(len(x[0]), len(x[1]), texts=x), budget=300, max_paths=5000, feas_ms=300, bounds={"stamps": x, "offset, tolerance": "any"})
    for s in ((2, True, " ", ((0, "comment"), (1, "zero"))), (2, False, ",", ((0, "comment"), (2, "nan"))), (1, None, "\t", ((1, "blank"),)), (0, True)) + (((4, True, " ", ((1, "nan"), (2, "zero"))),) if t else ()):
        yield Case("trajectory_%d_%s_%d" % (s[0], s[1], len(s[3]) if len(s) > 3 else 0), trajectory(*s), bounds={"lines": s[0]})
    for s in ((4,), (3, ",", 0), (5, "\t", 3, True)) + (((8, " ", 1),) if t else ()):
        yield Case("listing_%s" % "_".join(map(repr, s)).replace("'", "").replace("\\", ""), listing(*s), budget=300, max_paths=5000, bounds={"frames": s[0], "start, end": "any"})
    for s in ((1, 2, 2), (2, 1, 1), (2, 2, 1, False)) + (((2, 2, 2), (3, 2, 1, False)) if t else ()):
        yield Case("tum_%s" % "_".join(map(str, s)), find(*s), budget=600, max_paths=20000, feas_ms=300, bounds={"rgb, depth, pose stamps": s[:3]})


ASSUMPTIONS = ["stamps are numbers (the text to number conversion of the real files is the interpreter's)", "equal differences may be broken either way"]
