"""C29: dataset windows"""
import warnings

import numpy as np
import torch
from symx.engine import Case
from .common import *
from .datasets import *


def marks(path):
    t, kind, i = code(path)
    v = i + 50 * t
    if kind in ("rgb", "color"):
        return np.full((1, 1, 3), v, dtype=np.int64)
    if kind == "depth":
        return np.full((1, 1), v * 1000, dtype=np.int64)
    return np.full((1, 1), i % 13, dtype=np.int64)


def build(c, kind, mod, base, **k):
    cls = {"tum": "TUM", "icl": "ICL"}[kind]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return c.run(lambda: getattr(mod, cls)(base, height=1, width=1, **k))


def items(c, ds):
    return [c.run(lambda: ds[k]) for k in range(len(ds))]


def windows(kind, counts, fixed, short=None, only=None, poses=True):
    """fixed: name -> value or (lo, hi) for every value in the range"""
    def h(c):
        par = {}
        for k, v in fixed.items():
            par[k] = c.integer(k, *v) if isinstance(v, tuple) else v
        L, d, s, st, en = [par.get(k) for k in ("seqlen", "dilation", "stride", "start", "end")]
        bad = []
        if L is not None:
            bad.append(L < 1)
        for x in (d, st):
            if x is not None:
                bad.append(x < 0)
        if s is not None:
            bad.append(s < 1)
        if en is not None:
            bad.append(en <= (st if st is not None else 0))
        invalid = c.or_(*bad) if bad else False
        names = short or NAMES[kind]
        with Files() as f, loader(c, kind, marks) as mod:
            base = PUT[kind](f, c, counts, names=short) if not short else put_icl(f, c, counts, names=short, poses=[n - (x == "living_room_traj0_frei_png") for n, x in zip(counts, short)])
            sel = {} if only is None else {"sequences" if kind == "tum" else "trajectories": tuple(names[i] for i in only)}
            flags = {} if poses else {"return_pose": False, "return_transform": False}
            try:
                ds = build(c, kind, mod, base, **par, **sel, **flags)
            except (ValueError, IndexError):
                c.check(invalid, "only invalid parameters are rejected")
                return
            if s is not None and c.branch(s == 0):
                return      # a stride of zero frames: documented as a positive number, its rejection is incidental
            c.check(c.not_(invalid), "invalid parameters are rejected")
            its = items(c, ds)
        L, d, st = (4 if L is None else L), (0 if d is None else d), (0 if st is None else st)
        s = L * (d + 1) if s is None else s
        c.check(len(its) == len(ds), "length")
        seen = {}
        for k, it in enumerate(its):
            color, depth = c.E(it[0]), c.E(it[1])
            n = color.shape[0]
            c.check_eq([n], [L], "frames per item")
            c.check(color.shape == (n, 1, 1, 3) and depth.shape == (n, 1, 1, 1), "image shapes")
            fr = color[:, 0, 0, 0]
            t = int(float(str(_num(fr[0])))) // 50
            c.check(only is None or t in only, "a requested trajectory")
            i = [x - 50 * t for x in fr]
            c.check_eq(color[:, 0, 0, 2], fr, "color")
            c.check_eq(depth[:, 0, 0, 0] * (5 if kind != "scannet" else 1), fr, "depth of the same frame")
            q = 3
            if poses:
                P, T = c.E(it[3]), c.E(it[4])
                c.check(P.shape == (n, 4, 4) and T.shape == (n, 4, 4), "pose shapes")
                if P.shape == (n, 4, 4) and T.shape == (n, 4, 4):
                    c.check_eq(P[:, 0, 3], [x * x - i[0] * i[0] for x in i], "pose of the same frame")
                    c.check_eq(T[:, 0, 3], [i[j] * i[j] - i[j - 1] * i[j - 1] if j else 0.0 for j in range(n)], "transform of the same frame")
                q = 5
            words = [w.strip() for w in it[q].split(",")]
            c.check(len(words) == n, "one name per frame")
            for j in range(min(n, len(words))):
                c.check(words[j].startswith(names[t] + "/"), "name of the trajectory")
                c.check_eq([int(words[j].split("/")[-1])], [i[j]], "name of the frame")
            if kind == "tum":
                lines = it[q + 1].split("\n")
                c.check(len(lines) == n, "one stamp line per frame")
                for j in range(min(n, len(lines))):
                    w = lines[j].split()
                    c.check(w[0] == "rgb" and w[2] == "depth" and w[4] == "pose", "stamp line")
                    c.check_eq([float(w[1])], [i[j] + .5], "color stamp")
                    c.check_eq([float(w[3])], [i[j] + .505], "depth stamp")
                    if poses:
                        c.check_eq([float(w[5])], [i[j] + .51], "pose stamp")
            m = seen.setdefault(t, 0)
            seen[t] += 1
            for j in range(n):
                c.check_eq([i[j]], [st + m * s + j * (d + 1)], "frame %d of window %d" % (j, m))
                c.check(i[j] >= st, "not before start")
                if en is not None:
                    c.check(i[j] < en, "before end")
        for t in range(len(counts)) if only is None else only:
            total = counts[t] - (names[t] == "living_room_traj0_frei_png")
            stop = total if en is None else c.ite(en < total, en, total)
            c.check(st + seen.get(t, 0) * s + (L - 1) * (d + 1) >= stop, "no window of trajectory %d is missing" % t)
    return h


def _num(x):
    n = getattr(x, "n", None)
    if n is None:
        return float(x)
    assert n.op == "const", "frame mark is not a constant"
    return float(n.val)


def scenes(counts, start, end, only=None):
    """scannet serves one sequence per scene: frames start..end-1"""
    def h(c):
        st = c.integer("start", *start) if isinstance(start, tuple) else start
        en = c.integer("end", *end) if isinstance(end, tuple) else end
        a, e = (0 if st is None else st), (-1 if en is None else en)
        use = list(range(len(counts))) if only is None else list(only)
        low = min(counts[t] for t in use)
        full = e == -1
        invalid = c.or_(a < 0, c.and_(c.not_(full), c.or_(e <= a, e > low)), a >= low)
        with Files() as f, loader(c, "scannet", marks) as mod:
            base, meta = put_scannet(f, c, counts)
            k = {} if st is None else {"start": st}
            if en is not None:
                k["end"] = en
            sel = None if only is None else tuple(NAMES["scannet"][t] for t in only)
            try:
                ds = c.run(lambda: mod.Scannet(base, meta, sel, height=1, width=1, **k))
            except (ValueError, IndexError):
                c.check(invalid, "only invalid windows are rejected")
                return
            c.check(c.not_(invalid), "windows outside a scene are rejected")
            c.check(len(ds) == len(use), "one sequence per scene")
            its = items(c, ds)
        for t, it in zip(use, its):
            color, depth = c.E(it[0]), c.E(it[1])
            n = color.shape[0]
            stop = c.ite(full, counts[t], e)
            c.check_eq([n], [stop - a], "frames of scene %d" % t)
            fr = color[:, 0, 0, 0]
            c.check_eq(fr, [50 * t + a + j for j in range(n)], "frames of scene %d" % t)
            c.check_eq(depth[:, 0, 0, 0], fr, "depth of the same frame")
            c.check_eq([c.E(it[2])[0, 0, 0] * 640], [500.0 + t], "intrinsics of the scene")
            P, T = c.E(it[3]), c.E(it[4])
            c.check_eq(P[:, 0, 3], [(a + j) * (a + j) - a * a for j in range(n)], "pose of the same frame")
            c.check_eq(T[:, 0, 3], [(a + j) * (a + j) - (a + j - 1) * (a + j - 1) if j else 0.0 for j in range(n)], "transform of the same frame")
            c.check(it[5] == NAMES["scannet"][t] + "-seq_0", "name")
            c.check(c.E(it[6]).shape[0] == n, "labels")
    return h


def wrong():
    def h(c):
        import gradslam.datasets as D
        for kind in ("tum", "icl"):
            with Files() as f, loader(c, kind, marks) as mod:
                base = PUT[kind](f, c, (3,))
                for k in ({"seqlen": 2.0}, {"seqlen": "2"}, {"stride": 1.5}, {"dilation": .5}, {"start": 1.0}, {"end": "3"}):
                    c.check(c.raises(lambda: build(c, kind, mod, base, **k), TypeError), "%s type of %s" % (kind, list(k)[0]))
                key = "sequences" if kind == "tum" else "trajectories"
                c.check(c.raises(lambda: build(c, kind, mod, base, **{key: [NAMES[kind][0]]}), TypeError), "%s names as list" % kind)
                c.check(c.raises(lambda: build(c, kind, mod, base, **{key: ()}), ValueError), "%s no names" % kind)
                c.check(c.raises(lambda: build(c, kind, mod, base, **{key: (NAMES[kind][0], NAMES[kind][1])}), ValueError), "%s missing trajectory" % kind)
    return h


def short_poses(n, k):
    """frames without a recorded pose cannot be served"""
    def h(c):
        end = c.integer("end", 1, n)
        with Files() as f, loader(c, "icl", marks) as mod:
            base = put_icl(f, c, (n,), poses=[k])
            try:
                ds = build(c, "icl", mod, base, seqlen=1, end=end)
            except ValueError:
                c.check(end > k, "rejected only when poses are missing")
                return
            c.check(end <= k, "missing poses are rejected")
            for j, it in enumerate(items(c, ds)):
                c.check(tuple(it[3].shape) == (1, 4, 4), "a pose for every frame")
    return h


def cases(tier):
    t = tier == "thorough"
    R = {"seqlen": (1, 3), "dilation": (0, 1), "stride": (1, 3)}
    q = [("tum", (5,), dict(R)), ("icl", (5,), dict(R)),
         ("tum", (4, 3), {"seqlen": (1, 2), "start": (0, 3), "end": (1, 5)}), ("icl", (4, 3), {"seqlen": (1, 2), "start": (0, 3), "end": (1, 5)}),
         ("tum", (6,), {"seqlen": 2, "dilation": 1, "stride": (1, 2), "start": (0, 2)}), ("icl", (6,), {"seqlen": 2, "dilation": 1, "stride": (1, 2), "start": (0, 2)}),
         ("icl", (4, 3), {"seqlen": 2}, ["living_room_traj0_frei_png", "living_room_traj2_frei_png"]),
         ("tum", (6,), {}), ("icl", (9,), {"end": (4, 10)}), ("tum", (3, 4, 2), {"seqlen": 2, "stride": 1}, None, (0, 2)), ("icl", (3, 4, 2), {"seqlen": 2, "stride": 1}, None, (1,)),
         ("tum", (4,), {"seqlen": (-1, 2), "dilation": (-1, 1)}), ("icl", (4,), {"seqlen": (-1, 2), "dilation": (-1, 1)}),
         ("tum", (4,), {"seqlen": 2, "stride": (-1, 1), "start": (-1, 1), "end": (-1, 2)}), ("icl", (4,), {"seqlen": 2, "stride": (-1, 1), "start": (-1, 1), "end": (-1, 2)}),
         ("tum", (4,), {"seqlen": 2, "start": (0, 2)}, None, None, False), ("icl", (4,), {"seqlen": 2, "start": (0, 2)}, None, None, False)]
    if t:
        q += [("tum", (8,), {"seqlen": (1, 4), "dilation": (0, 2), "stride": (1, 4), "start": (0, 3)}), ("icl", (8,), {"seqlen": (1, 4), "dilation": (0, 2), "stride": (1, 4), "start": (0, 3)}),
              ("icl", (5, 7), {"seqlen": (1, 3), "stride": (1, 3), "start": (0, 2), "end": (3, 8)}), ("tum", (5, 7), {"seqlen": (1, 3), "stride": (1, 3), "start": (0, 2), "end": (3, 8)})]
    for k, s in enumerate(q):
        yield Case("%s_%d_%s" % (s[0], k, "-".join(map(str, s[1]))), windows(*s), budget=400, max_paths=20000, feas_ms=300, bounds={"frames": s[1], "parameters": {a: str(b) for a, b in s[2].items()}})
    q = [((3,), None, None), ((3, 4), None, None), ((4, 2), (0, 4), None), ((4, 3), (-1, 3), (-2, 5)), ((2, 3, 4), 1, (2, 4), (0, 2)), ((4, 2, 3), 0, None, (2, 1, 0)[:2][::-1]), ((7,), (0, 6), (1, 7))]
    if t:
        q += [((6, 5), (0, 5), (-1, 7))]
    for k, s in enumerate(q):
        yield Case("scannet_%d_%s" % (k, "-".join(map(str, s[0]))), scenes(*s), budget=400, max_paths=5000, feas_ms=300, bounds={"frames": s[0], "start": str(s[1]), "end": str(s[2])})
    yield Case("icl_short_poses", short_poses(4, 2), bounds={"frames, poses": (4, 2), "end": "any"})
    yield Case("rejects", wrong())


ASSUMPTIONS = ["images are one pixel (the pixels carry the frame number); text files are real files in a scratch folder; the image decoder is replaced"]
