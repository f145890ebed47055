#!/usr/bin/env python3
"""mutate.py gen OUT.json [seed] [per-function]: small syntactic changes of the library, kept when the stable tests still pass
mutate.py run IN.json OUT.jsonl [jobs]: runs the checks whose evidence names the changed function, cheapest first, until one reports it
Only a measurement of the checks; nothing here is used by a check."""
import ast, json, os, random, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["structures/rgbdimages.py", "structures/pointclouds.py", "structures/structutils.py", "structures/utils.py", "geometry/geometryutils.py", "geometry/projutils.py",
         "geometry/se3utils.py", "slam/fusionutils.py", "slam/icpslam.py", "slam/pointfusion.py", "odometry/icp.py", "odometry/gradicp.py", "odometry/icputils.py",
         "odometry/groundtruth.py", "datasets/tum.py", "datasets/tumutils.py", "datasets/icl.py", "datasets/scannet.py", "datasets/datautils.py", "config/cfgnode.py"]
SKIPFN = {"open3d", "plotly", "cuda", "cpu", "__repr__", "__str__", "__len__"}


def inside_raise(stack):
    return any(isinstance(n, (ast.Raise, ast.Assert)) for n in stack)


def mutants(src):
    """(function, start, end, replacement, kind)"""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: raw[slice(*pos(n))].decode()
    out = []

    def walk(n, fn, stack):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in SKIPFN:
                return
            fn = n.name
            body = n.body[1:] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
            for d in n.args.defaults:
                walk(d, fn, stack + [n])
            for b in body:
                walk(b, fn, stack + [n])
            return
        if fn and not inside_raise(stack + [n]):
            add = lambda a, b, r, k: out.append((fn, a, b, r, k))
            s, e = pos(n) if hasattr(n, "lineno") else (0, 0)
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = seg(n.left), seg(n.comparators[0])
                op = type(n.ops[0])
                m = {ast.Lt: ["<=", ">"], ast.Gt: [">=", "<"], ast.LtE: ["<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
                for o in m.get(op, []):
                    add(s, e, "(%s %s %s)" % (l, o, r), "cmp")
            elif isinstance(n, ast.BinOp):
                m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.BitAnd: "|", ast.BitOr: "&", ast.Pow: "*"}
                if type(n.op) in m and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                    add(s, e, "(%s %s %s)" % (seg(n.left), m[type(n.op)], seg(n.right)), "binop")
                if isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant):
                    add(s, e, "(%s)" % seg(n.left), "dropright")
            elif isinstance(n, ast.BoolOp):
                add(s, e, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join("(" + seg(v) + ")" for v in n.values) + ")", "boolop")
                for v in n.values:
                    add(s, e, "(%s)" % seg(v), "boolone")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                add(s, e, "(%s)" % seg(n.operand), "unary")
            elif isinstance(n, ast.Constant):
                v = n.value
                if v is True or v is False:
                    add(s, e, str(not v), "bool")
                elif isinstance(v, int):
                    add(s, e, str(v + 1), "int")
                    if v > 0:
                        add(s, e, str(v - 1), "int")
                elif isinstance(v, float):
                    add(s, e, repr(v * 2 if v else 1.0), "float")
                elif isinstance(v, str) and "->" in v:
                    a, b = v.split("->")
                    if len(b) > 2:
                        add(s, e, repr(a + "->" + b[:-2] + b[-1] + b[-2]), "einsum")
                    xs = a.split(",")
                    if len(xs[0]) > 2:
                        add(s, e, repr(xs[0][:-2] + xs[0][-1] + xs[0][-2] + "," + ",".join(xs[1:]) + "->" + b), "einsum")
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and not n.args and n.func.attr in ("clone", "detach", "contiguous", "copy", "item", "t", "long"):
                    if n.func.attr not in ("contiguous", "item"):
                        add(s, e, seg(n.func.value), "dropcall")
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("transpose", "abs", "clamp", "float", "squeeze", "unsqueeze"):
                    add(s, e, seg(n.func.value), "dropcall")
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    f = seg(n.func)
                    if "isinstance" not in f and "format" not in f:
                        for i in range(len(n.args) - 1):
                            ar = [seg(a) for a in n.args]
                            ar[i], ar[i + 1] = ar[i + 1], ar[i]
                            add(s, e, "%s(%s)" % (f, ", ".join(ar + [seg(k) for k in n.keywords])), "swapargs")
                for k in n.keywords:
                    if k.arg and k.arg not in ("device", "dtype"):
                        add(s, e, "%s(%s)" % (seg(n.func), ", ".join([seg(a) for a in n.args] + [seg(q) for q in n.keywords if q is not k])), "dropkw")
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                sw = {"min": "max", "max": "min", "sin": "cos", "cos": "sin", "any": "all", "all": "any", "zeros_like": "ones_like", "ones_like": "zeros_like", "floor": "ceil", "round": "floor", "argmin": "argmax"}
                if nm in sw:
                    fs, fe = pos(n.func)
                    add(fs, fe, seg(n.func)[:-len(nm)] + sw[nm], "callswap")
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and (n.slice.lower or n.slice.upper):
                add(s, e, "%s[:]" % seg(n.value), "fullslice")
            elif isinstance(n, ast.IfExp):
                add(s, e, "(%s)" % seg(n.body), "ifexp")
                add(s, e, "(%s)" % seg(n.orelse), "ifexp")
            elif isinstance(n, ast.If) and not any(isinstance(b, ast.Raise) for b in n.body):
                ts, te = pos(n.test)
                add(ts, te, "(not (%s))" % seg(n.test), "ifneg")
                add(ts, te, "True", "iftrue")
                add(ts, te, "False", "iffalse")
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign):
                    add(s, e, "pass", "dropstmt")
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                add(s, e, "pass", "dropstmt")
            elif isinstance(n, ast.Attribute):
                sw = {"h": "w", "w": "h", "height": "width", "width": "height", "_points_list": "_normals_list", "_vertex_map": "_global_vertex_map", "normals_padded": "colors_padded", "colors_padded": "normals_padded",
                      "points_padded": "normals_padded", "_normal_map": "_global_normal_map", "global_vertex_map": "vertex_map", "global_normal_map": "normal_map", "normals_list": "colors_list", "colors_list": "normals_list"}
                if n.attr in sw and isinstance(n.ctx, ast.Load):
                    add(s, e, seg(n.value) + "." + sw[n.attr], "attr")
        for c in ast.iter_child_nodes(n):
            walk(c, fn, stack + [n])
    walk(tree, None, [])
    return raw, out


def gen(path, seed, per):
    sys.argv = ["mkseed"]
    rng = random.Random(seed)
    todo = []
    for f in FILES:
        p = "/repo/gradslam/" + f
        if not os.path.exists(p):
            continue
        raw, ms = mutants(open(p).read())
        by = {}
        for m in ms:
            by.setdefault(m[0], []).append(m)
        for fn, l in by.items():
            rng.shuffle(l)
            kinds = {}
            pick = []
            for m in l:                    # spread over kinds
                if kinds.get(m[4], 0) < max(1, per // 3):
                    kinds[m[4]] = kinds.get(m[4], 0) + 1
                    pick.append(m)
            for m in pick[:per]:
                todo.append((f, m, raw))
    print(len(todo), "candidates", flush=True)
    src = open(V + "/tools/mkseed.py").read().replace("\nmain()\n", "\n")
    ns = {"__file__": V + "/tools/mkseed.py"}
    exec(src, ns)
    keep, lock = [], threading.Lock()
    pool = []

    def worker(k):
        wt = "/tmp/mutwt.%d.%d" % (os.getpid(), k)
        shutil.copytree("/repo", wt, symlinks=True)
        t2 = src.replace('"/tmp/mkseed.%d.xml" % os.getpid()', '"/tmp/mkseed.%d.xml"' % k).replace('"/tmp/mkseed_harness.%d" % os.getpid()', '"/tmp/mkseed_harness.%d"' % k)
        ns = {"__file__": V + "/tools/mkseed.py"}
        exec(t2, ns)
        while True:
            with lock:
                if not todo:
                    break
                f, m, raw = todo.pop()
            fn, s, e, r, kind = m
            new = raw[:s] + r.encode() + raw[e:]
            try:
                ast.parse(new.decode())
            except SyntaxError:
                continue
            open(wt + "/gradslam/" + f, "wb").write(new)
            try:
                missing = ns["tests"](wt)
            except Exception:
                missing = {"crash"}
            open(wt + "/gradslam/" + f, "wb").write(raw)
            if not missing:
                with lock:
                    keep.append({"file": f, "fn": fn, "start": s, "end": e, "new": r, "old": raw[s:e].decode(), "kind": kind, "line": raw[:s].count(b"\n") + 1})
                    json.dump(keep, open(path, "w"), indent=0)
        shutil.rmtree(wt)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(len(keep), "pass the stable tests")


def run(inp, out, jobs):
    ms = json.load(open(inp))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["start"], d["new"]))
    ev = {}
    for i in range(1, 1 + len([x for x in os.listdir(V + "/evidence") if x.endswith(".json")])):
        p = "%s/evidence/C%02d.json" % (V, i)
        d = json.load(open(p))
        ev["C%02d" % i] = (d["wall_s"], {x.rsplit(":", 1)[0].replace("gradslam/", "", 1) + ":" + x.rsplit(":", 1)[1].split(".")[-1] for x in d["coverage"]["functions_encoded"]})
    random.Random(3).shuffle(ms)

    def one(m):
        if (m["file"], m["start"], m["new"]) in done:
            return
        raw = open("/repo/gradslam/" + m["file"], "rb").read()
        if raw[m["start"]:m["end"]].decode() != m["old"]:
            return
        wt = "/tmp/mutrun.%d.%d" % (os.getpid(), threading.get_ident())
        shutil.copytree("/repo", wt, symlinks=True)
        open(wt + "/gradslam/" + m["file"], "wb").write(raw[:m["start"]] + m["new"].encode() + raw[m["end"]:])
        key = m["file"] + ":" + m["fn"]
        props = sorted((w, p) for p, (w, fs) in ev.items() if key in fs)
        res, tried = "MISSED", []
        try:
            for w, p in props:
                e = wt + ".ev"
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "check.py", p], cwd=V, capture_output=True, text=True, timeout=900,
                                       env=dict(os.environ, SYMX_REPO=wt, SYMX_EVIDENCE=e, SYMX_JOBS=str(max(1, 8 // jobs))))
                    rc = r.returncode
                    last = (r.stdout + r.stderr).strip().split("\n")[-1][:300]
                except subprocess.TimeoutExpired:
                    rc, last = 99, "timeout"
                shutil.rmtree(e, ignore_errors=True)
                tried.append((p, rc))
                if rc == 1:
                    res = "caught " + p
                    break
                if rc != 0:
                    res = "ERROR"
                    m["last"] = last
        finally:
            shutil.rmtree(wt)
        if not props:
            res = "NO CHECK"
        m = dict(m, res=res, tried=tried)
        with open(out, "a") as f:
            f.write(json.dumps(m) + "\n")
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, ms))


if sys.argv[1] == "gen":
    gen(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 1, int(sys.argv[4]) if len(sys.argv) > 4 else 6)
elif sys.argv[1] == "run":
    run(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 2)
