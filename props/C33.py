"""C33: config merging"""
import copy

from symx.engine import Case
from .common import *
from .configs import *

ERR = (KeyError, ValueError, AssertionError, TypeError, AttributeError, IndexError)


def base_tree(c, kinds):
    """A, B at the root; C, D in N; E in N.M"""
    return {"A": leaf(c, "bA", kinds[0]), "B": leaf(c, "bB", kinds[1]), "N": {"C": leaf(c, "bC", kinds[2]), "D": leaf(c, "bD", kinds[3]), "M": {"E": leaf(c, "bE", kinds[4])}}}


def make(M, tree, root=True):
    """built the way users do: nodes and attributes"""
    n = M.CfgNode()
    for k, v in tree.items():
        setattr(n, k, make(M, v) if isinstance(v, dict) else raw(v))
    return n


def cast(v, kind):
    """v as a replacement of a setting of the given kind, or None when the types do not agree"""
    if v.kind == kind:
        return v
    if {v.kind, kind} == {"tuple", "list"}:
        return Val(kind, tuple(v.v) if kind == "tuple" else list(v.v))
    return None


def put(tree, path, v):
    t = copy.copy(tree)
    if len(path) == 1:
        t[path[0]] = v
    else:
        t[path[0]] = put(tree[path[0]], path[1:], v)
    return t


def get(tree, path):
    for p in path:
        tree = tree[p]
    return tree


def nest(path, v):
    for p in reversed(path):
        v = {p: v}
    return v


PATHS = [("A",), ("B",), ("N", "C"), ("N", "D"), ("N", "M", "E")]


def apply(c, M, cfg, over, how):
    """over: nested tree of Val; merged through one of the three doors"""
    if how == "other":
        o = make(M, over)
        c.run(lambda: cfg.merge_from_other_cfg(o))
        return o
    if how == "built":
        o = M.CfgNode(raw(over))
        c.run(lambda: cfg.merge_from_other_cfg(o))
        return o
    if how == "file":
        with scratch("over.yaml", document(c, over)) as p:
            c.run(lambda: cfg.merge_from_file(p))
        return None
    flat = []

    def walk(t, pre):
        for k, v in t.items():
            if isinstance(v, dict):
                walk(v, pre + [k])
            else:
                flat.extend([".".join(pre + [k]), text(c, v) if how == "text" else raw(v)])
    walk(over, [])
    o = list(flat)
    c.run(lambda: cfg.merge_from_list(o))
    c.check(o == flat, "given list unchanged") if not c.symbolic else c.check(len(o) == len(flat) and all(x is y for x, y in zip(o, flat)), "given list unchanged")
    return None


def types(path, how, full):
    """one override of any kind over a setting of any kind"""
    def h(c):
        k0 = LEAF[c.choose("base", len(LEAF))]
        k1 = (LEAF + ["node"])[c.choose("override", len(LEAF) + 1)]
        if how == "file" and k1 == "tuple":
            return c.check(True, "YAML has no tuples")
        kinds = ["int", "str", "float", "tuple", "bool"]
        kinds[PATHS.index(path)] = k0
        base = base_tree(c, kinds)
        new = leaf(c, "o", k1) if k1 != "node" else {"E": leaf(c, "o", "int")}
        if how == "text" and k1 == "node":
            new = Val("str", "{'E': 1}")        # reads as a dictionary
        over = nest(path, new)
        with patched_cfg(c) as M:
            cfg = make(M, base)
            same(c, cfg, base, M.CfgNode, "built")
            dictlike = how == "text" and k1 == "node"
            good = None if k1 == "node" or dictlike else cast(new, k0)
            try:
                o = apply(c, M, cfg, over, how)
            except ERR:
                c.check(good is None, "compatible value rejected")
                same(c, cfg, base, M.CfgNode, "after the rejection")
                return
            c.check(good is not None, "incompatible value accepted")
            same(c, cfg, put(base, path, good) if good is not None else base, M.CfgNode, "merged")
            if o is not None:
                same(c, o, over, M.CfgNode, "override source")
    return h


def several(how, n):
    """any subset of the settings overridden together, every other one kept"""
    def h(c):
        base = base_tree(c, ["int", "str", "list", "float", "tuple"])
        over, want = {}, base
        for k, p in enumerate(PATHS[:n]):
            if bool(c.flag("has%d" % k)):
                v = leaf(c, "o%d" % k, ["int", "str", "tuple" if how != "file" else "list", "float", "list"][k])
                t = over
                for q in p[:-1]:
                    t = t.setdefault(q, {})
                t[p[-1]] = v
                want = put(want, p, cast(v, get(base, p).kind))
        with patched_cfg(c) as M:
            cfg = make(M, base)
            o = apply(c, M, cfg, over, how)
            same(c, cfg, want, M.CfgNode, "merged")
            if o is not None:
                same(c, o, over, M.CfgNode, "override source")
                # the merged config does not share storage with the source
                if "N" in over and "M" in over["N"]:
                    cfg.N.M.E = (1, 2)
                    same(c, o, over, M.CfgNode, "override source after a later change")
    return h


UNKNOWN = [("X",), ("N", "X"), ("N", "M", "X"), ("X", "A"), ("N", "X", "E"), ("A", "X"), ("N", "C", "X"), ("n",), ("N", "A"), ("C",), ("B", "a")]


def unknown(how):
    """unknown keys are rejected wherever they are, also next to known ones"""
    def h(c):
        path = UNKNOWN[c.choose("where", len(UNKNOWN))]
        kind = LEAF[c.choose("kind", len(LEAF))]
        if how == "file" and kind == "tuple":
            kind = "list"
        base = base_tree(c, ["int", "str", "list", "float", "tuple"])
        over = nest(path, leaf(c, "o", kind))
        side = bool(c.flag("side"))
        if side and path[0] != "B":
            over = {"B": leaf(c, "s", "str"), **over} if bool(c.flag("first")) else {**over, "B": leaf(c, "s", "str")}
        with patched_cfg(c) as M:
            cfg = make(M, base)
            try:
                apply(c, M, cfg, over, how)
            except ERR:
                c.check(True, "rejected")
            else:
                c.check(False, "unknown key accepted")
            shape_kept(c, cfg, base, M.CfgNode, "after the rejection")
            for p in PATHS:
                if p != ("B",):
                    same(c, cfg[p[0]] if len(p) == 1 else get(cfg, p), get(base, p), M.CfgNode, ".".join(p))
    return h


def nodes(how):
    """a node in an override merges into the node, it does not replace it"""
    def h(c):
        base = base_tree(c, ["int", "str", "int", "float", "int"])
        inner = {}
        for k, nm in enumerate(("C", "D", "X")):
            if bool(c.flag("has" + nm)):
                inner[nm] = leaf(c, "o" + nm, ["int", "float", "int"][k])
        with patched_cfg(c) as M:
            cfg = make(M, base)
            v = raw(inner) if how == "dict" else make(M, inner)
            try:
                if how == "other":
                    o = M.CfgNode()
                    o.N = v
                    c.run(lambda: cfg.merge_from_other_cfg(o))
                else:
                    c.run(lambda: cfg.merge_from_list(["N", v]))
            except ERR:
                c.check("X" in inner, "known keys rejected")
                shape_kept(c, cfg, base, M.CfgNode, "after the rejection")
                return
            c.check("X" not in inner, "unknown key accepted")
            want = base
            for k in ("C", "D"):
                if k in inner:
                    want = put(want, ("N", k), inner[k])
            same(c, cfg, want, M.CfgNode, "merged")
    return h


def texts(c):
    """what command-line texts stand for"""
    k0 = LEAF[c.choose("base", len(LEAF))]
    base = base_tree(c, [k0, "str", "int", "float", "int"])
    n, x = c.integer("n", 0, 99), c.number("x", 0, 99)
    t = lambda v, kind: text(c, Val(kind, v))
    forms = [(t(n, "int"), Val("int", n)), ("-" + t(n, "int"), Val("int", -n)), (t(x, "float"), Val("float", x)), ("True", Val("bool", True)), ("False", Val("bool", False)),
             ("word", Val("str", "word")), ("'word'", Val("str", "word")), ('"7"', Val("str", "7")), ("a/b-c.d", Val("str", "a/b-c.d")), ("1 2", Val("str", "1 2")), ("None", None),
             ("(%s, 2)" % t(n, "int"), Val("tuple", (n, 2))), ("[%s]" % t(n, "int"), Val("list", [n])), ("()", Val("tuple", ())), ("[]", Val("list", [])), ("{'a': 1}", None), ("", Val("str", "")),
             ("1e-3", Val("float", 1e-3)), ("0x10", Val("int", 16)), ("true", Val("str", "true")), ("{[0]}", Val("str", "{[0]}")), ("{{1}}", Val("str", "{{1}}")), ("{[]: 1}", Val("str", "{[]: 1}")), ("(1", Val("str", "(1")), ("None,", Val("tuple", (None,)) if False else None), ("b'x'", None), ("1+2j", None)]
    s, v = forms[c.choose("form", len(forms))]
    if s == "None,":
        return c.check(True, "")
    with patched_cfg(c) as M:
        cfg = make(M, base)
        good = cast(v, k0) if v is not None else None
        try:
            c.run(lambda: cfg.merge_from_list(["A", s]))
        except ERR:
            c.check(good is None, "compatible text rejected")
            same(c, cfg, base, M.CfgNode, "after the rejection")
            return
        c.check(good is not None, "incompatible text accepted")
        same(c, cfg, put(base, ("A",), good) if good is not None else base, M.CfgNode, "merged")


def lists(c):
    """the order of overrides, odd lists and half-good lists"""
    base = base_tree(c, ["int", "str", "float", "int", "int"])
    a, b = c.integer("a", -99, 99), c.integer("b", -99, 99)
    with patched_cfg(c) as M:
        cfg = make(M, base)
        c.run(lambda: cfg.merge_from_list(["A", a, "N.M.E", b, "A", b]))
        same(c, cfg, put(put(base, ("A",), Val("int", b)), ("N", "M", "E"), Val("int", b)), M.CfgNode, "the last override wins")
        cfg = make(M, base)
        c.run(lambda: cfg.merge_from_list([]))
        same(c, cfg, base, M.CfgNode, "no overrides")
        for bad in (["A"], ["A", a, "B"]):
            c.check(c.raises(lambda: cfg.merge_from_list(bad), ERR), "odd list")
        same(c, cfg, base, M.CfgNode, "after an odd list")


def special(how):
    """deprecated keys are skipped, renamed keys are refused, nodes open for new keys take them"""
    def h(c):
        base = base_tree(c, ["int", "str", "float", "int", "int"])
        at = [("OLD",), ("N", "OLD"), ("N", "M", "OLD"), ("K", "new"), ("K", "z")][c.choose("where", 5)]
        what = c.choose("registered", 3)
        v = leaf(c, "o", ["int", "list", "bool"][c.choose("kind", 3)])
        with patched_cfg(c) as M:
            cfg = make(M, base)
            open_ = bool(c.flag("open"))
            cfg.K = M.CfgNode(new_allowed=open_)
            cfg.K.z = 3
            c.check(cfg.K.is_new_allowed() == open_ and not cfg.is_new_allowed(), "new keys allowed")
            full = ".".join(at)
            if what == 1:
                cfg.register_deprecated_key(full)
                c.check(c.raises(lambda: cfg.register_deprecated_key(full), ERR), "registered twice")
            elif what == 2:
                cfg.register_renamed_key(full, "N.D", message="moved")
                c.check(c.raises(lambda: cfg.register_renamed_key(full, "N.D"), ERR), "registered twice")
            want = {**base, "K": {"z": Val("int", 3)}}
            over = nest(at, v)
            known = at == ("K", "z")
            lst = how in ("text", "list")
            if known:
                if lst and what:
                    ok, res = what == 1, want
                else:
                    ok = v.kind == "int"
                    res = put(want, at, v)
            elif at[0] == "K" and open_ and not lst:
                ok, res = True, put(want, at, v)
            else:
                ok, res = what == 1, want
            try:
                apply(c, M, cfg, over, how)
            except KeyError as e:
                if what == 2 and not (known and not lst):
                    c.check("N.D" in str(e) and "moved" in str(e) and full in str(e), "the message names the new key")
                c.check(not ok, "accepted")
                same(c, cfg, want, M.CfgNode, "after the rejection")
                return
            except ERR:
                c.check(not ok, "accepted")
                c.check(what != 2 or known, "renamed keys raise KeyError")
                same(c, cfg, want, M.CfgNode, "after the rejection")
                return
            c.check(ok, "rejected")
            same(c, cfg, res, M.CfgNode, "merged")
    return h


def opens(how):
    """a new key is taken exactly where the node it would go into is open for new keys"""
    def h(c):
        root, n, m = (bool(c.flag("open" + k)) for k in ("", ".N", ".N.M"))
        at = [("X",), ("N", "X"), ("N", "M", "X"), ("N", "X", "E"), ("X", "A"), ("N", "M", "X", "Q")][c.choose("where", 6)]
        kind = ["int", "list"][c.choose("kind", 2)]
        base = base_tree(c, ["int", "str", "float", "int", "int"])
        v = leaf(c, "o", kind)
        side = bool(c.flag("side"))
        with patched_cfg(c) as M:
            cfg = M.CfgNode(new_allowed=root)
            cfg.A, cfg.B = raw(base["A"]), raw(base["B"])
            cfg.N = M.CfgNode(new_allowed=n)
            cfg.N.C, cfg.N.D = raw(base["N"]["C"]), raw(base["N"]["D"])
            cfg.N.M = M.CfgNode(new_allowed=m)
            cfg.N.M.E = raw(base["N"]["M"]["E"])
            c.check((cfg.is_new_allowed(), cfg.N.is_new_allowed(), cfg.N.M.is_new_allowed()) == (root, n, m), "open nodes")
            over = nest(at, v)
            if side:
                over = {**over, "A": leaf(c, "s", "int")}
            ok = {("X",): root, ("X", "A"): root, ("N", "X"): n, ("N", "X", "E"): n}.get(at, m)
            want = base
            if side:
                want = put(want, ("A",), over["A"])
            try:
                apply(c, M, cfg, over, how)
            except ERR:
                c.check(not ok, "new key refused by an open node")
                for p in PATHS:
                    if p != ("A",):
                        same(c, get(cfg, p), get(base, p), M.CfgNode, ".".join(p))
                shape_kept(c, cfg, base, M.CfgNode, "after the rejection")
            else:
                c.check(ok, "new key taken by a closed node")
                if ok:
                    t = dict(want)
                    d = t
                    for q in at[:-1]:
                        d[q] = dict(d.get(q, {}))
                        d = d[q]
                    d[at[-1]] = v
                    same(c, cfg, t, M.CfgNode, "merged")
            c.check((cfg.is_new_allowed(), cfg.N.is_new_allowed(), cfg.N.M.is_new_allowed()) == (root, n, m), "open nodes afterwards")
    return h


def sources(c):
    """files and strings of a config, and what is not one"""
    kind = LEAF[c.choose("kind", len(LEAF))]
    v = leaf(c, "v", "list" if kind == "tuple" else kind)
    tree = {"A": v, "N": {"C": leaf(c, "w", "int")}}
    with patched_cfg(c) as M:
        doc = document(c, tree)
        same(c, c.run(lambda: M.CfgNode.load_cfg(doc)), tree, M.CfgNode, "from a string")
        for ext in ("yaml", "yml"):
            with scratch("c." + ext, doc) as p, open(p) as f:
                same(c, c.run(lambda: M.CfgNode.load_cfg(f)), tree, M.CfgNode, "from a file")
        with scratch("c.py", "cfg = {'A': 1, 'N': {'C': (1, 2), 'B': 'x'}}\n") as p, open(p) as f:
            same(c, c.run(lambda: M.CfgNode.load_cfg(f)), {"A": Val("int", 1), "N": {"C": Val("tuple", (1, 2)), "B": Val("str", "x")}}, M.CfgNode, "from python")
        with scratch("c.txt", doc) as p, open(p) as f:
            c.check(c.raises(lambda: M.CfgNode.load_cfg(f), Exception), "other file types")
        with scratch("c.py", "x = 1\n") as p, open(p) as f:
            c.check(c.raises(lambda: M.CfgNode.load_cfg(f), Exception), "python without cfg")
        for bad in (3, None, {"A": 1}, ["A"]):
            c.check(c.raises(lambda: M.CfgNode.load_cfg(bad), Exception), "not a source")
        c.check(c.raises(lambda: M.CfgNode().merge_from_other_cfg({"A": 1}), ERR), "merging a dict")


def cases(tier):
    t = tier == "thorough"
    for how in ("other", "text", "file") + (("built", "list") if t else ()):
        for p in PATHS if t or how == "other" else [("A",), ("N", "M", "E")]:
            yield Case("types_%s_%s" % (how, ".".join(p)), types(p, how, t), budget=300, max_paths=3000, feas_ms=300, bounds={"existing kinds": LEAF, "override kinds": LEAF + ["node"]})
    for how in ("other", "built", "list", "text", "file"):
        yield Case("several_" + how, several(how, 5), budget=300, max_paths=3000, feas_ms=300, bounds={"overridden": "any subset of 5 settings in 3 nested nodes"})
        yield Case("unknown_" + how, unknown(how), budget=300, max_paths=3000, feas_ms=300, bounds={"unknown": UNKNOWN})
    for how in ("other", "list", "dict"):
        yield Case("nodes_" + how, nodes(how), budget=100, max_paths=3000, feas_ms=300)
    for how in ("other", "list", "text", "file"):
        yield Case("special_" + how, special(how), budget=300, max_paths=3000, feas_ms=300)
    for how in ("other", "built", "file"):
        yield Case("opens_" + how, opens(how), budget=300, max_paths=3000, feas_ms=300, bounds={"open for new keys": "any subset of root, N, N.M", "new key": "6 places"})
    yield Case("texts", texts, budget=300, max_paths=3000, feas_ms=300)
    yield Case("lists", lists)
    yield Case("sources", sources, feas_ms=300)


ASSUMPTIONS = ["trees of 5 settings in 3 nested nodes; sequences of 3 entries; numbers are symbolic, strings come from a fixed list of words",
               "yaml.safe_dump/safe_load, ast.literal_eval and the builtins type, isinstance, int, float, bool are replaced by versions that know symbolic numbers (replays use the real ones)"]
