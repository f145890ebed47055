"""C34: frozen configs and copies"""
import copy

from symx.engine import Case
from .common import *
from .configs import *
from .C33 import ERR, make, put, get, nest, base_tree, PATHS

NODES = [(), ("N",), ("N", "M")]


def node(cfg, path):
    for p in path:
        cfg = cfg[p]
    return cfg


class Model:
    """what the config should be: values and which nodes are frozen"""
    def __init__(self, tree):
        self.t = tree
        self.frozen = {}

    def below(self, path):
        t = get(self.t, path)
        yield path
        for k, v in t.items():
            if isinstance(v, dict):
                yield from self.below(path + (k,))

    def set(self, path, on):
        for p in self.below(path):
            self.frozen[p] = on

    def is_frozen(self, path):
        return self.frozen.get(path, False)


def verify(c, M, cfg, m, lab):
    same(c, cfg, m.t, M.CfgNode, lab)
    for p in m.below(()):
        c.check(node(cfg, p).is_frozen() == m.is_frozen(p), lab + ": frozen state of node %s" % (".".join(p) or "root"))


OPS = ["freeze root", "defrost root", "freeze N", "defrost N", "freeze N.M", "defrost N.M", "set root", "set N", "set N.M", "new root", "new node N", "replace N", "clone", "merge", "merge list", "merge file"]


def history(n, ops, start=None):
    """any sequence of n operations"""
    def h(c):
        m = Model(base_tree(c, ["int", "str", "list", "float", "tuple"]))
        with patched_cfg(c) as M:
            cfg = make(M, m.t)
            for s in range(n):
                if s == 0 and start is not None:
                    op = start
                else:
                    op = ops[c.choose("op%d" % s, len(ops))]
                lab = "step %d (%s)" % (s, op)
                v = leaf(c, "v%d" % s, "int")
                x = leaf(c, "x%d" % s, "float")
                frozen = lambda p: m.is_frozen(p)

                def attempt(fn, allowed, new):
                    try:
                        c.run(fn)
                    except AttributeError:
                        c.check(not allowed, lab + ": refused on a mutable node")
                    else:
                        c.check(allowed, lab + ": a frozen node was changed")
                        if allowed:
                            m.t = new
                if op == "freeze root":
                    cfg.freeze()
                    m.set((), True)
                elif op == "defrost root":
                    cfg.defrost()
                    m.set((), False)
                elif op == "freeze N":
                    cfg.N.freeze()
                    m.set(("N",), True)
                elif op == "defrost N":
                    cfg.N.defrost()
                    m.set(("N",), False)
                elif op == "freeze N.M":
                    cfg.N.M.freeze()
                    m.set(("N", "M"), True)
                elif op == "defrost N.M":
                    cfg.N.M.defrost()
                    m.set(("N", "M"), False)
                elif op == "set root":
                    attempt(lambda: setattr(cfg, "A", v.v), not frozen(()), put(m.t, ("A",), v))
                elif op == "set N":
                    attempt(lambda: setattr(cfg.N, "D", x.v), not frozen(("N",)), put(m.t, ("N", "D"), x))
                elif op == "set N.M":
                    attempt(lambda: setattr(cfg.N.M, "E", v.v), not frozen(("N", "M")), put(m.t, ("N", "M", "E"), v))
                elif op == "new root":
                    attempt(lambda: setattr(cfg, "new%d" % s, v.v), not frozen(()), put(m.t, ("new%d" % s,), v))
                elif op == "new node N":
                    k = M.CfgNode({"Q": v.v})
                    attempt(lambda: setattr(cfg.N, "P", k), not frozen(("N",)), put(m.t, ("N", "P"), {"Q": v}))
                    if not frozen(("N",)):
                        m.frozen[("N", "P")] = False
                elif op == "replace N":
                    k = M.CfgNode({"C": [1], "D": x.v, "M": {"E": (v.v,)}})
                    fz = frozen(())
                    attempt(lambda: setattr(cfg, "N", k), not fz, put(m.t, ("N",), {"C": Val("list", [1]), "D": x, "M": {"E": Val("tuple", (v.v,))}}))
                    if not fz:
                        m.set(("N",), False)
                elif op == "clone":
                    old = cfg
                    cfg = c.run(lambda: cfg.clone())
                    # nothing done to the old one reaches the clone
                    old.defrost()
                    old.A = 12345
                    old.N.C.append(7)
                    old.N.M.extra = 1
                elif op.startswith("merge"):
                    # N.D and N.M.E named together
                    kind = get(m.t, ("N", "M", "E")).kind
                    e = v if kind == "int" else Val("tuple", (v.v, v.v))
                    if op == "merge":
                        o = M.CfgNode({"A": v.v})
                        fn = lambda: cfg.merge_from_other_cfg(o)
                        attempt(fn, not frozen(()), put(m.t, ("A",), v))
                    elif op == "merge list":
                        attempt(lambda: cfg.merge_from_list(["N.D", x.v]), not frozen(("N",)), put(m.t, ("N", "D"), x))
                    else:
                        with scratch("o.yaml", document(c, nest(("N", "M", "E"), Val("list", [v.v]) if kind != "int" else v))) as p:
                            attempt(lambda: cfg.merge_from_file(p), not frozen(("N", "M")), put(m.t, ("N", "M", "E"), Val("tuple", (v.v,)) if kind != "int" else v))
                verify(c, M, cfg, m, lab)
    return h


def everywhere(c):
    """freezing reaches every node and every kind of setting; assigning keeps everything as it was"""
    kinds = [LEAF[c.choose("kind", len(LEAF))]] * 5
    p = PATHS[c.choose("path", len(PATHS))]
    new = LEAF[c.choose("new", len(LEAF))]
    via = c.choose("how", 3)
    m = Model(base_tree(c, kinds))
    v = leaf(c, "v", new)
    with patched_cfg(c) as M:
        cfg = make(M, m.t) if via < 2 else M.CfgNode(raw(m.t))
        cfg.freeze()
        m.set((), True)
        if via == 1:
            cfg = c.run(lambda: cfg.clone())
        n = node(cfg, p[:-1])
        c.check(c.raises(lambda: setattr(n, p[-1], raw(v)), AttributeError), "assignment refused")
        c.check(c.raises(lambda: setattr(n, "fresh", raw(v)), AttributeError), "new setting refused")
        c.check(c.raises(lambda: setattr(n, "freshnode", M.CfgNode()), AttributeError), "new node refused")
        verify(c, M, cfg, m, "after the refusals")
        cfg.defrost()
        m.set((), False)
        verify(c, M, cfg, m, "after defrost")
        setattr(n, p[-1], raw(v))
        m.t = put(m.t, p, v)
        verify(c, M, cfg, m, "after the assignment")
        c.check(getattr(n, p[-1]) is n[p[-1]], "attributes are the keys")
        c.check(c.raises(lambda: n.nothing, AttributeError), "missing attribute")


def clones(c):
    """a clone is equal and shares nothing"""
    kind = LEAF[c.choose("kind", len(LEAF))]
    base = base_tree(c, [kind, "list", "list", kind, "list"])
    frozen = bool(c.flag("frozen"))
    m = Model(base)
    with patched_cfg(c) as M:
        cfg = make(M, base)
        cfg.K = M.CfgNode(new_allowed=True)
        cfg.register_deprecated_key("GONE")
        cfg.register_renamed_key("WAS", "A")
        m.t = {**base, "K": {}}
        if frozen:
            cfg.freeze()
            m.set((), True)
        other = c.run(lambda: cfg.clone())
        mo = copy.deepcopy(m) if False else Model(m.t)
        mo.frozen = dict(m.frozen)
        verify(c, M, other, mo, "clone")
        c.check(type(other) is type(cfg), "class of the clone")
        c.check(other.K.is_new_allowed() and not other.N.is_new_allowed(), "new keys allowed in the clone")
        c.check(other.key_is_deprecated("GONE") and other.key_is_renamed("WAS"), "registered keys in the clone")
        which = c.choose("changed", 2)
        a, b, ma, mb = (cfg, other, m, mo) if which == 0 else (other, cfg, mo, m)
        a.defrost()
        ma.set((), False)
        verify(c, M, b, mb, "untouched copy after defrost")
        a.B.append(5)
        a.N.C[0] = 7
        a.N.M.E.clear()
        a.A = raw(leaf(c, "v", "int"))
        a.N.M.new = 1
        a.K.new = 2
        a.register_deprecated_key("GONE2")
        a.register_renamed_key("WAS2", "A")
        verify(c, M, b, mb, "untouched copy after changes")
        c.check(not b.key_is_deprecated("GONE2") and not b.key_is_renamed("WAS2"), "registered keys of the untouched copy")


def dumps(c):
    """dump and load give an equal config; merging the dump of a config into one with the same settings makes them equal"""
    kinds = [LEAF[c.choose("k%d" % i, len(LEAF))] for i in range(2)]
    kinds = [kinds[0], "str", kinds[1], "bool", kinds[0]]
    base, old = base_tree(c, kinds), {}
    frozen = bool(c.flag("frozen"))
    with patched_cfg(c) as M:
        cfg = make(M, base)
        if frozen:
            cfg.freeze()
        doc = c.run(lambda: cfg.dump())
        c.check(isinstance(doc, str), "text")
        back = c.run(lambda: M.CfgNode.load_cfg(doc))
        same(c, back, base, M.CfgNode, "dumped and loaded", seqkind=False)
        same(c, cfg, base, M.CfgNode, "the dumped config")
        same(c, c.run(lambda: M.load_cfg(doc)), base, M.CfgNode, "load_cfg", seqkind=False)
        # the loaded config is independent of the dumped one
        c.check(not back.is_frozen() and not back.N.M.is_frozen(), "the loaded config is mutable")
        for k, p in enumerate(PATHS):
            old = merge_tree(old, nest(p, leaf(c, "old%d" % k, kinds[k])))
        target = make(M, old)
        c.run(lambda: target.merge_from_other_cfg(back))
        same(c, target, base, M.CfgNode, "merged with the dump")
        target = make(M, old)
        with scratch("d.yaml", doc) as p:
            c.run(lambda: target.merge_from_file(p))
        same(c, target, base, M.CfgNode, "merged with the dumped file")
        target = make(M, old)
        twin = c.run(lambda: cfg.clone())
        c.run(lambda: target.merge_from_other_cfg(twin))
        same(c, target, base, M.CfgNode, "merged with the clone")
        verify_free = c.raises(lambda: setattr(target, "A", raw(base["A"])), AttributeError)
        c.check(not verify_free, "the merged config is mutable")


def merge_tree(a, b):
    a = dict(a)
    for k, v in b.items():
        a[k] = merge_tree(a[k], v) if k in a and isinstance(v, dict) else v
    return a


BAD = [None, {"a": 1}, {1, 2}, 1j, object(), b"x", range(3)]


BADTEXT = ["None", "{1, 2}", "1j", "b'x'", "{'k': 3}", "{}"]


def invalid(c):
    """values of other types are refused on assignment and on construction"""
    base = base_tree(c, ["int", "str", "list", "float", "tuple"])
    m = Model(base)
    with patched_cfg(c) as M:
        cfg = make(M, base)
        for k, bad in enumerate(BAD):
            for n in (cfg, cfg.N, cfg.N.M):
                c.check(c.raises(lambda: setattr(n, "A", bad), ERR), "assignment of %r" % type(bad))
            if not isinstance(bad, dict):
                c.check(c.raises(lambda: M.CfgNode({"A": bad}), ERR), "construction from %r" % type(bad))
                c.check(c.raises(lambda: M.CfgNode({"N": {"A": bad}}), ERR), "nested construction from %r" % type(bad))
        for name in (M.CfgNode.IMMUTABLE, M.CfgNode.DEPRECATED_KEYS, M.CfgNode.RENAMED_KEYS, M.CfgNode.NEW_ALLOWED):
            c.check(c.raises(lambda: setattr(cfg, name, 1), ERR), "internal state")
        verify(c, M, cfg, m, "after the refusals")
        # nor do they come in as a new key of an open node
        op = M.CfgNode(new_allowed=True)
        op.A = 1
        op.N = M.CfgNode(new_allowed=True)
        for txt in BADTEXT:
            for key in ("X", "N.X"):
                c.check(c.raises(lambda: op.merge_from_other_cfg(M.CfgNode(nest(tuple(key.split(".")), txt))), ERR), "new key from %s" % txt)
        c.check(sorted(op.keys()) == ["A", "N"] and sorted(op.N.keys()) == [], "the open node after the refusals")
        for txt, v in (("3", 3), ("(1, 2)", (1, 2)), ("word", "word"), ("False", False)):
            op.merge_from_other_cfg(M.CfgNode({"N": {"X": txt}}))
            c.check(type(op.N.X) is type(v) and op.N.X == v, "new key from %s" % txt)
            del op.N["X"]
        d = raw(base)
        built = M.CfgNode(d)
        same(c, built, base, M.CfgNode, "built from a dict")
        built.N.C.append(3)
        built.A = 5
        c.check(d["N"]["C"] == raw(base)["N"]["C"] if not c.symbolic else len(d["N"]["C"]) == 3, "the dict it was built from")
        c.check(type(d["N"]) is dict and "A" in d, "the dict it was built from")


def cases(tier):
    t = tier == "thorough"
    if t:
        for op in OPS:
            yield Case("history_4_" + op.replace(" ", "_"), history(4, OPS, op), budget=800, max_paths=30000, feas_ms=300, bounds={"operations": 4, "first": op, "alphabet": OPS})
    for op in OPS:
        yield Case("history_3_" + op.replace(" ", "_"), history(3, OPS, op), budget=300, max_paths=3000, feas_ms=300, bounds={"operations": 3, "first": op, "alphabet": OPS})
    yield Case("everywhere", everywhere, budget=400, max_paths=5000, feas_ms=300)
    yield Case("clones", clones, budget=100, feas_ms=300)
    yield Case("dumps", dumps, budget=300, max_paths=3000, feas_ms=300)
    yield Case("invalid", invalid)


ASSUMPTIONS = ["trees of 5 settings in 3 nested nodes; sequences of 3 flat entries; strings do not read as Python literals (a config's own decoding rule turns those into the literal)",
               "yaml.safe_dump/safe_load, ast.literal_eval and the builtins type, isinstance, int, float, bool are replaced by versions that know symbolic numbers (replays use the real ones)",
               "item assignment (cfg['A'] = 1) and dict methods are outside: freezing guards attributes and merges"]
