"""config trees for C33 and C34: the shape of a tree and the kind of every setting are symbolic choices, numbers are symbolic"""
import copy
import os
import tempfile

import yaml
from .common import *

LEAF = ["int", "float", "bool", "str", "tuple", "list"]
WORDS = ["alpha", "path/to.x", "two words", ""]


class Val:
    """a setting: its kind and its value (parts: the numbers inside)"""
    def __init__(self, kind, v):
        self.kind, self.v = kind, v


def leaf(c, name, kind):
    name = name + "." + kind
    if kind == "int":
        return Val(kind, c.integer(name, -99, 99))
    if kind == "float":
        return Val(kind, c.number(name, -99, 99))
    if kind == "bool":
        return Val(kind, c.flag(name))
    if kind == "str":
        return Val(kind, WORDS[sum(map(ord, name)) % 3])
    seq = [c.integer(name + ".0", -99, 99), c.number(name + ".1", -99, 99), "b"]
    return Val(kind, tuple(seq) if kind == "tuple" else seq)


def raw(v):
    """plain python value of a tree of Val"""
    if isinstance(v, Val):
        return list(v.v) if v.kind == "list" else v.v
    return {k: raw(x) for k, x in v.items()}


def text(c, v):
    """the value as written on a command line"""
    def one(x):
        if isinstance(x, str):
            return repr(x)
        if c.symbolic:
            from symx.npshim import token
            from symx.scalars import SymReal, SymBool
            return token(x) if isinstance(x, (SymReal, SymBool)) else repr(x)
        return repr(x)
    if v.kind == "tuple":
        return "(" + ", ".join(one(x) for x in v.v) + ",)"
    if v.kind == "list":
        return "[" + ", ".join(one(x) for x in v.v) + "]"
    return v.v if v.kind == "str" else one(v.v)


def kind_of(c, x, CN):
    if c.symbolic:
        from symx.npshim import sym_type
        k = sym_type(x)
    else:
        k = type(x)
    return "node" if issubclass(k, CN) else k.__name__


def same(c, got, want, CN, lab, seqkind=True):
    """the tree of the code equals the expected tree: keys, exact types and values"""
    if isinstance(want, dict):
        ok = isinstance(got, CN) and list(sorted(got.keys())) == sorted(want)
        c.check(ok, lab + ": keys of the node")
        if ok:
            for k in want:
                same(c, got[k], want[k], CN, lab + "." + k, seqkind)
        return
    g = kind_of(c, got, CN)
    kinds = (want.kind,) if seqkind or want.kind not in ("tuple", "list") else ("tuple", "list")
    c.check(g in kinds, lab + ": type")
    if g not in kinds:
        return
    if want.kind in ("tuple", "list"):
        c.check(len(got) == len(want.v), lab + ": length")
        pairs = list(zip(got, want.v))
    else:
        pairs = [(got, want.v)]
    for a, b in pairs:
        if isinstance(b, str) or isinstance(a, str):
            c.check(isinstance(a, str) and isinstance(b, str) and a == b, lab + ": value")
        elif want.kind == "bool":
            c.check(a == b, lab + ": value")
        else:
            c.check(c.and_(a == b), lab + ": value") if not c.symbolic else c.check(a == b, lab + ": value")


def shape_kept(c, got, want, CN, lab):
    """no key appeared or vanished and no setting changed its type"""
    if isinstance(want, dict):
        ok = isinstance(got, CN) and sorted(got.keys()) == sorted(want)
        c.check(ok, lab + ": keys of the node")
        if ok:
            for k in want:
                shape_kept(c, got[k], want[k], CN, lab + "." + k)
        return
    c.check(kind_of(c, got, CN) == want.kind, lab + ": type kept")


def snap(c, got, CN):
    """the tree as a tree of Val (structure copied)"""
    if isinstance(got, dict):
        return {k: snap(c, v, CN) for k, v in got.items()}
    k = kind_of(c, got, CN)
    return Val(k, tuple(got) if k == "tuple" else list(got) if k == "list" else got)


class patched_cfg:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        import gradslam.config.cfgnode as M
        self.p = self.c.patched(M, builtins=("float", "int", "bool", "isinstance", "type"))
        self.p.__enter__()
        M.logger.disabled = True
        return M

    def __exit__(self, *a):
        return self.p.__exit__(*a)


def document(c, tree):
    """the tree as a YAML document"""
    if c.symbolic:
        from symx.npshim import YSHIM
        return YSHIM.safe_dump(raw(tree))
    return yaml.safe_dump(raw(tree))


class scratch:
    def __init__(self, name, txt):
        self.name, self.txt = name, txt

    def __enter__(self):
        self.d = tempfile.TemporaryDirectory()
        p = os.path.join(self.d.name, self.name)
        with open(p, "w") as f:
            f.write(self.txt)
        return p

    def __exit__(self, *a):
        self.d.cleanup()
