"""numpy on symbolic numbers: an object-array subclass and a module proxy patched into the code under test.
Only the numpy *primitives* are replaced; the repository's own functions run unchanged."""
import ast
import contextlib
import sys

import numpy as np
import torch

from . import terms as T
from . import symtensor as ST
from .scalars import SymReal, SymBool, wrap, wrapb, _n, _b


def _isb(x):
    return isinstance(x, (SymBool, bool, np.bool_))


TOKENS = {}      # text tokens standing for symbolic numbers in files the code under test parses


def _isint(n):
    return n.isint or (n.op == "const" and not isinstance(n.val, float) and n.val.denominator == 1)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, SymReal) and not _isint(x.n))

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class sym_float(float, metaclass=_FloatMeta):
    """stands in for the builtin float inside the code under test"""
    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, str) and x.strip() in TOKENS:
            return TOKENS[x.strip()]
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymBool)) or (isinstance(x, SymReal) and _isint(x.n))

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __subclasscheck__(cls, o):
        return issubclass(o, int)


class sym_int(int, metaclass=_IntMeta):
    """stands in for the builtin int inside the code under test"""
    def __new__(cls, x=0, *a):
        if isinstance(x, SymReal):
            return wrap(T.trunc(x.n))
        if isinstance(x, SymBool):
            return wrap(T.tonum(x.n))
        return int(x, *a)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)


class sym_bool(int, metaclass=_BoolMeta):
    """stands in for the builtin bool inside the code under test"""
    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymReal):
            return wrapb(T.not_(T.eq(x.n, T.const(0))))
        return bool(x)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)


class sym_type(metaclass=_TypeMeta):
    """stands in for the builtin type (one argument) inside the code under test"""
    def __new__(cls, x, *a):
        if a:
            return type(x, *a)
        if isinstance(x, SymReal):
            return int if _isint(x.n) else float
        return bool if isinstance(x, SymBool) else type(x)


def sym_literal_eval(s):
    """ast.literal_eval where the text may hold tokens of symbolic numbers"""
    import ast
    if not isinstance(s, str) or not any(t in s for t in TOKENS):
        return ast.literal_eval(s)

    def ev(n):
        if isinstance(n, ast.Name) and n.id in TOKENS:
            return TOKENS[n.id]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)) and isinstance(n.operand, ast.Name):
            v = ev(n.operand)
            return -v if isinstance(n.op, ast.USub) else v
        if isinstance(n, (ast.Tuple, ast.List)):
            return (tuple if isinstance(n, ast.Tuple) else list)(ev(e) for e in n.elts)
        if isinstance(n, ast.Dict):
            return {ev(k): ev(v) for k, v in zip(n.keys, n.values)}
        return ast.literal_eval(n)
    return ev(ast.parse(s.lstrip(" \t"), mode="eval").body)


class SymYaml:
    """yaml whose documents may hold symbolic numbers (written as tokens)"""
    def __getattr__(self, k):
        import yaml
        return getattr(yaml, k)

    def _out(self, x):
        if isinstance(x, dict):
            return type(x)((k, self._out(v)) for k, v in x.items()) if type(x) is dict else x
        if type(x) in (list, tuple):
            return type(x)(self._out(v) for v in x)
        if isinstance(x, (SymReal, SymBool)):
            return token(x)
        return x

    def _in(self, x):
        if isinstance(x, dict):
            return {k: self._in(v) for k, v in x.items()}
        if type(x) is list:
            return [self._in(v) for v in x]
        return TOKENS.get(x, x) if isinstance(x, str) else x

    def safe_dump(self, d, *a, **k):
        import yaml
        return yaml.safe_dump(self._out(d), *a, **k)

    def safe_load(self, s):
        import yaml
        return self._in(yaml.safe_load(s))

    def dump(self, d, *a, **k):
        import yaml
        return yaml.dump(self._out(d), *a, **k)

    def load(self, s, *a, **k):
        import yaml
        return self._in(yaml.load(s, *a, **k))


def token(x):
    """text standing for a symbolic number"""
    t = "sym%s%d" % ("b" if isinstance(x, SymBool) else "", x.n.id)
    TOKENS[t] = x
    return t


def sym_isinstance(x, t):
    if isinstance(x, SymReal):
        k = int if _isint(x.n) else float
        return any(issubclass(k, u) for u in (t if isinstance(t, tuple) else (t,)) if isinstance(u, type)) or isinstance(x, t)
    if isinstance(x, SymBool):
        return any(issubclass(bool, u) for u in (t if isinstance(t, tuple) else (t,)) if isinstance(u, type)) or isinstance(x, t)
    return isinstance(x, t)


def sym_range(*a):
    if not any(isinstance(x, SymReal) for x in a):
        return range(*a)

    def gen():
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        up = bool(st > 0)
        i = lo
        while bool(i < hi) if up else bool(i > hi):
            yield i
            i = i + st
    if len(a) == 3 and bool(a[2] == 0):
        raise ValueError("range() arg 3 must not be zero")
    return gen()


BUILTINS = {"float": sym_float, "isinstance": sym_isinstance, "range": sym_range, "int": sym_int, "bool": sym_bool, "type": sym_type}


def _np_dtype(d):
    return np.dtype(float) if d is sym_float else np.dtype(d)


def _parse(x):
    """numbers of a nested list of text tokens"""
    if isinstance(x, (list, tuple)):
        return [_parse(y) for y in x]
    if isinstance(x, str):
        return sym_float(x)
    return x


class SymArr(np.ndarray):
    """object array of numbers; nominal dtype kept in .nom ('f', 'i', 'b')"""

    def __array_finalize__(self, obj):
        self.nom = getattr(obj, "nom", "f")

    def astype(self, dtype, copy=True, **k):
        if isinstance(dtype, str) and dtype == "object" or dtype is object:
            return self.copy()
        d = _np_dtype(dtype)
        o = np.empty(self.shape, dtype=object).view(SymArr)
        for ix in np.ndindex(*self.shape):
            x = np.ndarray.__getitem__(self, ix)
            if d.kind == "f":
                o[ix] = wrap(_n(x)) if not isinstance(x, SymReal) else x
            elif d.kind == "b":
                o[ix] = wrapb(_b(x))
            elif d.kind in "iu":
                v = T.trunc(_n(x))
                if d.kind == "u" and d.itemsize == 1 and v.op != "const":
                    # wraps around outside [0, 255]
                    if not wrapb(T.and_(T.le(T.const(0), v), T.le(v, T.const(255)))):
                        v = T.sub(v, T.mul(T.const(256), T.floor(T.div(v, T.const(256)))))
                o[ix] = wrap(v)
            else:
                raise ST.Unsupported("astype(%s)" % d)
        o.nom = d.kind
        return o

    def __getitem__(self, key):
        if isinstance(key, Where):
            key = key.mask
        if isinstance(key, np.ndarray) and key.dtype == object and key.size:
            if _isb(key.reshape(-1)[0]):
                key = np.array([bool(x) for x in key.reshape(-1)], dtype=bool).reshape(key.shape)
            elif any(isinstance(x, SymReal) for x in key.reshape(-1)):
                return self._take(key)
            else:
                key = key.astype(np.int64) if type(key) is np.ndarray else np.array(key.tolist(), dtype=np.int64).reshape(key.shape)
        return np.ndarray.__getitem__(self, key)

    def _take(self, key):
        """lookup along the first axis with symbolic indices"""
        n = self.shape[0]
        base = np.asarray(self, dtype=object)
        o = np.empty(key.shape + self.shape[1:], dtype=object)
        for ix in np.ndindex(*key.shape):
            k = wrap(_n(key[ix]))
            if bool((k < -n) | (k >= n)):
                raise IndexError("index out of bounds for axis 0 with size %d" % n)
            for jx in np.ndindex(*self.shape[1:]):
                r = _n(base[(n - 1,) + jx])
                for i in range(n - 1):
                    r = T.ite(_b((k == i) | (k == i - n)), _n(base[(i,) + jx]), r)
                o[ix + jx] = wrap(r)
        return arr(o, self.nom)

    def _cmp(self, other, op):
        if not isinstance(other, (np.ndarray, SymReal, int, float, np.generic)):
            return NotImplemented
        a, b = np.broadcast_arrays(np.asarray(self, dtype=object), np.asarray(other, dtype=object))
        o = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            x, y = a[ix], b[ix]
            if _isb(x) or _isb(y):
                x, y = (wrap(T.ite(_b(v), T.const(1), T.const(0))) if _isb(v) else v for v in (x, y))
            o[ix] = wrapb(_b(op(wrap(_n(x)), wrap(_n(y)))))
        return arr(o, "b")

    def __eq__(self, other):
        return self._cmp(other, lambda x, y: x == y)

    def __ne__(self, other):
        return self._cmp(other, lambda x, y: x != y)

    def __lt__(self, other):
        return self._cmp(other, lambda x, y: x < y)

    def __le__(self, other):
        return self._cmp(other, lambda x, y: x <= y)

    def __gt__(self, other):
        return self._cmp(other, lambda x, y: x > y)

    def __ge__(self, other):
        return self._cmp(other, lambda x, y: x >= y)

    __hash__ = None

    def __setitem__(self, key, val):
        if isinstance(key, Where):
            key = key.mask
        if isinstance(key, np.ndarray) and key.dtype == object and key.size and _isb(key.reshape(-1)[0]):
            for ix in np.ndindex(*key.shape):
                m = _b(key[ix])
                cur = np.ndarray.__getitem__(self, ix)
                if isinstance(cur, np.ndarray):
                    v = np.broadcast_to(np.asarray(val, dtype=object), cur.shape)
                    for jx in np.ndindex(*cur.shape):
                        np.ndarray.__setitem__(cur, jx, wrap(T.ite(m, _n(v[jx]), _n(cur[jx]))))
                else:
                    v = np.asarray(val, dtype=object)
                    assert v.ndim == 0
                    np.ndarray.__setitem__(self, ix, wrap(T.ite(m, _n(v.item()), _n(cur))))
            return
        np.ndarray.__setitem__(self, key, val)

    def any(self, axis=None, **k):
        if axis is not None:
            raise ST.Unsupported("any(axis)")
        return wrapb(T.any_([_b(x) for x in self.reshape(-1)]))

    def all(self, axis=None, **k):
        if axis is not None:
            raise ST.Unsupported("all(axis)")
        return wrapb(T.all_([_b(x) for x in self.reshape(-1)]))


class Where(tuple):
    """the result of one-argument np.where / np.nonzero on symbolic masks, good for indexing only"""
    def __new__(cls, mask):
        t = tuple.__new__(cls, (None,) * mask.ndim)
        t.mask = mask
        return t

    def __getitem__(self, i):
        raise ST.Unsupported("positions of a symbolic mask")

    def __iter__(self):
        raise ST.Unsupported("positions of a symbolic mask")


def arr(x, nom="f"):
    a = np.array(x, dtype=object)
    o = a.view(SymArr)
    o.nom = nom
    return o


def _sym(x):
    if isinstance(x, (SymArr, SymReal, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_sym(y) for y in x)
    return False


def _kind(dtype):
    return "f" if dtype is None else _np_dtype(dtype).kind


class Linalg:
    def inv(self, m):
        if not _sym(m):
            return np.linalg.inv(m)
        a = np.asarray(m, dtype=object)
        t = ST.from_nodes([_n(x) for x in a.reshape(-1)], a.shape, torch.float32)
        with ST.SymMode():
            r = torch.inverse(t)
        from .scalars import to_object_array
        return arr(to_object_array(r))

    def norm(self, m, *a, **k):
        if not _sym(m):
            return np.linalg.norm(m, *a, **k)
        if a or k:
            raise ST.Unsupported("norm with options")
        return wrap(T.sqrt(T.sum_([T.mul(_n(x), _n(x)) for x in np.asarray(m, dtype=object).reshape(-1)]))) if hasattr(T, "sum_") else sum(x * x for x in np.asarray(m, dtype=object).reshape(-1)).sqrt()

    def __getattr__(self, k):
        return getattr(np.linalg, k)


class NP:
    """stands in for the numpy module inside the code under test"""
    linalg = Linalg()
    ndarray = np.ndarray

    def __getattr__(self, k):
        return getattr(np, k)

    def zeros(self, shape, dtype=None, **k):
        return arr(np.zeros(shape), _kind(dtype))

    def ones(self, shape, dtype=None, **k):
        return arr(np.ones(shape), _kind(dtype))

    def eye(self, *a, **k):
        return arr(np.eye(*a), "f")

    def array(self, x, dtype=None, copy=True, **k):
        if dtype is not None and _np_dtype(dtype).kind in "USO":
            return np.array(x, dtype=dtype)
        if dtype is not None and isinstance(x, (list, tuple)) and _np_dtype(dtype).kind == "f":
            x = _parse(x)
        dtype = None if dtype is None else _np_dtype(dtype)
        if not _sym(x):
            r = np.array(x, dtype=dtype)
            return r if r.dtype.kind not in "fiu" else arr(r, r.dtype.kind)
        return arr(x, _kind(dtype))

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SymArr):
            return x if dtype is None or _kind(dtype) == x.nom else x.astype(dtype)
        return self.array(x, dtype)

    def arange(self, *a, **k):
        if any(isinstance(x, SymReal) for x in a):
            a = [int(x) if isinstance(x, SymReal) else x for x in a]
            return arr(np.arange(*a), "i")
        return np.arange(*a, **k)

    def loadtxt(self, f, *a, **k):
        with open(f) as g:
            rows = [_parse(l.split()) for l in g if l.strip() and not l.startswith("#")]
        return arr(rows if len(rows) > 1 else rows[0])

    def expand_dims(self, x, axis):
        r = np.expand_dims(x, axis)
        if isinstance(x, SymArr):
            r = r.view(SymArr)
            r.nom = x.nom
        return r

    def ascontiguousarray(self, x, dtype=None):
        return x if isinstance(x, SymArr) else np.ascontiguousarray(x)

    def maximum(self, a, b):
        if not (_sym(a) or _sym(b)):
            return np.maximum(a, b)
        return self._two(lambda x, y: wrap(T.ite(T.lt(_n(x), _n(y)), _n(y), _n(x))), a, b)

    def minimum(self, a, b):
        if not (_sym(a) or _sym(b)):
            return np.minimum(a, b)
        return self._two(lambda x, y: wrap(T.ite(T.lt(_n(y), _n(x)), _n(y), _n(x))), a, b)

    def _two(self, f, a, b):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        o = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            o[ix] = f(a[ix], b[ix])
        return arr(o) if o.ndim else o.item()

    def clip(self, a, lo, hi):
        return self.minimum(self.maximum(a, lo), hi)

    def sqrt(self, x):
        if not _sym(x):
            return np.sqrt(x)
        return x.sqrt() if isinstance(x, SymReal) else np.sqrt(x)

    def isnan(self, x):
        if not _sym(x):
            return np.isnan(x)
        if isinstance(x, SymReal):
            return x.isnan()
        raise ST.Unsupported("isnan of an array")

    def dot(self, a, b):
        if not (_sym(a) or _sym(b)):
            return np.dot(a, b)
        return np.dot(np.asarray(a, dtype=object), np.asarray(b, dtype=object))

    def nonzero(self, m):
        return self.where(m)

    def equal(self, a, b):
        return arr(a, "i") == b if _sym(a) or _sym(b) else np.equal(a, b)

    def where(self, m, *ab):
        if not ab and isinstance(m, SymArr) and m.dtype == object:
            return Where(m if m.nom == "b" else m != 0)
        if not ab or not (_sym(m) or any(_sym(x) for x in ab)):
            return np.where(m, *ab)
        m, a, b = np.broadcast_arrays(np.asarray(m, dtype=object), *[np.asarray(x, dtype=object) for x in ab])
        o = np.empty(m.shape, dtype=object)
        for ix in np.ndindex(*m.shape):
            o[ix] = wrap(T.ite(_b(m[ix]), _n(a[ix]), _n(b[ix])))
        return arr(o)


SHIM = NP()


def from_numpy(a, dtype=None):
    """torch.from_numpy / torch.tensor of symbolic arrays"""
    if isinstance(a, SymArr) or (isinstance(a, np.ndarray) and a.dtype == object):
        nom = getattr(a, "nom", "f")
        ns = [(_b if nom == "b" else _n)(x) for x in a.reshape(-1)]
        dt = dtype or {"f": torch.float32, "b": torch.bool}.get(nom, torch.int64)
        return ST.from_nodes(ns, a.shape, dt)
    return None


def _holds(x):
    if isinstance(x, ST.SymTensor) or _sym(x):
        return True
    return isinstance(x, (list, tuple)) and any(_holds(y) for y in x)


def _from_nested(x, dtype):
    """torch.tensor of nested lists with symbolic numbers or one-element tensors in them"""
    ts = []
    for y in x:
        if isinstance(y, (list, tuple)):
            ts.append(_from_nested(y, dtype))
        elif isinstance(y, np.ndarray):
            ts.append(from_numpy(arr(y), dtype) if _sym(y) else torch.tensor(y))
        elif isinstance(y, torch.Tensor):
            if y.numel() != 1:
                raise ValueError("only one element tensors can be converted to Python scalars")
            ts.append(y.detach().reshape(()))
        elif _sym(y):
            ts.append(ST.scalar_tensor(y))
        else:
            ts.append(torch.tensor(y))
    dt = dtype
    if dt is None:
        dt = ts[0].dtype
        for t in ts[1:]:
            dt = torch.promote_types(dt, t.dtype)
    if not ts:
        return torch.tensor([], dtype=dt)
    return torch.stack([t.to(dt) for t in ts])


class TorchShim:
    def __getattr__(self, k):
        return getattr(torch, k)

    def from_numpy(self, a):
        r = from_numpy(a)
        return torch.from_numpy(a) if r is None else r

    def tensor(self, x, *a, **k):
        if isinstance(x, ST.SymTensor):
            r = x.detach().clone()
            return r if k.get("dtype") is None else r.to(k["dtype"])
        if _holds(x):
            r = _from_nested(x, k.get("dtype")) if isinstance(x, (list, tuple)) else from_numpy(arr(x) if not isinstance(x, np.ndarray) else x, k.get("dtype"))
            if r is not None:
                return r.requires_grad_(True) if k.get("requires_grad") else r
        return torch.tensor(x, *a, **k)

    def FloatTensor(self, *x):
        return self.tensor(x[0], dtype=torch.float32) if len(x) == 1 and _holds(x[0]) else torch.FloatTensor(*x)

    def as_tensor(self, x, *a, **k):
        if isinstance(x, ST.SymTensor):
            return x if k.get("dtype") is None else x.to(k["dtype"])
        return self.tensor(x, *a, **k) if _holds(x) else torch.as_tensor(x, *a, **k)


TSHIM = TorchShim()
YSHIM = SymYaml()


@contextlib.contextmanager
def patched(*modules, builtins=()):
    saved, added = [], []
    try:
        for m in modules:
            for b in builtins:
                if b not in vars(m):
                    setattr(m, b, BUILTINS[b])
                    added.append((m, b))
            for name, shim, real in (("np", SHIM, np), ("torch", TSHIM, torch), ("yaml", YSHIM, sys.modules.get("yaml")), ("literal_eval", sym_literal_eval, ast.literal_eval)):
                if real is None:
                    continue
                if getattr(m, name, None) is real:
                    saved.append((m, name, real))
                    setattr(m, name, shim)
        yield
    finally:
        for m, name, real in saved:
            setattr(m, name, real)
        for m, b in added:
            delattr(m, b)
