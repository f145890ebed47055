"""Symbolic torch tensors.

SymTensor is a wrapper subclass around an int64 tensor of term ids.  Data movement ops run on
the id tensor with real torch (views, aliasing and in-place writes behave exactly like torch);
arithmetic ops build terms.  Shapes and dtypes come from running the real op on meta tensors.
"""
import math
from fractions import Fraction

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map, tree_flatten

from . import terms as T

aten = torch.ops.aten


class Unsupported(Exception):
    """operation outside the encoder"""


PATH = [None]        # current path object (engine.Path) used for forking


def path():
    if PATH[0] is None:
        raise Unsupported("branch on a symbolic value outside of a path")
    return PATH[0]


# ---------------------------------------------------------------- wrapper
class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, ids, dtype, requires_grad=False):
        r = torch.Tensor._make_wrapper_subclass(
            cls, ids.shape, strides=ids.stride(), storage_offset=ids.storage_offset(),
            dtype=dtype, device=torch.device("cpu"), requires_grad=requires_grad, layout=torch.strided)
        r.ids = ids
        return r

    def __repr__(self, *a, **k):
        return "Sym(%s,%s)" % (tuple(self.shape), self.dtype)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        with torch.no_grad():
            r = self.detach().clone()
        r.requires_grad_(self.requires_grad)
        memo[id(self)] = r
        return r

    def __array__(self, dtype=None, copy=None):
        return _numpy(self)

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        h = FUNC_OVERRIDES.get(func)
        if h is not None:
            return h(*args, **kwargs)
        return super().__torch_function__(func, types, args, kwargs)

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def scalar_tensor(x):
    """0-dim tensor standing for a symbolic python number (same type promotion as the number)"""
    from .scalars import SymReal, SymBool
    if isinstance(x, SymBool):
        return from_nodes([T.tobool(x.n)], (), torch.bool)
    if isinstance(x, SymReal):
        isint = x.n.isint or (x.n.op == "const" and not isinstance(x.n.val, float) and x.n.val.denominator == 1)
        return from_nodes([x.n], (), torch.int64 if isint else torch.float32)
    return x


def _with_numbers(name):
    base = getattr(torch.Tensor, name)

    def g(self, other, *a, **k):
        return base(self, scalar_tensor(other), *a, **k)
    g.__name__ = name
    return g


for _name in ("add", "sub", "mul", "truediv", "pow", "floordiv", "mod"):
    for _pre in ("__", "__r", "__i"):
        if hasattr(torch.Tensor, _pre + _name + "__"):
            setattr(SymTensor, _pre + _name + "__", _with_numbers(_pre + _name + "__"))
for _name in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__", "mul", "mul_", "add", "add_", "sub", "sub_", "div", "div_", "pow", "lt", "le", "gt", "ge", "eq", "ne"):
    setattr(SymTensor, _name, _with_numbers(_name))
SymTensor.__hash__ = torch.Tensor.__hash__


def _item(t):
    if t.numel() != 1:
        raise RuntimeError("a Tensor with %d elements cannot be converted to Scalar" % t.numel())
    n = T.NODES[_id0(t)]
    return scalar_of(n, t.dtype)


def scalar_of(n, dtype):
    """python scalar for a node: concretised (by forking) unless it is a symbolic real, in
    which case a symbolic python number is handed out."""
    if n.op == "const":
        return pyval(n, dtype)
    if dtype == torch.bool:
        return path().decide(T.tobool(n))
    if not dtype.is_floating_point:
        return int(path().concretize(n))
    from .scalars import SymReal
    return SymReal(n)


def pyval(n, dtype):
    if dtype == torch.bool:
        return bool(n.val if n.isb else n.val != 0)
    v = (1 if n.val else 0) if n.isb else n.val
    if dtype.is_floating_point:
        return float(v)
    return int(v)


def _bool(t):
    if t.numel() != 1:
        raise RuntimeError("Boolean value of Tensor with %s is ambiguous" %
                           ("more than one value" if t.numel() > 1 else "no values"))
    n = T.tobool(T.NODES[_id0(t)])
    return path().decide(n)


def _tolist(t):
    shape = tuple(t.shape)
    flat = iter(_idlist(t))

    def rec(d):
        if d == len(shape):
            return scalar_of(T.NODES[next(flat)], t.dtype)
        return [rec(d + 1) for _ in range(shape[d])]
    return rec(0)


def _id0(t):
    i = plain_ids(t)
    with _nomode():
        return i.reshape(-1)[0].item()


def _idlist(t):
    i = plain_ids(t)
    with _nomode():
        return i.reshape(-1).tolist()


def plain_ids(t):
    if isinstance(t, SymTensor):
        return t.ids
    return lift(t).ids


def _numpy(t, *a, **k):
    from .scalars import to_object_array
    from .npshim import arr
    return arr(to_object_array(t), "b" if t.dtype == torch.bool else "f" if t.dtype.is_floating_point else "i")


FUNC_OVERRIDES = {
    torch.Tensor.item: _item,
    torch.Tensor.__bool__: _bool,
    torch.Tensor.__float__: lambda t: _item(t),
    torch.Tensor.__int__: lambda t: _item_int(t),
    torch.Tensor.__index__: lambda t: _item_int(t),
    torch.Tensor.tolist: _tolist,
    torch.Tensor.numpy: _numpy,
    torch.Tensor.__repr__: lambda t, *a, **k: "Sym(%s)" % (tuple(t.shape),),
}


def _item_int(t):
    n = T.NODES[_id0(t)]
    if t.dtype.is_floating_point:
        n = T.trunc(n)
    if n.isb:
        n = T.tonum(n)
    if n.op == "const":
        return int(n.val)
    return int(path().concretize(n))


# ---------------------------------------------------------------- lifting
def _const_ids(t):
    """plain tensor -> ids"""
    t = t.detach()
    if t.dtype == torch.bool:
        return torch.where(t, T.TRUE.id, T.FALSE.id) if t.numel() else torch.zeros(t.shape, dtype=torch.int64)
    if t.dtype in (torch.float32, torch.float16, torch.bfloat16):
        arr = t.float().contiguous().numpy().reshape(-1)
        vals = [T.const(np.float32(x)).id for x in arr]
    elif t.dtype == torch.float64:
        vals = [T.const(float(x)).id for x in t.contiguous().numpy().reshape(-1)]
    elif t.dtype.is_complex:
        raise Unsupported("complex")
    else:
        vals = [T.const(int(x)).id for x in t.contiguous().numpy().reshape(-1)]
    return torch.tensor(vals, dtype=torch.int64).reshape(t.shape)


class _nomode:
    def __enter__(self):
        self.g = torch._C._DisableTorchDispatch()
        return self

    def __exit__(self, *a):
        del self.g


def lift(t):
    if isinstance(t, SymTensor):
        return t
    with _nomode():
        ids = _const_ids(t)
    return SymTensor(ids, t.dtype)


def mk(ids, dtype):
    return SymTensor(ids, dtype)


def nodes(t):
    """flat list of nodes (row-major)"""
    return [T.NODES[i] for i in _idlist(t)]


def from_nodes(ns, shape, dtype):
    with _nomode():
        ids = torch.tensor([n.id for n in ns], dtype=torch.int64).reshape(shape)
        return SymTensor(ids, dtype)


def all_const(ts):
    for t in ts:
        if isinstance(t, SymTensor):
            for i in t.ids.reshape(-1).tolist():
                if T.NODES[i].op != "const":
                    return False
    return True


def concrete(t):
    """constant SymTensor -> plain tensor"""
    if not isinstance(t, SymTensor):
        return t
    vals = [pyval(T.NODES[i], t.dtype) for i in t.ids.reshape(-1).tolist()]
    return torch.tensor(vals, dtype=t.dtype).reshape(t.shape)


def force_concrete(t):
    """concretise by forking (ints / bools)"""
    if not isinstance(t, SymTensor):
        return t
    vals = []
    for i in t.ids.reshape(-1).tolist():
        n = T.NODES[i]
        if n.op != "const":
            if t.dtype == torch.bool:
                n = T.TRUE if path().decide(T.tobool(n)) else T.FALSE
            else:
                n = T.const(path().concretize(T.tonum(n)))
        vals.append(pyval(n, t.dtype))
    return torch.tensor(vals, dtype=t.dtype).reshape(t.shape)


# ---------------------------------------------------------------- dispatch
IMPL = {}
MOVE = set()


def impl(*names):
    def deco(f):
        for nm in names:
            IMPL[nm] = f
        return f
    return deco


def meta(func, args, kwargs):
    """run func on meta tensors for result shapes/dtypes (raises what torch would raise)"""
    def m(x):
        if isinstance(x, torch.Tensor):
            return torch.empty_strided(x.shape, x.stride(), dtype=x.dtype, device="meta")
        return unsym(x)
    kw = {k: v for k, v in tree_map(m, kwargs).items()}
    if "device" in kw:
        kw["device"] = torch.device("meta")
    return func(*tree_map(m, args), **kw)


def unsym(x):
    from .scalars import SymReal
    if isinstance(x, SymReal):
        return 1.5
    return x


def dispatch(func, args, kwargs):
    with _nomode():
        return _dispatch(func, args, kwargs)


SEEN_OPS = {}


def _dispatch(func, args, kwargs):
    name = func.__name__ if hasattr(func, "__name__") else str(func)
    pkt = func.overloadpacket.__name__ if hasattr(func, "overloadpacket") else name
    SEEN_OPS[pkt] = SEEN_OPS.get(pkt, 0) + 1
    full = str(func)
    if "out" in kwargs and func._overloadname.endswith("out"):
        kw = dict(kwargs)
        dst = kw.pop("out")
        ov = func._overloadname[:-3].rstrip("_")
        f2 = getattr(func.overloadpacket, ov, None) if ov else None
        if f2 is None:
            f2 = next((getattr(func.overloadpacket, o) for o in ("Tensor", "self", "default", "dim") if o in func.overloadpacket.overloads()), None)
        if f2 is None:
            raise Unsupported("aten op %s" % full)
        r = _dispatch(f2, args, kw)
        if isinstance(dst, SymTensor) and tuple(dst.shape) != tuple(r.shape):
            raise Unsupported("resizing out= argument")
        return _copy_into(dst, r)
    h = IMPL.get(full) or IMPL.get(pkt)
    if h is not None:
        return h(func, args, kwargs)
    # ops with only constant tensor arguments: run for real
    flat, _ = tree_flatten((args, kwargs))
    tens = [x for x in flat if isinstance(x, torch.Tensor)]
    mutates = func._schema.is_mutable if hasattr(func, "_schema") else False
    if not mutates and all_const(tens):
        cargs, ckw = tree_map(concrete, (args, kwargs))
        out = func(*cargs, **ckw)
        return tree_map(lambda x: lift(x) if isinstance(x, torch.Tensor) else x, out)
    # inplace variant -> functional + copy
    if pkt.endswith("_") and not pkt.endswith("__") and mutates:
        base = pkt[:-1]
        op = getattr(aten, base, None)
        if op is not None:
            ov = func._overloadname
            f2 = getattr(op, ov, None) or getattr(op, "default", None)
            if f2 is not None:
                out = _dispatch(f2, args, {k: v for k, v in kwargs.items()})
                return _copy_into(args[0], out)
    if "out" in kwargs:
        kw = dict(kwargs)
        dst = kw.pop("out")
        f2 = getattr(func.overloadpacket, "default")
        return _copy_into(dst, _dispatch(f2, args, kw))
    # decompositions: the C++ composite kernel if there is one, else the python table
    why = ""
    if torch._C._dispatch_has_kernel_for_dispatch_key(func.name(), "CompositeImplicitAutograd"):
        try:
            with Reenter():
                return func.decompose(*args, **kwargs)
        except Unsupported as e:
            why = str(e)
    from torch._decomp import decomposition_table
    d = decomposition_table.get(func)
    if d is not None:
        with Reenter():
            return d(*args, **kwargs)
    raise Unsupported("aten op %s%s" % (full, " (%s)" % why if why else ""))


class SymMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


class Reenter:
    """inside a handler (torch dispatch is off there): torch functions reach the handlers again"""

    def __enter__(self):
        C = torch._C
        ex = C._dispatch_tls_local_exclude_set()
        for k in ("Python", "PythonTLSSnapshot"):
            ex = ex.remove(getattr(C.DispatchKey, k))
        for k in ("AutogradFunctionality", "ADInplaceOrView"):
            if hasattr(C.DispatchKey, k):
                ex = ex.add(getattr(C.DispatchKey, k))
        self.g = C._ForceDispatchKeyGuard(C._dispatch_tls_local_include_set(), ex)
        self.g.__enter__()
        self.m = SymMode()
        self.m.__enter__()

    def __exit__(self, *a):
        self.m.__exit__(*a)
        self.g.__exit__(*a)


# ---------------------------------------------------------------- data movement
def I(x):
    """ids of tensor arg (lifting constants)"""
    if isinstance(x, SymTensor):
        return x.ids
    if isinstance(x, torch.Tensor):
        return lift(x).ids
    return x


def _move(func, args, kwargs):
    src = next(a for a in tree_flatten(args)[0] if isinstance(a, torch.Tensor))
    out = func(*tree_map(I, args), **tree_map(I, kwargs))
    return tree_map(lambda o: mk(o, src.dtype) if isinstance(o, torch.Tensor) else o, out)


for _n in """view _unsafe_view reshape expand permute transpose t select slice unsqueeze squeeze split
split_with_sizes unbind alias as_strided diagonal repeat flip roll movedim
view_as narrow unfold _reshape_alias swapaxes tile repeat_interleave rot90 chunk tensor_split
expand_as squeeze_copy resize_""".split():
    IMPL[_n] = _move


@impl("detach", "lift_fresh", "lift")
def _detach(func, args, kwargs):
    x = args[0]
    if isinstance(x, SymTensor):
        return mk(x.ids.view(x.ids.shape) if x.ids.is_contiguous() else x.ids.as_strided(x.ids.shape, x.ids.stride(), x.ids.storage_offset()), x.dtype)
    return lift(x)


@impl("_to_copy")
def _to_copy(func, args, kwargs):
    x = args[0]
    dt = kwargs.get("dtype") or x.dtype
    return cast(x, dt, copy=True)


def cast(x, dt, copy=False):
    ids = I(x)
    if dt == x.dtype:
        return mk(ids.clone(), dt)
    src = x.dtype
    if dt == torch.bool:
        f = T.tobool
    elif src == torch.bool:
        f = T.tonum
    elif src.is_floating_point and not dt.is_floating_point:
        f = T.trunc
        if dt == torch.uint8:
            pass
    elif dt == torch.float32 and not src.is_floating_point:
        f = float32_of_int
    else:
        return mk(ids.clone(), dt)
    return map1(f, x, dt)


def float32_of_int(n):
    """whole numbers above 2^24 do not survive single precision (symbolic ones are taken to be below: an assumption of every check)"""
    if n.op == "const" and isinstance(n.val, Fraction) and abs(n.val) > 2 ** 24:
        return T.const(Fraction(float(torch.tensor(int(n.val)).to(torch.float32).item())))
    return n


def map1(f, x, dt):
    ids = I(x)
    flat = ids.reshape(-1).tolist()
    memo = {}
    out = []
    for i in flat:
        r = memo.get(i)
        if r is None:
            r = f(T.NODES[i]).id
            memo[i] = r
        out.append(r)
    o = torch.tensor(out, dtype=torch.int64).reshape(ids.shape)
    return mk(o, dt)


@impl("clone")
def _clone(func, args, kwargs):
    return mk(func(I(args[0]), **kwargs), args[0].dtype)


@impl("contiguous")
def _contig(func, args, kwargs):
    return mk(I(args[0]).contiguous(), args[0].dtype)


@impl("cat", "concat")
def _cat(func, args, kwargs):
    ts = args[0]
    m = meta(func, args, kwargs)
    ts = [cast(t, m.dtype) if t.dtype != m.dtype else t for t in ts]
    return mk(func([I(t) for t in ts], *args[1:], **kwargs), m.dtype)


@impl("stack")
def _stack(func, args, kwargs):
    return _cat(func, args, kwargs)


def _zero_id(dt):
    return T.FALSE.id if dt == torch.bool else T.ZERO.id


def scalar_node(v, dt=None):
    from .scalars import SymReal
    if isinstance(v, SymReal):
        return v.n
    if isinstance(v, SymTensor):
        return nodes(v)[0]
    if isinstance(v, torch.Tensor):
        return nodes(lift(v))[0]
    n = T.const(v)
    if dt == torch.bool:
        return T.tobool(n)
    if n.isb:
        n = T.tonum(n)
    if dt is not None and not dt.is_floating_point and not n.isb and n.op == "const" and not isinstance(n.val, float):
        n = T.const(int(n.val))
    return n


@impl("constant_pad_nd")
def _pad(func, args, kwargs):
    x, pad = args[0], args[1]
    v = args[2] if len(args) > 2 else kwargs.get("value", 0)
    return mk(func(I(x), pad, scalar_node(v, x.dtype).id), x.dtype)


@impl("replication_pad1d", "replication_pad2d", "replication_pad3d", "reflection_pad2d", "reflection_pad1d", "reflection_pad3d")
def _pad_idx(func, args, kwargs):
    x = args[0]
    ids = I(x)
    pos = torch.arange(ids.numel(), dtype=torch.float64).reshape(ids.shape)
    o = func(pos, *args[1:], **kwargs).long()
    return mk(ids.reshape(-1)[o], x.dtype)


@impl("tril", "triu")
def _tri(func, args, kwargs):
    x = args[0]
    m = func(torch.ones(x.shape, dtype=torch.bool), *args[1:], **kwargs)
    return mk(torch.where(m, I(x), _zero_id(x.dtype)), x.dtype)


# ---- factories
@impl("zeros_like", "ones_like", "full_like", "empty_like", "rand_like", "new_zeros", "new_ones", "new_full", "new_empty",
      "new_empty_strided")
def _like(func, args, kwargs):
    pkt = func.overloadpacket.__name__
    kw = dict(kwargs)
    x = args[0]
    dt = kw.get("dtype") or x.dtype
    pkt0 = pkt
    if pkt.startswith("new_"):
        size = tuple(args[1])
    else:
        size = tuple(x.shape)
    if "full" in pkt:
        fill = args[2] if pkt == "new_full" else args[1]
        nid = scalar_node(fill, dt).id
    elif "ones" in pkt:
        nid = T.TRUE.id if dt == torch.bool else T.ONE.id
    elif "empty" in pkt:
        nid = _zero_id(dt)     # uninitialised memory modelled as fresh below
        if pkt in ("new_empty", "empty_like"):
            return _uninit(size, dt)
    else:
        nid = _zero_id(dt)
    if pkt0 == "new_empty_strided":
        ids = torch.empty_strided(size, args[2], dtype=torch.int64)
        ids.fill_(_zero_id(dt))
        return mk(ids, dt)
    ids = torch.full(size, nid, dtype=torch.int64)
    if not pkt.startswith("new_"):
        try:
            ids = torch.empty_like(I(x)).fill_(nid)
        except Exception:
            pass
    return mk(ids, dt)


_FRESH = [0]


def _uninit(size, dt):
    """uninitialised memory = arbitrary values"""
    n = int(np.prod(size)) if len(size) else 1
    ns = []
    for _ in range(n):
        _FRESH[0] += 1
        ns.append(T.var("uninit!%d" % _FRESH[0], "B" if dt == torch.bool else ("R" if dt.is_floating_point else "I")))
    return from_nodes(ns, tuple(size), dt)


@impl("empty", "empty_strided")
def _empty(func, args, kwargs):
    dt = kwargs.get("dtype") or torch.get_default_dtype()
    return _uninit(tuple(args[0]), dt)


@impl("zeros", "ones", "full", "eye", "arange", "linspace", "scalar_tensor", "tensor", "tril_indices", "triu_indices")
def _factory(func, args, kwargs):
    from .scalars import SymReal
    flat = tree_flatten((args, kwargs))[0]
    if any(isinstance(x, SymReal) for x in flat):
        pkt = func.overloadpacket.__name__
        dt = kwargs.get("dtype") or torch.get_default_dtype()
        if pkt == "full":
            return mk(torch.full(tuple(args[0]), args[1].n.id, dtype=torch.int64), dt)
        if pkt == "scalar_tensor":
            return mk(torch.tensor(args[0].n.id), dt)
        raise Unsupported("factory with symbolic scalar %s" % pkt)
    if any(isinstance(x, SymTensor) for x in flat):
        args, kwargs = tree_map(concrete, (args, kwargs))
    kw = dict(kwargs)
    kw.pop("pin_memory", None)
    return lift(func(*args, **kw))


@impl("rand", "randn", "randint", "randperm", "normal", "bernoulli")
def _random(func, args, kwargs):
    pkt = func.overloadpacket.__name__
    if pkt in ("randperm", "randint"):
        return lift(func(*args, **kwargs))
    o = func(*args, **kwargs)
    return _uninit(tuple(o.shape), o.dtype)


# ---- in-place writes
def _copy_into(dst, src):
    if not isinstance(dst, SymTensor):
        raise Unsupported("in-place write of symbolic data into a plain tensor created outside the symbolic mode")
    s = lift(src)
    if s.dtype != dst.dtype:
        s = cast(s, dst.dtype)
    dst.ids.copy_(s.ids)
    return dst


@impl("copy_")
def _copy_(func, args, kwargs):
    return _copy_into(args[0], args[1])


@impl("copy")
def _copy(func, args, kwargs):
    s = lift(args[1])
    if s.dtype != args[0].dtype:
        s = cast(s, args[0].dtype)
    return mk(s.ids.expand(args[0].shape).clone(), args[0].dtype)


@impl("fill_")
def _fill_(func, args, kwargs):
    args[0].ids.fill_(scalar_node(args[1], args[0].dtype).id)
    return args[0]


@impl("fill")
def _fill(func, args, kwargs):
    return mk(torch.full_like(I(args[0]), scalar_node(args[1], args[0].dtype).id), args[0].dtype)


@impl("zero_")
def _zero_(func, args, kwargs):
    args[0].ids.fill_(_zero_id(args[0].dtype))
    return args[0]


@impl("detach_")
def _detach_(func, args, kwargs):
    return args[0]


for _n in ("unsqueeze_", "squeeze_", "transpose_", "t_", "swapaxes_", "swapdims_"):
    def _f(func, args, kwargs):
        x = args[0]
        if not isinstance(x, SymTensor):
            raise Unsupported("metadata in-place op")
        base = getattr(aten, func.overloadpacket.__name__[:-1])
        x.ids = base(x.ids, *args[1:], **kwargs)
        func(x, *args[1:], **kwargs)        # sizes and strides of the wrapper itself
        return x
    IMPL[_n] = _f


# ---- indexing
def _cidx(ix):
    """index tensors -> plain concrete tensors (bool masks are forked on)"""
    return [None if i is None else force_concrete(i) for i in ix]


@impl("index")
def _index(func, args, kwargs):
    x, ix = args
    if not isinstance(x, SymTensor):        # rows of a constant tensor: lift those only
        return lift(func(x, _cidx(ix)))
    return mk(func(I(x), _cidx(ix)), x.dtype)


@impl("index_put", "index_put_", "_index_put_impl_", "_unsafe_index_put")
def _index_put(func, args, kwargs):
    pkt = func.overloadpacket.__name__
    x, ix, v = args[:3]
    acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
    if x.dtype != v.dtype:
        raise RuntimeError("Index put requires the source and destination dtypes match, got %s for the "
                           "destination and %s for the source." % (x.dtype, v.dtype))
    ixc = _cidx(ix)
    if not isinstance(x, SymTensor):
        raise Unsupported("index_put_ on plain tensor")
    inplace = pkt.endswith("_")
    ids = x.ids if inplace else x.ids.clone()
    if not acc:
        torch.ops.aten.index_put_(ids, ixc, I(v))
    else:
        pos = torch.arange(ids.numel()).reshape(ids.shape)
        p = torch.ops.aten.index(pos, ixc)
        vv = I(v).expand(p.shape).reshape(-1).tolist()
        flat = ids.reshape(-1).clone()
        for q, w in zip(p.reshape(-1).tolist(), vv):
            flat[q] = T.add(T.NODES[int(flat[q])], T.NODES[w]).id
        ids.copy_(flat.reshape(ids.shape))
    return x if inplace else mk(ids, x.dtype)


@impl("index_select", "gather", "take_along_dim", "take", "embedding")
def _gather(func, args, kwargs):
    x = args[0]
    rest = [force_concrete(a) if isinstance(a, torch.Tensor) else a for a in args[1:]]
    return mk(func(I(x), *rest, **kwargs), x.dtype)


@impl("scatter", "scatter_", "index_copy", "index_copy_", "index_fill_", "index_fill")
def _scatter(func, args, kwargs):
    pkt = func.overloadpacket.__name__
    if kwargs:
        raise Unsupported("scatter with reduce")
    x, dim, idx, src = args[:4]
    idx = force_concrete(idx)
    s = I(src) if isinstance(src, torch.Tensor) else scalar_node(src, x.dtype).id
    if pkt.endswith("_"):
        func(x.ids, dim, idx, s)
        return x
    return mk(func(I(x), dim, idx, s), x.dtype)


@impl("scatter_add", "scatter_add_", "index_add", "index_add_")
def _scatter_add(func, args, kwargs):
    pkt = func.overloadpacket.__name__
    x, dim, idx, src = args[:4]
    idx = force_concrete(idx)
    pos = torch.arange(I(x).numel()).reshape(I(x).shape)
    s = I(src)
    if "scatter" in pkt:
        p = torch.gather(pos, dim, idx)
        s = s[tuple(slice(0, k) for k in idx.shape)]
    else:
        p = torch.index_select(pos, dim, idx)
        if kwargs.get("alpha", 1) != 1:
            raise Unsupported("index_add alpha")
    flat = I(x).reshape(-1).clone()
    for q, w in zip(p.reshape(-1).tolist(), s.reshape(-1).tolist()):
        flat[q] = T.add(T.NODES[int(flat[q])], T.NODES[w]).id
    out = flat.reshape(I(x).shape)
    if pkt.endswith("_"):
        x.ids.copy_(out)
        return x
    return mk(out, x.dtype)


@impl("scatter_reduce", "scatter_reduce_", "index_reduce_")
def _scatter_reduce(func, args, kwargs):
    pkt = func.overloadpacket.__name__
    x, dim, idx, src, red = args[:5]
    inc = args[5] if len(args) > 5 else kwargs.get("include_self", True)
    idx = force_concrete(idx)
    pos = torch.arange(I(x).numel()).reshape(I(x).shape)
    p = torch.gather(pos, dim, idx)
    s = I(src)[tuple(slice(0, k) for k in idx.shape)]
    flat = I(x).reshape(-1).clone()
    groups = {}
    for q, w in zip(p.reshape(-1).tolist(), s.reshape(-1).tolist()):
        groups.setdefault(q, []).append(T.NODES[w])
    f = {"amin": T.min_, "amax": T.max_, "sum": T.add, "mean": T.add, "prod": T.mul}[red]
    for q, ws in groups.items():
        if inc:
            ws = [T.NODES[int(flat[q])]] + ws
        r = ws[0]
        for w in ws[1:]:
            r = f(r, w)
        if red == "mean":
            r = T.div(r, T.const(len(ws)))
        flat[q] = r.id
    out = flat.reshape(I(x).shape)
    if pkt.endswith("_"):
        x.ids.copy_(out)
        return x
    return mk(out, x.dtype)


@impl("masked_select")
def _masked_select(func, args, kwargs):
    return mk(func(I(args[0]), force_concrete(args[1])), args[0].dtype)


@impl("nonzero")
def _nonzero(func, args, kwargs):
    x = args[0]
    if x.dtype != torch.bool:
        x = cast(x, torch.bool)
    return lift(torch.nonzero(force_concrete(x)))


@impl("masked_fill", "masked_fill_")
def _masked_fill(func, args, kwargs):
    x, m, v = args
    vn = scalar_node(v, x.dtype)
    vid = torch.full((), vn.id, dtype=torch.int64)
    o = _where3(m, mk(vid, x.dtype), x, x.dtype)
    if func.overloadpacket.__name__.endswith("_"):
        return _copy_into(x, o)
    return o


@impl("masked_scatter", "masked_scatter_")
def _masked_scatter(func, args, kwargs):
    x, m, v = args
    m = force_concrete(m)
    o = torch.masked_scatter(I(x), m, I(v))
    if func.overloadpacket.__name__.endswith("_"):
        x.ids.copy_(o)
        return x
    return mk(o, x.dtype)


# ---------------------------------------------------------------- pointwise
def bcast(*ts):
    idl = []
    for t in ts:
        if isinstance(t, torch.Tensor):
            idl.append(I(t))
        else:
            idl.append(torch.tensor(scalar_node(t).id))
    return torch.broadcast_tensors(*idl)


def pointwise(f, ts, dt):
    bs = bcast(*ts)
    lists = [b.reshape(-1).tolist() for b in bs]
    memo = {}
    out = []
    for tup in zip(*lists):
        r = memo.get(tup)
        if r is None:
            r = f(*[T.NODES[i] for i in tup]).id
            memo[tup] = r
        out.append(r)
    return mk(torch.tensor(out, dtype=torch.int64).reshape(bs[0].shape), dt)


def _num(f):
    return lambda *a: f(*[T.tonum(x) for x in a])


def _pw(f, func, args, kwargs, ts=None):
    m = meta(func, args, kwargs)
    dt = m.dtype
    res = pointwise(f, ts if ts is not None else args, dt)
    return res


def _is_inplace(func):
    n = func.overloadpacket.__name__
    return n.endswith("_") and not n.endswith("__")


def reg_pw(names, f):
    def h(func, args, kwargs):
        if "out" in kwargs:
            kw = dict(kwargs)
            dst = kw.pop("out")
            r = pointwise(f, args, dst.dtype)
            return _copy_into(dst, r)
        if _is_inplace(func):
            meta(func, args, kwargs)
            r = pointwise(f, args, args[0].dtype)
            if tuple(r.shape) != tuple(args[0].shape):
                raise RuntimeError("output with shape %s doesn't match the broadcast shape %s" % (list(args[0].shape), list(r.shape)))
            return _copy_into(args[0], r)
        return _pw(f, func, args, kwargs)
    for n in names.split():
        IMPL[n] = h
        IMPL[n + "_"] = h


def _alpha(f):
    def h(func, args, kwargs):
        al = kwargs.get("alpha", 1)
        if len(args) > 2:
            al = args[2]
        an = scalar_node(al)
        a, b = args[0], args[1]
        g = (lambda x, y: f(T.tonum(x), T.mul(an, T.tonum(y)))) if an is not T.ONE else _num(f)
        if _is_inplace(func):
            meta(func, args, kwargs)
            r = pointwise(g, (a, b), a.dtype)
            if tuple(r.shape) != tuple(a.shape):
                raise RuntimeError("output with shape %s doesn't match the broadcast shape %s" % (list(a.shape), list(r.shape)))
            return _copy_into(a, r)
        m = meta(func, args, kwargs)
        if m.dtype == torch.bool:
            return pointwise(lambda x, y: T.or_(T.tobool(x), T.tobool(y)), (a, b), torch.bool)
        return pointwise(g, (a, b), m.dtype)
    return h


for _n in ("add", "add_"):
    IMPL[_n] = _alpha(T.add)
for _n in ("sub", "sub_", "subtract"):
    IMPL[_n] = _alpha(T.sub)
IMPL["rsub"] = _alpha(lambda a, b: T.sub(b, a))


@impl("mul", "mul_", "multiply")
def _mul(func, args, kwargs):
    a, b = args[:2]
    m = meta(func, args, kwargs)
    if m.dtype == torch.bool:
        r = pointwise(lambda x, y: T.and_(T.tobool(x), T.tobool(y)), (a, b), torch.bool)
    else:
        r = pointwise(_num(T.mul), (a, b), m.dtype)
    if _is_inplace(func):
        return _copy_into(a, r)
    return r


@impl("div", "div_", "divide", "true_divide", "true_divide_")
def _div(func, args, kwargs):
    a, b = args[:2]
    rm = kwargs.get("rounding_mode")
    m = meta(func, args, kwargs)
    f = T.div
    if rm == "floor":
        f = lambda x, y: T.floor(T.div(x, y))
    elif rm == "trunc":
        f = lambda x, y: T.trunc(T.div(x, y))
    r = pointwise(_num(f), (a, b), m.dtype)
    if _is_inplace(func):
        return _copy_into(a, r)
    return r


reg_pw("floor_divide", _num(lambda x, y: T.floor(T.div(x, y))))
reg_pw("remainder", _num(T.fmod_floor))
reg_pw("neg negative", _num(T.neg))
reg_pw("abs absolute", _num(T.abs_))
reg_pw("reciprocal", _num(lambda a: T.div(T.ONE, a)))
reg_pw("square", _num(lambda a: T.mul(a, a)))
reg_pw("sqrt", _num(T.sqrt))
reg_pw("rsqrt", _num(lambda a: T.div(T.ONE, T.sqrt(a))))
reg_pw("exp", _num(T.exp))
reg_pw("expm1", _num(lambda a: T.sub(T.exp(a), T.ONE)))
reg_pw("log", _num(T.log))
reg_pw("log10", _num(T.log10))
reg_pw("log1p", _num(lambda a: T.log(T.add(T.ONE, a))))
reg_pw("sin", _num(T.sin))
reg_pw("cos", _num(T.cos))
reg_pw("tan", _num(lambda a: T.div(T.sin(a), T.cos(a))))
reg_pw("tanh", _num(T.tanh))
reg_pw("sigmoid", _num(lambda a: T.div(T.ONE, T.add(T.ONE, T.exp(T.neg(a))))))
reg_pw("acos arccos", _num(T.acos))
reg_pw("asin arcsin", _num(T.asin))
reg_pw("atan arctan", _num(T.atan))
reg_pw("atan2 arctan2", _num(T.atan2))
reg_pw("floor", _num(T.floor))
reg_pw("ceil", _num(T.ceil))
reg_pw("round", _num(T.round_))
reg_pw("trunc", _num(T.trunc))
reg_pw("sign sgn", _num(T.sign))
reg_pw("relu", _num(lambda a: T.max_(a, T.ZERO)))
reg_pw("maximum max.other", _num(T.max_))
reg_pw("minimum min.other", _num(T.min_))
reg_pw("lt less", _num(T.lt))
reg_pw("le less_equal", _num(T.le))
reg_pw("gt greater", _num(lambda a, b: T.lt(b, a)))
reg_pw("ge greater_equal", _num(lambda a, b: T.le(b, a)))
reg_pw("eq", T.eq)
reg_pw("ne not_equal", lambda a, b: T.not_(T.eq(a, b)))
reg_pw("logical_and __and__ bitwise_and", lambda a, b: T.and_(T.tobool(a), T.tobool(b)))
reg_pw("logical_or __or__ bitwise_or", lambda a, b: T.or_(T.tobool(a), T.tobool(b)))
reg_pw("logical_xor bitwise_xor", lambda a, b: T.xor(T.tobool(a), T.tobool(b)))
reg_pw("logical_not", lambda a: T.not_(T.tobool(a)))
reg_pw("pow float_power", _num(T.pow_))
reg_pw("isnan", lambda a: T.FALSE if not a.undef else T.not_(T.ok(a)))
reg_pw("isinf", lambda a: T.FALSE if not a.undef else T.not_(T.ok(a)))
reg_pw("isfinite", lambda a: T.ok(a))


@impl("bitwise_not", "bitwise_not_")
def _bnot(func, args, kwargs):
    x = args[0]
    if x.dtype != torch.bool:
        r = pointwise(lambda a: T.sub(T.MONE, a), (x,), x.dtype)
    else:
        r = pointwise(T.not_, (x,), torch.bool)
    return _copy_into(x, r) if _is_inplace(func) else r


@impl("eq", "ne", "eq_", "ne_", "not_equal")
def _eqne(func, args, kwargs):
    a, b = args[:2]
    meta(func, args, kwargs)
    bothb = all(isinstance(x, torch.Tensor) and x.dtype == torch.bool for x in (a, b))
    f = (lambda x, y: T.eq(T.tobool(x), T.tobool(y))) if bothb else (lambda x, y: T.eq(T.tonum(x), T.tonum(y)))
    g = f if func.overloadpacket.__name__.startswith("eq") else (lambda x, y: T.not_(f(x, y)))
    return pointwise(g, (a, b), torch.bool)


@impl("clamp", "clamp_", "clip", "clamp_min", "clamp_max", "clamp_min_", "clamp_max_")
def _clamp(func, args, kwargs):
    pkt = func.overloadpacket.__name__.rstrip("_")
    x = args[0]
    if pkt == "clamp_min":
        lo, hi = args[1], None
    elif pkt == "clamp_max":
        lo, hi = None, args[1]
    else:
        lo = args[1] if len(args) > 1 else kwargs.get("min")
        hi = args[2] if len(args) > 2 else kwargs.get("max")
    m = meta(func, args, kwargs)
    r = x
    if lo is not None:
        r = pointwise(_num(T.max_), (r, lo), m.dtype)
    if hi is not None:
        r = pointwise(_num(T.min_), (r, hi), m.dtype)
    if r is x:
        r = mk(I(x).clone(), x.dtype)
    return _copy_into(x, r) if _is_inplace(func) else r


def _where3(c, a, b, dt):
    def f(cn, x, y):
        cn = T.tobool(cn)
        if dt != torch.bool:
            x, y = T.tonum(x), T.tonum(y)
        return T.ite(cn, x, y)
    return pointwise(f, (c, a, b), dt)


@impl("where")
def _where(func, args, kwargs):
    if len(args) == 1:
        with Reenter():
            return list(torch.nonzero(args[0]).unbind(1))
    c, a, b = args
    m = meta(func, args, kwargs)
    return _where3(c, a, b, m.dtype)


@impl("lerp")
def _lerp(func, args, kwargs):
    m = meta(func, args, kwargs)
    return pointwise(_num(lambda a, b, w: T.add(a, T.mul(w, T.sub(b, a)))), args, m.dtype)


@impl("addcmul", "addcmul_")
def _addcmul(func, args, kwargs):
    v = scalar_node(kwargs.get("value", 1))
    m = meta(func, args, kwargs)
    r = pointwise(_num(lambda a, b, c: T.add(a, T.mul(v, T.mul(b, c)))), args, m.dtype)
    return _copy_into(args[0], r) if _is_inplace(func) else r


@impl("addcdiv", "addcdiv_")
def _addcdiv(func, args, kwargs):
    v = scalar_node(kwargs.get("value", 1))
    m = meta(func, args, kwargs)
    r = pointwise(_num(lambda a, b, c: T.add(a, T.mul(v, T.div(b, c)))), args, m.dtype)
    return _copy_into(args[0], r) if _is_inplace(func) else r


# ---------------------------------------------------------------- linear algebra
def npn(x):
    """object ndarray of nodes"""
    ids = I(x)
    a = np.empty(ids.numel(), dtype=object)
    for k, i in enumerate(ids.reshape(-1).tolist()):
        a[k] = T.NODES[i]
    return a.reshape(tuple(ids.shape))


def from_np(a, dt):
    flat = a.reshape(-1)
    return mk(torch.tensor([n.id for n in flat], dtype=torch.int64).reshape(a.shape), dt)


def nsum(ns):
    r = T.ZERO
    for n in ns:
        r = T.add(r, n)
    return r


def matmul_np(A, B):
    n, k = A.shape
    _, m = B.shape
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            r = T.ZERO
            for l in range(k):
                r = T.add(r, T.mul(A[i, l], B[l, j]))
            out[i, j] = r
    return out


def _dt2(a, b):
    if a.dtype != b.dtype:
        raise RuntimeError("expected m1 and m2 to have the same dtype, but got: %s != %s" % (a.dtype, b.dtype))


@impl("mm")
def _mm(func, args, kwargs):
    _dt2(*args[:2])
    m = meta(func, args, kwargs)
    return from_np(matmul_np(npn(args[0]), npn(args[1])), m.dtype)


@impl("bmm")
def _bmm(func, args, kwargs):
    _dt2(*args[:2])
    m = meta(func, args, kwargs)
    A, B = npn(args[0]), npn(args[1])
    out = np.empty(tuple(m.shape), dtype=object)
    for b in range(A.shape[0]):
        out[b] = matmul_np(A[b], B[b])
    return from_np(out, m.dtype)


@impl("mv")
def _mv(func, args, kwargs):
    _dt2(*args[:2])
    m = meta(func, args, kwargs)
    return from_np(matmul_np(npn(args[0]), npn(args[1])[:, None])[:, 0], m.dtype)


@impl("dot", "vdot")
def _dot(func, args, kwargs):
    _dt2(*args[:2])
    m = meta(func, args, kwargs)
    A, B = npn(args[0]), npn(args[1])
    r = nsum([T.mul(x, y) for x, y in zip(A, B)])
    return mk(torch.tensor(r.id), m.dtype)


@impl("addmm", "baddbmm", "addmv", "addbmm")
def _addmm(func, args, kwargs):
    al = kwargs.get("alpha", 1)
    be = kwargs.get("beta", 1)
    pkt = func.overloadpacket.__name__
    if pkt == "addbmm":
        raise Unsupported("addbmm")
    op = {"addmm": torch.ops.aten.mm, "baddbmm": torch.ops.aten.bmm, "addmv": torch.ops.aten.mv}[pkt].default
    p = dispatch(op, (args[1], args[2]), {})
    al, be = (dispatch(torch.ops.aten.mul.Tensor, (t, k), {}) if k != 1 else t for t, k in ((p, al), (args[0], be)))
    return dispatch(torch.ops.aten.add.Tensor, (be, al), {})


@impl("linalg_cross", "cross")
def _cross(func, args, kwargs):
    a, b = args[:2]
    m = meta(func, args, kwargs)
    dim = kwargs.get("dim", args[2] if len(args) > 2 else None)
    ia, ib = torch.broadcast_tensors(I(a), I(b))
    if dim is None:
        if func.overloadpacket.__name__ == "linalg_cross":
            dim = -1
        else:
            dim = next(i for i, s in enumerate(ia.shape) if s == 3)
    A = np.moveaxis(npn(mk(ia, a.dtype)), dim, 0)
    B = np.moveaxis(npn(mk(ib, b.dtype)), dim, 0)
    out = np.empty(A.shape, dtype=object)
    rest = A.shape[1:]
    for ix in np.ndindex(*rest):
        a0, a1, a2 = (A[(k,) + ix] for k in range(3))
        b0, b1, b2 = (B[(k,) + ix] for k in range(3))
        out[(0,) + ix] = T.sub(T.mul(a1, b2), T.mul(a2, b1))
        out[(1,) + ix] = T.sub(T.mul(a2, b0), T.mul(a0, b2))
        out[(2,) + ix] = T.sub(T.mul(a0, b1), T.mul(a1, b0))
    return from_np(np.moveaxis(out, 0, dim), m.dtype)


# ---------------------------------------------------------------- reductions
def _dims(dim, nd):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return list(range(nd))
    if isinstance(dim, int):
        dim = [dim]
    return [d % nd if nd else 0 for d in dim]


def reduce_np(A, dims, keep, f):
    nd = A.ndim
    if nd == 0:
        out = np.empty((), dtype=object)
        out[()] = f([A[()]])
        return out
    dims = sorted(set(dims))
    rest = [d for d in range(nd) if d not in dims]
    B = np.transpose(A, rest + dims)
    rs = [A.shape[d] for d in rest]
    cnt = int(np.prod([A.shape[d] for d in dims]))
    B = B.reshape(rs + [cnt])
    out = np.empty(rs, dtype=object)
    for ix in np.ndindex(*rs):
        out[ix] = f(list(B[ix]))
    if keep:
        out = out.reshape([1 if d in dims else A.shape[d] for d in range(nd)])
    return out


def _red(f):
    def h(func, args, kwargs):
        x = args[0]
        kw = dict(kwargs)
        dim = kw.get("dim", args[1] if len(args) > 1 else None)
        keep = kw.get("keepdim", args[2] if len(args) > 2 else False)
        m = meta(func, args, kwargs)
        A = npn(x)
        o = reduce_np(A, _dims(dim, A.ndim), keep, f)
        return from_np(o, m.dtype)
    return h


IMPL["sum"] = _red(lambda ns: nsum([T.tonum(n) for n in ns]))
IMPL["nansum"] = IMPL["sum"]


def _mean(ns):
    if not ns:
        return T.const(float("nan"))
    return T.div(nsum(ns), T.const(len(ns)))


def _prod(ns):
    r = T.ONE
    for n in ns:
        r = T.mul(r, T.tonum(n))
    return r


IMPL["mean"] = _red(_mean)


@impl("prod")
def _prodh(func, args, kwargs):
    if len(args) > 1 and not isinstance(args[1], int):
        args = args[:1]
    return _red(_prod)(func, args, kwargs)


IMPL["all"] = _red(lambda ns: T.all_([T.tobool(n) for n in ns]))
IMPL["any"] = _red(lambda ns: T.any_([T.tobool(n) for n in ns]))
IMPL["count_nonzero"] = _red(lambda ns: nsum([T.ite(T.tobool(n), T.ONE, T.ZERO) for n in ns]))


def _fold(f):
    def g(ns):
        if not ns:
            raise RuntimeError("reduction over an empty dimension")
        r = T.tonum(ns[0])
        for n in ns[1:]:
            r = f(r, T.tonum(n))
        return r
    return g


IMPL["amax"] = _red(_fold(T.max_))
IMPL["amin"] = _red(_fold(T.min_))


def _minmax(is_max):
    def argf(ns):
        """index of extremum: first one (torch CPU picks the first)"""
        ns = [T.tonum(n) for n in ns]
        bi, b = T.ZERO, ns[0]
        for i, n in enumerate(ns[1:], 1):
            c = T.lt(b, n) if is_max else T.lt(n, b)
            bi = T.ite(c, T.const(i), bi)
            b = T.ite(c, n, b)
        return bi

    def h(func, args, kwargs):
        x = args[0]
        ov = func._overloadname
        f = _fold(T.max_ if is_max else T.min_)
        if ov == "default" and len(args) == 1 and not kwargs:
            if x.numel() == 0:
                raise RuntimeError("%s(): Expected reduction dim to be specified for input.numel() == 0." % ("max" if is_max else "min"))
            return mk(torch.tensor(f(nodes(x)).id), x.dtype)
        if ov in ("other", ) or (len(args) > 1 and isinstance(args[1], torch.Tensor)):
            m = meta(func, args, kwargs)
            return pointwise(_num(T.max_ if is_max else T.min_), args[:2], m.dtype)
        dim = kwargs.get("dim", args[1] if len(args) > 1 else None)
        keep = kwargs.get("keepdim", args[2] if len(args) > 2 else False)
        meta(func, args, kwargs)
        A = npn(x)
        v = reduce_np(A, _dims(dim, A.ndim), keep, f)
        i = reduce_np(A, _dims(dim, A.ndim), keep, argf)
        return from_np(v, x.dtype), from_np(i, torch.int64)

    def harg(func, args, kwargs):
        x = args[0]
        dim = kwargs.get("dim", args[1] if len(args) > 1 else None)
        keep = kwargs.get("keepdim", args[2] if len(args) > 2 else False)
        meta(func, args, kwargs)
        A = npn(x)
        if dim is None:
            return mk(torch.tensor(argf(list(A.reshape(-1))).id), torch.int64)
        return from_np(reduce_np(A, _dims(dim, A.ndim), keep, argf), torch.int64)
    return h, harg


IMPL["max"], IMPL["argmax"] = _minmax(True)
IMPL["min"], IMPL["argmin"] = _minmax(False)


def _norm_nodes(ns, p):
    if p == 2:
        return T.sqrt(nsum([T.mul(n, n) for n in ns]))
    if p == 1:
        return nsum([T.abs_(n) for n in ns])
    if p == float("inf"):
        return _fold(T.max_)([T.abs_(n) for n in ns])
    raise Unsupported("norm p=%s" % p)


@impl("linalg_vector_norm", "norm")
def _vnorm(func, args, kwargs):
    x = args[0]
    if func.overloadpacket.__name__ == "linalg_vector_norm":
        p = kwargs.get("ord", args[1] if len(args) > 1 else 2)
    else:
        p = kwargs.get("p", args[1] if len(args) > 1 else 2)
    p = 2 if p is None else p
    dim = kwargs.get("dim", args[2] if len(args) > 2 else None)
    keep = kwargs.get("keepdim", args[3] if len(args) > 3 else False)
    m = meta(func, args, kwargs)
    A = npn(x)
    return from_np(reduce_np(A, _dims(dim, A.ndim), keep, lambda ns: _norm_nodes(ns, p)), m.dtype)


@impl("cumsum")
def _cumsum(func, args, kwargs):
    x = args[0]
    dim = kwargs.get("dim", args[1] if len(args) > 1 else None)
    m = meta(func, args, kwargs)
    A = npn(x)
    if A.ndim == 0:
        return mk(I(x).clone(), m.dtype)
    B = np.moveaxis(A, dim, 0)
    out = np.empty(B.shape, dtype=object)
    for k in range(B.shape[0]):
        for ix in np.ndindex(*B.shape[1:]):
            v = T.tonum(B[(k,) + ix])
            out[(k,) + ix] = v if k == 0 else T.add(out[(k - 1,) + ix], v)
    return from_np(np.moveaxis(out, 0, dim), m.dtype)


# ---------------------------------------------------------------- sorting (forks)
def sort_perm(ns, descending=False):
    """stable order of nodes by forking on comparisons (insertion sort)"""
    order = []
    for i, n in enumerate(ns):
        lo = len(order)
        while lo > 0:
            m = ns[order[lo - 1]]
            c = T.lt(m, n) if descending else T.lt(n, m)
            if path().decide(c):
                lo -= 1
            else:
                break
        order.insert(lo, i)
    return order


@impl("sort", "argsort")
def _sort(func, args, kwargs):
    x = args[0]
    kw = dict(kwargs)
    rest = [a for a in args[1:]]
    if func._overloadname.startswith("stable"):
        kw.setdefault("stable", True)
        if rest and isinstance(rest[0], bool) or (rest and rest[0] is None):
            rest = rest[1:]
    dim = kw.get("dim", rest[0] if rest else -1)
    desc = kw.get("descending", rest[1] if len(rest) > 1 else False)
    A = npn(x)
    if A.ndim == 0:
        return mk(I(x).clone(), x.dtype), lift(torch.tensor(0))
    B = np.moveaxis(A, dim, -1)
    V = np.empty(B.shape, dtype=object)
    P = np.empty(B.shape, dtype=object)
    for ix in np.ndindex(*B.shape[:-1]):
        o = sort_perm([T.tonum(n) for n in B[ix]], desc)
        for k, j in enumerate(o):
            V[ix + (k,)] = B[ix + (j,)]
            P[ix + (k,)] = T.const(int(j))
    v, p = from_np(np.moveaxis(V, -1, dim), x.dtype), from_np(np.moveaxis(P, -1, dim), torch.int64)
    if func.overloadpacket.__name__ == "argsort":
        return p
    return v, p


@impl("topk")
def _topk(func, args, kwargs):
    x, k = args[:2]
    dim = kwargs.get("dim", args[2] if len(args) > 2 else -1)
    largest = kwargs.get("largest", args[3] if len(args) > 3 else True)
    with Reenter():
        v, p = torch.sort(x, dim=dim, descending=largest)
        return v.narrow(dim, 0, k).clone(), p.narrow(dim, 0, k).clone()


def _row_cmp(r1, r2):
    """-1/0/1 lexicographic by forking"""
    for a, b in zip(r1, r2):
        if a is b:
            continue
        if path().decide(T.lt(a, b)):
            return -1
        if path().decide(T.lt(b, a)):
            return 1
    return 0


@impl("unique_dim", "unique_consecutive", "_unique2", "_unique", "unique_dim_consecutive")
def _unique(func, args, kwargs):
    pkt = func.overloadpacket.__name__
    x = args[0]
    A = npn(x)
    if pkt == "unique_dim":
        dim = args[1]
        rows = [list(r.reshape(-1)) for r in np.moveaxis(A, dim, 0)]
    elif pkt in ("_unique2", "_unique"):
        rows = [[n] for n in A.reshape(-1)]
    elif pkt == "unique_consecutive":
        rd = kwargs.get("dim", args[3] if len(args) > 3 else None)
        if rd is not None:
            dim = rd
            rows = [list(r.reshape(-1)) for r in np.moveaxis(A, rd, 0)]
        else:
            rows = [[n] for n in A.reshape(-1)]
    else:
        raise Unsupported(pkt)
    rows = [[T.tonum(n) for n in r] for r in rows]
    groups = []       # list of list of row indices, sorted
    if pkt == "unique_consecutive":
        for i, r in enumerate(rows):
            if groups and _row_cmp(rows[groups[-1][0]], r) == 0:
                groups[-1].append(i)
            else:
                groups.append([i])
    else:
        for i, r in enumerate(rows):
            # binary-ish insertion from the end
            pos = len(groups)
            placed = False
            while pos > 0:
                c = _row_cmp(r, rows[groups[pos - 1][0]])
                if c == 0:
                    groups[pos - 1].append(i)
                    placed = True
                    break
                if c > 0:
                    break
                pos -= 1
            if not placed:
                groups.insert(pos, [i])
    inv = [0] * len(rows)
    for g, mem in enumerate(groups):
        for i in mem:
            inv[i] = g
    cnt = [len(g) for g in groups]
    sel = [g[0] for g in groups]
    ids = I(x)
    if pkt == "unique_dim" or (pkt == "unique_consecutive" and kwargs.get("dim", args[3] if len(args) > 3 else None) is not None):
        o = mk(ids.index_select(dim, torch.tensor(sel, dtype=torch.int64)), x.dtype)
    else:
        o = mk(ids.reshape(-1)[torch.tensor(sel, dtype=torch.int64)], x.dtype)
    ti = torch.tensor(inv, dtype=torch.int64)
    if pkt in ("_unique2", "_unique", "unique_consecutive") and not (pkt == "unique_consecutive" and len(inv) != ids.numel()):
        if len(inv) == ids.numel():
            ti = ti.reshape(ids.shape)
    tc = torch.tensor(cnt, dtype=torch.int64)
    if pkt == "_unique":
        return o, lift(ti)
    return o, lift(ti), lift(tc)


# ---------------------------------------------------------------- small dense solves
def det_np(A):
    n = A.shape[0]
    if n == 0:
        return T.ONE
    if n == 1:
        return A[0, 0]
    r = T.ZERO
    for j in range(n):
        if A[0, j] is T.ZERO:
            continue
        minor = np.delete(np.delete(A, 0, 0), j, 1)
        t = T.mul(A[0, j], det_np(minor))
        r = T.add(r, t) if j % 2 == 0 else T.sub(r, t)
    return r


def _const_matrix(A):
    return all(n.op == "const" and not isinstance(n.val, float) for n in A.reshape(-1))


def inv_np(A):
    """inverse of a matrix of nodes"""
    n = A.shape[0]
    if _const_matrix(A):
        M = [[A[i, j].val for j in range(n)] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        for c in range(n):
            p = next((r for r in range(c, n) if M[r][c] != 0), None)
            if p is None:
                raise torch.linalg.LinAlgError("linalg.inv: The diagonal element is zero, the inversion could not be completed because the input matrix is singular.")
            M[c], M[p] = M[p], M[c]
            d = M[c][c]
            M[c] = [v / d for v in M[c]]
            for r in range(n):
                if r != c and M[r][c] != 0:
                    f = M[r][c]
                    M[r] = [x - f * y for x, y in zip(M[r], M[c])]
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                out[i, j] = T.const(M[i][n + j])
        return out
    last = A[n - 1]
    if n >= 3 and all(x is T.ZERO for x in last[:-1]) and last[-1] is T.ONE:
        # affine block structure keeps the terms small
        R, t = A[:-1, :-1], A[:-1, -1:]
        Ri = inv_np(R)
        ti = matmul_np(Ri, t)
        out = np.empty((n, n), dtype=object)
        out[:-1, :-1] = Ri
        for i in range(n - 1):
            out[i, n - 1] = T.neg(ti[i, 0])
            out[n - 1, i] = T.ZERO
        out[n - 1, n - 1] = T.ONE
        return out
    if n > 4:
        vs = set()
        for x in A.reshape(-1):
            vs |= set(T.leaves(x) or {})
        if len(vs) > 1:
            return inv_uf(A)
        return inv_adj(A)
    d = det_np(A)
    # non-singularity is a path decision: torch raises on singular matrices
    if d.op == "const" and d.val == 0:
        raise torch.linalg.LinAlgError("singular")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(A, j, 0), i, 1)
            c = det_np(minor)
            if (i + j) % 2:
                c = T.neg(c)
            out[i, j] = T.div(c, d)
    return out


def inv_adj(A):
    """adjugate inverse of a larger matrix in few variables (minors shared over column subsets)"""
    n = A.shape[0]

    def minors(rows):
        """determinants of the given rows against every column subset"""
        memo = {}

        def d(k, cols):
            if k == len(rows):
                return T.ONE
            r = memo.get((k, cols))
            if r is None:
                r = T.ZERO
                for i, cc in enumerate(cols):
                    t = T.mul(A[rows[k], cc], d(k + 1, cols[:i] + cols[i + 1:]))
                    r = T.add(r, T.neg(t) if i % 2 else t)
                memo[(k, cols)] = r
            return r
        return d
    det = minors(list(range(n)))(0, tuple(range(n)))
    if det.op == "const" and det.val == 0:
        raise torch.linalg.LinAlgError("singular")
    out = np.empty((n, n), dtype=object)
    for j in range(n):
        d = minors([r for r in range(n) if r != j])
        for i in range(n):
            m = d(0, tuple(x for x in range(n) if x != i))
            out[i, j] = T.div(T.neg(m) if (i + j) % 2 else m, det)
    return out


INV_REG = {}     # uf-inverse registry: key -> (A nodes, X nodes)


def inv_uf(A):
    """contract stub: X = A^-1 as uninterpreted entries over the canonical matrix, with A X = I = X A
    made available as lemmas (INV_REG)."""
    from .solver import canon
    n = A.shape[0]
    key = tuple(canon(x) for x in A.reshape(-1))
    hit = INV_REG.get(key)
    if hit is not None:
        return hit[1]
    out = np.empty((n, n), dtype=object)
    k = len(INV_REG)
    for i in range(n):
        for j in range(n):
            out[i, j] = T.var("inv%d!%d_%d" % (k, i, j))
    INV_REG[key] = (A, out)
    return out


@impl("linalg_inv_ex", "linalg_inv", "inverse")
def _inv(func, args, kwargs):
    pkt = func.overloadpacket.__name__
    x = args[0]
    m = meta(func, args, kwargs)
    A = npn(x)
    out = np.empty(A.shape, dtype=object)
    for ix in np.ndindex(*A.shape[:-2]):
        out[ix] = inv_np(A[ix])
    r = from_np(out, x.dtype)
    if pkt == "linalg_inv_ex":
        return r, lift(torch.zeros(A.shape[:-2], dtype=torch.int32))
    return r


@impl("_linalg_check_errors")
def _chk(func, args, kwargs):
    return None


@impl("_linalg_solve_ex", "linalg_solve_ex", "linalg_solve")
def _solve(func, args, kwargs):
    pkt = func.overloadpacket.__name__
    a, b = args[:2]
    left = kwargs.get("left", args[2] if len(args) > 2 and pkt != "_linalg_solve_ex" else True)
    _dt2(a, b)
    A, B = npn(a), npn(b)
    vec = B.ndim == A.ndim - 1
    if vec:
        B = B[..., None]
    if not left:
        raise Unsupported("solve(left=False)")
    bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, bs + A.shape[-2:])
    B = np.broadcast_to(B, bs + B.shape[-2:])
    out = np.empty(B.shape, dtype=object)
    for ix in np.ndindex(*bs):
        out[ix] = matmul_np(inv_np(A[ix]), B[ix])
    if vec:
        out = out[..., 0]
    r = from_np(out, a.dtype)
    if pkt == "linalg_solve":
        return r
    info = lift(torch.zeros(bs, dtype=torch.int32))
    if pkt == "linalg_solve_ex":
        return r, info
    return r, mk(I(a).clone(), a.dtype), lift(torch.zeros(bs + (A.shape[-1],), dtype=torch.int32)), info


@impl("linalg_det", "det", "_linalg_det")
def _det(func, args, kwargs):
    x = args[0]
    A = npn(x)
    out = np.empty(A.shape[:-2], dtype=object)
    for ix in np.ndindex(*A.shape[:-2]):
        out[ix] = det_np(A[ix])
    r = from_np(np.asarray(out, dtype=object).reshape(A.shape[:-2]), x.dtype)
    if func.overloadpacket.__name__ == "_linalg_det":
        return r, mk(I(x).clone(), x.dtype), lift(torch.zeros(A.shape[:-1], dtype=torch.int32))
    return r


@impl("cholesky_solve", "linalg_cholesky_ex", "linalg_lstsq", "_linalg_svd", "linalg_qr")
def _nodense(func, args, kwargs):
    raise Unsupported("dense factorisation %s" % func)


@impl("_local_scalar_dense")
def _lsd(func, args, kwargs):
    v = _item(args[0]) if isinstance(args[0], SymTensor) else args[0].item()
    from .scalars import SymReal
    if isinstance(v, SymReal):
        raise Unsupported("symbolic real forced to a python number inside torch")
    return v


@impl("is_same_size")
def _iss(func, args, kwargs):
    return tuple(args[0].shape) == tuple(args[1].shape)


@impl("equal")
def _equal(func, args, kwargs):
    a, b = args
    if tuple(a.shape) != tuple(b.shape):
        return False
    r = T.all_([T.eq(T.tonum(x), T.tonum(y)) for x, y in zip(nodes(a), nodes(b))])
    return path().decide(r)


@impl("allclose")
def _allclose(func, args, kwargs):
    with Reenter():
        a, b = args[:2]
        rt = kwargs.get("rtol", args[2] if len(args) > 2 else 1e-5)
        at = kwargs.get("atol", args[3] if len(args) > 3 else 1e-8)
        c = ((a - b).abs() <= at + rt * b.abs()).all()
    return path().decide(nodes(c)[0])


# ---- autograd backward formulas that stay composite
@impl("select_backward")
def _selb(func, args, kwargs):
    g, sizes, dim, index = args
    o = mk(torch.full(tuple(sizes), _zero_id(g.dtype), dtype=torch.int64), g.dtype)
    o.ids.select(dim, index).copy_(I(g))
    return o


@impl("slice_backward")
def _sliceb(func, args, kwargs):
    g, sizes, dim, start, end, step = args
    o = mk(torch.full(tuple(sizes), _zero_id(g.dtype), dtype=torch.int64), g.dtype)
    torch.ops.aten.slice(o.ids, dim, start, end, step).copy_(I(g))
    return o


@impl("unfold_backward", "diagonal_backward", "index_select_backward", "constant_pad_nd_backward")
def _nob(func, args, kwargs):
    raise Unsupported("backward %s" % func)


@impl("sigmoid_backward")
def _sigb(func, args, kwargs):
    g, o = args
    with Reenter():
        return g * o * (1 - o)


@impl("tanh_backward")
def _tanhb(func, args, kwargs):
    g, o = args
    with Reenter():
        return g * (1 - o * o)


@impl("threshold_backward")
def _thb(func, args, kwargs):
    g, x, th = args
    with Reenter():
        return torch.where(x > th, g, torch.zeros_like(g))


# ---------------------------------------------------------------- rarer operations
def _rare(f):
    def h(func, args, kwargs):
        m = meta(func, args, kwargs)
        return pointwise(_num(f), args[:2], m.dtype)
    return h


impl("fmod", "prims.fmod.default")(_rare(lambda a, b: T.sub(a, T.mul(b, T.trunc(T.div(a, b))))))
impl("fmax", "prims.fmax.default")(_rare(T.max_))
impl("fmin", "prims.fmin.default")(_rare(T.min_))
impl("hypot", "prims.hypot.default")(_rare(lambda a, b: T.sqrt(T.add(T.mul(a, a), T.mul(b, b)))))
impl("copysign")(_rare(lambda a, b: T.ite(T.lt(b, T.ZERO), T.neg(T.abs_(a)), T.abs_(a))))


@impl("signbit")
def _signbit(func, args, kwargs):
    with Reenter():
        return args[0] < 0


@impl("var", "std", "var_mean", "std_mean")
def _var(func, args, kwargs):
    x = args[0]
    name = func.overloadpacket.__name__
    dim, corr, keep = None, 1, kwargs.get("keepdim", False)
    rest = list(args[1:])
    if func._overloadname == "correction":
        dim = kwargs.get("dim", rest[0] if rest else None)
        corr = kwargs.get("correction", 1)
        corr = 1 if corr is None else corr
    elif func._overloadname == "dim":
        dim = kwargs.get("dim", rest[0] if rest else None)
        corr = 1 if kwargs.get("unbiased", rest[1] if len(rest) > 1 else True) else 0
        keep = kwargs.get("keepdim", rest[2] if len(rest) > 2 else False)
    else:
        corr = 1 if kwargs.get("unbiased", rest[0] if rest else True) else 0
    with Reenter():
        dims = tuple(range(x.dim())) if dim is None or dim == [] else tuple(dim) if isinstance(dim, (list, tuple)) else (dim,)
        n = 1
        for d in dims:
            n *= x.shape[d]
        mu = x.mean(dims, keepdim=True)
        v = ((x - mu) ** 2).sum(dims, keepdim=keep) / max(n - corr, 0)
        r = v.sqrt() if name.startswith("std") else v
        return (r, x.mean(dims, keepdim=keep)) if name.endswith("mean") else r


def _scan(pick):
    """running extremum: fold along dim; pick(new, best) decides (ties take the newer index, as torch does)"""
    def h(func, args, kwargs):
        x = args[0]
        dim = kwargs.get("dim", args[1] if len(args) > 1 else None)
        B = np.moveaxis(npn(x), dim, 0)
        V, P = np.empty(B.shape, dtype=object), np.empty(B.shape, dtype=object)
        for ix in np.ndindex(*B.shape[1:]):
            v, p = B[(0,) + ix], T.const(0)
            for k in range(B.shape[0]):
                n = B[(k,) + ix]
                take = pick(n, v)
                v, p = T.ite(take, n, v), T.ite(take, T.const(k), p)
                V[(k,) + ix], P[(k,) + ix] = v, p
        return from_np(np.moveaxis(V, 0, dim), x.dtype), from_np(np.moveaxis(P, 0, dim), torch.int64)
    return h


impl("cummax")(_scan(lambda n, b: T.le(b, n)))
impl("cummin")(_scan(lambda n, b: T.le(n, b)))


@impl("cumprod")
def _cumprod(func, args, kwargs):
    x = args[0]
    dim = kwargs.get("dim", args[1] if len(args) > 1 else None)
    m = meta(func, args, kwargs)
    B = np.moveaxis(npn(x), dim, 0)
    out = np.empty(B.shape, dtype=object)
    for k in range(B.shape[0]):
        for ix in np.ndindex(*B.shape[1:]):
            v = T.tonum(B[(k,) + ix])
            out[(k,) + ix] = v if k == 0 else T.mul(out[(k - 1,) + ix], v)
    return from_np(np.moveaxis(out, 0, dim), m.dtype)


@impl("_cdist_forward")
def _cdist(func, args, kwargs):
    a, b = args[:2]
    p = kwargs.get("p", args[2] if len(args) > 2 else 2.0)
    with Reenter():
        return torch.linalg.vector_norm(a.unsqueeze(-2) - b.unsqueeze(-3), ord=p, dim=-1)


@impl("repeat_interleave")
def _repint(func, args, kwargs):
    if func._overloadname != "Tensor":
        with Reenter():
            return func.decompose(*args, **kwargs)
    reps = []
    for n in nodes(args[0]):
        reps.append(int(n.val) if T.is_const(n) else path().concretize(n))
    return lift(torch.tensor([i for i, k in enumerate(reps) for _ in range(k)], dtype=torch.int64))


@impl("median", "kthvalue", "nanmedian")
def _median(func, args, kwargs):
    x = args[0]
    rest = list(args[1:])
    kth = func.overloadpacket.__name__ == "kthvalue"
    k = None
    if kth:
        k = kwargs.get("k", rest.pop(0) if rest else None)
    dim = kwargs.get("dim", rest[0] if rest else (-1 if kth else None))
    keep = kwargs.get("keepdim", rest[1] if len(rest) > 1 else False)
    with Reenter():
        if dim is None:
            v = torch.sort(x.reshape(-1))[0]
            return v[(v.numel() - 1) // 2].clone()
        v, p = torch.sort(x, dim=dim)
        j = k - 1 if kth else (x.shape[dim] - 1) // 2
        v, p = v.narrow(dim, j, 1), p.narrow(dim, j, 1)
        return (v.clone(), p.clone()) if keep else (v.squeeze(dim).clone(), p.squeeze(dim).clone())


@impl("searchsorted", "bucketize")
def _searchsorted(func, args, kwargs):
    name = func.overloadpacket.__name__
    seq, x = (args[0], args[1]) if name == "searchsorted" else (args[1], args[0])
    right = kwargs.get("right", False) or kwargs.get("side", None) == "right"
    if kwargs.get("sorter") is not None or (name == "searchsorted" and seq.dim() > 1):
        raise Unsupported("searchsorted over batches")
    S = nodes(seq) if isinstance(seq, SymTensor) else nodes(lift(seq))
    x = x if isinstance(x, torch.Tensor) else torch.tensor(x)
    f = (lambda s, v: T.le(s, v)) if right else (lambda s, v: T.lt(s, v))
    out = [nsum([T.ite(f(s, v), T.ONE, T.ZERO) for s in S]) for v in nodes(lift(x))]
    dt = torch.int32 if kwargs.get("out_int32", False) else torch.int64
    return from_np(np.array(out, dtype=object).reshape(tuple(x.shape)), dt)


@impl("bincount")
def _bincount(func, args, kwargs):
    x = args[0]
    w = kwargs.get("weights", args[1] if len(args) > 1 else None)
    ml = kwargs.get("minlength", args[2] if len(args) > 2 else 0)
    ix = [int(n.val) if T.is_const(n) else path().concretize(n) for n in nodes(lift(x))]
    out = [T.ZERO] * max([ml] + [i + 1 for i in ix])
    ws = [T.ONE] * len(ix) if w is None else nodes(lift(w))
    for i, q in zip(ix, ws):
        out[i] = T.add(out[i], q)
    return from_np(np.array(out, dtype=object), torch.int64 if w is None else torch.float64 if w.dtype not in (torch.float32, torch.float64) else w.dtype)


@impl("put", "put_")
def _put(func, args, kwargs):
    x, i, v = args[:3]
    acc = kwargs.get("accumulate", args[3] if len(args) > 3 else False)
    with Reenter():
        r = x.reshape(-1).clone().index_put((i.reshape(-1),), v.reshape(-1), accumulate=acc).reshape(x.shape)
    return _copy_into(x, r) if func.overloadpacket.__name__ == "put_" else r


@impl("block_diag")
def _blockdiag(func, args, kwargs):
    ts = args[0]
    with Reenter():
        ts = [t.reshape(1, -1) if t.dim() < 2 else t for t in ts]
        w = sum(t.shape[1] for t in ts)
        rows, at = [], 0
        for t in ts:
            rows.append(torch.nn.functional.pad(t, (at, w - at - t.shape[1])))
            at += t.shape[1]
        return torch.cat(rows, 0)


def _windows(x, k, st, pad, fillv):
    """(…, H, W) -> (…, oh, ow, kh*kw) patches"""
    two = lambda q, d: (list(q) * 2)[:2] if isinstance(q, (list, tuple)) and len(q) else ([q, q] if not isinstance(q, (list, tuple)) else d)
    k = two(k, None)
    st, pad = two(st, k), two(pad, [0, 0])
    if any(pad):
        x = torch.nn.functional.pad(x, (pad[1], pad[1], pad[0], pad[0]), value=fillv)
    u = x.unfold(-2, k[0], st[0]).unfold(-2, k[1], st[1])
    return u.reshape(u.shape[:-2] + (k[0] * k[1],))


@impl("avg_pool2d")
def _avgpool(func, args, kwargs):
    x, k = args[:2]
    st = args[2] if len(args) > 2 else []
    pad = args[3] if len(args) > 3 else 0
    if (len(args) > 4 and args[4]) or (len(args) > 5 and not args[5] and any(pad if isinstance(pad, (list, tuple)) else [pad])) or (len(args) > 6 and args[6]):
        raise Unsupported("avg_pool2d variant")
    with Reenter():
        return _windows(x, k, st, pad, 0.0).mean(-1)


@impl("max_pool2d_with_indices")
def _maxpool(func, args, kwargs):
    x, k = args[:2]
    st = args[2] if len(args) > 2 else []
    pad = args[3] if len(args) > 3 else 0
    if any(pad if isinstance(pad, (list, tuple)) else [pad]) or (len(args) > 5 and args[5]):
        raise Unsupported("max_pool2d variant")
    with Reenter():
        r = _windows(x, k, st, 0, 0.0)
        return r.amax(-1), r.argmax(-1)


@impl("convolution")
def _conv(func, args, kwargs):
    x, w, b, st, pad, dil, tr, opad, groups = args[:9]
    if w.dim() != 4 or tr or groups != 1 or any(d != 1 for d in dil):
        raise Unsupported("convolution variant")
    with Reenter():
        n, ci = x.shape[:2]
        u = _windows(x, list(w.shape[2:]), list(st), list(pad), 0.0)        # n ci oh ow k
        u = u.permute(0, 2, 3, 1, 4).reshape(n, u.shape[2], u.shape[3], -1)
        r = (u @ w.reshape(w.shape[0], -1).t()).permute(0, 3, 1, 2)
        return r if b is None else r + b.reshape(1, -1, 1, 1)


@impl("is_nonzero")
def _isnonzero(func, args, kwargs):
    n = nodes(args[0])
    if len(n) != 1:
        raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
    return path().decide(T.not_(T.eq(T.tonum(n[0]), T.ZERO)))
