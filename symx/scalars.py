"""Symbolic python numbers (for numpy / pure python code paths)."""
from fractions import Fraction

import numpy as np

from . import terms as T


def _n(x):
    if isinstance(x, SymReal):
        return x.n
    if isinstance(x, SymBool):
        return T.tonum(x.n)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _n(x.item())
    return T.tonum(T.const(x))


def _path():
    from .symtensor import path
    return path()


class SymBool:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return _path().decide(self.n)

    def __and__(self, o):
        return wrapb(T.and_(self.n, _b(o)))

    __rand__ = __and__

    def __or__(self, o):
        return wrapb(T.or_(self.n, _b(o)))

    __ror__ = __or__

    def __invert__(self):
        return wrapb(T.not_(self.n))

    def __eq__(self, o):
        return wrapb(T.eq(self.n, _b(o)))

    def __ne__(self, o):
        return wrapb(T.not_(T.eq(self.n, _b(o))))

    def __hash__(self):
        return hash(bool(self))

    def logical_not(self):
        return wrapb(T.not_(self.n))

    def __repr__(self):
        return "SymBool"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _b(o):
    if isinstance(o, SymBool):
        return o.n
    if isinstance(o, SymReal):
        return T.tobool(o.n)
    return T.tobool(T.const(o))


def wrapb(n):
    if n.op == "const":
        return bool(n.val)
    return SymBool(n)


def wrap(n):
    return SymReal(n)


class SymReal:
    """symbolic real or integer python number"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def _tensor_other(self, o):
        import torch
        return isinstance(o, torch.Tensor)

    def _bin(f, swap=False, name=None):
        def g(self, o):
            import torch
            if isinstance(o, torch.Tensor) and name:
                from .symtensor import scalar_tensor
                t = scalar_tensor(self)
                return getattr(torch, name)(o, t) if swap else getattr(torch, name)(t, o)
            if isinstance(o, torch.Tensor) or (isinstance(o, np.ndarray) and o.ndim > 0):
                return NotImplemented
            try:
                m = _n(o)
            except TypeError:
                return NotImplemented
            return wrap(f(m, self.n) if swap else f(self.n, m))
        return g

    __add__ = _bin(T.add, False, "add")
    __radd__ = _bin(T.add, True, "add")
    __sub__ = _bin(T.sub, False, "sub")
    __rsub__ = _bin(T.sub, True, "sub")
    __mul__ = _bin(T.mul, False, "mul")
    __rmul__ = _bin(T.mul, True, "mul")
    __truediv__ = _bin(T.div, False, "div")
    __rtruediv__ = _bin(T.div, True, "div")
    __pow__ = _bin(T.pow_)
    __rpow__ = _bin(T.pow_, True)
    __floordiv__ = _bin(lambda a, b: T.floor(T.div(a, b)))
    __rfloordiv__ = _bin(lambda a, b: T.floor(T.div(a, b)), True)
    __mod__ = _bin(T.fmod_floor)
    __rmod__ = _bin(T.fmod_floor, True)

    def __neg__(self):
        return wrap(T.neg(self.n))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(T.abs_(self.n))

    def _cmp(f):
        def g(self, o):
            import torch
            if isinstance(o, torch.Tensor) or (isinstance(o, np.ndarray) and o.ndim > 0):
                return NotImplemented
            try:
                m = _n(o)
            except TypeError:
                return NotImplemented
            return wrapb(f(self.n, m))
        return g

    __lt__ = _cmp(T.lt)
    __le__ = _cmp(T.le)
    __gt__ = _cmp(lambda a, b: T.lt(b, a))
    __ge__ = _cmp(lambda a, b: T.le(b, a))
    __eq__ = _cmp(T.eq)
    __ne__ = _cmp(lambda a, b: T.not_(T.eq(a, b)))

    def __hash__(self):
        if self.n.op == "const":
            return hash(self.n.val)
        return hash(Fraction(self.concrete()))

    def __bool__(self):
        return _path().decide(T.tobool(self.n))

    def concrete(self):
        if self.n.op == "const":
            return self.n.val
        return _path().concretize(self.n)

    def __int__(self):
        n = T.trunc(self.n)
        if n.op == "const":
            return int(n.val)
        return int(_path().concretize(n))

    def __index__(self):
        return int(self)

    def __float__(self):
        if self.n.op == "const":
            return float(self.n.val)
        from .symtensor import Unsupported
        raise Unsupported("float() of a symbolic number")

    def __round__(self, nd=None):
        if nd is None:
            return wrap(T.round_(self.n))
        k = T.const(Fraction(10) ** int(nd))
        return wrap(T.div(T.round_(T.mul(self.n, k)), k))

    def __repr__(self):
        return "SymReal(%s)" % T.show(self.n, 3)

    def __format__(self, spec):
        return "<sym>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy object-array ufunc hooks
    def sqrt(self):
        return wrap(T.sqrt(self.n))

    def exp(self):
        return wrap(T.exp(self.n))

    def sin(self):
        return wrap(T.sin(self.n))

    def cos(self):
        return wrap(T.cos(self.n))

    def conjugate(self):
        return self

    def item(self):
        return self

    def isnan(self):
        return wrapb(T.not_(T.ok(self.n)))


def to_object_array(t):
    from .symtensor import _idlist
    ids = t
    a = np.empty(ids.numel(), dtype=object)
    for k, i in enumerate(_idlist(t)):
        n = T.NODES[i]
        a[k] = wrapb(n) if n.isb else wrap(n)
    return a.reshape(tuple(ids.shape))
