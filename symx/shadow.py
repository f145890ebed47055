"""Builtins and math functions that would force a symbolic number to a machine float, replaced inside the library's modules.
Used only for a case whose first run met such a call (engine.run_case)."""
import contextlib
import math
import sys

import numpy as np
import torch

from . import terms as T
from . import symtensor as ST
from . import npshim
from .scalars import SymReal, SymBool, wrap, wrapb, _n

ON = [False]
NEED = ("float() of a symbolic number", "must be real number", "__float__ returned non-float", "float() argument must be",
        "only supported types are", "only one element tensors", "is not allocated yet", "Could not infer dtype of Sym")


class sym_float(npshim.sym_float):
    def __new__(cls, x=0.0):
        if isinstance(x, ST.SymTensor):
            if x.numel() != 1:
                return float(x)
            x = x.reshape(-1)[0].item()
        if isinstance(x, SymBool):
            return wrap(T.tonum(x.n))
        return npshim.sym_float.__new__(npshim.sym_float, x)


def _sym(x):
    return isinstance(x, (SymReal, SymBool, ST.SymTensor))


def _num(x):
    if isinstance(x, torch.Tensor):
        x = x.reshape(-1)[0].item()
    return _n(x)


_F = {"sqrt": T.sqrt, "exp": T.exp, "sin": T.sin, "cos": T.cos, "tanh": T.tanh, "atan": T.atan, "acos": T.acos, "asin": T.asin, "log": T.log, "atan2": T.atan2,
      "fabs": T.abs_, "pow": T.pow_, "tan": lambda a: T.div(T.sin(a), T.cos(a)), "fmod": None,
      "hypot": lambda *a: T.sqrt(sum_(T.mul(x, x) for x in a)), "radians": lambda a: T.mul(a, T.const(math.pi / 180)), "degrees": lambda a: T.mul(a, T.const(180 / math.pi)),
      "copysign": lambda a, b: T.ite(T.lt(b, T.ZERO), T.neg(T.abs_(a)), T.abs_(a))}
_I = {"floor": T.floor, "ceil": T.ceil, "trunc": T.trunc}


def sum_(xs):
    r = T.ZERO
    for x in xs:
        r = T.add(r, x)
    return r


def _isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    d = T.abs_(T.sub(a, b))
    return T.le(d, T.max_(T.mul(T.const(rel_tol), T.max_(T.abs_(a), T.abs_(b))), T.const(abs_tol)))


_B = {"isclose": _isclose, "isnan": lambda a: T.not_(T.ok(a)), "isfinite": T.ok, "isinf": lambda a: T.not_(T.ok(a))}


class MathShim:
    def __getattr__(self, k):
        real = getattr(math, k)
        f = _F.get(k) or _I.get(k) or _B.get(k)
        if f is None:
            return real

        def g(*a, **kw):
            if not any(_sym(x) for x in a):
                return real(*a, **kw)
            r = f(*[_num(x) for x in a], **kw)
            return wrapb(r) if k in _B else wrap(r)
        return g


MATH = MathShim()


@contextlib.contextmanager
def active():
    if not ON[0]:
        yield
        return
    added, saved = [], []
    for name, m in list(sys.modules.items()):
        if m is None or not (name == "gradslam" or name.startswith("gradslam.")):
            continue
        for b, v in (("float", sym_float), ("isinstance", npshim.sym_isinstance)):
            if b not in vars(m):
                setattr(m, b, v)
                added.append((m, b))
        for k, real, shim in (("math", math, MATH), ("torch", torch, npshim.TSHIM), ("np", np, npshim.SHIM), ("numpy", np, npshim.SHIM)):
            if getattr(m, k, None) is real:
                setattr(m, k, shim)
                saved.append((m, k, real))
    try:
        yield
    finally:
        for m, b in added:
            delattr(m, b)
        for m, k, real in saved:
            setattr(m, k, real)
