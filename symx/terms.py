"""Hash-consed term DAG: the symbolic scalars carried by symbolic tensors.

Numbers are mathematical reals (Fractions for constants); every number node also has a
definedness condition (`ok`): false where IEEE arithmetic would produce NaN/inf
(division by zero, sqrt/log of a negative number ...).
"""
from fractions import Fraction
import math
import sys

import numpy as np

sys.setrecursionlimit(100000)

NODES = []
_TABLE = {}


class Node:
    __slots__ = ("id", "op", "args", "val", "isb", "undef", "_z3", "_ok", "isint", "_rat", "_iv")

    def __repr__(self):
        return show(self)


def _mk(op, args=(), val=None, isb=False, isint=False, undef=None):
    if op == "const":
        if isb:
            key = (op, "b", val)
        elif isinstance(val, float):
            key = (op, "f", repr(val))
        else:
            key = (op, val.numerator, val.denominator)
    else:
        key = (op, val) + tuple([a.id for a in args])
    n = _TABLE.get(key)
    if n is not None:
        return n
    n = Node()
    n.op = op
    n.args = args
    n.val = val
    n.isb = isb
    n.isint = isint
    n._z3 = None
    n._ok = None
    n._rat = None
    n._iv = None
    if undef is None:
        undef = any(a.undef for a in args)
    n.undef = undef
    n.id = len(NODES)
    NODES.append(n)
    _TABLE[key] = n
    return n


# ---------------------------------------------------------------- constants
def const(x):
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, (int, np.integer)):
        return _mk("const", (), Fraction(int(x)), isint=True, undef=False)
    if isinstance(x, Fraction):
        return _mk("const", (), x, isint=(x.denominator == 1), undef=False)
    if isinstance(x, np.float32):
        f = float(x)
        if math.isinf(f) or math.isnan(f):
            return _mk("const", (), f, undef=True)
        fr = _F32.get(f)
        if fr is None:
            fr = Fraction(str(x))
            _F32[f] = fr
        return const(fr)
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isinf(f) or math.isnan(f):
            return _mk("const", (), f, undef=True)
        return const(Fraction(repr(f)))
    raise TypeError("const(%r)" % (x,))


_F32 = {}
FALSE = _mk("const", (), False, isb=True, undef=False)
TRUE = _mk("const", (), True, isb=True, undef=False)
ZERO = const(0)          # keep: id 2
ONE = const(1)
MONE = const(-1)
HALF = const(Fraction(1, 2))


def is_const(n):
    return n.op == "const"


def is_special(n):
    return n.op == "const" and isinstance(n.val, float)


def _spec(f):
    """fold a python-float result containing a special value"""
    if math.isinf(f) or math.isnan(f):
        return _mk("const", (), f, undef=True)
    return const(f)


def var(name, kind="R", lo=None, hi=None):
    """kind R real, I integer, B bool; lo/hi: declared range (must also be assumed)"""
    return _mk("var", (), (name, kind, lo, hi), isb=(kind == "B"), isint=(kind == "I"), undef=False)


# ---------------------------------------------------------------- intervals
FACTS = {}     # node id -> (lo, hi): facts assumed at the start of the case


def interval(n):
    """(lo, hi) sound bounds (None = unbounded), from declared variable ranges and facts"""
    r = n._iv
    if r is None:
        r = _interval(n)
        n._iv = r
    f = FACTS.get(n.id)
    if f is not None:
        lo, hi = r
        if f[0] is not None and (lo is None or f[0] > lo):
            lo = f[0]
        if f[1] is not None and (hi is None or f[1] < hi):
            hi = f[1]
        return lo, hi
    return r


def _imul(a, b):
    if a is None or b is None:
        return None
    return a * b


def _interval(n):
    op = n.op
    if n.isb:
        return None, None
    if op == "const":
        if isinstance(n.val, float):
            return None, None
        return n.val, n.val
    if op == "var":
        lo, hi = n.val[2], n.val[3]
        return (None if lo is None else Fraction(repr(lo)) if isinstance(lo, float) else Fraction(lo),
                None if hi is None else Fraction(repr(hi)) if isinstance(hi, float) else Fraction(hi))
    if op == "add":
        (a, b), (c, d) = interval(n.args[0]), interval(n.args[1])
        return (None if a is None or c is None else a + c), (None if b is None or d is None else b + d)
    if op == "neg":
        a, b = interval(n.args[0])
        return (None if b is None else -b), (None if a is None else -a)
    if op == "mul":
        if n.args[0] is n.args[1]:
            a, b = interval(n.args[0])
            lo = Fraction(0)
            if a is not None and a > 0:
                lo = a * a
            elif b is not None and b < 0:
                lo = b * b
            hi = max(a * a, b * b) if a is not None and b is not None else None
            return lo, hi
        (a, b), (c, d) = interval(n.args[0]), interval(n.args[1])
        if None not in (a, b, c, d):
            ps = (a * c, a * d, b * c, b * d)
            return min(ps), max(ps)
        # sign information only
        if a is not None and c is not None and a >= 0 and c >= 0:
            return a * c, (b * d if b is not None and d is not None else None)
        if b is not None and d is not None and b <= 0 and d <= 0:
            return b * d, None
        if a is not None and d is not None and a >= 0 and d <= 0:
            return None, a * d
        if b is not None and c is not None and b <= 0 and c >= 0:
            return None, b * c
        return None, None
    if op == "div":
        (a, b), (c, d) = interval(n.args[0]), interval(n.args[1])
        if c is not None and c > 0:
            lo = hi = None
            if a is not None:
                lo = a / c if a < 0 else (a / d if d is not None else Fraction(0))
            if b is not None:
                hi = b / c if b > 0 else (b / d if d is not None else Fraction(0))
            return lo, hi
        return None, None
    if op in ("guard0",):
        return Fraction(0), Fraction(0)
    if op == "sqrt":
        a, b = interval(n.args[0])
        lo = Fraction(0)
        if a is not None and a > 0:
            lo = min(a, Fraction(1))
        return lo, (None if b is None else max(b, Fraction(1)))
    if op == "exp":
        a, b = interval(n.args[0])
        return Fraction(0), (Fraction(1) if b is not None and b <= 0 else None)
    if op in ("sin", "cos", "tanh"):
        return Fraction(-1), Fraction(1)
    if op == "floor":
        a, b = interval(n.args[0])
        return (None if a is None else Fraction(math.floor(a))), (None if b is None else Fraction(math.floor(b)))
    if op == "ite":
        (a, b), (c, d) = interval(n.args[1]), interval(n.args[2])
        return (None if a is None or c is None else min(a, c)), (None if b is None or d is None else max(b, d))
    return None, None


def nonzero(n):
    a, b = interval(n)
    return n.op == "exp" or (a is not None and a > 0) or (b is not None and b < 0)


# ---------------------------------------------------------------- arithmetic
def has_special_branch(n):
    return n.op == "ite" and not n.isb and (
        is_special(n.args[1]) or is_special(n.args[2])
        or has_special_branch(n.args[1]) or has_special_branch(n.args[2]))


def _lift2(f, a, b):
    """push a binary op through ites that have an inf branch"""
    if has_special_branch(a):
        c, x, y = a.args
        return ite(c, f(x, b), f(y, b))
    c, x, y = b.args
    return ite(c, f(a, x), f(a, y))


def add(a, b):
    if a.op == "const" and b.op == "const":
        if isinstance(a.val, float) or isinstance(b.val, float):
            return _spec(float(a.val) + float(b.val))
        return const(a.val + b.val)
    if is_special(a):
        return a
    if is_special(b):
        return b
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if has_special_branch(a) or has_special_branch(b):
        return _lift2(add, a, b)
    if a.op == "neg" and a.args[0] is b and not b.undef:
        return ZERO
    if b.op == "neg" and b.args[0] is a and not a.undef:
        return ZERO
    # const reassociation
    if b.op == "const":
        a, b = b, a
    if a.op == "const" and b.op == "add" and b.args[0].op == "const":
        return add(const(a.val + b.args[0].val), b.args[1])
    # merge ites on the same condition with the zero branch:  ite(c,x,0)+ite(c,y,0)
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return ite(a.args[0], add(a.args[1], b.args[1]), add(a.args[2], b.args[2]))
    if a.op != "const" and a.id > b.id:
        a, b = b, a
    return _mk("add", (a, b), isint=a.isint and b.isint)


def neg(a):
    if a.op == "const":
        return _spec(-a.val) if isinstance(a.val, float) else const(-a.val)
    if a.op == "neg":
        return a.args[0]
    if a.op == "ite" and (a.args[1].op == "const" or a.args[2].op == "const"):
        return ite(a.args[0], neg(a.args[1]), neg(a.args[2]))
    return _mk("neg", (a,), isint=a.isint)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == "const" and b.op == "const":
        if isinstance(a.val, float) or isinstance(b.val, float):
            return _spec(float(a.val) * float(b.val))
        return const(a.val * b.val)
    if b.op == "const":
        a, b = b, a
    if a is ONE:
        return b
    if a is MONE:
        return neg(b)
    if a is ZERO:
        if b.undef:
            return guard0(b)
        return ZERO
    if a.op == "const" and isinstance(a.val, float):
        if math.isnan(a.val):
            return a
        # inf * x : sign of x decides
        return ite(lt(ZERO, b), a, ite(lt(b, ZERO), neg(a), _spec(float("nan"))))
    if a.op == "neg" and b.op == "neg":
        return mul(a.args[0], b.args[0])
    if a.op == "neg":
        return neg(mul(a.args[0], b))
    if b.op == "neg":
        return neg(mul(a, b.args[0]))
    if has_special_branch(a) or has_special_branch(b):
        return _lift2(mul, a, b)
    # mask multiplication
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and (x.args[1] in (ZERO, ONE)) and (x.args[2] in (ZERO, ONE)) :
            return ite(x.args[0], mul(x.args[1], y), mul(x.args[2], y))
        if x.op == "ite" and (x.args[1] is ZERO or x.args[2] is ZERO) and x.args[0] is not None \
                and y.op == "ite" and y.args[0] is x.args[0]:
            return ite(x.args[0], mul(x.args[1], y.args[1]), mul(x.args[2], y.args[2]))
        if x.op == "ite" and (x.args[2] is ZERO or x.args[1] is ZERO):
            return ite(x.args[0], mul(x.args[1], y), mul(x.args[2], y))
    if a.op == "const" and b.op == "mul" and b.args[0].op == "const":
        return mul(const(a.val * b.args[0].val), b.args[1])
    if a.op == "sqrt" and a is b:
        return a.args[0] if not a.args[0].undef and _nonneg(a.args[0]) else _mk("mul", (a, b))
    if a is b and a.op == "add" and (a.args[0].op == "neg") != (a.args[1].op == "neg"):
        # (x - y)^2 and (y - x)^2 are one term
        p, q = a.args
        pos, sub_ = (q, p.args[0]) if p.op == "neg" else (p, q.args[0])
        if pos.id > sub_.id:
            f = sub(sub_, pos)
            if f.op == "add":
                a = b = f
    if a.op != "const" and a.id > b.id:
        a, b = b, a
    return _mk("mul", (a, b), isint=a.isint and b.isint)


def _nonneg(n, depth=0):
    lo = interval(n)[0]
    if lo is not None and lo >= 0:
        return True
    if n.op == "const":
        return not isinstance(n.val, float) and n.val >= 0
    if depth > 12:
        return False
    if n.op == "mul":
        return n.args[0] is n.args[1] or (_nonneg(n.args[0], depth + 1) and _nonneg(n.args[1], depth + 1))
    if n.op == "add":
        return _nonneg(n.args[0], depth + 1) and _nonneg(n.args[1], depth + 1)
    if n.op in ("sqrt", "exp"):
        return True
    if n.op == "ite" and not n.isb:
        return _nonneg(n.args[1], depth + 1) and _nonneg(n.args[2], depth + 1)
    return False


def guard0(b):
    """0 * b where b may be NaN/inf"""
    return _mk("guard0", (b,))


def div(a, b):
    if b.op == "const":
        if isinstance(b.val, float):
            if math.isnan(b.val):
                return b
            if a.op == "const":
                return _spec(float(a.val) / b.val if not isinstance(a.val, float) or not math.isinf(a.val) else float("nan"))
            return ZERO if not a.undef else guard0(a)
        if b.val == 0:
            if a.op == "const":
                v = float(a.val)
                if v == 0 or math.isnan(v):
                    return _spec(float("nan"))
                return _spec(math.copysign(float("inf"), v))
            return ite(lt(ZERO, a), _spec(float("inf")), ite(lt(a, ZERO), _spec(float("-inf")), _spec(float("nan"))))
        if a.op == "const":
            if isinstance(a.val, float):
                return _spec(a.val / float(b.val))
            return const(a.val / b.val)
        return mul(const(1 / b.val), a)
    if a is ZERO:
        if b.undef:
            return guard0(div(ONE, b))
        if nonzero(b):
            return ZERO
        return _mk("guard0", (_mk("div", (ONE, b), undef=True),))
    if is_special(a):
        return mul(a, b)
    if b.op == "ite" and (b.args[1].op == "const" or b.args[2].op == "const"):
        return ite(b.args[0], div(a, b.args[1]), div(a, b.args[2]))
    if a.op == "ite" and (a.args[1] is ZERO or a.args[2] is ZERO):
        return ite(a.args[0], div(a.args[1], b), div(a.args[2], b))
    if a.op == "neg":
        return neg(div(a.args[0], b))
    if b.op == "neg":
        return neg(div(a, b.args[0]))
    return _mk("div", (a, b), undef=None if nonzero(b) else True)


def powi(a, k):
    if k == 0:
        return ONE
    if k < 0:
        return div(ONE, powi(a, -k))
    r = None
    for _ in range(k):
        r = a if r is None else mul(r, a)
    return r


_LOG10 = {}


def log10(a):
    r = mul(const(Fraction(1) / Fraction(math.log(10))), log(a)) if a.op != "const" else const(math.log10(float(a.val)))
    _LOG10[r.id] = a
    return r


def floor_log10(a):
    """floor(log10(a)), exact for a in [1e-6, 1e7)"""
    r = const(-7)
    for k in range(-6, 7):
        r = ite(lt(a, const(Fraction(10) ** k)), r, const(k))
    return r


def pow_(a, b):
    if a.op == "const" and b.op == "ite" and b.isint:
        return ite(b.args[0], pow_(a, b.args[1]), pow_(a, b.args[2]))
    if b.op == "const" and not isinstance(b.val, float):
        e = b.val
        if e.denominator == 1 and abs(e) <= 64:
            return powi(a, int(e))
        if e.denominator == 2:
            s = sqrt(a)
            k = int(e - Fraction(1, 2))
            return mul(s, powi(a, k)) if e > 0 else div(ONE, powi(s, -int(2 * e)))
        if a.op == "const" and not isinstance(a.val, float):
            return const(float(a.val) ** float(e))
    if a.op == "const" and b.op == "const":
        return _spec(float(a.val) ** float(b.val)) if isinstance(a.val, float) or isinstance(b.val, float) \
            else const(float(a.val) ** float(b.val))
    if a.op == "const" and a.val > 0:
        return exp(mul(b, log(a)))
    return exp(mul(b, log(a)))


def sqrt(a):
    if a.op == "const":
        if isinstance(a.val, float):
            return _spec(math.sqrt(a.val)) if a.val > 0 else _spec(float("nan"))
        if a.val < 0:
            return _spec(float("nan"))
        n, d = math.isqrt(a.val.numerator), math.isqrt(a.val.denominator)
        if n * n == a.val.numerator and d * d == a.val.denominator:
            return const(Fraction(n, d))
        return _mk("sqrt", (a,), undef=False)
    if a.op == "ite" and (a.args[1].op == "const" or a.args[2].op == "const"):
        return ite(a.args[0], sqrt(a.args[1]), sqrt(a.args[2]))
    if a.op == "mul" and a.args[0] is a.args[1]:
        return abs_(a.args[0])
    return _mk("sqrt", (a,), undef=a.undef or not _nonneg(a))


def _uf1(op, f, at0=None, undef=False):
    def g(a):
        if a.op == "const":
            if isinstance(a.val, float):
                try:
                    return _spec(f(a.val))
                except (ValueError, OverflowError):
                    return _spec(float("nan"))
            if at0 is not None and a.val == 0:
                return const(at0)
            if undef:
                try:
                    return const(f(float(a.val)))
                except (ValueError, ZeroDivisionError):
                    return _spec(float("nan"))
            if op in ("exp", "sin", "cos", "tanh"):
                return _mk(op, (a,), undef=False)
            return const(f(float(a.val)))
        if a.op == "ite" and (a.args[1].op == "const" or a.args[2].op == "const"):
            return ite(a.args[0], g(a.args[1]), g(a.args[2]))
        if op == "cos" and a.op == "neg":
            return g(a.args[0])
        if op in ("sin", "tanh", "atan") and a.op == "neg":
            return neg(g(a.args[0]))
        return _mk(op, (a,), undef=a.undef or undef)
    return g


exp = _uf1("exp", math.exp, 1)
sin = _uf1("sin", math.sin, 0)
cos = _uf1("cos", math.cos, 1)
tanh = _uf1("tanh", math.tanh, 0)
atan = _uf1("atan", math.atan, 0)
_log = _uf1("log", math.log, None, True)
acos = _uf1("acos", math.acos, None, True)
asin = _uf1("asin", math.asin, 0, True)


def log(a):
    if a is ONE:
        return ZERO
    return _log(a)


def atan2(a, b):
    if a.op == "const" and b.op == "const":
        return const(math.atan2(float(a.val), float(b.val)))
    return _mk("atan2", (a, b))


def floor(a):
    if a.id in _LOG10:
        return floor_log10(_LOG10[a.id])
    if a.isint:
        return a
    if a.op == "const":
        return a if isinstance(a.val, float) else const(math.floor(a.val))
    if a.op == "ite":
        return ite(a.args[0], floor(a.args[1]), floor(a.args[2]))
    return _mk("floor", (a,), isint=True)


def ceil(a):
    return neg(floor(neg(a)))


def trunc(a):
    if a.isint:
        return a
    return ite(le(ZERO, a), floor(a), neg(floor(neg(a))))


def round_(a):
    """round half to even"""
    if a.isint:
        return a
    if a.op == "const":
        return a if isinstance(a.val, float) else const(round(a.val))
    if a.op == "ite":
        return ite(a.args[0], round_(a.args[1]), round_(a.args[2]))
    f = floor(add(a, HALF))
    # tie: a + 1/2 is integer -> pick the even of (f-1, f)
    tie = eq(f, add(a, HALF))
    odd = not_(eq(mul(const(2), floor(mul(HALF, f))), f))
    return ite(and_(tie, odd), add(f, MONE), f)


def fmod_floor(a, b):
    """python/torch remainder"""
    return sub(a, mul(b, floor(div(a, b))))


def abs_(a):
    if _nonneg(a):
        return a
    return ite(le(ZERO, a), a, neg(a))


def sign(a):
    return ite(lt(ZERO, a), ONE, ite(lt(a, ZERO), MONE, ZERO))


def max_(a, b):
    if a is b:
        return a
    return ite(le(b, a), a, b)


def min_(a, b):
    if a is b:
        return a
    return ite(le(a, b), a, b)


# ---------------------------------------------------------------- booleans
def _bnum(a):
    """bool node as number"""
    if a.isb:
        return ite(a, ONE, ZERO)
    return a


def tobool(a):
    if a.isb:
        return a
    return not_(eq(a, ZERO))


tonum = _bnum


def _cmp_const(a, b, f):
    return TRUE if f(float(a.val) if isinstance(b.val, float) else a.val,
                     float(b.val) if isinstance(a.val, float) else b.val) else FALSE


def _sign_const(d):
    """cheap sign knowledge of a difference -> None if unknown"""
    return None


def _sqrt_cmp(a, b, op):
    """sqrt(x) compared with a constant: compare x with its square"""
    if a.op == "sqrt" and not a.undef and b.op == "const" and not isinstance(b.val, float) and _nonneg(a.args[0]):
        if b.val < 0:
            return FALSE
        return op(a.args[0], const(b.val * b.val))
    if b.op == "sqrt" and not b.undef and a.op == "const" and not isinstance(a.val, float) and _nonneg(b.args[0]):
        if a.val < 0:
            return TRUE
        return op(const(a.val * a.val), b.args[0])
    return None


def lt(a, b):
    a, b = _bnum(a), _bnum(b)
    if a is b and not a.undef:
        return FALSE
    if a.op == "const" and b.op == "const":
        return _cmp_const(a, b, lambda x, y: x < y)
    if has_special_branch(a) or has_special_branch(b):
        return _lift2(lt, a, b)
    if is_special(a):
        return TRUE if a.val == float("-inf") else FALSE
    if is_special(b):
        return TRUE if b.val == float("inf") else FALSE
    if a.op == "ite" and _push(a, b):
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == "ite" and _push(b, a):
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    if b is ZERO and _nonneg(a) and not a.undef:
        return FALSE
    if not a.undef and not b.undef:
        (al, ah), (bl, bh) = interval(a), interval(b)
        if ah is not None and bl is not None and ah < bl:
            return TRUE
        if al is not None and bh is not None and al >= bh:
            return FALSE
    r = _sqrt_cmp(a, b, lt)
    if r is not None:
        return r
    if a.op == "exp" and b.op == "const" and b.val <= 0:
        return FALSE
    if b.op == "exp" and a.op == "const" and a.val <= 0:
        return TRUE
    return _mk("lt", (a, b), isb=True)


def _push(x, y):
    return has_special_branch(x) or ((x.args[1].op == "const" or x.args[2].op == "const") and y.op == "const")


def le(a, b):
    a, b = _bnum(a), _bnum(b)
    if a is b and not a.undef:
        return TRUE
    if a.op == "const" and b.op == "const":
        return _cmp_const(a, b, lambda x, y: x <= y)
    if has_special_branch(a) or has_special_branch(b):
        return _lift2(le, a, b)
    if is_special(a):
        return TRUE if a.val == float("-inf") else FALSE
    if is_special(b):
        return TRUE if b.val == float("inf") else FALSE
    if a.op == "ite" and _push(a, b):
        return ite(a.args[0], le(a.args[1], b), le(a.args[2], b))
    if b.op == "ite" and _push(b, a):
        return ite(b.args[0], le(a, b.args[1]), le(a, b.args[2]))
    if a is ZERO and _nonneg(b) and not b.undef:
        return TRUE
    # le(a,b) == not lt(b,a)   (real semantics; NaN handled by ok)
    return not_(lt(b, a)) if not (a.undef or b.undef) else _mk("le", (a, b), isb=True)


def eq(a, b):
    if a.isb and b.isb:
        if a is b:
            return TRUE
        if a.op == "const":
            return b if a.val else not_(b)
        if b.op == "const":
            return a if b.val else not_(a)
        if a.id > b.id:
            a, b = b, a
        return _mk("iff", (a, b), isb=True)
    a, b = _bnum(a), _bnum(b)
    if a is b and not a.undef:
        return TRUE
    if a.op == "const" and b.op == "const":
        return _cmp_const(a, b, lambda x, y: x == y)
    if has_special_branch(a) or has_special_branch(b):
        return _lift2(eq, a, b)
    if is_special(a) or is_special(b):
        return FALSE
    if a.op == "ite" and _push(a, b):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and _push(b, a):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.id > b.id:
        a, b = b, a
    if a.op == "exp" and b is ZERO or b.op == "exp" and a is ZERO:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x is ZERO and y.op == "sqrt" and not y.undef:
            return not_(lt(ZERO, y.args[0]))
        if x is ZERO and not y.undef and y.op not in ("ite",) and _nonneg(y):
            return not_(lt(ZERO, y))
    if not a.undef and not b.undef:
        (al, ah), (bl, bh) = interval(a), interval(b)
        if (ah is not None and bl is not None and ah < bl) or (al is not None and bh is not None and al > bh):
            return FALSE
    return _mk("eq", (a, b), isb=True)


def not_(a):
    if a.op == "const":
        return FALSE if a.val else TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), isb=True)


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    if (a.op == "not" and a.args[0] is b) or (b.op == "not" and b.args[0] is a):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("and", (a, b), isb=True)


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    if (a.op == "not" and a.args[0] is b) or (b.op == "not" and b.args[0] is a):
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return _mk("or", (a, b), isb=True)


def xor(a, b):
    return not_(eq(a, b))


def implies(a, b):
    return or_(not_(a), b)


def all_(xs):
    r = TRUE
    for x in xs:
        r = and_(r, x)
    return r


def any_(xs):
    r = FALSE
    for x in xs:
        r = or_(r, x)
    return r


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.isb != b.isb:
        a, b = _bnum(a), _bnum(b)
    if a is b and not c.undef:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.isb:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b and not c.undef:
        return a
    return _mk("ite", (c, a, b), isb=a.isb, isint=(a.isint and b.isint and not a.isb))


# ---------------------------------------------------------------- definedness
def ok(n):
    """Condition (bool node, always defined) under which n is a finite number."""
    if not n.undef:
        return TRUE
    if n._ok is not None:
        return n._ok
    stack = [n]
    while stack:
        m = stack[-1]
        if m._ok is not None:
            stack.pop()
            continue
        pend = [a for a in m.args if a.undef and a._ok is None]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        m._ok = _ok1(m)
    return n._ok


def _okof(a):
    return TRUE if not a.undef else a._ok


def _ok1(m):
    op = m.op
    if op == "const":
        return FALSE  # special
    if op == "ite":
        c, a, b = m.args
        return and_(_okof(c), ite(c, _okof(a), _okof(b)))
    if op == "and":
        a, b = m.args
        # IEEE comparisons never trap; a false conjunct settles the conjunction
        return or_(and_(_okof(a), _okof(b)), or_(and_(_okof(a), not_(a)), and_(_okof(b), not_(b))))
    if op == "or":
        a, b = m.args
        return or_(and_(_okof(a), _okof(b)), or_(and_(_okof(a), a), and_(_okof(b), b)))
    r = all_([_okof(a) for a in m.args])
    if op == "div":
        return r if nonzero(m.args[1]) else and_(r, not_(eq(m.args[1], ZERO)))
    if op == "sqrt":
        return r if _nonneg(m.args[0]) else and_(r, le(ZERO, m.args[0]))
    if op == "log":
        return and_(r, lt(ZERO, m.args[0]))
    if op in ("acos", "asin"):
        return and_(r, and_(le(MONE, m.args[0]), le(m.args[0], ONE)))
    return r


# ---------------------------------------------------------------- utilities
def leaves(n, acc=None, seen=None):
    """set of var nodes under n"""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    st = [n]
    while st:
        m = st.pop()
        if m.id in seen:
            continue
        seen.add(m.id)
        if m.op == "var":
            acc[m.id] = m
        else:
            st.extend(m.args)
    return acc


def topo(roots):
    """nodes under roots in dependency order (args first)"""
    order = []
    seen = set()
    st = [(r, False) for r in roots]
    while st:
        m, done = st.pop()
        if done:
            order.append(m)
            continue
        if m.id in seen:
            continue
        seen.add(m.id)
        st.append((m, True))
        for a in m.args:
            if a.id not in seen:
                st.append((a, False))
    return order


def evalf(roots, env):
    """Evaluate to floats/bools under env: {var node id: value}.  IEEE-ish; used only to
    guide the search for counterexamples, never for a verdict."""
    vals = {}
    nan = float("nan")
    for m in topo(roots):
        a = [vals[x.id] for x in m.args]
        op = m.op
        try:
            if op == "const":
                v = m.val if m.isb else float(m.val)
            elif op == "var":
                v = env[m.id]
            elif op == "add":
                v = a[0] + a[1]
            elif op == "neg":
                v = -a[0]
            elif op == "mul":
                v = a[0] * a[1]
            elif op == "div":
                v = a[0] / a[1] if a[1] != 0 else (nan if a[0] == 0 else math.copysign(float("inf"), a[0]))
            elif op == "guard0":
                v = 0.0 * a[0]
            elif op == "sqrt":
                v = math.sqrt(a[0]) if a[0] >= 0 else nan
            elif op in ("exp", "sin", "cos", "tanh", "atan", "log", "acos", "asin"):
                v = getattr(math, op)(a[0])
            elif op == "atan2":
                v = math.atan2(a[0], a[1])
            elif op == "floor":
                v = float(math.floor(a[0]))
            elif op == "lt":
                v = a[0] < a[1]
            elif op == "le":
                v = a[0] <= a[1]
            elif op == "eq":
                v = a[0] == a[1]
            elif op == "iff":
                v = a[0] == a[1]
            elif op == "not":
                v = not a[0]
            elif op == "and":
                v = a[0] and a[1]
            elif op == "or":
                v = a[0] or a[1]
            elif op == "ite":
                v = a[1] if a[0] else a[2]
            elif op == "uf":
                v = env.get(m.id, nan)
            else:
                raise NotImplementedError(op)
        except (ValueError, OverflowError):
            v = nan
        vals[m.id] = v
    return [vals[r.id] for r in roots]


def diff(roots, v):
    """symbolic derivatives of the roots with respect to the variable v, branch conditions held"""
    order = topo(roots)
    dep = set()
    for m in order:
        if m is v or any(a.id in dep for a in m.args):
            dep.add(m.id)
    D = {}

    def d(a):
        return D.get(a.id, ZERO)
    for m in order:
        if m.id not in dep or m.isb:
            continue
        op, a = m.op, m.args
        if m is v:
            r = ONE
        elif op == "add":
            r = add(d(a[0]), d(a[1]))
        elif op == "neg":
            r = neg(d(a[0]))
        elif op == "mul":
            r = add(mul(d(a[0]), a[1]), mul(a[0], d(a[1])))
        elif op == "div":
            r = sub(div(d(a[0]), a[1]), div(mul(a[0], d(a[1])), mul(a[1], a[1])))
        elif op == "guard0":
            r = m
        elif op == "sqrt":
            r = div(mul(HALF, d(a[0])), m)
        elif op == "exp":
            r = mul(m, d(a[0]))
        elif op == "sin":
            r = mul(cos(a[0]), d(a[0]))
        elif op == "cos":
            r = neg(mul(sin(a[0]), d(a[0])))
        elif op == "tanh":
            r = mul(sub(ONE, mul(m, m)), d(a[0]))
        elif op == "atan":
            r = div(d(a[0]), add(ONE, mul(a[0], a[0])))
        elif op == "log":
            r = div(d(a[0]), a[0])
        elif op in ("acos", "asin"):
            r = div(d(a[0]), sqrt(sub(ONE, mul(a[0], a[0]))))
            r = neg(r) if op == "acos" else r
        elif op == "atan2":
            r = div(sub(mul(a[1], d(a[0])), mul(a[0], d(a[1]))), add(mul(a[0], a[0]), mul(a[1], a[1])))
        elif op == "floor":
            r = ZERO
        elif op == "ite":
            r = ite(a[0], d(a[1]), d(a[2]))
        else:
            raise NotImplementedError("derivative of " + op)
        D[m.id] = r
    return [d(r) for r in roots]


def ties(roots, vs):
    """conditions under which some branch condition depending on the variables is on its boundary"""
    order = topo(roots)
    ids = {v.id for v in vs}
    dep = set()
    for m in order:
        if m.id in ids or any(a.id in dep for a in m.args):
            dep.add(m.id)
    out = {}
    for m in order:
        if m.op in ("lt", "le", "eq") and m.id in dep:
            e = eq(m.args[0], m.args[1])
            out[e.id] = e
    return list(out.values())


def show(n, depth=6):
    if n.op == "const":
        return str(n.val)
    if n.op == "var":
        return n.val[0]
    if depth == 0:
        return "…"
    return "(%s %s)" % (n.op if n.op != "uf" else str(n.val), " ".join(show(a, depth - 1) for a in n.args))


_SUBST_OPS = None


def rebuild(m, args):
    """re-apply smart constructor of m on new args"""
    global _SUBST_OPS
    if _SUBST_OPS is None:
        _SUBST_OPS = {"add": add, "neg": neg, "mul": mul, "div": div, "guard0": lambda b: guard0(b) if b.undef else ZERO,
                      "sqrt": sqrt, "exp": exp, "sin": sin, "cos": cos, "tanh": tanh, "atan": atan, "log": log,
                      "acos": acos, "asin": asin, "atan2": atan2, "floor": floor, "lt": lt, "le": le, "eq": eq,
                      "iff": eq, "not": not_, "and": and_, "or": or_, "ite": ite}
    if m.op == "uf":
        return _mk("uf", tuple(args), m.val, isb=m.isb, isint=m.isint)
    return _SUBST_OPS[m.op](*args)


def subst(roots, mapping):
    """mapping: node id -> replacement node; returns rewritten roots"""
    memo = dict(mapping)
    # process topologically, but do not descend below replaced nodes
    order = []
    seen = set()
    st = [(r, False) for r in roots]
    while st:
        m, done = st.pop()
        if done:
            order.append(m)
            continue
        if m.id in seen or m.id in memo:
            continue
        seen.add(m.id)
        st.append((m, True))
        for a in m.args:
            st.append((a, False))
    for m in order:
        if m.id in memo:
            continue
        if not m.args:
            memo[m.id] = m
            continue
        na = [memo[a.id] for a in m.args]
        if all(x is y for x, y in zip(na, m.args)):
            memo[m.id] = m
        else:
            memo[m.id] = rebuild(m, na)
    return [memo[r.id] for r in roots]


def uf(name, args, isb=False):
    return _mk("uf", tuple(args), name, isb=isb)
