"""Path explorer, harness context (symbolic and concrete), proof obligations, replay."""
import itertools
import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import torch

from . import terms as T
from . import solver as S
from . import symtensor as ST
from . import shadow
from .scalars import SymReal, SymBool, wrap, wrapb, _n, _b


class Infeasible(BaseException):
    """current path contradicts its assumptions"""


class AssumeFailed(Exception):
    pass


class HarnessError(BaseException):
    """mistake in a harness (never blamed on the code under test)"""


class PathLimit(Exception):
    pass


class Inconclusive(Exception):
    pass


# ======================================================================= paths
class Path:
    def __init__(self, prefix, explorer):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self.pcset = {}
        self.assumps = []
        self.ex = explorer
        self.witness = None

    def all(self):
        return self.assumps + self.pc

    def push(self, n):
        st = [n]
        while st:
            m = st.pop()
            if m.op == "and":
                st.extend(m.args)
                continue
            if m is T.TRUE or self.pcset.get(m.id) is True:
                continue
            self.pc.append(m)
            self.pcset[m.id] = True
            self.pcset[T.not_(m).id] = False

    def known(self, n):
        if n.op == "const":
            return n.val
        k = self.pcset.get(n.id)
        if k is not None:
            return k
        if n.op == "not":
            k = self.known(n.args[0])
            return None if k is None else not k
        if n.op == "and":
            ks = [self.known(a) for a in n.args]
            if any(k is False for k in ks):
                return False
            if all(k is True for k in ks):
                return True
        if n.op == "or":
            ks = [self.known(a) for a in n.args]
            if any(k is True for k in ks):
                return True
            if all(k is False for k in ks):
                return False
        return None

    def assume(self, n):
        if n is T.FALSE:
            raise Infeasible()
        st = [n]
        while st:
            m = st.pop()
            if m.op == "and":
                st.extend(m.args)
                continue
            if m is T.TRUE or self.pcset.get(m.id) is True:
                continue
            if self.pcset.get(m.id) is False:
                raise Infeasible()
            self.assumps.append(m)
            self.pcset[m.id] = True
            self.pcset[T.not_(m).id] = False

    def feasible(self, n):
        a = S.relevant(self.all(), [n], 2)
        if len(a) <= 60 and S._nonlinear([n]) and S.abstract_check(a + [n], 300) == "unsat":
            return False
        r, _ = S.raw_check(a + [n], self.ex.feas_ms, False)
        return r != "unsat"

    def decide(self, n):
        k = self.known(n)
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            assert kind == "b", "non-deterministic replay of a path"
            self.pos += 1
            self.trace.append(("b", v))
            self.push(n if v else T.not_(n))
            return v
        t = self.feasible(n)
        f = self.feasible(T.not_(n))
        if not t and not f:
            raise Infeasible()
        if t and f:
            v = self.ex.prefer(n)
            self.ex.work.append(self.trace + [("b", not v)])
            self.ex.forks += 1
        else:
            v = t
        self.pos += 1
        self.trace.append(("b", v))
        self.push(n if v else T.not_(n))
        if self.ex.forks > self.ex.max_paths * 50:
            raise PathLimit("too many forks")
        return v

    def concretize(self, n):
        """fork over all feasible values of an integer-valued node"""
        if n.op == "const":
            return n.val
        while True:
            # values of constant leaves of ites are the natural candidates
            if self.pos < len(self.prefix):
                kind, v = self.prefix[self.pos]
                assert kind == "c", "non-deterministic replay of a path"
            else:
                v = self._candidate(n)
            self.pos += 1
            self.trace.append(("c", v))
            if self.decide(T.eq(n, T.const(v))):
                return v

    def _candidate(self, n):
        v = T.var("concretize!%d" % n.id)
        r, env = S.check(S.relevant(self.all(), [n], 2) + [T.eq(v, n)], 1000, True)
        if r == "unsat":
            raise Infeasible()
        if r != "sat" or env is None:
            if S.abstract_check(self.all(), 2000) == "unsat":
                raise Infeasible()
            # integers between the constants the term clamps to, not excluded so far
            cs = [m.val for m in T.topo([n]) if m.op == "const" and not m.isb and isinstance(m.val, Fraction) and m.val.denominator == 1]
            for k in range(int(min(cs, default=0)), min(int(max(cs, default=0)), int(min(cs, default=0)) + 64) + 1):
                kn = self.known(T.eq(n, T.const(k)))
                if kn:
                    return k
                if kn is None and S.abstract_check(self.all() + [T.eq(n, T.const(k))], 500) != "unsat":
                    return k
            raise Inconclusive("cannot find a value to concretise: %s" % T.show(n) if hasattr(T, "show") else n.op)
        val = env[v.id]
        return int(val) if val.denominator == 1 else val


class Explorer:
    def __init__(self, max_paths=2000, feas_ms=1500, deadline=None):
        self.max_paths = max_paths
        self.feas_ms = feas_ms
        self.work = [[]]
        self.forks = 0
        self.paths = 0
        self.infeasible = 0
        self.deadline = deadline

    def prefer(self, n):
        return True

    def run(self, fn):
        """fn(path) is called once per path; yields nothing, results collected by fn"""
        while self.work:
            if self.paths >= self.max_paths:
                raise PathLimit("more than %d paths" % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise PathLimit("time budget exhausted after %d paths" % self.paths)
            prefix = self.work.pop()
            p = Path(prefix, self)
            ST.PATH[0] = p
            try:
                fn(p)
                self.paths += 1
            except Infeasible:
                self.infeasible += 1
            finally:
                ST.PATH[0] = None


# ======================================================================= contexts
class Ctx:
    """what a harness sees; subclassed for symbolic and concrete runs"""
    symbolic = False
    # --- scalar helpers usable in both modes
    def ite(self, c, a, b):
        raise NotImplementedError

    def iteb(self, c, a, b):
        return self.or_(self.and_(c, a), self.and_(self.not_(c), b))

    def choose(self, name, n):
        """symbolic choice in range(n): an integer input, forked on"""
        k = self.integer(name, 0, n - 1)
        for i in range(n - 1):
            if self.branch(k == i):
                return i
        return n - 1

    def close_bool(self, a, b):
        return self.not_(self.xor(a, b))


def _flat(x):
    if isinstance(x, np.ndarray):
        return list(x.reshape(-1))
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += _flat(y)
        return out
    return [x]


class SymCtx(Ctx):
    symbolic = True
    double = True

    def __init__(self, path, case):
        self.path = path
        self.case = case
        self.obls = []          # (label, kind, goal node, data)
        self.obs = []           # observed nodes
        self.inputs = case.inputs   # name -> (kind, lo, hi)
        self.notes = {}

    # ---- inputs
    def _var(self, name, kind, lo=None, hi=None):
        v = T.var(name, kind, lo, hi)
        if name not in self.inputs:
            self.inputs[name] = (kind, lo, hi)
        elif self.inputs[name] != (kind, lo, hi):
            raise HarnessError("harness declares %s twice with different ranges" % name)
        # asserted without the interval folding (which already uses the declared range)
        if lo is not None:
            self.path.assume(T._mk("not", (T._mk("lt", (v, T.const(lo)), isb=True),), isb=True))
        if hi is not None:
            self.path.assume(T._mk("not", (T._mk("lt", (T.const(hi), v), isb=True),), isb=True))
        return v

    def real(self, name, shape=(), lo=None, hi=None, dtype=torch.float32, grad=False):
        shape = tuple(shape)
        ns = []
        for ix in np.ndindex(*shape):
            nm = name + ("" if not shape else "[" + ",".join(map(str, ix)) + "]")
            ns.append(self._var(nm, "R", lo, hi))
        t = ST.from_nodes(ns, shape, dtype)
        if grad:
            t.requires_grad_(True)
        return t

    def boolean(self, name, shape=()):
        ns = [self._var(name + (str(list(ix)) if shape else ""), "B") for ix in np.ndindex(*shape)]
        return ST.from_nodes(ns, tuple(shape), torch.bool)

    def integer(self, name, lo, hi):
        """symbolic python int"""
        return wrap(self._var(name, "I", lo, hi))

    def number(self, name, lo=None, hi=None):
        """symbolic python real"""
        return wrap(self._var(name, "R", lo, hi))

    def flag(self, name):
        return wrapb(self._var(name, "B"))

    def tensor(self, arr, dtype=torch.float32):
        """tensor from nested lists / object arrays of scalars"""
        a = np.empty(np.shape(np.array(arr, dtype=object)), dtype=object) if False else np.array(arr, dtype=object)
        ns = []
        for x in a.reshape(-1):
            if isinstance(x, (SymBool,)):
                ns.append(x.n)
            elif dtype == torch.bool:
                ns.append(_b(x))
            else:
                ns.append(_n(x))
        return ST.from_nodes(ns, a.shape, dtype)

    # ---- scalars
    def E(self, t):
        """object array of scalars of a tensor"""
        from .scalars import to_object_array
        if isinstance(t, (list, tuple)):
            return [self.E(x) for x in t]
        if isinstance(t, np.ndarray):
            return np.array(t, dtype=object)
        a = to_object_array(t)
        return a

    def ite(self, c, a, b):
        return wrap(T.ite(_b(c), _n(a), _n(b)))

    def and_(self, *xs):
        return wrapb(T.all_([_b(x) for x in xs]))

    def or_(self, *xs):
        return wrapb(T.any_([_b(x) for x in xs]))

    def not_(self, x):
        return wrapb(T.not_(_b(x)))

    def xor(self, a, b):
        return wrapb(T.xor(_b(a), _b(b)))

    def sqrt(self, x):
        return wrap(T.sqrt(_n(x)))

    def exp(self, x):
        return wrap(T.exp(_n(x)))

    def sin(self, x):
        return wrap(T.sin(_n(x)))

    def cos(self, x):
        return wrap(T.cos(_n(x)))

    def floor(self, x):
        return wrap(T.floor(_n(x)))

    def atan2(self, y, x):
        return wrap(T.atan2(_n(y), _n(x)))

    def defined(self, x):
        return wrapb(T.ok(_n(x)))

    def assume(self, c):
        self.path.assume(_b(c))

    def fact(self, x, lo=None, hi=None):
        """assume lo <= x <= hi, and let the encoder use it (call before the code under test runs)"""
        n = _n(x)
        if lo is not None:
            self.path.assume(T._mk("not", (T._mk("lt", (n, T.const(lo)), isb=True),), isb=True))
        if hi is not None:
            self.path.assume(T._mk("not", (T._mk("lt", (T.const(hi), n), isb=True),), isb=True))
        T.FACTS[n.id] = (None if lo is None else Fraction(str(lo)), None if hi is None else Fraction(str(hi)))

    def branch(self, c):
        """fork"""
        return self.path.decide(_b(c))

    # ---- obligations
    def check(self, c, label):
        self.obls.append((label, "bool", _b(c), None))

    def check_eq(self, a, b, label, tol=1e-3, scale=None):
        """all elements of a equal those of b (b: the specification)"""
        if isinstance(a, torch.Tensor):
            sa = tuple(a.shape)
            a = self.E(a)
        else:
            a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
            sa = a.shape
        if isinstance(b, torch.Tensor):
            b = self.E(b)
        b = np.asarray(b, dtype=object) if not isinstance(b, np.ndarray) else b
        if sa != b.shape:
            self.obls.append((label + ":shape %s vs %s" % (sa, b.shape), "bool", T.FALSE, None))
            return
        for ix in np.ndindex(*sa):
            x, y = a[ix], b[ix]
            xb = isinstance(x, (SymBool, bool, np.bool_))
            yb = isinstance(y, (SymBool, bool, np.bool_))
            lab = label + (str(list(ix)) if ix else "")
            if xb or yb:
                if xb != yb:
                    x, y = _n(x), _n(y)
                    self.obls.append((lab, "eq", T.eq(x, y), (x, y)))
                else:
                    self.obls.append((lab, "bool", T.eq(_b(x), _b(y)), None))
                continue
            x, y = _n(x), _n(y)
            self.obs.append(x)
            okx = T.ok(x)
            if okx is not T.TRUE:
                oky = T.ok(y)
                self.obls.append((lab + ":finite", "bool", T.implies(oky, okx), None))
            self.obls.append((lab, "eq", T.eq(x, y), (x, y)))

    def check_grad(self, fn, xs, label, tol=3e-2, value=True, rows=None, smooth=True, skip=None):
        """the gradients autograd computes for fn(*xs) are finite and equal the derivatives of what fn computes.
        value=False: finiteness only, at every point; otherwise equality, boundaries of branches excluded"""
        for x in xs:
            x.requires_grad_(True)
        outs = self.run(lambda: fn(*xs))
        outs = [outs] if isinstance(outs, torch.Tensor) else list(outs)
        vs = [ST.nodes(x) for x in xs]
        if value and smooth:
            roots = [n for o in outs for n in ST.nodes(o)]
            for t in T.ties(roots, [v for k in vs for v in k if v.op == "var"]):
                self.path.assume(T.not_(t))
        for q, o in enumerate(outs):
            ns = ST.nodes(o)
            for k in range(len(ns)) if rows is None else [r for r in rows if r < len(ns)]:
                lab = "%s: output %d[%d]" % (label, q, k)
                dep = {m.id for m in T.topo([ns[k]])}
                if not o.requires_grad:
                    g = [None] * len(xs)
                else:
                    with ST.SymMode():
                        seed = ST.from_nodes([T.ONE if j == k else T.ZERO for j in range(len(ns))], tuple(o.shape), o.dtype)
                        g = torch.autograd.grad(o, xs, grad_outputs=seed, retain_graph=True, allow_unused=True)
                for x, v, gx in zip(xs, vs, g):
                    gn = [T.ZERO] * len(v) if gx is None else ST.nodes(gx)
                    if skip is not None and skip(q, [a is x for a in xs].index(True)):
                        self.obs.extend(gn)
                        continue
                    for j in range(len(v)):
                        l2 = "%s by %d[%d]" % (lab, [a is x for a in xs].index(True), j)
                        if value:
                            if v[j].op != "var":
                                self.obs.append(gn[j])
                                continue          # an entry held constant (missing depth, last row of a transform)
                            d = T.diff([ns[k]], v[j])[0] if v[j].id in dep else T.ZERO
                            self.check_eq(np.array(wrap(gn[j]), dtype=object).reshape(1), np.array(wrap(d), dtype=object).reshape(1), l2)
                        else:
                            self.obs.append(gn[j])
                            self.obls.append((l2 + ":finite", "bool", T.implies(T.ok(ns[k]), T.ok(gn[j])), None))

    def check_finite(self, a, label):
        a = self.E(a) if isinstance(a, torch.Tensor) else np.asarray(a, dtype=object)
        for ix in np.ndindex(*a.shape):
            x = a[ix]
            if isinstance(x, (SymBool, bool)):
                continue
            self.obls.append((label + str(list(ix)) + ":finite", "bool", T.ok(_n(x)), None))

    def raises(self, fn, types=Exception):
        """True if fn raises one of types"""
        try:
            fn()
        except (Infeasible, ST.Unsupported, PathLimit, Inconclusive):
            raise
        except types:
            return True
        return False

    def run(self, fn, *a, **k):
        from . import knn
        knn.install()
        with shadow.active(), ST.SymMode():
            return fn(*a, **k)

    def narr(self, arr, dtype=None):
        from . import npshim
        return npshim.arr(arr, "f" if dtype is None else np.dtype(dtype).kind)

    def patched(self, *modules, builtins=()):
        from . import npshim
        return npshim.patched(*modules, builtins=builtins)

    def token(self, x):
        """text that stands for the number x in a file the code under test reads"""
        from . import npshim
        x = wrap(_n(x))
        if x.n.op == "const":
            return repr(float(x.n.val))
        t = "sym%d" % x.n.id
        npshim.TOKENS[t] = x
        return t

    def value(self, x):
        return x


class ConcCtx(Ctx):
    """replays a harness on plain tensors"""
    symbolic = False

    def __init__(self, env, inputs, fdtype=torch.float32):
        self.env = env            # name -> Fraction/bool
        self.inputs = inputs
        self.failures = []
        self.obs = []
        self.fdtype = fdtype
        self.double = fdtype == torch.float64
        self.nchecks = 0
        self.missing = []

    def _val(self, name, kind="R", lo=None, hi=None):
        v = self.env.get(name)
        if v is None:
            self.missing.append(name)
            if kind == "B":
                return False
            v = lo if lo is not None else (hi if hi is not None and hi < 0 else 0)
        if kind == "B":
            return bool(v)
        if kind == "I":
            return int(v)
        return float(v)

    def real(self, name, shape=(), lo=None, hi=None, dtype=torch.float32, grad=False):
        shape = tuple(shape)
        vals = []
        for ix in np.ndindex(*shape):
            nm = name + ("" if not shape else "[" + ",".join(map(str, ix)) + "]")
            vals.append(self._val(nm, "R", lo, hi))
        t = torch.tensor(vals, dtype=self._dt(dtype)).reshape(shape)
        if grad:
            t.requires_grad_(True)
        return t

    def _dt(self, dtype):
        return self.fdtype if dtype == torch.float32 else dtype

    def boolean(self, name, shape=()):
        vals = [self._val(name + (str(list(ix)) if shape else ""), "B") for ix in np.ndindex(*shape)]
        return torch.tensor(vals, dtype=torch.bool).reshape(tuple(shape))

    def integer(self, name, lo, hi):
        return self._val(name, "I", lo, hi)

    def number(self, name, lo=None, hi=None):
        return self._val(name, "R", lo, hi)

    def flag(self, name):
        return self._val(name, "B")

    def tensor(self, arr, dtype=torch.float32):
        a = np.array(arr, dtype=object)
        return torch.tensor([bool(x) if dtype == torch.bool else float(x) for x in a.reshape(-1)], dtype=torch.bool if dtype == torch.bool else torch.float64).to(self._dt(dtype)).reshape(a.shape)

    def E(self, t):
        if isinstance(t, (list, tuple)):
            return [self.E(x) for x in t]
        if isinstance(t, np.ndarray):
            return np.array(t.tolist(), dtype=object).reshape(t.shape)
        t = t.detach()
        a = np.empty(t.numel(), dtype=object)
        for k, v in enumerate(t.contiguous().view(-1).tolist()):
            a[k] = v
        return a.reshape(tuple(t.shape))

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def xor(self, a, b):
        return bool(a) != bool(b)

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float("nan")

    def exp(self, x):
        try:
            return math.exp(x)
        except OverflowError:
            return float("inf")

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def floor(self, x):
        return math.floor(x)

    def atan2(self, y, x):
        return math.atan2(y, x)

    def defined(self, x):
        return math.isfinite(x)

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def fact(self, x, lo=None, hi=None):
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise AssumeFailed()

    def branch(self, c):
        return bool(c)

    def check(self, c, label):
        self.nchecks += 1
        if not bool(c):
            self.failures.append((label, None, None))

    def check_eq(self, a, b, label, tol=1e-3, scale=None):
        if isinstance(a, torch.Tensor):
            a = self.E(a)
        if isinstance(b, torch.Tensor):
            b = self.E(b)
        a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
        b = np.asarray(b, dtype=object) if not isinstance(b, np.ndarray) else b
        self.nchecks += 1
        if a.shape != b.shape:
            self.failures.append((label + ":shape", str(a.shape), str(b.shape)))
            return
        for ix in np.ndindex(*a.shape):
            x, y = a[ix], b[ix]
            lab = label + (str(list(ix)) if ix else "")
            self.obs.append(x) if not isinstance(x, (bool, np.bool_)) and not isinstance(y, (bool, np.bool_)) else None
            if isinstance(x, (bool, np.bool_)) or isinstance(y, (bool, np.bool_)):
                if bool(x) != bool(y):
                    self.failures.append((lab, x, y))
                continue
            x, y = float(x), float(y)
            if not math.isfinite(y):
                continue
            if not math.isfinite(x) or abs(x - y) > tol * max(1.0, abs(x), abs(y), scale or 0):
                self.failures.append((lab, x, y))

    def check_grad(self, fn, xs, label, tol=3e-2, value=True, rows=None, smooth=True, skip=None):
        self.nchecks += 1
        base = [x.detach().clone() for x in xs]

        def at(vals):
            with torch.no_grad():
                o = fn(*[v.clone() for v in vals])
            return [o] if isinstance(o, torch.Tensor) else list(o)
        for x in xs:
            x.requires_grad_(True)
        outs = fn(*xs)
        outs = [outs] if isinstance(outs, torch.Tensor) else list(outs)
        fd = {}
        if value and self.double:      # single precision: differences too rough to judge by
            for p, b in enumerate(base):
                for j in range(b.numel()):
                    h = 1e-4 * max(1.0, abs(float(b.reshape(-1)[j])))
                    ev = []
                    for s in (-2, -1, 1, 2):
                        w = [v.clone() for v in base]
                        w[p].reshape(-1)[j] += s * h
                        ev.append([o.double().reshape(-1) for o in at(w)])
                    mid = [o.double().reshape(-1) for o in at(base)]
                    for q in range(len(outs)):
                        if any(e[q].shape != mid[q].shape for e in ev):
                            continue
                        fd[p, j, q] = ((ev[0][q] - 8 * ev[1][q] + 8 * ev[2][q] - ev[3][q]) / (12 * h), (ev[2][q] - mid[q]) / h, (mid[q] - ev[1][q]) / h, (ev[3][q] - ev[2][q]) / h, (ev[1][q] - ev[0][q]) / h)
        for q, o in enumerate(outs):
            flat = o.reshape(-1)
            for k in range(flat.numel()) if rows is None else [r for r in rows if r < flat.numel()]:
                if not math.isfinite(float(flat[k])):
                    continue
                lab = "%s: output %d[%d]" % (label, q, k)
                g = torch.autograd.grad(flat[k], xs, retain_graph=True, allow_unused=True) if flat.requires_grad else [None] * len(xs)
                for p in range(len(xs)):
                    gx = torch.zeros(base[p].numel()) if g[p] is None else g[p].reshape(-1)
                    if skip is not None and skip(q, p):
                        self.obs.extend(float(v) for v in gx)
                        continue
                    for j in range(base[p].numel()):
                        l2 = "%s by %d[%d]" % (lab, p, j)
                        x = float(gx[j])
                        self.obs.append(x)
                        if not value:
                            if not math.isfinite(x):
                                self.failures.append((l2 + ":finite", x, None))
                            continue
                        if (p, j, q) not in fd:
                            continue
                        y, *sl = (float(t[k]) for t in fd[p, j, q])
                        if not all(math.isfinite(t) for t in [y] + sl) or max(sl) - min(sl) > 0.2 * max(.1, max(abs(t) for t in sl)):
                            continue          # a kink or a jump within the stencil
                        if not math.isfinite(x):
                            self.failures.append((l2 + ":finite", x, y))
                        elif abs(x - y) > tol * max(1.0, abs(x), abs(y)):
                            self.failures.append((l2, x, y))

    def check_finite(self, a, label):
        self.nchecks += 1
        a = self.E(a) if isinstance(a, torch.Tensor) else np.asarray(a, dtype=object)
        for ix in np.ndindex(*a.shape):
            x = a[ix]
            if not isinstance(x, (bool, np.bool_)) and not math.isfinite(float(x)):
                self.failures.append((label + str(list(ix)) + ":finite", x, None))

    def raises(self, fn, types=Exception):
        try:
            fn()
        except AssumeFailed:
            raise
        except types:
            return True
        return False

    def run(self, fn, *a, **k):
        return fn(*a, **k)

    def value(self, x):
        return x

    def narr(self, arr, dtype=None):
        """numpy input array of the code under test"""
        a = np.array(arr, dtype=object)
        if dtype is None:
            dtype = np.float64 if self.double else np.float32
        return np.array([float(x) for x in a.reshape(-1)], dtype=np.float64).astype(dtype).reshape(a.shape)

    def patched(self, *modules, builtins=()):
        import contextlib
        return contextlib.nullcontext()

    def token(self, x):
        return repr(float(x))


# ======================================================================= cases
class Case:
    def __init__(self, name, fn, budget=60.0, max_paths=2000, per_obl=20.0, tiers=("quick", "thorough"), replay_tol=True,
                 feas_ms=1500, known=None, bounds=None, group=True):
        self.name = name
        self.fn = fn
        self.budget = budget
        self.max_paths = max_paths
        self.per_obl = per_obl
        self.tiers = tiers
        self.inputs = {}
        self.feas_ms = feas_ms
        self.bounds = bounds or {}
        self.group = group


FUNCS = {}


def start_function_trace():
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "symx")
    except ValueError:
        return
    repo = os.environ.get("SYMX_REPO", "/repo") + "/gradslam"

    def start(code, off):
        if code.co_filename.startswith(repo):
            FUNCS[os.path.relpath(code.co_filename, repo + "/..") + ":" + code.co_qualname] = 1
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def names_env(env, inputs):
    out = {}
    for vid, val in env.items():
        n = T.NODES[vid]
        if n.op == "var":
            out[n.val[0]] = val
    return out


def replay(case, env, fdtype=torch.float32):
    """run the harness on the real code; -> (status, info) status in pass/fail/raise/assume"""
    c = ConcCtx(env, case.inputs, fdtype)
    ST.PATH[0] = None
    old = torch.get_default_dtype()
    try:
        torch.set_default_dtype(fdtype)
        case.fn(c)
    except AssumeFailed:
        return "assume", c
    except Exception as e:   # noqa
        if isinstance(e, (ZeroDivisionError, OverflowError)):
            fr = traceback.extract_tb(e.__traceback__)[-1]
            if "/props/" in fr.filename:
                return "assume", c      # the specification itself is undefined at this input
        c.exc = "%s: %s" % (type(e).__name__, str(e)[:300])
        c.tb = traceback.format_exc()
        if c.failures:
            return "fail", c
        return "raise", c
    finally:
        torch.set_default_dtype(old)
    return ("fail" if c.failures else "pass"), c


def sample_env(inputs, rng, scale=None):
    """random 'nice' rational values inside declared ranges"""
    env = {}
    sc = scale or rng.choice([1, 2, 3])
    for nm, (kind, lo, hi) in inputs.items():
        if kind == "B":
            env[nm] = rng.random() < 0.5
            continue
        if kind == "I":
            env[nm] = Fraction(rng.randint(int(lo if lo is not None else -5), int(hi if hi is not None else 5)))
            continue
        l = Fraction(str(lo)) if lo is not None else Fraction(-2 * sc)
        h = Fraction(str(hi)) if hi is not None else max(Fraction(2 * sc), l + 2 * sc)
        if lo is None:
            l = min(l, h - 4 * sc)
        if h - l > 8 * sc and lo is not None:
            h = l + 8 * sc
        r = rng.random()
        if r < 0.06 and l <= 0 <= h:
            env[nm] = Fraction(0)
        else:
            env[nm] = l + (h - l) * Fraction(rng.randint(1, 63), 64)
    return env


def vid_env(env):
    return {n.id: v for n, v in ((T.var(nm, k), env[nm]) for nm, k in [])}


class Finding(Exception):
    def __init__(self, info):
        self.info = info


def _margin_goal(kind, goal, data, m):
    """negated goal with a margin"""
    if kind == "eq" and data is not None and m:
        d = T.sub(data[0], data[1])
        mm = T.const(m)
        return T.or_(T.lt(mm, d), T.lt(d, T.neg(mm)))
    return T.not_(goal)


def _robust(n, m, neg=False, memo=None):
    """n (or its negation) with every strict or non-strict comparison strengthened by the margin m: a model survives rounding"""
    memo = {} if memo is None else memo
    k = (n.id, neg)
    if k in memo:
        return memo[k]
    r = None
    if n.op == "not":
        r = _robust(n.args[0], m, not neg, memo)
    elif n.op in ("and", "or"):
        a, b = (_robust(x, m, neg, memo) for x in n.args)
        r = T.and_(a, b) if (n.op == "and") != neg else T.or_(a, b)
    elif n.op in ("lt", "le") and not all(x.isint or (x.op == "const" and not isinstance(x.val, float) and x.val.denominator == 1) for x in n.args):
        a, b = n.args if not neg else n.args[::-1]
        r = T.le(T.add(a, T.const(m)), b)
    elif n.op == "eq" and neg and not n.args[0].isb and not all(x.isint for x in n.args):
        d = T.sub(n.args[0], n.args[1])
        r = T.or_(T.le(T.const(m), d), T.le(d, T.const(-m)))
    else:
        r = T.not_(n) if neg else n
    memo[k] = r
    return r


_TRANS = ("exp", "sin", "cos", "tanh", "atan", "log", "acos", "asin", "atan2")


def _pinned(q, env, rounds=6, timeout=3000):
    """models of q in which the transcendental functions have their true values: their arguments are pinned, first where the
    last model put them, then at round numbers"""
    fs = [n for n in T.topo(q) if n.op in _TRANS]
    if not fs:
        return
    fs = fs[:24]
    groups = {}
    for n in fs:
        groups.setdefault(tuple(a.id for a in n.args), []).append(n)
    nice = [Fraction(0), Fraction(-1, 2), Fraction(-1, 64), Fraction(1, 2), Fraction(-3), Fraction(-1, 4096), Fraction(1), Fraction(-10), Fraction(3), Fraction(2), Fraction(-1)]

    def pin(n, vals):
        try:
            y = getattr(math, n.op)(*[float(v) for v in vals])
        except (ValueError, OverflowError):
            return T.FALSE
        w = 1e-9 * (1 + abs(y))
        return T.and_(T.le(T.const(Fraction(y - w)), n), T.le(n, T.const(Fraction(y + w))))
    for k in range(rounds):
        pins = []
        cur = env
        for key, ns in groups.items():
            args = [T.NODES[i] for i in key]
            cands = []
            if cur is not None:
                try:
                    v = T.evalf(args, {i: (x if isinstance(x, bool) else float(x)) for i, x in cur.items()})
                    if all(math.isfinite(x) for x in v):
                        cands.append([Fraction(x).limit_denominator(4096) for x in v])
                except Exception:   # noqa
                    pass
            for j in range(3):
                cands.append([nice[(k * 3 + j + len(pins)) % len(nice)]] * len(args))
            if all(a.op == "const" for a in args):
                pins += [pin(n, [a.val for a in args]) for n in ns]
                continue
            got = False
            for v in cands:
                p = [T.eq(a, T.const(x)) for a, x in zip(args, v)] + [pin(n, v) for n in ns]
                r, e = S.check(q + pins + p, timeout, True)
                if r == "sat" and e is not None:
                    pins += p
                    cur = e
                    got = True
                    break
            if not got:
                break
        else:
            if cur is not None:
                yield cur
        env = None


def find_witnesses(case, base, ng_list, rng, budget_s, first_env=None):
    """generate candidate input assignments satisfying base + negated goal"""
    t_end = time.time() + budget_s
    if first_env is not None:
        yield names_env(first_env, case.inputs)
    if any(n.op in _TRANS for n in T.topo(base + ng_list[-1:])):
        for e in _pinned(base + ng_list[-1:], first_env):
            yield names_env(e, case.inputs)
            if time.time() > t_end:
                return
    memo = {}
    for m in (Fraction(1, 16), Fraction(1, 1024), Fraction(1, 10 ** 6)):
        memo = {}
        q = [_robust(n, m, False, memo) for n in base + ng_list[-1:]]
        r, env = S.check(q, 3000, True)
        if r == "sat" and env is not None:
            yield names_env(env, case.inputs)
            break
    # well-conditioned solver models: variables in a small box, growing margins
    leaf = S._leafmap(base + [g for g in ng_list])
    box = []
    for v in leaf.values():
        if v.val[1] == "R":
            box.append(T.le(v, T.const(20)))
            box.append(T.le(T.const(-20), v))
    for ng in ng_list:
        if time.time() > t_end:
            return
        r, env = S.check(base + box + [ng], int(max(0.5, min(8, t_end - time.time())) * 1000), True)
        if r == "sat" and env is not None:
            yield names_env(env, case.inputs)
    # solver with most inputs pinned to sampled values
    base_ids = {v.id: v for v in leaf.values()}
    k = 0
    while time.time() < t_end and k < 400:
        k += 1
        ng = ng_list[0] if k % 2 else ng_list[-1]
        env = sample_env(case.inputs, rng)
        byid = {}
        for v in base_ids.values():
            nm = v.val[0]
            if nm in env:
                byid[v.id] = env[nm]
        free = [v for v in base_ids.values() if v.id not in byid]
        if not free:
            try:
                fe = {i: (bool(x) if isinstance(x, bool) else float(x)) for i, x in byid.items()}
                vals = T.evalf(base + [ng], fe)
                if all(v is True for v in vals):
                    yield dict(env)
                    continue
            except Exception:
                pass
        if k % 8 == 1:
            # pin a random subset, let the solver complete
            frac = rng.choice([0.0, 0.3, 0.6, 0.85])
            pins = []
            for v in base_ids.values():
                if v.id in byid and rng.random() < frac:
                    val = byid[v.id]
                    pins.append(v if val is True else T.not_(v) if val is False else T.eq(v, T.const(val)))
            r, e2 = S.check(base + pins + [ng], 1500, True)
            if r == "sat" and e2 is not None:
                e3 = dict(env)
                e3.update(names_env(e2, case.inputs))
                yield e3


def input_witness(case, base, rng, budget_s=10):
    """an input satisfying the path (assumptions + pc), well conditioned if possible"""
    t_end = time.time() + budget_s
    leaf = S._leafmap(base)
    for k in range(60):
        env = sample_env(case.inputs, rng)
        fe = {}
        okv = True
        for v in leaf.values():
            if v.val[0] not in env:
                okv = False
                break
            x = env[v.val[0]]
            fe[v.id] = x if isinstance(x, bool) else float(x)
        if not okv:
            break
        try:
            if all(x is True for x in T.evalf(base, fe)):
                return env, "sampled"
        except Exception:
            pass
    box = []
    for v in leaf.values():
        if v.val[1] == "R":
            box += [T.le(v, T.const(8)), T.le(T.const(-8), v)]
    for b in (box, []):
        # partially pinned first: gives generic (non-zero, distinct) values
        for frac in (0.7, 0.4, 0.0):
            if time.time() > t_end:
                break
            env = sample_env(case.inputs, rng)
            pins = []
            for v in leaf.values():
                if v.val[0] in env and rng.random() < frac:
                    val = env[v.val[0]]
                    pins.append(v if val is True else T.not_(v) if val is False else T.eq(v, T.const(val)))
            r, e = S.check(base + b + pins, 3000, True)
            if r == "sat" and e is not None:
                env.update(names_env(e, case.inputs))
                return env, "solver"
            if r == "unsat" and frac == 0.0 and not b:
                return None, "unsat"
    return None, "unknown"


def run_case(case, seed, deadline, replay_dir, prop):
    """explore one case.  Returns a result dict."""
    res = _run_case(case, seed, deadline, replay_dir, prop)
    if not res["violations"] and any(k in e for e in res["errors"] for k in shadow.NEED):
        # the code under test turns numbers into machine floats: again with that modelled
        shadow.ON[0] = True
        try:
            res = _run_case(case, seed, deadline, replay_dir, prop)
        finally:
            shadow.ON[0] = False
    return res


def _run_case(case, seed, deadline, replay_dir, prop):
    rng = random.Random("%d/%s" % (seed, case.name))
    t0 = time.time()
    res = {"case": case.name, "paths": 0, "obligations": 0, "proved": 0, "labels": 0, "status": "ok",
           "violations": [], "errors": [], "diff_points": 0, "reach": 0, "bounds": case.bounds, "infeasible_paths": 0}
    dl = min(deadline, t0 + case.budget)
    ex = Explorer(case.max_paths, case.feas_ms, dl)
    mism = []

    def report(label, env, c, why):
        path = os.path.join(replay_dir, "%s-%s-%d.json" % (prop, _safe(case.name), len(res["violations"])))
        os.makedirs(replay_dir, exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": prop, "case": case.name, "label": label, "why": why,
                       "dtype": str(c.fdtype), "inputs": {k: (v if isinstance(v, bool) else str(v)) for k, v in env.items()},
                       "observed": [(l, repr(a), repr(b)) for l, a, b in c.failures[:10]],
                       "exception": getattr(c, "exc", None)}, f, indent=1)
        res["violations"].append({"label": label, "replay": path, "why": why, "detail": [(l, repr(a), repr(b)) for l, a, b in c.failures[:3]],
                                  "exception": getattr(c, "exc", None)})

    def try_env(env, label, why):
        """replay; True if it shows a violation"""
        st, c = replay(case, env)
        if st in ("fail", "raise"):
            report(label, env, c, why)
            return True
        if label != "exception":
            # single-precision cancellation may hide the difference: the same code in double precision
            st, c = replay(case, env, torch.float64)
            if st == "fail":
                report(label, env, c, why + ", replayed in double precision")
                return True
        return False

    def one(p):
        c = SymCtx(p, case)
        exc = None
        try:
            case.fn(c)
        except (Infeasible, PathLimit, Inconclusive):
            raise
        except ST.Unsupported as e:
            # maybe the code genuinely misbehaves here: replay decides, else engine error
            exc = ("unsupported", "%s" % e, traceback.format_exc())
        except Exception as e:   # noqa
            exc = ("raise", "%s: %s" % (type(e).__name__, str(e)[:300]), traceback.format_exc())
        base = p.all()
        if exc is not None:
            env, how = input_witness(case, base, rng)
            if env is None and how == "unsat":
                raise Infeasible()
            if env is not None and try_env(env, "exception", exc[1]):
                return
            if exc[0] == "raise" and env is not None:
                # other witnesses of the same path
                for _ in range(5):
                    e2, _h = input_witness(case, base, rng, 4)
                    if e2 is not None and try_env(e2, "exception", exc[1]):
                        return
            res["errors"].append("%s in symbolic run (%s): %s" % (exc[0], exc[1], exc[2][-1200:]))
            return
        # obligations
        todo = []
        for (label, kind, goal, data) in c.obls:
            res["obligations"] += 1
            if goal is T.TRUE:
                res["proved"] += 1
                S.bump("norm")
                continue
            todo.append((label, kind, goal, data))
        unknown = []
        feas_checked = [False]

        def ensure_feasible():
            if not feas_checked[0]:
                feas_checked[0] = True
                r, _ = S.check(base, 4000, False)
                if r == "unsat":
                    raise Infeasible()

        for (label, kind, goal, data) in todo:
            if len(res["violations"]) >= 1:
                break
            if goal is T.FALSE:
                ensure_feasible()
            b = min(case.per_obl, max(1.0, dl - time.time()))
            tp = time.time()
            r, env = S.prove(base, goal, b)
            if os.environ.get("SYMX_SLOW") and time.time() - tp > float(os.environ["SYMX_SLOW"]):
                print("slow %.1fs %s %s: %s" % (time.time() - tp, case.name, label, r), flush=True)
            if r == "proved":
                res["proved"] += 1
                continue
            # concrete counterexample
            ngs = [_margin_goal(kind, goal, data, Fraction(m)) for m in ("1/2", "1/10", "1/100")] if kind == "eq" and data else [T.not_(goal)]
            hit = False
            n = 0
            for w in find_witnesses(case, base, ngs, rng, min(25, max(3, dl - time.time())), env):
                n += 1
                if try_env(w, label, "solver: %s" % r):
                    hit = True
                    break
                if n > 60:
                    break
            if hit:
                break
            # is it only a sub-tolerance difference?
            if kind == "eq" and data is not None:
                d = T.sub(data[0], data[1])
                tol = T.mul(T.const(Fraction(1, 2000)), T.add(T.ONE, T.abs_(data[1])))
                r2, _ = S.prove(base, T.and_(T.le(d, tol), T.le(T.neg(tol), d)), min(10, max(1, dl - time.time())))
                if r2 == "proved":
                    res["proved"] += 1
                    res["within_tolerance"] = res.get("within_tolerance", 0) + 1
                    continue
            unknown.append((label, r))
            if len(unknown) > 3:
                break
        for label, r in unknown:
            res["errors"].append("obligation %s: %s without a reproducing input" % (label, "refuted" if r == "refuted" else "undecided"))
        # reachability witness + differential validation of the encoding on this path
        tries = 3 if not res["violations"] and not unknown and (res["diff_points"] < 3 or rng.random() < 0.05) and res["diff_points"] < 12 else 0
        for _try in range(tries):
            if _try and res["diff_points"] > d0:
                break
            d0 = res["diff_points"]
            env, how = input_witness(case, base, rng)
            if env is None and how == "unsat":
                raise Infeasible()
            if env is not None:
                res["reach"] += 1
                st, cc = replay(case, env)
                if st in ("fail", "raise"):
                    # the real code breaks the property on an input of a path the encoding proved: reported when it is
                    # not a rounding artefact of one ill-conditioned input, i.e. when other inputs of the path fail too
                    others = [replay(case, e2)[0] for e2 in
                              [input_witness(case, base, rng, 5)[0] for _ in range(4)] if e2 is not None]
                    if all(o in ("fail", "raise") for o in others):
                        report((cc.failures[0][0] if cc.failures else "exception"), env, cc,
                               "replay of a path witness on the real code (%s)" % how)
                        return
                    mism.append(("replay", cc.failures[:1] or getattr(cc, "exc", None)))
                if st == "pass" and c.obs:
                    fe = {}
                    bad = False
                    for v in S._leafmap(c.obs).values():
                        if v.val[0] not in env:
                            bad = True
                            break
                        x = env[v.val[0]]
                        fe[v.id] = x if isinstance(x, bool) else float(x)
                    if not bad and len(cc.obs) == len(c.obs):
                        vals = T.evalf(c.obs, fe)
                        worst, nbad, ntot = 0.0, 0, 0
                        for a, b2 in zip(vals, cc.obs):
                            if isinstance(a, bool) or isinstance(b2, bool):
                                continue
                            if math.isfinite(a) and math.isfinite(float(b2)):
                                dev = abs(a - float(b2)) / max(1.0, abs(a))
                                ntot += 1
                                if dev > 5e-3:
                                    nbad += 1
                                else:
                                    worst = max(worst, dev)
                        if nbad > 0.3 * ntot:
                            # float cancellation at a degenerate input, or an encoding bug?  decided over several inputs
                            mism.append((nbad, ntot))
                        else:
                            res["diff_points"] += 1
                            res["encoding_max_dev"] = max(res.get("encoding_max_dev", 0.0), worst)
                            if "sample" not in res:
                                res["sample"] = {k: (v if isinstance(v, bool) else float(v)) for k, v in list(env.items())[:12]}

    def one_guard(p):
        one(p)
        if res["violations"] or len(res["errors"]) >= 4:
            ex.work.clear()

    try:
        ex.run(one_guard)
    except HarnessError as e:
        res["errors"].append("harness: %s" % e)
    except PathLimit as e:
        res["errors"].append("bound exceeded: %s" % e)
    except Inconclusive as e:
        res["errors"].append("inconclusive: %s" % e)
    res["paths"] = ex.paths
    res["infeasible_paths"] = ex.infeasible
    if mism and res["diff_points"] < len(mism) / 4 and not res["violations"]:
        res["errors"].append("encoding disagrees with the real code on path witnesses: %r" % mism[:5])
    if mism:
        res["ill_conditioned_points"] = len(mism)
    if ex.paths == 0 and not res["violations"] and not res["errors"]:
        res["errors"].append("vacuous: no feasible path")
    if res["obligations"] == 0 and not res["violations"] and not res["errors"]:
        res["errors"].append("vacuous: no obligation reached")
    if res["reach"] == 0 and not res["violations"] and not res["errors"]:
        res["errors"].append("vacuous: no path witness could be constructed")
    res["wall_s"] = time.time() - t0
    res["solver"] = {k: v for k, v in S.STATS.items()}
    res["functions"] = sorted(FUNCS)
    res["ops"] = dict(ST.SEEN_OPS)
    if res["violations"]:
        res["status"] = "violation"
    elif res["errors"]:
        res["status"] = "error"
    return res


def _safe(s):
    return "".join(ch if ch.isalnum() or ch in "-_" else "_" for ch in s)[:80]
