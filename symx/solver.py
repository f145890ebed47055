"""Translation of term DAGs to z3, polynomial normalisation, proof strategy."""
import os
import sys
import time
from fractions import Fraction

_Z3P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _Z3P not in sys.path:
    sys.path.append(_Z3P)
import z3  # noqa: E402

from . import terms as T  # noqa: E402

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "norm": 0, "max_s": 0.0}


def bump(k, v=1):
    STATS[k] = STATS.get(k, 0) + v


# ------------------------------------------------------------------ z3 translation
def _q(fr):
    return z3.RealVal(str(fr.numerator) if fr.denominator == 1 else "%d/%d" % (fr.numerator, fr.denominator))


def z3var(n):
    if n._z3 is None:
        name, kind = n.val[:2]
        if kind == "R":
            n._z3 = z3.Real(name)
        elif kind == "B":
            n._z3 = z3.Bool(name)
        else:
            n._z3 = z3.ToReal(z3.Int(name))
    return n._z3


def to_z3(roots):
    """returns (list of z3 exprs, list of side-axiom z3 exprs)."""
    side = []
    e = {}
    ufs = {}
    for m in T.topo(roots):
        op = m.op
        a = [e[x.id] for x in m.args]
        if op == "const":
            if m.isb:
                r = z3.BoolVal(m.val)
            elif isinstance(m.val, float):
                r = z3.Real("special_%d" % m.id)
            else:
                r = _q(m.val)
        elif op == "var":
            r = z3var(m)
        elif op == "add":
            r = a[0] + a[1]
        elif op == "neg":
            r = -a[0]
        elif op == "mul":
            r = a[0] * a[1]
        elif op == "div":
            r = z3.Real("q_%d" % m.id)
            side.append(z3.Implies(a[1] != 0, r * a[1] == a[0]))
        elif op == "guard0":
            r = z3.RealVal(0)
        elif op == "sqrt":
            r = z3.Real("sqrt_%d" % m.id)
            side.append(r >= 0)
            if T._nonneg(m.args[0]):
                side.append(r * r == a[0])
            else:
                side.append(z3.Implies(a[0] >= 0, r * r == a[0]))
        elif op in ("exp", "sin", "cos", "tanh", "atan", "log", "acos", "asin", "atan2", "uf"):
            key = m.val if op == "uf" else op
            nm = "%s_%d" % (key, m.id)
            r = z3.Bool(nm) if m.isb else z3.Real(nm)
            for (b, rb) in ufs.setdefault((key, len(a)), []):
                if len(ufs[(key, len(a))]) <= 24:
                    side.append(z3.Implies(z3.And([x == y for x, y in zip(a, b)]), r == rb))
                    if op in ("exp", "log", "tanh", "atan"):
                        side.append(z3.Implies(a[0] < b[0], r < rb))
                        side.append(z3.Implies(b[0] < a[0], rb < r))
            ufs[(key, len(a))].append((a, r))
            if op == "exp":
                side.append(r > 0)
                side.append(r >= 1 + a[0])
                side.append(z3.Implies(a[0] <= 0, r <= 1))
            elif op == "tanh":
                side += [r < 1, r > -1]
            elif op in ("sin", "cos"):
                side += [r <= 1, r >= -1]
        elif op == "floor":
            i = z3.Int("fl_%d" % m.id)
            r = z3.ToReal(i)
            side.append(z3.And(r <= a[0], a[0] < r + 1))
        elif op == "lt":
            r = a[0] < a[1]
        elif op == "le":
            r = a[0] <= a[1]
        elif op in ("eq", "iff"):
            r = a[0] == a[1]
        elif op == "not":
            r = z3.Not(a[0])
        elif op == "and":
            r = z3.And(a[0], a[1])
        elif op == "or":
            r = z3.Or(a[0], a[1])
        elif op == "ite":
            r = z3.If(a[0], a[1], a[2])
        else:
            raise NotImplementedError(op)
        e[m.id] = r
    # sin^2+cos^2 = 1 for matching arguments
    for (sa, sr) in ufs.get(("sin", 1), []):
        for (ca, cr) in ufs.get(("cos", 1), []):
            if sa[0].eq(ca[0]):
                side.append(sr * sr + cr * cr == 1)
            elif len(ufs[("sin", 1)]) <= 6:
                side.append(z3.Implies(sa[0] == ca[0], sr * sr + cr * cr == 1))
    return [e[r.id] for r in roots], side


def _z3val(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(30)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


def _has_int(roots):
    return any((m.op == "floor") or (m.op == "var" and m.val[1] == "I") for m in T.topo(roots))


def _nonlinear(roots):
    for m in T.topo(roots):
        if m.op == "mul" and m.args[0].op != "const" and m.args[1].op != "const":
            return True
        if m.op in ("sqrt", "sin", "cos"):
            return True
        if m.op == "div" and m.args[1].op != "const":
            return True
    return False


def raw_check(assertions, timeout_ms=5000, model=False, tactic=None, seed=0):
    """assertions: bool nodes. -> (status, env or None). env: var node id -> Fraction/bool"""
    todo = []
    for a in assertions:
        if a is T.FALSE:
            return "unsat", None
        if a is not T.TRUE:
            todo.append(a)
    if not todo:
        return "sat", {}
    exprs, side = to_z3(todo)
    t0 = time.time()
    if tactic is None:
        s = z3.Solver()
    elif isinstance(tactic, str):
        s = z3.Tactic(tactic).solver()
    else:
        s = tactic.solver()
    s.set("timeout", int(timeout_ms))
    if seed:
        try:
            s.set("random_seed", seed)
        except z3.Z3Exception:
            pass
    s.add(exprs)
    s.add(side)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    dt = time.time() - t0
    bump("queries")
    bump(r)
    STATS["solver_s"] += dt
    STATS["max_s"] = max(STATS["max_s"], dt)
    if os.environ.get("SYMX_TRACE") and dt > 1:
        sys.stderr.write("  [z3 %s %.1fs tactic=%s n=%d]\n" % (r, dt, tactic, len(todo)))
    env = None
    if r == "sat" and model:
        m = s.model()
        env = {}
        for v in {**_leafmap(todo)}.values():
            val = _z3val(m.eval(z3var(v), model_completion=True))
            if val is None:
                return "unknown", None
            env[v.id] = val
    return r, env


def _leafmap(nodes):
    acc, seen = {}, set()
    for n in nodes:
        T.leaves(n, acc, seen)
    return acc


def check(assertions, timeout_ms=5000, model=False):
    """portfolio: default solver, then nlsat for pure-real nonlinear."""
    nl = _nonlinear(assertions)
    if not nl:
        return raw_check(assertions, timeout_ms, model)
    if _has_int(assertions):
        return raw_check(assertions, timeout_ms, model)
    r, env = raw_check(assertions, min(timeout_ms, max(1000, timeout_ms // 4)), model)
    if r != "unknown":
        return r, env
    r, env = raw_check(assertions, timeout_ms, model, tactic="qfnra-nlsat")
    return r, env


# ------------------------------------------------------------------ polynomial normal forms
class TooBig(Exception):
    pass


LIMIT = 6000
_canon_atoms = {}     # key -> representative atom id
_atom_of_node = {}    # node id -> atom id


def _padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def _reduce_mono(m):
    """rewrite sqrt^2 and sin^2 ; returns poly or None when nothing to do"""
    for i, (a, e) in enumerate(m):
        if e >= 2:
            n = T.NODES[a]
            if n.op == "sqrt":
                num, den = ratnorm(n.args[0])
                if not den:
                    rest = tuple(x for j, x in enumerate(m) if j != i)
                    if e > 2:
                        rest = tuple(sorted(rest + ((a, e - 2),)))
                    return _pmul({rest: Fraction(1)}, num)
            elif n.op == "sin":
                c = _atom(T.cos(n.args[0]))
                rest = tuple(x for j, x in enumerate(m) if j != i)
                if e > 2:
                    rest = tuple(sorted(rest + ((a, e - 2),)))
                return _pmul({rest: Fraction(1)}, {(): Fraction(1), ((c, 2),): Fraction(-1)})
    return None


def _pmul(p, q):
    if len(p) * len(q) > 400000:
        raise TooBig()
    r = {}
    extra = None
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            red = _reduce_mono(m) if any(e >= 2 for _, e in m) else None
            if red is not None:
                extra = _padd(extra or {}, red, c1 * c2)
                continue
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if extra:
        r = _padd(r, extra)
    if len(r) > LIMIT:
        raise TooBig()
    return r


_POLYS = {}   # key -> poly (for denominators)


def _pkey(p):
    # normalise leading coefficient so proportional denominators coincide
    k = frozenset(p.items())
    _POLYS.setdefault(k, p)
    return k


def _denmul(d1, d2):
    r = dict(d1)
    for k, e in d2.items():
        r[k] = r.get(k, 0) + e
    return r


def _expand(den):
    p = {(): Fraction(1)}
    for k, e in den.items():
        for _ in range(e):
            p = _pmul(p, _POLYS[k])
    return p


def _monic(p):
    """(scale, p/scale) with a canonical leading coefficient of one"""
    lead = min(p)
    c = p[lead]
    if c == 1:
        return c, p
    return c, {m: v / c for m, v in p.items()}


def ratnorm(n):
    if n._rat is not None:
        if n._rat == "big":
            raise TooBig()
        return n._rat
    for m in T.topo([n]):
        if m._rat is None and not m.isb:
            try:
                m._rat = _rat1(m)
            except TooBig:
                m._rat = "big"
                if m is n:
                    raise
    if n._rat == "big":
        raise TooBig()
    return n._rat


def _r(a):
    if a._rat == "big":
        raise TooBig()
    return a._rat if a._rat is not None else ratnorm(a)


def _rat1(m):
    op = m.op
    if op == "const":
        if isinstance(m.val, float):
            return {((m.id, 1),): Fraction(1)}, {}
        return ({(): m.val} if m.val != 0 else {}), {}
    if op == "add":
        (n1, d1), (n2, d2) = _r(m.args[0]), _r(m.args[1])
        if d1 == d2:
            num = _padd(n1, n2)
            return (num, d1) if num else ({}, {})
        lcm = dict(d1)
        for k, e in d2.items():
            lcm[k] = max(lcm.get(k, 0), e)
        m1 = {k: e - d1.get(k, 0) for k, e in lcm.items() if e - d1.get(k, 0) > 0}
        m2 = {k: e - d2.get(k, 0) for k, e in lcm.items() if e - d2.get(k, 0) > 0}
        num = _padd(_pmul(n1, _expand(m1)), _pmul(n2, _expand(m2)))
        return (num, lcm) if num else ({}, {})
    if op == "neg":
        n1, d1 = _r(m.args[0])
        return {k: -v for k, v in n1.items()}, d1
    if op == "mul":
        (n1, d1), (n2, d2) = _r(m.args[0]), _r(m.args[1])
        num = _pmul(n1, n2)
        return _cancel(num, _denmul(d1, d2)) if num else ({}, {})
    if op == "div":
        (n1, d1), (n2, d2) = _r(m.args[0]), _r(m.args[1])
        if not n2:
            return {((m.id, 1),): Fraction(1)}, {}
        c, p = _monic(n2)
        num = _pmul(n1, _expand(d2))
        num = {k: v / c for k, v in num.items()}
        return _cancel(num, _denmul(d1, {_pkey(p): 1})) if num else ({}, {})
    if op == "guard0":
        return {}, {}
    return {((_atom(m), 1),): Fraction(1)}, {}


def _cancel(num, den):
    """cancel denominators that coincide with the numerator or are single-atom factors"""
    if not den:
        return num, den
    den = dict(den)
    for k in list(den):
        while den.get(k, 0) > 0:
            p = _POLYS[k]
            if len(p) == 1:
                (mono, c), = p.items()
                q = {}
                good = True
                for m, v in num.items():
                    d = dict(m)
                    for a, e in mono:
                        if d.get(a, 0) < e:
                            good = False
                            break
                        d[a] -= e
                    if not good:
                        break
                    q[tuple(sorted((a, e) for a, e in d.items() if e))] = v / c
                if not good:
                    break
                num = q
            elif len(num) == len(p):
                c, q = _monic(num)
                if q == p:
                    num = {(): c}
                else:
                    break
            else:
                break
            den[k] -= 1
            if den[k] == 0:
                del den[k]
    return num, den


def canon(n):
    """hashable canonical key of a node (number or bool)"""
    if n.isb:
        return _canonb(n)
    try:
        num, den = ratnorm(n)
    except TooBig:
        return ("n", n.id)
    return (frozenset(num.items()), frozenset(den.items()))


_cb = {}


def _canonb(n):
    r = _cb.get(n.id)
    if r is not None:
        return r
    if n.op in ("lt", "le", "eq"):
        r = (n.op, canon(T.sub(n.args[0], n.args[1])))
    elif n.op in ("var", "const"):
        r = ("b", n.id)
    else:
        ks = [_canonb(a) if a.isb else canon(a) for a in n.args]
        if n.op in ("and", "or", "iff"):
            ks = [frozenset(ks)]
        r = (n.op, n.val) + tuple(ks)
    _cb[n.id] = r
    return r


def _atom(m):
    a = _atom_of_node.get(m.id)
    if a is not None:
        return a
    if m.op == "var":
        a = m.id
    else:
        key = (m.op, m.val if m.op == "uf" else None) + tuple(canon(x) for x in m.args)
        a = _canon_atoms.setdefault(key, m.id)
    _atom_of_node[m.id] = a
    return a


def poly_zero(n):
    """True if the rational normal form of n is identically zero."""
    try:
        num, _ = ratnorm(n)
    except TooBig:
        return False
    return not num


def rebuild_poly(p):
    """poly -> node"""
    tot = T.ZERO
    for m, c in sorted(p.items()):
        t = T.const(c)
        for a, e in m:
            t = T.mul(t, T.powi(T.NODES[a], e))
        tot = T.add(tot, t)
    return tot


# ------------------------------------------------------------------ proving
def _ite_conds(roots):
    """conditions of ites in the roots, outermost first"""
    order = T.topo(roots)
    out, seen = [], set()
    for m in reversed(order):
        if m.op == "ite":
            c = m.args[0]
            if c.id not in seen:
                seen.add(c.id)
                out.append(c)
    return out


def atoms_of_cond(c):
    """boolean leaves (comparisons / bool vars) of a condition"""
    out = []
    for m in T.topo([c]):
        if m.isb and m.op in ("lt", "le", "eq", "var", "uf") and m.op != "const":
            out.append(m)
    return out


class Deadline:
    def __init__(self, s):
        self.t = time.time() + s

    def left(self):
        return self.t - time.time()


def relevant(assumps, roots, hops=1):
    vs = set(_leafmap(roots))
    chosen = []
    rest = [(a, set(_leafmap([a]))) for a in assumps]
    for _ in range(hops):
        new = [(a, v) for a, v in rest if v & vs]
        if not new:
            break
        rest = [(a, v) for a, v in rest if not (v & vs)]
        for a, v in new:
            chosen.append(a)
        for a, v in new:
            vs |= v
    return chosen


def prove(assumps, goal, budget_s=30.0, split=True):
    """-> ('proved'|'refuted'|'unknown', env)   env = model of assumps & not goal"""
    return _prove(list(assumps), goal, Deadline(budget_s), 0, split)


def _eqs_of(goal):
    """goal as conjunction list"""
    out, st = [], [goal]
    while st:
        g = st.pop()
        if g.op == "and":
            st.extend(g.args)
        else:
            out.append(g)
    return out


def _split_atom(goal):
    """simplest boolean atom occurring in an ite condition of goal, or None"""
    best = None
    seen = set()
    for m in T.topo([goal]):
        if m.op != "ite":
            continue
        c = m.args[0]
        if c.id in seen:
            continue
        seen.add(c.id)
        for at in T.topo([c]):
            if at.isb and at.op in ("lt", "le", "eq", "var", "uf"):
                inner_ite = any(x.op == "ite" for x in T.topo([at]))
                if inner_ite:
                    continue
                k = (at.id,)
                if best is None or k < best[0]:
                    best = (k, at)
    return best[1] if best else None


def _same_atoms(roots, c):
    """boolean atoms under roots with the same canonical form as c"""
    key = _canonb(c)
    out = {c.id: c}
    for m in T.topo(roots):
        if m.isb and m.op == c.op and m.id != c.id and _canonb(m) == key:
            out[m.id] = m
    return out


def abstract_check(assertions, timeout_ms):
    """satisfiability with every nonlinear product / quotient / function application replaced by an unknown that only
    depends on its rational normal form (an over-approximation: 'unsat' is conclusive)"""
    order = T.topo(assertions)
    if len(order) > 6000:
        return "unknown"
    e, side, first, opaque = {}, [], {}, {}
    for m in order:
        op = m.op
        a = [e[x.id] for x in m.args]
        key = None
        if not m.isb and op != "const":
            key = canon(m)
        if op == "const":
            r = z3.BoolVal(m.val) if m.isb else z3.Real("special_%d" % m.id) if isinstance(m.val, float) else _q(m.val)
        elif op == "var":
            r = z3var(m)
        elif op == "add":
            r = a[0] + a[1]
        elif op == "neg":
            r = -a[0]
        elif op == "mul" and (m.args[0].op == "const" or m.args[1].op == "const"):
            r = a[0] * a[1]
        elif op == "div" and m.args[1].op == "const" and m.args[1].val != 0:
            r = a[0] / a[1]
        elif op == "guard0":
            r = z3.RealVal(0)
        elif op == "floor":
            r = opaque.get(key)
            if r is None:
                r = opaque[key] = z3.ToReal(z3.Int("afl_%d" % m.id))
            side.append(z3.And(r <= a[0], a[0] < r + 1))
        elif op == "lt":
            r = a[0] < a[1]
        elif op == "le":
            r = a[0] <= a[1]
        elif op in ("eq", "iff"):
            r = a[0] == a[1]
        elif op == "not":
            r = z3.Not(a[0])
        elif op == "and":
            r = z3.And(a[0], a[1])
        elif op == "or":
            r = z3.Or(a[0], a[1])
        elif op == "ite":
            r = z3.If(a[0], a[1], a[2])
        elif m.isb:
            r = z3.Bool("ab_%d" % _atom(m))
        else:
            r = opaque.get(key)
            if r is None:
                r = opaque[key] = z3.Real("ax_%d" % m.id)
        e[m.id] = r
        if key is not None and op != "var":
            f = first.get(key)
            if f is None:
                first[key] = r
            elif not f.eq(r):
                side.append(f == r)
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.add([e[x.id] for x in assertions])
    s.add(side)
    t0 = time.time()
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    dt = time.time() - t0
    bump("queries")
    bump("abstract")
    if r == "unsat":
        bump("unsat")
        bump("abstract_unsat")
    STATS["solver_s"] += dt
    return r


def prove_split(assumps, goal, dl, depth=0, lits=(), nleaf=None):
    """case split on ite conditions, closing leaves by normal form, then by the solver.
    -> 'proved' | 'refuted' (with env) | 'unknown'"""
    nleaf = nleaf if nleaf is not None else [0]
    if goal is T.TRUE:
        bump("norm")
        return "proved", None
    if goal.op == "eq" and poly_zero(T.sub(*goal.args)):
        bump("norm")
        return "proved", None
    if dl.left() < 0 or nleaf[0] > 3000:
        return "unknown", None
    c = _split_atom(goal) if depth < 18 else None
    if c is None:
        nleaf[0] += 1
        return _leaf(list(assumps) + list(lits), goal, dl)
    same = _same_atoms([goal] + list(assumps), c)
    res = "proved"
    for val in (True, False):
        v = T.TRUE if val else T.FALSE
        m = {i: v for i in same}
        g2, *as2 = T.subst([goal] + list(assumps), m)
        if any(a is T.FALSE for a in as2):
            continue
        as2 = [a for a in as2 if a is not T.TRUE]
        lit = c if val else T.not_(c)
        r, env = prove_split(as2, g2, dl, depth + 1, tuple(lits) + (lit,), nleaf)
        if r == "refuted":
            return r, env
        if r == "unknown":
            res = "unknown"
            if nleaf[0] > 400:
                return res, None
    return res, None


def _leaf(assumps, goal, dl):
    ng = T.not_(goal)
    left = max(0.3, dl.left())
    for hops in (0, 1, 2, 9):
        rel = relevant(assumps, [ng], hops) if hops else []
        full = len(rel) == len(assumps)
        if hops == 9 or full:
            rel, full = assumps, True
        r, env = check(rel + [ng], int(max(0.3, min(left / 3, (1.0 if not full else 8.0))) * 1000), full)
        if r == "unsat":
            return "proved", None
        if full:
            return ("refuted", env) if r == "sat" else ("unknown", None)
        if dl.left() < 0:
            return "unknown", None
    return "unknown", None


def _prove(assumps, goal, dl, depth, split):
    if goal is T.TRUE:
        bump("norm")
        return "proved", None
    if goal.op == "and":
        for g in _eqs_of(goal):
            r, env = _prove(assumps, g, dl, depth, split)
            if r != "proved":
                return r, env
        return "proved", None
    ng = T.not_(goal)
    if goal.op == "eq" and poly_zero(T.sub(*goal.args)):
        bump("norm")
        return "proved", None
    left = max(0.5, dl.left())
    if not _nonlinear([ng]):
        rel = relevant(assumps, [ng], 9)
        lin = [a for a in rel if not _nonlinear([a])]
        r, env = raw_check(lin + [ng], int(min(left, 15) * 1000), len(lin) == len(assumps))
        if r == "unsat":
            return "proved", None
        if r == "sat" and len(lin) == len(assumps):
            return "refuted", env
        if r == "sat" and len(lin) == len(rel):
            r, env = raw_check(assumps + [ng], int(min(left, 10) * 1000), True)
            if r == "sat":
                return "refuted", env
    else:
        rel = relevant(assumps, [ng], 1)
        full = len(rel) == len(assumps)
        if abstract_check(rel + [ng], 1000) == "unsat":
            return "proved", None
        r, env = raw_check(rel + [ng], int(min(400, left * 300)), full)
        if r == "unsat":
            return "proved", None
        if r == "sat" and full:
            return "refuted", env
    if _nonlinear([ng]):
        for hops in (2, 9):
            rel = relevant(assumps, [ng], hops)
            if abstract_check(rel + [ng], 1500) == "unsat":
                return "proved", None
            if len(rel) == len(assumps):
                break
    r, env = prove_split(assumps, goal, Deadline(max(1.0, dl.left() * 0.7)))
    if r != "unknown":
        return r, env
    return _leaf(list(assumps), goal, Deadline(max(2.0, dl.left())))
