"""Linear inequalities over opaque terms (a convex-polyhedra domain with
Fourier-Motzkin emptiness test)."""
from __future__ import annotations
from fractions import Fraction
from . import terms as T

LIMIT = 400


def ge0(t, strict=False):
    """constraint t >= 0 (t > 0 when strict)"""
    p = T.poly(t)
    return ({m: Fraction(c) for m, c in p.items() if c}, strict)


def of_cond(c):
    """constraints of a comparison, or None when it is not one"""
    if c.op == "lt":
        return [ge0(T.sub(c.args[1], c.args[0]), True)]
    if c.op == "le":
        return [ge0(T.sub(c.args[1], c.args[0]), False)]
    if c.op == "eq":
        d = T.sub(c.args[0], c.args[1])
        return [ge0(d), ge0(T.sub(T.const(0), d))]
    if c.op == "and":
        out = []
        for x in c.args:
            r = of_cond(x)
            if r is None:
                return None
            out += r
        return out
    return None


def facts(cons):
    """|x| >= x, |x| >= -x ; max/min of two"""
    out = []
    for p, _ in cons:
        for m in p:
            for a in m:
                if a.op == "call" and str(a.args[0]) in ("abs", "numpy.abs", "math.fabs", "numpy.fabs", "numpy.absolute") and len(a.args[1]) == 1:
                    x = a.args[1][0]
                    out += [ge0(T.sub(a, x)), ge0(T.add(a, x))]
                if a.op == "call" and str(a.args[0]) == "max":
                    out += [ge0(T.sub(a, x)) for x in a.args[1]]
                if a.op == "call" and str(a.args[0]) == "min":
                    out += [ge0(T.sub(x, a)) for x in a.args[1]]
    return out


def empty(cons):
    """True when the constraints have no solution; False otherwise (None: gave up)"""
    cons = [(dict(p), s) for p, s in cons]
    while True:
        vs = {}
        nxt = []
        for p, s in cons:
            p = {m: c for m, c in p.items() if c}
            if not p or set(p) == {()}:
                v = p.get((), 0)
                if v < 0 or (s and v <= 0):
                    return True
                continue
            nxt.append((p, s))
            for m, c in p.items():
                if m:
                    vs.setdefault(m, [0, 0])[c > 0] += 1
        cons = nxt
        if not cons:
            return False
        v = min(vs, key=lambda m: vs[m][0] * vs[m][1])
        pos = [(p, s) for p, s in cons if p.get(v, 0) > 0]
        neg = [(p, s) for p, s in cons if p.get(v, 0) < 0]
        rest = [(p, s) for p, s in cons if not p.get(v, 0)]
        for p, s in pos:
            for q, r in neg:
                a, b = p[v], -q[v]
                n = {}
                for m, c in p.items():
                    n[m] = n.get(m, 0) + c * b
                for m, c in q.items():
                    n[m] = n.get(m, 0) + c * a
                n.pop(v, None)
                rest.append((n, s or r))
        if len(rest) > LIMIT:
            return None
        cons = rest


def implied(conds, goal, strict=False):
    """conds (terms) imply goal >= 0?  True / False / None (+ the conditions that were not linear)"""
    cons, odd = [], []
    for c in conds:
        r = of_cond(c)
        if r is None:
            odd.append(c)
        else:
            cons += r
    neg = ge0(T.sub(T.const(0), goal), not strict)
    allc = cons + [neg]
    allc += facts(allc)
    e = empty(allc)
    if e:
        return True, odd
    return (False if e is False else None), odd


def dnf(c, limit=64):
    """conjunctions of atoms"""
    if c.op == "or":
        out = [d for x in c.args for d in dnf(x, limit)]
    elif c.op == "and":
        out = [()]
        for x in c.args:
            out = [a + b for a in out for b in dnf(x, limit)]
            if len(out) > limit:
                break
    elif c.op == "not" and c.args[0].op in ("and", "or"):
        inner = c.args[0]
        return dnf(T.mk("or" if inner.op == "and" else "and", *[T.not_(x) for x in inner.args]), limit)
    else:
        out = [(c,)]
    return out


def possible(conds, extra=(), assumed=()):
    """(True/False/None, vague): can the conditions hold together with the constraints; atoms that are not linear are free, but an atom and its
    negation exclude one another; vague when a free atom matters"""
    alts = [()]
    for c in conds:
        alts = [a + b for a in alts for b in dnf(c)]
        if len(alts) > 512:
            return None, True
    vague = True
    some = False
    for a in alts:
        cons, free, dead = list(extra), set(), False
        for x in a:
            if x is T.FALSE or T.not_(x) in assumed:
                dead = True
                break
            if x is T.TRUE or x in assumed:
                continue
            q = of_cond(x)
            if q is None:
                if T.not_(x) in free:
                    dead = True
                    break
                free.add(x)
            else:
                cons += q
        if dead or empty(cons):
            continue
        some = True
        if not free:
            vague = False
    return some, vague
