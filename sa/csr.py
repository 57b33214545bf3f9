"""Loops that write a CSR matrix row by row: what one iteration appends, for each kind of row."""
from __future__ import annotations
from . import terms as T
from .terms import mk, sym, const, NONE, TRUE, FALSE, subterms, is_const, cval

J = sym("#j")


class Unknown(Exception):
    pass


def decide(c, atom):
    """three-valued evaluation of a condition; ``atom`` gives True/False/None for what is not a connective"""
    if c is TRUE or c is FALSE:
        return c is TRUE
    if c.op == "not":
        v = decide(c.args[0], atom)
        return None if v is None else not v
    if c.op in ("and", "or"):
        vs = [decide(x, atom) for x in c.args]
        if c.op == "and":
            return False if False in vs else (None if None in vs else True)
        return True if True in vs else (None if None in vs else False)
    if c.op == "ite":
        v = decide(c.args[0], atom)
        return None if v is None else decide(c.args[1 if v else 2], atom)
    if c.op == "const":
        return bool(cval(c))
    v = atom(c)
    if v is None and c.op in ("ne",):
        w = atom(mk("eq", *c.args))
        return None if w is None else not w
    return v


def resolve(t, atom, strict=True):
    """the term with conditionals decided"""
    def f(x):
        if x.op == "ite":
            v = decide(x.args[0], atom)
            if v is None:
                if strict:
                    raise Unknown("condition %s" % str(x.args[0])[:120])
                return x
            return x.args[1] if v else x.args[2]
        return x
    memo = {}

    def top(x):
        # decide outer conditionals first so that irrelevant branches are not looked at
        while x.op == "ite":
            v = decide(x.args[0], atom)
            if v is None:
                if strict:
                    raise Unknown("condition %s" % str(x.args[0])[:120])
                return x
            x = x.args[1] if v else x.args[2]
        return x
    return T.rebuild(top(x=t), f, memo)


def at(t):
    """(array, index) of an element read"""
    return (t.args[0], t.args[1]) if t.op in ("idx", "select") else (None, None)


def bounds(loop_iter):
    """lower and upper bound of a range loop"""
    if loop_iter.op == "call" and loop_iter.args[0] == "range":
        a = loop_iter.args[1]
        if len(a) == 1:
            return const(0), a[0]
        if len(a) == 2 or (len(a) == 3 and a[2] is const(1)):
            return a[0], a[1]
    return None


class Loops:
    """values of loop variables, relative to one outer loop"""

    def __init__(self, it, st, main, atom):
        self.it, self.st, self.main, self.atom = it, st, main, atom

    def iter_of(self, loop):
        return T.strip(self.it.loopinfo[loop]["iter"])

    def trips(self, loop):
        i = self.it.loopinfo[loop]
        if i.get("breaks"):
            return mk("trips", loop)
        b = bounds(T.unver(T.strip(i["iter"]))) if i.get("iter") is not None else None
        return T.sub(self.val(b[1]), self.val(b[0])) if b else mk("trips", loop)

    def _canon(self, t):
        return T.unver(T.strip(t))

    def phi(self, p):
        """info of a φ; terms are compared after stripping versions, so look through those"""
        if p in self.it.phis:
            return self.it.phis[p]
        for q, i in self.it.phis.items():
            if self._canon(q) is p:
                return i
        raise Unknown("loop variable %s" % p)

    def val(self, t, depth=0):
        """a value at some point of the main loop's body, in terms of the main loop's own variables: variables of inner
        loops that have been left are replaced by start + number of iterations"""
        if depth > 12:
            raise Unknown("nesting")
        t = resolve(self._canon(t), self.atom)
        sub = {}
        for x in subterms(t):
            if x.op == "phi" and x.args[0] != self.main and self.inner(x.args[0]) and not isinstance(x.args[1], type(None)) and self.scalar(x):
                i = self.phi(x)
                step = T.sub(resolve(self._canon(i.back), self.atom), x)
                if any(y is x for y in subterms(step)):
                    raise Unknown("loop variable %s" % x)
                s0 = self.val(i.init, depth + 1)
                sub[x] = T.add(s0, T.mul(self.val(step, depth + 1), self.trips(x.args[0])))
        return T.subst(t, sub) if sub else t

    def scalar(self, x):
        return isinstance(x.args[1], tuple) and x.args[1][0] == "v"

    def inner(self, loop):
        g = self.it.loopinfo.get(loop, {})
        return self.main in enclosing(self.it, loop)

    def step(self, p):
        """what one iteration of the main loop adds to its variable p"""
        i = self.phi(p)
        d = T.sub(self.val(i.back), p)
        if any(y.op == "phi" and y.args[0] == self.main and y is p for y in subterms(d)):
            raise Unknown("step of %s" % p)
        return d

    def init(self, p):
        return resolve(self._canon(self.phi(p).init), self.atom)


def enclosing(it, loop):
    """loops around a loop, from the guards of its recorded events"""
    i = it.loopinfo.get(loop, {})
    if "within" in i:
        return i["within"]
    best = None
    for e in it.events:
        ks = [g.args[0] for g in e.guards if g.op == "iter"]
        if loop in ks:
            best = ks[:ks.index(loop)]
            break
    i["within"] = tuple(best or ())
    return i["within"]


def active(e, main, atom):
    """(does the event happen in this iteration, inner loops it is in)"""
    inner, seen = [], False
    res = True
    for g in e.guards:
        if g.op == "iter":
            if g.args[0] == main:
                seen = True
            elif seen:
                inner.append(g.args[0])
            continue
        if not seen:
            continue
        v = decide(T.unver(T.strip(g)), atom)
        if v is False:
            return False, inner
        if v is None:
            res = None
    return (res if seen else False), inner


def lookup(L, arr, j):
    """element j of an array that an earlier loop filled position by position"""
    arr = T.unver(T.strip(arr))
    if arr.op == "phi" and isinstance(arr.args[1], tuple) and arr.args[1][0] == "h":
        i = L.phi(arr)
        b = L._canon(i.back)
        if b.op == "store" and b.args[0] is arr:
            k, v = b.args[1], b.args[2]
            if k.op == "elem":
                bd = bounds(L._canon(L.it.loopinfo[k.args[1]]["iter"])) if len(k.args) > 1 else None
                if bd and bd[0] is const(0):
                    return T.subst(v, {k: j})
        raise Unknown("contents of %s" % str(arr)[:80])
    return mk("idx", arr, j)


def piece(L, key, value, inner, cursors):
    """(cursor φ, start offset, length, lo, element) of a write of one or several consecutive elements; ``element`` is in
    terms of the index J, which runs from ``lo`` when several are written"""
    key, value = L._canon(key), L._canon(value)
    one = const(1)
    if key.op == "slice":
        if inner:
            raise Unknown("slice write in an inner loop")
        lo, hi = L.val(key.args[0]), L.val(key.args[1])
        c, off = cursor(L, lo)
        n = T.sub(hi, lo)
        a, k = at(value)
        if a is None or k.op != "slice":
            raise Unknown("value of a slice write")
        slo = L.val(k.args[0]) if k.args[0] is not NONE else const(0)
        if T.sub(L.val(k.args[1]), slo) is not n:
            raise Unknown("lengths %s and %s" % (n, T.sub(L.val(k.args[1]), slo)))
        return c, off, n, slo, resolve(lookup(L, a, J), L.atom)
    if not inner:
        c, off = cursor(L, L.val(key))
        return c, off, one, None, resolve(value, L.atom)
    if len(inner) > 1:
        raise Unknown("nested inner loops")
    loop = inner[0]
    itr = L._canon(L.it.loopinfo[loop]["iter"])
    ks = [x for x in subterms(mk("tuple", key, value)) if x.op == "elem" and len(x.args) > 1 and x.args[1] == loop]
    el = ks[0] if ks else None
    bd = bounds(itr)
    # the position: a variable of the inner loop advancing by one, or an offset plus the loop variable
    ph = [x for x in subterms(key) if x.op == "phi" and x.args[0] == loop and L.scalar(x)]
    if len(ph) == 1:
        i = L.phi(ph[0])
        if T.sub(resolve(L._canon(i.back), L.atom), ph[0]) is not one:
            raise Unknown("the write position does not advance by one")
        start = L.val(T.subst(key, {ph[0]: L._canon(i.init)}))
    elif not ph and el is not None and bd:
        start = L.val(T.subst(key, {el: bd[0]}))
        if T.sub(key, el) is not T.sub(T.subst(key, {el: bd[0]}), bd[0]):
            raise Unknown("write position")
    else:
        raise Unknown("write position")
    c, off = cursor(L, start)
    v = resolve(value, L.atom)
    if bd and el is not None:
        v = T.subst(v, {el: J})
        a, k = at(v)
        if a is not None and a.op == "phi" and k is J:
            v = resolve(lookup(L, a, J), L.atom)
        return c, off, L.trips(loop), L.val(bd[0]), v
    if el is not None:
        return c, off, L.trips(loop), mk("first", itr), T.subst(v, {el: mk("elemof", itr)})
    return c, off, L.trips(loop), None, v


def cursor(L, t):
    ph = [x for x in subterms(t) if x.op == "phi" and x.args[0] == L.main and L.scalar(x)]
    for p in ph:
        off = T.sub(t, p)
        if not any(y is p for y in subterms(off)):
            return p, off
    raise Unknown("write position %s" % str(t)[:80])


# ---- comparisons of values with constants: one case per interval between the constants -----------------------------
CMP = ("eq", "ne", "lt", "le", "gt", "ge")


def number(t, kind, env):
    """numeric value of a term in a case, None if it depends on anything else"""
    if is_const(t):
        v = cval(t)
        return float(v) if isinstance(v, (int, float)) or hasattr(v, "numerator") else None
    k = kind(t)
    if k is not None:
        return env.get(k)
    if t.op == "call" and t.args[0] in ("abs", "fabs", "libc.math.fabs", "numpy.abs", "numpy.fabs", "float", "math.fabs") and len(t.args[1]) == 1:
        v = number(t.args[1][0], kind, env)
        return None if v is None else (v if t.args[0] == "float" else abs(v))
    p = T.poly(t) if t.op == "poly" else None
    if p:
        s = 0.0
        for m, c in p.items():
            w = float(c)
            for x in m:
                v = number(x, kind, env)
                if v is None:
                    return None
                w *= v
            s += w
        return s
    if t.op == "inv":
        v = number(t.args[0], kind, env)
        return None if not v else 1.0 / v
    return None


def comparison(c, kind, env):
    """truth of a comparison (or of a value) in a case"""
    if c.op in CMP:
        a, b = (number(x, kind, env) for x in c.args)
        if a is None or b is None:
            return None
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[c.op]
    if kind(c) is not None:
        v = env.get(kind(c))
        return None if v is None else v != 0
    return None


def cases(terms, kind, zero=True, always=()):
    """the cases to look at: [{}] when no value is compared with anything.  ``zero`` names the kinds for which the value 0
    is a case of its own"""
    cs = {k: {0.0} for k in always}
    for t in terms:
        for x in subterms(T.unver(T.strip(t))):
            if x.op in CMP:
                ks = {kind(y) for y in subterms(x)} - {None}
                for k in ks:
                    cs.setdefault(k, {0.0}).update(float(cval(y)) for y in subterms(x) if is_const(y) and isinstance(cval(y), (int, float)) and not isinstance(cval(y), bool))
            elif x.op in ("and", "or", "not"):
                for y in x.args:
                    k = kind(y)
                    if k is not None:
                        cs.setdefault(k, {0.0})
        k = kind(T.unver(T.strip(t)))
        if k is not None:
            cs.setdefault(k, {0.0})
    out = [{}]
    for k, vals in sorted(cs.items()):
        pts = set(vals) | {-v for v in vals}
        s = sorted(pts)
        mids = [(a + b) / 2 for a, b in zip(s, s[1:])] + [s[0] - 1, s[-1] + 1]
        pts = sorted(pts | set(mids))
        if zero is not True and k not in zero:
            pts = [p for p in pts if p != 0]
        out = [dict(o, **{k: p}) for o in out for p in pts]
        if len(out) > 200:
            return [{}]
    return out


def case_label(env):
    return "" if not env else ", " + ", ".join("%s = %g" % i for i in sorted(env.items()))
