"""Hash-consed value terms (global value numbering) with light algebraic
normalisation.  A term stands for *what is computed*, independent of the local
names, temporaries, helper functions or statement order used to compute it."""
from __future__ import annotations
from fractions import Fraction


class Term:
    __slots__ = ("op", "args", "n", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):         # not the address: sets of terms have the same order on every run
        return self.n


_tab = {}
_cnt = [0]


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.n = op, args, _cnt[0]
        _cnt[0] += 1
        _tab[key] = t
    return t


def const(v):
    return mk("const", type(v).__name__, v if not isinstance(v, float) else repr(v))


def cval(t):
    if t.args[0] == "float":
        return float(t.args[1])
    return t.args[1]


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")


def is_const(t):
    return t.op == "const"


def is_num(t):
    return t.op == "const" and t.args[0] in ("int", "float")


def sym(name):
    return mk("sym", name)


def show(t, depth=6):
    if not isinstance(t, Term):
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.args
    s = lambda x: show(x, d)
    if o == "const":
        return repr(cval(t))
    if o == "sym":
        return a[0]
    if o == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if o in ("idx", "select"):
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "poly":
        out = []
        for mono, c in a:
            out.append("*".join(([str(c)] if c != 1 or not mono else []) + [s(m) for m in mono]))
        return "(" + " + ".join(out) + ")"
    if o == "call":
        f = a[0] if isinstance(a[0], str) else s(a[0])
        kw = ["%s=%s" % (k, s(v)) for k, v in a[2]]
        return "%s(%s)" % (f, ", ".join([s(x) for x in a[1]] + kw))
    if o == "phi":
        return "φ(%s)" % (a[1][2] if a[1][0] == "v" else "%s.%s" % (s(a[1][1]), a[1][2]))
    if o == "obj":
        return "<%s>" % (a[0],)
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if o == "seq":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if o == "fun":
        return "fn:" + a[0].qual
    if o == "cls":
        return "class:" + a[0].name
    if o == "ext":
        return a[0]
    if o == "elem":
        return "elem(%s)" % s(a[0])
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


# ------------------------------------------------------------------ algebra
def _as_poly(t):
    """-> dict mono(tuple of terms sorted) -> coef (Fraction)"""
    if t.op == "poly":
        return dict(t.args)
    if t.op == "const" and t.args[0] in ("int", "float"):
        v = cval(t)
        if v != v or v in (float("inf"), float("-inf")):
            return {(t,): Fraction(1)}
        return {(): Fraction(v)} if v else {}
    return {(t,): Fraction(1)}


def _from_poly(p, isfloat=False):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return const(0)
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return const(int(c)) if c.denominator == 1 else const(float(c))
        if len(m) == 1 and c == 1:
            return m[0]
    return mk("poly", *sorted(p.items(), key=lambda kv: ([x.n for x in kv[0]], kv[1])))


def _num_const(t):
    return t.op == "const" and t.args[0] in ("int", "float", "bool")


def add(a, b):
    if _num_const(a) and _num_const(b):
        return const(cval(a) + cval(b))
    p = dict(_as_poly(a))
    for m, c in _as_poly(b).items():
        p[m] = p.get(m, Fraction(0)) + c
    return _from_poly(p)


def neg(a):
    if _num_const(a):
        return const(-cval(a))
    return _from_poly({m: -c for m, c in _as_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


MAXMONO = 60


def mul(a, b):
    if _num_const(a) and _num_const(b):
        return const(cval(a) * cval(b))
    pa, pb = _as_poly(a), _as_poly(b)
    if len(pa) * len(pb) > MAXMONO:
        return _from_poly({_mono((mk("grp", a), mk("grp", b))): Fraction(1)})
    out = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono(m1 + m2)
            out[m] = out.get(m, Fraction(0)) + c1 * c2
    return _from_poly(out)


def _mono(fs):
    fs = list(fs)
    # cancel x * inv(x)
    invs = [f for f in fs if f.op == "inv"]
    for i in invs:
        if i in fs and i.args[0] in fs:
            fs.remove(i)
            fs.remove(i.args[0])
    return tuple(sorted(fs, key=lambda t: t.n))


def inv(b):
    if _num_const(b):
        v = cval(b)
        if v:
            return const(1 / v) if (1 / v) != int(1 / v) else const(int(1 / v))
        return mk("inv", b)
    if b.op == "inv":
        return b.args[0]
    p = _as_poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        return _from_poly({_mono(tuple(f.args[0] if f.op == "inv" else mk("inv", f) for f in m)): 1 / c})
    return mk("inv", b)


def div(a, b):
    return mul(a, inv(b))


def power(a, b):
    if is_num(b) and b.args[0] == "int" and 0 < cval(b) <= 4:
        r = a
        for _ in range(cval(b) - 1):
            r = mul(r, a)
        return r
    if is_num(b) and cval(b) == -1:
        return inv(a)
    return mk("pow", a, b)


def poly(t):
    return _as_poly(t)


# ------------------------------------------------------------------ boolean
def not_(t):
    if t.op == "const":
        return FALSE if cval(t) else TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "lt":
        return mk("le", t.args[1], t.args[0])
    if t.op == "le":
        return mk("lt", t.args[1], t.args[0])
    if t.op == "and":
        return or_(*[not_(x) for x in t.args])
    if t.op == "or":
        return and_(*[not_(x) for x in t.args])
    return mk("not", t)


def _nary(op, unit, zero, args):
    out = []
    for a in args:
        if a.op == op:
            xs = a.args
        else:
            xs = (a,)
        for x in xs:
            if x is unit:
                continue
            if x is zero:
                return zero
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    # absorption / unit resolution:  a or (not a and b) == a or b
    other = "or" if op == "and" else "and"
    ch = False
    new = []
    for x in out:
        if x.op == other:
            ys = [y for y in x.args if not_(y) not in out]
            if len(ys) != len(x.args):
                ch = True
                x = _nary(other, zero, unit, ys)
            if any(y in out for y in (x.args if x.op == other else ())):
                ch = True
                continue
        new.append(x)
    if ch:
        return _nary(op, unit, zero, new)
    return mk(op, *sorted(out, key=lambda t: t.n))


def and_(*a):
    return _nary("and", TRUE, FALSE, a)


def or_(*a):
    return _nary("or", FALSE, TRUE, a)


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "const":
        return a if cval(c) else b
    if c.op == "not":
        return ite(c.args[0], b, a)
    # canonical polarity for ordering conditions
    if c.op == "lt" :
        pass
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


def cmp_(op, a, b):
    """op in < <= > >= == != is isnot in notin"""
    if op == ">":
        op, a, b = "<", b, a
    elif op == ">=":
        op, a, b = "<=", b, a
    if op == "!=":
        return not_(cmp_("==", a, b))
    if op == "isnot":
        return not_(cmp_("is", a, b))
    if op == "notin":
        return not_(cmp_("in", a, b))
    if is_const(a) and is_const(b):
        va, vb = cval(a), cval(b)
        try:
            if op == "<":
                return const(va < vb)
            if op == "<=":
                return const(va <= vb)
            if op == "==":
                return const(va == vb)
            if op == "is":
                return const(va is vb or (type(va) is type(vb) and va == vb))
        except TypeError:
            pass
    if op == "is" and a.op == "ite" and is_const(b):
        return ite(a.args[0], cmp_("is", a.args[1], b), cmp_("is", a.args[2], b))
    if op == "==" and a.op == "ite" and is_const(b) and (is_const(a.args[1]) or is_const(a.args[2])):
        return ite(a.args[0], cmp_("==", a.args[1], b), cmp_("==", a.args[2], b))
    if op in ("==", "is"):
        if a is b and op == "is":
            return TRUE
        if a is b:
            return TRUE
        if b is NONE or a is NONE:
            x = a if b is NONE else b
            if x.op in ("obj", "tuple", "fun", "cls", "poly", "seq") or (x.op == "const" and x is not NONE):
                return FALSE
            if op == "==":
                op = "is"
        if a.n > b.n:
            a, b = b, a
        if is_const(a) and not is_const(b):
            a, b = b, a
        return mk("eq" if op == "==" else "is", a, b)
    if op in ("<", "<="):
        # canonical: compare difference when both are polynomial
        if a is b:
            return const(op == "<=")
        return mk("lt" if op == "<" else "le", a, b)
    if op == "in":
        if b.op in ("tuple", "seq") and all(is_const(x) for x in b.args):
            if is_const(a):
                return const(any(a is x or cval(a) == cval(x) for x in b.args))
            return or_(*[cmp_("==", a, x) for x in b.args])
        return mk("in", a, b)
    return mk("cmp" + op, a, b)


# ------------------------------------------------------------------ walking
def children(t):
    for a in t.args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _tch(a)


def _tch(tp):
    for x in tp:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            yield from _tch(x)


def subterms(t, phis=None, seen=None, stop=None):
    """every subterm; phi nodes are expanded through ``phis`` (id -> (init, back, conds))"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if stop and stop(x):
            continue
        st.extend(children(x))
        if phis is not None and x.op == "phi":
            st.extend(phis(x))
    return seen


def rebuild(t, f, memo=None):
    """bottom-up map: f(term with rebuilt children) -> term"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t.op == "poly":
        r = const(0)
        for mono, c in t.args:
            m = const(1)
            for x in mono:
                m = mul(m, rebuild(x, f, memo))
            coef = const(int(c)) if c.denominator == 1 else const(float(c))
            r = add(r, mul(coef, m))
        r2 = f(r)
        memo[t] = r2
        return r2
    args = tuple(_rb(a, f, memo) for a in t.args)
    op = t.op
    if op == "ite":
        r = ite(*args)
    elif op == "and":
        r = and_(*args)
    elif op == "or":
        r = or_(*args)
    elif op == "not":
        r = not_(*args)
    elif op == "eq":
        r = cmp_("==", *args)
    elif op == "lt":
        r = cmp_("<", *args)
    elif op == "le":
        r = cmp_("<=", *args)
    elif op == "inv":
        r = inv(*args)
    else:
        r = mk(op, *args)
    r = f(r)
    memo[t] = r
    return r


def _rb(a, f, memo):
    if isinstance(a, Term):
        return rebuild(a, f, memo)
    if isinstance(a, tuple):
        return tuple(_rb(x, f, memo) for x in a)
    return a


_strip_memo = {}


_unver_memo = {}


def strip(t):
    """forget allocation sites and versions: two computations of the same value
    become the same term."""
    def f(x):
        if x.op == "call" and len(x.args) > 3 and x.args[3] is not None:
            return mk("call", x.args[0], x.args[1], x.args[2], None)
        if x.op == "at":
            return x.args[0]
        return x
    return rebuild(t, f, _strip_memo)


def unver(t):
    """forget versions only: allocation sites stay apart"""
    return rebuild(t, lambda x: x.args[0] if x.op == "at" else x, _unver_memo)


def cases(t, limit=64, _pre=()):
    """expand ite nodes anywhere inside t: list of (conds tuple, ite-free term)"""
    out = []
    work = [((), t)]
    while work:
        if len(out) + len(work) > limit:
            return None
        cs, x = work.pop()
        y = None
        for s in subterms(x):
            if s.op == "ite":
                y = s
                # prefer an ite whose condition has no ite inside
                if not any(z.op == "ite" for z in subterms(s.args[0])):
                    break
        if y is None:
            out.append((cs, x))
            continue
        c = y.args[0]
        for val, pol in ((TRUE, c), (FALSE, not_(c))):
            work.append((cs + (pol,), assume_in(x, c, val)))
    return out


def assume_in(x, c, val):
    nc = not_(c)
    nval = not_(val)

    def f(z):
        if z is c:
            return val
        if z is nc:
            return nval
        if z.op == "ite" and z.args[0] is c:
            return z.args[1] if val is TRUE else z.args[2]
        return z
    return rebuild(x, f)


def subst(x, mapping):
    def f(z):
        return mapping.get(z, z)
    return rebuild(x, f)


def rational(t):
    """(numerator, denominator) polynomials of a scalar expression with quotients"""
    ms = poly(t)
    pw = {}
    for m in ms:
        for f in set(m):
            if f.op == "inv":
                pw[f] = max(pw.get(f, 0), m.count(f))
    if not pw:
        return t, const(1)
    num = const(0)
    for m, c in ms.items():
        x = _from_poly({(): c})
        for f in m:
            if f.op != "inv":
                x = mul(x, f)
        for f, k in pw.items():
            for _i in range(k - m.count(f)):
                x = mul(x, f.args[0])
        num = add(num, x)
    den = const(1)
    for f, k in pw.items():
        for _i in range(k):
            den = mul(den, f.args[0])
    n1, d1 = rational(num)
    n2, d2 = rational(den)
    return mul(n1, d2), mul(d1, n2)


def same_rational(a, b):
    """equal wherever both are defined"""
    (n1, d1), (n2, d2) = rational(a), rational(b)
    return mul(n1, d2) is mul(n2, d1)
