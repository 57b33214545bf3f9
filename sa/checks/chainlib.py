"""Sequences as (base, first, step, n) and running products over them."""
from __future__ import annotations
from ..terms import mk, const, NONE, subterms, rebuild
from .. import terms as T

LISTY = {"list", "tuple", "numpy.array", "numpy.asarray", "iter", ".copy", "numpy.asanyarray", ".tolist"}
REV = {"reversed", "numpy.flip", "numpy.flipud"}
SAME = {".copy", ".tocsr", ".tocsc", ".toarray", ".todense", ".astype", "numpy.asarray", "numpy.array", "copy.copy", "copy.deepcopy",
        "scipy.sparse.csr_matrix"}


class Seq:
    """entries base[first + step*p], p = 0..n-1 (base None: the numbers themselves)"""
    __slots__ = ("base", "first", "step", "n")

    def __init__(self, base, first, step, n):
        self.base, self.first, self.step, self.n = base, first, step, n

    def __repr__(self):
        return "%s[%s%s p], %s entries" % (self.base, self.first, "+" if self.step > 0 else "-", self.n)

    def rev(self):
        return Seq(self.base, T.add(self.first, T.mul(const(self.step), T.sub(self.n, const(1)))), -self.step, self.n)

    def at(self, p):
        i = T.add(self.first, T.mul(const(self.step), p))
        return i if self.base is None else mk("idx", self.base, i)


def length(t, it=None, st=None):
    s = seq(t, it, st)
    return s.n if s is not None else mk("call", "len", (t,), (), None)


def num(t):
    return T.cval(t) if T.is_const(t) and isinstance(T.cval(t), int) and not isinstance(T.cval(t), bool) else None


def lens(t, it=None, st=None):
    """len(...) of derived sequences in terms of their base"""
    def f(x):
        if x.op == "call" and x.args[0] == "len" and len(x.args[1]) == 1:
            s = seq(x.args[1][0], it, st)
            if s is not None:
                return s.n
        return x
    return rebuild(t, f)


def seq(t, it=None, st=None, depth=0):
    """describe a sequence term; atoms are sequences of their own"""
    if depth > 12:
        return None
    r = lambda x: seq(x, it, st, depth + 1)
    if t.op == "contents":
        return r(t.args[1])
    if t.op == "obj" and st is not None:
        c = st.heap.get((t, "[]"))
        if c is None and it is not None:
            vs = it.heaplog.get((t, "[]")) or ()
            c = next(iter(vs)) if len(vs) == 1 else None
        if c is not None:
            return r(c)
        return None
    if t.op == "listof" and len(t.args) == 1:
        return r(t.args[0])
    if t.op == "reversedof" and len(t.args) == 1:
        s = r(t.args[0])
        return s.rev() if s else None
    if t.op == "call" and t.args[0] == "range":
        a = [lens(x, it, st) for x in t.args[1]]
        if len(a) == 1:
            return Seq(None, const(0), 1, a[0])
        if len(a) == 2:
            return Seq(None, a[0], 1, T.sub(a[1], a[0]))
        if len(a) == 3 and num(a[2]) == -1:
            return Seq(None, a[0], -1, T.sub(a[0], a[1]))
        if len(a) == 3 and num(a[2]) == 1:
            return Seq(None, a[0], 1, T.sub(a[1], a[0]))
        return None
    if t.op == "call" and t.args[0] in REV and len(t.args[1]) == 1:
        s = r(t.args[1][0])
        return s.rev() if s else None
    if t.op == "call" and t.args[0] in LISTY and len(t.args[1]) == 1:
        return r(t.args[1][0])
    if t.op == "idx" and t.args[1].op == "slice":
        s = r(t.args[0])
        if s is None:
            return None
        a, b, c = (lens(x, it, st) for x in t.args[1].args)
        if c is not NONE and num(c) not in (1, -1):
            return None
        if c is not NONE and num(c) == -1:
            if b is not NONE:
                return None
            if a is not NONE:
                k = num(a)
                if k is None or k >= 0:
                    # items a, a-1, ..., 0
                    e = a
                else:
                    e = T.add(s.n, a)
                return Seq(s.base, T.add(s.first, T.mul(const(s.step), e)), -s.step, T.add(e, const(1)))
            return s.rev()
        lo = const(0)
        if a is not NONE:
            lo = T.add(s.n, a) if (num(a) is not None and num(a) < 0) else a
        hi = s.n
        if b is not NONE:
            hi = T.add(s.n, b) if (num(b) is not None and num(b) < 0) else b
        return Seq(s.base, T.add(s.first, T.mul(const(s.step), lo)), s.step, T.sub(hi, lo))
    if t.op in ("sym", "attr", "idx", "call", "select", "ver"):
        return Seq(t, const(0), 1, mk("call", "len", (t,), (), None))
    return None


def under(t):
    """the matrix behind copies and format conversions"""
    t = T.strip(t)
    while t.op == "call" and str(t.args[0]) in SAME and t.args[1]:
        t = t.args[1][0]
    return t


def item(t, it=None, st=None):
    """an entry of a sequence -> (base, index) with loop elements written as positions; None if it is something else"""
    t = under(t)
    if t.op == "elem" and len(t.args) > 1:
        s = seq(t.args[0], it, st)
        if s is None or s.base is None:
            return None
        x = s.at(mk("pos", t.args[1]))
        return x.args[0], x.args[1], s
    if t.op in ("idx", "select") and t.args[1].op not in ("slice", "tuple"):
        k = index(t.args[1], it, st)
        s = seq(t.args[0], it, st)
        if k is None or s is None or s.base is None:
            return None
        if num(k) is not None and num(k) < 0:
            k = T.add(s.n, k)
        x = s.at(k)
        return x.args[0], x.args[1], None
    return None


def index(t, it=None, st=None):
    """index expressions with loop elements written as positions"""
    bad = []

    def f(x):
        if x.op == "elem" and len(x.args) > 1:
            s = seq(x.args[0], it, st)
            if s is not None and s.base is None:
                return s.at(mk("pos", x.args[1]))
            bad.append(x)
        return x
    r = lens(rebuild(T.strip(t), f), it, st)
    return None if bad else r


def trips(loop, it, st=None):
    """number of trips of a loop over a describable sequence"""
    li = it.loopinfo.get(loop)
    if li is None or li["iter"] is None or li.get("breaks"):
        return None
    d = T.strip(li["iter"])
    while d.op == "call" and d.args[0] == "enumerate":
        d = d.args[1][0]
    if d.op == "call" and d.args[0] == "zip":
        return None
    s = seq(d, it, st)
    return s.n if s is not None else None


def product(t):
    """(left, right) of a matrix product"""
    t = under(t)
    if t.op == "matmul":
        return t.args
    if t.op == "call" and (str(t.args[0]) in (".dot", "numpy.dot", "numpy.matmul", ".__matmul__") or str(t.args[0]).endswith("sparse_matmul")) and len(t.args[1]) >= 2:
        return t.args[1][0], t.args[1][1]
    return None


class Chain:
    """a running product: entry 0 is ``first``, step p multiplies ``factor`` (index in position p) on the ``side``"""
    def __init__(self, first, factor, side, loop, n, every):
        self.first, self.factor, self.side, self.loop, self.n, self.every = first, factor, side, loop, n, every


def _phi(it, p):
    for q, i in it.phis.items():
        if T.unver(q) is T.unver(p):
            return i
    return None


def chain(it, st, l, isin):
    """running products in a value / container contents: list of Chain (one per case), empty when not recognised"""
    if l.op == "contents":
        return chain(it, st, l.args[1], isin)
    if l.op == "obj":
        c = st.heap.get((l, "[]"))
        if c is None:
            return []
        cs = [x for _, x in (T.cases(T.unver(c)) or [((), c)]) if x.op != "init"]
        cs = list(dict.fromkeys(cs))
        return chain(it, st, cs[0], isin) if len(cs) == 1 else []
    if l.op != "phi":
        return []
    i = _phi(it, l)
    if i is None or i.init is None or i.back is None:
        return []
    me = T.unver(l)
    res = []
    for cs, both in T.cases(mk("tuple", T.unver(i.init), T.unver(i.back))) or []:
        init, back = both.args
        if back is me and init.op in ("init", "undef"):
            continue
        r = step(it, st, l, init, back, i, isin)
        if r is None:
            return []
        res.append(r)
    return res


def step(it, st, l, init, b, i, isin):
    every = False
    key = None
    if b.op == "append" and b.args[0] is T.unver(l):
        m = b.args[1]
        every = True
        x0 = init.args[0] if init.op == "seq" and len(init.args) == 1 else None
    elif b.op == "store" and b.args[0] is T.unver(l):
        m, key = b.args[2], b.args[1]
        x0 = init.args[2] if init.op == "store" and init.args[1] is key else None
    else:
        m, x0 = b, init
    p = product(m)
    if p is None or x0 is None:
        return None
    sides = []
    for s, (prev, fac) in (("right", p), ("left", (p[1], p[0]))):
        f = item(fac, it, st)
        if f is None or not isin(f[0]) or not previous(it, st, prev, l, key, every, m, i, x0):
            continue
        sides.append((s, f))
    if not sides:
        # a product of an input matrix and some other entry of the same list
        for prev, fac in (p, (p[1], p[0])):
            f = item(fac, it, st)
            q = under(prev)
            if f is not None and isin(f[0]) and every and q.op in ("idx", "select") and T.strip(strip_c(q.args[0])) is T.strip(l):
                k = index(q.args[1], it, st)
                if k is not None and (num(k) is not None and num(k) != -1 or elsewhere(k, i.loop)):
                    sides.append(("right, onto entry %s instead of the product so far" % k, f))
    if len(sides) != 1:
        return None
    s, f = sides[0]
    z = item(x0, it, st)
    if z is None or not isin(z[0]):
        return None
    return Chain(z, f, s, i.loop, trips(i.loop, it, st), every)


def elsewhere(k, loop):
    """an index that is not the last entry in some step (entries 0..p are there in step p; sequences of 5 matrices)"""
    for p in range(4):
        v = num(rebuild(k, lambda x: const(p) if x.op == "pos" and x.args[0] is loop or x is mk("pos", loop) else
                        (const(5) if x.op == "call" and x.args[0] == "len" else x)))
        if v is None:
            return False
        if v not in (-1, p):
            return True
    return False


def previous(it, st, prev, l, key, every, m, i, x0):
    """is prev the product so far?"""
    prev = under(prev)
    l = T.strip(l)
    if every:
        if prev.op in ("idx", "select") and T.strip(strip_c(prev.args[0])) is l:
            k = index(prev.args[1], it, st)
            if k is not None and (num(k) == -1 or k is mk("pos", i.loop)):
                return True
            return False
        if prev.op == "phi":
            j = _phi_s(it, prev)
            return j is not None and j.init is not None and j.back is not None and T.strip(j.back) is T.strip(m) and \
                T.strip(under(j.init)) is T.strip(under(x0))
        return False
    if key is not None:
        return prev.op in ("idx", "select") and T.strip(strip_c(prev.args[0])) is l and T.strip(prev.args[1]) is T.strip(key)
    return prev is l


def strip_c(x):
    return x.args[1] if x.op == "contents" else x


def _phi_s(it, p):
    for q, i in it.phis.items():
        if T.strip(q) is T.strip(p):
            return i
    return None
