"""Normal form of accumulated sums.

``Sums(it, st).terms(t)`` rewrites the value ``t`` into a set of contributions
    coef * SUM_{x1 in D1, ...} [conditions] f1*f2*...
independent of whether the sum was written as a loop, a comprehension, a numpy
reduction, in several passes or in one.  ``None`` is returned when some part is
not recognised as a sum (the caller then leaves the obligation undecided)."""
from __future__ import annotations
from fractions import Fraction
from itertools import permutations

from .terms import mk, const, cval, NONE, TRUE, FALSE, is_const, not_, and_, rebuild, subterms
from . import terms as T


class NotSum(Exception):
    pass


WRAP = {"list", "tuple", "set", "frozenset", "sorted", "numpy.array", "numpy.asarray", "iter",
        "numpy.ascontiguousarray", "numpy.fromiter", "numpy.unique"}
KEEPM = {".astype", ".copy", ".tolist", ".flatten", ".ravel"}


class Sums:
    def __init__(self, it, st, rz=None):
        self.it, self.st, self.rz = it, st, rz
        self.memo = {}
        self.scalars = set()
        self.vectors = set()        # terms known to be lists of lists (their elements index as vectors)

    # ------------------------------------------------------------ collections
    def col(self, t):
        """the collection t enumerates (wrappers, copies and casts dropped)"""
        for _ in range(30):
            if t.op == "at":
                t = t.args[0]
                continue
            if t.op == "contents":
                c = t.args[1]
                o = t.args[0]
                if c.op == "init":
                    t = c.args[0]
                elif c.op in ("listof", "setof", "sortedof", "permuted", "deep", "mapped"):
                    t = c.args[0]
                elif c.op == "phi":
                    x = self._identity_copy(c)
                    if x is None:
                        return t
                    t = x
                else:
                    return t
                continue
            if t.op == "obj":
                c = self.st.heap.get((t, "[]"))
                if c is None or c.op == "seq":
                    return t
                n = self.col(mk("contents", t, c))
                if n.op == "contents":
                    return t
                t = n
                continue
            if t.op in ("listof", "setof", "sortedof", "permuted", "deep"):
                t = t.args[0]
                continue
            if t.op == "call":
                f, a = t.args[0], t.args[1]
                if f in WRAP and a:
                    t = a[0]
                    continue
                if f == "array.array" and len(a) == 2:
                    t = a[1]
                    continue
                if f in KEEPM and a:
                    t = a[0]
                    continue
                if f == "range" and len(a) == 1 and a[0].op == "call" and a[0].args[0] == "len":
                    return t
            return t
        return t

    def _identity_copy(self, phi):
        """container filled with every element of X, nothing else -> X"""
        i = self.it.phis.get(phi)
        if i is None or i.init is None or i.back is None or i.init.op not in ("seq",) or i.init.args:
            return None
        b = i.back
        if b.op == "append" and b.args[0] is phi:
            v = b.args[1]
        elif b.op == "mutated" and b.args[0] is phi and cval(b.args[1]) in ("insert", "push_back", "add") and len(b.args[2]) == 1:
            v = b.args[2][0]
        else:
            return None
        if self.rz is not None:
            v = self.rz(T.strip(v))
        v = self.canon(v)
        if v.op == "elem":
            e = v.args[0]
            li = self.it.loopinfo.get(i.loop)
            if li and li["iter"] is not None and self.dom(li["iter"]) is e:
                return e
        return None

    def _filtered(self, c):
        """set of those elements of X that satisfy a condition -> (X, condition, element)"""
        if c.op != "contents" or c.args[1].op != "phi":
            return None
        phi = c.args[1]
        i = self.it.phis.get(phi)
        if i is None or i.init is None or i.back is None or i.init.op != "seq" or i.init.args or i.back.op != "ite":
            return None
        cond, a, b = i.back.args
        if a is phi:
            cond, a, b = not_(cond), b, a
        if b is not phi:
            return None
        if a.op == "append" and a.args[0] is phi:
            v = a.args[1]
        elif a.op == "mutated" and a.args[0] is phi and cval(a.args[1]) in ("insert", "push_back", "add") and len(a.args[2]) == 1:
            v = a.args[2][0]
        else:
            return None
        if self.rz is not None:
            v, cond = self.rz(T.strip(v)), self.rz(T.strip(cond))
        v, cond = self.canon(v), self.canon(cond)
        li = self.it.loopinfo.get(i.loop)
        if v.op == "elem" and li and li["iter"] is not None and not li.get("breaks") and self.dom(li["iter"]) is v.args[0] and not any(
                x.op == "elem" and x is not v for x in subterms(cond)):
            return v.args[0], cond, v
        return None

    def lenof(self, t):
        """t == number of elements of which collection?"""
        if t.op == "call" and t.args[0] == "len" and len(t.args[1]) == 1:
            return self.col(t.args[1][0])
        if t.op == "attr" and t.args[1] == "size":
            return self.col(t.args[0])
        if t.op == "idx" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and t.args[1] is const(0):
            return self.col(t.args[0].args[0])
        return None

    def dom(self, iterterm):
        """canonical domain of a loop"""
        t = iterterm
        if self.rz is not None:
            t = self.rz(T.strip(t))
        if t.op == "call" and t.args[0] in ("enumerate",):
            t = t.args[1][0]
        if t.op == "call" and t.args[0] == "range" and len(t.args[1]) == 1:
            c = self.lenof(t.args[1][0])
            if c is not None:
                return self.canon(c)
        return self.canon(self.col(t))

    # -------------------------------------------------------------- elements
    def canon(self, t):
        if t in self.memo:
            return self.memo[t]
        m = {}
        for x in subterms(t):
            if x.op == "contents" and x is not t:
                c = self.col(x)
                if c is not x:
                    m[x] = c
        r = rebuild(T.subst(t, m) if m else t, self._c)
        self.memo[t] = r
        return r

    def _c(self, x):
        if x.op == "call" and len(x.args) > 3 and x.args[3] is not None:
            x = mk("call", x.args[0], x.args[1], x.args[2], None)
        if x.op == "at":
            return x.args[0]
        if x.op in ("idx", "select"):
            b, k = x.args
            if k.op == "elem" and k.args[0].op == "call" and k.args[0].args[0] == "range" and len(k.args[0].args[1]) == 1:
                c = self.lenof(k.args[0].args[1][0])
                if c is not None and c is self.canon(self.col(b)):
                    return mk("elem", c, k.args[1])
            if b.op == "idx" and k.op != "tuple" and b.args[1].op != "tuple" and b.args[1].op != "slice":
                return mk("idx", b.args[0], mk("tuple", b.args[1], k))
            if x.op == "select" and b.op == "init":
                return mk("idx", b.args[0], k)
            if x.op == "select" and b.op == "contents":
                return mk("idx", b.args[0], k)
        if x.op == "elem":
            t = x.args[0]
            if t.op == "call" and t.args[0] == "range" and len(t.args[1]) == 1:
                c = self.lenof(t.args[1][0])
                if c is not None:
                    return mk("elem", mk("call", "range", (mk("call", "len", (c,), (), None),), (), None), x.args[1])
            return mk("elem", self.canon(self.col(t)), x.args[1])
        if x.op == "obj":
            c = self.col(x)
            return c if c.op != "obj" else x
        if x.op == "call" and x.args[0] == ".count" and len(x.args[1]) == 2:
            return self._c(mk("in", x.args[1][1], x.args[1][0]))
        if x.op == "in":
            c = self.col(x.args[1])
            fl = self._filtered(c)
            if fl is not None:
                return and_(mk("in", x.args[0], fl[0]), T.subst(fl[1], {fl[2]: x.args[0]}))
            return mk("in", x.args[0], c)
        if x.op == "lt" and x.args[0] is const(0) and x.args[1].op == "in":
            return x.args[1]
        if x.op == "call" and x.args[0] in ("int", "float") and len(x.args[1]) == 1:
            return x.args[1][0]
        if x.op == "call" and x.args[0] == "len" and len(x.args[1]) == 1:
            return mk("call", "len", (self.col(x.args[1][0]),), (), None)
        if x.op == "attr" and x.args[1] == "size":
            return mk("call", "len", (self.col(x.args[0]),), (), None)
        if x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and x.args[1] is const(0) \
                and x.args[0].args[0].op == "call" and x.args[0].args[0].args[0] in WRAP | {"array.array"}:
            return mk("call", "len", (self.col(x.args[0].args[0]),), (), None)
        return x

    # ------------------------------------------------------------------ sums
    def prep(self, t):
        """drop loop-exit conditions: they hold whenever the value is used"""
        if self.rz is not None:
            t = self.rz(T.strip(t))
        for li in self.it.loopinfo.values():
            if li.get("cond") is not None and not li.get("breaks"):
                t = T.assume_in(t, not_(li["cond"]), TRUE)
        return t

    def terms(self, t, ctx=None):
        try:
            raw = self._t(self.prep(t), (), (), 0)
        except NotSum as e:
            self.why = str(e)
            return None
        out = {}
        for c, conds, doms, mono in raw:
            k = self._alpha(conds, doms, mono)
            if k is None:
                continue
            out[k] = out.get(k, Fraction(0)) + c
        return self._merge({k: v for k, v in out.items() if v})

    def _merge(self, out):
        """[c] x + [not c] x  ==  x"""
        again = True
        while again:
            again = False
            for (mono, conds, doms), v in list(out.items()):
                for i, c in enumerate(conds):
                    o = tuple(sorted(conds[:i] + (not_(c),) + conds[i + 1:], key=lambda z: z.n))
                    k2 = (mono, o, doms)
                    if out.get(k2) == v:
                        del out[(mono, conds, doms)], out[k2]
                        k3 = (mono, conds[:i] + conds[i + 1:], doms)
                        out[k3] = out.get(k3, Fraction(0)) + v
                        if not out[k3]:
                            del out[k3]
                        again = True
                        break
                if again:
                    break
        return out

    why = ""
    _u = 0

    def _uid(self):
        self._u += 1
        return self._u

    def _alpha(self, conds, doms, mono):
        """canonical names for bound variables"""
        cs = []
        for c in conds:
            c = self.canon(c)
            if c is TRUE:
                continue
            if c is FALSE:
                return None
            for x in (c.args if c.op == "and" else (c,)):
                if x not in cs:
                    cs.append(x)
        for c in cs:
            if not_(c) in cs:
                return None
        mono = [self.canon(m) for m in mono]
        ds = [(key, self.dom(d)) for key, d in doms]
        # group loop keys by domain
        groups = {}
        for key, d in ds:
            groups.setdefault(d, []).append(key)
        best = None
        orders = [[]]
        for d, keys in groups.items():
            orders = [o + [(d, p)] for o in orders for p in (permutations(keys) if len(keys) <= 3 else [tuple(keys)])]
        for o in orders:
            m = {}
            for d, p in o:
                for j, k in enumerate(p):
                    m[k] = j

            def f(x):
                if x.op == "elem" and x.args[1] in m:
                    return mk("elem", x.args[0], m[x.args[1]])
                return x
            mm = sorted((rebuild(x, f) for x in mono), key=lambda z: z.n)
            cc = sorted((rebuild(x, f) for x in cs), key=lambda z: z.n)
            dd = sorted(((d.n, len(ks)) for d, ks in groups.items()))
            key = (tuple(mm), tuple(cc), tuple(sorted(((rebuild(d, f), len(ks)) for d, ks in groups.items()), key=lambda z: z[0].n)))
            rank = ([z.n for z in mm], [z.n for z in cc])
            if best is None or rank < best[0]:
                best = (rank, key)
        return best[1]

    def _t(self, t, conds, doms, depth):
        if depth > 40:
            raise NotSum("too deep")
        out = []
        for mono, c in T.poly(t).items():
            if not c:
                continue
            sumf = [f for f in mono if self._issum(f)]
            rest = [f for f in mono if f not in sumf]
            if not sumf:
                out.append((c, conds, doms, tuple(mono)))
                continue
            if len(sumf) > 1 and len(set(f for f in sumf if f.op == "phi")) < sum(1 for f in sumf if f.op == "phi"):
                raise NotSum("square of an accumulated sum")
            parts = [(c, conds, doms, tuple(rest))]
            for sf in sumf:
                nx = []
                for c1, cs1, ds1, m1 in parts:
                    for c2, cs2, ds2, m2 in self._expand(sf, cs1, ds1, depth + 1):
                        nx.append((c1 * c2, cs2, ds2, m1 + m2))
                parts = nx
            out += parts
        return out

    def _issum(self, f):
        if f.op == "ite":
            return True
        if f.op in ("phi", "acc"):
            return True
        if f.op == "call" and f.args[0] in (".sum", "numpy.sum", "sum", "numpy.einsum"):
            return True
        if f.op == "call" and f.args[0] == "float" and f.args[1]:
            return True
        return False

    def _expand(self, f, conds, doms, depth):
        if f.op == "call" and f.args[0] == "float":
            return self._t(f.args[1][0], conds, doms, depth)
        if f.op == "ite":
            c, a, b = f.args
            pa, pb = T.poly(a), T.poly(b)
            both = {m: v for m, v in pa.items() if pb.get(m) == v}
            rest = [T._from_poly({m: v for m, v in p.items() if m not in both}) for p in (pa, pb)]
            out = self._t(T._from_poly(both), conds, doms, depth) if both else []
            for x, cc in zip(rest, (c, not_(c))):
                if x is not const(0):
                    out += self._t(x, conds + (cc,), doms, depth)
            return out
        if f.op in ("phi", "acc"):
            acc = f.op == "acc"
            if acc:
                f = f.args[0]
            i = self.it.phis.get(f)
            if i is None or i.back is None or i.init is None:
                raise NotSum("unresolved loop value %s" % f)
            li = self.it.loopinfo.get(i.loop)
            if li is None or li["iter"] is None:
                raise NotSum("while-loop value %s" % f)
            if li.get("breaks"):
                raise NotSum("loop with break")
            out = [] if acc else self._t(self.prep(i.init), conds, doms, depth)
            for cs, leaf in self._split(self._leaves(self.prep(i.back)), f):
                leaf = self._inner(leaf, f)
                x = T.sub(leaf, f)
                if x is const(0):
                    continue
                if f in subterms(x):
                    # self reference: not a plain accumulation
                    raise NotSum("not a plain accumulation: %s" % leaf)
                out += self._t(x, conds + cs, doms + ((i.loop, li["iter"]),), depth)
            return out
        if f.op == "call":
            a = f.args[1]
            kw = dict(f.args[2])
            if f.args[0] in (".sum", "numpy.sum", "sum") and len(a) == 1 and not kw:
                return self._reduce(a[0], conds, doms, depth)
        raise NotSum(str(f))

    def _inner(self, leaf, f):
        """value carried through an inner loop = its value before + what the inner loop adds"""
        for _ in range(8):
            p = T.poly(leaf)
            if p.get((f,)) == 1:
                return leaf
            g = [m[0] for m, c in p.items() if len(m) == 1 and m[0].op == "phi" and m[0] is not f and c == 1
                 and m[0] in self.it.phis and self.it.phis[m[0]].init is not None
                 and f in subterms(self.it.phis[m[0]].init)]
            if len(g) != 1:
                return leaf
            i = self.prep(self.it.phis[g[0]].init)
            leaf = T.add(T.sub(leaf, g[0]), T.add(i, mk("acc", g[0])))
        return leaf

    def _split(self, leaves, f):
        """conditionals inside a leaf that carry the accumulated value"""
        out = []
        for cs, leaf in leaves:
            for _ in range(4):
                p = T.poly(leaf)
                g = [m[0] for m, c in p.items() if len(m) == 1 and c == 1 and m[0].op == "ite" and f in subterms(m[0])]
                if len(g) != 1 or p.get((f,)):
                    break
                c, a, b = g[0].args
                r = T.sub(leaf, g[0])
                if T.sub(a, f) is const(0) or not any(x is f for x in subterms(T.sub(a, f))):
                    if not any(x is f for x in subterms(T.sub(b, f))):
                        # a + [not c](b - a), both relative to f
                        leaf = T.add(r, T.add(f, mk("ite", c, T.sub(a, f), T.sub(b, f))))
                        break
                break
            out.append((cs, leaf))
        return out

    def _leaves(self, t, cs=()):
        if t.op == "ite":
            return self._leaves(t.args[1], cs + (t.args[0],)) + self._leaves(t.args[2], cs + (not_(t.args[0]),))
        return [(cs, t)]

    def _scalar(self, m):
        return (m.op in ("idx", "select") and m.args[1].op in ("sym", "elem", "const", "poly") and m.args[1] not in self.vectors
                and self.col(m.args[1]) is m.args[1]) or m in self.scalars

    def _vec(self, k):
        """index operand -> ('scalar', t) | ('vec'|'colv'|'rowv', collection)"""
        if k.op == "idx" and k.args[1].op == "tuple" and len(k.args[1].args) == 2:
            x, y = k.args[1].args
            full = mk("slice", NONE, NONE, NONE)

            def isnew(z):
                return z is NONE or (z.op == "ext" and z.args[0] == "numpy.newaxis") or \
                    (z.op == "attr" and z.args[1] == "newaxis")
            if x is full and isnew(y):
                return "colv", self.canon(self.col(k.args[0]))
            if isnew(x) and y is full:
                return "rowv", self.canon(self.col(k.args[0]))
        c = self.col(k)
        if c is not k or k.op == "obj":
            return "vec", self.canon(c)
        if k.op == "call" and k.args[0] in WRAP:
            return "vec", self.canon(c)
        if k in self.vectors or (k.op in ("idx", "elem") and k.args[0] in self.vectors):
            return "vec", self.canon(k)
        if k.op in ("sym", "elem", "const", "poly"):
            return "scalar", k
        return "?", k

    def _reduce(self, x, conds, doms, depth):
        if x.op == "at":
            x = x.args[0]
        if x.op == "obj" or x.op == "contents":
            c = x.args[1] if x.op == "contents" else self.st.heap.get((x, "[]"))
            if c is not None and c.op == "phi":
                i = self.it.phis[c]
                if i.init.op == "seq" and not i.init.args:
                    li = self.it.loopinfo[i.loop]
                    out = []
                    for cs, leaf in self._leaves(i.back):
                        if leaf is c:
                            continue
                        if leaf.op == "append" and leaf.args[0] is c:
                            out += self._t(leaf.args[1], conds + cs, doms + ((i.loop, li["iter"]),), depth)
                        else:
                            raise NotSum("list %s" % leaf)
                    return out
            if c is not None and c.op == "seq":
                out = []
                for y in c.args:
                    out += self._t(y, conds, doms, depth)
                return out
            raise NotSum("sum over %s" % x)
        if x.op == "poly":
            out = []
            for mono, c in x.args:
                if len(mono) != 1:
                    sc = [m for m in mono if self._scalar(m)]
                    rest = [m for m in mono if m not in sc]
                    if len(rest) != 1:
                        raise NotSum("sum of product %s" % (mono,))
                    out += [(c * c2, a, b, m + tuple(sc)) for c2, a, b, m in self._reduce(rest[0], conds, doms, depth)]
                    continue
                out += [(c * c2, a, b, m) for c2, a, b, m in self._reduce(mono[0], conds, doms, depth)]
            return out
        if x.op == "idx":
            M, k = x.args
            if k.op == "call" and k.args[0] == "numpy.ix_" and len(k.args[1]) == 2:
                A, B = [self.canon(self.col(z)) for z in k.args[1]]
                ka, kb = ("ix", self._uid(), 0), ("ix", self._uid(), 1)
                return [(Fraction(1), conds, doms + ((ka, A), (kb, B)),
                         (mk("idx", M, mk("tuple", mk("elem", A, ka), mk("elem", B, kb))),))]
            if k.op == "tuple" and len(k.args) == 2:
                (sa, A), (sb, B) = self._vec(k.args[0]), self._vec(k.args[1])
                ka, kb = ("ix", self._uid(), 0), ("ix", self._uid(), 1)
                if sa == "?" or sb == "?":
                    raise NotSum("index %s" % (k,))
                if sa == "vec" and sb == "vec":
                    raise NotSum("pairwise index")
                ds, ia, ib = doms, A, B
                if sa != "scalar":
                    ds = ds + ((ka, A),)
                    ia = mk("elem", A, ka)
                if sb != "scalar":
                    ds = ds + ((kb, B),)
                    ib = mk("elem", B, kb)
                if sa != "scalar" and sb != "scalar" and sa == sb:
                    raise NotSum("pairwise index")
                return [(Fraction(1), conds, ds, (mk("idx", M, mk("tuple", ia, ib)),))]
            s, A = self._vec(k)
            if s in ("vec", "colv", "rowv"):
                ka = ("ix", self._uid(), 0)
                return [(Fraction(1), conds, doms + ((ka, A),), (mk("idx", M, mk("elem", A, ka)),))]
        if x.op == "call" and x.args[0] in ("numpy.einsum", "numpy.outer"):
            a = x.args[1]
            if x.args[0] == "numpy.outer" and len(a) == 2:
                A, B = a
            elif len(a) == 3 and is_const(a[0]) and _disjoint(cval(a[0])):
                A, B = a[1:]
            else:
                raise NotSum("sum over %s" % x)
            out = []
            for c1, cs1, ds1, m1 in self._reduce(A, conds, doms, depth):
                for c2, cs2, ds2, m2 in self._reduce(B, cs1, ds1, depth):
                    out.append((c1 * c2, cs2, ds2, m1 + m2))
            return out
        raise NotSum("sum over %s" % x)


def _disjoint(spec):
    """'i,j->...' : no index shared, every output index an input index (summing the rest gives the full sum)"""
    if not isinstance(spec, str) or "->" not in spec:
        return False
    lhs, out = spec.replace(" ", "").split("->")
    ops = lhs.split(",")
    return len(ops) == 2 and all(len(o) == 1 for o in ops) and ops[0] != ops[1] and set(out) <= set(ops)


def show_terms(ts):
    if ts is None:
        return "?"
    out = []
    for (mono, conds, doms), c in ts.items():
        s = "%+g" % float(c)
        if doms:
            s += " Σ{%s}" % ", ".join("%s^%d" % (d, n) if n > 1 else str(d) for d, n in doms)
        if conds:
            s += " [%s]" % ", ".join(str(x) for x in conds)
        s += " " + "*".join(str(m) for m in mono)
        out.append(s)
    return " ; ".join(sorted(out))
