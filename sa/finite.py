"""Three-valued evaluation of boolean/ordering terms over a finite abstract
valuation (``oracle``: leaf term -> int/bool/None value, or ``UNK``)."""
from __future__ import annotations
from .terms import cval, TRUE, FALSE, NONE

UNK = object()


class Fin:
    def __init__(self, oracle, phis=None, variants=(None,)):
        """variants: the kinds of generic element an iterated domain contains;
        while a domain is scanned, ``self.var`` is the kind under consideration"""
        self.oracle, self.phis = oracle, phis or {}
        self.variants, self.var = variants, None

    def ev(self, t, depth=0):
        if depth > 60:
            return UNK
        v = self.oracle(t)
        if v is not UNK:
            return v
        o, a = t.op, t.args
        e = lambda x: self.ev(x, depth + 1)
        if o == "const":
            return cval(t)
        if o == "not":
            x = self.truth(a[0], depth)
            return UNK if x is UNK else not x
        if o in ("and", "or"):
            vals = [self.truth(x, depth) for x in a]
            if o == "and":
                if any(x is False for x in vals):
                    return False
                return True if all(x is True for x in vals) else UNK
            if any(x is True for x in vals):
                return True
            return False if all(x is False for x in vals) else UNK
        if o == "ite":
            c = self.truth(a[0], depth)
            if c is UNK:
                x, y = e(a[1]), e(a[2])
                return x if x is not UNK and y is not UNK and type(x) == type(y) and x == y else UNK
            return e(a[1] if c else a[2])
        if o in ("lt", "le", "eq", "is"):
            x, y = e(a[0]), e(a[1])
            if x is UNK or y is UNK:
                return UNK
            try:
                if o == "lt":
                    return x < y
                if o == "le":
                    return x <= y
                if o == "eq":
                    return x == y
                return x is y or (type(x) is type(y) and x == y)
            except TypeError:
                return UNK
        if o == "poly":
            tot = 0
            for mono, c in a:
                p = c
                for m in mono:
                    x = e(m)
                    if x is UNK or x is None:
                        return UNK
                    p = p * x
                tot += p
            return tot
        if o == "inv":
            x = e(a[0])
            return UNK if x is UNK or not x else 1 / x
        if o == "call" and a[0] in ("min", "max") and not a[2]:
            xs = list(a[1])
            if len(xs) == 1 and xs[0].op in ("tuple", "contents", "seq"):
                inner = xs[0].args[1] if xs[0].op == "contents" else xs[0]
                xs = list(inner.args) if inner.op in ("seq", "tuple") else None
            if not xs:
                return UNK
            vs = [e(x) for x in xs]
            if any(v is UNK for v in vs):
                return UNK
            return min(vs) if a[0] == "min" else max(vs)
        if o == "call" and a[0] in ("abs", "int", "float", "bool") and len(a[1]) == 1:
            x = e(a[1][0])
            if x is UNK or x is None:
                return UNK
            return {"abs": abs, "int": int, "float": float, "bool": bool}[a[0]](x)
        if o in ("binBitAnd", "binBitOr"):
            x, y = e(a[0]), e(a[1])
            if isinstance(x, bool) and isinstance(y, bool):
                return (x and y) if o == "binBitAnd" else (x or y)
            if o == "binBitAnd" and (x is False or y is False):
                return False
            if o == "binBitOr" and (x is True or y is True):
                return True
            return UNK
        if o == "invert":
            x = e(a[0])
            return (not x) if isinstance(x, bool) else UNK
        if o == "call" and a[0] in ("numpy.logical_and", "numpy.logical_or", "numpy.logical_not"):
            xs = [e(x) for x in a[1]]
            if any(not isinstance(x, bool) for x in xs):
                return UNK
            return {"numpy.logical_and": all, "numpy.logical_or": any,
                    "numpy.logical_not": lambda z: not z[0]}[a[0]](xs)
        if o == "nonempty":
            return self.exists(a[1], None, depth)
        if o == "call" and a[0] == "any" and len(a[1]) == 1:
            return self.exists(a[1][0], True, depth)
        if o == "call" and a[0] == "all" and len(a[1]) == 1:
            r = self.exists(a[1][0], False, depth)
            return UNK if r is UNK else not r
        if o == "call" and a[0] == "len" and len(a[1]) == 1:
            r = self.exists(a[1][0], None, depth)
            if r is UNK:
                return UNK
            return 1 if r else 0
        return UNK

    def truth(self, t, depth=0):
        v = self.ev(t, depth + 1)
        return v if v is UNK else bool(v)

    def exists(self, c, want, depth):
        """does the abstract sequence contain an element (whose truth == want)?
        The valuation describes one generic element of every iterated domain."""
        if c.op == "contents":
            c = c.args[1]
        if c.op == "seq":
            if want is None:
                return bool(c.args)
            vs = [self.truth(x, depth) for x in c.args]
            if any(v is want for v in vs):
                return True
            return UNK if any(v is UNK for v in vs) else False
        if c.op in ("listof", "setof", "sortedof", "mapped"):
            return self.exists(c.args[0], want, depth)
        if c.op == "phi":
            i = self.phis.get(c)
            if i is None or i.init is None or i.back is None:
                return UNK
            r0 = self.exists(i.init, want, depth + 1)
            if r0 is True:
                return True
            saved, un = self.var, r0 is UNK
            for v in self.variants:
                self.var = v
                r1 = self._grow(i.back, c, want, depth + 1)
                if r1 is True:
                    self.var = saved
                    return True
                un = un or r1 is UNK
            self.var = saved
            return UNK if un else False
        if c.op == "ite":
            k = self.truth(c.args[0], depth)
            if k is UNK:
                x, y = self.exists(c.args[1], want, depth + 1), self.exists(c.args[2], want, depth + 1)
                return x if x is not UNK and x == y else UNK
            return self.exists(c.args[1 if k else 2], want, depth + 1)
        if c.op == "append":
            r = self.exists(c.args[0], want, depth + 1)
            if want is None:
                return True
            v = self.truth(c.args[1], depth)
            if v is want or r is True:
                return True
            return UNK if (v is UNK or r is UNK) else False
        return UNK

    def _grow(self, back, phi, want, depth):
        """does one iteration add such an element?"""
        if back is phi:
            return False
        if back.op == "ite":
            k = self.truth(back.args[0], depth)
            if k is UNK:
                x, y = self._grow(back.args[1], phi, want, depth + 1), self._grow(back.args[2], phi, want, depth + 1)
                return x if x is not UNK and x == y else UNK
            return self._grow(back.args[1 if k else 2], phi, want, depth + 1)
        if back.op == "append":
            r = self._grow(back.args[0], phi, want, depth + 1)
            if want is None:
                return True
            v = self.truth(back.args[1], depth)
            if v is want or r is True:
                return True
            return UNK if (v is UNK or r is UNK) else False
        return UNK
