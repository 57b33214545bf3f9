"""Look-ups in containers filled by one loop: list[i], dict[i] -> the value stored in trip i."""
from __future__ import annotations
from .terms import mk, const, NONE, rebuild, subterms
from . import terms as T


class Resolve:
    def __init__(self, it, st=None):
        self.it, self.st = it, st

    def __call__(self, t):
        for _ in range(6):
            n = rebuild(t, self._r)
            if n is t:
                break
            t = n
        return t

    def _contents(self, b):
        if b.op == "contents":
            return b.args[1]
        if b.op == "obj" and self.st is not None:
            return self.st.heap.get((b, "[]"))
        return b

    def fill(self, c):
        """container contents -> (how, key, value, loop) when every trip of one loop adds exactly one entry"""
        if c is None or c.op != "phi":
            return None
        i = self.it.phis.get(c)
        if i is None or i.init is None or i.back is None:
            return None
        if not (i.init.op == "emptymap" or (i.init.op == "seq" and not i.init.args)):
            return None
        b = i.back
        if b.op == "append" and b.args[0] is c:
            return ("append", None, b.args[1], i.loop)
        if b.op == "store" and b.args[0] is c:
            return ("store", b.args[1], b.args[2], i.loop)
        return None

    def index_var(self, loop):
        """(elem term of the loop, kind) the loop's position variable"""
        li = self.it.loopinfo.get(loop)
        if li is None or li["iter"] is None or li.get("breaks"):
            return None
        return li["iter"]

    def _r(self, x):
        if x.op == "call" and x.args[0] == "len" and len(x.args[1]) == 1:
            c = self._contents(x.args[1][0])
            f = self.fill(c)
            if f and f[0] == "append":
                d = self.index_var(f[3])
                if d is not None:
                    if d.op == "call" and d.args[0] == "range" and len(d.args[1]) == 1:
                        return d.args[1][0]
                    if d.op == "call" and d.args[0] == "enumerate":
                        d = d.args[1][0]
                    return mk("call", "len", (d,), (), None)
            return x
        if x.op not in ("idx", "select"):
            return x
        b, k = x.args
        if k.op in ("slice", "tuple"):
            return x
        c = self._contents(b)
        f = self.fill(c)
        if f is None:
            return x
        how, key, val, loop = f
        d = self.index_var(loop)
        if d is None:
            return x
        if how == "store":
            if key.op == "elem" and key.args[1] == loop and key.args[0].op == "call" and key.args[0].args[0] == "range":
                return self._sub(val, key, k)
            return x
        # append: entry k is the value of trip k
        if d.op == "call" and d.args[0] == "range" and len(d.args[1]) == 1:
            return self._sub(val, mk("elem", d, loop), k)
        if d.op == "call" and d.args[0] in ("enumerate", "zip"):
            e = [y for y in subterms(val) if y.op == "elem" and y.args[1] == loop]
            if all(y.args[0].op == "call" and y.args[0].args[0] == "range" for y in e):
                for y in e:
                    val = self._sub(val, y, k)
                return val
            return x
        e = mk("elem", d, loop)
        es = [y for y in subterms(val) if y.op == "elem" and len(y.args) > 1 and y.args[1] == loop]
        if any(y is not e for y in es):
            if all(y.args[0].op == "call" and y.args[0].args[0] == "range" for y in es):
                for y in es:
                    val = self._sub(val, y, k)
                return val
            return x
        return self._sub(val, e, mk("idx", d, k))

    def _sub(self, val, a, b):
        return T.subst(self._open(val), {a: b})

    def _open(self, val):
        """lists made anew in each trip, never changed afterwards -> what they list"""
        m = {}
        for x in subterms(val):
            if x.op == "obj":
                vs = self.it.heaplog.get((x, "[]")) or ()
                if len(vs) == 1 and next(iter(vs)).op in ("listof", "setof", "sortedof"):
                    m[x] = next(iter(vs))
        return T.subst(val, m) if m else val
