"""Which objects of the caller a term may share storage with."""
from __future__ import annotations
from . import terms as T
from .terms import mk, sym, const, NONE, subterms

# results that may be (or be a view of) their first argument
SHARE_METH = {".tocsr", ".tocsc", ".tocoo", ".transpose", ".reshape", ".ravel", ".squeeze", ".view", ".swapaxes", ".conj", ".conjugate",
              ".iter_cluster_node_index", ".values", ".items", ".keys", ".get", ".setdefault", ".getformat", ".asformat", ".astype", ".to_numpy", ".diagonal_view"}
SHARE_FN = {"numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.squeeze", "numpy.ravel", "numpy.reshape", "numpy.transpose", "numpy.frombuffer",
            "numpy.ascontiguousarray", "numpy.asfortranarray", "scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix", "scipy.sparse.coo_matrix",
            "numpy.asanyarray", "reversed", "iter", "enumerate", "numpy.broadcast_to", "memoryview"}
VIEW_ATTR_FRESH = {"shape", "size", "nnz", "dtype", "ndim"}
# containers that are new but hold the same elements
ELEMS_FN = {"list", "tuple", "set", "dict", "sorted", "frozenset", "collections.OrderedDict", "copy.copy"}
ELEMS_METH = {".copy"}


class Roots:
    """roots(t) -> {(symbol, depth, may)}: t is the object reached from ``symbol``; depth > 0: t is new, but what is found ``depth`` steps
    inside it is the caller's"""

    def __init__(self, it, st=None, facts=()):
        self.pos = {T.strip(g) for g in facts if g.op != "not"}
        self.neg = {T.strip(g.args[0]) for g in facts if g.op == "not"}
        self.it = it
        self.st = st
        self.memo = {}
        self.prev = {}
        self.final = {}

    def of(self, t, level=0):
        t = T.strip(t) if not isinstance(t, str) else t
        if level == 0:
            if t in self.final:
                return self.final[t]
            self.prev = {}
            for _ in range(6):          # loops: up to the least fixed point
                self.memo = {}
                r = self.of(t, 1)
                if self.memo == self.prev:
                    break
                self.prev = self.memo
            self.final[t] = r
            return r
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = self.prev.get(t, set())
        r = self._of(t, level)
        self.memo[t] = r
        return r

    def inside(self, rs):
        """what one step inside an object with these roots is"""
        return {(s, p, max(d - 1, 0), m) for s, p, d, m in rs}

    def _of(self, t, level):
        if level > 200:
            return set()
        op = t.op
        if op == "sym":
            return {(t, (), 0, False)}
        if op == "self" or op == "inst":
            return {(t, (), 0, False)}
        if op == "attr":
            if t.args[1] in VIEW_ATTR_FRESH:
                return set()
            return {(s, p + (t.args[1],) if d == 0 else p, d, m) for s, p, d, m in self.of(t.args[0], level + 1)}
        if op in ("idx", "elem", "select"):
            b = t.args[0]
            if op == "idx" and len(t.args) > 1 and fancy(t.args[1]):
                return set()
            return {(s, p + ("[]",) if d == 0 else p, max(d - 1, 0), m) for s, p, d, m in self.of(b, level + 1)}
        if op == "ite":
            if t.args[0] in self.pos:
                return self.of(t.args[1], level + 1)
            if t.args[0] in self.neg:
                return self.of(t.args[2], level + 1)
            return self.of(t.args[1], level + 1) | self.of(t.args[2], level + 1)
        if op == "phi" and t in self.it.phis:
            ph = self.it.phis[t]
            out = set()
            for x in (ph.init, ph.back):
                if x is not None:
                    out |= self.of(x, level + 1)
            return out
        if op == "contents":
            return self.of(t.args[0], level + 1) | self.fill(t.args[1], level + 1)
        if op == "init":
            return self.of(t.args[0], level + 1)
        if op == "obj":
            out = set()
            if self.st is not None:
                c = self.st.heap.get((t, "[]"))
                if c is not None:
                    out |= self.fill(c, level + 1)
            return out
        if op in ("getor",):
            return self.of(mk("idx", t.args[0], t.args[1]), level + 1) | self.of(t.args[2], level + 1)
        if op == "call":
            f = str(t.args[0])
            a = t.args[1]
            kw = dict(t.args[2]) if t.args[2] else {}
            if not a:
                return set()
            if kw.get("copy") is T.TRUE:
                return set()
            if f == ".astype" and kw.get("copy") is not T.FALSE:
                return set()
            if f in SHARE_METH or f in SHARE_FN:
                if f == ".transpose" and any(z is T.TRUE for z in a[1:]):
                    return set()
                src = a[0]
                if src.op == "tuple" and len(src.args) == 2:
                    return set()        # a shape, or entries with their coordinates
                if src.op == "tuple":
                    # csr_matrix((data, indices, indptr)) keeps the arrays
                    return {(s, p, 0, True) for x in src.args[:1] for s, p, d, m in self.of(x, level + 1)}
                return {(s, p, d, True) for s, p, d, m in self.of(src, level + 1)}
            if f in ELEMS_FN or f in ELEMS_METH:
                return {(s, p + ("[]",) if d == 0 else p, d if d else 1, m if f in ELEMS_FN else "copy") for s, p, d, m in self.of(a[0], level + 1)}
            return set()
        return set()

    def fill(self, c, level):
        """roots of a new container with contents c: what it holds"""
        out = set()
        if c.op in ("seq", "tuple"):
            for x in c.args:
                out |= {(s, p, d + 1, m) for s, p, d, m in self.of(x, level)}
        elif c.op in ("append", "store", "extend"):
            for x in c.args[:1]:
                out |= self.fill(x, level + 1)
            out |= {(s, p, d + 1, m) for s, p, d, m in self.of(c.args[-1], level + 1)} if c.op != "extend" else \
                {(s, p, max(d, 1), m) for s, p, d, m in self.of(c.args[-1], level + 1)}
        elif c.op == "phi" and c in self.it.phis:
            ph = self.it.phis[c]
            k = (c, "fill")
            if k in self.memo:
                return self.memo[k]
            self.memo[k] = self.prev.get(k, set())
            for x in (ph.init, ph.back):
                if x is not None:
                    out |= self.fill(x, level + 1)
            self.memo[k] = out
        elif c.op == "ite" and T.strip(c.args[0]) in self.pos:
            out |= self.fill(c.args[1], level + 1)
        elif c.op == "ite" and T.strip(c.args[0]) in self.neg:
            out |= self.fill(c.args[2], level + 1)
        elif c.op == "ite":
            out |= self.fill(c.args[1], level + 1) | self.fill(c.args[2], level + 1)
        elif c.op in ("listof", "setof", "sortedof", "reversedof"):
            out |= {(s, p + ("[]",) if d == 0 else p, d if d else 1, m) for s, p, d, m in self.of(c.args[0], level + 1)}
        elif c.op == "concat":
            for x in c.args:
                out |= self.fill(x, level + 1)
        elif c.op == "insert":
            out |= self.fill(c.args[0], level + 1) | {(s, p, d + 1, m) for s, p, d, m in self.of(c.args[2], level + 1)}
        elif c.op in ("mutated",):
            out |= self.fill(c.args[0], level + 1)
        elif c.op == "init":
            out |= self.of(c.args[0], level + 1)
        return out


def fancy(k):
    """a boolean or integer array as index gives a copy"""
    k = T.strip(k)
    if k.op in ("eq", "lt", "le", "ne"):
        return True
    if k.op == "call" and str(k.args[0]) in (".nonzero", "numpy.nonzero", "numpy.where", "numpy.unique", "numpy.argsort", "numpy.arange"):
        return True
    return False

