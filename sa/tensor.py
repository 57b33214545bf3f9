"""Element (i, j) of a matrix expression, element i of a vector expression."""
from __future__ import annotations
from .terms import mk, const, NONE
from . import terms as T

FULL = mk("slice", NONE, NONE, NONE)
KEEP = {".copy", ".tocsr", ".tocsc", ".toarray", ".todense", ".astype", "numpy.asarray", "numpy.array",
        "scipy.sparse.csr_matrix", "csr_matrix", ".squeeze"}
DIAG = {"numpy.diag", "scipy.sparse.diags", "diags", "scipy.sparse.diags_array"}


class NotMat(Exception):
    pass


def isnew(z):
    return z is NONE or (z.op == "ext" and z.args[0] == "numpy.newaxis") or (z.op == "attr" and z.args[1] == "newaxis")


def diag_of(t):
    if t.op == "call" and str(t.args[0]) in DIAG and t.args[1]:
        return t.args[1][0]
    return None


class Tensor:
    def __init__(self, scalars=(), atoms=()):
        self.scalars, self.atoms = scalars, atoms
        self.n = 0

    def vec(self, t, i):
        """element i of a vector expression"""
        t = T.strip(t)
        if T.is_const(t):
            return t
        if t.op == "poly":
            out = const(0)
            for mono, c in t.args:
                m = const(int(c)) if c == int(c) else const(c)
                for f in mono:
                    m = T.mul(m, self.vec(f, i))
                out = T.add(out, m)
            return out
        if t.op == "inv":
            return T.inv(self.vec(t.args[0], i))
        if t.op == "call" and str(t.args[0]) in KEEP and t.args[1]:
            return self.vec(t.args[1][0], i)
        if t in self.scalars:
            return t
        if t.op == "matmul":
            a, b = t.args
            k = self.var()
            return mk("sigma", k, T.mul(self.vec(a, k), self.at(b, k, i)))
        return mk("idx", t, i)

    def var(self):
        self.n += 1
        return mk("sym", "#k%d" % self.n)

    def at(self, t, i, j):
        t = T.strip(t)
        if T.is_const(t):
            return t
        if t in self.scalars:
            return t
        if t.op == "poly":
            out = const(0)
            for mono, c in t.args:
                m = const(int(c)) if c == int(c) else const(c)
                for f in mono:
                    m = T.mul(m, self.at(f, i, j))
                out = T.add(out, m)
            return out
        if t.op == "inv":
            return T.inv(self.at(t.args[0], i, j))
        if t.op == "matmul" or (t.op == "call" and str(t.args[0]) in ("numpy.matmul", "numpy.dot", ".dot")):
            a, b = t.args if t.op == "matmul" else t.args[1]
            a, b = T.strip(a), T.strip(b)
            if diag_of(a) is not None:
                return T.mul(self.vec(diag_of(a), i), self.at(b, i, j))
            if diag_of(b) is not None:
                return T.mul(self.at(a, i, j), self.vec(diag_of(b), j))
            k = self.var()
            return mk("sigma", k, T.mul(self.at(a, i, k), self.at(b, k, j)))
        if t.op == "call":
            f, a = str(t.args[0]), t.args[1]
            if f in ("numpy.outer",) and len(a) == 2:
                return T.mul(self.vec(a[0], i), self.vec(a[1], j))
            if f in KEEP and a:
                return self.at(a[0], i, j)
            if f in (".transpose", "numpy.transpose") and len(a) == 1:
                return self.at(a[0], j, i)
            if f == "numpy.einsum" and len(a) == 3 and T.is_const(a[0]):
                spec = T.cval(a[0])
                if spec in ("i,j->ij",):
                    return T.mul(self.vec(a[1], i), self.vec(a[2], j))
                if spec in ("i,ij->ij",):
                    return T.mul(self.vec(a[1], i), self.at(a[2], i, j))
            if f == "numpy.multiply" and len(a) == 2:
                return T.mul(self.at(a[0], i, j), self.at(a[1], i, j))
            if f == "numpy.subtract" and len(a) == 2:
                return T.sub(self.at(a[0], i, j), self.at(a[1], i, j))
            d = diag_of(t)
            if d is not None:
                return mk("idx", t, mk("tuple", i, j))
        if t.op == "attr" and t.args[1] == "T" and t.args[0].op != "obj" and t not in self.atoms:
            return self.at(t.args[0], j, i)
        if t.op == "idx" and t.args[1].op == "tuple" and len(t.args[1].args) == 2:
            x, y = t.args[1].args
            if x is FULL and isnew(y):
                return self.vec(t.args[0], i)
            if isnew(x) and y is FULL:
                return self.vec(t.args[0], j)
        if t.op == "call" and str(t.args[0]) == ".reshape":
            sh = t.args[1][1:]
            if len(sh) == 1 and sh[0].op == "tuple":
                sh = sh[0].args
            if len(sh) == 2 and sh[0] is const(-1) and sh[1] is const(1):
                return self.vec(t.args[1][0], i)
            if len(sh) == 2 and sh[1] is const(-1) and sh[0] is const(1):
                return self.vec(t.args[1][0], j)
        return mk("idx", t, mk("tuple", i, j))
