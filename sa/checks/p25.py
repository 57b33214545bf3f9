"""P25 sparse stochastic matrices compute what the full matrices would."""
from __future__ import annotations
import ast
import os
from fractions import Fraction
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms, is_const, cval
from .. import terms as T
from .. import csr, cxx
from ..csr import Loops, Unknown, J, decide, resolve, at
from ..engine import Interp, State
from ..model import AnalysisBroken
from .iolib import driver, IO, bare, name

MIN_OBLIGATIONS = 60
RULE = """
A SparseStochMat (size, T_small, nz_rowcols, diag_val) stands for the full
matrix that is diag_val*I outside the rows and columns nz_rowcols.  Every
operation of the class is interpreted with symbolic operands and its result
translated into a (noncommutative) polynomial in the full matrices; it must be
the polynomial the operation is named after, for every overlap of the two
operands' nz_rowcols and all diagonal values.  The compiled kernels are decided
by what one iteration of their row loop appends for each kind of row (in one
operand, in both, in none), including cursors, row pointers, buffer sizes and
the accumulator (read from the C++ source through clang).
"""
ADD, SUBK, REB, FULL = "stoch_mat_add", "stoch_mat_sub", "rebuild_nnz_rowcol", "sparse_stoch_from_full_csr"
KER = {ADD, SUBK, REB, FULL, "inplace_csr_row_normalize", "inplace_csr_row_normalize_array"}
REG = ("a", "b", "ab")


# ------------------------------------------------------------------ sets of row indices
def regions(t, base, st):
    """which of the regions (rows of A only, of B only, of both) an index set covers; None if unknown"""
    t = T.unver(T.strip(t))
    if t.op == "obj" and st is not None:
        c = None
        for (o, k), v in st.heap.items():
            if k == "[]" and (o is t or T.unver(T.strip(o)) is t):
                c = v
        return regions(c, base, st) if c is not None else None
    if t.op == "contents":
        return regions(t.args[1], base, st)
    b = bare(t)
    if b in base:
        return base[b]
    if t.op in ("setof", "listof", "sortedof", "mapped"):
        return regions(t.args[0], base, st)
    if t.op == "call" and t.args[0] in ("numpy.unique", "numpy.sort", "numpy.array", "numpy.asarray", "sorted", "list", "set", ".tolist", ".copy", ".astype", "tuple", "frozenset"):
        return regions(t.args[1][0], base, st)
    xs = None
    if t.op in ("setunion", "setintersection", "setdifference", "setsymmetric_difference"):
        xs, op = [t.args[0]] + list(t.args[1]), t.op[3:]
    elif t.op == "call" and t.args[0] in ("numpy.union1d", "numpy.intersect1d", "numpy.setdiff1d", "numpy.setxor1d"):
        xs, op = list(t.args[1][:2]), {"union1d": "union", "intersect1d": "intersection", "setdiff1d": "difference", "setxor1d": "symmetric_difference"}[t.args[0][6:]]
    elif t.op in ("bitor", "bitand", "bitxor"):
        xs, op = list(t.args), {"bitor": "union", "bitand": "intersection", "bitxor": "symmetric_difference"}[t.op]
    elif t.op == "poly":
        p = T.poly(t)
        pos = [m[0] for m, c in p.items() if len(m) == 1 and c == 1]
        neg = [m[0] for m, c in p.items() if len(m) == 1 and c == -1]
        if len(pos) == 1 and len(pos) + len(neg) == len(p):
            xs, op = pos + neg, "difference"
    if xs is None:
        return None
    rs = [regions(x, base, st) for x in xs]
    if None in rs:
        return None
    out = set(rs[0])
    for r in rs[1:]:
        out = {"union": out | r, "intersection": out & r, "difference": out - r, "symmetric_difference": out ^ r}[op]
    return frozenset(out)


def is_sorted(t, st, depth=0):
    t = T.unver(T.strip(t))
    if depth > 6:
        return False
    if t.op == "obj" and st is not None:
        for (o, k), v in st.heap.items():
            if k == "[]" and (o is t or T.unver(T.strip(o)) is t):
                return is_sorted(v, st, depth + 1)
    if t.op == "contents":
        return is_sorted(t.args[1], st, depth + 1)
    if t.op == "sortedof":
        return not any(x is TRUE for x in t.args[1:])
    if t.op == "listof":
        return is_sorted(t.args[0], st, depth + 1)
    if t.op == "call":
        f = t.args[0]
        if f in ("numpy.unique", "numpy.union1d", "numpy.sort", "numpy.intersect1d", "sorted"):
            return True
        if f in ("numpy.array", "numpy.asarray", ".astype", ".copy", ".tolist", "list"):
            return is_sorted(t.args[1][0], st, depth + 1)
    return False


# ------------------------------------------------------------------ matrix polynomials
class M(dict):
    """noncommutative polynomial: word (tuple of atoms) -> coefficient term"""

    @staticmethod
    def of(w=(), c=const(1)):
        return M({tuple(w): c})

    def plus(self, o, c=const(1)):
        r = M(self)
        for w, x in o.items():
            v = T.add(r.get(w, const(0)), T.mul(c, x))
            r[w] = v
        return r

    def scale(self, c):
        return M({w: T.mul(c, x) for w, x in self.items()})

    def times(self, o):
        r = M()
        for w, x in self.items():
            for v, y in o.items():
                k = w + v
                r[k] = T.add(r.get(k, const(0)), T.mul(x, y))
        return r

    def trans(self):
        return M({tuple(flip(a) for a in reversed(w)): x for w, x in self.items()})

    def clean(self):
        return M({w: x for w, x in self.items() if not zero(x)})

    def show(self):
        return " + ".join("(%s)*%s" % (c, "*".join(str(a[1]) + ("'" if a[0].endswith("'") else "") if a[0][0] == "J" else str(a[0]) for a in w) or "I") for w, c in self.clean().items()) or "0"


def flip(a):
    if a[0] in ("P", "PL"):
        return a
    return (a[0][:-1] if a[0].endswith("'") else a[0] + "'",) + a[1:]


def zero(x):
    x = T.unver(T.strip(x))
    if is_const(x):
        try:
            return cval(x) == 0
        except TypeError:
            return False
    return T.same_rational(x, const(0))


_norm = {}


def norm(t):
    """copies and lossless conversions removed throughout"""
    return T.rebuild(t, lambda x: bare(x) if x.op in ("call", "attr") else x, _norm)


class Mean:
    """what the values of the analysed program are as full matrices; atoms ("J", A) = A - a*I, ("P", nz) = projector on nz,
    ("J", A, L) and ("P", m, L): the same in the space spanned by the index list L"""

    def __init__(self, it, st, atom, syms):
        self.it, self.st, self.atom, self.syms = it, st, atom, syms
        self.nz = {mk("attr", s, "nz_rowcols"): s for s in syms}

    def canon(self, t):
        return norm(resolve(T.unver(T.strip(t)), self.atom))

    def field(self, o, n):
        v = self.st.heap.get((o, n))
        if v is None:
            for (x, k), w in self.st.heap.items():
                if k == n and T.unver(T.strip(x)) is o:
                    v = w
        if v is None:
            raise Unknown("field %s" % n)
        return self.canon(v)

    # full matrices ---------------------------------------------------
    def full(self, t):
        t = self.canon(t)
        if t in self.syms:
            return M.of((("J", t),)).plus(M.of((), mk("attr", t, "diag_val")))
        if t.op == "obj":
            return self.group(self.field(t, "size"), self.field(t, "T_small"), self.field(t, "nz_rowcols"), self.field(t, "diag_val"))
        if t.op == "poly":
            out = M()
            for m, c in T.poly(t).items():
                mats = [x for x in m if self.ismat(x)]
                if len(mats) != 1:
                    raise Unknown("term %s" % t)
                k = const(1)
                for x in m:
                    if x is not mats[0]:
                        k = T.mul(k, x)
                out = out.plus(self.full(mats[0]), T.mul(k, T._from_poly({(): c})))
            return out
        if t.op == "matmul":
            return self.full(t.args[0]).times(self.full(t.args[1]))
        if t.op == "call":
            f, a = t.args[0], t.args[1]
            if str(f) == "fn:" + REB and len(a) + len(t.args[2]) >= 3:
                names = next((g.params() for g in self.it.prog.functions(REB) if "T_small" in g.params()), ["T_small", "nz_rowcols", "size", "diag_val"])
                kw = dict(t.args[2])
                b = [a[i] if i < len(a) else kw.get(n) for i, n in enumerate(names[:4])]
                if b[3] is None:
                    b[3] = self.default(names[3])
                if None in b:
                    raise Unknown("call %s" % str(t)[:100])
                return self.group(b[2], b[0], b[1], b[3])
            if f in (".toarray", ".copy", ".tocsr", ".todense", "numpy.asarray", "numpy.array", "scipy.sparse.csr_matrix", ".tocsc", ".tocoo") and a and a[0].op != "tuple":
                return self.full(a[0])
            if f == ".transpose" and len(a) == 1 and not t.args[2]:
                return self.full(a[0]).trans()
        if t.op == "attr" and t.args[1] == "T":
            return self.full(t.args[0]).trans()
        if t.op == "sym":
            return M.of((("X", str(t)),))
        raise Unknown("matrix %s" % str(t)[:100])

    def default(self, nm):
        f = next((f for f in self.it.prog.functions(REB) if nm in f.params() and getattr(f.node.args, "defaults", None)), None)
        if f is None:
            return None
        a = f.node.args
        ds = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
        d = ds.get(nm)
        return const(d.value) if isinstance(d, ast.Constant) else None

    def ismat(self, x):
        return x.op in ("obj", "matmul") or x in self.syms or (x.op == "sym" and x.args[0] == "X") or \
            (x.op == "call" and (str(x.args[0]) == "fn:" + REB or x.args[0] in (".toarray", ".tocsr", ".copy", ".todense", "scipy.sparse.csr_matrix")))

    # small matrices --------------------------------------------------
    def group(self, size, ts, nz, diag):
        """full matrix of the four defining fields"""
        diag = self.scalar(diag)
        nz = self.index(nz)
        s = self.small(ts, nz)
        return s.plus(self.embed_eye(nz), T.neg(diag)).plus(M.of((), diag))

    def index(self, nz):
        nz = self.canon(nz)
        while nz.op == "call" and nz.args[0] in ("numpy.unique", "numpy.array", "numpy.asarray", ".copy", ".astype", "copy.copy"):
            nz = T.unver(T.strip(nz.args[1][0]))
        return nz

    def embed_eye(self, nz):
        if nz.op in ("contents", "seq") and (nz.args[1] if nz.op == "contents" else nz).op == "seq" and not (nz.args[1] if nz.op == "contents" else nz).args:
            return M()
        if nz.op == "obj":
            c = self.st.heap.get((nz, "[]"))
            if c is not None and c.op == "seq" and not c.args:
                return M()
        return M.of((("P", self.ikey(nz)),))

    def ikey(self, nz):
        if nz in self.nz:
            return str(nz)
        pm = self.posmap(nz)
        if pm:
            return "%s@%s" % (pm[0], self.lkey(pm[1]))
        return self.lkey(nz)

    def lkey(self, l):
        r = regions(l, {k: frozenset(("a", "ab") if i == 0 else ("b", "ab")) for i, k in enumerate(self.nz)}, self.st)
        if r is not None and is_sorted(l, self.st):
            return "sorted" + "".join(sorted(r))
        return str(l)

    def posmap(self, t):
        """(index array, list): t[k] is the position of index[k] in list"""
        t = self.canon(t)
        if t.op == "call" and t.args[0] == "numpy.searchsorted":
            x = self.index(t.args[1][1])
            if x in self.nz and is_sorted(t.args[1][0], self.st):
                return x, t.args[1][0]
        for e in self.it.events:
            if e.kind != "setitem" or norm(T.unver(T.strip(e.d["base"]))) is not t:
                continue
            r = posmap_event(self.it, self.st, e, self.nz)
            if r:
                return r
        return None

    def results(self, tr):
        """the kernel call whose results these data, indices and indptr are"""
        ks = []
        for x, i in zip(tr, (1, 2, 3)):
            b, k = at(bare(x))
            if b is None or not is_const(k) or b.op != "call" or not str(b.args[0]).startswith("fn:"):
                return None
            if cval(k) != i:
                raise Mixed("result %s of the kernel is used as %s" % (k, ("data", "indices", "indptr")[i - 1]))
            ks.append(b)
        if any(k is not ks[0] for k in ks):
            raise Unknown("fields of different kernel calls")
        return ks[0]

    def kdiag(self, k):
        f, a = str(k.args[0]), [self.canon(x) for x in k.args[1]]
        if f in ("fn:" + ADD, "fn:" + SUBK) and len(a) == 11:
            return T.add(self.scalar(a[5]), T.mul(const(1 if f == "fn:" + ADD else -1), self.scalar(a[10])))
        if f == "fn:" + FULL and len(a) == 5:
            return self.scalar(a[4])
        raise Unknown("kernel %s" % f)

    def kfull(self, k):
        f, a = str(k.args[0]), [self.canon(x) for x in k.args[1]]
        if k.args[2]:
            raise Unknown("keyword arguments of a kernel")
        if f in ("fn:" + ADD, "fn:" + SUBK) and len(a) == 11:
            x, y = self.args6(a[0], a[1:6]), self.args6(a[0], a[6:])
            return x.plus(y, const(1 if f == "fn:" + ADD else -1))
        if f == "fn:" + FULL and len(a) == 5:
            return self.fromfull(a)
        raise Unknown("kernel %s" % f)

    def scalar(self, t):
        """a diagonal value, with the kernels' results replaced by what they return"""
        t = self.canon(t)
        return T.rebuild(t, lambda x: self.kdiag(x.args[0]) if x.op == "idx" and x.args[0].op == "call" and str(x.args[0].args[0]) in ("fn:" + ADD, "fn:" + SUBK, "fn:" + FULL)
                         and is_const(x.args[1]) and cval(x.args[1]) == 5 else
                         (x.args[1][0] if x.op == "call" and x.args[0] in ("copy.copy", "float", ".copy", "copy.deepcopy") and len(x.args[1]) == 1 else x))

    def args6(self, size, a):
        d, i, p, nz, diag = a
        base, c = self.of_triple(d, i, p)
        if base is None:
            ts = mk("call", "scipy.sparse.csr_matrix", (mk("tuple", d, i, p),), (), None)
            return self.group(size, ts, nz, diag)
        return self.group(size, T.mul(c, base) if c is not const(1) else base, nz, diag)

    def fromfull(self, a):
        nz, d, i, p, diag = a
        base, c = self.of_triple(d, i, p)
        if base is None or c is not const(1):
            raise Unknown("arrays %s %s %s" % (d, i, p))
        self.full_nz = (nz, base, diag)
        return M.of((("X", str(base)),))

    def triple(self, ts):
        ts = self.canon(ts)
        b = bare(ts)
        if b.op == "call" and b.args[0] == "scipy.sparse.csr_matrix" and b.args[1] and b.args[1][0].op == "tuple" and len(b.args[1][0].args) == 3:
            return tuple(self.canon(x) for x in b.args[1][0].args)
        return None

    def of_triple(self, d, i, p):
        """(matrix, factor) whose arrays these are"""
        i, p = bare(i), bare(p)
        if i.op == "attr" and p.op == "attr" and i.args[1] == "indices" and p.args[1] == "indptr" and i.args[0] is p.args[0]:
            m = i.args[0]
            md = mk("attr", m, "data")
            d = norm(bare(d))
            if d is md:
                return m, const(1)
            q = T.poly(d)
            if q is not None and all(w.count(md) == 1 for w in q):
                c = const(0)
                for w, k in q.items():
                    f = T._from_poly({(): k})
                    for x in w:
                        if x is not md:
                            f = T.mul(f, x)
                    c = T.add(c, f)
                return m, c
            raise Unknown("data %s with the structure of %s" % (d, m))
        if i.op == "attr" and p.op == "attr" and i.args[1] in ("indices", "indptr", "data") and p.args[1] in ("indices", "indptr", "data"):
            raise Mixed("data, indices and indptr are %s, %s, %s" % (d, i, p))
        return None, None

    def small(self, ts, nz):
        """the small matrix put in place by nz"""
        ts = self.canon(ts)
        tr = self.triple(ts)
        if tr is not None:
            k = self.results(tr)
            if k is not None:
                b, j = at(nz)
                if b is not k:
                    raise Unknown("rows %s for the results of a kernel" % str(nz)[:80])
                if not (is_const(j) and cval(j) == 4):
                    raise Mixed("result %s of the kernel is used as nz_rowcols" % j)
                kd = self.kdiag(k)
                return self.kfull(k).plus(M.of((), kd), const(-1)).plus(self.embed_eye(nz), kd)
            m, c = self.of_triple(*tr)
            if m is None:
                raise Unknown("small matrix %s" % str(ts)[:100])
            return self.small(m, nz).scale(c)
        if ts.op == "poly":
            out = M()
            for m, c in T.poly(ts).items():
                mats = [x for x in m if self.smallish(x)]
                if len(mats) != 1:
                    raise Unknown("small matrix term %s" % str(ts)[:100])
                k = const(1)
                for x in m:
                    if x is not mats[0]:
                        k = T.mul(k, x)
                out = out.plus(self.small(mats[0], nz), T.mul(k, T._from_poly({(): c})))
            return out
        if ts.op == "attr" and ts.args[1] == "T_small" and ts.args[0] in self.syms:
            a = ts.args[0]
            return self.place(("J", a), nz, mk("attr", a, "nz_rowcols")).plus(self.embed_eye(nz), mk("attr", a, "diag_val"))
        if ts.op == "call":
            f, a = ts.args[0], ts.args[1]
            if f in (".transpose", ".T") and a:
                return self.small(a[0], nz).trans()
            if f in (".tocsr", ".copy", "scipy.sparse.csr_matrix", "copy.copy", ".tocsc", ".tocoo", "scipy.sparse.csc_matrix", ".asfptype") and len(a) == 1 and a[0].op != "tuple":
                return self.small(a[0], nz)
            if f in ("scipy.sparse.eye", "scipy.sparse.identity"):
                return self.embed_eye(nz)
            if f == "scipy.sparse.csr_matrix" and len(a) == 1 and a[0].op == "tuple" and len(a[0].args) == 2:
                return M()                    # all zeros of that shape
            if str(f) == "fn:" + REB:
                return self.inner(self.full(ts), nz)
        if ts.op == "attr" and ts.args[1] == "T":
            return self.small(ts.args[0], nz).trans()
        if ts.op == "matmul":
            return self.small(ts.args[0], nz).times(self.small(ts.args[1], nz))
        raise Unknown("small matrix %s" % str(ts)[:100])

    def smallish(self, x):
        return (x.op == "attr" and x.args[1] in ("T_small", "T")) or x.op == "matmul" or \
            (x.op == "call" and (x.args[0] in ("scipy.sparse.eye", "scipy.sparse.identity", ".tocsr", ".transpose", ".copy", "scipy.sparse.csr_matrix") or str(x.args[0]) == "fn:" + REB))

    def place(self, atom, nz, own):
        if nz is own:
            return M.of((atom,))
        pm = self.posmap(nz)
        if pm and pm[0] is own:
            return M.of((atom + (self.lkey(pm[1]),),))
        if nz in self.nz or pm:
            raise Mixed("T_small of one matrix with the rows %s" % nz)
        raise Unknown("rows %s" % str(nz)[:80])

    def inner(self, m, nz):
        """a matrix of the space spanned by a list, put in place by that list"""
        l = self.lkey(nz)
        out = M()
        for w, c in m.items():
            if not w:
                out = out.plus(self.embed_eye(nz), c)
                continue
            v = []
            for a in w:
                if a[0][0] == "J" and len(a) == 3:
                    if a[2] != l:
                        raise Mixed("positions in %s, but put in place by %s" % (a[2], l))
                    v.append((a[0], a[1]))
                elif a[0] == "P" and "@" in a[1]:
                    x, y = a[1].split("@")
                    if y != l:
                        raise Mixed("positions in %s, but put in place by %s" % (y, l))
                    v.append(("P", x))
                else:
                    raise Unknown("atom %s" % (a,))
            out = out.plus(M.of(v, c))
        return out


class Mixed(Exception):
    """parts of different matrices combined: wrong, not merely unknown"""


def posmap_event(it, st, e, own):
    """index[k] found in a list by a search loop that starts at the list's beginning"""
    k, v = T.unver(T.strip(e.d["key"])), T.unver(T.strip(e.d["value"]))
    for g in e.guards:
        g = T.unver(T.strip(g))
        if g.op != "eq":
            continue
        for x, y in (g.args, g.args[::-1]):
            (xa, xk), (la, lk) = at(x), at(y)
            if xa is None or la is None:
                continue
            xa = bare(xa)
            if xa in own and xk is k and lk is v:
                # the search variable
                p, seen = v, 0
                done = False
                while p.op == "phi" and seen < 4:
                    if done:
                        raise Mixed("the search for the positions of %s starts where an earlier loop stopped, not at the beginning of the list" % xa)
                    done = p.args[0] == outer_loop(e)
                    i = next((j for q, j in it.phis.items() if T.unver(T.strip(q)) is p), None)
                    if i is None:
                        return None
                    p, seen = T.unver(T.strip(i.init)), seen + 1
                if not (is_const(p) and cval(p) == 0):
                    return None
                ks = k.args[0] if k.op == "elem" else None
                b = csr.bounds(ks) if ks is not None else None
                if b is None or not (is_const(b[0]) and cval(b[0]) == 0):
                    return None
                return xa, y.args[0]
    return None


# ------------------------------------------------------------------ drivers
def anyatom(extra):
    def atom(c):
        if c.op == "call" and c.args[0] in ("scipy.sparse.isspmatrix_csr", "scipy.sparse.issparse", "scipy.sparse.isspmatrix"):
            return True
        return extra(c)
    return atom


def run_expr(prog, SS, expr, facts=(), params="A, B, o, X, n, nz, d"):
    src = "def driver(%s):\n    return %s\n" % (params, expr)
    f = driver(prog, SS.module.name, src)
    it = IO(prog, opaque=lambda z: z is not f and z.name in KER)
    for k in "AB":
        it.types[sym(k)] = SS
    st = State()
    for x in facts:
        st.assume(x)
    r = it.run(f, st=st)
    return it, r


def run(ctx):
    prog = ctx.prog
    SS = prog.cls("SparseStochMat")
    A, B, X, o, d = (sym(x) for x in "ABXod")
    da, db = mk("attr", A, "diag_val"), mk("attr", B, "diag_val")
    JA, JB = M.of((("J", A),)), M.of((("J", B),))
    FA, FB = JA.plus(M.of((), da)), JB.plus(M.of((), db))
    FX = M.of((("X", "X"),))
    dense = [mk("isinst", X, "ndarray"), not_(mk("isinst", X, "SparseStochMat"))]
    sparse = [mk("isinst", X, "spmatrix"), not_(mk("isinst", X, "SparseStochMat")), not_(mk("isinst", X, "ndarray"))]
    fl = [mk("isinst", o, "float")]
    fint = [mk("isinst", o, "int"), not_(mk("isinst", o, "float"))]

    simple = [
        ("A + B", FA.plus(FB), ()), ("A - B", FA.plus(FB, const(-1)), ()), ("A.__radd__(B)", FA.plus(FB), ()),
        ("A * o", FA.scale(o), fl), ("o * A", FA.scale(o), fl), ("A * o", FA.scale(o), fint),
        ("A.sub_diag(d)", FA.plus(M.of((), d), const(-1)), ()), ("A.add_diag(d)", FA.plus(M.of((), d)), ()),
        ("A.transpose()", FA.trans(), ()), ("A.transpose(copy=True)", FA.trans(), ()), ("A.T", FA.trans(), ()),
        ("A.copy()", FA, ()), ("A.tocsr()", FA, ()), ("A.toarray()", FA, ()), ("A.to_full_mat()", FA, ()),
        ("SparseStochMat.create_diag(n, d)", M.of((), d), ()),
        ("SparseStochMat(**A.to_dict())", FA, ()),
        ("SparseStochMat.from_small_csr_matrix(A.size, A.T_small, A.nz_rowcols, A.diag_val)", FA, ()),
    ]
    for kind, fs in (("array", dense), ("sparse matrix", sparse)):
        simple += [("A + X", FA.plus(FX), fs), ("X + A", FA.plus(FX), fs), ("A - X", FA.plus(FX, const(-1)), fs),
                   ("X - A", FX.plus(FA, const(-1)), fs), ("A @ X", FA.times(FX), fs), ("X @ A", FX.times(FA), fs)]
    for expr, want, facts in simple:
        lab = expr + (" (X: array)" if facts is dense else " (X: sparse)" if facts is sparse else "")
        with ctx.guard("operation", lab):
            it, r = run_expr(prog, SS, expr, facts)
            ctx.saw(it)
            compare(ctx, it, r, lab, want, lambda c: fact_atom(c, facts), (A, B), SS, frozenset(REG))
            sizes(ctx, it, r, lab, SS, sym("n") if "create" in expr else mk("attr", A, "size"))
    product(ctx, SS, A, B, da, db, FA, FB)
    from_full(ctx, SS, X, d)
    index_types(ctx, SS)
    wrappers(ctx, SS)
    kernels(ctx)
    accumulator(ctx)
    helpers(ctx)


def fact_atom(c, facts):
    if c in facts:
        return True
    if not_(c) in facts:
        return False
    if c.op == "isinst" and c.args[0].op == "sym" and c.args[0].args[0] in "AB" and c.args[1] == "SparseStochMat":
        return True
    return None


def methods_raising(it):
    return [e for e in it.events if e.kind == "raise"]


def compare(ctx, it, r, lab, want, extra, syms, SS, nonempty):
    where = "%s" % (SS.module.relpath if hasattr(SS.module, "relpath") else SS.module.name)
    atom = anyatom(extra)
    try:
        got = Mean(it, r.st, atom, syms).full(r.value)
    except Unknown as e:
        ctx.und("operation", lab, str(e))
        return
    except Mixed as e:
        ctx.bad("operation", lab, str(e), where)
        return
    diff = reduce_(got.plus(want, const(-1)), syms, nonempty)
    ctx.check(not diff, "operation", lab, "the result differs from the full matrices' by %s" % diff.show(), where)


def reduce_(m, syms, nonempty):
    out = M()
    for w, c in m.items():
        dead = False
        for i, a in enumerate(w):
            if a[0][0] == "J":
                own = {"a", "ab"} if a[1] is syms[0] else {"b", "ab"}
                if not (own & nonempty):
                    dead = True
                if i + 1 < len(w) and w[i + 1][0][0] == "J" and w[i + 1][1] is not a[1] and "ab" not in nonempty:
                    dead = True
            if a[0] == "P" and len(syms) > 1:
                pass
        if not dead:
            out = out.plus(M.of(w, c))
    return out.clean()


def sizes(ctx, it, r, lab, SS, want):
    v = T.unver(T.strip(r.value))
    if v.op != "obj":
        return
    s = r.st.heap.get((r.value, "size"))
    s = bare(s) if s is not None else None
    while s is not None and s.op == "call" and s.args[0] == "copy.copy":
        s = bare(s.args[1][0])
    if s is not None and s.op in ("idx", "select", "item") and s.args[0].op == "call" and str(s.args[0].args[0]) in ("fn:" + ADD, "fn:" + SUBK):
        ctx.check(is_const(s.args[1]) and cval(s.args[1]) == 0 and bare(s.args[0].args[1][0]) is want, "size", lab, "size is %s" % s, SS.module.name)
        return
    ctx.tri(True if s is want else (None if s is None else False), "size", lab, "the result's size is %s" % s, SS.module.name, "size not known")
    sh = r.st.heap.get((r.value, "shape"))
    if sh is not None and bare(sh).op == "attr" and bare(sh).args[1] == "shape" and T.unver(T.strip(bare(sh).args[0])) is T.unver(T.strip(r.st.heap.get((r.value, "T_small"), sh))):
        ctx.bad("size", lab + " shape", "shape is that of T_small, not of the full matrix", SS.module.name)
    if sh is not None and sh.op == "tuple":
        ctx.check(all(x is r.st.heap.get((r.value, "size")) for x in sh.args) and len(sh.args) == 2, "size", lab + " shape", "shape is %s" % sh, SS.module.name)


def product(ctx, SS, A, B, da, db, FA, FB):
    prog = ctx.prog
    want = FA.times(FB)
    base = {mk("attr", A, "nz_rowcols"): frozenset(("a", "ab")), mk("attr", B, "nz_rowcols"): frozenset(("b", "ab"))}
    for a1 in (True, False):
        for b1 in (True, False):
            facts = []
            for t, v in ((da, a1), (db, b1)):
                e = mk("eq", t, const(1.0))
                facts += [e if v else not_(e), mk("isinst", t, "float")]
            lab0 = "A @ B with diagonal values %s, %s" % ("1" if a1 else "a", "1" if b1 else "b")
            with ctx.guard("product", lab0):
                it, r = run_expr(prog, SS, "A @ B", facts)
                ctx.saw(it)
                for k in range(12):
                    cnt = {"a": 2 * (k & 1), "b": 2 * (k >> 1 & 1), "ab": (0, 1, 3)[k >> 2]}
                    ne = frozenset(x for x in REG if cnt[x])
                    lab = "%s, rows: %s" % (lab0, "/".join("%d %s" % (cnt[x], x) for x in REG if cnt[x]) or "none")

                    def extra(c, cnt=cnt):
                        v = fact_atom(c, facts)
                        if v is not None:
                            return v
                        return emptiness(c, base, r.st, cnt)
                    sub = {t: const(1) for t, v in ((da, a1), (db, b1)) if v}
                    try:
                        got = Mean(it, r.st, anyatom(extra), (A, B)).full(r.value)
                    except Unknown as e:
                        # diagonal values compared with other numbers than 1: a few values stand for the ranges
                        worse = None
                        for va in (1.0,) if a1 else (0.5, 2.0, -1.0):
                            for vb in (1.0,) if b1 else (0.5, 2.0, -1.0):
                                env = {"a": va, "b": vb}
                                kind = lambda t: "a" if bare(t) is da else "b" if bare(t) is db else None

                                def extra2(c, env=env, extra=extra, kind=kind):
                                    v = extra(c)
                                    return csr.comparison(T.unver(T.strip(c)), kind, env) if v is None else v
                                try:
                                    got = Mean(it, r.st, anyatom(extra2), (A, B)).full(r.value)
                                except (Unknown, Mixed):
                                    continue
                                diff = reduce_(M({w: T.subst(c, sub) for w, c in got.plus(want, const(-1)).items()}), (A, B), ne)
                                if diff and worse is None:
                                    worse = (va, vb, diff.show())
                        if worse:
                            ctx.bad("product", lab, "with diagonal values %s and %s the result differs from the product of the full matrices by %s" % worse, SS.module.name)
                        else:
                            ctx.und("product", lab, str(e))
                        continue
                    except Mixed as e:
                        ctx.bad("product", lab, str(e), SS.module.name)
                        continue
                    g = M({w: T.subst(c, sub) for w, c in got.plus(want, const(-1)).items()})
                    diff = reduce_(g, (A, B), ne)
                    ctx.check(not diff, "product", lab, "the result differs from the product of the full matrices by %s" % diff.show(), SS.module.name)


def emptiness(c, base, st, cnt):
    """conditions on the number of elements of index sets, for given numbers of rows in one operand and in both"""
    size = lambda x: None if x is None else sum(cnt[k] for k in x)

    def length(x):
        if x.op == "call" and x.args[0] == "len":
            return size(regions(x.args[1][0], base, st))
        if x.op == "attr" and x.args[1] == "size":
            return size(regions(x.args[0], base, st))
        if is_const(x) and isinstance(cval(x), int):
            return cval(x)
        return None
    if c.op in ("eq", "ne", "lt", "le", "gt", "ge"):
        x, y = length(c.args[0]), length(c.args[1])
        if x is None or y is None:
            return None
        return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[c.op]
    n = size(regions(c, base, st))
    if n is None and not is_const(c):
        n = length(c)
    return None if n is None else n > 0


def from_full(ctx, SS, X, d):
    prog = ctx.prog
    lab = "SparseStochMat.from_full_csr_matrix(X)"
    with ctx.guard("operation", lab):
        it, r = run_expr(prog, SS, "SparseStochMat.from_full_csr_matrix(X, diag_val=d)")
        ctx.saw(it)
        m = Mean(it, r.st, anyatom(lambda c: None), ())
        try:
            got = m.full(r.value)
        except Unknown as e:
            ctx.und("operation", lab, str(e))
            return
        except Mixed as e:
            ctx.bad("operation", lab, str(e), SS.module.name)
            return
        ctx.check(got.clean() == M.of((("X", "X"),)).clean() if True else None, "operation", lab, "stands for %s" % got.show(), SS.module.name)
        nz, base, diag = m.full_nz
        # the listed rows: every row and column with a nonzero of X - diag*I
        b = m.index(nz)
        ok = None
        parts = None
        if b.op == "call" and b.args[0] in ("numpy.union1d",):
            parts = [m.index(x) for x in b.args[1][:2]]
        elif b.op == "call" and b.args[0] in ("numpy.concatenate", "numpy.hstack", "numpy.append"):
            xs = b.args[1][0].args if b.args[1][0].op in ("tuple", "seq") else b.args[1]
            parts = [m.index(x) for x in xs]
        elif at(b)[0] is not None:
            parts = [b]
        if parts is not None:
            got_ax = set()
            src = []
            for x in parts:
                a, k = at(x)
                if a is not None and a.op == "call" and a.args[0] in (".nonzero", "numpy.nonzero", "numpy.where", "scipy.sparse.find") and is_const(k):
                    got_ax.add(cval(k))
                    src.append(T.unver(T.strip(a.args[1][0])))
            if len(src) == len(parts):
                good = all(is_diff(s, X, d) for s in src)
                ok = got_ax == {0, 1} and good
        if b.op == "call" and b.args[0] in ("numpy.intersect1d", "numpy.setdiff1d", "numpy.setxor1d") and all(at(m.index(x))[0] is not None and at(m.index(x))[0].op == "call" and at(m.index(x))[0].args[0] in (".nonzero", "numpy.nonzero") for x in b.args[1][:2]):
            ok = False
        ctx.tri(ok, "listed rows", lab, "the rows kept in T_small are %s, not all rows and columns in which X differs from diag_val*I" % str(b)[:200], SS.module.name, "rows: %s" % str(b)[:120])
        ctx.check(diag is d, "listed rows", lab + " diagonal", "diag_val handed on is %s" % diag, SS.module.name)
    lab = "SparseStochMat.from_full_csr_matrix(X, nz)"
    with ctx.guard("operation", lab):
        it, r = run_expr(prog, SS, "SparseStochMat.from_full_csr_matrix(X, nz, d)", [not_(mk("is", sym("nz"), NONE))])
        m = Mean(it, r.st, anyatom(lambda c: (False if c is mk("is", sym("nz"), NONE) else None)), ())
        got = m.full(r.value)
        nz, base, diag = m.full_nz
        ctx.check(m.index(nz) is sym("nz") and diag is d, "listed rows", lab, "the rows used are %s, diagonal %s" % (str(nz)[:100], diag), SS.module.name)
        ke = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).endswith(FULL)]
        nz = ke[0].d["args"][0]
        ctx.check(is_sorted(nz, r.st), "listed rows", lab + " order", "the kernel numbers the rows in the caller's order, but the matrix lists them in increasing order", SS.module.name)
        sz = r.st.heap.get((r.value, "size"))
        a, k = at(bare(sz))
        ctx.tri(True if (k is not None and is_const(k) and cval(k) == 0) or bare(sz) is mk("idx", mk("attr", X, "shape"), const(0)) else None, "size", lab, "", SS.module.name, "size %s" % sz)


def is_diff(s, X, d):
    """s = ±(X - d*I)"""
    p = T.poly(s)
    if p is None:
        return False
    cx, cd = Fraction(0), Fraction(0)
    for m, c in p.items():
        if m == (X,):
            cx = c
        elif len(m) == 2 and d in m and any(x.op == "call" and x.args[0] in ("scipy.sparse.eye", "scipy.sparse.identity") for x in m):
            cd = c
        else:
            return False
    return cx != 0 and cx == -cd


# ------------------------------------------------------------------ index types
CT = {"int": "int32", "long long": "int64", "double": "float64", "long": "int64", "Py_ssize_t": "int64"}


def index_types(ctx, SS):
    """nothing replaces the index arrays of a matrix by arrays of another type"""
    prog = ctx.prog
    n = 0
    for m in prog.modules.values():
        for f in m.all_functions():
            if m.name.startswith("flowstab._cython"):
                continue
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        if isinstance(t, ast.Attribute) and t.attr in ("indices", "indptr"):
                            n += 1
                            s = ast.unparse(x.value)
                            ctx.tri(False if "int64" in s or "longlong" in s else (True if "int32" in s or "intc" in s else None), "index types", "%s: %s" % (f.qual, ast.unparse(t)),
                                    "%s is replaced by %s: the kernels take 32-bit indices, so later operations on the matrix fail" % (ast.unparse(t), s),
                                    "%s:%d" % (m.relpath if hasattr(m, "relpath") else m.name, x.lineno), "assigned %s" % s)
    ctx.ok("index types", "%d assignments to index arrays" % n, "looked at")
    # constructor
    with ctx.guard("index types", "SparseStochMat.__init__"):
        it, r = run_expr(prog, SS, "SparseStochMat(n, d, o, X, nz, 1.0)")
        ts = T.unver(T.strip(r.st.heap.get((r.value, "T_small"))))
        nz = T.unver(T.strip(r.st.heap.get((r.value, "nz_rowcols"))))
        if ts.op == "call" and ts.args[0] == "scipy.sparse.csr_matrix" and ts.args[1][0].op == "tuple":
            for t, want, lab in zip(ts.args[1][0].args, ("float64", "int32", "int32"), ("data", "indices", "indptr")):
                got = dtype_of(t)
                ctx.tri(None if got is None else got == want, "index types", "SparseStochMat.T_small." + lab, "stored as %s; the kernels take %s" % (got, want), SS.module.name, "type not known")
            sh = dict(ts.args[2]).get("shape")
            ctx.tri(False if sh is None and len(ts.args[1]) == 1 else True if sh is not None else None, "size", "SparseStochMat.T_small shape",
                    "T_small is built without a shape, so its size is taken from its largest column with an entry: rows listed in nz_rowcols whose columns are empty are lost", SS.module.name, "shape not known")
        got = dtype_of(nz)
        ctx.tri(None if got is None else got == "int32", "index types", "SparseStochMat.nz_rowcols", "stored as %s; the kernels take int32" % got, SS.module.name, "type not known")
        ctx.check(is_sorted(nz, r.st), "index types", "SparseStochMat.nz_rowcols order", "nz_rowcols is not put in increasing order, which the kernels rely on", SS.module.name)


def dtype_of(t):
    while t.op == "call":
        f, a, kw = t.args[0], t.args[1], dict(t.args[2])
        dt = kw.get("dtype")
        if dt is None and f in (".astype", "numpy.array", "numpy.asarray") and len(a) > 1:
            dt = a[1]
        if dt is not None:
            n = str(cval(dt)) if dt.op == "const" else str(dt)
            n = n.rsplit(".", 1)[-1]
            return {"intc": "int32", "double": "float64", "float": "float64", "int": "int64", "int_": "int64", "longlong": "int64"}.get(n, n)
        if f in ("numpy.unique", ".copy", "numpy.sort", "numpy.array", "numpy.asarray") and a:
            t = a[0]
            continue
        return None
    return None


# ------------------------------------------------------------------ calls of the kernels
def wrappers(ctx, SS):
    prog = ctx.prog
    m = next((m for m in prog.modules.values() if m.name.endswith("_cython_sparse_stoch")), None)
    inker = lambda z: z.module is m
    A = sym("A")
    with ctx.guard("kernel call", REB):
        f = next(f for f in SS.module.all_functions() if f.name == REB)
        it = Interp(prog, opaque=inker)
        r = it.run(f)
        ctx.saw(it)
        ts, nz, size, dg = (sym(p) for p in f.params()[:4])
        ev = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).endswith(REB)]
        v = T.unver(T.strip(r.value))
        if len(ev) == 1 and v.op == "call" and v.args[0] == "scipy.sparse.csr_matrix" and v.args[1] and v.args[1][0].op == "tuple":
            e = ev[0]
            got = [bare(x) for x in e.d["args"]]
            want = [mk("attr", ts, "data"), mk("attr", ts, "indices"), mk("attr", ts, "indptr"), nz, size, dg]
            ctx.check(got == want and not e.d["kwargs"], "kernel call", REB, "the kernel is given %s" % [str(x) for x in got], e.where)
            idx = [at(bare(x)) for x in v.args[1][0].args]
            ok = len(idx) == 3 and all(b is not None and is_const(k) and cval(k) == i for i, (b, k) in enumerate(idx))
            ctx.check(ok, "kernel call", REB + " result", "the matrix is built from %s" % v.args[1][0], e.where)
            sh = dict(v.args[2]).get("shape")
            ctx.tri(False if sh is None and len(v.args[1]) == 1 else None if sh is None or sh.op != "tuple" else all(bare(x) is size or (at(bare(x))[1] is not None and is_const(at(bare(x))[1]) and cval(at(bare(x))[1]) == 3) for x in sh.args),
                    "kernel call", REB + " shape", "the matrix has shape %s" % sh, e.where, "shape %s" % sh)
        else:
            ctx.und("kernel call", REB, "result %s" % str(v)[:80])
    with ctx.guard("kernel call", "inplace_row_normalize"):
        f = SS.find("inplace_row_normalize")
        it = Interp(prog, opaque=inker)
        S = sym(f.params()[0])
        it.types[S] = SS
        r = it.run(f)
        ctx.saw(it)
        ev = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).endswith("inplace_csr_row_normalize")]
        rs = sym(f.params()[1])
        if len(ev) == 1:
            e = ev[0]
            got = [bare(x) for x in e.d["args"]]
            ts = mk("attr", S, "T_small")
            want = [mk("attr", ts, "data"), mk("attr", ts, "indptr"), mk("idx", mk("attr", ts, "shape"), const(0)), rs]
            alt = want[:2] + [mk("attr", mk("attr", S, "nz_rowcols"), "size"), rs]
            ctx.check(got in (want, alt), "kernel call", "inplace_row_normalize", "the kernel is given %s" % [str(x) for x in got], e.where)
            ctx.check(not copies(e.d["args"][0]), "kernel call", "inplace_row_normalize in place", "a copy of the data is normalised", e.where)
        else:
            ctx.und("kernel call", "inplace_row_normalize", "%d kernel calls" % len(ev))
        dv = r.st.heap.get((S, "diag_val"))
        ctx.check(dv is rs, "kernel call", "inplace_row_normalize diagonal", "the diagonal value becomes %s" % dv, f.qual)
    with ctx.guard("kernel call", "inplace_csr_row_normalize"):
        f = next(f for f in SS.module.all_functions() if f.name == "inplace_csr_row_normalize")
        it = Interp(prog, opaque=lambda z: inker(z) or z.name == "inplace_row_normalize")
        r = it.run(f)
        ctx.saw(it)
        X, rs = (sym(p) for p in f.params()[:2])
        for nm in ("inplace_csr_row_normalize", "inplace_csr_row_normalize_array"):
            ev = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).rsplit(":", 1)[-1].rsplit(".", 1)[-1] == nm]
            if not ev:
                ctx.und("kernel call", nm, "no kernel call")
            for e in ev:
                got = [bare(x) for x in e.d["args"]]
                want = [mk("attr", X, "data"), mk("attr", X, "indptr"), mk("idx", mk("attr", X, "shape"), const(0)), rs]
                ctx.check(got == want, "kernel call", nm, "the kernel is given %s" % [str(x) for x in got], e.where)
                ctx.check(not copies(e.d["args"][0]), "kernel call", nm + " in place", "a copy of the data is normalised", e.where)
                g = [x for x in e.guards if x.op == "isinst" and x.args[0] is rs]
                if g:
                    ctx.check(any(("ndarray" in str(x.args[1])) == nm.endswith("array") for x in g), "kernel call", nm + " target", "used for %s" % g, e.where)
        ev = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).endswith("inplace_row_normalize")]
        for e in ev:
            kw = e.d["kwargs"]
            v = kw.get("row_sum") if isinstance(kw, dict) else None
            if v is None and len(e.d["args"]) > 1:
                v = e.d["args"][1]
            ctx.check(v is rs, "kernel call", "inplace_csr_row_normalize of a SparseStochMat", "normalised to %s" % v, e.where)


def copies(t):
    t = T.unver(T.strip(t))
    return t.op == "call" and t.args[0] in (".copy", "numpy.array", "copy.copy") or (t.op == "call" and t.args[0] == ".astype" and dict(t.args[2]).get("copy") is not FALSE)


# ------------------------------------------------------------------ compiled kernels
def kernel(prog, nm):
    m = next((m for m in prog.modules.values() if m.name.endswith("_cython_sparse_stoch")), None)
    f = next((f for f in m.all_functions() if f.name == nm and f.cls is None), None) if m else None
    if f is None:
        raise AnalysisBroken("no kernel %s" % nm)
    return f


def kernels(ctx):
    for nm, sign in ((ADD, 1), (SUBK, -1)):
        with ctx.guard("kernel", nm):
            try:
                combine(ctx, nm, sign)
            except Unknown as e:
                ctx.und("kernel", nm, str(e))
    for fn in (rebuild, fromfull_kernel, normalize):
        with ctx.guard("kernel", fn.__name__):
            try:
                fn(ctx)
            except Unknown as e:
                ctx.und("kernel", fn.__name__, str(e))


def start(ctx, nm):
    f = kernel(ctx.prog, nm)
    it = Interp(ctx.prog)
    r = it.run(f)
    ctx.saw(it)
    return f, it, r


def outer_loop(e):
    ks = [g.args[0] for g in e.guards if g.op == "iter"]
    return ks[0] if ks else None


def loc(e):
    return e.where


def is0(t):
    return is_const(t) and cval(t) == 0


def is1(t):
    return is_const(t) and cval(t) == 1


def combine(ctx, nm, sign):
    f, it, r = start(ctx, nm)
    ps = f.params()
    size, Ad, Ai, Ap, Az, Adg, Bd, Bi, Bp, Bz, Bdg = (sym(p) for p in ps[:11])
    base = {Az: frozenset(("a", "ab")), Bz: frozenset(("b", "ab"))}
    sc = [e for e in it.events if e.kind == "call" and e.d["fn"] == ".scatter"]
    if not sc:
        raise Unknown("no accumulator")
    main = outer_loop(sc[0])
    if main is None or any(outer_loop(e) != main for e in sc):
        raise Unknown("accumulation outside one row loop")
    rows_t = T.unver(T.strip(it.loopinfo[main]["iter"])) if it.loopinfo[main].get("iter") is not None else None
    where = sc[0].where
    # the rows
    lst = rows_t
    rowterms = set()
    bd = csr.bounds(rows_t) if rows_t is not None else None
    if rows_t is not None and rows_t.op == "call" and rows_t.args[0] == "enumerate":
        lst = rows_t.args[1][0]
    rg = regions(lst, base, r.st) if lst is not None and bd is None else None
    if rg is None:
        raise Unknown("rows %s" % str(rows_t)[:100])
    ctx.check(rg == frozenset(REG), "rows", nm, "rows in %s only are visited" % "/".join(sorted(rg)), where)
    nobreak(ctx, it, main, nm, where)
    ctx.check(is_sorted(lst, r.st), "rows", nm + " order", "the rows are not visited in increasing order", where)

    def isrow(t):
        return t.op == "elem" and len(t.args) > 1 and t.args[1] == main and (rows_t.op != "call" or rows_t.args[0] != "enumerate") or \
            (t.op == "idx" and t.args[0].op == "elem" and t.args[0].args[1] == main and is1(t.args[1]))

    def atomfor(reg):
        def atom(c):
            if c.op == "in" and isrow(c.args[0]):
                s = regions(c.args[1], base, r.st)
                return None if s is None else reg in s
            if c.op == "call" and c.args[0] == ".count" and isrow(c.args[1][1]):
                s = regions(c.args[1][0], base, r.st)
                return None if s is None else reg in s
            return None
        return atom
    def kind(t):
        if t is Adg or t is Bdg:
            return "diagonal of A" if t is Adg else "diagonal of B"
        a, k = at(t)
        if a is not None:
            if a is Ad or a is Bd:
                return "entry of A" if a is Ad else "entry of B"
            if a.op == "attr" and a.args[1] == "w":
                return "entry"
        return None
    envs = csr.cases([g for e in it.events for g in e.guards if g.op != "iter"] + [i.back for i in it.phis.values() if i.back is not None and i.back.op == "ite"], kind,
                     zero=("diagonal of A", "diagonal of B"))
    atom0 = atomfor

    def atomfor(reg, env):
        a0 = atom0(reg)

        def atom(c):
            v = a0(c)
            return csr.comparison(c, kind, env) if v is None else v
        return atom
    for reg, env in ((g, v) for v in envs for g in REG):
        atom = atomfor(reg, env)
        Ls = [Loops(it, r.st, main, atomfor(g, env)) for g in REG]
        L = Loops(it, r.st, main, atom)
        lab = "%s, row %s" % (nm, {"a": "of A only", "b": "of B only", "ab": "of both"}[reg]) + csr.case_label(env)
        ent = {"A": const(0), "B": const(0)}
        dg = const(0)
        und = None
        for e in sc:
            act, inner = csr.active(e, main, atom)
            if act is None:
                und = "condition of %s" % e.where
                continue
            if not act:
                continue
            v, p = (resolve(T.unver(T.strip(x)), atom) for x in e.d["args"][1:3])
            try:
                w, c, k = entry(L, it, v, p, inner, {"A": (Ad, Ai, Ap, Az), "B": (Bd, Bi, Bp, Bz)}, base, r.st, main, rows_t, isrow, Ls)
            except Unknown as x:
                und = str(x)
                continue
            except Mixed as x:
                ctx.bad("entries", lab, str(x), e.where)
                und = "wrong"
                continue
            if w == "diag":
                dg = T.add(dg, c)
            else:
                ent[w] = T.add(ent[w], c)
        if und:
            if und != "wrong":
                ctx.und("entries", lab, und)
            continue
        s = const(sign)
        ctx.check(ent["A"] is const(1 if "a" in reg else 0), "entries", lab + ": entries of A", "A's entries are added with factor %s" % ent["A"], where)
        ctx.check(ent["B"] is (s if "b" in reg else const(0)), "entries", lab + ": entries of B", "B's entries are added with factor %s" % ent["B"], where)
        want = {"a": T.mul(s, Bdg), "b": Adg, "ab": const(0)}[reg]
        diff = T.subst(T.sub(dg, want), {d: const(env[kind(d)]) for d in (Adg, Bdg) if kind(d) in env})
        ctx.check(is0(diff), "entries", lab + ": diagonal", "the diagonal gets %s, not %s" % (dg, want), where)
        # row counters
        for X, (xd, xi, xp, xz) in (("A", (Ad, Ai, Ap, Az)), ("B", (Bd, Bi, Bp, Bz))):
            for p in counters(it, sc, xp, main):
                try:
                    st_ = L.step(p)
                except Unknown:
                    i_ = L.phi(p)
                    bk = resolve(T.unver(T.strip(i_.back)), atom)
                    if not (bk.op == "phi" and bk.args[0] != main and L.inner(bk.args[0]) and L.scalar(bk) and T.unver(T.strip(L.phi(bk).init)) is p and
                            is_const(T.sub(resolve(T.unver(T.strip(L.phi(bk).back)), atom), bk))):
                        raise
                    st_ = mk("per entry", T.sub(resolve(T.unver(T.strip(L.phi(bk).back)), atom), bk))
                w = 1 if reg in base[xz] else 0
                ctx.check(is_const(st_) and cval(st_) == w, "row counter", "%s: row of %s" % (lab, X), "after this row the row of %s advances by %s, not %d" % (X, st_, w), where)
                ctx.check(is0(L.init(p)), "row counter", "%s: first row of %s" % (nm, X), "starts at %s" % L.init(p), where)
        # accumulator cleared, with increasing row numbers
        rs = [e for e in it.events if e.kind == "call" and e.d["fn"] == ".reset" and csr.active(e, main, atom)[0]]
        okr = [e for e in rs if not csr.active(e, main, atom)[1] and e.n < min(s_.n for s_ in sc)]
        if rs or not okr:
            ctx.check(len(okr) >= 1, "accumulator", lab + " cleared", "the accumulator is not cleared before the row is accumulated", where)
        for e in okr[:1]:
            a = L.val(e.d["args"][1])
            inc = isrow(a) or (a.op == "phi" and a.args[0] == main and is1(L.step(a)))
            ctx.tri(True if inc else (False if not any(y.op in ("phi", "elem") for y in subterms(a)) else None), "accumulator", lab + " row number",
                    "the accumulator is told row %s for every row, so entries of earlier rows are added up" % a, e.where, "row number %s" % a)
        try:
            output(ctx, it, r, L, lab, nm, main, ps, r.value, where)
        except Unknown as x:
            ctx.und("output", lab, str(x))
    # result
    v = r.value
    if v.op == "tuple" and len(v.args) == 6:
        ctx.check(v.args[0] is size, "result", nm + " size", "returns %s as size" % v.args[0], where)
        ctx.check(T.sub(v.args[5], T.add(Adg, T.mul(const(sign), Bdg))) is const(0), "result", nm + " diagonal", "returns %s as diagonal value" % v.args[5], where)
        g = regions(v.args[4], base, r.st)
        ctx.tri(None if g is None else g == frozenset(REG) and is_sorted(v.args[4], r.st), "result", nm + " rows", "returns %s as rows" % v.args[4], where, "rows")
        capacity(ctx, it, nm, v, where, {Ad: "nA", Bd: "nB", Ap: "pA", Bp: "pB", Az: "rA", Bz: "rB"}, base, r.st)
    else:
        ctx.und("result", nm, "returns %s" % str(v)[:80])


def counters(it, sc, xp, main):
    out = []
    for e in sc:
        for t in e.d["args"][1:3]:
            for x in subterms(T.unver(T.strip(t))):
                if x.op == "idx" and x.args[0] is xp:
                    for p in subterms(x.args[1]):
                        if p.op == "phi" and p.args[0] == main and p not in out:
                            out.append(p)
    return out


def entry(L, it, v, p, inner, mats, base, st, main, rows_t, isrow, Ls):
    """classify one accumulation: (matrix or 'diag', factor, -)"""
    if not inner:
        c = p
        ok = False
        ph = [x for x in subterms(c) if x.op == "phi" and x.args[0] == main]
        if len(ph) == 1 and is_const(T.sub(c, ph[0])):
            # the same position for every kind of row: a counter of all rows
            q, off = ph[0], T.sub(c, ph[0])
            steps = [l.step(q) for l in Ls]
            if all(is_const(x) for x in steps) and is_const(L.init(q)):
                if not (all(is1(x) for x in steps) and is0(T.add(L.init(q), off))):
                    raise Mixed("a diagonal value is put at position %s, which is not the row's own (starts at %s, advances by %s for the kinds of rows)" % (c, T.add(L.init(q), off), "/".join(map(str, steps))))
                ok = True
        if c.op == "idx" and c.args[0].op == "elem" and c.args[0].args[1] == main and is0(c.args[1]) and rows_t.op == "call" and rows_t.args[0] == "enumerate":
            ok = True
        if not ok:
            if isrow(c):
                raise Mixed("a diagonal value is put at the row's position in the full matrix, not at its position among the listed rows")
            if c.op == "phi" and c.args[0] == main:
                raise Mixed("a diagonal value is put at position %s, which is not the row's own (starts at %s, advances by %s)" % (c, L.init(c), L.step(c)))
            raise Unknown("position %s" % str(p)[:80])
        if any(y.op in ("idx", "select", "phi", "elem") for y in subterms(v)):
            raise Unknown("value %s" % str(v)[:80])
        return "diag", v, None
    if len(inner) != 1:
        raise Unknown("nested loops")
    loop = inner[0]
    q = T.poly(v)
    if q is None or len(q) != 1:
        raise Unknown("value %s" % str(v)[:80])
    (m, c), = q.items()
    if len(m) != 1:
        raise Unknown("value %s" % str(v)[:80])
    arr, k = at(m[0])
    for X, (xd, xi, xp, xz) in mats.items():
        if arr is xd:
            if not (k.op == "elem" and k.args[1] == loop):
                raise Unknown("entry %s" % k)
            bd = csr.bounds(k.args[0])
            if bd is None:
                raise Unknown("range %s" % k.args[0])
            (la, lk), (ha, hk) = at(bd[0]), at(bd[1])
            if la is None or ha is None:
                raise Unknown("range %s" % k.args[0])
            if la is not xp or ha is not xp:
                raise Mixed("entries of %s are read between %s and %s" % (X, bd[0], bd[1]))
            if T.sub(hk, lk) is not const(1):
                raise Mixed("entries of %s are read from row %s up to row %s" % (X, lk, hk))
            if not (lk.op == "phi" and lk.args[0] == main):
                raise Unknown("row %s" % lk)
            # position
            ta, tk = at(p)
            if ta is None:
                raise Unknown("position %s" % str(p)[:80])
            ca, ck = at(tk)
            if ca is not xi or ck is not k:
                raise Mixed("an entry of %s is put at the position of %s" % (X, str(tk)[:80]))
            o = map_owner(it, ta, base, st)
            if o is None:
                raise Unknown("column positions %s" % str(ta)[:80])
            if o[0] is not xz:
                raise Mixed("an entry of %s is put in the column of the other matrix" % X)
            if o[1] != frozenset(REG):
                raise Mixed("columns are numbered within %s" % o[1])
            return X, T._from_poly({(): c}), k
    raise Unknown("value %s" % str(v)[:80])


def map_owner(it, ta, base, st):
    """(index array, regions of the list) of an array of column positions"""
    t = ta
    if ta.op == "phi" and isinstance(ta.args[1], tuple) and ta.args[1][0] == "h":
        t = T.unver(T.strip(ta.args[1][1]))
    t0 = bare(t)
    if t0.op == "call" and t0.args[0] == "numpy.searchsorted":
        x = bare(t0.args[1][1])
        if x in base and is_sorted(t0.args[1][0], st):
            return x, regions(t0.args[1][0], base, st)
    hits = []
    for e in it.events:
        if e.kind == "setitem" and e.guards:
            b = T.unver(T.strip(e.d["base"]))
            loop = outer_loop(e)
            if ta.op == "phi" and loop == ta.args[0] and b is t:
                hits.append(posmap_event(it, st, e, base))
    if len(hits) == 1 and hits[0]:
        return hits[0][0], regions(hits[0][1], base, st)
    return None


def output(ctx, it, r, L, lab, nm, main, ps, val, where, expect=None, extra_ok=None):
    """data, indices and row pointers written for one row"""
    if not (val.op == "tuple" and len(val.args) >= 4):
        raise Unknown("result")
    pair = rowout(ctx, it, L, lab, main, val.args[1], val.args[2], val.args[3], where, acc=True)
    if pair is None:
        ctx.bad("output", lab, "the accumulated entries are not written", where)
    return pair


def writes(it, main, arr, atom):
    out = []
    for e in it.events:
        if e.kind == "setitem" and e.d["base"] is arr:
            a, inner = csr.active(e, main, atom)
            if a is None:
                raise Unknown("condition of a write")
            if a:
                out.append((e, inner))
    return out


def rowout(ctx, it, L, lab, main, data, indices, indptr, where, acc=False):
    dw = [(e, csr.piece(L, e.d["key"], e.d["value"], inner, None)) for e, inner in writes(it, main, data, L.atom)]
    iw = [(e, csr.piece(L, e.d["key"], e.d["value"], inner, None)) for e, inner in writes(it, main, indices, L.atom)]
    pw = writes(it, main, indptr, L.atom)
    if len(dw) > 1 or len(iw) > 1:
        raise Unknown("several writes in a row")
    total = const(0)
    pair = None
    if dw or iw:
        if not dw or not iw:
            ctx.bad("output", lab, "only one of data and indices is written", where)
            return None
        (de, dp), (ie, ip) = dw[0], iw[0]
        ctx.check(dp[0] is ip[0] and T.sub(dp[1], ip[1]) is const(0) and T.sub(dp[2], ip[2]) is const(0), "output", lab + " alignment",
                  "data are written at %s + %s, column indices at %s + %s" % (dp[0], dp[1], ip[0], ip[1]), de.where)
        cur = dp[0]
        ctx.check(is0(dp[1]), "output", lab + " position", "the row is written %s after the end of the previous one" % dp[1], de.where)
        total = dp[2]
        stp = L.step(cur)
        ctx.check(T.sub(stp, total) is const(0), "output", lab + " cursor", "%s elements are written but the position advances by %s" % (total, stp), de.where)
        ctx.check(is0(L.init(cur)), "output", lab + " start", "the first row is written at %s" % L.init(cur), de.where)
        pair = (dp, ip)
        if acc:
            lsv = ip[4]
            ok = None
            if lsv.op == "elemof" and lsv.args[0].op == "attr" and lsv.args[0].args[1] == "LS":
                spa = lsv.args[0].args[0]
                ok = dp[4] is mk("idx", mk("attr", spa, "w"), lsv)
            ctx.tri(ok, "output", lab + " values", "the value written with column %s is %s" % (lsv, dp[4]), de.where, "values %s" % str(dp[4])[:80])
    # row pointers
    if len(pw) != 1:
        raise Unknown("%d writes of row pointers" % len(pw))
    e, inner = pw[0]
    if inner:
        raise Unknown("row pointer in an inner loop")
    k, v = L.val(e.d["key"]), L.val(e.d["value"])
    idx = T.sub(k, const(1))
    ok = rowindex(L, idx, main)
    ctx.tri(ok, "row pointers", lab + " position", "the end of the row is stored at %s" % k, e.where, "position %s" % k)
    prev = None
    for y in subterms(v):
        a, j = at(y)
        if a is not None and (a is indptr or (a.op == "phi" and T.unver(T.strip(a.args[1][1])) is T.unver(T.strip(indptr)) if a.op == "phi" and isinstance(a.args[1], tuple) else False)):
            prev = (y, j)
    if prev is None:
        # the cursor itself
        cur = [p for p in subterms(v) if p.op == "phi" and p.args[0] == main]
        if pair is not None and T.sub(T.sub(v, pair[0][0]), total) is const(0):
            ctx.ok("row pointers", lab, "end of the row")
            return pair
        if pair is not None and is_const(T.sub(v, pair[0][0])):
            ctx.bad("row pointers", lab, "%s element(s) are written but the end of the row is counted as %s" % (total, T.sub(v, pair[0][0])), e.where)
            return pair
        raise Unknown("row pointer %s" % str(v)[:80])
    ctx.check(T.sub(prev[1], idx) is const(0), "row pointers", lab + " previous", "counted from the end of row %s" % prev[1], e.where)
    inc = T.sub(v, prev[0])
    ctx.check(T.sub(inc, total) is const(0), "row pointers", lab, "the row gets %s elements but its pointers count %s" % (total, inc), e.where)
    return pair


def rowindex(L, t, main):
    if t.op == "phi" and t.args[0] == main:
        return is1(L.step(t)) and is0(L.init(t))
    if t.op == "elem" and t.args[1] == main:
        b = csr.bounds(t.args[0])
        return True if b and is0(b[0]) else None
    if t.op == "idx" and t.args[0].op == "elem" and t.args[0].args[1] == main and is0(t.args[1]):
        return True
    return None


def alloc(t):
    """number of elements allocated"""
    t = T.unver(T.strip(t))
    q = T.poly(t)
    if t.op == "poly" and q is not None and len(q) == 1:
        (m, c), = q.items()
        if len(m) == 1:
            t = m[0]
    if t.op == "call" and t.args[0] in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"):
        a = t.args[1][0] if t.args[1] else dict(t.args[2]).get("shape")
        return a
    return None


def capacity(ctx, it, nm, v, where, roles, base, st):
    """buffers are large enough: entries of both operands plus one diagonal value for each row of one operand only"""
    y = {k: sym(k) for k in ("nA", "nB", "ra", "rb", "rab")}
    rA, rB, rC = T.add(y["ra"], y["rab"]), T.add(y["rb"], y["rab"]), T.add(T.add(y["ra"], y["rb"]), y["rab"])

    def tr(t):
        def f(x):
            s = None
            if x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and is0(x.args[1]):
                s = x.args[0].args[0]
            elif x.op == "attr" and x.args[1] == "size":
                s = x.args[0]
            elif x.op == "call" and x.args[0] == "len":
                s = x.args[1][0]
            if s is None:
                return x
            r = roles.get(s)
            if r in ("nA", "nB"):
                return y[r]
            if r:
                return {"pA": T.add(rA, const(1)), "pB": T.add(rB, const(1)), "rA": rA, "rB": rB}[r]
            g = regions(s, base, st)
            if g is not None:
                out = const(0)
                for q in g:
                    out = T.add(out, y["r" + q])
                return out
            return x
        return T.rebuild(T.unver(T.strip(t)), f)
    need = T.add(T.add(y["nA"], y["nB"]), T.add(y["ra"], y["rb"]))
    for i, lab, n in ((1, "data", need), (2, "indices", need), (3, "indptr", T.add(rC, const(1)))):
        a = alloc(v.args[i])
        if a is None:
            ctx.und("buffers", "%s %s" % (nm, lab), "allocation %s" % str(v.args[i])[:80])
            continue
        a = tr(a)
        p = T.poly(T.sub(a, n)) if not is_const(T.sub(a, n)) else {(): Fraction(cval(T.sub(a, n)))}
        ys = set(y.values())
        if any(not all(x in ys for x in m) for m in p):
            ctx.und("buffers", "%s %s" % (nm, lab), "allocation %s" % str(a)[:80])
            continue
        ctx.check(all(c >= 0 for c in p.values()), "buffers", "%s %s" % (nm, lab), "room for %s elements, %s may be needed" % (a, n), where)


# rebuild -------------------------------------------------------------------
def setmember(it, r, t, x):
    """(array all of whose elements were put in the set, row term) of a membership test"""
    t = T.unver(T.strip(t))
    o = t.args[0] if t.op == "contents" else t
    if t.op == "contents" and t.args[1].op == "setof":
        return bare(t.args[1].args[0])
    ins = []
    for e in it.events:
        if e.kind == "mutate" and e.d["how"] in (".insert", ".add") and T.unver(T.strip(e.d["target"])) is o:
            ins.append(e)
    if len(ins) == 1:
        v = T.unver(T.strip(ins[0].d["args"][0]))
        a, k = at(v)
        if a is not None and k.op == "elem" and [g for g in ins[0].guards if g.op != "iter"] == []:
            b = csr.bounds(k.args[0])
            sizes = (mk("idx", mk("attr", a, "shape"), const(0)), mk("call", "len", (a,), (), None), mk("attr", a, "size"))
            if b and is0(b[0]) and b[1] in sizes:
                return a
            if b and is_const(b[0]) and any(is_const(T.sub(b[1], z)) for z in sizes) and (cval(b[0]) > 0 or any(is_const(T.sub(b[1], z)) and cval(T.sub(b[1], z)) < 0 for z in sizes)):
                raise Mixed("only elements %s to %s of %s are put in the set of rows" % (b[0], b[1], a))
        if v.op == "elem":
            return bare(v.args[0])
    return None


def rebuild(ctx):
    nm = REB
    f, it, r = start(ctx, nm)
    td, ti, tp, nz, size, dg = (sym(p) for p in f.params()[:6])
    if not (r.value.op == "tuple" and len(r.value.args) >= 3):
        raise Unknown("result")
    data, indices, indptr = r.value.args[:3]
    ws = [e for e in it.events if e.kind == "setitem" and e.d["base"] is indptr and outer_loop(e) is not None]
    if not ws:
        raise Unknown("no row pointers")
    main = outer_loop(ws[0])
    rows_t = T.unver(T.strip(it.loopinfo[main]["iter"]))
    bd = csr.bounds(rows_t)
    where = ws[0].where
    nobreak(ctx, it, main, nm, where)
    ctx.tri(None if bd is None else is0(bd[0]) and bd[1] is size, "rows", nm, "rows %s are visited" % rows_t, where, "rows")
    isrow = lambda t: t.op == "elem" and t.args[1] == main

    def kind(t):
        return "diagonal" if t is dg else None
    for z_ in (csr.cases([g for e in it.events for g in e.guards if g.op != "iter"] + [r.value], kind, always=("diagonal",))):
        z_ = dict(z_)
        if "diagonal" not in z_:
            z_["diagonal"] = None
        for reg in ("in", "out"):
            z = z_["diagonal"] == 0

            def atom(c, reg=reg, z=z, z_=z_):
                if c.op in ("in",) and isrow(c.args[0]):
                    o = setmember(it, r, c.args[1], None)
                    return (reg == "in") if o is nz else None
                if c.op == "call" and c.args[0] == ".count" and isrow(c.args[1][1]):
                    o = setmember(it, r, c.args[1][0], None)
                    return (reg == "in") if o is nz else None
                if z_["diagonal"] is not None:
                    v = csr.comparison(c, kind, z_)
                    if v is not None:
                        return v
                if c.op in ("ne", "eq", "gt", "lt") and any(x.op == "call" and x.args[0] == ".count" for x in c.args):
                    x = next(x for x in c.args if x.op == "call")
                    k = next((y for y in c.args if is_const(y)), None)
                    b = atom(x)
                    if b is None or k is None:
                        return None
                    n = 1 if b else 0
                    a0, a1 = (n if y is x else cval(y) for y in c.args)
                    return {"eq": a0 == a1, "ne": a0 != a1, "gt": a0 > a1, "lt": a0 < a1}[c.op]
                return None
            L = Loops(it, r.st, main, atom)
            lab = "%s, row %s" % (nm, "of the small matrix" if reg == "in" else "outside") + (csr.case_label(z_) if z_["diagonal"] is not None else "")
            try:
                pair = rowout(ctx, it, L, lab, main, data, indices, indptr, where)
                if reg == "out":
                    if z:
                        ok = pair is None or (is1(pair[0][2]) and pair[0][4] in (dg, const(0.0), const(0)))
                        ctx.check(ok, "entries", lab, "elements are written for an empty row", where)
                    else:
                        if pair is None:
                            ctx.bad("entries", lab, "the diagonal value is left out", where)
                        else:
                            dp, ip = pair
                            ctx.check(is1(dp[2]) and dp[4] is dg, "entries", lab + ": value", "%s element(s) %s are written" % (dp[2], dp[4]), where)
                            ctx.check(isrow(ip[4]), "entries", lab + ": column", "column %s" % ip[4], where)
                else:
                    if pair is None:
                        ctx.bad("entries", lab, "the row's elements are left out", where)
                        continue
                    dp, ip = pair
                    lo, n = dp[3], dp[2]
                    a, q = at(lo) if lo is not None else (None, None)
                    if a is not tp:
                        raise Unknown("source row %s" % lo)
                    ctx.check(T.sub(T.add(lo, n), mk("idx", tp, T.add(q, const(1)))) is const(0), "entries", lab + ": extent", "elements %s to %s are copied" % (lo, T.add(lo, n)), where)
                    ctx.check(dp[4] is mk("idx", td, J), "entries", lab + ": values", "the value copied is %s" % dp[4], where)
                    ctx.check(ip[4] is mk("idx", nz, mk("idx", ti, J)), "entries", lab + ": columns", "the column is %s" % ip[4], where)
                    ctx.check(ip[3] is lo, "entries", lab + ": same elements", "columns are copied from %s, values from %s" % (ip[3], lo), where)
                # row of the small matrix: number of rows of it seen so far
                for p in smallrow(it, data, tp, main):
                    s = L.step(p)
                    ctx.check(is_const(s) and cval(s) == (1 if reg == "in" else 0), "row counter", lab, "the row of the small matrix advances by %s" % s, where)
                    if reg == "in":
                        ctx.check(is0(T.add(T.sub(q, p), L.init(p))), "row counter", lab + ": first", "the first row used is %s" % T.add(T.sub(q, p), L.init(p)), where)
            except Unknown as e:
                ctx.und("kernel", lab, str(e))
            except Mixed as e:
                ctx.bad("kernel", lab, str(e), where)
    # buffers
    for z_ in csr.cases([g for e in it.events for g in e.guards if g.op != "iter"] + [r.value], kind, always=("diagonal",)):
        z = z_.get("diagonal") == 0

        def at0(c, z_=z_):
            return csr.comparison(c, kind, z_)
        for i, lab in ((0, "data"), (1, "indices")):
            a = alloc(r.value.args[i])
            if a is None:
                ctx.und("buffers", nm + " " + lab, "allocation")
                continue
            a = resolve(a, at0, strict=False)
            nT = mk("idx", mk("attr", td, "shape"), const(0))
            nz_ = mk("idx", mk("attr", nz, "shape"), const(0))
            dlt = T.sub(a, nT if z else T.add(nT, T.sub(size, nz_)))
            # at least as many; size >= number of rows
            p = {(): Fraction(cval(dlt))} if is_const(dlt) else T.poly(dlt)
            known = {size, nT, nz_}
            if any(not all(x in known for x in m) or len(m) > 1 for m in p):
                ctx.und("buffers", nm + " " + lab, "allocation %s" % str(a)[:80])
                continue
            cs, cz = p.get((size,), 0), p.get((nz_,), 0)
            good = p.get((), 0) >= 0 and p.get((nT,), 0) >= 0 and cs >= 0 and cs + min(cz, 0) >= 0
            ctx.check(good, "buffers", "%s %s" % (nm, lab) + csr.case_label(z_), "room for %s elements" % a, where)
    a = alloc(r.value.args[2])
    ctx.tri(None if a is None else T.sub(a, T.add(size, const(1))) is const(0), "buffers", nm + " indptr", "room for %s row pointers" % a, where, "allocation")


def smallrow(it, data, tp, main):
    out = []
    for e in it.events:
        if e.kind == "setitem" and e.d["base"] is data:
            for x in subterms(mk("tuple", T.unver(T.strip(e.d["value"])), T.unver(T.strip(e.d["key"])))):
                if x.op == "idx" and x.args[0] is tp:
                    for p in subterms(x.args[1]):
                        if p.op == "phi" and p.args[0] == main and p not in out:
                            out.append(p)
    return out


# from full -----------------------------------------------------------------
def fromfull_kernel(ctx):
    nm = FULL
    f, it, r = start(ctx, nm)
    nz, td, ti, tp, dg = (sym(p) for p in f.params()[:5])
    v = r.value
    if not (v.op == "tuple" and len(v.args) == 6):
        raise Unknown("result")
    N = T.sub(mk("idx", mk("attr", tp, "shape"), const(0)), const(1))
    data, indices, indptr = v.args[1:4]
    ws = [e for e in it.events if e.kind == "setitem" and e.d["base"] is indptr and outer_loop(e) is not None]
    if not ws:
        raise Unknown("no row pointers")
    main = outer_loop(ws[0])
    where = ws[0].where
    rows_t = T.unver(T.strip(it.loopinfo[main]["iter"]))
    bd = csr.bounds(rows_t)
    n = mk("idx", mk("attr", nz, "shape"), const(0))
    nobreak(ctx, it, main, nm, where)
    ctx.tri(None if bd is None else is0(bd[0]) and bd[1] is n, "rows", nm, "rows %s are kept" % rows_t, where, "rows %s" % rows_t)
    ctx.check(T.sub(v.args[0], N) is const(0), "result", nm + " size", "returns %s as size" % v.args[0], where)
    ctx.check(v.args[4] is nz and v.args[5] is dg, "result", nm + " rows", "returns rows %s, diagonal %s" % (v.args[4], v.args[5]), where)
    def kind(t):
        a, k = at(t)
        return "entry" if a is td else None
    for env in csr.cases([g for e in it.events for g in e.guards if g.op != "iter"], kind, zero=()):
        L = Loops(it, r.st, main, lambda c, env=env: csr.comparison(c, kind, env))
        pair = rowout(ctx, it, L, nm + csr.case_label(env), main, data, indices, indptr, where)
        if pair is None:
            ctx.bad("entries", nm + csr.case_label(env), "nothing is copied", where)
            return
    dp, ip = pair
    lo, cnt = dp[3], dp[2]
    a, q = at(lo) if lo is not None else (None, None)
    if a is not tp:
        raise Unknown("source row %s" % lo)
    rowel = [x for x in subterms(q) if x.op == "elem" and x.args[1] == main]
    ctx.check(T.sub(T.add(lo, cnt), mk("idx", tp, T.add(q, const(1)))) is const(0), "entries", nm + ": extent", "elements %s to %s are copied" % (lo, T.add(lo, cnt)), where)
    ctx.check(q.op == "idx" and q.args[0] is nz and q.args[1] in rowel, "entries", nm + ": row", "row %s of the full matrix is copied" % q, where)
    ctx.check(dp[4] is mk("idx", td, J), "entries", nm + ": values", "the value copied is %s" % dp[4], where)
    # columns: inverse of nz
    m, k = at(ip[4])
    ok = None
    if m is not None and k is mk("idx", ti, J):
        o = T.unver(T.strip(m.args[1][1])) if m.op == "phi" and isinstance(m.args[1], tuple) else m
        if m.op == "contents":
            o = m.args[0]
        st_ = [e for e in it.events if e.kind == "setitem" and T.unver(T.strip(e.d["base"])) is T.unver(T.strip(o))]
        if len(st_) == 1:
            kk, vv = T.unver(T.strip(st_[0].d["key"])), T.unver(T.strip(st_[0].d["value"]))
            b = csr.bounds(vv.args[0]) if vv.op == "elem" else None
            if kk is mk("idx", nz, vv) and b and is0(b[0]):
                ok = b[1] is n
            elif is_const(vv) or vv is kk or (vv is mk("idx", nz, kk) and kk.op == "elem"):
                ok = False
    elif m is not None and ip[4] is mk("idx", ti, J):
        ok = False
    ctx.tri(ok, "entries", nm + ": columns", "the column is %s" % ip[4], where, "columns %s" % str(ip[4])[:80])
    # buffers
    for i, lab in ((1, "data"), (2, "indices")):
        a = alloc(v.args[i])
        ok = None
        if a is not None:
            a = T.unver(T.strip(a))
            if a.op == "phi":
                inf = L.phi(a)
                stp = T.sub(T.unver(T.strip(inf.back)), a)
                els = [x for x in subterms(stp) if x.op == "elem" and x.args[1] == a.args[0]]
                b2 = csr.bounds(T.unver(T.strip(it.loopinfo[a.args[0]]["iter"])))
                if els and rowel and b2 and is0(b2[0]) and b2[1] is n and is0(T.unver(T.strip(inf.init))):
                    ok = True if T.subst(stp, {els[0]: rowel[0]}) is cnt else None
            else:
                nt = mk("idx", mk("attr", td, "shape"), const(0))
                p = T.poly(a) if not is_const(a) else {(): Fraction(cval(a))}
                known = {nt, n, mk("idx", mk("attr", tp, "shape"), const(0))}
                if p is not None and all(len(m_) <= 1 and all(x in known for x in m_) for m_ in p):
                    ok = p.get((nt,), 0) >= 1 and all(c >= 0 for c in p.values())
        ctx.tri(ok, "buffers", nm + " " + lab, "room for %s elements, which the copied rows may exceed" % a, where, "allocation %s" % str(a)[:80])
    a = alloc(v.args[3])
    ctx.tri(None if a is None else T.sub(a, T.add(n, const(1))) is const(0), "buffers", nm + " indptr", "room for %s row pointers" % a, where, "allocation")


def nobreak(ctx, it, main, nm, where):
    """every row is visited"""
    li = it.loopinfo[main]
    if li.get("breaks"):
        ctx.bad("rows", nm + " all", "the loop over the rows is left early (%s): later rows are not treated" % "; ".join(
            ", ".join(str(g) for g in gs if g.op != "iter")[:80] for gs in li.get("break_guards") or [()]), where)


# row normalisation ---------------------------------------------------------
def normalize(ctx):
    for nm in ("inplace_csr_row_normalize", "inplace_csr_row_normalize_array"):
        f, it, r = start(ctx, nm)
        xd, xp, n, rs = (sym(p) for p in f.params()[:4])
        ws = [e for e in it.events if e.kind == "setitem" and e.d["base"] is xd]
        if not ws:
            raise Unknown("no write")
        main = outer_loop(ws[0])
        where = ws[0].where
        b = csr.bounds(T.unver(T.strip(it.loopinfo[main]["iter"])))
        nobreak(ctx, it, main, nm, where)
        ctx.tri(None if b is None else is0(b[0]) and b[1] is n, "rows", nm, "rows %s are normalised" % it.loopinfo[main]["iter"], where, "rows")
        row = mk("elem", T.unver(T.strip(it.loopinfo[main]["iter"])), main)
        target = mk("idx", rs, row) if nm.endswith("array") else rs
        ext = (mk("idx", xp, row), mk("idx", xp, T.add(row, const(1))))
        def kind(t):
            t = T.unver(T.strip(t))
            return "row sum" if issum(it, t, xd, ext) else ("wanted sum" if t is target else None)
        for env in csr.cases([g for e in ws for g in e.guards if g.op != "iter"] + [e.d["value"] for e in ws], kind, always=("row sum", "wanted sum")):
            if env.get("row sum", 1) < 0:
                continue            # the entries are assumed not to be negative
            if True:
                zs, zr = env.get("row sum") == 0, env.get("wanted sum") == 0

                def atom(c, env=env):
                    return csr.comparison(c, kind, env)
                lab = nm + csr.case_label(env)
                try:
                    eff = []
                    for e in ws:
                        a, inner = csr.active(e, main, atom)
                        if a is None:
                            raise Unknown("condition of %s" % e.where)
                        if a:
                            eff.append((e, inner))
                    if zs:
                        ctx.check(not eff, "normalisation", lab, "a row that sums to 0 is divided", where)
                        continue
                    if len(eff) != 1 or len(eff[0][1]) != 1:
                        ctx.tri(False if not eff else None, "normalisation", lab, "the row is not normalised", where, "%d writes" % len(eff))
                        continue
                    e, (loop,) = eff[0]
                    k = T.unver(T.strip(e.d["key"]))
                    bb = csr.bounds(k.args[0]) if k.op == "elem" else None
                    ctx.tri(None if bb is None else bb == ext, "normalisation", lab + ": extent", "elements %s are changed" % k, e.where, "elements")
                    v = resolve(T.unver(T.strip(e.d["value"])), atom)
                    S = [x for x in subterms(v) if issum(it, x, xd, ext)]
                    if not S:
                        raise Unknown("value %s" % str(v)[:100])
                    old = old_of(v, xd, k)
                    if old is None:
                        raise Unknown("value %s" % str(v)[:100])
                    want = T.mul(old, T.div(target, S[0])) if not zr else T.sub(old, T.div(S[0], T.sub(ext[1], ext[0])))
                    ctx.check(T.same_rational(v, want), "normalisation", lab + ": value", "an element becomes %s" % v, e.where)
                except Unknown as x:
                    ctx.und("normalisation", lab, str(x))


def old_of(v, xd, k):
    for x in subterms(v):
        a, j = at(x)
        if a is not None and j is k and (a is xd or (a.op == "phi" and isinstance(a.args[1], tuple) and a.args[1][0] == "h" and a.args[1][1] is xd)):
            return x
    return None


def issum(it, t, xd, ext):
    """sum of the row's elements, accumulated in a loop over its extent"""
    if t.op != "phi":
        return False
    i = next((j for q, j in it.phis.items() if T.unver(T.strip(q)) is t), None)
    if i is None or i.init is None or i.back is None or not (is_const(i.init) and cval(i.init) == 0):
        return False
    d = T.sub(T.unver(T.strip(i.back)), t)
    a, k = at(d)
    if a is None:
        return False
    if not (a is xd or (a.op == "phi" and isinstance(a.args[1], tuple) and a.args[1][0] == "h" and a.args[1][1] is xd)):
        return False
    b = csr.bounds(k.args[0]) if k.op == "elem" else None
    return b == ext


# ------------------------------------------------------------------ the accumulator
def accumulator(ctx):
    prog = ctx.prog
    m = prog.cls("SparseStochMat").module
    root = os.path.dirname(m.path)
    p = os.path.join(root, "sparse_accumulator.cpp")
    with ctx.guard("accumulator", "SPA"):
        try:
            ms = cxx.methods(prog, m, p, "SPA")
        except cxx.NoCxx as e:
            ctx.und("accumulator", "SPA", "C++ source not read: %s" % e)
            return
        S = sym("self")
        cur, w, b, LS = (mk("attr", S, x) for x in ("current_row", "w", "b", "LS"))
        wh = "sparse_accumulator.cpp"
        f = ms.get("reset")
        if f:
            it = Interp(prog)
            r = it.run(f)
            ctx.saw(it)
            row = sym(f.params()[1])
            ctx.check(r.st.heap.get((S, "current_row")) is row, "accumulator", "SPA.reset row", "the current row becomes %s" % r.st.heap.get((S, "current_row")), wh)
            ctx.check(any(e.kind == "mutate" and e.d["target"] is LS and e.d["how"] == ".clear" and not e.guards for e in it.events)
                      or any(e.kind == "mutate" and e.d["target"] is LS and e.d["how"] == ".resize" and is0(e.d["args"][0]) for e in it.events), "accumulator", "SPA.reset list", "the list of occupied columns is not emptied", wh)
        else:
            ctx.und("accumulator", "SPA.reset", "not found")
        f = ms.get("scatter")
        if f:
            it = Interp(prog)
            r = it.run(f)
            ctx.saw(it)
            val, pos = (sym(x) for x in f.params()[1:3])
            bp = mk("idx", b, pos)
            for fresh in (True, False):
                def atom(c, fresh=fresh):
                    if c.op in ("lt", "le", "eq", "ne", "gt", "ge") and set(c.args) == {bp, cur}:
                        x = (0, 1) if fresh else (1, 1)
                        a0, a1 = x if c.args[0] is bp else x[::-1]
                        return {"lt": a0 < a1, "le": a0 <= a1, "eq": a0 == a1, "ne": a0 != a1, "gt": a0 > a1, "ge": a0 >= a1}[c.op]
                    return None
                lab = "SPA.scatter, %s column" % ("new" if fresh else "occupied")
                wv, bv, ls, und = mk("idx", w, pos), bp, [], None
                for e in it.events:
                    vs = [decide(T.unver(T.strip(g)), atom) for g in e.guards]
                    if False in vs:
                        continue
                    if None in vs:
                        und = "condition"
                        continue
                    if e.kind == "setitem" and e.d["base"] is w and e.d["key"] is pos:
                        v = T.unver(T.strip(e.d["value"]))
                        v = T.rebuild(v, lambda x, wv=wv: wv if x.op in ("idx", "select") and x.args[1] is pos and x is not wv and w in set(subterms(x)) else x)
                        wv = v
                    elif e.kind == "setitem" and e.d["base"] is b and e.d["key"] is pos:
                        bv = T.unver(T.strip(e.d["value"]))
                    elif e.kind == "mutate" and e.d["target"] is LS:
                        ls.append(e.d["args"][0] if e.d["how"] == ".append" else None)
                    elif e.kind in ("setitem", "setattr"):
                        und = "writes %s" % e.d
                if und:
                    ctx.und("accumulator", lab, und)
                    continue
                wantw = val if fresh else T.add(mk("idx", w, pos), val)
                ctx.check(wv is wantw, "accumulator", lab + ": value", "the value becomes %s" % wv, wh)
                ctx.check(ls == ([pos] if fresh else []), "accumulator", lab + ": list", "the list of occupied columns gets %s" % ls, wh)
                ctx.check(bv is cur if fresh else bv in (cur, bp), "accumulator", lab + ": mark", "the column is marked with %s" % bv, wh)
        else:
            ctx.und("accumulator", "SPA.scatter", "not found")
        f = ms.get("__init__1")
        if f:
            it = Interp(prog)
            it.run(f)
            n = sym(f.params()[1])
            sz = set()
            init = None
            for e in it.events:
                if e.kind == "mutate" and e.d["how"] in (".resize", ".assign") and e.d["args"] and e.d["args"][0] is n:
                    sz.add(str(e.d["target"]))
                    if len(e.d["args"]) > 1 and e.d["target"] is b:
                        init = e.d["args"][1]
                if e.kind == "setitem" and e.d["base"] is b and e.d["key"].op == "elem":
                    bb = csr.bounds(T.unver(T.strip(e.d["key"].args[0])))
                    if bb and is0(bb[0]) and bb[1] is n:
                        init = e.d["value"]
            ctx.tri(True if {str(w), str(b)} <= sz else None, "accumulator", "SPA size", "", wh, "sizes %s" % sz)
            ctx.tri(None if init is None else (is_const(init) and cval(init) < 0), "accumulator", "SPA marks", "columns are initially marked with %s, which is a row" % init, wh, "marks")


# ------------------------------------------------------------------ scaling and products with plain matrices
def helpers(ctx):
    prog = ctx.prog
    for nm, left in (("inplace_csr_matmul_diag", False), ("inplace_diag_matmul_csr", True)):
        with ctx.guard("scaling", nm):
            f = prog.functions(nm)[0] if prog.functions(nm) else None
            if f is None:
                ctx.und("scaling", nm, "not found")
                continue
            it = Interp(prog)
            r = it.run(f)
            ctx.saw(it)
            A, v = (sym(p) for p in f.params()[:2])
            for fmt in ("csr", "csc"):
                def atom(c, fmt=fmt):
                    if c.op == "call" and c.args[0] in ("scipy.sparse.isspmatrix_csr", "scipy.sparse.isspmatrix_csc"):
                        return c.args[0].endswith(fmt)
                    if c.op in ("eq",) and any(x is mk("attr", A, "format") for x in c.args):
                        return any(is_const(x) and cval(x) == fmt for x in c.args)
                    if c.op == "isinst":
                        return True
                    return None
                calls = []
                und = None
                for e in it.events:
                    if e.kind == "call" and e.d["fn"].rsplit(".", 1)[-1] in ("csr_scale_columns", "csr_scale_rows"):
                        vs = []
                        for g in e.guards:
                            d = decide(T.unver(T.strip(g)), atom)
                            if d is None and any(x.op == "attr" and x.args[1] in ("shape", "size") for x in subterms(g)):
                                d = True            # size checks
                            vs.append(d)
                        if False in vs:
                            continue
                        if None in vs:
                            und = "condition"
                        calls.append(e)
                lab = "%s of a %s matrix" % (nm, fmt)
                if und or len(calls) != 1:
                    ctx.tri(False if not calls and not und else None, "scaling", lab, "nothing is scaled", f.where() if callable(getattr(f, "where", None)) else f.qual, und or "%d calls" % len(calls))
                    continue
                e = calls[0]
                which = e.d["fn"].rsplit("_", 1)[-1]
                want = "rows" if left == (fmt == "csr") else "columns"
                ctx.check(which == want, "scaling", lab, "the %s are multiplied, not the %s" % ("rows" if (which == "rows") == (fmt == "csr") else "columns", "rows" if left else "columns"), e.where)
                a = [T.unver(T.strip(x)) for x in e.d["args"]]
                arrs = [bare(x) for x in a[2:5]]
                ctx.check(arrs == [mk("attr", A, x) for x in ("indptr", "indices", "data")], "scaling", lab + ": arrays", "works on %s" % [str(x) for x in arrs], e.where)
                ctx.check(len(a) > 5 and base_of(a[5]) is v, "scaling", lab + ": factors", "factors %s" % a[5] if len(a) > 5 else "", e.where)
    for nm in ("sparse_matmul", "sparse_gram_matrix"):
        with ctx.guard("products", nm):
            f = prog.functions(nm)[0] if prog.functions(nm) else None
            if f is None:
                ctx.und("products", nm, "not found")
                continue
            it = Interp(prog)
            r = it.run(f)
            ctx.saw(it)
            A = sym(f.params()[0])
            val = T.unver(T.strip(r.value))
            trans = sym("transpose") if "transpose" in f.params() else None
            cs = []
            for tr in ((True, False) if trans is not None else (None,)):
                for mkl in (True, False):
                    def atom(c, tr=tr, mkl=mkl):
                        if trans is not None and c is trans:
                            return tr
                        if c.op == "glob":
                            return mkl
                        if trans is not None and c.op in ("eq", "is") and trans in c.args and any(is_const(x) for x in c.args):
                            return tr == cval(next(x for x in c.args if is_const(x)))
                        return None
                    try:
                        cs.append((tr, resolve(val, atom)))
                    except Unknown as e:
                        ctx.und("products", "%s %s %s" % (nm, tr, mkl), str(e))
            for tr, v in cs:
                lab = "%s%s" % (nm, "" if tr is None else ", transpose=%s" % tr)
                At = lambda x: T.rebuild(x, lambda z: mk("attr", z.args[1][0], "T") if z.op == "call" and z.args[0] == ".transpose" and len(z.args[1]) == 1 else z)
                v = At(v)
                if nm == "sparse_matmul":
                    B = sym(f.params()[1])
                    if v.op == "matmul":
                        ctx.check(v.args == (A, B), "products", lab, "returns %s" % v, f.qual)
                    elif v.op == "call" and v.args[0].endswith("dot_product_mkl"):
                        ctx.check(v.args[1][:2] == (A, B), "products", lab + " (mkl)", "returns %s" % v, f.qual)
                    else:
                        ctx.und("products", lab, str(v)[:80])
                else:
                    if v.op == "matmul":
                        AT = mk("attr", A, "T")
                        want = (A, AT) if tr else (AT, A)
                        ctx.tri(None if tr is None else v.args == want, "products", lab, "returns %s" % v, f.qual, "condition")
                    elif v.op == "call" and v.args[0].endswith("gram_matrix_mkl"):
                        kw = dict(v.args[2])
                        ctx.check(v.args[1][0] is A and (kw.get("transpose") is sym("transpose") or (tr is not None and kw.get("transpose") is (TRUE if tr else FALSE))), "products", lab + " (mkl)", "returns %s" % v, f.qual)
                    else:
                        ctx.und("products", lab, str(v)[:80])


def base_of(t):
    while t.op == "call" and t.args[0] in (".squeeze", "numpy.atleast_1d", "numpy.squeeze", ".ravel", ".flatten", "numpy.asarray", "numpy.array", ".astype", ".copy", "numpy.ravel", ".reshape") and t.args[1]:
        t = T.unver(T.strip(t.args[1][0]))
    return t
