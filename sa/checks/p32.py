"""P32 a static graph is clustered with its own random walk."""
from __future__ import annotations
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms
from .. import terms as T
from ..engine import Interp, State
from ..fwd import kwargs_at, static_bind

MIN_OBLIGATIONS = 40
RULE = """
static_clustering is interpreted for every kind of adjacency matrix and every
combination of its options, over an arbitrary matrix.  The transition matrix it
hands to the clustering is brought to a normal form over two matrices, the
identity and the walk D^-1 (A + self loops of nodes without links), and compared
with X^t, I - t(I-X) and expm(-t(I-X)); the node weights must be the degrees, or
the eigenvector of the transposed walk for eigenvalue one, divided by their sum.
"""
A, TT = sym("A"), sym("t")
SAME = (".copy", ".squeeze", ".ravel", ".flatten", "numpy.asarray", "numpy.array", "numpy.squeeze", "numpy.ravel", ".astype", ".tocsr", ".toarray", ".reshape",
        "numpy.copy", "copy.copy", "copy.deepcopy", "scipy.sparse.csr_matrix", "numpy.atleast_1d", ".asformat", "numpy.asanyarray")


class Wrong(Exception):
    """not the quantity it has to be"""


class Unknown(Exception):
    pass


def run(ctx):
    fs = list(ctx.prog.functions("static_clustering"))
    if not fs:
        ctx.und("static", "static_clustering", "not found")
        return
    f = fs[0]
    for csr in (True, False):
        for disc in (True, False):
            for lin in (True, False):
                for direc in (True, False):
                    for whole in (True, False):
                        if whole or disc:
                            lab = "static_clustering of %s matrix%s%s%s%s" % ("a sparse" if csr else "a dense", ", discrete time" if disc else "", ", linearized" if lin else "",
                                                                             ", directed" if direc else "", "" if whole else ", t not whole")
                            with ctx.guard("static", lab):
                                one(ctx, f, csr, disc, lin, direc, whole, lab)
    with ctx.guard("static", "refused"):
        refused(ctx, f)


def start(csr, disc, lin, direc, whole):
    st = State()
    M = mk("isinst", A, "csr_matrix")
    kinds = {"csr_matrix": csr, "csr_array": False, "spmatrix": csr, "ndarray": not csr, "matrix": False}
    for k, v in kinds.items():
        x = mk("isinst", A, k)
        st.assume(x if v else not_(x))
    sp = mk("call", "scipy.sparse.issparse", (A,), (), None)
    st.assume(sp if csr else not_(sp))
    for n, v in (("discrete_time_rw", disc), ("linearized", lin), ("directed", direc)):
        st.assume(sym(n) if v else not_(sym(n)))
    for k in ("int", "Integral"):
        x = mk("isinst", TT, k)
        st.assume(x if whole else not_(x))
    return st


class Ver(Interp):
    """operands of arithmetic carry the version of the array they had"""

    def binop(self, op, a, b, st):
        a, b = (self._versioned(x, st) if x.op != "obj" else x for x in (a, b))
        return super().binop(op, a, b, st)

    def setitem(self, b, k, v, node, st, fr, aug=False):
        super().setitem(b, k, v, node, st, fr, aug)
        b = self.simp(b, st)
        if b.op != "obj":
            self.bump(b, st, node, fr)


class Walk:
    def __init__(self, it, f):
        self.it, self.f = it, f
        self.sets = [e for e in it.events if e.kind == "setitem"]

    # --------------------------------------------------------------- pieces
    def peel(self, t):
        while True:
            if t.op == "at":
                t = t.args[0]
            elif t.op == "call" and str(t.args[0]) in SAME and t.args[1]:
                t = t.args[1][0]
            elif t.op == "attr" and t.args[1] in ("A1", "A", "flat", "real"):
                t = t.args[0]
            elif t.op in ("idx", "select") and newaxis(t.args[1]):
                t = t.args[0]
            else:
                return t

    def isdeg(self, t):
        """degrees: True / Wrong / False"""
        t = self.peel(t)
        if t.op == "call" and str(t.args[0]) in (".sum", "numpy.sum") and t.args[1]:
            if self.peel(t.args[1][0]) is not A:
                return False
            kw = dict(t.args[2])
            ax = kw.get("axis", t.args[1][1] if len(t.args[1]) > 1 else None)
            if ax is None or not T.is_const(ax):
                return False
            if T.cval(ax) in (0, -2):
                raise Wrong("the degrees are the sums over the columns of A")
            return T.cval(ax) in (1, -1)
        if t.op == "matmul" and self.peel(t.args[0]) is A and t.args[1].op == "call" and str(t.args[1].args[0]).endswith("ones"):
            return True
        return False

    def zero(self, t):
        """condition degree == 0"""
        t = self.peel(t)
        if t.op == "call" and str(t.args[0]) in (".nonzero", "numpy.where", "numpy.nonzero", "numpy.flatnonzero"):
            t = self.peel(t.args[1][0])
        if t.op in ("idx", "select") and T.is_const(t.args[1]) and T.cval(t.args[1]) == 0:
            return self.zero(t.args[0])
        if t.op in ("eq", "le") and const(0) in t.args:
            o = [x for x in t.args if x is not const(0)]
            if t.op == "le" and t.args[1] is not const(0):
                return False
            return bool(o) and self.isdeg(o[0])
        if t.op in ("lt", "le") and T.is_const(t.args[1]) and isinstance(T.cval(t.args[1]), (int, float)) and T.cval(t.args[1]) > 1e-12 and self.isdeg(t.args[0]):
            raise Wrong("nodes with links count as nodes without: degree %s %s" % ("<" if t.op == "lt" else "<=", t.args[1]))
        return False

    def stores(self, t):
        """assignments into the array, in order"""
        b = T.unver(t)
        return [e for e in self.sets if T.unver(e.d["base"]) is b]

    def safe(self, t):
        """degrees with those of nodes without links replaced by one"""
        raw = t
        if t.op == "call" and str(t.args[0]) == "numpy.where" and len(t.args[1]) == 3:
            c, x, y = t.args[1]
            if self.zero(c) and T.is_const(x) and self.isdeg(y):
                if T.cval(x) != 1:
                    raise Wrong("the degree of nodes without links is replaced by %s" % x)
                return True
            raise Unknown(str(T.strip(t)))
        if t.op == "call" and str(t.args[0]) == "numpy.maximum" and len(t.args[1]) == 2:
            raise Unknown(str(T.strip(t)))
        if not self.isdeg(t):
            raise Unknown("degrees %s" % T.strip(t))
        base = t.args[0] if t.op == "at" else t
        ev = self.stores(base)
        if t.op != "at" or not ev:
            if any(self.isdeg(e.d["base"]) for e in self.sets):
                ev2 = [e for e in self.sets if self.isdeg(e.d["base"]) and not self.peel(e.d["base"]) is A]
                if ev2 and raw.op == "at":
                    raise Unknown("degrees assigned elsewhere")
            raise Wrong("the degrees are inverted as they are: nodes without links get a division by zero")
        for e in ev:
            if not self.zero(e.d["key"]):
                raise Unknown("assignment %s" % T.strip(e.d["key"]))
            v = T.strip(e.d["value"])
            if not T.is_const(v):
                raise Unknown("value %s" % v)
            if T.cval(v) != 1:
                raise Wrong("the degree of nodes without links is replaced by %s" % v)
            if any(g.op in ("iter",) for g in e.guards):
                raise Unknown("assignment in a loop")
        return True

    def loops(self, t):
        """A with self loops at nodes without links"""
        b = self.peel(t)
        if b is not A:
            raise Unknown("adjacency %s" % T.strip(t))
        x = t
        while x.op == "call" and str(x.args[0]) in (".tocsr", ".asformat") and x.args[1]:
            x = x.args[1][0]
        ver = x.op == "at"
        base = x.args[0] if ver else x
        ev = self.stores(base)
        muts = [e for e in self.it.events if e.kind == "mutate" and e.d.get("target") is not None and T.unver(e.d["target"]) is T.unver(base)]
        if [e for e in muts if e not in ev and str(e.d.get("how", "")) != "setitem"] and not ev:
            raise Unknown("the matrix is changed in a way not followed")
        if not ev:
            raise Wrong("nodes without links get no self loop: their row of the transition matrix is empty")
        if T.unver(base) is A:
            raise Wrong("the self loops are written into the caller's matrix")
        for e in ev:
            k = e.d["key"]
            k = k.args if k.op == "tuple" else (k,)
            if len(k) != 2:
                raise Unknown("assignment %s" % T.strip(e.d["key"]))
            if not all(self.zero(q) for q in k):
                raise Unknown("assignment %s" % T.strip(e.d["key"]))
            v = T.strip(e.d["value"])
            if not T.is_const(v):
                raise Unknown("value %s" % v)
            if T.cval(v) != 1:
                raise Wrong("self loops have the weight %s: the rows of nodes without links do not sum to one" % v)
        if not ver:
            raise Unknown("order of the assignment")
        return True

    # --------------------------------------------------------------- matrices
    def leaf(self, t):
        """'I', 'X' or None"""
        if t.op == "at":
            return self.leaf(t.args[0])
        if t.op == "call":
            n = str(t.args[0])
            if n in ("numpy.eye", "numpy.identity", "scipy.sparse.eye", "scipy.sparse.identity", "scipy.sparse.eye_array"):
                return "I"
            if n in (".tocsr", ".copy", ".asformat", "scipy.sparse.csr_matrix") and t.args[1]:
                return self.leaf(t.args[1][0])
            if n == ".multiply" and len(t.args[1]) == 2:
                return self.scaled(t.args[1][0], t.args[1][1])
            if n in (".dot", "numpy.matmul", "numpy.dot") and len(t.args[1]) == 2:
                return self.product(*t.args[1])
        if t.op == "matmul":
            return self.product(*t.args)
        if t.op == "attr" and t.args[1] == "T" and self.leaf(t.args[0]) == "X":
            raise Wrong("the transition matrix is transposed")
        return None

    def diag(self, t):
        if t.op == "at":
            t = t.args[0]
        if t.op == "call" and str(t.args[0]) in ("numpy.diag", "scipy.sparse.diags", "scipy.sparse.diags_array", "scipy.sparse.spdiags") and t.args[1]:
            return t.args[1][0]
        if t.op == "call" and str(t.args[0]) in (".tocsr", ".asformat") and t.args[1]:
            return self.diag(t.args[1][0])
        return None

    def product(self, a, b):
        d = self.diag(a)
        if d is not None:
            self.inverse(d)
            self.loops(b)
            return "X"
        d = self.diag(b)
        if d is not None and self.peel(a) is A:
            raise Wrong("the columns of the adjacency matrix are divided by the degrees, not its rows")
        raise Unknown("product %s" % T.strip(mk("matmul", a, b)))

    def inverse(self, t):
        while t.op == "at" or (t.op == "call" and str(t.args[0]) in (".copy", "numpy.asarray") and t.args[1]):
            t = t.args[0] if t.op == "at" else t.args[1][0]
        if t.op == "inv":
            return self.safe(t.args[0])
        if t.op == "call" and str(t.args[0]) == "numpy.reciprocal":
            return self.safe(t.args[1][0])
        if t.op == "poly":
            p = T.poly(t)
            if len(p) == 1:
                (m, c), = p.items()
                if len(m) == 1 and m[0].op == "inv":
                    if c != 1:
                        raise Wrong("the rows of the transition matrix sum to %s" % c)
                    return self.safe(m[0].args[0])
        if self.isdeg(t):
            raise Wrong("the adjacency matrix is multiplied by the degrees")
        raise Unknown("scaling %s" % T.strip(t))

    def scaled(self, a, b):
        """entry-wise product of the matrix with a column vector"""
        if self.peel(b) is A:
            a, b = b, a
        if self.peel(a) is not A:
            raise Unknown("%s" % T.strip(a))
        col = b
        while col.op == "at":
            col = col.args[0]
        if col.op in ("idx", "select") and newaxis(col.args[1]):
            k = col.args[1].args if col.args[1].op == "tuple" else (col.args[1],)
            if len(k) == 2 and k[0] is NONE:
                raise Wrong("the columns of the adjacency matrix are divided by the degrees, not its rows")
            self.inverse(col.args[0])
            self.loops(a)
            return "X"
        if col.op == "call" and str(col.args[0]) == ".reshape":
            self.inverse(col.args[1][0])
            self.loops(a)
            return "X"
        raise Unknown("%s" % T.strip(b))

    def linear(self, t):
        """{(matrix, power of t): coefficient} of a sum of matrices"""
        x = self.leaf(t)
        if x:
            return {(x, 0): 1}
        while t.op == "at" or (t.op == "call" and str(t.args[0]) in (".tocsr", ".copy", ".asformat") and t.args[1]):
            t = t.args[0] if t.op == "at" else t.args[1][0]
        if t.op != "poly":
            raise Unknown("matrix %s" % T.strip(t))
        out = {}
        for m, c in T.poly(t).items():
            mats, k, rest = [], 0, []
            adj = [y for y in m if y.op != "inv" and self.peel(y) is A]
            if adj:
                o = [y for y in m if y is not adj[0] and T.strip(y) is not TT]
                k = len([y for y in m if T.strip(y) is TT])
                if len(o) != 1:
                    raise Unknown("matrix %s" % T.strip(t))
                v = o[0]
                w = T.inv(v.args[0].args[0]) if v.op == "inv" and v.args[0].op in ("idx", "select") and newaxis(v.args[0].args[1]) else None
                if w is not None:
                    q = v.args[0].args[1]
                    q = q.args if q.op == "tuple" else (q,)
                    if len(q) == 2 and q[0] is NONE:
                        raise Wrong("the columns of the adjacency matrix are divided by the degrees, not its rows")
                    self.inverse(w)
                    self.loops(adj[0])
                    mats = ["X"]
                else:
                    mats = [self.scaled(adj[0], v)]
            else:
                for y in m:
                    if T.strip(y) is TT:
                        k += 1
                    elif y.op == "inv" and T.strip(y.args[0]) is TT:
                        k -= 1
                    else:
                        z = self.leaf(y)
                        if z is None:
                            raise Unknown("factor %s" % T.strip(y))
                        mats.append(z)
            if len(mats) > 1:
                mats = [z for z in mats if z != "I"] or ["I"]
            if len(mats) != 1:
                if not mats:
                    raise Unknown("a number is added to a matrix: %s" % T.strip(t))
                raise Unknown("product of matrices")
            out[mats[0], k] = out.get((mats[0], k), 0) + c
        return {k: v for k, v in out.items() if v}


def newaxis(k):
    k = k.args if k.op == "tuple" else (k,)
    return any(x is NONE for x in k) and all(x is NONE or (x.op == "slice" and all(y is NONE for y in x.args)) for x in k)


LINEAR = {("I", 0): 1, ("I", 1): -1, ("X", 1): 1}
GENERATOR = {("I", 1): -1, ("X", 1): 1}
LAPLACE = {("I", 0): 1, ("X", 0): -1}


def transition(ctx, w, t):
    """('power',) / ('linear',) / ('expm',) or Wrong"""
    while t.op == "at" or (t.op == "call" and str(t.args[0]) in (".tocsr", ".copy", ".asformat", "scipy.sparse.csr_matrix") and t.args[1]):
        t = t.args[0] if t.op == "at" else t.args[1][0]
    if t.op in ("call", "pow"):
        n = str(t.args[0]) if t.op == "call" else "pow"
        a = t.args[1] if t.op == "call" else t.args
        if n in (".__pow__", "numpy.linalg.matrix_power", "scipy.sparse.linalg.matrix_power", "pow"):
            if w.linear(a[0]) != {("X", 0): 1}:
                raise Wrong("powers of %s are taken" % T.strip(a[0]))
            if T.strip(a[1]) is not TT:
                if T.is_const(a[1]) or T.strip(a[1]).op == "poly":
                    raise Wrong("the power is %s" % T.strip(a[1]))
                raise Unknown("power %s" % T.strip(a[1]))
            return "power", n
        if n in ("scipy.linalg.expm", "scipy.sparse.linalg.expm"):
            p = w.linear(a[0])
            if p != GENERATOR:
                raise Wrong("the exponential is that of %s" % show(p))
            return "expm", n
        if n.startswith("fn:") and "sparse_lapl_expm" in n:
            fi = [x for x in ctx.prog.functions("sparse_lapl_expm")]
            b, miss, extra, star = static_bind(fi[0], list(a), dict(t.args[2]))
            p = w.linear(b[fi[0].params()[0]])
            fact = b.get("fact")
            if fact is None:
                raise Unknown("factor of the Laplacian")
            fact = T.strip(fact)
            if p != LAPLACE:
                raise Wrong("the exponential is that of a multiple of %s" % show(p))
            if fact is not TT:
                if T.is_const(fact) or fact.op == "poly" or fact.op == "inv":
                    raise Wrong("the Laplacian is multiplied by %s" % fact)
                raise Unknown("factor %s" % fact)
            return "expm", n
    p = w.linear(t)
    if p != LINEAR:
        raise Wrong("the transition matrix is %s" % show(p))
    return "linear", ""


def show(p):
    return " + ".join("%s%s%s" % ("" if c == 1 else "%s*" % c, "t^%d*" % k if k else "", {"I": "I", "X": "D^-1 A"}[m]) for (m, k), c in sorted(p.items())) or "0"


def factors(t):
    if t.op == "poly":
        p = T.poly(t)
        if len(p) != 1:
            raise Unknown("weights %s" % T.strip(t))
        (m, c), = p.items()
        return list(m), c
    return [t], 1


def weights(w, t, direc):
    while t.op == "at" or (t.op == "call" and str(t.args[0]) in (".copy", "numpy.asarray", "numpy.array", ".ravel", ".squeeze") and t.args[1]):
        t = t.args[0] if t.op == "at" else t.args[1][0]
    m, c = factors(t)
    inv = [x for x in m if x.op == "inv"]
    num = [x for x in m if x.op != "inv"]
    if c not in (1, -1) or len(num) != 1:
        raise Unknown("weights %s" % T.strip(t))
    if not inv:
        if w.isdeg(num[0]):
            raise Wrong("the degrees are not divided by their sum")
        raise Unknown("weights %s" % T.strip(t))
    if len(inv) != 1:
        raise Unknown("weights %s" % T.strip(t))
    s = inv[0].args[0]
    while s.op == "at":
        s = s.args[0]
    v = num[0]
    if s.op == "call" and str(s.args[0]) in (".sum", "numpy.sum") and len(s.args[1]) == 1 and not s.args[2]:
        tot = s.args[1][0]
    elif s.op == "call" and str(s.args[0]) in (".max", "numpy.max", ".mean", "numpy.mean", "numpy.linalg.norm", "numpy.amax", "len", "numpy.size"):
        raise Wrong("the weights are divided by %s, not by their sum" % T.strip(s))
    else:
        raise Unknown("weights divided by %s" % T.strip(s))
    if T.strip(w.peel(tot)) is not T.strip(w.peel(v)) and not (T.strip(tot) is A and not direc):
        raise Unknown("weights %s" % T.strip(t))
    if not direc:
        if w.isdeg(v):
            if w.stores(v.args[0] if v.op == "at" else v):
                raise Wrong("the weights are degrees that were changed for nodes without links")
            return
        raise Unknown("weights %s" % T.strip(v))
    if w.isdeg(v):
        raise Wrong("the degrees are not stationary on a directed graph")
    eigenvector(w, v)


def eigenvector(w, v):
    while True:
        if v.op == "at":
            v = v.args[0]
        elif v.op == "attr" and v.args[1] in ("real", "A1"):
            v = v.args[0]
        elif v.op == "call" and str(v.args[0]) in (".squeeze", ".ravel", ".flatten", "numpy.real", "numpy.abs", "abs", "numpy.squeeze", "numpy.ravel") and v.args[1]:
            v = v.args[1][0]
        elif v.op == "abs":
            v = v.args[0]
        else:
            break
    col = None
    if v.op in ("idx", "select") and v.args[1].op == "tuple":
        k = v.args[1].args
        if len(k) != 2 or k[0].op != "slice" or any(x is not NONE for x in k[0].args):
            if k and k[-1].op == "slice":
                raise Wrong("a row of the matrix of eigenvectors is taken")
            raise Unknown("eigenvector %s" % T.strip(v))
        col, v = k[1], v.args[0]
    if v.op not in ("idx", "select", "item") or not T.is_const(v.args[1]) or T.cval(v.args[1]) != 1:
        raise Unknown("eigenvector %s" % T.strip(v))
    e = v.args[0]
    while e.op == "at":
        e = e.args[0]
    if e.op != "call":
        raise Unknown("eigenvector %s" % T.strip(v))
    n = str(e.args[0])
    kw = dict(e.args[2])
    m = e.args[1][0]
    while m.op == "at" or (m.op == "call" and str(m.args[0]) in (".tocsr", ".copy", ".tocsc", ".toarray", ".asformat")):
        m = m.args[0] if m.op == "at" else m.args[1][0]
    if (m.op == "attr" and m.args[1] == "T") or (m.op == "call" and str(m.args[0]) in (".transpose", "numpy.transpose")):
        m = m.args[0] if m.op == "attr" else m.args[1][0]
        left = True
    elif m.op == "transpose":
        m, left = m.args[0], True
    else:
        left = False
    if w.linear(m) != {("X", 0): 1}:
        raise Unknown("eigenvectors of %s" % T.strip(m))
    if n in ("scipy.linalg.eig",) and kw.get("left") is TRUE:
        raise Unknown("left eigenvectors")
    if not left:
        raise Wrong("the right eigenvector (constant) is taken instead of the stationary distribution")
    if n.endswith("linalg.eigs"):
        which = kw.get("which", e.args[1][2] if len(e.args[1]) > 2 else const("LM"))
        nk = kw.get("k", e.args[1][1] if len(e.args[1]) > 1 else const(6))
        if "sigma" in kw:
            raise Unknown("sigma")
        if not T.is_const(which) or not T.is_const(nk):
            raise Unknown("which %s" % which)
        if T.cval(which) != "LR" and (T.cval(nk) == 1 or (col is not None and T.is_const(col))):
            raise Wrong("the eigenvector is that of %s: of a periodic graph this need not be eigenvalue one" %
                        {"LM": "an eigenvalue of largest modulus", "SM": "the smallest eigenvalue", "SR": "the smallest real part", "LI": "the largest imaginary part"}.get(T.cval(which), T.cval(which)))
        if T.cval(nk) == 1 and (col is None or (T.is_const(col) and T.cval(col) in (0, -1))):
            return
    if col is None:
        raise Unknown("eigenvector %s" % T.strip(v))
    if T.is_const(col):
        raise Wrong("the %s. eigenvector is taken, but the eigenvalues are in no particular order" % T.cval(col))
    ws = mk("idx", e, const(0))

    def isw(x):
        x = T.strip(x)
        return x.op in ("idx", "select", "item") and T.strip(x.args[0]) is T.strip(e) and T.is_const(x.args[1]) and T.cval(x.args[1]) == 0
    c = T.strip(col)
    if c.op == "call" and str(c.args[0]) in ("numpy.argmin", ".argmin") and len(c.args[1]) == 1:
        x = c.args[1][0]
        if x.op == "call" and str(x.args[0]) in ("numpy.abs", "abs", "numpy.absolute"):
            x = x.args[1][0]
        elif x.op == "abs":
            x = x.args[0]
        else:
            raise Wrong("the eigenvector is that of the smallest %s" % x)
        p = T.poly(x) if x.op == "poly" else {}
        if len(p) == 2 and () in p and abs(p[()]) == 1:
            (y, cc), = [(k, q) for k, q in p.items() if k != ()]
            if len(y) == 1 and isw(y[0]) and cc == -p[()]:
                return
        if isw(x):
            raise Wrong("the eigenvector is that of the smallest eigenvalue")
    elif c.op == "call" and str(c.args[0]) in ("numpy.argmax", ".argmax") and len(c.args[1]) == 1:
        x = c.args[1][0]
        if x.op == "attr" and x.args[1] == "real" and isw(x.args[0]) or (x.op == "call" and str(x.args[0]) == "numpy.real" and isw(x.args[1][0])):
            return
        if (x.op == "call" and str(x.args[0]) in ("numpy.abs", "abs", "numpy.absolute") and isw(x.args[1][0])) or (x.op == "abs" and isw(x.args[0])):
            raise Wrong("the eigenvector is that of an eigenvalue of largest modulus: of a periodic graph this need not be eigenvalue one")
    raise Unknown("eigenvector number %s" % c)


# ------------------------------------------------------------------ one combination of options
def one(ctx, f, csr, disc, lin, direc, whole, lab):
    st = start(csr, disc, lin, direc, whole)
    it = Ver(ctx.prog, opaque=lambda z: z is not f and z.name != "__repr__" and not (z.module is f.module and z.cls is None and z.name not in ("static_clustering",)))
    r = it.run(f, st=st)
    ctx.saw(it)
    con = [e for e in it.events if e.kind == "construct" and e.d["cls"].is_a("BaseClustering")]
    if len(con) != 1:
        v = T.strip(r.value)
        ctx.tri(False if not con and v.op in ("undef", "const") else None, "static", lab, "no clustering is made", f.where, "%d clusterings" % len(con))
        return
    e = con[0]
    want = "SparseClustering" if csr else "Clustering"
    ctx.tri(e.d["cls"].name == want, "static", lab + " kind", "a %s is made" % e.d["cls"].name, e.where)
    kw = kwargs_at(it, e)
    init = e.d["cls"].find("__init__")
    ps = init.params()[1:]
    for q, v in zip(ps, e.d["args"]):
        if isinstance(v, T.Term) and q not in kw:
            kw[q] = v
    seed = kw.get("rnd_seed")
    ctx.tri(False if seed is None else (True if T.strip(seed) is sym("rnd_seed") else (False if T.is_const(seed) else None)), "static", lab + " seed", "the seed is %s" % seed, e.where, str(seed))
    w = Walk(it, f)
    for p in ("p1", "p2"):
        v = kw.get(p)
        if v is None:
            ctx.tri(False if p not in kw else None, "weights", "%s %s" % (lab, p), "not given", e.where)
            continue
        try:
            weights(w, v, direc)
            ctx.ok("weights", "%s %s" % (lab, p))
        except Wrong as x:
            ctx.bad("weights", "%s %s" % (lab, p), str(x), e.where)
        except Unknown as x:
            ctx.und("weights", "%s %s" % (lab, p), str(x))
    t = kw.get("T")
    if t is None:
        ctx.tri(False if "T" not in kw else None, "walk", lab, "no transition matrix is given", e.where)
        return
    if "S" in kw and kw["S"] is not NONE:
        ctx.und("walk", lab + " S", "S is given too")
    try:
        kind, how = transition(ctx, w, t)
        expect = "power" if disc and whole else "linear" if lin else "expm"
        if kind != expect:
            ctx.bad("walk", lab, "the transition matrix is %s" % {"power": "a power of the walk", "linear": "the linearized one", "expm": "the exponential"}[kind], e.where)
        elif how == "pow" and not csr:
            ctx.bad("walk", lab, "the entries are raised to the power t, not the matrix", e.where)
        else:
            ctx.ok("walk", lab)
    except Wrong as x:
        ctx.bad("walk", lab, str(x), e.where)
    except Unknown as x:
        ctx.und("walk", lab, str(x))


def refused(ctx, f):
    """other kinds of matrices, and graphs without links"""
    st = State()
    for k in ("csr_matrix", "csr_array", "spmatrix", "ndarray", "matrix"):
        st.assume(not_(mk("isinst", A, k)))
    st.assume(not_(mk("call", "scipy.sparse.issparse", (A,), (), None)))
    it = Interp(ctx.prog, opaque=lambda z: z is not f)
    r = it.run(f, st=st)
    v = r.value
    ctx.tri(True if v.op == "undef" else (None if any(x.op == "undef" for x in subterms(v)) else False), "refused", "static_clustering of something else", "accepted", f.where, str(T.strip(v))[:80])
    for csr in (True, False):
        st = start(csr, False, False, False, True)
        it = Interp(ctx.prog, opaque=lambda z: z is not f)
        it.run(f, st=st)
        rs = [e for e in it.events if e.kind == "raise"]
        con = [e for e in it.events if e.kind == "construct" and e.d["cls"].is_a("BaseClustering")]
        w = Walk(it, f)
        ok = False
        for e in rs:
            for g in e.guards:
                g = T.strip(g)
                if g.op in ("eq", "le") and const(0) in g.args:
                    o = [x for x in g.args if x is not const(0)]
                    if o and o[0].op == "call" and str(o[0].args[0]) in (".sum", "numpy.sum", ".max", "numpy.max") and (w.isdeg(o[0].args[1][0]) or w.peel(o[0].args[1][0]) is A):
                        ok = True
                elif g.op == "not" and any(w.isdeg(x) for x in subterms(g) if x.op == "call"):
                    ok = True
                elif g.op == "call" and str(g.args[0]) in (".all", "numpy.all"):
                    ok = True
        ctx.tri(True if ok else (None if rs else False), "refused", "static_clustering of a %s matrix without links" % ("sparse" if csr else "dense"), "accepted: the weights are 0/0", f.where)
