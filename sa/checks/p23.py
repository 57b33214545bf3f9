"""P23 the flow integral is the time average of the forward-backward covariance."""
from __future__ import annotations
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms, rebuild
from .. import terms as T
from ..engine import Interp, State
from ..tensor import Tensor
from ..fwd import calls_to, static_bind
from .timelib import SELF, fld
from .chainlib import index, seq, num, lens, under
from ..numeric import vec, NotNumeric
from .p16 import FIC, B, field

MIN_OBLIGATIONS = 25
RULE = """
The constructor of the flow integral is interpreted for dense, CSR and
SparseStochMat matrices.  Element (i,j) of every covariance appended is
computed symbolically (matrix products as sums, in-place scalings applied in
program order) and compared, as a rational function, with
p1[i] (I[i,j] + dt_k sum_m T_k[i,m] T_k[j,m] / p_k[m]) p1[j] / (t + dt_k),
I and t being accumulators that start at zero and are updated with the same
terms; an entry must be added for every grid time of the step, and the null
model p1 p1^T subtracted once.  The search for entry k must use entry k.
"""
STOP2 = {"sparse_matmul", "sparse_gram_matrix", "set_to_zeroes", "inplace_csr_matmul_diag", "inplace_diag_matmul_csr", "inplace_csr_row_normalize",
         "sparse_outer", "sparse_autocorr_mat", "sparse_autocov_csr_mat"}
TL, P1, TM = sym("T_list"), sym("p1"), sym("time_list")
TK, DT, PK = sym("%T"), sym("%dt"), sym("%pk")
# duration of the step at the same distance from the other end; times at the start, before and after the step
DR, T0, TB, TE = sym("%dt from the other end"), sym("%t0"), sym("%t before"), sym("%t after")


def run(ctx):
    prog = ctx.prog
    cls = prog.cls(FIC)
    for mode in ("dense", "csr", "stoch"):
        for bk in (False, True):
            with ctx.guard("integral", "%s %s" % (FIC, mode)):
                integral(ctx, cls, mode, bk)
        with ctx.guard("search", "%s.find_louvain_clustering %s" % (FIC, mode)):
            search(ctx, cls, mode)
    with ctx.guard("weights", FIC):
        weights(ctx, cls)


def facts(mode, what=TL):
    st = State()
    e0 = mk("idx", what, const(0))
    csr = mk("call", "scipy.sparse.isspmatrix_csr", (e0,), (), None)
    for x, b in ((csr, mode == "csr"), (mk("isinst", e0, "ndarray"), mode == "dense"), (mk("isinst", e0, "SparseStochMat"), mode == "stoch"),
                 (mk("isinst", e0, "matrix"), False)):
        st.assume(x if b else not_(x))
    for p in (what, P1, TM, sym("integral_time_grid")):
        st.assume(not_(mk("is", p, NONE)))
    return st


class At(Tensor):
    """matrix elements, with the in-place scalings of the program applied"""

    def __init__(self, it, scalars, pre):
        super().__init__(scalars=scalars)
        self.it, self.pre = it, pre
        self.now = [None]
        self.scale = {}
        self.res = {}
        for e in it.events:
            if e.kind == "call":
                r = e.d.get("result")
                if r is not None:
                    self.res.setdefault(T.strip(r), e.n)
                nm = str(e.d["fn"]).rsplit(":", 1)[-1].rsplit(".", 1)[-1]
                if nm in ("inplace_csr_matmul_diag", "inplace_diag_matmul_csr") and len(e.d["args"]) == 2:
                    self.add(e.d["args"][0], e.n, "col" if nm == "inplace_csr_matmul_diag" else "row", pre(e.d["args"][1]))
            elif e.kind == "setattr" and e.d["name"] == "data":
                b = T.strip(e.d["base"])
                f = self.factor(T.strip(e.d["value"]), b)
                self.add(b, e.n, "all" if f is not None else "unknown", pre(f) if f is not None else None)
            elif e.kind == "setitem":
                b = T.strip(e.d["base"])
                if b.op == "attr" and b.args[1] == "data":
                    self.add(b.args[0], e.n, "unknown", None)

    def add(self, x, n, how, v):
        self.scale.setdefault(pre_key(self.pre, x), []).append((n, how, v))

    def factor(self, v, b):
        """v = factor * b.data"""
        for x in subterms(v):
            if (x.op == "attr" and x.args[1] == "data" and x.args[0] is b) or (x.op == "phi" and isinstance(x.args[1], tuple) and x.args[1][0] == "h" and
                                                                              x.args[1][2] == "data" and T.strip(x.args[1][1]) is b):
                out = const(0)
                for m, c in T.poly(v).items():
                    if m.count(x) != 1:
                        return None
                    y = const(int(c)) if c == int(c) else const(c)
                    for f in m:
                        if f is not x:
                            y = T.mul(y, f)
                    out = T.add(out, y)
                return out
        return None

    def at(self, t, i, j):
        t0 = T.strip(t)
        sc = self.scale.get(t0)
        if sc and t0 not in self.scalars:
            out = self.at_(t0, i, j)
            lim = self.now[-1]
            for n, how, v in sc:
                if lim is not None and n > lim:
                    continue
                if how == "unknown":
                    out = T.mul(out, mk("unknown", n))
                elif how == "all":
                    out = T.mul(out, v)
                else:
                    out = T.mul(out, self.vec(v, i if how == "row" else j))
            return out
        return self.at_(t0, i, j)

    def at_(self, t, i, j):
        if t in (PK, P1) or t.op == "guarded":
            return self.vec(t, j)                           # a vector is broadcast along the rows
        if t.op == "call":
            nm = str(t.args[0]).rsplit(":", 1)[-1].rsplit(".", 1)[-1]
            if nm == "sparse_gram_matrix" and t.args[1]:
                tr = dict(t.args[2]).get("transpose", t.args[1][1] if len(t.args[1]) > 1 else FALSE)
                k = self.var()
                self.now.append(self.res.get(t))
                try:
                    a = t.args[1][0]
                    x = T.mul(self.at(a, i, k), self.at(a, j, k)) if tr is TRUE else T.mul(self.at(a, k, i), self.at(a, k, j)) if tr is FALSE else None
                finally:
                    self.now.pop()
                if x is None:
                    return mk("unknown", t)
                return mk("sigma", k, x)
            if nm == "sparse_matmul" and len(t.args[1]) >= 2:
                return super().at(mk("matmul", t.args[1][0], t.args[1][1]), i, j)
        return super().at(t, i, j)

    def vec(self, t, i):
        t = T.strip(t)
        if t.op == "guarded":
            return self.vec(t.args[0], i)
        if t.op == "call" and str(t.args[0]) == "numpy.sqrt":
            return mk("sqrt", self.vec(t.args[1][0], i))
        if t.op == "pow" or (t.op == "call" and str(t.args[0]) == "numpy.power"):
            a = t.args if t.op == "pow" else t.args[1]
            if T.is_const(a[1]) and T.cval(a[1]) == 0.5:
                return mk("sqrt", self.vec(a[0], i))
            if T.is_const(a[1]) and T.cval(a[1]) == -0.5:
                return mk("sqrt", T.inv(self.vec(a[0], i)))
        return super().vec(t, i)


def pre_key(pre, x):
    return T.strip(pre(x))


def clean(t):
    """sums with standard variables, squares of roots"""
    V = mk("sym", "#m")

    def f(x):
        if x.op == "sigma":
            return mk("sigma", V, T.subst(x.args[1], {x.args[0]: V}))
        if x.op == "inv" and x.args[0].op == "sqrt":
            return mk("sqrt", T.inv(x.args[0].args[0]))
        if x.op == "poly":
            out = const(0)
            ch = False
            for m, c in T.poly(x).items():
                y = const(int(c)) if c == int(c) else const(c)
                m = list(m)
                roots = [z for z in m if z.op == "sqrt"]
                for z in dict.fromkeys(roots):
                    while m.count(z) >= 2:
                        m.remove(z)
                        m.remove(z)
                        m.append(z.args[0])
                        ch = True
                for z in m:
                    y = T.mul(y, z)
                out = T.add(out, y)
            return out if ch else x
        return x
    t = rebuild(t, f)
    t = rebuild(t, f)

    # factors that do not depend on the summation variable go outside
    def g(x):
        if x.op == "sigma":
            v, b = x.args
            out = const(0)
            for m, c in T.poly(b).items():
                inn, o = const(1), (const(int(c)) if c == int(c) else const(c))
                for z in m:
                    if any(y is v for y in subterms(z)):
                        inn = T.mul(inn, z)
                    else:
                        o = T.mul(o, z)
                out = T.add(out, T.mul(o, mk("sigma", v, inn)))
            return out
        return x
    return rebuild(t, g)


def back_slice(k):
    return k.op == "slice" and k.args[0] is NONE and k.args[1] is NONE and T.is_const(k.args[2]) and T.cval(k.args[2]) == -1


class Pre:
    """loop-position form: T_list[p] -> %T, dt[p] -> +-%dt, p1 T_k -> %pk"""

    def __init__(self, it, r, loop, tm):
        self.it, self.r, self.loop, self.tm = it, r, loop, tm
        self.bad = []
        self.memo = {}

    def __call__(self, t):
        t = T.strip(t)
        for _ in range(4):
            n = rebuild(t, self.f, self.memo)
            if n is t:
                break
            t = n
        return t

    def isdiff(self, x):
        return x.op == "call" and str(x.args[0]).endswith("numpy.diff") and len(x.args[1]) == 1 and self.times(x.args[1][0])

    def reversed_diff(self, b):
        """value at position p of the steps taken in reverse order (None: not such a list)"""
        b = T.strip(b)
        n = 0
        while b.op in ("idx", "select") and back_slice(b.args[1]):
            b, n = T.strip(b.args[0]), n + 1
        sign = 1
        if b.op == "call" and str(b.args[0]).endswith("numpy.diff") and len(b.args[1]) == 1:
            x = T.strip(b.args[1][0])
            while x.op in ("idx", "select") and back_slice(x.args[1]) and not self.times(x):
                x, n, sign = T.strip(x.args[0]), n + 1, -sign
            if self.times(x) and n:
                return T.mul(const(sign), DT if n % 2 == 0 else DR)
        return None

    def times(self, x):
        return T.strip(x) is self.tm or T.strip(x) is TM

    def f(self, x):
        p = mk("pos", self.loop)
        if x.op == "elem" and len(x.args) > 1 and x.args[1] == self.loop and (x.args[0] is TL or self.isdiff(x.args[0])):
            x = mk("idx", x.args[0], mk("elem", mk("call", "range", (mk("call", "len", (x.args[0],), (), None),), (), None), x.args[1]))
        if x.op in ("idx", "select"):
            b, k = x.args
            if k.op not in ("slice", "tuple"):
                rv = self.reversed_diff(b)
                if rv is not None and index(k, self.it, self.r.st) is p:
                    return rv
                if self.times(b):
                    i = const(0) if k is const(0) else index(k, self.it, self.r.st)
                    if i is const(0):
                        return T0
                    if i is p or i is T.add(p, const(1)):
                        return TB if i is p else TE
            if b is TL or self.isdiff(b) or (b.op == "call" and str(b.args[0]) in ("numpy.abs", "numpy.absolute", "abs") and self.isdiff(b.args[1][0])):
                if k.op in ("slice", "tuple"):
                    return x
                i = index(k, self.it, self.r.st)
                if i is p:
                    if b is TL:
                        return TK
                    return DT if self.isdiff(b) else mk("abs", DT)
                self.bad.append(x)
                return x
            if b.op == "poly" and k.op not in ("slice", "tuple") and any(self.isdiff(z) for z in subterms(b)):
                out = const(0)
                for m, c in T.poly(b).items():
                    y = const(int(c)) if c == int(c) else const(c)
                    for z in m:
                        y = T.mul(y, z if not self.isdiff(z) else self.f(mk("idx", z, k)))
                    out = T.add(out, y)
                return out
        if x.op == "call" and str(x.args[0]) in (".tocsr", ".copy", ".toarray", ".tocsc") and len(x.args[1]) == 1 and x.args[1][0] in (TK, PK):
            return x if str(x.args[0]) == ".copy" else x.args[1][0]
        if x.op == "matmul" and x.args[0] is P1 and x.args[1] is TK:
            return PK
        if x.op == "call" and str(x.args[0]).endswith("sparse_matmul") and len(x.args[1]) >= 2 and x.args[1][0] is P1 and x.args[1][1] is TK:
            return PK
        if x.op == "call" and str(x.args[0]) == "numpy.where" and len(x.args[1]) == 3 and x.args[1][0] is mk("eq", PK, const(0)) and x.args[1][2] is PK:
            return mk("guarded", PK)
        return x


def integral(ctx, cls, mode, bk):
    prog = ctx.prog
    f = cls.find("__init__")
    it = Interp(prog, opaque=lambda z: z is not f and (z.name in STOP2 or (z.cls is not cls and z.name == "__init__")))
    it.types[SELF] = cls
    r = it.run(f, args={"reverse_time": B(bk)}, st=facts(mode))
    if not bk:
        ctx.saw(it)
    lab = "%s %s %s" % (FIC, mode, "backward" if bk else "forward")
    tm = T.strip(field(r, "time_list"))
    x, rev = tm, 0
    while True:
        if x.op == "call" and str(x.args[0]) in ("numpy.array", "numpy.asarray", "list", "tuple", ".copy", "numpy.copy") and x.args[1]:
            x = T.strip(x.args[1][0])
        elif x.op in ("idx", "select") and back_slice(x.args[1]):
            x, rev = T.strip(x.args[0]), rev + 1
        else:
            break
    cut = x.op in ("idx", "select") and x.args[1].op == "slice" and T.strip(TM) in subterms(x)
    ctx.tri(True if x is TM and (rev == 1) == bk else (False if x is TM or cut else None), "covariance", lab + " times",
            "the times used are %s" % tm, f.where, str(tm))
    # the entries of I_list, then of the list they are made from
    iv = field(r, "I_list")
    ent = appended(it, r, iv)
    if ent is None:
        ctx.und("null-model", lab, "I_list not recognised: %s" % iv)
        return
    ps = null_model(ctx, it, r, ent, mode, lab, f)
    if ps is None:
        return
    apps = [e for e in it.events if e.kind == "mutate" and e.d["how"] == ".append" and T.unver(e.d["target"]) is ps]
    if not apps:
        ctx.und("covariance", lab, "no entries added to the list of covariances")
        return
    for e in apps:
        entry(ctx, it, r, e, mode, bk, lab, tm, f)


def appended(it, r, v):
    """(appended value) of a list filled by one loop / comprehension"""
    v = T.unver(v)
    c = r.st.heap.get((v, "[]")) if v.op == "obj" else v
    if c is None:
        return None
    c = T.unver(c)
    if c.op == "phi":
        i = [i for p, i in it.phis.items() if T.unver(p) is c][0]
        b = T.unver(i.back)
        if b.op == "append" and b.args[0] is c and i.init.op == "seq" and not i.init.args:
            return b.args[1], i
    return None


def source(t):
    """list an entry is taken from"""
    if t.op == "elem":
        d = t.args[0]
        if d.op == "contents":
            d = d.args[0]
        return d
    if t.op in ("idx", "select"):
        d = t.args[0]
        return d.args[0] if d.op == "contents" else d
    return None


def null_model(ctx, it, r, ent, mode, lab, f):
    v, i = ent
    v = T.unver(v)
    if mode == "dense":
        es = [x for x in subterms(v) if x.op == "elem" or x.op in ("idx", "select") and x.args[0].op in ("contents", "obj")]
        es = [x for x in es if source(x) is not None and source(x).op == "obj"]
        if not es:
            ctx.und("null-model", lab, str(v))
            return None
        X = sym("%PT")
        got = Tensor().at(T.subst(v, {es[0]: X}), sym("i"), sym("j"))
        want = T.sub(Tensor().at(X, sym("i"), sym("j")), T.mul(mk("idx", P1, sym("i")), mk("idx", P1, sym("j"))))
        known = all(x.op in ("poly", "const", "idx", "sym", "tuple", "sigma") for x in subterms(got))
        ctx.tri(True if got is want else (False if known else None), "null-model", lab, "the covariance is %s" % got, f.where, str(got))
        return source(es[0])
    es = [e for e in it.events if e.kind == "construct" and e.d["cls"].name == "SparseAutocovMat"]
    if not es:
        ctx.und("null-model", lab, "no sparse covariance built")
        return None
    src = None
    for e in es:
        b, miss, extra, star = static_bind(e.d["cls"].find("__init__"), [sym("new")] + list(e.d["args"]), e.d["kwargs"])
        PT = T.unver(b.get("PT", NONE))
        s = source(PT)
        if s is not None and s.op in ("idx", "select") and s.args[1].op == "slice" and all(T.is_const(y) for y in s.args[1].args):
            y = s.args[1].args
            if not (T.cval(y[0]) in (None, 0) and T.cval(y[1]) is None and T.cval(y[2]) in (None, 1)):
                ctx.bad("null-model", lab + " entries", "only some of the covariances, %s, are kept" % s, e.where)
        if s is None or s.op != "obj":
            ctx.und("null-model", lab, str(PT))
            continue
        src = s
        same = mk("call", ".all", (mk("eq", P1, mk("idx", P1, const(0))),), (), None)
        for p in ("p1", "p2"):
            x = T.strip(b.get(p, NONE))
            for cs, leaf in T.cases(x) or []:
                ok = leaf is P1 or (leaf is mk("idx", P1, const(0)) and any(c is same or T.strip(c) is same for c in cs))
                if leaf is mk("idx", P1, const(0)) and not ok:
                    # other ways to say that all weights are the same
                    ok = None if any(sameness(c) for c in cs) and not any(c is not_(same) for c in cs) else False
                    if ok is None:
                        ok = decides(cs)
                ctx.tri(True if ok else (False if ok is False and (leaf is mk("idx", P1, const(0)) or leaf is NONE) else None), "null-model",
                        "%s %s%s" % (lab, p, " constant" if leaf is not P1 else ""), "%s of the null model is %s when %s" % (p, leaf, cs), e.where, "%s when %s" % (leaf, cs))
    return src


# start distributions with different weights, and constant ones
VARIED = [[.2, .2, .6], [.5, .5, 0.], [0., .5, .5], [.25, .25, .25, .25 + 1e-3],
          [.001] * 500 + [.0009] * 250 + [.0011] * 250, [.004, .003, .005] + [.988/247] * 247, [1e-4, 2e-4] * 10]
CONST = [[.5, .5], [.25] * 4, [.001] * 1000, [1.]]


def decides(cs):
    """the conditions hold exactly for constant vectors (True), also for some other one (False), or are not understood"""
    def holds(v):
        return all(vec(c, lambda t: v if t is P1 else None) for c in cs if P1 in subterms(c))
    try:
        if any(holds(v) for v in VARIED):
            return False
        return True if all(holds(v) for v in CONST) else None
    except (NotNumeric, IndexError):
        return None


def sameness(c):
    """may say that all entries of p1 are the same"""
    x = c.args[0] if c.op == "not" else c
    if x.op == "call" and str(x.args[0]) in (".all", "numpy.all", ".any", "numpy.any") and x.args[1]:
        y = T.strip(x.args[1][0])
        if y.op in ("lt", "le", "eq") and any(T.is_const(z) for z in y.args) and any(T.strip(z) is P1 for z in y.args):
            return False            # compares each entry with a constant
    return any(x.op in ("eq", "ne") or (x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] in ("all", "allclose", "any", "unique", "min", "max", "ptp", "std", "var", "isclose", "set", "array_equal"))
               for x in subterms(c))


def entry(ctx, it, r, e, mode, bk, lab, tm, f):
    loops = [g.args[0] for g in e.guards if g.op == "iter"]
    if not loops:
        ctx.und("covariance", lab, "entries are not added in a loop")
        return
    loop = loops[0]
    pre = Pre(it, r, loop, tm)
    count(ctx, it, r, e, loops, lab)
    val = T.unver(e.d["args"][0])
    conds = [T.strip(g) for g in e.guards if g.op != "iter"]
    # accumulators: loop variables in the value
    accs = {}
    V = pre(val)
    for x in subterms(V):
        if x.op == "phi" and x.args[0] == loop and not (isinstance(x.args[1], tuple) and x.args[1][0] == "h"):
            accs[x] = None
    # ... and those that only enter through an in-place scaling
    for q in it.phis:
        x = T.strip(q)
        if x.op == "phi" and x.args[0] == loop and not (isinstance(x.args[1], tuple) and x.args[1][0] == "h"):
            accs[x] = None
    phis = {}
    for x in accs:
        i = [i for p, i in it.phis.items() if T.strip(p) is x]
        if len(i) == 1:
            phis[x] = i[0]
    tot = mat = None
    for x, i in phis.items():
        bk_ = pre(i.back)
        uses = any(y is DT or pre.isdiff(y) for y in subterms(bk_))
        if T.is_const(i.init) and T.cval(i.init) == 0 and type(T.cval(i.init)) in (int, float):
            if uses or tot is None:
                tot = x
        elif zero(i.init) and (uses or mat is None):
            mat = x
    if tot is None or mat is None:
        kinds = [str(T.strip(i.init))[:40] for i in phis.values()]
        bad = any(T.is_const(i.init) and type(T.cval(i.init)) in (int, float) and T.cval(i.init) != 0 and
                  any(y is DT for y in subterms(pre(i.back))) for i in phis.values())
        ctx.tri(False if bad else None, "covariance", lab + " accumulators", "the integral does not start from zero: %s" % kinds, f.where, "accumulators start with %s" % kinds)
        return
    ctx.ok("covariance", lab + " accumulators")
    lt = mk("lt", mk("idx", tm, const(-1)), mk("idx", tm, const(0)))
    A, S = sym("%I"), sym("%t")
    at = At(it, {DT, S}, lambda x: T.subst(pre(x), {tot: S, mat: A}))
    i, j = sym("i"), sym("j")
    V = T.subst(V, {tot: S, mat: A})
    mkl = None
    for x in subterms(V):
        if x.op == "ite" and any(y.op == "glob" and "MKL" in str(y) for y in subterms(x.args[0])):
            mkl = x.args[0]
    if mode != "dense" and mkl is None and half_gram(ctx.prog) and any(x.op == "call" and str(x.args[0]).endswith("sparse_gram_matrix") for x in
            subterms(mk("tuple", V, *[pre(i.back) for i in phis.values()]))):
        ctx.bad("covariance", lab + " MKL", "with MKL only the upper triangle of the covariance is computed and it is not completed", e.where)
    for desc in (False, True):
        s = const(-1) if desc else const(1)
        dtv = T.mul(s, DT)

        def fix(t):
            t = T.assume_in(T.assume_in(t, lt, TRUE if desc else FALSE), pre(lt), TRUE if desc else FALSE)
            t = rebuild(t, lambda x: dtv if x.op == "abs" and x.args[0] in (DT, T.mul(const(-1), DT)) or
                        x.op == "call" and str(x.args[0]) in ("abs", "numpy.abs", "numpy.absolute") and x.args[1][0] in (DT, T.mul(const(-1), DT)) else x)
            t = T.subst(t, {TB: T.add(T0, T.mul(s, S)), TE: T.add(T0, T.mul(s, T.add(S, dtv)))})
            return t
        gram = mk("sigma", sym("#m"), T.mul(T.mul(mk("idx", TK, mk("tuple", i, sym("#m"))), mk("idx", TK, mk("tuple", j, sym("#m")))), T.inv(mk("idx", PK, sym("#m")))))
        newA = T.add(mk("idx", A, mk("tuple", i, j)), T.mul(dtv, gram))
        newS = T.add(S, dtv)
        want = T.mul(T.mul(mk("idx", P1, i), mk("idx", P1, j)), T.mul(newA, T.inv(newS)))
        L2 = "%s%s" % (lab, " decreasing times" if desc else " increasing times")
        # the value added
        W = fix(V)
        for val_mkl in ((False, True) if mkl is not None else (None,)):
            X = W if val_mkl is None else T.assume_in(W, mkl, TRUE if val_mkl else FALSE)
            if val_mkl:
                symmetrised(ctx, X, T.assume_in(W, mkl, FALSE), L2, e)
                continue
            compare(ctx, elem(at, X, i, j, fix), want, "covariance", L2 + " entry", "element (i,j) of the covariance is", e.where, pre)
        # the accumulators
        back = fix(T.subst(pre(phis[mat].back), {tot: S, mat: A}))
        compare(ctx, elem(at, back, i, j, fix), newA, "covariance", L2 + " integral", "the integral becomes", f.where, pre)
        back = fix(T.subst(pre(phis[tot].back), {tot: S, mat: A}))
        compare(ctx, back, newS, "covariance", L2 + " duration", "the duration becomes", f.where, pre)
    if mode == "csr":
        hit = TK in at.scale
        ctx.check(not hit, "covariance", lab + " inputs", "a transition matrix of T_list is itself scaled (tocsr of a CSR matrix is no copy)", f.where)
    for b in pre.bad[:1]:
        ctx.bad("covariance", lab + " step", "matrix and duration of different steps are combined: %s" % b, f.where)
    guard_zero(ctx, it, pre, lab, f)
    for c in it.events:
        if c.kind == "call" and str(c.d["fn"]).endswith("set_to_zeroes") and len(c.d["args"]) >= 2:
            t = T.strip(c.d["args"][1])
            rel = c.d["kwargs"].get("relative", c.d["args"][2] if len(c.d["args"]) > 2 else None)
            if rel is not None and T.strip(rel) is FALSE:
                ctx.bad("covariance", lab + " pruning", "entries below %s, not below that fraction of the largest, are dropped" % t, c.where)
            ctx.tri(True if t is sym("rtol") else (T.cval(t) <= 1e-6 if T.is_const(t) else None), "covariance", lab + " pruning", "entries below %s of the largest are dropped" % t, c.where, str(t))


def half_gram(prog):
    """does sparse_gram_matrix hand back MKL's upper triangle?"""
    for f in prog.functions("sparse_gram_matrix"):
        it = Interp(prog)
        v = T.strip(it.run(f).value)
        for cs, leaf in T.cases(v) or []:
            if leaf.op == "call" and str(leaf.args[0]).endswith("gram_matrix_mkl"):
                return True
    return False


def elem(at, X, i, j, fix):
    return clean(fix(at.at(X, i, j)))


def compare(ctx, got, want, rule, lab, text, where, pre):
    got = T.strip(got)
    got = rebuild(got, lambda x: PK if x.op == "guarded" else x)
    same = got is want or T.same_rational(got, want)
    got = rebuild(got, lambda x: sym("%k") if x.op == "elem" and x.args[0].op == "call" and str(x.args[0].args[0]) == "range" else x)
    ok_ops = {"poly", "const", "idx", "sym", "tuple", "inv", "sigma", "sqrt", "pow", "abs"}
    known = all(x.op in ok_ops for x in subterms(got)) and not any(x.op == "idx" and x.args[0] not in (TK, PK, P1, sym("%I")) for x in subterms(got))
    ctx.tri(True if same else (False if known else None), rule, lab, "%s %s" % (text, got), where, str(got))


def zero(t):
    t = T.strip(t)
    if t.op == "call" and str(t.args[0]) in ("numpy.zeros", "numpy.zeros_like"):
        return True
    if t.op == "call" and str(t.args[0]).endswith(("csr_matrix", "csr_array")) and t.args[1] and t.args[1][0].op == "tuple":
        # a shape, not (data, indices, indptr)
        return len(t.args[1][0].args) == 2 and all(x.op != "tuple" for x in t.args[1][0].args)
    return False


def count(ctx, it, r, e, loops, lab):
    """one entry per time of the grid"""
    K = field(r, "_k_integral_grid")
    K = T.strip(K)
    loop = loops[0]
    step = T.add(mk("pos", loop), const(1))
    names = {T.strip(K), fld("_k_integral_grid")}

    def isK(x):
        x = T.strip(x)
        x = x.args[0] if x.op == "contents" else x
        return x in names
    ok = None
    conds = [T.strip(g) for g in e.guards if g.op != "iter" and any(y.op == "elem" for y in subterms(T.strip(g)))]
    for g in conds:
        if g.op == "in" and isK(g.args[1]) and index(g.args[0], it, r.st) is not None:
            ok = "once"
            if index(g.args[0], it, r.st) is not step:
                ok = "step"
    if len(loops) == 2:
        d = T.strip(it.loopinfo[loops[1]]["iter"])
        if d.op == "call" and d.args[0] == "range" and len(d.args[1]) == 1:
            q = d.args[1][0]
            if q.op == "call" and str(q.args[0]) in ("min", "numpy.minimum") and any(T.is_const(z) and T.cval(z) == 1 for z in q.args[1]) and \
                    any(z.op == "call" and str(z.args[0]) == ".count" and isK(z.args[1][0]) for z in q.args[1]):
                ok = "once"
            if q.op == "call" and str(q.args[0]) in (".count",) and len(q.args[1]) == 2 and isK(q.args[1][0]):
                k = index(q.args[1][1], it, r.st)
                ok = True if k is step and not conds else ("step" if k is not None and k is not step else None)
        elif isK(d) or (d.op == "contents" and isK(d.args[0])):
            for g in conds:
                if g.op == "eq":
                    a, b = g.args
                    el = [y for y in (a, b) if y.op == "elem" and y.args[1] == loops[1]]
                    ot = [y for y in (a, b) if y not in el]
                    if el and ot:
                        k = index(ot[0], it, r.st)
                        ok = True if k is step else ("step" if k is not None else None)
    C = lab + " entries"
    if ok is True:
        ctx.ok("grid-entries", C)
    elif ok == "once":
        ctx.bad("grid-entries", C, "grid times that fall on the same step share one entry, so that later entries belong to other grid times", e.where)
    elif ok == "step":
        ctx.bad("grid-entries", C, "the entry of a grid time is added at another step", e.where)
    else:
        ctx.und("grid-entries", C, str([str(g)[:80] for g in e.guards]))


def symmetrised(ctx, X, plain, lab, e):
    """X = M + M.T - diag(M) of the upper triangle M"""
    M = plain
    want = T.sub(T.add(M, mk("attr", M, "T")), mk("call", "scipy.sparse.diags", (mk("call", ".diagonal", (M,), (), None),), (), None))
    if T.strip(X) is T.strip(want):
        ctx.ok("covariance", lab + " MKL")
        return
    Z = sym("%M")

    def f(x):
        x = T.subst(x, {T.strip(M): Z})
        return x
    X = f(T.strip(X))

    def g(x):
        if x.op == "call" and str(x.args[0]) in (".transpose", "numpy.transpose") and x.args[1][0] is Z:
            return sym("%MT")
        if x.op == "attr" and x.args[1] == "T" and x.args[0] is Z:
            return sym("%MT")
        if x.op == "call" and str(x.args[0]).endswith("diags") and x.args[1] and x.args[1][0].op == "call" and str(x.args[1][0].args[0]) == ".diagonal" and x.args[1][0].args[1][0] is Z:
            return sym("%MD")
        return x
    X = rebuild(X, g)
    want = T.sub(T.add(Z, sym("%MT")), sym("%MD"))
    known = all(x.op in ("poly", "const", "sym") for x in subterms(X))
    ctx.tri(True if X is want else (False if known else None), "covariance", lab + " MKL", "the upper triangle is completed to %s" % X, e.where, str(X))


def guard_zero(ctx, it, pre, lab, f):
    """columns that are never reached: the zero in p_k is replaced before dividing"""
    ok = None
    used = False
    for e in it.events:
        if e.kind == "setitem":
            b = pre(e.d["base"])
            if b is PK:
                k = pre(e.d["key"])
                z = mk("eq", PK, const(0))
                if k is z or (k.op == "call" and str(k.args[0]) in ("numpy.where", "numpy.nonzero") and k.args[1][0] is z) or \
                        (k.op == "idx" and k.args[0].op == "call" and k.args[0].args[1] and k.args[0].args[1][0] is z):
                    ok = T.is_const(e.d["value"]) and T.cval(e.d["value"]) != 0
                else:
                    cmpc = [y for y in subterms(k) if y.op in ("lt", "le") and y.args[0] is PK and T.is_const(y.args[1])]
                    if cmpc and isinstance(T.cval(cmpc[0].args[1]), (int, float)) and T.cval(cmpc[0].args[1]) > 1e-12:
                        ctx.bad("covariance", lab + " unreached nodes", "weights p_k up to %s are replaced, also where nodes are reached" % T.cval(cmpc[0].args[1]), e.where)
                    ok = ok or None
                    used = True
        for x in e.d.values():
            if isinstance(x, T.Term) and any(y.op == "guarded" for y in subterms(pre(x))):
                ok = True
    ctx.tri(ok if ok is not None else (None if used else False), "covariance", lab + " unreached nodes", "the weights p_k are inverted without replacing zeros", f.where)


# ------------------------------------------------------------------ defaults
def weights(ctx, cls):
    f = cls.find("__init__")
    it = Interp(ctx.prog, opaque=lambda z: z is not f and (z.name in STOP2 or z.name in ("_compute_integral",) or (z.cls is not cls and z.name == "__init__")))
    it.types[SELF] = cls
    st = State()
    st.assume(not_(mk("is", TL, NONE)))
    r = it.run(f, args={"p1": NONE}, st=st)
    p = T.strip(field(r, "p1"))
    n = T.strip(field(r, "num_nodes"))
    v = None
    if p.op == "call" and str(p.args[0]) in ("numpy.ones", "numpy.zeros"):
        v = const(1 if str(p.args[0]) == "numpy.ones" else 0)
    if p.op == "poly":
        ones = [x for x in subterms(p) if x.op == "call" and str(x.args[0]) == "numpy.ones" and x.args[1] and x.args[1][0] is n]
        if len(ones) == 1:
            v = T.subst(p, {ones[0]: const(1)})
    elif p.op == "call" and str(p.args[0]) == "numpy.full" and len(p.args[1]) >= 2 and p.args[1][0] is n:
        v = p.args[1][1]
    ctx.tri(None if v is None else v is T.inv(n), "weights", FIC + " default p1", "the default weight of a node is %s" % v, f.where, str(p))
    q = mk("idx", mk("attr", mk("idx", TL, const(0)), "shape"), const(0))
    ctx.tri(True if n is q or n is mk("idx", mk("attr", mk("idx", TL, const(0)), "shape"), const(1)) else None, "weights", FIC + " num_nodes", "num_nodes is %s" % n, f.where, str(n))


# ------------------------------------------------------------------ search
def search(ctx, cls, mode):
    prog = ctx.prog
    f = cls.find("find_louvain_clustering")
    it = Interp(prog, opaque=lambda z: z is not f and z.cls is not cls)
    it.types[SELF] = cls
    st = State()
    isn = fld("is_nparray")
    st.assume(isn if mode == "dense" else not_(isn))
    for n in ("is_sparse", "is_sparse_stoch"):
        st.assume(fld(n) if (n == "is_sparse") == (mode == "csr") and mode != "dense" else not_(fld(n)))
    K = sym("k")
    done = mk("in", K, fld("clustering"))
    st.assume(not_(done))
    r = it.run(f, st=st)
    ctx.saw(it)
    lab = "%s.find_louvain_clustering %s" % (FIC, mode)
    cons = [e for e in it.events if e.kind == "construct" and (e.d["cls"].is_a("BaseClustering") or "Clustering" in e.d["cls"].name)]
    if len(cons) != 1:
        ctx.und("search", lab, "%d clusterings built" % len(cons))
        return
    e = cons[0]
    ini = e.d["cls"].find("__init__")
    b, miss, extra, star = static_bind(ini, [sym("new")] + list(e.d["args"]), e.d["kwargs"])
    b = {k: T.strip(v) for k, v in b.items()}
    ctx.check(e.d["cls"].name == ("Clustering" if mode == "dense" else "SparseClustering"), "search", lab + " class", "a %s is built" % e.d["cls"].name, e.where)
    S = b.get("S", NONE)
    want = mk("idx", fld("I_list"), K)
    ctx.tri(True if S is want else (False if S is NONE or S.op in ("idx", "attr") else None), "search", lab + " covariance", "entry k is searched with %s" % S, e.where, str(S))
    ctx.tri(True if b.get("p1") is fld("p1") else (False if b.get("p1", NONE) in (NONE,) or b["p1"].op == "attr" else None), "search", lab + " weights", "the weights used are %s" % b.get("p1"), e.where)
    t = b.get("T", NONE)
    if mode == "dense":
        kk = T.sub(mk("idx", fld("_k_integral_grid"), T.add(K, const(1))), const(1))
        ctx.tri(True if t is mk("idx", fld("T_list"), kk) else (False if t.op == "idx" and t.args[0] is fld("T_list") and all(x.op in ("poly", "const", "idx", "attr", "sym") for x in subterms(t)) else None),
                "search", lab + " matrix", "the transition matrix that goes with entry k is %s" % t, e.where, str(t))
    for p in ("cluster_list", "node_to_cluster_dict", "rnd_state", "rnd_seed", "S_threshold"):
        if p in ini.params() and p in f.params():
            v = b.get(p, NONE)
            ctx.tri(True if v is sym(p) else (False if v is NONE or T.is_const(v) or (v.op == "sym") else None), "search", "%s %s" % (lab, p), "%s is given %s" % (p, v), e.where, str(v))
    # stored and searched under the same key
    sets = [x for x in it.events if x.kind == "setitem"]
    for a in ("clustering", "partition"):
        xs = [x for x in sets if T.strip(x.d["base"]) is fld(a)]
        if not xs:
            ctx.und("search", "%s %s" % (lab, a), "nothing stored")
            continue
        for x in xs:
            k = T.strip(x.d["key"])
            ctx.tri(True if k is K else (False if T.is_const(k) or k.op == "poly" else None), "search", "%s stored in %s" % (lab, a), "stored under %s" % k, x.where, str(k))
    res = T.strip(e.d.get("result")) if e.d.get("result") is not None else None
    xs = [x for x in sets if T.strip(x.d["base"]) is fld("partition")]
    for x in xs:
        v = T.strip(x.d["value"])
        ctx.tri(True if v.op == "attr" and v.args[1] == "partition" and (v.args[0].op in ("obj",) or "Clustering" in str(v.args[0])) else None, "search", lab + " partition", "the partition stored is %s" % v, x.where, str(v))
    for c, fi, bb, star in calls_to(it, {"find_louvain_clustering"}):
        for p in ("delta_r_threshold", "n_meta_iter_max", "n_sub_iter_max", "rnd_seed", "verbose"):
            if p in fi.params() and p in f.params():
                v = T.strip(bb.get(p, NONE))
                ctx.tri(True if v is sym(p) else (False if v is NONE or T.is_const(v) or v.op == "sym" else None), "search", "%s %s forwarded" % (lab, p), "%s is given %s" % (p, v), c.where, str(v))
