"""P21 every representation optimises the same objective."""
from __future__ import annotations
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms
from .. import terms as T
from ..engine import Interp, State
from ..model import AnalysisBroken
from ..sums import Sums, show_terms
from .autocov import Fields
from ..resolve import Resolve
from ..tensor import Tensor, NotMat
from .p20 import ATTR, variants, _is_sparse, fields
from .p22 import is_abstract

MIN_OBLIGATIONS = 14
RULE = """
The matrices, sums and aggregates that define the objective are extracted as
index-notation normal forms (element (i,j) of numpy/scipy expressions, values
stored by loops in Python and Cython, sums over fancy indices, comprehensions
and csr traversals) and compared with the definition
  S[i,j] = p1[i] T[i,j] - p1[i] p2[j],
  stability = SUM_C SUM_{i,j in C} S[i,j],
  aggregated S[s,t] = SUM_{i in C_s, j in C_t} S[i,j]   (same for the weights),
for the dense, sparse, compiled and pure-Python variants.
"""


def run(ctx):
    for part in (dense_S, sparse_S, forward_S, autocov, stability, dense_aggregate, sparse_aggregate, element_access, defaults,
                 single_entries, container, sparse_shortcut, dense_zero_test):
        with ctx.guard("analysis", part.__name__):
            part(ctx)


def tri_eq(ctx, rule, C, got, want, where, voc=None):
    """compare two index-notation terms"""
    if got is want:
        ctx.ok(rule, C, str(got))
        return
    g, w = T.poly(got), T.poly(want)
    if g == w:
        ctx.ok(rule, C, str(got))
        return
    if voc is not None and all(voc(x) for m in g for x in m):
        ctx.bad(rule, C, "is %s; the definition is %s" % (got, want), where)
    else:
        ctx.und(rule, C, "%s" % got)


def entry(t):
    """known leaf: an entry of a named vector or matrix, or a sum of such"""
    if t.op == "idx":
        b = t.args[0]
        return b.op in ("attr", "sym") and all(x.op in ("elem", "sym", "tuple", "const", "call", "attr", "idx") for x in subterms(t))
    if t.op == "inv":
        return entry(t.args[0])
    if t.op == "sigma":
        return all(entry(x) for m in T.poly(t.args[1]) for x in m)
    return t.op in ("attr",)


def spec_S(p1, p2, Tm, i, j):
    ij = mk("tuple", i, j)
    return T.sub(T.mul(mk("idx", p1, i), mk("idx", Tm, ij)), T.mul(mk("idx", p1, i), mk("idx", p2, j)))


def stores(it, obj):
    return [e for e in it.events if e.kind == "setitem" and T.unver(e.d["base"]) is T.unver(obj)]


def loops_cover(it, e, key, sizes):
    """each index is the element of range(size) of an enclosing loop, unconditionally"""
    idx = key.args if key.op == "tuple" else (key,)
    for x in idx:
        if x.op != "elem" or x.args[0].op != "call" or x.args[0].args[0] != "range":
            return None
    return True


def dense_S(ctx):
    prog = ctx.prog
    cls = prog.cls("BaseClustering")
    f = cls.find("_compute_S")
    if f is None:
        raise AnalysisBroken("BaseClustering._compute_S")
    it = Interp(prog)
    s = it.new_instance(cls)
    st = State()
    args = {p: NONE for p in f.params()[1:]}
    r = it.run(f, selft=s, args=args)
    ctx.saw(it)
    p1, p2, Tm = (mk("attr", s, n) for n in ("p1", "p2", "T"))
    i, j = sym("i"), sym("j")
    for lab, v in variants(T.unver(r.value), it):
        C = "BaseClustering._compute_S " + lab
        v = T.unver(v)
        matrix_value(ctx, it, "S-definition", C, v, spec_S(p1, p2, Tm, i, j), i, j, f, Tm)
    # thresholding only removes small entries, and only when asked to
    ini = cls.find("__init__")
    for fn, opq in ((f, lambda fi: False), (ini, lambda fi: fi.name == "_compute_S" or fi.cls is not None and fi.cls.name == "Partition")):
        it2 = Interp(prog, opaque=opq)
        s2 = it2.new_instance(cls)
        r2 = it2.run(fn, selft=s2)
        thr = r2.bound.get("S_threshold")
        if thr is None:
            continue
        CT = "BaseClustering.%s" % fn.name
        hits = [e for e in it2.events if e.kind == "setitem" and e.fi is fn and any(x.op in ("lt", "le") and thr in subterms(x) for x in subterms(e.d["key"]))]
        if not hits:
            ctx.und("S-threshold", CT, "no entries are set")
        for e in hits:
            k = T.strip(e.d["key"])
            g = [c for c in e.guards if thr in subterms(c)]
            small = [x for x in subterms(k) if x.op in ("lt", "le") and thr in subterms(x)]
            x, base = small[0], T.strip(e.d["base"])
            ok = None
            if len(small) == 1 and x.args[1] is thr:
                a = x.args[0]
                inner = T.strip(a.args[1][0]) if a.op == "call" and str(a.args[0]) in ("abs", "numpy.abs", "numpy.absolute", "numpy.fabs") else None
                if inner is not None:
                    ok = True if inner in (base, uncopy(base)) or uncopy(inner) is uncopy(base) else None
                elif a in (base, uncopy(base)) or uncopy(a) is uncopy(base):
                    ok = False          # every negative entry goes
            elif len(small) == 1 and x.args[0] is thr:
                ok = False
            if e.d["value"] is not const(0) or not g:
                ok = False
            ctx.tri(ok, "S-threshold", CT, "the entries where `%s` are changed to %s under %s" % (x, e.d["value"], [str(c) for c in g]), e.where, str(k))


def matrix_value(ctx, it, rule, C, v, want, i, j, f, like):
    """v: a matrix expression, or an array filled by loops"""
    if v.op == "call" and str(v.args[0]) in ("numpy.zeros", "numpy.empty", "numpy.zeros_like", "numpy.empty_like"):
        es = stores(it, v)
        if not es:
            ctx.bad(rule, C, "the array is returned without having been filled", f.where)
            return
        for e in es:
            key = T.strip(e.d["key"])
            if key.op != "tuple" or len(key.args) != 2:
                ctx.und(rule, C, "stored at %s" % key)
                continue
            a, b = key.args
            val = T.strip(e.d["value"])
            if e.d.get("aug") or any(x.op == "select" for x in subterms(val)):
                ctx.und(rule, C, "accumulated entry")
                continue
            val = T.subst(val, {a: i, b: j}) if a is not b else val
            conds = [c for c in e.guards if c.op != "iter" and c.op != "glob" and not (c.op == "not" and c.args[0].op == "glob")
                     and not (c.op in ("is",) or c.op == "not" and c.args[0].op == "is")]
            if conds:
                ctx.und(rule, C, "stored only if %s" % "; ".join(map(str, conds)))
                continue
            for x, ax in ((a, 0), (b, 1)):
                if x.op == "elem" and x.args[0].op == "call" and x.args[0].args[0] == "range":
                    ra = x.args[0].args[1]
                    full = (len(ra) == 1 or ra[0] is const(0)) and (
                        ra[-1] is mk("idx", mk("attr", like, "shape"), const(ax)) or
                        (ra[-1].op == "idx" and ra[-1].args[0].op == "attr" and ra[-1].args[0].args[1] == "shape") or
                        (ra[-1].op == "call" and ra[-1].args[0] == "len") or
                        (ra[-1].op == "attr" and ra[-1].args[1] in ("num_nodes", "size")))
                    ctx.tri(True if full and len(ra) < 3 else (False if len(ra) == 3 or len(ra) == 2 and T.is_const(ra[0]) and ra[0] is not const(0)
                                                              or ra[-1].op == "poly" else None),
                            rule + "-range", C + " axis %d" % ax, "only indices %s are filled" % x.args[0], e.where, str(x.args[0]))
            tri_eq(ctx, rule, C, val, want, e.where, entry)
        return
    try:
        got = Tensor(atoms={like}).at(v, i, j)
    except NotMat as ex:
        ctx.und(rule, C, str(ex))
        return
    tri_eq(ctx, rule, C, got, want, f.where, entry)


def sp_at(it, r, t, i, j, depth=0):
    """element (i,j) of a csr matrix built by copy + in-place row/column scaling"""
    return None


class CsrInterp(Interp):
    """follows the in-place scaling of csr matrices: the current value of a matrix object as a term"""

    def opaque_call(self, f, args, kwargs, n, st, fr, pure=False):
        name = f.args[0].name if isinstance(f, T.Term) and f.op == "fun" else (f if isinstance(f, str) else "")
        name = name.rsplit(".", 1)[-1]
        if name in ("inplace_diag_matmul_csr", "inplace_csr_matmul_diag") and isinstance(f, T.Term):
            fi = f.args[0]
            from ..fwd import static_bind
            b, _, _, _ = static_bind(fi, args, kwargs)
            ps = fi.params()
            X, d = b.get(ps[0]), b.get(ps[1])
            self.scal.append((X, name, d, len(self.events)))
            cur = self.val.get(X, X)
            dg = mk("call", "numpy.diag", (d,), (), None)
            self.val[X] = mk("matmul", dg, cur) if name == "inplace_diag_matmul_csr" else mk("matmul", cur, dg)
        return super().opaque_call(f, args, kwargs, n, st, fr, pure)

    def current(self, t):
        for k, v in self.val.items():
            if k is t or T.strip(k) is T.strip(t):
                return v
        return t

    def binop(self, op, a, b, st):
        if op in ("MatMult", "@"):
            a, b = self.val.get(a, a), self.val.get(b, b)
        return super().binop(op, a, b, st)


def scale_kernels(ctx):
    pass


def sparse_S(ctx):
    """SparseAutocovMat.from_T"""
    prog = ctx.prog
    cls = prog.cls("SparseAutocovMat")
    f = cls.find("from_T")
    if f is None:
        ctx.und("S-definition", "SparseAutocovMat.from_T", "not found")
        return
    it = CsrInterp(prog, opaque=lambda fi: fi.name in ("__init__", "inplace_diag_matmul_csr", "inplace_csr_matmul_diag"))
    it.scal, it.val = [], {}
    st = State()
    for p in ("p1", "p2"):
        st.assume(not_(T.cmp_("is", sym(p), NONE)))
    r = it.run(f, args={f.params()[0]: mk("cls", cls)}, st=st)
    ctx.saw(it)
    built(ctx, it, cls, r, "SparseAutocovMat.from_T", f, lambda i, j: T.mul(mk("idx", sym("p1"), i), mk("idx", sym("T"), mk("tuple", i, j))),
          sym("p1"), sym("p2"))
    # the clustering builds its S with its own T, p1, p2
    for c in prog.subclasses("Clustering"):
        g = c.find("_compute_S")
        if g is None or not _is_sparse(prog, c):
            continue
        it = Interp(prog, opaque=lambda fi: fi.name in ("from_T", "from_T_forward", "__init__"))
        s = it.new_instance(c)
        r = it.run(g, selft=s)
        ctx.saw(it)
        C = "%s._compute_S" % c.name
        v = T.strip(r.value)
        if v.op == "call" and str(v.args[0]).endswith(".from_T"):
            ps = f.params()
            a = [z for z in v.args[1] if z.op != "cls"]
            b = dict(zip(ps[1:], a))
            b.update(dict(v.args[2]))
            for n in ("T", "p1", "p2"):
                got = T.strip(b.get(n, NONE))
                want = mk("attr", s, n)
                ctx.tri(True if got is want else (False if got is NONE or got.op == "attr" else None), "S-inputs", C + " " + n,
                        "%s is taken from %s" % (n, got), g.where, str(got))
        elif v.op == "call" and str(v.args[0]).endswith(".from_T_forward"):
            ctx.bad("S-inputs", C, "the covariance of the flow is built as the forward covariance: %s" % v, g.where)
        else:
            ctx.und("S-inputs", C, str(v))


def forward_S(ctx):
    prog = ctx.prog
    cls = prog.cls("SparseAutocovMat")
    f = cls.find("from_T_forward")
    if f is None:
        return
    it = CsrInterp(prog, opaque=lambda fi: fi.name in ("__init__", "inplace_diag_matmul_csr", "inplace_csr_matmul_diag"))
    it.scal, it.val = [], {}
    st = State()
    for p in ("p1", "p2"):
        st.assume(not_(T.cmp_("is", sym(p), NONE)))
    r = it.run(f, args={f.params()[0]: mk("cls", cls)}, st=st)
    ctx.saw(it)
    C = "SparseAutocovMat.from_T_forward"
    v = T.strip(r.value)
    unreached(ctx, it, C, f)
    for cs, leaf in T.cases(v) or []:
        if leaf.op != "call" or not str(leaf.args[0]).startswith("cls:"):
            ctx.und("S-definition", C, str(leaf))
            continue
        b = ctor(cls, leaf)
        PT = T.strip(b.get("PT", NONE))
        p = b.get("p1")
        # PT = diag(p1) . T . diag(1/p2) . T^t . diag(p1)
        cur = it.current(PT)
        i, j = sym("i"), sym("j")
        got = Tensor().at(cur, i, j)
        m = T.poly(got)
        ok = None
        if len(m) == 1:
            (mono, c), = m.items()
            sg = [x for x in mono if x.op == "sigma"]
            rest = sorted([x for x in mono if x.op != "sigma"], key=lambda z: z.n)
            wrest = sorted([mk("idx", sym("p1"), i), mk("idx", sym("p1"), j)], key=lambda z: z.n)
            if len(sg) == 1 and c == 1 and rest == wrest:
                k, body = sg[0].args
                fs = list(T.poly(body).items())
                if len(fs) == 1:
                    mm = [x for x in fs[0][0]]
                    ts = [x for x in mm if x.op == "idx" and x.args[0] is sym("T")]
                    oth = [x for x in mm if x not in ts]
                    want = {mk("tuple", i, k), mk("tuple", j, k)}
                    div = [divisor(x, k) for x in oth]
                    ok = len(ts) == 2 and {x.args[1] for x in ts} == want and len(oth) == 1 and div == [True] and fs[0][1] == 1
                    if None in div:
                        ok = None
                    if ok is None and len(ts) == 2 and {x.args[1] for x in ts} != want and all(x.args[1].op == "tuple" and all(y in (i, j, k) for y in x.args[1].args) for x in ts):
                        ok = False         # the walk back is not taken with the transposed transition matrix
                    if not ok and not (len(ts) == 2 and len(oth) <= 2):
                        ok = None
            elif len(sg) == 1 and all(entry(x) for x in rest):
                ok = False
        ctx.tri(ok, "S-definition", C, "is %s" % got, f.where, str(got))
        a, b2 = T.strip(b.get("p1", NONE)), T.strip(b.get("p2", NONE))
        ctx.tri(True if a is b2 and sym("p1") in subterms(a) else (False if sym("p2") in (a, b2) else None), "null-model", C,
                "the null model is built from %s and %s" % (a, b2), f.where)


def divisor(x, k):
    """1/p2[k], possibly with the zeros replaced"""
    if x.op == "inv" and x.args[0].op == "idx" and x.args[0].args[1] is k:
        b = uncopy(x.args[0].args[0])
        if b is sym("p2"):
            return True
        if b is sym("p1"):
            return False
        if b.op == "call" and str(b.args[0]) == "numpy.where" and len(b.args[1]) == 3:
            return True if sym("p2") in [uncopy(z) for z in b.args[1][1:]] else None
        return None
    if x.op == "idx" and x.args[1] is k and uncopy(x.args[0]) in (sym("p1"), sym("p2")):
        return False
    return None


def unreached(ctx, it, C, f):
    """nodes that are never reached: zeros of p2 are replaced before dividing"""
    p2 = sym("p2")
    ok = None
    for e in it.events:
        if e.kind == "setitem" and uncopy(e.d["base"]) is p2 and not e.d.get("aug"):
            k = T.strip(e.d["key"])
            conds = [y for y in subterms(k) if y.op in ("eq", "le", "lt", "not", "ne")]
            if len(conds) == 1 and conds[0].op == "eq" and any(uncopy(z) is p2 for z in conds[0].args):
                o = [z for z in conds[0].args if uncopy(z) is not p2]
                zero = len(o) == 1 and T.is_const(o[0]) and T.cval(o[0]) == 0
                val = T.is_const(e.d["value"]) and T.cval(e.d["value"]) != 0
                ok = True if zero and val else (False if T.is_const(o[0]) and T.is_const(e.d["value"]) else None)
            elif len(conds) == 1 and conds[0].op in ("lt", "le") and uncopy(conds[0].args[0]) is p2 and T.is_const(conds[0].args[1]) and T.is_const(e.d["value"]):
                c = T.cval(conds[0].args[1])
                # a probability above 0 is below the bound
                ok = False if isinstance(c, (int, float)) and c > 1e-100 else (True if c == 0 and conds[0].op == "le" and T.cval(e.d["value"]) != 0 else None)
                if ok is False:
                    ctx.bad("unreached", C, "probabilities of p2 above 0 (below %s) are replaced by %s as well" % (c, T.cval(e.d["value"])), e.where)
                    return
            elif conds and {c.op for c in conds} <= {"ne", "not", "eq"} and any(c.op == "ne" or c.op == "not" and c.args[0].op == "eq" for c in conds):
                ok = False
            else:
                ctx.und("unreached", C, "p2[%s] = %s" % (k, e.d["value"]))
                return
            if ok is not None:
                ctx.tri(ok, "unreached", C, "zeros of p2 are not replaced before dividing: [%s] = %s" % (k, e.d["value"]), e.where)
                return
    used = any(x.op == "call" and str(x.args[0]) in ("numpy.where", "numpy.divide", "numpy.nan_to_num", "numpy.reciprocal") or x.op == "errstate"
               for e in it.events for v in e.d.values() if isinstance(v, T.Term) for x in subterms(v)) or any(e.kind == "with" for e in it.events)
    ctx.tri(None if used else False, "unreached", C, "p2 is inverted without replacing its zeros", f.where)


def ctor(cls, t):
    b = dict(zip(cls.find("__init__").params()[1:], t.args[1]))
    b.update(dict(t.args[2]))
    return b


def built(ctx, it, cls, r, C, f, want, p1, p2):
    v = T.strip(r.value)
    if v.op != "call" or not str(v.args[0]).startswith("cls:"):
        ctx.und("S-definition", C, str(v))
        return
    b = ctor(cls, v)
    PT = b.get("PT")
    if "PT_symmetric" in cls.find("__init__").params():
        ps = T.strip(b.get("PT_symmetric", FALSE))
        ctx.tri(True if ps is FALSE else False if ps is TRUE or not any(x.op == "sym" and x.args[0] == "T" for x in subterms(ps)) else None, "symmetry", C,
                "diag(p1) T is declared symmetric (%s) for matrices that need not be" % ps, f.where, str(ps))
    i, j = sym("i"), sym("j")
    cur = it.current(PT)
    got = Tensor().at(cur, i, j)
    # PT must be a copy: scaling in place must not touch the argument (P07), value as defined here
    tri_eq(ctx, "S-definition", C, got, want(i, j), f.where, entry)
    for n, w in (("p1", p1), ("p2", p2)):
        g = T.strip(b.get(n, NONE))
        ctx.tri(True if g is w else (False if g.op in ("sym", "const") else None), "null-model", C + " " + n,
                "%s of the null model is %s" % (n, g), f.where, str(g))


# ------------------------------------------------------------- sums over clusters
def key2(sm, C1, C2, fac):
    """normal-form key of SUM_{i in C1, j in C2} fac(i, j)"""
    k1, k2 = ("spec", 1), ("spec", 2)
    return sm._alpha((), ((k1, C1), (k2, C2)), list(fac(mk("elem", C1, k1), mk("elem", C2, k2))))


def key1(sm, C1, fac):
    k1 = ("spec", 1)
    return sm._alpha((), ((k1, C1),), list(fac(mk("elem", C1, k1))))


def csr_key(sm, A, C1, C2):
    D, I, P = fields(A)
    k1, k2 = ("spec", 1), ("spec", 2)
    row = mk("elem", C1, k1)
    dom = mk("call", "range", (mk("idx", P, row), mk("idx", P, T.add(row, const(1)))), (), None)
    e = mk("elem", dom, k2)
    return sm._alpha((mk("in", mk("idx", I, e), C2),), ((k1, C1), (k2, dom)), [mk("idx", D, e)])


def rz(it, st, t):
    return Resolve(it, st)(T.strip(t))


def offdiagonal(ts):
    """sum over i != j of x  ==  sum over all i, j of x  -  sum over i of x at j = i  (both in the same cluster)"""
    out = {}
    for (mono, conds, doms), v in ts.items():
        done = False
        for i, c in enumerate(conds):
            e = c.args[0] if c.op == "not" else c
            if e.op == "eq" and all(x.op == "elem" for x in e.args) and e.args[0].args[0] is e.args[1].args[0] and \
                    any(d is e.args[0].args[0] and n == 2 for d, n in doms) and {x.args[1] for x in e.args} == {0, 1}:
                D = e.args[0].args[0]
                rest = conds[:i] + conds[i + 1:]
                m = {mk("elem", D, 1): mk("elem", D, 0)}
                one = (tuple(sorted((T.subst(x, m) for x in mono), key=lambda z: z.n)), tuple(sorted((T.subst(x, m) for x in rest), key=lambda z: z.n)),
                       tuple((d, n - 1 if d is D else n) for d, n in doms))
                if c.op == "not":
                    k = (mono, rest, doms)
                    out[k] = out.get(k, 0) + v
                    out[one] = out.get(one, 0) - v
                else:
                    out[one] = out.get(one, 0) + v
                done = True
                break
        if not done:
            k = (mono, conds, doms)
            out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


def compare(ctx, rule, C, ts, spec, why, where):
    if ts is None and str(why) == "pairwise index":
        ctx.bad(rule, C, "only the entries at equal positions of the two index lists are summed, not the block", where)
        return
    if ts is None:
        ctx.und(rule, C, why)
        return
    if ts == spec:
        ctx.ok(rule, C, show_terms(ts))
        return
    ts = offdiagonal(ts)
    if ts == spec or ts == offdiagonal(spec):
        ctx.ok(rule, C, show_terms(ts))
        return
    for (mono, conds, doms), c in ts.items():
        for m in mono:
            if m.op == "inv":
                m = m.args[0]
            if not (m.op in ("idx", "attr") or m.op == "call" and m.args[0] == "len") or any(x.op in ("phi", "select") for x in subterms(m)):
                if len(ts) == 1 and len(mono) == 1 and str(m).startswith((".mean(", ".max(", ".min(", ".prod(", "numpy.mean(", "numpy.max(", "numpy.min(")) and \
                        not any(x.op in ("phi", "select", "lambda") for x in subterms(m)):
                    ctx.bad(rule, C, "the block is reduced with %s, not summed" % str(m).split("(")[0], where)
                    return
                ctx.und(rule, C, "unrecognised factor %s" % m)
                return
        for x in conds:
            y_ = x.args[0] if x.op == "not" else x
            if y_.op not in ("in", "eq", "lt", "le") or any(y.op == "phi" for y in subterms(x)) or \
                    (y_ is not x or y_.op in ("lt", "le")) and any(y.op == "attr" and y.args[1] in ("data", "_S", "S", "p1", "p2") and y_.op != "in" and
                                                                 any(q.op == "idx" and q.args[0] is y for q in subterms(x)) for y in subterms(x)):
                ctx.und(rule, C, "condition %s" % x)
                return
        for d, n in doms:
            if any(y.op in ("phi", "obj") for y in subterms(d)):
                ctx.und(rule, C, "domain %s" % d)
                return
    ctx.bad(rule, C, "is %s; the definition is %s" % (show_terms(ts), show_terms(spec)), where)


def interp(prog, sparse):
    at = dict(ATTR)
    at[("BaseClustering", "target_part")] = "Partition"
    if not sparse:
        at.pop(("BaseClustering", "_S"))
    return Interp(prog, attr_types=at)


def autocov(ctx):
    """R[s(,t)] = sum of S over the clusters"""
    prog = ctx.prog
    done = set()
    for cls in prog.subclasses("BaseClustering"):
        f = cls.find("_compute_clustered_autocov")
        sparse = _is_sparse(prog, cls)
        if f is None or (f, sparse) in done:
            continue
        done.add((f, sparse))
        for alt in ((0, 1) if sparse else (0,)):
            it = interp(prog, sparse)
            it.alt = alt
            s = it.new_instance(cls)
            r = it.run(f, selft=s, args={f.params()[1]: NONE})
            ctx.saw(it)
            C = "%s._compute_clustered_autocov" % cls.name + (" [fallback kernels]" if alt else "")
            block_sums(ctx, prog, cls, it, s, r, T.unver(r.value), "block-sum", C, f, "_S", sparse, skip_empty=True)


def clusters(s, cls):
    src = mk("attr", mk("attr", s, "source_part"), "cluster_list")
    tgt = src if cls.is_a("Clustering") else mk("attr", mk("attr", s, "target_part"), "cluster_list")
    return src, tgt


def nonempty(c, cl):
    from ..conts import nonempty_test
    for x in ("elem", "idx"):
        pass
    return any(nonempty_test(c, y) for y in subterms(c) if y.op in ("idx", "elem", "select"))


def block_sums(ctx, prog, cls, it, s, r, arr, rule, C, f, what, sparse, skip_empty=False):
    """array filled with sums of matrix/vector `what` over clusters (dense) """
    es = stores(it, arr)
    if not es:
        ctx.und(rule, C, "array %s is not filled by stores" % arr)
        return
    src, tgt = clusters(s, cls)
    part2 = mk("attr", s, "partition")
    for e in es:
        sm = Sums(it, r.st, Resolve(it, r.st))
        key = rz(it, r.st, T.strip(e.d["key"]))
        ks = key.args if key.op == "tuple" else (key,)
        extra = [c for c in e.guards if c.op != "iter" and not (skip_empty and nonempty(T.strip(c), None))
                 and not c.op in ("is",) and not (c.op == "not" and c.args[0].op == "is")]
        if extra:
            big = [c for c in extra if c.op in ("lt", "le") and T.is_const(c.args[0]) and c.args[1].op == "call" and str(c.args[1].args[0]) == "len"
                   and T.cval(c.args[0]) >= (1 if c.op == "lt" else 2) or
                   c.op == "not" and c.args[0].op == "eq" and any(T.is_const(z) and T.cval(z) == 1 for z in c.args[0].args)]
            ctx.tri(False if big else None, rule, C, "clusters are left out unless `%s`" % "; ".join(map(str, big)), e.where,
                    "stored only if %s" % "; ".join(str(c) for c in extra))
            continue
        lists = []
        okk = True
        for n, k in enumerate(ks):
            L = tgt if n == 1 or what == "p2" else src
            if k.op == "elem" and k.args[0].op == "call" and k.args[0].args[0] == "range" and len(k.args[0].args[1]) == 1:
                c = Sums(it, r.st, Resolve(it, r.st)).lenof(k.args[0].args[1][0])
                if c is None:
                    okk = False
                else:
                    L2 = c
                    if L2.op == "attr" and L2.args[1] == "cluster_list" and L2.args[0] is part2:
                        L = L2
                lists.append(mk("idx", L, k))
            else:
                okk = False
        if not okk:
            ctx.und(rule, C, "stored at %s" % key)
            continue
        C1 = sm.canon(lists[0])
        C2 = sm.canon(lists[-1])
        val = rz(it, r.st, e.d["value"])
        S = mk("attr", s, what)
        if not sparse:
            ts = sm.terms(val)
            if what in ("p1", "p2"):
                spec = {key1(sm, C1, lambda i: [mk("idx", S, i)]): 1}
            else:
                spec = {key2(sm, C1, C2, lambda i, j: [mk("idx", S, mk("tuple", i, j))]): 1}
            # R[s,s] for a one-sided clustering: both clusters are the same
            compare(ctx, rule, C + (" of " + what if what != "_S" else ""), ts, spec, sm.why, e.where)
        else:
            flds = Fields(prog)
            for scalar in (True, False):
                w = flds.case(val, S, scalar)
                ts = sm.terms(w)
                spec = {csr_key(sm, mk("attr", S, "PT"), C1, C2): 1}
                if scalar:
                    n1, n2 = (mk("call", "len", (c,), (), None) for c in (C1, C2))
                    spec[(tuple(sorted([n1, n2, mk("attr", S, "p1"), mk("attr", S, "p2")], key=lambda z: z.n)), (), ())] = -1
                else:
                    p1, p2 = mk("attr", S, "p1"), mk("attr", S, "p2")
                    spec[key2(sm, C1, C2, lambda i, j: [mk("idx", p1, i), mk("idx", p2, j)])] = -1
                compare(ctx, rule, C + (" / scalar null model" if scalar else " / vector null model"), ts, spec, sm.why, e.where)


def stability(ctx):
    """the reported stability is the sum of the within-cluster blocks of the current partition"""
    prog = ctx.prog
    done = set()
    for cls in prog.subclasses("Clustering"):
        f = cls.find("compute_stability")
        if f is None or f in done:
            continue
        done.add(f)
        it = Interp(prog, opaque=lambda fi: fi.name == "_compute_clustered_autocov")
        s = it.new_instance(cls)
        r = it.run(f, selft=s, args={f.params()[1]: NONE})
        ctx.saw(it)
        C = "%s.compute_stability" % cls.name
        v = T.strip(r.value)
        ok = None
        if v.op == "call" and str(v.args[0]) in (".sum", "numpy.sum", "sum") and len(v.args[1]) == 1 and not v.args[2]:
            h = v.args[1][0]
            if h.op == "call" and str(h.args[0]).endswith("._compute_clustered_autocov"):
                ok = True
                a = [z for z in h.args[1][1:] if z is not NONE]
                if a or h.args[2]:
                    ok = None
            elif (h.op == "poly" or h.op == "call" and str(h.args[0]) in ("abs", "numpy.abs", "numpy.absolute", "numpy.square", "numpy.maximum")) and \
                    any(x.op == "call" and str(x.args[0]).endswith("._compute_clustered_autocov") for x in subterms(h)):
                ok = False
        elif v.op == "call" and str(v.args[0]) in (".mean", ".max", ".min", ".trace", "numpy.mean", "numpy.max", ".prod"):
            ok = False
        elif v.op == "poly" and len(v.args) == 1 and (v.args[0][1] != 1 or len(v.args[0][0]) > 1) or v.op == "poly" and () in dict(v.args):
            ok = False
        elif v.op == "call" and str(v.args[0]) in ("abs", "numpy.abs", "max", "round"):
            ok = False
        ctx.tri(ok, "stability", C, "the stability is %s" % v, f.where, str(v))
        # an explicit R is used as given
        it = Interp(prog, opaque=lambda fi: fi.name == "_compute_clustered_autocov")
        s = it.new_instance(cls)
        st = State()
        R = sym(f.params()[1])
        st.assume(not_(T.cmp_("is", R, NONE)))
        v = T.strip(it.run(f, selft=s, st=st).value)
        ctx.tri(True if R in subterms(v) else (False if "autocov" in str(v) else None), "stability-of-R", C, "a given R is ignored", f.where)


def dense_aggregate(ctx):
    prog = ctx.prog
    done = set()
    for cls in prog.subclasses("BaseClustering"):
        f = cls.find("_aggregate_clusters")
        if f is None or f in done or _is_sparse(prog, cls):
            continue
        done.add(f)
        it = interp(prog, False)
        s = it.new_instance(cls)
        r = it.run(f, selft=s, args={f.params()[1]: NONE})
        ctx.saw(it)
        C = "%s._aggregate_clusters" % cls.name
        v = T.unver(r.value)
        if v.op != "tuple" or len(v.args) != 4:
            ctx.und("aggregate", C, str(v))
            continue
        for n, x in zip(("T", "p1", "p2", "_S"), v.args):
            arr = x
            if x.op == "poly" and len(x.args) == 1:
                z = [m for m in x.args[0][0] if m.op == "call" and str(m.args[0]) == "numpy.zeros"]
                if len(z) == 1 and x.args[0][1] == 1 and n != "_S":
                    arr = z[0]          # rescaled by its own sum
                    others = [m for m in x.args[0][0] if m is not arr]
                    ctx.tri(own_total(others, arr, n), "aggregate-scale", C + " " + n, "the aggregated %s is scaled by %s" %
                            (n, "; ".join(map(str, others))), f.where, str(x))
                elif n == "_S":
                    ctx.bad("aggregate-scale", C + " S", "the aggregated S is rescaled: %s" % x, f.where)
                    arr = z[0] if z else x
            fld = n
            # which matrix do the stores sum?
            block_sums(ctx, prog, cls, it, s, r, arr, "aggregate", C + (" S" if n == "_S" else ""), f, n, False)


def own_total(others, arr, n):
    """scaled by the sums of the rows (a matrix) / by the total (a vector)"""
    if len(others) != 1 or others[0].op != "inv":
        return None
    d = T.strip(others[0].args[0])
    col = None
    if d.op in ("idx", "select") and d.args[1].op == "tuple" and len(d.args[1].args) == 2:
        a, b = d.args[1].args
        col = True if a.op == "slice" and b.op != "slice" else (False if a.op != "slice" and b.op == "slice" else None)
        d = T.strip(d.args[0])
    if d.op != "call" or str(d.args[0]) not in (".sum", "numpy.sum") or T.strip(d.args[1][0]) is not T.strip(arr):
        return None
    kw = dict(d.args[2])
    ax = kw.get("axis", d.args[1][1] if len(d.args[1]) > 1 else None)
    ax = None if ax is None or ax is NONE else T.strip(ax)
    if n in ("p1", "p2"):
        return True if ax is None or ax is const(0) else None
    if ax is None:
        return False
    if T.is_const(ax) and T.cval(ax) in (0, -2):
        return False
    if T.is_const(ax) and T.cval(ax) in (1, -1):
        if kw.get("keepdims") is TRUE and col is None or col is True:
            return True
        return False        # row sums divide along the columns
    return None


def sparse_shortcut(ctx):
    """the matrix itself is handed to the next level only if every node is a cluster"""
    prog = ctx.prog
    for cls in prog.subclasses("Clustering"):
        f = cls.find("_aggregate_clusters")
        if f is None or not _is_sparse(prog, cls):
            continue
        it = Interp(prog, opaque=lambda fi: fi.name in ("aggregate", "get_num_clusters", "iter_cluster_node_index"), attr_types=ATTR)
        s = it.new_instance(cls)
        r = it.run(f, selft=s, args={f.params()[1]: NONE})
        ctx.saw(it)
        C = "%s._aggregate_clusters" % cls.name
        own, N = mk("attr", s, "_S"), mk("attr", s, "num_nodes")
        for cs, leaf in T.cases(T.strip(r.value)) or []:
            if leaf.op != "tuple" or len(leaf.args) != 4:
                ctx.und("aggregate-shortcut", C, str(leaf))
                continue
            if T.strip(leaf.args[3]) is not own:
                continue
            ok = None
            for c in cs:
                nc = [x for x in subterms(c) if x.op == "call" and str(x.args[0]).endswith("get_num_clusters") or
                      x.op == "call" and str(x.args[0]) == "len"]
                if not nc:
                    continue
                if c.op == "eq" and set(c.args) == {nc[0], N} or c.op == "le" and c.args == (N, nc[0]) :
                    ok = True
                    break
                if c.op in ("lt", "le", "eq") and N in subterms(c):
                    ok = False
            if not cs:
                ok = False
            ctx.tri(ok, "aggregate-shortcut", C, "the next level gets the matrix of the nodes under `%s`" % "; ".join(map(str, cs)), f.where,
                    "; ".join(map(str, cs)))


def sparse_aggregate(ctx):
    prog = ctx.prog
    cls = prog.cls("SparseAutocovMat")
    f = cls.find("aggregate")
    if f is None:
        ctx.und("aggregate", "SparseAutocovMat.aggregate", "not found")
        return
    # --- null-model weights
    it = Interp(prog, opaque=lambda fi: fi.name in ("aggregate_csr_mat", "aggregate_csr_mat_2", "__init__"))
    s = it.new_instance(cls)
    r = it.run(f, selft=s)
    ctx.saw(it)
    C = "SparseAutocovMat.aggregate"
    idl = r.bound[f.params()[1]]
    v = T.unver(r.value)
    if v.op == "call" and str(v.args[0]).startswith("cls:"):
        b = ctor(cls, v)
        for n in ("p1", "p2"):
            x = b.get(n, NONE)
            arr = x
            if x.op == "poly" and len(x.args) == 1:
                z = [m for m in x.args[0][0] if m.op == "call" and str(m.args[0]) == "numpy.zeros"]
                arr = z[0] if len(z) == 1 else x
            es = stores(it, arr)
            if not es:
                ctx.und("aggregate-weights", C + " " + n, str(x))
            for e in es:
                sm = Sums(it, r.st, Resolve(it, r.st))
                key = T.strip(e.d["key"])
                val = rz(it, r.st, e.d["value"])
                Ck = sm.canon(mk("idx", idl, key))
                for scalar in (True, False):
                    w = Fields(prog).case(val, s, scalar)
                    lab = C + " " + n + (" / scalar" if scalar else " / vector")
                    if scalar:
                        # uniform weights: count / N
                        if w.op == "call" and str(w.args[0]) in (".sum", "numpy.sum"):
                            ix = w.args[1][0]
                            ok = ix.op == "idx" and sm.canon(sm.col(ix.args[1])) is Ck and "numpy.ones" in str(ix.args[0]) and \
                                "inv(" in str(ix.args[0])
                            ctx.tri(True if ok else None, "aggregate-weights", lab, "", e.where, str(w))
                        elif w.op == "call" and str(w.args[0]) in (".mean", "numpy.mean", ".max", ".min", "numpy.max", "numpy.median"):
                            ctx.bad("aggregate-weights", lab, "the weight of a cluster is %s, not the sum over its members" % w, e.where)
                        else:
                            ctx.und("aggregate-weights", lab, str(w))
                        continue
                    sm.vectors.add(idl)
                    if T.strip(w).op == "call" and str(T.strip(w).args[0]) in (".mean", "numpy.mean", ".max", ".min", "numpy.max", "numpy.median"):
                        ctx.bad("aggregate-weights", lab, "the weight of a cluster is %s, not the sum over its members" % w, e.where)
                        continue
                    ts = sm.terms(w)
                    spec = {key1(sm, Ck, lambda i: [mk("idx", mk("attr", s, n), i)]): 1}
                    compare(ctx, "aggregate-weights", lab, ts, spec, sm.why, e.where)
        coo_roles(ctx, C, T.strip(b.get("PT", NONE)), f)
        ps = T.strip(b.get("PT_symmetric", FALSE))
        ctx.tri(True if ps is mk("attr", s, "PT_symmetric") or ps is FALSE else (False if ps is TRUE else None), "aggregate-symmetry", C,
                "the aggregate of any matrix is declared symmetric", f.where, str(ps))
        # the kernels get this matrix and the cluster lists
        for e in it.events:
            fn = e.d.get("fn") if e.kind == "call" else None
            if isinstance(fn, T.Term) and fn.op == "fun" and fn.args[0].name.startswith("aggregate_csr_mat"):
                a = [T.strip(z) for z in e.d["args"]]
                want = [mk("attr", mk("attr", s, "PT"), q) for q in ("data", "indices", "indptr")]
                if len(a) >= 5:
                    for z, w, q in zip(a[:3], want, ("data", "indices", "indptr")):
                        ctx.tri(True if z is w else (False if z.op == "attr" else None), "aggregate-kernel-args", "%s -> %s %s" % (C, fn.args[0].name, q),
                                "%s receives %s" % (q, z), e.where, str(z))
                    pair(ctx, it, r, C, e, a[3], a[4], idl)
    else:
        ctx.und("aggregate", C, str(v))
    for k in ("aggregate_csr_mat", "aggregate_csr_mat_2"):
        kernel(ctx, prog, k)


def flat_of(it, c):
    """contents of a list filled by two nested loops with every element of every list of X -> X"""
    i = it.phis.get(c)
    if i is None or i.back is None or i.init is None or i.init.op != "seq" or i.init.args:
        return None
    j = it.phis.get(i.back)
    if j is None or j.init is not c or j.back is None or j.back.op != "append" or j.back.args[0] is not i.back:
        return None
    v = T.strip(j.back.args[1])
    if v.op == "elem" and v.args[1] == j.loop and v.args[0].op == "elem" and v.args[0].args[1] == i.loop:
        return v.args[0].args[0]
    return None


def lens_of(it, c):
    i = it.phis.get(c)
    if i is None or i.back is None or i.back.op != "append" or i.back.args[0] is not c or i.init is None or i.init.op != "seq" or i.init.args:
        return None
    v = T.strip(i.back.args[1])
    if v.op == "call" and v.args[0] == "len" and v.args[1][0].op == "elem" and v.args[1][0].args[1] == i.loop:
        return v.args[1][0].args[0]
    return None


def pair(ctx, it, r, C, e, flat, ptr, idl):
    """(concatenated members, offsets)"""
    X = None
    if flat.op == "call" and flat.args[1] and flat.args[1][0].op == "contents":
        X = flat_of(it, flat.args[1][0].args[1])
    elif flat.op == "call" and str(flat.args[0]) in ("numpy.concatenate", "numpy.hstack") and flat.args[1][0] is idl:
        X = idl
    reorder = any(x.op == "sortedof" for x in subterms(flat)) or flat.op == "call" and str(flat.args[0]) in ("numpy.sort", "numpy.unique")
    ctx.tri(True if X is idl else False if reorder else None, "aggregate-kernel-args", C + " members",
            "the members are not listed cluster by cluster: %s" % flat, e.where, str(flat))
    Y = None
    ok = None
    if ptr.op == "call" and str(ptr.args[0]) == "numpy.cumsum" and ptr.args[1] and ptr.args[1][0].op == "contents":
        c = ptr.args[1][0].args[1]
        if c.op == "concat" and len(c.args) == 2:
            z, l = c.args
            ph = it.phis.get(l)
            if ph is not None and ph.back is not None and ph.back.op == "ite":
                a, b2 = ph.back.args[1], ph.back.args[2]
                if (a.op == "append" and a.args[0] is l and b2 is l) or (b2.op == "append" and b2.args[0] is l and a is l):
                    ok = False              # some clusters have no offset: the offsets are fewer than the clusters
            Y = lens_of(it, l)
            if Y is idl:
                ok = z.op == "seq" and len(z.args) == 1 and z.args[0] is const(0)
        elif lens_of(it, c) is idl:
            ok = False
    ctx.tri(ok, "aggregate-kernel-args", C + " offsets", "the offsets of the clusters are %s" % ptr, e.where, str(ptr))


def leaves(t):
    if t.op == "ite":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def coo_roles(ctx, C, PT, f):
    """matrix built from the kernel's (values, rows, columns)"""
    for x in subterms(PT):
        if x.op == "call" and str(x.args[0]).split(".")[-1] in ("coo_matrix", "csr_matrix", "coo_array", "csr_array") and x.args[1] \
                and x.args[1][0].op == "tuple" and len(x.args[1][0].args) == 2 and x.args[1][0].args[1].op == "tuple" \
                and len(x.args[1][0].args[1].args) == 2:
            d, (ro, co) = x.args[1][0].args[0], x.args[1][0].args[1].args
            for q, w, n in ((d, 0, "values"), (ro, 1, "rows"), (co, 2, "columns")):
                for z in leaves(q):
                    ok = None
                    if z.op == "idx" and T.is_const(z.args[1]) and z.args[0].op == "call":
                        ok = T.cval(z.args[1]) == w
                    ctx.tri(ok, "aggregate-roles", C + " " + n, "result %s of the kernel is used as %s" % (z.args[1] if z.op == "idx" else z, n), f.where, str(z))
            return
    ctx.und("aggregate-roles", C, str(PT))


def kernel(ctx, prog, name):
    m = prog.mod("_cython_sparse_stoch")
    f = m.functions.get(name)
    if f is None:
        ctx.und("aggregate-kernel", name, "not found")
        return
    it = Interp(prog)
    r = it.run(f)
    ctx.saw(it)
    v = T.strip(r.value)
    if v.op != "tuple" or len(v.args) < 3:
        ctx.und("aggregate-kernel", name, str(v))
        return
    ps = f.params()
    D, I, P, X, Q = (r.bound[p] for p in ps[:5])
    adds = []
    for x in v.args[:3]:
        c = r.st.heap.get((x, "[]")) if x.op != "contents" else x.args[1]
        ev = [e for e in it.events if e.kind == "mutate" and T.strip(e.d["target"]) is T.strip(x) and e.d["how"] in (".push_back", ".append")]
        adds.append(ev)
    if any(len(a) != 1 for a in adds):
        ctx.und("aggregate-kernel", name, "entries are added at %s places" % [len(a) for a in adds])
        return
    (d,), (ro,), (co,) = adds
    g = [tuple(c for c in e.guards if c.op != "iter") for e in (d, ro, co)]
    ctx.check(g[0] == g[1] == g[2] and d.loops == ro.loops == co.loops, "aggregate-kernel-triples", name,
              "values, rows and columns are not added together", d.where)
    if len(v.args) > 3:
        ns = T.unver(v.args[3])
        ctx.tri(whole(mk("elem", mk("call", "range", (ns,), (), None), 0), (Q, -1)), "aggregate-kernel-range", name + " size", "the result is said to have %s rows" % ns, f.where, str(ns))
    data, row, col = (T.strip(e.d["args"][0]) for e in (d, ro, co))
    sm = Sums(it, r.st, Resolve(it, r.st))
    one = const(1)
    # form A: block sums
    if row.op == "elem" and row.args[0].op == "call" and row.args[0].args[0] == "range" and col.op == "elem":
        def sl(k):
            return mk("idx", X, mk("slice", mk("idx", Q, k), mk("idx", Q, T.add(k, one)), NONE))
        val = rz(it, r.st, data)
        ts = sm.terms(val)
        C1, C2 = sl(row), sl(col)
        k1, k2 = ("spec", 1), ("spec", 2)
        rr = mk("elem", C1, k1)
        dom = mk("call", "range", (mk("idx", P, rr), mk("idx", P, T.add(rr, one))), (), None)
        e2 = mk("elem", dom, k2)
        spec = {sm._alpha((mk("in", mk("idx", I, e2), C2),), ((k1, C1), (k2, dom)), [mk("idx", D, e2)]): 1}
        compare(ctx, "aggregate-kernel", name, ts, spec, sm.why, f.where)
        for c in g[0]:
            c = T.strip(c)
            ok = c.op in ("lt", "le", "not") and data in subterms(c) or c.op == "lt"
            pos = c is T.cmp_("<", const(0), data) or c is T.cmp_("<", const(0.0), data) or c is not_(T.cmp_("==", data, const(0)))
            ctx.tri(True if pos else (False if c.op == "lt" and c.args[1] is data and T.is_const(c.args[0]) and T.cval(c.args[0]) > 0 else None),
                    "aggregate-kernel-kept", name, "block sums up to %s are dropped" % c, d.where, str(c))
        for e_, nm in ((row, "row"), (col, "column")):
            ra = e_.args[0].args[1]
            if len(ra) == 2 and ra[0] is row:
                ctx.bad("aggregate-kernel-range", name + " " + nm, "only %s" % e_.args[0], d.where)
            else:
                ctx.tri(whole(e_, (Q, -1)), "aggregate-kernel-range", name + " " + nm, "only clusters %s" % e_.args[0], d.where, str(e_.args[0]))
        return
    # form B: one entry per stored value, indices mapped
    k = None
    if data.op == "idx" and data.args[0] is D:
        k = data.args[1]
    if k is None or k.op != "elem":
        ctx.und("aggregate-kernel", name, "value %s" % data)
        return
    dom = k.args[0]
    rowv = None
    if dom.op == "call" and dom.args[0] == "range" and len(dom.args[1]) == 2:
        a, b = dom.args[1]
        if a.op == "idx" and a.args[0] is P:
            rowv = a.args[1]
            ctx.check(b is mk("idx", P, T.add(rowv, one)), "aggregate-kernel-range", name + " entries", "the entries of row %s are taken from %s" % (rowv, dom), d.where)
    if rowv is not None and rowv.op == "elem":
        ctx.tri(whole(rowv, (P, -1), (X, 0)), "aggregate-kernel-range", name + " rows", "only the entries of rows %s are aggregated" % rowv.args[0], d.where, str(rowv.args[0]))
    for c in g[0]:
        c = T.unver(T.strip(c))
        ok = None
        dat = [x for x in subterms(c) if x.op in ("idx", "select") and x.args[0] is D]
        if c is not_(T.cmp_("==", T.unver(T.strip(data)), const(0))) or c is not_(T.cmp_("==", T.unver(T.strip(data)), const(0.0))):
            ok = True
        elif not dat and all(x.op in ("elem", "idx", "select", "call", "phi", "contents", "attr", "sym", "const", "poly", "eq", "lt", "le", "not", "obj", "tuple", "store", "num", "inv") for x in subterms(c)) and (
                any(x.op == "elem" for x in subterms(c))):
            ok = False          # which entries are kept depends on their position only
        elif c.op == "lt" and len(dat) == 1 and c.args[1] is dat[0] and T.is_const(c.args[0]) and T.cval(c.args[0]) > 0:
            ok = False
        ctx.tri(ok, "aggregate-kernel-kept", name, "entries are added only if %s" % c, d.where, "entries are added only if %s" % c)
    colv = mk("idx", I, k)

    def mapped(t):
        if t.op in ("idx", "select"):
            return t.args[1]
        return None
    ctx.tri(None if rowv is None or mapped(row) is None else mapped(row) is rowv, "aggregate-kernel", name + " row",
            "the row of a value of row %s becomes %s" % (rowv, row), d.where, str(row))
    ctx.tri(None if mapped(col) is None else mapped(col) is colv, "aggregate-kernel", name + " column",
            "the column of a value at %s becomes %s" % (colv, col), d.where, str(col))
    # the map: member -> cluster
    st_ = [e for e in it.events if e.kind == "setitem"]
    for e in st_:
        key, val = T.strip(e.d["key"]), T.strip(e.d["value"])
        ok = None
        if key.op == "idx" and key.args[0] is X and key.args[1].op == "elem":
            dm = key.args[1].args[0]
            if dm.op == "call" and dm.args[0] == "range" and len(dm.args[1]) == 2:
                lo, hi = dm.args[1]
                ok = lo is mk("idx", Q, val) and hi is mk("idx", Q, T.add(val, one))
                if ok and val.op == "elem":
                    ctx.tri(whole(val, (Q, -1)), "aggregate-kernel-map", name + " clusters", "only the members of clusters %s are mapped" % val.args[0], e.where, str(val.args[0]))
        elif key.op == "elem" and key.args[0].op == "call" and key.args[0].args[0] == "range" and any(x is Q for x in subterms(key)):
            ok = False          # a position in the list of members instead of the member
        ctx.tri(ok, "aggregate-kernel-map", name, "member %s is mapped to %s" % (key, val), e.where, "%s -> %s" % (key, val))


def whole(e, *sizes):
    """does a loop variable run over 0 .. n-1, n the size of one of the arrays plus an offset"""
    if e.op != "elem" or e.args[0].op != "call" or e.args[0].args[0] != "range":
        return None
    ra = e.args[0].args[1]
    lo, hi = (const(0), ra[0]) if len(ra) == 1 else ra[:2]
    if len(ra) > 2 and ra[2] is not const(1):
        return None
    if not T.is_const(lo):
        return None
    for A, off in sizes:
        for z in (mk("idx", mk("attr", A, "shape"), const(0)), mk("call", "len", (A,), (), None), mk("attr", A, "size")):
            d_ = T.sub(hi, z)
            if T.is_const(d_):
                return T.cval(d_) == off and T.cval(lo) == 0
    return None


def element_access(ctx):
    """toarray / get_element / row and column sums agree with S = PT - p1 p2"""
    prog = ctx.prog
    flds = Fields(prog)
    cls = prog.cls("SparseAutocovMat")
    f = cls.find("toarray")
    if f is not None:
        it = Interp(prog)
        s = it.new_instance(cls)
        r = it.run(f, selft=s)
        ctx.saw(it)
        i, j = sym("i"), sym("j")
        PT = mk("idx", mk("attr", s, "PT"), mk("tuple", i, j))
        for scalar in (True, False):
            v = T.strip(flds.case(T.strip(r.value), s, scalar))
            ones = [x for x in subterms(v) if x.op == "call" and str(x.args[0]) == "numpy.ones"]
            v = T.subst(v, {o: const(1) for o in ones})
            w1, w2 = mk("attr", s, "p1"), mk("attr", s, "p2")
            got = Tensor(scalars={w1, w2} if scalar else set()).at(v, i, j)
            want = T.sub(PT, T.mul(w1, w2) if scalar else T.mul(mk("idx", mk("attr", s, "p1"), i), mk("idx", mk("attr", s, "p2"), j)))
            tri_eq(ctx, "element", "SparseAutocovMat.toarray" + (" / scalar" if scalar else " / vector"), got, want, f.where, entry)
    for name, rowcol in (("get_row_idx_sum", 0), ("get_col_idx_sum", 1)):
        f = cls.find(name)
        if f is None:
            continue
        it = Interp(prog)
        s = it.new_instance(cls)
        r = it.run(f, selft=s)
        ctx.saw(it)
        ps = f.params()
        k, ids = r.bound[ps[1]], r.bound[ps[2]]
        A = mk("attr", s, "PT" if rowcol == 0 else "PTcsc")
        sm = Sums(it, r.st, Resolve(it, r.st))
        sm.vectors.add(ids)
        v = rz(it, r.st, r.value)
        for scalar in (True, False):
            w = flds.case(v, s, scalar)
            ts = sm.terms(w)
            C = "SparseAutocovMat.%s" % name + (" / scalar" if scalar else " / vector")
            if ts is None:
                ctx.und("element", C, sm.why)
                continue
            D, I, P = fields(A)
            dom = mk("call", "range", (mk("idx", P, k), mk("idx", P, T.add(k, const(1)))), (), None)
            k2 = ("spec", 2)
            e = mk("elem", dom, k2)
            # the one-row traversal may appear as a loop over a one-element list
            spec = {sm._alpha((mk("in", mk("idx", I, e), ids),), ((k2, dom),), [mk("idx", D, e)]): 1}
            p1, p2 = mk("attr", s, "p1"), mk("attr", s, "p2")
            if scalar:
                spec[(tuple(sorted([mk("call", "len", (ids,), (), None), mk("attr", s, "p1"), mk("attr", s, "p2")], key=lambda z: z.n)), (), ())] = -1
            elif rowcol == 0:
                spec[key1(sm, ids, lambda i: [mk("idx", p1, k), mk("idx", p2, i)])] = -1
            else:
                spec[key1(sm, ids, lambda i: [mk("idx", p1, i), mk("idx", p2, k)])] = -1
            ts = one_row(ts, k)
            compare(ctx, "element", C, ts, spec, sm.why, f.where)


def single_entries(ctx):
    """S[rows, cols].sum(), S[i, j], copies of S and the test for S = 0"""
    prog = ctx.prog
    cls = prog.cls("SparseAutocovMat")
    flds = Fields(prog)
    f = cls.find("get_submat_sum")
    if f is not None:
        for alt in (0, 1):
            it = Interp(prog)
            it.alt = alt
            s = it.new_instance(cls)
            r = it.run(f, selft=s)
            ctx.saw(it)
            ps = f.params()
            C1, C2 = r.bound[ps[1]], r.bound[ps[2]]
            sm = Sums(it, r.st, Resolve(it, r.st))
            sm.vectors |= {C1, C2}
            p1, p2 = mk("attr", s, "p1"), mk("attr", s, "p2")
            for scalar in (True, False):
                w = flds.case(rz(it, r.st, r.value), s, scalar)
                ts = sm.terms(w)
                spec = {csr_key(sm, mk("attr", s, "PT"), C1, C2): 1}
                if scalar:
                    n1, n2 = (mk("call", "len", (c,), (), None) for c in (C1, C2))
                    spec[(tuple(sorted([n1, n2, p1, p2], key=lambda z: z.n)), (), ())] = -1
                else:
                    spec[key2(sm, C1, C2, lambda i, j: [mk("idx", p1, i), mk("idx", p2, j)])] = -1
                compare(ctx, "element", "SparseAutocovMat.get_submat_sum" + (" [fallback kernels]" if alt else "") + (" / scalar" if scalar else " / vector"),
                        ts, spec, sm.why, f.where)
    f = cls.find("get_element")
    if f is not None:
        it = Interp(prog)
        s = it.new_instance(cls)
        r = it.run(f, selft=s)
        ctx.saw(it)
        i, j = (r.bound[p] for p in f.params()[1:3])
        for scalar in (True, False):
            C = "SparseAutocovMat.get_element" + (" / scalar" if scalar else " / vector")
            p1, p2 = mk("attr", s, "p1"), mk("attr", s, "p2")
            want0 = T.mul(p1, p2) if scalar else T.mul(mk("idx", p1, i), mk("idx", p2, j))
            v = T.unver(T.strip(flds.case(T.strip(r.value), s, scalar)))
            for cs, leaf in T.cases(v) or [((), v)]:
                stored, leaf2 = lookup_entry(s, leaf, i, j)
                if stored is False:
                    ctx.bad("element", C, "the stored entry is looked up as %s" % leaf, f.where)
                    continue
                there = present(cs, s, i, j)
                E = mk("stored", i, j)
                tot = T.add(leaf2, want0)
                if stored is None and E not in subterms(leaf2):
                    # an entry that is not stored
                    ok = True if tot is const(0) else (False if entries_only(leaf2, s) else None)
                    if ok and there is not False:
                        ok = None if there is None else False
                else:
                    ok = True if tot is E else (False if entries_only(leaf2, s) else None)
                    if ok and there is False:
                        ok = False
                ctx.tri(ok, "element", C + (" / stored" if E in subterms(leaf2) else " / not stored"), "is %s" % leaf, f.where, "%s when %s" % (leaf, cs))
    f = cls.find("copy")
    if f is not None:
        it = Interp(prog, opaque=lambda fi: fi.name == "__init__")
        s = it.new_instance(cls)
        r = it.run(f, selft=s)
        ctx.saw(it)
        v = T.strip(r.value)
        C = "SparseAutocovMat.copy"
        con = [e for e in it.events if e.kind == "construct"]
        b = None
        if v.op == "call" and str(v.args[0]).startswith("cls:"):
            b = ctor(cls, v)
        elif len(con) == 1:
            b = dict(zip(cls.find("__init__").params()[1:], con[0].d.get("args", ())))
            b.update(dict(con[0].d.get("kwargs", {})))
        if not b:
            ctx.und("copy", C, str(v))
        else:
            for n in ("PT", "p1", "p2", "PT_symmetric"):
                g = uncopy(b.get(n, NONE))
                ok = True if g is mk("attr", s, n) else (False if g.op == "attr" and g.args[0] is s or g is TRUE or g is NONE else None)
                ctx.tri(ok, "copy", C + " " + n, "%s of the copy is %s" % (n, g), f.where, str(g))
            g = T.strip(b.get("PT", NONE))
            ctx.tri(False if g is mk("attr", s, "PT") else True if g is not uncopy(g) else None, "copy", C + " own matrix", "the copy shares the matrix of the original", f.where, str(g))
    zero_test(ctx, cls, flds)


def lookup_entry(s, t, i, j):
    """replace data[indptr[i] + where(indices[indptr[i]:indptr[i+1]] == j)[0][0]] by the stored entry (i, j)"""
    PT = mk("attr", s, "PT")
    D, I, P = fields(PT)
    bad = [None]
    E = mk("stored", i, j)

    def f(x):
        if x.op == "idx" and x.args[0] is PT and x.args[1] is mk("tuple", i, j):
            bad[0] = bad[0] if bad[0] is False else True
            return E
        if x.op != "idx" or x.args[0] is not D:
            return x
        w = [y for y in subterms(x.args[1]) if y.op == "idx" and y.args[0].op == "idx" and y.args[0].args[0].op == "call"
             and str(y.args[0].args[0].args[0]) in ("numpy.where", "numpy.nonzero", ".nonzero", "numpy.flatnonzero", "numpy.argwhere")]
        if len(w) != 1:
            return x
        off = T.sub(x.args[1], w[0])
        k = located(w[0].args[0].args[0], I)
        if k is None:
            return x
        if T.strip(w[0].args[1]) is not const(0):
            bad[0] = False if T.is_const(w[0].args[1]) and T.cval(w[0].args[1]) > 0 else bad[0]
            return x
        lo, hi, what, eq = k
        if lo is mk("idx", P, i) and hi is mk("idx", P, T.add(i, const(1))) and off is lo and what is j and eq:
            bad[0] = bad[0] if bad[0] is False else True
            return E
        known = {mk("idx", P, z) for z in (i, j, T.add(i, const(1)), T.add(j, const(1)), T.add(i, const(2)), T.sub(i, const(1)))}
        if lo in known and hi in known and (off in known or off is const(0)) and what in (i, j):
            bad[0] = False
        return x
    t = T.rebuild(t, f)
    return bad[0], t


def located(call, I):
    c = T.strip(call.args[1][0]) if call.args[1] else None
    if c is None or c.op not in ("eq", "ne"):
        return None
    for a, b in (c.args, c.args[::-1]):
        a = T.strip(a)
        if a.op == "idx" and a.args[0] is I and a.args[1].op == "slice":
            return T.strip(a.args[1].args[0]), T.strip(a.args[1].args[1]), T.strip(b), c.op == "eq"
    return None


def present(cs, s, i, j):
    """do the conditions say that the entry is (not) stored?"""
    for c in cs:
        neg = c.op == "not"
        k = c.args[0] if neg else c
        if k.op == "eq" and const(0) in k.args and any(x.op == "call" and str(x.args[0]) in ("len",) or x.op == "attr" and x.args[1] == "size" for x in k.args):
            return neg
        if k.op == "lt" and k.args[0] is const(0):
            return not neg
    return None


def entries_only(t, s):
    return all(x.op in ("idx", "attr", "poly", "const", "sym", "stored", "inv", "self", "obj", "add", "mul", "inst") for x in subterms(t)) and \
        not any(x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "data" for x in subterms(t))


def zero_test(ctx, cls, flds):
    """the sparse test for S = 0 answers False as soon as one stored entry differs from the product of the weights"""
    prog = ctx.prog
    f = cls.find("is_all_zeros")
    if f is None:
        return
    it = Interp(prog)
    s = it.new_instance(cls)
    r = it.run(f, selft=s)
    ctx.saw(it)
    D, I, P = fields(mk("attr", s, "PT"))
    rets = [e for e in it.events if e.kind == "return"]
    flag = mk("attr", s, flds.flag)
    for scalar in (True, False):
        C = "SparseAutocovMat.is_all_zeros" + (" / scalar" if scalar else " / vector")
        fl = TRUE if scalar == flds.flag_scalar else FALSE
        mine = []
        for e in rets:
            g = [T.assume_in(T.unver(x), flag, fl) for x in e.guards]
            if FALSE in g:
                continue
            mine.append((e, [x for x in g if x is not TRUE]))
        falses = [(e, g) for e, g in mine if T.strip(e.d["value"]) is FALSE]
        trues = [(e, g) for e, g in mine if T.strip(e.d["value"]) is TRUE]
        other = [e for e, g in mine if T.strip(e.d["value"]) not in (TRUE, FALSE)]
        if other or len(falses) != 1 or not trues:
            if not other and mine and (not falses or not trues):
                ctx.bad("zero-test", C, "always answers %s" % bool(trues), f.where)
            else:
                ctx.und("zero-test", C, "%d returns" % len(mine))
            continue
        e, g = falses[0]
        if any(any(x.op == "iter" for x in gg) for _, gg in trues):
            ctx.bad("zero-test", C, "answers True before all stored entries were compared", trues[0][0].where)
            continue
        its = [x.args[0] for x in g if x.op == "iter"]
        conds = [x for x in g if x.op != "iter"]
        if len(conds) != 1 or len(its) != 2:
            ctx.und("zero-test", C, str(g))
            continue
        rows = T.unver(T.strip(it.loopinfo[its[0]]["iter"]))
        cols = T.unver(T.strip(it.loopinfo[its[1]]["iter"]))
        row, k = mk("elem", rows, its[0]), mk("elem", cols, its[1])
        rows_ok = rows.op == "call" and str(rows.args[0]) == "range" and len(rows.args[1]) == 1
        el = [x for x in subterms(conds[0]) if x.op == "elem"]
        rowel = next((x for x in el if x.args[0] is rows), None)
        kel = next((x for x in el if x.args[0] is cols), None)
        if not rows_ok or kel is None:
            ctx.und("zero-test", C, "%s / %s" % (rows, cols))
            continue
        re_ = [x for x in subterms(cols) if x.op == "elem" and x.args[0] is rows]
        rowel = rowel or (re_[0] if re_ else None)
        rng = mk("call", "range", (mk("idx", P, rowel), mk("idx", P, T.add(rowel, const(1)))), (), None) if rowel is not None else None
        n = T.strip(rows.args[1][0])
        nn = T.rebuild(n, lambda x: sym("#N") if x.op == "attr" and x.args[1] in ("size",) and x.args[0] is s or
                       x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" else x)
        ctx.tri(True if cols is rng and nn is sym("#N") else (False if cols.op == "call" and str(cols.args[0]) == "range" and len(cols.args[1]) == 2
                and all(x.op == "idx" and x.args[0] is P for x in cols.args[1]) and rowel is not None or T.sub(nn, sym("#N")).op == "const" and nn is not sym("#N") else None),
                "zero-test", C + " / all stored entries", "the entries compared are %s for rows %s" % (cols, rows), e.where, "%s / %s" % (rows, cols))
        c = conds[0]
        inner = c.args[0] if c.op == "not" else c
        if inner.op == "call" and str(inner.args[0]) in ("numpy.allclose", "numpy.isclose", "math.isclose"):
            a = [T.strip(flds.case(x, s, scalar)) for x in inner.args[1][:2]]
            p1, p2 = mk("attr", s, "p1"), mk("attr", s, "p2")
            want = T.mul(p1, p2) if scalar else T.mul(mk("idx", p1, rowel), mk("idx", p2, mk("idx", I, kel)))
            d = mk("idx", D, kel)
            ok = set(a) == {d, want} and c.op == "not"
            close = d in a and entries_only(a[1 - a.index(d)], s) if d in a else False
            seen = all(x.op in ("idx", "attr", "poly", "sym", "const", "self", "obj", "elem", "call", "inst", "inv") for y in a for x in subterms(y))
            ctx.tri(True if ok else (False if d in a and seen else None), "zero-test", C + " / compared with", "%s is %s" % (c, " vs ".join(map(str, a))), e.where, str(c))
        else:
            ctx.und("zero-test", C, str(c))


def dense_zero_test(ctx):
    """the dense test for S = 0 looks at the size of the entries, not at their sign"""
    prog = ctx.prog
    done = set()
    for cls in prog.subclasses("BaseClustering"):
        f = cls.find("_check_if_S_is_zero")
        if f is None or f in done or _is_sparse(prog, cls):
            continue
        done.add(f)
        it = Interp(prog)
        s = it.new_instance(cls)
        r = it.run(f, selft=s)
        ctx.saw(it)
        C, S = "%s._check_if_S_is_zero" % cls.name, mk("attr", s, "_S")
        v, ok = T.strip(r.value), None
        ab = ("abs", "numpy.abs", "numpy.absolute", "numpy.fabs")
        mx = (".max", "numpy.max", "numpy.amax", "max")
        al = (".all", "numpy.all", "all")
        an = (".any", "numpy.any", "any")

        def size(x):
            """max |S| -> True; max S or min S -> False"""
            x = T.strip(x)
            if x.op == "call" and x.args[1] and str(x.args[0]) in mx:
                y = T.strip(x.args[1][0])
                if y.op == "call" and str(y.args[0]) in ab and T.strip(y.args[1][0]) is S:
                    return True
                if y is S:
                    return False
            if x.op == "call" and x.args[1] and str(x.args[0]) in (".min", "numpy.min", ".mean", "numpy.mean", ".sum", "numpy.sum", "numpy.trace", ".trace"):
                return False
            if x.op == "call" and x.args[1] and str(x.args[0]) in ab and T.strip(x.args[1][0]) is not S:
                return size(x.args[1][0]) and None if size(x.args[1][0]) is not False else False
            return None
        neg = v.op == "not"
        w = v.args[0] if neg else v
        if w.op in ("lt", "le"):
            a, b = (w.args if not neg else w.args[::-1])
            ok = size(a)
            if size(b) is True:
                ok = False
        elif w.op == "call" and str(w.args[0]) in (al if not neg else an) and w.args[1]:
            c = T.strip(w.args[1][0])
            if c.op in ("lt", "le"):
                a, b = (c.args if not neg else c.args[::-1])
                a = T.strip(a)
                ok = True if a.op == "call" and str(a.args[0]) in ab and T.strip(a.args[1][0]) is S else (False if a is S else None)
        elif w.op == "call" and str(w.args[0]) in (al if neg else an):
            ok = False if S in subterms(w) else None
        ctx.tri(ok, "zero-test", C, "S counts as zero when `%s`" % v, f.where, str(v))


def one_row(ts, k):
    """SUM over the one-element list [k] -> the element itself"""
    out = {}
    for (mono, conds, doms), c in ts.items():
        single = [d for d, n in doms if n == 1 and ((d.op == "obj") or (d.op == "contents" and d.args[1].op == "seq" and len(d.args[1].args) == 1)
                                                   or (d.op == "seq" and len(d.args) == 1))]
        if single:
            d0 = single[0]
            m = {mk("elem", d0, 0): k}
            mono = tuple(sorted((T.subst(x, m) for x in mono), key=lambda z: z.n))
            conds = tuple(sorted((T.subst(x, m) for x in conds), key=lambda z: z.n))
            doms = tuple(sorted(((T.subst(d, m), n) for d, n in doms if d is not d0), key=lambda z: z[0].n))
        out[(mono, conds, doms)] = out.get((mono, conds, doms), 0) + c
    return out


def uncopy(t):
    t = T.strip(t)
    while t.op == "call" and str(t.args[0]) in (".copy", "numpy.copy", "numpy.array", "numpy.asarray", "copy.copy", "copy.deepcopy", ".tocsr", ".astype") and t.args[1]:
        t = t.args[1][0]
    return t


def defaults(ctx):
    """weights that are given are used as given; defaults are the uniform density and its image under T"""
    prog = ctx.prog
    seen = set()
    for cls in prog.subclasses("BaseClustering"):
        f = cls.find("__init__")
        if f is None or f in seen or not {"T", "p1", "p2", "S"} <= set(f.params()):
            continue
        seen.add(f)
        for case in ("given", "defaults"):
            it = Interp(prog, opaque=lambda fi: fi.name in ("_compute_S",) or fi.name.startswith("_find") or fi.cls is not None and fi.cls.name == "Partition"
                        or fi.name.startswith("_init") or fi.name.startswith("_set_"))
            s = it.new_instance(cls)
            st = State()
            given = {"T": True, "p1": case == "given", "p2": case == "given", "S": case == "given"}
            for n, g in given.items():
                c = T.cmp_("is", sym(n), NONE)
                st.assume(not_(c) if g else c)
            a = {n: sym(n) if g else NONE for n, g in given.items()}
            r = it.run(f, selft=s, args=a, st=st)
            ctx.saw(it)
            C = "%s.__init__ / %s" % (cls.name, case)
            h = {n: r.st.heap.get((s, n)) for n in ("T", "p1", "p2", "_S")}
            if h["p1"] is None or h["p2"] is None:
                ctx.und("weights", C, "fields not set")
                continue
            if case == "given":
                for n, w in (("p1", "p1"), ("p2", "p2"), ("T", "T"), ("_S", "S")):
                    if h[n] is None:
                        ctx.und("weights", C + " " + n, "")
                        continue
                    for _, v in T.cases(h[n]) or [((), h[n])]:
                        v = uncopy(v)
                        ctx.tri(True if v is sym(w) else (False if v.op == "sym" or v.op == "poly" and sym(w) in subterms(v) else None), "weights", C + " " + n,
                                "%s of the object is %s" % (n, v), f.where, str(v))
            else:
                for _, v in T.cases(h["p1"]) or [((), h["p1"])]:
                    ctx.tri(uniform(v), "weights", C + " p1", "the default weights are %s" % T.strip(v), f.where, str(v))
                p1 = T.strip(h["p1"])
                for _, v in T.cases(h["p2"]) or [((), h["p2"])]:
                    ctx.tri(image(v, p1), "weights", C + " p2", "the default weights at the end of the interval are %s" % T.strip(v), f.where, str(v))
    cls = prog.cls("SparseAutocovMat")
    for name in ("from_T", "from_T_forward"):
        f = cls.find(name)
        if f is None or not {"T", "p1", "p2"} <= set(f.params()):
            continue
        for g1, g2 in ((True, True), (True, False), (False, True), (False, False)):
            it = CsrInterp(prog, opaque=lambda fi: fi.name in ("__init__", "inplace_diag_matmul_csr", "inplace_csr_matmul_diag"))
            it.scal, it.val = [], {}
            st = State()
            for n, g in (("p1", g1), ("p2", g2)):
                c = T.cmp_("is", sym(n), NONE)
                if g:
                    st.assume(not_(c))
            r = it.run(f, args={f.params()[0]: mk("cls", cls), "p1": sym("p1") if g1 else NONE, "p2": sym("p2") if g2 else NONE}, st=st)
            ctx.saw(it)
            C = "SparseAutocovMat.%s / p1 %s, p2 %s" % (name, "given" if g1 else "left out", "given" if g2 else "left out")
            for _, leaf in T.cases(T.strip(r.value)) or []:
                if leaf.op != "call" or not str(leaf.args[0]).startswith("cls:"):
                    ctx.und("weights", C, str(leaf))
                    continue
                b = {k: T.strip(v) for k, v in ctor(cls, leaf).items()}
                v1, v2 = b.get("p1", NONE), b.get("p2", NONE)
                ok1 = as_given(v1, "p1") if g1 else uniform(v1)
                ctx.tri(ok1, "weights", C + " p1", "the weights are %s" % v1, f.where, str(v1))
                if name == "from_T_forward":
                    ok2 = as_given(v2, "p1") if g1 else uniform(v2)
                    if v1 is v2 and ok1 is None:
                        ok2 = None
                else:
                    ok2 = as_given(v2, "p2") if g2 else image(v2, v1)
                ctx.tri(ok2, "weights", C + " p2", "the weights at the end are %s" % v2, f.where, str(v2))
                if name == "from_T_forward":
                    # the weights that divide: p2 as given, or the image of the weights used
                    PT = it.current(b.get("PT", NONE))
                    want = None
                    for x in subterms(PT):
                        if x.op == "matmul" and sym("T") in [uncopy(z) for z in x.args] and \
                                any(uncopy(z) is sym("p1") or "numpy.ones" in str(z) and not any(y.op == "matmul" for y in subterms(z)) for z in x.args):
                            want = image(x, T.strip(b.get("p1")) if g1 else None)
                    names = {x for x in subterms(PT) if x.op == "sym" and x in (sym("p1"), sym("p2"))}
                    if g2:
                        ctx.tri(True if sym("p2") in names and want is None else None, "divisor", C, "", f.where, str(PT)[:200])
                    else:
                        ctx.tri(True if want and sym("p2") not in names else (False if want is False else None), "divisor", C,
                                "the image of the weights is computed as %s" % PT, f.where, str(PT)[:200])


def as_given(v, n):
    v = uncopy(v)
    if v is sym(n):
        return True
    if v.op == "idx" and uncopy(v.args[0]).op == "sym" and T.is_const(v.args[1]):
        return False
    return False if v.op == "sym" or v is NONE else None


def uniform(v):
    """is v the uniform density 1/N (a vector of N entries, or its common value)?"""
    v = T.strip(v)
    if v.op == "idx":
        v = T.strip(v.args[0])
    ones = {x for x in subterms(v) if x.op == "call" and str(x.args[0]) in ("numpy.ones", "numpy.full")}
    if not ones:
        if v in (sym("p1"), sym("p2")) or v is NONE:
            return False
        plain = T.rebuild(v, lambda x: sym("#N") if x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" or
                          x.op == "call" and str(x.args[0]) == "len" else x)
        return False if sym("T") in subterms(plain) else None      # a density that depends on the flow is not uniform
    if len(ones) > 1:
        return None
    o, = ones
    n = T.strip(o.args[1][0])
    if n.op in ("tuple", "seq") and len(n.args) == 1:
        n = n.args[0]
    fill = const(1) if str(o.args[0]) == "numpy.ones" else (T.strip(o.args[1][1]) if len(o.args[1]) > 1 else None)
    if fill is None:
        return None
    w = T.subst(v, {o: fill})
    N = sym("#N")

    def size(x):
        if x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and T.is_const(x.args[1]) and T.cval(x.args[1]) in (0, 1):
            return N
        if x.op == "attr" and x.args[1] in ("num_nodes", "size") or x.op == "call" and str(x.args[0]) == "len":
            return N
        return x
    n, w = T.rebuild(n, size), T.rebuild(w, size)
    if n is not N:
        return None
    if {x for x in subterms(w) if x.op in ("sym", "attr", "call", "idx", "phi", "obj")} <= {N}:
        return T.same_rational(w, T.inv(N))
    return None


def image(v, p1):
    """is v = p1 @ T?"""
    v, Tm = T.strip(v), sym("T")
    if v.op == "matmul":
        a, b = v.args
        same = lambda x: True if p1 is None or T.strip(x) is p1 or uncopy(x) is uncopy(p1) else None
        if uncopy(b) is Tm:
            return same(a)
        if a.op == "attr" and a.args[1] == "T" and uncopy(a.args[0]) is Tm:
            return same(b)
        if uncopy(a) is Tm or b.op == "attr" and b.args[1] == "T" and uncopy(b.args[0]) is Tm:
            return False
    elif p1 is not None and uncopy(v) is uncopy(p1) or v is NONE:
        return False
    return None


def container(ctx):
    """SparseAutocovMat keeps the matrix, the weights and a column view of the same matrix"""
    prog = ctx.prog
    cls = prog.cls("SparseAutocovMat")
    f = cls.find("__init__")
    for symm in (True, False):
        it = Interp(prog)
        s = it.new_instance(cls)
        r = it.run(f, selft=s, args={"PT_symmetric": TRUE if symm else FALSE})
        ctx.saw(it)
        C = "SparseAutocovMat.__init__ / %ssymmetric" % ("" if symm else "not ")
        h = {n: r.st.heap.get((s, n)) for n in ("PT", "p1", "p2", "PTcsc", "p1p2")}
        for n in ("PT", "p1", "p2"):
            v = uncopy(h[n]) if h[n] is not None else None
            ctx.tri(None if v is None else (True if v is sym(n) else (False if v.op == "sym" else None)), "stored", C + " " + n,
                    "%s of the object is %s" % (n, v), f.where, str(v))
        v = T.strip(h["PTcsc"]) if h["PTcsc"] is not None else NONE
        base = v
        tocsc = False
        while base.op == "call" and str(base.args[0]) in (".tocsc", ".copy", "scipy.sparse.csc_matrix", "csc_matrix") and base.args[1]:
            tocsc = tocsc or "csc" in str(base.args[0])
            base = base.args[1][0]
        isPT = base is sym("PT") or base is mk("attr", s, "PT")
        if symm:
            ctx.tri(True if isPT else (False if base.op == "attr" and base.args[1] == "T" and not 1 else None), "column-view", C, "", f.where, str(v))
        else:
            ctx.tri(True if isPT and tocsc else (False if isPT or base.op == "attr" and base.args[1] == "T" and tocsc else None), "column-view", C,
                    "the column-wise view of a non-symmetric matrix is %s" % v, f.where, str(v))
        for cs, v in T.cases(T.strip(h["p1p2"])) or [] if h["p1p2"] is not None else []:
            if v.op in ("poly",):
                ctx.tri(True if T.poly(v) == T.poly(T.mul(sym("p1"), sym("p2"))) else False, "scalar-product", C, "p1p2 is %s" % v, f.where, str(v))
