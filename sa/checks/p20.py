"""P20 the gain reported for a candidate move is the exact change of the objective."""
from __future__ import annotations
from ..terms import mk, sym, const, NONE, TRUE, not_, subterms
from .. import terms as T
from ..engine import Interp, State
from ..model import AnalysisBroken
from ..sums import Sums, show_terms
from .autocov import Fields

MIN_OBLIGATIONS = 12
RULE = """
For every implementation of the gain of moving a node into / out of a cluster
(dense numpy, dense compiled, sparse compiled and sparse pure-Python, with
scalar and with vector null model) the value returned is reduced by abstract
interpretation (inlining through the compiled-module sources) to a normal form
  sum of +-1 * SUM_{j in C} S[k,j] ...
and compared, coefficient by coefficient, with the change of the within-cluster
sum of S.  The row/column traversals and the diagonal lookup of the sparse
kernels are obligations of their own (same matrix for data/indices/indptr, row
bounds respected also for empty rows).
"""

ATTR = {("BaseClustering", "_S"): "SparseAutocovMat", ("BaseClustering", "source_part"): "Partition",
        ("BaseClustering", "partition"): "Partition"}


def eidx(d, i=0):
    return mk("elem", d, i)


def S2(M, i, j):
    return mk("idx", M, mk("tuple", i, j))


def norm_spec(items):
    """[(coef, [doms], [conds], [factors])] -> same key format as Sums.terms"""
    out = {}
    for c, doms, conds, mono in items:
        k = (tuple(sorted(mono, key=lambda z: z.n)), tuple(sorted(conds, key=lambda z: z.n)),
             tuple(sorted(((d, 1) for d in doms), key=lambda z: z[0].n)))
        out[k] = out.get(k, 0) + c
    return out


def dense_spec(sign, M, k, C):
    return norm_spec([(sign, [C], [], [S2(M, k, eidx(C))]), (sign, [C], [], [S2(M, eidx(C), k)]),
                      (1, [], [], [S2(M, k, k)])])


def fields(A):
    return mk("attr", A, "data"), mk("attr", A, "indices"), mk("attr", A, "indptr")


def rowsum(A, k, C, sign):
    D, I, P = fields(A)
    dom = mk("call", "range", (mk("idx", P, k), mk("idx", P, T.add(k, const(1)))), (), None)
    e = eidx(dom)
    return (sign, [dom], [mk("in", mk("idx", I, e), C)], [mk("idx", D, e)])


def diag_atom(A, k):
    return mk("diag", A, k)


def sparse_spec(sign, S, k, C, scalar):
    PT, PTc = mk("attr", S, "PT"), mk("attr", S, "PTcsc")
    p1, p2 = mk("attr", S, "p1"), mk("attr", S, "p2")
    items = [rowsum(PT, k, C, sign), rowsum(PTc, k, C, sign), (1, [], [], [diag_atom(PT, k)])]
    if scalar:
        n = mk("call", "len", (C,), (), None)
        items += [(-2 * sign, [], [], [n, p1, p2]), (-1, [], [], [p1, p2])]
    else:
        items += [(-sign, [C], [], [mk("idx", p1, k), mk("idx", p2, eidx(C))]),
                  (-sign, [C], [], [mk("idx", p1, eidx(C)), mk("idx", p2, k)]),
                  (-1, [], [], [mk("idx", p1, k), mk("idx", p2, k)])]
    return norm_spec(items)


# ----------------------------------------------------------- diagonal lookup
def fold_diag(it, ts, problems):
    """rewrite `data[j] if indices[j] == k` (j found by scanning row k, or summed
    over row k) into PT[k,k]"""
    out = {}
    for (mono, conds, doms), c in ts.items():
        r = _diag(it, mono, conds, doms, problems)
        k2 = r if r is not None else (mono, conds, doms)
        out[k2] = out.get(k2, 0) + c
    return {k: v for k, v in out.items() if v}


def _owner(t):
    return t.args[0] if t.op == "attr" else t


def _alias_index(it, x, j):
    """x == indices[j] maintained as its own loop variable?  -> the indices array"""
    if x.op == "idx" and x.args[1] is j:
        return x.args[0]
    if x.op == "phi" and j.op == "phi":
        a, b = it.phis.get(x), it.phis.get(j)
        if a is None or b is None or a.loop != b.loop or a.init is None or b.init is None:
            return None
        if a.init.op == "idx" and a.init.args[1] is b.init and a.back.op == "idx" \
                and a.back.args[0] is a.init.args[0] and a.back.args[1] is b.back:
            return a.init.args[0]
    return None


def _diag(it, mono, conds, doms, problems):
    ds = [m for m in mono if m.op == "idx" and m.args[0].op == "attr" and m.args[0].args[1] == "data"]
    if len(ds) != 1:
        return None
    D, j = ds[0].args
    rest = tuple(m for m in mono if m is not ds[0])
    A = D.args[0]
    _, I, P = fields(A)
    for c in conds:
        if c.op != "eq":
            continue
        for x, k in (c.args, c.args[::-1]):
            idxarr = _alias_index(it, x, j)
            if idxarr is None:
                continue
            lo, hi = mk("idx", P, k), mk("idx", P, T.add(k, const(1)))
            others = [z for z in conds if z is not c]
            if idxarr is not I:
                problems.append("the column index comes from %s but the value from %s" % (idxarr, D))
                continue
            if j.op == "elem":
                if doms and len(doms) == 1 and doms[0][0] is mk("call", "range", (lo, hi), (), None) and not others:
                    return ((diag_atom(A, k),) + rest, (), ())
                continue
            if j.op != "phi":
                continue
            b = it.phis[j]
            li = it.loopinfo.get(b.loop) or {}
            if b.init is not lo or b.back is not T.add(j, const(1)) or li.get("cond") is None:
                if b.init is not None and b.init.op == "idx" and b.init is not lo:
                    problems.append("the diagonal of row %s is searched from %s" % (k, b.init))
                continue
            cl = li["cond"].args if li["cond"].op == "and" else (li["cond"],)
            inside = {T.cmp_("<", j, hi)}
            lookahead = T.cmp_("<", T.add(j, const(1)), hi)
            bounded = False
            for z in list(others):
                if z in inside:
                    others.remove(z)
                    bounded = True
                elif z is T.cmp_("<", lo, hi):
                    others.remove(z)
                    bounded = bounded or lookahead in cl or any(y in inside for y in cl)
            loop_ok = any(y in inside or y is lookahead for y in cl)
            scan = [y for y in cl if y not in inside and y is not lookahead]
            for z in others:
                dz = T.sub(T.sub(z.args[1], z.args[0]), T.sub(hi, j)) if z.op == "lt" else None
                if dz is not None and T.is_const(dz) and T.cval(dz) < 0:
                    problems.append("a diagonal entry that is the last one of row %s is left out" % k)
            if any(y.op == "le" and y.args[1] is k and _alias_index(it, y.args[0], j) is I for y in scan):
                problems.append("the search for the diagonal of row %s runs past the diagonal entry" % k)
            scan_ok = all((y.op == "lt" and y.args[1] is k and _alias_index(it, y.args[0], j) is I) or
                          (y.op == "not" and y.args[0].op == "eq" and k in y.args[0].args) for y in scan) and scan
            if others or not scan_ok:
                continue
            if not loop_ok:
                problems.append("the search for the diagonal is not bounded by the end of row %s" % k)
                continue
            if not bounded:
                problems.append("for an empty row %s the entry after the row is taken for the diagonal" % k)
            return (tuple(sorted((diag_atom(A, k),) + rest, key=lambda z: z.n)), (), ())
    return None


VOC = ("_S", "PT", "PTcsc", "p1", "p2", "p1p2")


def recognised(ts, spec, S):
    """every factor is a matrix/vector entry of S or a cluster size"""
    for (mono, conds, doms) in ts:
        for m in mono:
            if m.op == "inv":
                m = m.args[0]
            if m.op == "diag":
                continue
            if m.op == "idx" or m.op == "attr":
                if any(x is S for x in subterms(m)) and not any(x.op == "phi" for x in subterms(m)):
                    continue
            if m.op == "call" and m.args[0] == "len":
                continue
            return False, m
        for c in conds:
            if c.op not in ("in", "eq", "lt", "le", "not") or any(x.op == "phi" for x in subterms(c)):
                return False, c
    return True, None


def diff(ts, spec):
    miss = {k: v - ts.get(k, 0) for k, v in spec.items() if ts.get(k, 0) != v}
    extra = {k: v for k, v in ts.items() if k not in spec}
    return miss, extra


def without(ts, k, member):
    """[x != k] f  ==  f - [x == k] f, where x runs over the nodes of the cluster, which has (moving out) or has not
    (moving in) the node k"""
    out = {}

    def put(key, v):
        out[key] = out.get(key, 0) + v
    for (mono, conds, doms), v in ts.items():
        hit = None
        for c in conds:
            e = c.args[0] if c.op == "not" else c
            if e.op == "eq" and k in e.args:
                x = e.args[0] if e.args[1] is k else e.args[1]
                if x.op == "elem" and any(d is x.args[0] for d, n in doms) or x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "indices" and any(
                        y.op == "in" and y.args[0] is x for y in conds):
                    hit = c, x
                    break
        if hit is None:
            put((mono, conds, doms), v)
            continue
        c, x = hit
        rest = tuple(y for y in conds if y is not c)
        if c.op == "not":
            put((mono, rest, doms), v)
        s = -v if c.op == "not" else v
        if not member:
            continue            # k is not in the cluster: no such element
        if x.op == "elem":
            m = {x: k}
            put((tuple(sorted((T.subst(y, m) for y in mono), key=lambda z: z.n)), tuple(sorted((T.subst(y, m) for y in rest), key=lambda z: z.n)),
                 tuple((d, n - 1) if d is x.args[0] else (d, n) for d, n in doms if not (d is x.args[0] and n == 1))), s)
        else:
            keep = tuple(y for y in rest if not (y.op == "in" and y.args[0] is x))
            put((mono, tuple(sorted(keep + (mk("eq", *sorted((x, k), key=lambda z: z.n)) if c.op == "not" else c,), key=lambda z: z.n)), doms), s)
    return {q: v for q, v in out.items() if v}


def compare(ctx, it, ts, spec, S, C, why, where, k=None, member=None):
    if ts is None:
        ctx.und("gain-value", C, why)
        return
    problems = []
    ts = fold_diag(it, ts, problems)
    for p in problems:
        ctx.bad("diagonal-lookup", C, p, where)
    miss, extra = diff(ts, spec)
    if miss or extra:
        ts2 = fold_diag(it, without(ts, k, member), problems)
        m2, e2 = diff(ts2, spec)
        if not m2 and not e2 or len(ts2) != len(ts):
            ts, miss, extra = ts2, m2, e2
    if not miss and not extra:
        ctx.ok("gain-value", C, show_terms(ts))
        return
    if problems:
        return
    ok, what = recognised(ts, spec, S)
    if not ok:
        ctx.und("gain-value", C, "unrecognised factor %s" % what)
        return
    ctx.bad("gain-value", C, "the gain is %s; expected %s" % (show_terms(ts), show_terms(spec)), where)


def emptiness(c, Cs):
    """(cluster, value of c when the cluster is empty) for a test of whether a cluster has nodes"""
    neg = c.op == "not"
    x = c.args[0] if neg else c
    for y in list(subterms(x)):
        if y.op == "call" and str(y.args[0]) in ("array.array", "numpy.array", "list", "set", "sorted") and y.args[1] and y.args[1][-1] in Cs:
            x = T.subst(x, {y: y.args[1][-1]})
    for C in Cs:
        n = mk("call", "len", (C,), (), None)
        if x is n or x is C or x is T.cmp_("<", const(0), n) or x is T.cmp_("<=", const(1), n):
            return C, neg
        if x is T.cmp_("==", n, const(0)) or x is T.cmp_("==", const(0), n) or x is T.cmp_("<", n, const(1)):
            return C, not neg
    return None


def by_emptiness(v, Cs):
    """[(label, empty cluster or None, value)]"""
    tests = {x.args[0]: emptiness(x.args[0], Cs) for x in subterms(v) if x.op == "ite"}
    tests = {c: e for c, e in tests.items() if e is not None}
    if not tests or len({e[0] for e in tests.values()}) != 1:
        return [("", None, v)]
    C = next(iter(tests.values()))[0]
    a = b = v
    for c, (_, val) in tests.items():
        a = T.assume_in(a, c, T.FALSE if val else TRUE)
        b = T.assume_in(b, c, TRUE if val else T.FALSE)
    return [("", None, a), (" / empty cluster", C, b)]


def empty(ts, C):
    """terms with the cluster C empty"""
    n = mk("call", "len", (C,), (), None)
    if ts is None:
        return None
    return {k: v for k, v in ts.items() if n not in k[0] and not any(d[0] is C for d in k[2]) and
            not any(c.op == "in" and c.args[1] is C for c in k[1])}


def variants(value, it):
    """split on the module flags selecting an implementation"""
    gl = sorted({x for x in subterms(value, lambda p: [z for z in (it.phis[p].init, it.phis[p].back) if z is not None]
                                     if p in it.phis else [])
                 if x.op == "glob"}, key=lambda z: z.n)
    flags = [g for g in gl if any(y.op == "ite" and g in (y.args[0],) or y.op == "ite" and y.args[0] is not_(g)
                                  for y in subterms(value))]
    out = [("", value)]
    for g in flags:
        nx = []
        for lab, v in out:
            a, b = T.assume_in(v, g, TRUE), T.assume_in(v, g, T.FALSE)
            nx += [(lab + "[%s]" % g.args[1], a), (lab + "[no %s]" % g.args[1], b)]
        out = nx
    return out


def run(ctx):
    prog = ctx.prog
    flds = Fields(prog)
    methods = [("_compute_delta_stab_moveto", 1), ("_compute_delta_stab_moveout", -1)]
    classes = prog.subclasses("Clustering")
    for cls in classes:
        sparse = _is_sparse(prog, cls)
        for name, sign in methods:
            f = cls.find(name)
            if f is None:
                raise AnalysisBroken("%s.%s not found" % (cls.name, name))
            for alt in ((0, 1) if sparse else (0,)):
                it = Interp(prog, attr_types=ATTR if sparse else {k: v for k, v in ATTR.items() if k[1] != "_S"})
                it.alt = alt
                s = it.new_instance(cls)
                ps = f.params()
                args = {}
                if len(ps) > 3:
                    args[ps[3]] = NONE
                r = it.run(f, args=args, selft=s)
                ctx.saw(it)
                k, c = r.bound[ps[1]], r.bound[ps[2]]
                S = mk("attr", s, "_S")
                parts = [mk("attr", s, "partition"), mk("attr", s, "source_part")]
                Cs = [mk("idx", mk("attr", q, "cluster_list"), c) for q in parts]
                label = "%s.%s" % (cls.name, name) + (" [fallback kernels]" if alt else "")
                # membership guard: the node is (not) a member of the cluster
                sums = Sums(it, r.st)
                for lab, v in variants(sums.prep(r.value), it):
                    if not sparse:
                        for cs, leaf in (T.cases(sums.prep(v)) or [((), v)]):
                            ec = next((emptiness(c, Cs) for c in cs if emptiness(c, Cs)), None)
                            ts = sums.terms(leaf)
                            C = next((q for q in Cs if ts is not None and any(q in subterms(d[0]) for kk in ts for d in kk[2])), Cs[0])
                            spec = dense_spec(sign, S, k, C)
                            if ec is not None and any(emptiness(c, Cs) and emptiness(c, Cs)[1] for c in cs):
                                ts, spec = empty(ts, ec[0]), empty(dense_spec(sign, S, k, ec[0]), ec[0])
                            compare(ctx, it, ts, spec, S, label + lab, sums.why, f.where, k, sign < 0)
                    else:
                        for scalar in (True, False):
                          for elab, E, v2 in by_emptiness(v, Cs):
                            w = flds.case(v2, S, scalar)
                            ts = sums.terms(w)
                            C = E or next((q for q in Cs if ts is not None and any(q in subterms(x) for kk in ts for x in kk[1])), Cs[0])
                            spec = sparse_spec(sign, S, k, C, scalar)
                            if E is not None:
                                ts, spec = empty(ts, E), empty(spec, E)
                            compare(ctx, it, ts, spec, S, label + lab + elab + (" / scalar null model" if scalar else " / vector null model"), sums.why, f.where, k, sign < 0)
    pt_views(ctx)


def _is_sparse(prog, cls):
    init = cls.find("__init__")
    import ast
    return any(isinstance(n, ast.Name) and n.id == "SparseAutocovMat" for n in ast.walk(init.node))


def pt_views(ctx):
    """the column view used by the kernels is the column view of the same matrix"""
    prog = ctx.prog
    cls = prog.cls("SparseAutocovMat")
    it = Interp(prog)
    s = it.new_instance(cls)
    init = cls.find("__init__")
    r = it.run(init, selft=s)
    ctx.saw(it)
    C = "SparseAutocovMat"
    PT = r.st.heap.get((s, "PT"))
    PTc = r.st.heap.get((s, "PTcsc"))
    arg = r.bound.get("PT")
    if PT is None or PTc is None or arg is None:
        ctx.und("column-view", C, "PT / PTcsc not found")
    else:
        symf = r.bound.get("PT_symmetric")
        for cs, v in T.cases(T.strip(PTc)) or []:
            base = T.strip(PT)
            if v.op == "call" and v.args[0] in (".tocsc",) and v.args[1][0] is base:
                ctx.ok("column-view", C + " / converted")
            elif v is base:
                ok = any(c is symf or (c.op == "attr" and c.args[1] == "PT_symmetric") for c in cs)
                ctx.check(ok, "column-view", C + " / symmetric",
                          "the row storage is used as column storage without the matrix being declared symmetric", init.where)
            elif v.op == "call" and v.args[0] in (".tocsr", ".copy") and v.args[1][0] is base:
                ctx.bad("column-view", C, "the column view is row storage: %s" % v, init.where)
            else:
                ctx.und("column-view", C, str(v))
    # rows are sorted (the diagonal search stops at the first larger column)
    sorts = [e for e in it.events if e.kind in ("mutate", "call") and
             (e.d.get("how") == ".sort_indices" or e.d.get("fn") == ".sort_indices")]
    if sorts:
        ctx.ok("sorted-rows", C)
    else:
        ctx.bad("sorted-rows", C, "the rows of the flow matrix are not sorted although the diagonal lookup relies on it", init.where)
    pp = r.st.heap.get((s, "p1p2"))
    p1, p2 = r.bound.get("p1"), r.bound.get("p2")
    ok = None
    if pp is not None and p1 is not None:
        vals = [v for _, v in (T.cases(pp) or []) if v.op not in ("undef",) and not (v.op == "attr")]
        if vals:
            ok = all(v is T.mul(p1, p2) for v in vals)
    if ok is None:
        ctx.und("null-model-product", C, str(pp))
    else:
        ctx.check(ok, "null-model-product", C, "the scalar null model is %s instead of p1*p2" % pp, init.where)
