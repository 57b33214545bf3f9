"""P16 forward and backward analyses follow time in their own direction."""
from __future__ import annotations
import ast
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms, rebuild
from .. import terms as T
from ..engine import Interp, State, Frame
from .. import lin
from ..fwd import kwargs_at
from .timelib import nets, delegates, interp, SELF, STOP, fld
from .chainlib import Seq, seq, chain, item, num, lens, under

MIN_OBLIGATIONS = 30
RULE = """
The methods that multiply the matrices of successive intervals are interpreted
once per time direction and option; the running product found (first matrix,
matrix multiplied in step p, side of the multiplication, number of steps) is
compared with M[0] M[1] ... for forward and M[n-1] M[n-2] ... M[0] for backward
time.  The constructor of the flow integral is interpreted per direction: the
matrices, the times and the integral grid must all run in that direction, grid
times are placed at the last time reached by the flow.  The facade must build
and search the clustering of a direction exactly for the requested directions.
"""
FIC = "FlowIntegralClustering"


def B(x):
    return TRUE if x else FALSE


def run(ctx):
    prog = ctx.prog
    seen = set()
    for c in nets(prog):
        for name, attr in (("compute_transition_matrices", "T"), ("compute_lin_transition_matrices", "T_lin")):
            f = c.find(name)
            if f is None:
                ctx.und("product", "%s.%s" % (c.name, name), "not found")
                continue
            if f in seen:
                continue
            seen.add(f)
            with ctx.guard("product", f.qual):
                products(ctx, f, attr)
    cls = prog.cls(FIC)
    for rev in (False, True):
        with ctx.guard("integral", "%s %s" % (FIC, way(rev))):
            integral(ctx, cls, rev)
    with ctx.guard("facade", "FlowStability"):
        facade(ctx)


def way(rev):
    return "backward" if rev else "forward"


# ------------------------------------------------------------------ products of the network
def products(ctx, f, attr):
    ps = f.params()
    flags = [p for p in ("save_intermediate", "force_csr") if p in ps]
    if "reverse_time" not in ps:
        ctx.und("product", f.qual, "no reverse_time parameter")
        return
    L, S, F = sym("lamda"), sym("t_s"), fld(attr)
    src = mk("idx", fld("inter_" + attr), L)
    if attr == "T_lin":
        src = mk("idx", src, S)
    starts = [[not_(mk("in", L, F))], [not_(mk("in", L, F)), F, not_(mk("eq", mk("call", "len", (F,), (), None), const(0)))]]
    if attr == "T_lin":
        starts.append([mk("in", L, F), not_(mk("in", S, mk("idx", F, L)))])
    for rev in (False, True):
        for bits in range(2 ** len(flags)):
            for tol in ((NONE, None) if "tol" in ps else (NONE,)):
                for si, facts in enumerate(starts):
                    args = {"reverse_time": B(rev)}
                    for i, p in enumerate(flags):
                        args[p] = B(bits >> i & 1)
                    if "tol" in ps and tol is NONE:
                        args["tol"] = NONE
                    st = State()
                    for x in [mk("hasattr", SELF, attr), mk("hasattr", SELF, "inter_" + attr)] + facts + \
                            ([not_(mk("is", sym("tol"), NONE))] if tol is None else []):
                        st.assume(x)
                    lab = "%s %s%s%s%s" % (f.qual, way(rev), "".join(" " + p for i, p in enumerate(flags) if bits >> i & 1),
                                           " tol" if tol is None else "", ("", " other rate present", " rate known")[si])
                    one_product(ctx, f, args, st, rev, src, lab, "inter_" + attr)


def one_product(ctx, f, args, st, rev, src, lab, name):
    it, r = interp(ctx.prog, f, args=args, st=st, stop=STOP | {"sparse_matmul"})
    ctx.saw(it)
    isin = lambda b: any(x.op == "attr" and x.args[1] == name for x in subterms(b)) and not any(x.op == "phi" for x in subterms(b))
    found = []
    for (o, n), v in r.st.heap.items():
        if n != "[]":
            continue
        for _, l in T.cases(T.unver(v)) or []:
            if l.op == "phi":
                c = chain(it, r.st, l, isin)
                found += c
                if not c:
                    skipped(ctx, it, r.st, l, lab, f, "product")
    stochastic(ctx, it, f, lab, name)
    if not found:
        if not any(x.op == "matmul" or (x.op == "call" and "matmul" in str(x.args[0])) for e in it.events for k in ("value", "args", "result") for y in [e.d.get(k)]
                   for t in (y if isinstance(y, (list, tuple)) else [y]) if isinstance(t, T.Term) for x in subterms(t)):
            ctx.bad("product", lab, "no product is computed for a rate that is not there yet", f.where)
            return
        ctx.und("product", lab, "no running product recognised")
        return
    for c in found:
        check_chain(ctx, c, src, rev, lab, f.where)


def is_normal(e):
    return e.kind == "call" and str(e.d["fn"]).rsplit(".", 1)[-1].rsplit(":", 1)[-1] in ("inplace_csr_row_normalize", "inplace_row_normalize") and e.d["args"] and \
        all(T.is_const(v) and T.cval(v) == 1 for v in list(e.d["args"][1:2]) + [v for k, v in e.d["kwargs"].items() if k == "row_sum"])


def scaled(e):
    """row sums other than one, from fields of the clustering"""
    rs = list(e.d["args"][1:2]) + [v for k, v in e.d["kwargs"].items() if k == "row_sum"]
    return [v for v in rs if T.is_const(v) and T.cval(v) != 1 or v.op == "attr" and v.args[0] is SELF and v.args[1] in ("p1", "p2", "num_nodes")]


def stochastic(ctx, it, f, lab, name):
    """every further product, and every matrix small entries were removed from, is normalised"""
    norms = [e for e in it.events if is_normal(e)]
    todo = []
    for e in it.events:
        if e.kind == "call" and str(e.d["fn"]).rsplit(".", 1)[-1].rsplit(":", 1)[-1] == "set_to_zeroes" and e.d["args"]:
            todo.append((e, e.d["args"][0], "rounded"))
        v = e.d.get("value") if e.kind == "setitem" else (e.d["args"][0] if e.kind == "mutate" and e.d["how"] == ".append" and e.d["args"] else None)
        if v is not None and any(g.op == "iter" for g in e.guards) and any(x.op == "matmul" and any(y.op == "attr" and y.args[1] == name for y in subterms(x)) for x in subterms(v)):
            todo.append((e, v, "product"))
    for e, x, what in todo:
        a = T.strip(x)
        after = [m for m in norms if m.n > e.n and set(m.guards) <= set(e.guards)]
        if what == "rounded":
            ok = any(T.strip(m.d["args"][0]) is a for m in after)
            seen = [m for m in after if T.strip(m.d["args"][0]) is not a and m.where.rsplit(" ", 1)[-1] == e.where.rsplit(" ", 1)[-1]]
            ctx.tri(True if ok else (None if seen and not known(a) else False), "stochastic", "%s %s" % (lab, what), "small entries are removed from %s and its rows not normalised" % str(a)[:80], e.where, str(a)[:120])
        else:
            ok = any(T.strip(m.d["args"][0]) is a for m in after)
            inside = [m for m in after if any(g.op == "iter" for g in m.guards)]
            ctx.tri(True if ok else (None if [m for m in inside if not known(T.strip(m.d["args"][0]))] else False), "stochastic", "%s %s" % (lab, what), "the rows of a product are not normalised", e.where, str(a)[:120])


def known(a):
    """a factor of the product"""
    while a.op == "call" and a.args[0] in (".copy", ".tocsr") and a.args[1]:
        a = T.strip(a.args[1][0])
    return a.op in ("idx", "select") and any(x.op == "attr" and str(x.args[1]).startswith("inter_") for x in subterms(a.args[0])) and not any(x.op in ("matmul", "phi") for x in subterms(a))


def check_chain(ctx, c, src, rev, lab, where, rule="product"):
    n = mk("call", "len", (src,), (), None)
    p = mk("pos", c.loop)
    base, i0, _ = c.first
    fb, fi, _ = c.factor
    base, fb = T.strip(base), T.strip(fb)
    ctx.tri(True if base is src and fb is src else False, rule, lab + " matrices", "the product is over %s and %s, expected %s" % (base, fb, src), where)
    if base is not src or fb is not src:
        return
    w0 = T.sub(n, const(1)) if rev else const(0)
    wk = T.sub(T.sub(n, const(2)), p) if rev else T.add(const(1), p)
    ctx.check(T.strip(i0) is T.strip(w0), rule, lab + " first", "the product starts with matrix %s" % i0, where)
    ctx.check(T.strip(fi) is T.strip(wk), rule, lab + " order", "step p multiplies matrix %s" % T.strip(fi), where)
    ctx.check(c.side == "right", rule, lab + " side", "each further matrix is multiplied on the %s" % c.side, where)
    if c.n is None:
        ctx.und(rule, lab + " all", "number of steps unknown")
    else:
        ctx.check(T.strip(c.n) is T.strip(T.sub(n, const(1))), rule, lab + " all", "the product takes %s steps" % c.n, where)


# ------------------------------------------------------------------ the flow integral
def field(r, name):
    for (o, a), v in r.st.heap.items():
        if a == name and T.strip(o) is SELF:
            return v
    return None


def integral(ctx, cls, rev):
    prog = ctx.prog
    f = cls.find("__init__")
    stop = STOP | {"sparse_matmul", "sparse_gram_matrix", "_compute_integral", "inplace_csr_matmul_diag", "inplace_diag_matmul_csr"}
    stop -= {"__init__"}
    TI, TLp, G = sym("T_inter_list"), sym("time_list"), sym("integral_time_grid")
    lab = "%s %s" % (FIC, way(rev))
    st = State()
    st.assume(not_(mk("is", TI, NONE)))
    st.assume(not_(mk("is", TLp, NONE)))
    st.assume(not_(mk("is", G, NONE)))
    it = Interp(prog, opaque=lambda z: z is not f and (z.name in stop or (z.cls is not cls and z.name == "__init__")))
    it.types[SELF] = cls
    r = it.run(f, args={"T_list": NONE, "reverse_time": B(rev)}, st=st)
    ctx.saw(it)
    # matrices
    v = field(r, "T_list")
    n = 0
    if v is not None:
        for _, l in T.cases(T.unver(v)) or []:
            cs = chain(it, r.st, l, lambda b: any(x is TI for x in subterms(b)))
            if not cs:
                skipped(ctx, it, r.st, l, lab, f)
            for c in cs:
                n += 1
                check_chain(ctx, c, TI, rev, lab, f.where, "integral-order")
    if not n:
        ctx.und("integral-order", lab, "no running product recognised in T_list: %s" % v)
    for e in it.events:
        if e.kind == "call" and str(e.d["fn"]).rsplit(".", 1)[-1].rsplit(":", 1)[-1] in ("inplace_csr_row_normalize", "inplace_row_normalize"):
            ctx.tri(True if is_normal(e) else None, "integral-order", lab + " row sums", "", e.where) if is_normal(e) or not scaled(e) else \
                ctx.bad("integral-order", lab + " row sums", "the rows of a transition matrix are made to sum to %s" % scaled(e)[0], e.where)
    # direction recorded
    v = field(r, "reversed_time")
    ctx.tri(None if v is None else (True if v is B(rev) else (False if T.is_const(v) else None)), "integral-direction", lab + " recorded", "reversed_time is %s" % v, f.where, str(v))
    # times
    tl = field(r, "time_list")
    s = seq(T.strip(tl), it, r.st) if tl is not None else None
    TL = T.strip(tl) if tl is not None else None
    direction(ctx, s, TLp, rev, lab + " times", "integral-times", f.where, str(tl))
    # default times
    st2 = State()
    st2.assume(not_(mk("is", TI, NONE)))
    it2 = Interp(prog, opaque=lambda z: z is not f and (z.name in stop | {"_compute_T_list"} or (z.cls is not cls and z.name == "__init__")))
    it2.types[SELF] = cls
    r2 = it2.run(f, args={"T_list": NONE, "reverse_time": B(rev), "time_list": NONE, "integral_time_grid": NONE}, st=st2)
    tl2 = field(r2, "time_list")
    s2 = seq(T.strip(tl2), it2, r2.st) if tl2 is not None else None
    if s2 is None and tl2 is not None:
        s2 = seq(T.unver(tl2), it2, r2.st)
    if s2 is None:
        ctx.und("integral-times", lab + " default times", str(tl2))
    else:
        T_l = field(r2, "T_list")
        want = T.add(mk("call", "len", (T.strip(T_l),), (), None), const(1)) if T_l is not None else None
        okn = T.strip(s2.n) is want or (T.strip(s2.n).op == "poly" and str(T.strip(s2.n)).startswith("(1 + len("))
        first = T.sub(s2.n, const(1)) if rev else const(0)
        ctx.tri(True if s2.base is None and okn and s2.first is first and s2.step == (-1 if rev else 1) else (False if s2.base is None else None),
                "integral-times", lab + " default times", "the default times are %s" % s2, f.where, str(s2))
    default_grid(ctx, it2, r2, lab, f)
    if TL is not None:
        grid(ctx, it, r, TL, G, rev, lab, f)


def skipped(ctx, it, st, l, lab, f, rule="integral-order"):
    """a list of products whose step is not understood in every case: does one of them leave a matrix out?"""
    if l.op == "contents":
        l = l.args[1]
    if l.op == "obj":
        c = st.heap.get((l, "[]"))
        for _, x in T.cases(T.unver(c)) or [] if c is not None else []:
            if x.op == "phi":
                skipped(ctx, it, st, x, lab, f, rule)
        return
    i = None
    for q, j in it.phis.items():
        if T.unver(q) is T.unver(l):
            i = j
    if i is None or i.back is None:
        return
    for cs, b in T.cases(T.unver(i.back)) or []:
        if b.op == "append" and b.args[0] is T.unver(l):
            m = T.strip(under(b.args[1]))
            if m.op in ("idx", "select") and T.strip(m.args[0].args[1] if m.args[0].op == "contents" else m.args[0]) is T.strip(l):
                ctx.bad(rule, lab + " every step", "the product so far is repeated without the next matrix when %s" % ", ".join(map(str, cs)), f.where)
                return
    ctx.und(rule, lab + " every step", "%s" % i.back)


def direction(ctx, s, base, rev, lab, rule, where, shown):
    if s is None or T.strip(s.base if s.base is not None else NONE) is not base:
        ctx.und(rule, lab, shown)
        return
    n = mk("call", "len", (base,), (), None)
    want = (T.sub(n, const(1)), -1, n) if rev else (const(0), 1, n)
    ctx.check((T.strip(s.first), s.step, T.strip(s.n)) == want, rule, lab, "the sequence used is %s" % s, where)


def contents(r, v):
    v = T.unver(v)
    if v.op == "obj":
        return r.st.heap.get((v, "[]"))
    return v


def isTL(x, TL):
    return T.strip(x) is TL


def default_grid(ctx, it, r, lab, f):
    tl = field(r, "time_list")
    TL = T.strip(tl) if tl is not None else None
    for name, want in (("_t_integral_grid", None), ("_k_integral_grid", 1), ("integral_time_grid", None)):
        v = field(r, name)
        c = contents(r, v) if v is not None else None
        c = T.strip(c) if c is not None else None
        if c is None or c.op != "seq":
            ctx.und("integral-grid", "%s default %s" % (lab, name), str(v))
            continue
        a = c.args
        if want is None:
            ok = len(a) == 2 and all(x.op == "idx" for x in a) and all(isTL(x.args[0], TL) for x in a) and num(a[0].args[1]) == 0 and \
                (num(a[1].args[1]) == -1 or lens(a[1].args[1], it, r.st) is T.sub(mk("call", "len", (TL,), (), None), const(1)))
        else:
            ok = len(a) == 2 and num(a[0]) == 0 and T.strip(lens(a[1], it, r.st)) is T.strip(lens(T.sub(mk("call", "len", (TL,), (), None), const(1)), it, r.st))
        known = all(x.op in ("idx", "const", "poly") for x in a)
        ctx.tri(True if ok else (False if known else None), "integral-grid", "%s default %s" % (lab, name), "the default grid is %s" % c, f.where, str(c))


def grid(ctx, it, r, TL, G, rev, lab, f):
    D = sym("%dire")

    def dire(x):
        if x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] in ("mean", "sum", "median") and len(x.args[1]) == 1:
            y = x.args[1][0]
            if y.op == "call" and str(y.args[0]).endswith("diff") and T.strip(y.args[1][0]) is G:
                return D
        if x.op == "idx" and x.args[0] is G and num(x.args[1]) == -1:
            return T.add(mk("idx", G, const(0)), D)
        return x
    v = field(r, "integral_time_grid")
    if v is None:
        ctx.und("integral-grid", lab + " given grid", "not recorded")
        return
    up, down = lin.of_cond(mk("lt", const(0), D)), lin.of_cond(mk("lt", D, const(0)))
    x = rebuild(T.strip(v), dire)
    for nm, reg, flip in (("increasing grid", up, rev), ("decreasing grid", down, not rev)):
        n = 0
        for cs, leaf in T.cases(x) or []:
            sat, vague = lin.possible(cs, reg)
            if sat is False:
                continue
            s = seq(leaf, it, r.st)
            n += 1
            if s is None or s.base is not G or vague:
                ctx.und("integral-grid", "%s %s" % (lab, nm), "%s when %s" % (leaf, cs))
                continue
            ctx.check((s.step == -1) == flip and T.strip(s.n) is mk("call", "len", (G,), (), None), "integral-grid", "%s %s" % (lab, nm),
                      "an %s is taken %s" % (nm, "reversed" if s.step == -1 else "as given"), f.where)
        if not n:
            ctx.und("integral-grid", "%s %s" % (lab, nm), str(x))
    # every grid time: the time placed on and its index
    tg, kg = field(r, "_t_integral_grid"), field(r, "_k_integral_grid")
    for name, g in (("time", tg), ("index", kg)):
        c = contents(r, g) if g is not None else None
        cs = [l for _, l in (T.cases(T.unver(c)) or [])] if c is not None else []
        cs = [l for l in dict.fromkeys(cs) if l.op == "phi"]
        if len(cs) != 1:
            ctx.und("integral-grid", "%s %s" % (lab, name), str(c))
            continue
        i = [i for p, i in it.phis.items() if T.unver(p) is cs[0]][0]
        b = T.unver(i.back)
        if b.op != "append" or b.args[0] is not cs[0]:
            ctx.tri(False if any(z.op == "append" for z in subterms(b)) and b.op == "ite" else None, "integral-grid", "%s %s" % (lab, name),
                    "not every grid time gets an entry", f.where, str(b))
            continue
        val = rebuild(T.strip(b.args[1]), dire)
        if name == "time":
            tval = val
            placed(ctx, val, TL, rev, lab, f, it, r)
        else:
            located(ctx, val, TL, tval if tg is not None else None, lab, f)


def placed(ctx, val, TL, rev, lab, f, it, r):
    first = mk("idx", TL, const(0))
    n = 0
    for cs, leaf in T.cases(val, limit=256) or []:
        t = None
        for c in cs:
            for y in subterms(c):
                if y.op == "elem":
                    t = y
        for y in subterms(leaf):
            if y.op == "elem":
                t = y
        conds = [x for c in cs for x in (c.args if c.op == "and" else (c,))]
        ok = None
        n += 1
        isin = mk("in", t, TL) in conds if t is not None else False
        if t is not None and leaf is t:
            ok = True if isin else (False if not_(mk("in", t, TL)) in conds else None)
        elif leaf is first:
            before = mk("le", first, t) if rev else mk("le", t, first)
            strict = mk("lt", first, t) if rev else mk("lt", t, first)
            ok = True if before in conds or strict in conds else (False if (mk("le", t, first) if rev else mk("le", first, t)) in conds else None)
        elif leaf.op == "call" and str(leaf.args[0]).rsplit(".", 1)[-1] in ("max", "min", "amax", "amin") and leaf.args[1]:
            m = leaf.args[1][0]
            if m.op == "idx" and m.args[0] is TL and m.args[1].op in ("le", "lt"):
                a, b = m.args[1].args
                low, high = a is TL and b is t, a is t and b is TL
                big = "max" in str(leaf.args[0])
                if low or high:
                    ok = (high and not big) if rev else (low and big)
        elif leaf.op == "idx" and leaf.args[0] is TL and num(leaf.args[1]) is not None:
            ok = False if num(leaf.args[1]) != 0 and isin else None
        ctx.tri(ok, "integral-grid", "%s grid time placed, case %d" % (lab, n), "a grid time is placed at %s when %s" % (leaf, [str(c)[:60] for c in conds]), f.where, "%s when %s" % (leaf, cs))
    if not n:
        ctx.und("integral-grid", lab + " grid time placed", str(val))


def located(ctx, val, TL, tval, lab, f):
    q = val
    if q.op == "call" and q.args[0] == "int" and len(q.args[1]) == 1:
        q = q.args[1][0]
    while q.op == "idx" and num(q.args[1]) == 0:
        q = q.args[0]
    ok = None
    if q.op == "call" and str(q.args[0]).rsplit(".", 1)[-1] in ("where", "nonzero", "flatnonzero", "argmax") and q.args[1] and q.args[1][0].op == "eq":
        xs = q.args[1][0].args
        if TL in xs:
            o = xs[0] if xs[1] is TL else xs[1]
            ok = True if o is tval else (False if o.op == "elem" else None)
    elif q.op == "call" and str(q.args[0]).endswith("index") and len(q.args[1]) == 2:
        ok = True if q.args[1][1] is tval else None
    elif q.op == "poly":
        ok = False if any(y.op == "call" and str(y.args[0]).rsplit(".", 1)[-1] in ("where", "nonzero", "flatnonzero", "argmax") for y in subterms(q)) else None
    ctx.tri(ok, "integral-grid", lab + " index of the grid time", "the index recorded is %s" % val, f.where, str(val))


# ------------------------------------------------------------------ facade
def getter(it, cls, name):
    f = Frame(cls.find("__init__"), -1, ())
    return it.getattr(SELF, name, None, State(), f)


def facade(ctx):
    prog = ctx.prog
    cls = prog.cls("FlowStability")
    store = {}
    td = None
    for d in ("forward", "backward"):
        it0 = Interp(prog)
        it0.types[SELF] = cls
        store[d] = getter(it0, cls, "flow_clustering_" + d)
        td = getter(it0, cls, "time_direction")
    f = cls.find("set_flow_clustering")
    it, r = interp(prog, f, stop=STOP | {"__init__"}, cls=cls)
    ctx.saw(it)
    seen = {"forward": [], "backward": []}
    for e in it.events:
        if e.kind != "setitem":
            continue
        d = [k for k in store if T.strip(e.d["base"]) is store[k]]
        if not d:
            continue
        v = T.strip(e.d["value"])
        seen[d[0]].append((e, v))
    for d in ("forward", "backward"):
        built = [(e, v) for e, v in seen[d] if v is not NONE]
        if not built:
            ctx.und("facade", "FlowStability.set_flow_clustering " + d, "no clustering stored")
            continue
        for e, v in built:
            con = [c for c in it.events if c.kind == "construct" and c.d["cls"].name == FIC and c.n < e.n]
            if not con:
                ctx.und("facade", "FlowStability.set_flow_clustering " + d, "no construction of the flow integral before it is stored")
                continue
            c = con[-1]
            for v in (0, 1) if d == "forward" else (-1, 0):
                kw = kwargs_at(it, c, {td: const(v)})
                rt = kw.get("reverse_time")
                if rt is None and "reverse_time" not in kw:
                    rt = FALSE if not c.d["args"] else None
                rt = T.strip(rt) if rt is not None else None
                ctx.tri(None if rt is None or not T.is_const(rt) else T.cval(rt) == (d == "backward"), "facade",
                        "FlowStability.set_flow_clustering %s direction, time_direction=%d" % (d, v),
                        "the %s clustering is built with reverse_time=%s" % (d, rt), c.where, str(rt))
            when(ctx, c.guards, td, d, "FlowStability.set_flow_clustering %s" % d, c.where)
    f = cls.find("find_louvain_clustering")
    it, r = interp(prog, f, stop=STOP | {"__init__"}, cls=cls)
    ctx.saw(it)
    got = {"forward": [], "backward": []}
    for e in it.events:
        if e.kind == "call" and str(e.d["fn"]).endswith("find_louvain_clustering") and e.d["args"]:
            b = T.strip(e.d["args"][0])
            for d in got:
                if any(x is store[d] for x in subterms(b)):
                    got[d].append(e)
    for d in got:
        if not got[d]:
            ctx.und("facade", "FlowStability.find_louvain_clustering " + d, "no search found")
        for e in got[d]:
            when(ctx, e.guards, td, d, "FlowStability.find_louvain_clustering %s" % d, e.where)
    # what is accepted by the setters
    for d in ("forward", "backward"):
        sets = [m for m in setters(cls, "flow_clustering_" + d)]
        if not sets:
            ctx.und("facade", "FlowStability.flow_clustering_%s setter" % d, "not found")
            continue
        g = sets[0]
        it, r = interp(prog, g, stop=STOP | {"__init__"}, cls=cls)
        ctx.saw(it)
        n = 0
        for e in it.events:
            if e.kind == "setitem" and T.strip(e.d["base"]) in store.values() and e.d["value"] is not NONE:
                n += 1
                ctx.check(T.strip(e.d["base"]) is store[d], "facade", "FlowStability.flow_clustering_%s setter stores" % d,
                          "the %s clustering is stored in %s" % (d, e.d["base"]), e.where)
                need = [x for x in e.guards if any(y.op == "attr" and y.args[1] == "reversed_time" for y in subterms(x))]
                pol = None
                for x in need:
                    if x.op == "attr":
                        pol = True
                    elif x.op == "not" and x.args[0].op == "attr":
                        pol = False
                ctx.tri(True if pol is (d == "backward") else (False if pol is not None or not need else None), "facade",
                        "FlowStability.flow_clustering_%s setter accepts" % d, "a clustering of the other direction is accepted", e.where, str(need))
        if not n:
            ctx.und("facade", "FlowStability.flow_clustering_%s setter" % d, "stores nothing")


def setters(cls, name):
    m = cls.props.get(name, {}).get("set")
    return [m] if m is not None else []


def when(ctx, guards, td, d, lab, where):
    """is the code reached for exactly the time directions that include d?"""
    gs = [g for g in guards if any(x is td for x in subterms(T.strip(g)))]
    for v in (-1, 0, 1):
        want = v >= 0 if d == "forward" else v <= 0
        val = TRUE
        for g in gs:
            val = T.and_(val, T.subst(T.strip(g), {td: const(v)}))
        val = T.unver(val)
        if val is TRUE:
            got = True
        elif val is FALSE:
            got = False
        else:
            # remaining parts: success of the steps before
            got = None
            rest = [x for x in (val.args if val.op == "and" else (val,))]
            if all(any(y.op == "attr" and y.args[1] == "reversed_time" for y in subterms(x)) for x in rest):
                got = True
        ctx.tri(None if got is None else got == want, "facade", "%s for time_direction=%d" % (lab, v),
                "time_direction=%d %s the %s analysis" % (v, "includes" if got else "leaves out", d), where, str(val))
