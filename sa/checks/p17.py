"""P17 matrices describe the window and the interval they are attached to."""
from __future__ import annotations
import ast
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms, rebuild
from .. import terms as T
from ..engine import Interp, State
from .. import lin
from ..numeric import vec, NotNumeric
from ..fwd import static_bind, target, calls_to
from .timelib import nets, own, delegates, interp, SELF, fld, norm, window_len, loop_of, neg

MIN_OBLIGATIONS = 40
RULE = """
Every method that fills a per-interval list (laplacians, inter_T, inter_T_lin,
_stationary_trans) is interpreted abstractly; list positions and grid positions
are brought to a common index so that entry k of every list must be the matrix
of [times[k_start+k], times[k_start+k+1]), for the window bounds recorded with
it.  Window bounds are compared with their definition, exponents with
-lamda * tau_k * L_k, window times handed to consumers and files with the
window of the matrices that go with them.
"""
TIMES = fld("times")
KS, KE, TS, TE = (fld(n) for n in ("_k_start_laplacians", "_k_stop_laplacians", "_t_start_laplacians", "_t_stop_laplacians"))


def run(ctx):
    prog = ctx.prog
    cl = nets(prog)
    seen = set()
    for c in cl:
        for name, fn in (("_get_closest_time", closest), ("compute_laplacian_matrices", window), ("compute_inter_transition_matrices", intervals),
                         ("compute_lin_inter_transition_matrices", lin_intervals), ("_compute_stationary_transition", stationary)):
            f = c.find(name)
            if f is None:
                ctx.und("method", "%s.%s" % (c.name, name), "not found")
                continue
            if f in seen:
                continue
            seen.add(f)
            with ctx.guard("interval", f.qual):
                if delegates(f):
                    delegated(ctx, f)
                else:
                    fn(ctx, f)
                    on_demand(ctx, f, name)
    for f in prog.functions("sparse_lapl_expm"):
        with ctx.guard("exponent", f.qual):
            lapl_expm(ctx, f)
    for f in prog.functions("lin_approx_trans_matrix"):
        with ctx.guard("interpolation", f.qual):
            lin_formula(ctx, f)
    with ctx.guard("window-times", "consumers"):
        consumers(ctx)


# ------------------------------------------------------------------ closest time
def on_grid(ctx, f, C, v, p):
    """the result for every position of t relative to a grid of times; False if the expression is not understood"""
    grid = [1, 3, 4, 8]
    bad = {}
    for t in (0.5, 1, 1.4, 2, 2.6, 3, 3.4, 3.6, 4, 5, 7.5, 8, 9.5):
        leaf = lambda x: grid if x is TIMES else t if x is p else None
        try:
            gt, gk = vec(v.args[0], leaf), vec(v.args[1], leaf)
        except NotNumeric:
            return False
        except IndexError as e:
            gt = gk = "an index error"
        k = max([i for i, g in enumerate(grid) if g <= t] or [0])
        if gt != grid[k]:
            bad.setdefault("time", "for t=%s and times %s the time taken is %s, not %s" % (t, grid, gt, grid[k]))
        if gk != k or isinstance(gk, bool):
            bad.setdefault("index", "for t=%s and times %s the index returned is %s, not %s" % (t, grid, gk, k))
    for n in ("time", "index"):
        ctx.check(n not in bad, "closest", C + " " + n, bad.get(n), f.where)
    return True


def closest(ctx, f):
    it, r = interp(ctx.prog, f)
    ctx.saw(it)
    C = f.qual
    v = norm(r.value)
    if v.op != "tuple" or len(v.args) != 2:
        ctx.und("closest", C, str(v))
        return
    if on_grid(ctx, f, C, v, sym(f.params()[1])):
        return
    t, k = v.args
    p = sym(f.params()[1])
    for cs, leaf in T.cases(t) or [((), t)]:
        conds = [x for c in cs for x in (c.args if c.op == "and" else (c,))]
        ok = None
        if leaf is p:
            ok = True if mk("in", p, TIMES) in conds or mk("eq", p, mk("idx", TIMES, const(0))) in conds else None
        elif leaf.op == "idx" and leaf.args[0] is TIMES and T.is_const(leaf.args[1]):
            first = mk("idx", TIMES, const(0))
            under = any(x.op in ("le", "lt") and x.args[0] is p and x.args[1] is first for x in conds)
            ok = True if T.cval(leaf.args[1]) == 0 and under else (False if T.cval(leaf.args[1]) != 0 and under else None)
        elif leaf.op == "call" and leaf.args[0] in (".max", ".min", "max", "min", "numpy.max", "numpy.min", "numpy.amax") and leaf.args[1]:
            m = leaf.args[1][0]
            if m.op == "idx" and m.args[0] is TIMES and m.args[1].op in ("le", "lt"):
                a, b = m.args[1].args
                low = (a is TIMES and b is p)
                high = (a is p and b is TIMES)
                big = "max" in leaf.args[0]
                if low or high:
                    strict = m.args[1].op == "lt"
                    ok = low and big and (not strict or not_(mk("in", p, TIMES)) in conds)
        elif leaf.op == "idx" and leaf.args[0] is TIMES:
            # searchsorted(times, t, side="right") - 1
            q = T.add(leaf.args[1], const(1))
            if q.op == "call" and str(q.args[0]).endswith("searchsorted"):
                ok = True if T.cval(dict(q.args[2]).get("side", const("left"))) == "right" else None
        ctx.tri(ok, "closest", C + " time" + ("" if not cs else " when %s" % (str(cs[-1])[:60])), "the grid time taken for t is %s" % leaf, f.where, str(leaf))
    # index of the returned time
    ok = None
    q = k
    if q.op == "call" and q.args[0] == "int" and len(q.args[1]) == 1:
        q = q.args[1][0]
    while q.op == "idx" and T.is_const(q.args[1]) and T.cval(q.args[1]) == 0:
        q = q.args[0]
    if q.op == "call" and str(q.args[0]).rsplit(".", 1)[-1] in ("where", "nonzero", "flatnonzero", "argmax") and q.args[1] and q.args[1][0].op == "eq":
        xs = q.args[1][0].args
        if TIMES in xs:
            o = xs[0] if xs[1] is TIMES else xs[1]
            ok = True if o is t else (False if o is p else None)
    elif q.op == "call" and str(q.args[0]).rsplit(".", 1)[-1] in ("searchsorted", "get_loc", "index") and len(q.args[1]) == 2:
        o = q.args[1][1]
        side = dict(q.args[2]).get("side")
        ok = True if o is t and (side is None or T.cval(side) == "left") else None
        if o is t and side is not None and T.cval(side) == "right":
            ok = False
    elif k.op in ("poly", "const"):
        ok = False if k.op == "poly" and any("where" in str(m) or "searchsorted" in str(m) for m in subterms(k)) and not "right" in str(k) else None
    ctx.tri(ok, "closest", C + " index", "the index returned is %s" % k, f.where, str(k))


# ------------------------------------------------------------------ laplacian window
def quantity(t):
    """recognisable as a grid time, grid index or closest-time result: certainly another quantity if it differs"""
    return T.is_const(t) or t.op == "sym" or (t.op == "idx" and (t.args[0] is TIMES or "_get_closest_time" in str(t.args[0])))


def window(ctx, f):
    it, r = interp(ctx.prog, f)
    ctx.saw(it)
    C = f.qual
    want = {"_t_start_laplacians": ("t_start", mk("idx", TIMES, const(0)), 0), "_k_start_laplacians": ("t_start", const(0), 1),
            "_t_stop_laplacians": ("t_stop", mk("idx", TIMES, const(-1)), 0),
            "_k_stop_laplacians": ("t_stop", T.sub(mk("call", "len", (TIMES,), (), None), const(1)), 1)}
    last = mk("idx", TIMES, T.sub(mk("call", "len", (TIMES,), (), None), const(1)))
    vals = {}
    for n, (par, dflt, pos) in want.items():
        v = r.st.heap.get((SELF, n))
        if v is None:
            # the receiver may be versioned
            for (o, a), x in r.st.heap.items():
                if a == n and T.strip(o) is SELF:
                    v = x
        if v is None:
            ctx.bad("window", "%s %s" % (C, n), "the window bound is not recorded", f.where)
            continue
        v = norm(v)
        vals[n] = v
        for isnone in (True, False):
            x = T.assume_in(v, mk("is", sym(par), NONE), TRUE if isnone else FALSE)
            ls = [l for _, l in (T.cases(x) or [((), x)])]
            for l in ls:
                if isnone:
                    ok = l is dflt or (n == "_t_stop_laplacians" and l is last)
                    exp = str(dflt)
                    good = ok
                else:
                    good = l.op == "idx" and l.args[0].op == "call" and "_get_closest_time" in str(l.args[0].args[0]) and \
                        l.args[0].args[1][-1] is sym(par) and T.is_const(l.args[1]) and T.cval(l.args[1]) == pos
                ctx.tri(True if good else (False if quantity(l) or (isnone and T.strip(l).op in ("poly", "call") and all(x.op in ("poly", "const", "attr", "sym") or x.op == "call" and x.args[0] == "len" for x in subterms(l))) else None), "window",
                        "%s %s %s" % (C, n, "unset" if isnone else "given"), "%s is %s" % (n, l), f.where, str(l))
    # events replayed for the window
    loops = [e for e in it.events if e.kind == "mutate" and e.d["how"] == ".append" and is_field(it, r, e.d["target"], "laplacians")]
    if not loops:
        ctx.und("window-events", C, "no laplacians collected")
        return
    key = outer_loop(loops[-1])
    li = it.loopinfo.get(key)
    d = T.unver(li["iter"]) if li is not None and li["iter"] is not None else None
    masks = [x for x in subterms(d) if x.op == "idx" and "time_grid" in str(x.args[0])] if d is not None else []
    got = None
    for m in masks:
        cs = conj(m.args[1])
        if cs is not None:
            got = cs
    if got is None:
        ctx.und("window-events", C, str(d))
    else:
        lo, hi = [], []
        for c in got:
            a, b = T.strip(c.args[0]), T.strip(c.args[1])
            if level(a) and not level(b):
                hi.append((c.op, norm(b)))
            elif level(b) and not level(a):
                lo.append((c.op, norm(a)))
        for nm, lst, fieldn, op in (("first", lo, "_t_start_laplacians", "le"), ("last", hi, "_t_stop_laplacians", "lt")):
            if len(lst) != 1:
                ctx.tri(False if not lst else None, "window-events", "%s %s" % (C, nm), "the events replayed have no %s bound" % nm, f.where)
                continue
            o, b = lst[0]
            same = b is vals.get(fieldn) or b is fld(fieldn)
            ctx.tri(None if not same and not quantity_ite(b) else (same and o == op), "window-events", "%s %s" % (C, nm),
                    "events are replayed %s %s" % ("from" if nm == "first" else "up to", "%s%s" % (b, "" if o == op else " (wrong side of the bound)")), f.where, str(b))
    # one laplacian per interval
    inner = [g.args[0] for g in loops[-1].guards if g.op == "iter"]
    ctx.check(len(inner) == 1 and not [g for g in loops[-1].guards if g.op not in ("iter",)], "window-events", C + " one matrix per interval",
              "laplacians are collected under %s" % ([str(g)[:50] for g in loops[-1].guards]), loops[-1].where)


def quantity_ite(t):
    return all(quantity(l) for _, l in (T.cases(t) or [((), t)]))


def outer_loop(e):
    ls = [g.args[0] for g in e.guards if g.op == "iter"]
    return ls[0] if ls else None


def is_field(it, r, tgt, name):
    t = T.unver(tgt)
    if t.op == "attr" and t.args[1] == name:
        return True
    for (o, a), v in r.st.heap.items():
        if a == name and T.unver(v) is t:
            return True
    return any(e.kind == "setattr" and e.d["name"] == name and T.unver(e.d["value"]) is t for e in it.events)


def level(t):
    return any(x.op == "call" and "get_level_values" in str(x.args[0]) and any(T.is_const(a) and T.cval(a) in ("times", 0) for a in x.args[1][1:]) for x in subterms(t))


def conj(m):
    """mask -> comparisons"""
    if m.op in ("le", "lt"):
        return [m]
    if m.op in ("and", "binBitAnd") or (m.op == "call" and str(m.args[0]).endswith("logical_and")):
        xs = m.args[1] if m.op == "call" else m.args
        out = []
        for x in xs:
            c = conj(x)
            if c is None:
                return None
            out += c
        return out
    if m.op in ("not", "invert") and m.args[0].op in ("le", "lt"):
        return [not_(m.args[0])]
    return None


# ------------------------------------------------------------------ intervals
def known_atoms(t, extra=()):
    """built from grid times, laplacians, rate and numbers only"""
    for x in subterms(t):
        if x.op in ("poly", "const", "pos", "inv", "slice", "idx", "attr", "sym", "ite", "and", "not", "is"):
            continue
        if x in extra:
            continue
        if x.op == "call" and str(x.args[0]) in ("max", "min", "numpy.maximum", "numpy.minimum") and len(x.args[1]) == 2 and \
                any(T.is_const(y) and isinstance(T.cval(y), (int, float)) and T.cval(y) > 0 for y in x.args[1]):
            continue               # a length of an interval that is cut off
        if x.op == "call" and str(x.args[0]) in (".toarray", ".todense", ".tocsr", ".tocsc") and T.strip(x.args[1][0]).op == "attr" and T.strip(x.args[1][0]).args[1] == "T":
            continue               # the transposed laplacian
        return False
    return True


def stored_keys(it, r, name):
    """keys under which the lists of a field are stored: (level, key, event)"""
    return [e for e in it.events if e.kind == "setitem" and name in str(e.d["base"])]


def rate_key(ctx, it, f, field):
    """term of the rate that the list is stored under"""
    for e in it.events:
        if e.kind == "setitem" and any(l.op == "attr" and l.args[1] == field for _, l in (T.cases(T.strip(e.d["base"])) or [])):
            return norm(e.d["key"]), e
    for e in it.events:
        if e.kind == "setitem" and field in str(T.strip(e.d["base"])):
            return norm(e.d["key"]), e
    return None, None


LAM, LK = sym("%rate"), "%L"


def expected(lam, j, fixed):
    i = T.add(KS, j)
    tau = const(1.0) if fixed else T.sub(mk("idx", TIMES, T.add(i, const(1))), mk("idx", TIMES, i))
    return T.mul(lam, tau)


def simp_lap(x):
    """laplacians[k] in whichever format -> laplacians[k]"""
    def f(y):
        if y.op == "call" and y.args[0] in (".toarray", ".todense", ".tocsr", ".tocsc", ".copy") and len(y.args[1]) == 1 and is_lap(y.args[1][0]):
            return y.args[1][0]
        return y
    return rebuild(x, f)


def is_lap(y):
    return y.op in ("idx", "select") and y.args[0].op == "attr" and y.args[0].args[1] == "laplacians"


def loop_events(it, ends):
    return [e for e in it.events if e.kind == "mutate" and e.d["how"] == ".append" and any(g.op == "iter" for g in e.guards)]


def check_domain(ctx, it, f, key, C, e):
    li = it.loopinfo.get(key)
    d = li["iter"] if li is not None else None
    w = window_len(d) if d is not None else None
    if w is not None and w[1] is not NONE:
        lo, hi = w
        n = T.sub(hi, lo)
        full = n is T.sub(KE, KS) or (n.op == "call" and n.args[0] == "len" and "laplacians" in str(n))
        ctx.tri(True if full else (False if known_atoms(n) else None), "intervals", C + " all of them",
                "%s matrices are computed for a window of k_stop - k_start intervals" % n, e.where, str(n))
    elif w is not None:
        ctx.bad("intervals", C + " all of them", "matrices are computed for %s" % d, e.where)
    else:
        nd = norm(d) if d is not None else None
        ok = nd is not None and "laplacians" in str(nd)
        ctx.tri(True if ok and nd.op != "idx" else None, "intervals", C + " all of them", "", e.where, str(nd))
    if li is not None and li.get("breaks"):
        ctx.und("intervals", C + " no early end", "loop can be left")


def split(t, lamkey):
    """cases of a per-interval term with the rate replaced by a symbol"""
    t = norm(t)
    if lamkey is not None:
        t = T.subst(t, {lamkey: LAM})
    return T.cases(simp_lap(t)) or [((), t)]


def fix_of(cs):
    for c in cs:
        if c is sym("fix_tau_k"):
            return True
        if c is not_(sym("fix_tau_k")):
            return False
    return None


def intervals(ctx, f):
    it, r = interp(ctx.prog, f)
    ctx.saw(it)
    lam, ke = rate_key(ctx, it, f, "inter_T")
    if lam is None:
        ctx.und("intervals", f.qual, "storage of inter_T not found")
        return
    default_rate(ctx, it, f, lam, ke)
    evs = loop_events(it, None)
    dom = set()
    for e in evs:
        key = loop_of(e)
        C = "%s %s" % (f.qual, kind_of(e))
        if key not in dom:
            dom.add(key)
            check_domain(ctx, it, f, key, f.qual, e)
        for cs, v in split(e.d["args"][0], lam):
            one_interval(ctx, f, it, e, key, cs, v, C)
    if not evs:
        ctx.und("intervals", f.qual, "no per-interval matrices found")
    empty(ctx, it, f)


def kind_of(e):
    g = [str(x)[:40] for x in e.guards if x.op != "iter" and "in(" not in str(x)[:8]]
    return "[%s]" % ", ".join(x for x in g if not x.startswith("not(in("))


def pick_exponent(v):
    """value appended -> list of (kind, exponent term)"""
    out = []
    for x in subterms(v):
        if x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] == "expm" and x.args[1]:
            out.append(("expm", x.args[1][0]))
    return out


def call_name(v):
    return str(v.args[0]).rsplit(":", 1)[-1] if v.op == "call" else ""


def one_interval(ctx, f, it, e, key, cs, v, C):
    fx = fix_of(tuple(cs) + tuple(norm(g) for g in e.guards))
    v2 = v
    while v2.op == "call" and (v2.args[0] in (".tocsr", ".tocsc", ".copy") or str(v2.args[0]).rsplit(".", 1)[-1] in ("csr_matrix", "csc_matrix")) and v2.args[1] and call_name(v2) != "expm":
        v2 = v2.args[1][0]
    nm = call_name(v2)
    label = C + ("" if fx is None else " unit steps" if fx else "")
    if nm == "sparse_lapl_expm":
        fi = next(iter(ctx.prog.functions("sparse_lapl_expm")), None)
        b, miss, extra, star = static_bind(fi, list(v2.args[1]), dict(v2.args[2]))
        L, fact = b.get("L"), b.get("fact")
        exponent = T.mul(T.mul(const(-1), fact), L) if L is not None and fact is not None else None
        de = b.get("dense_expm")
        if "dense_expm" in f.params():
            ctx.tri(True if de is sym("dense_expm") else (False if de is None or T.is_const(de) or de.op == "sym" else None), "intervals", label + " dense_expm",
                    "dense_expm is %s" % de, e.where)
    elif str(v2.args[0]).rsplit(".", 1)[-1] == "expm" if v2.op == "call" else False:
        exponent = v2.args[1][0]
    elif is_identity(v2):
        g = [simp_lap(norm(x)) for x in e.guards]
        hit = None
        for x in g:
            if x.op == "eq" and any("getnnz" in str(y) or ".nnz" in str(y) for y in x.args) and any(is_lap(y) for y in subterms(x)):
                hit = [y for y in subterms(x) if is_lap(y)][0]
        if hit is None:
            ctx.bad("intervals", label, "an identity matrix is stored for an interval", e.where)
        else:
            index_ok(ctx, hit, key, label, e)
        return
    else:
        inner = [x for x in subterms(v2) if x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] in ("expm", "sparse_lapl_expm")]
        if v2.op == "pow" and inner:
            ctx.bad("intervals", label, "the transition matrix of an interval is a power, %s" % v2, e.where)
            return
        ctx.und("intervals", label, str(v2))
        return
    if exponent is None:
        ctx.und("intervals", label, str(v2))
        return
    Ls = {x for x in subterms(exponent) if is_lap(x)}
    if len(Ls) != 1:
        ctx.und("intervals", label, str(exponent))
        return
    L = Ls.pop()
    if not index_ok(ctx, L, key, label, e):
        return
    j = L.args[1]
    for fixed in ((False, True) if fx is None and "fix_tau_k" in f.params() and any(x is sym("fix_tau_k") for x in subterms(exponent)) else (bool(fx),)):
        want = T.mul(T.mul(const(-1), expected(LAM, j, fixed)), L)
        x = T.assume_in(exponent, sym("fix_tau_k"), TRUE if fixed else FALSE)
        d = T.sub(x, want)
        ok = T.is_const(d) and T.cval(d) == 0
        if not ok and floaty(x) is floaty(want):
            ok = True
        ctx.tri(True if ok else (False if known_atoms(x) else None), "intervals", label + " exponent",
                "the exponent of interval k is %s, not -lamda * (times[k_start+k+1] - times[k_start+k]) * L_k" % x, e.where, str(x))


def floaty(t):
    p = T.poly(t)
    return T._from_poly(dict(p))


def is_identity(v):
    n = call_name(v)
    if n.endswith("create_diag"):
        d = dict(v.args[2]).get("diag_val")
        if d is None and len(v.args[1]) > 2:
            d = v.args[1][2]
        return d is None or (T.is_const(d) and T.cval(d) == 1)
    return v.op == "call" and str(v.args[0]).rsplit(".", 1)[-1] in ("eye", "identity", "eye_array")


def index_ok(ctx, L, key, C, e):
    j = L.args[1]
    ok = j is mk("pos", key)
    ctx.tri(True if ok else (False if known_atoms(j) else None), "intervals", C + " laplacian", "interval k uses laplacian %s" % j, e.where, str(j))
    return ok


def empty(ctx, it, f):
    evs = [e for e in it.events if e.kind == "mutate" and e.d["how"] == ".append" and not any(g.op == "iter" for g in e.guards)]
    for e in evs:
        v = T.strip(e.d["args"][0])
        g = [T.strip(x) for x in e.guards]
        none = any(x.op == "eq" and "len(" in str(x) for x in g) or any(x.op == "not" for x in g)
        if not is_identity(v):
            ctx.tri(False if call_name(v).endswith("create_diag") else None, "intervals", f.qual + " no events", "the transition matrix of a window without intervals is %s" % v, e.where, str(v))
            continue
        lens = [x for x in g if any(y.op == "call" and y.args[0] == "len" for y in subterms(x))]
        for n in (1, 2):
            v = [rebuild(x, lambda y: const(n) if y.op == "call" and y.args[0] == "len" else y) for x in lens]
            if none and v and all(x is TRUE for x in v):
                none = False
                ctx.bad("intervals", f.qual + " no events %s" % kind_of(e)[-30:], "a matrix is added to a window of %d interval%s" % (n, "s" * (n > 1)), e.where)
                break
        else:
            ctx.tri(True if none else None, "intervals", f.qual + " no events %s" % kind_of(e)[-30:], "", e.where)


# ------------------------------------------------------------------ linear approximation
def lin_intervals(ctx, f):
    it, r = interp(ctx.prog, f)
    ctx.saw(it)
    lam, ke = rate_key(ctx, it, f, "inter_T_lin")
    if lam is None:
        ctx.und("intervals", f.qual, "storage of inter_T_lin not found")
        return
    default_rate(ctx, it, f, lam, ke)
    dom = set()
    n = 0
    for e in loop_events(it, None):
        key = loop_of(e)
        C = "%s %s" % (f.qual, kind_of(e)[-24:])
        if key not in dom:
            dom.add(key)
            check_domain(ctx, it, f, key, f.qual, e)
        for cs, v in split(e.d["args"][0], lam):
            nm = call_name(v)
            if nm not in ("sparse_lin_approx", "lin_approx_trans_matrix"):
                ctx.und("intervals", C, str(v))
                continue
            n += 1
            fi = next(iter(ctx.prog.functions(nm)), None)
            b, miss, extra, star = static_bind(fi, list(v.args[1]), dict(v.args[2]))
            Tm, t, Pi, ts = (b.get(x) for x in ("T", "t", "Pi", "t_s"))
            fx = fix_of(tuple(cs) + tuple(norm(g) for g in e.guards))
            lab = C + (" unit steps" if fx else "")
            Ls = {x for x in subterms(Tm) if is_lap(x)} if Tm is not None else set()
            if len(Ls) != 1:
                ctx.und("intervals", lab, str(Tm))
                continue
            L = Ls.pop()
            if not index_ok(ctx, L, key, lab, e):
                continue
            rest = T.add(Tm, L)
            ctx.tri(True if is_identity(rest) else (False if Tm is L else None), "intervals", lab + " matrix", "%s is interpolated, not I - L_k" % Tm, e.where, str(Tm))
            want = expected(LAM, L.args[1], bool(fx))
            ok = floaty(t) is floaty(want) if t is not None else None
            ctx.tri(True if ok else (False if t is None or known_atoms(t) else None), "intervals", lab + " time", "the interpolation time of interval k is %s" % t, e.where, str(t))
            if Pi is None:
                ctx.und("intervals", lab + " stationary", "recomputed")
            else:
                okp = Pi.op in ("idx", "select") and Pi.args[0].op == "attr" and Pi.args[0].args[1] == "_stationary_trans"
                ctx.tri(True if okp and Pi.args[1] is L.args[1] else (False if okp and known_atoms(Pi.args[1]) else None), "intervals", lab + " stationary",
                        "the stationary limit of interval k is %s" % Pi, e.where, str(Pi))
            ctx.tri(True if ts is sym("t_s") else (False if ts is None or T.is_const(ts) or ts.op == "sym" else None), "intervals", lab + " t_s", "t_s is %s" % ts, e.where, str(ts))
    if not n:
        ctx.und("intervals", f.qual, "no per-interval matrices found")
    # stored under the rate and the time scale
    ks = [e for e in it.events if e.kind == "setitem" and T.strip(e.d["key"]) is sym("t_s")]
    ctx.tri(True if ks else None, "intervals", f.qual + " stored under t_s", "", f.where)
    empty(ctx, it, f)


def stationary(ctx, f):
    it, r = interp(ctx.prog, f)
    ctx.saw(it)
    n = 0
    for e in loop_events(it, None):
        key = loop_of(e)
        v = simp_lap(norm(e.d["args"][0]))
        C = "%s %s" % (f.qual, kind_of(e))
        for cs, x in T.cases(v) or [((), v)]:
            if call_name(x) not in ("sparse_stationary_trans", "compute_stationary_transition"):
                ctx.und("intervals", C, str(x))
                continue
            n += 1
            a = x.args[1][0] if x.args[1] else None
            Ls = {y for y in subterms(a) if is_lap(y)} if a is not None else set()
            if len(Ls) != 1:
                ctx.und("intervals", C, str(a))
                continue
            L = Ls.pop()
            if index_ok(ctx, L, key, C, e):
                rest = T.add(a, L)
                ctx.tri(True if is_identity(rest) else (False if a is L else None), "intervals", C + " matrix", "the stationary limit of %s is taken, not of I - L_k" % a, e.where, str(a))
        li = it.loopinfo.get(key)
        d = norm(li["iter"]) if li is not None and li["iter"] is not None else None
        lap = mk("attr", SELF, "laplacians")
        full = d is not None and (d is lap or (d.op == "call" and d.args[0] in ("range", "enumerate") and len(d.args[1]) == 1 and
                                              d.args[1][0] in (lap, mk("call", "len", (lap,), (), None))))
        part = d is not None and any(y.op == "idx" and y.args[1].op == "slice" for y in subterms(d)) or d is not None and d.op == "call" and d.args[0] == "range"
        ctx.tri(True if full else (False if part else None), "intervals", C + " all of them", "stationary limits are computed for %s" % d, e.where, str(d))
    if not n:
        ctx.und("intervals", f.qual, "no per-interval matrices found")


def on_demand(ctx, f, name):
    """what is missing is computed first, for the same window and with the same options"""
    pre = {"compute_inter_transition_matrices": ("compute_laplacian_matrices", "laplacians"), "_compute_stationary_transition": ("compute_laplacian_matrices", "laplacians"),
           "compute_lin_inter_transition_matrices": ("_compute_stationary_transition", "_stationary_trans")}.get(name)
    if pre is None:
        return
    need, attr = pre
    st = State()
    st.assume(not_(mk("hasattr", SELF, attr)))
    st.assume(not_(mk("hasattr", SELF, "laplacians")))
    it, r = interp(ctx.prog, f, st=st)
    lab = "%s -> %s" % (f.qual, need)
    cs = [x for x in calls_to(it, {need})]
    ctx.check(bool(cs), "on-demand", lab, "%s are not computed when they are missing" % attr, f.where)
    for ev, fi, b, star in cs:
        for p in fi.params()[1:]:
            if p not in f.params() or star is not None:
                continue
            v = b.get(p)
            l = {x for _, x in T.cases(T.strip(v)) or [((), T.strip(v))]} if v is not None else set()
            ctx.tri(True if l == {sym(p)} else (False if v is None or all(x.op == "sym" or T.is_const(x) for x in l) else None), "on-demand", "%s %s" % (lab, p),
                    "%s is called with %s=%s" % (need, p, "its default" if v is None else v), ev.where, str(v)[:120])


def default_rate(ctx, it, f, key, e):
    """no rate: one over the median interval"""
    if key is None or "lamda" not in f.params():
        return
    L = sym("lamda")
    cs = T.cases(key) or [((), key)]
    none = mk("is", L, NONE)
    dv = [x for c, x in cs if none in c]
    if not dv:
        if key is L:
            ctx.bad("default-rate", f.qual, "no default rate", e.where)
        else:
            ctx.und("default-rate", f.qual, str(key)[:160])
        return
    med = mk("call", "numpy.median", (mk("call", "numpy.diff", (TIMES,), (), None),), (), None)
    for x in dv:
        ok = T.strip(x) is T.strip(T.inv(med))
        near = {y.args[0] for y in subterms(x) if y.op == "call"} <= {"numpy.median", "numpy.diff", "numpy.mean", "numpy.min", "numpy.max", ".mean", ".min", ".max", "min", "max", "len"}
        ctx.tri(True if ok else (False if near else None), "default-rate", f.qual, "without a rate, %s is taken" % x, e.where, str(x)[:160])
    for c, x in cs:
        if none not in c:
            ctx.tri(True if x is L else (False if x.op != "phi" else None), "default-rate", f.qual + " given", "the given rate is replaced by %s" % x, e.where, str(x)[:120])


def delegated(ctx, f):
    """an override that only calls its parent: options keep their role"""
    it, r = interp(ctx.prog, f, stop={f.name})
    ctx.saw(it)
    n = 0
    for ev, fi, b, star in calls_to(it, {f.name}):
        if fi is f:
            continue
        n += 1
        for p in f.params()[1:]:
            v = b.get(p)
            if p not in fi.params():
                continue
            ctx.tri(True if v is sym(p) else (False if v is None or v.op == "sym" or T.is_const(v) else None), "delegation", "%s %s" % (f.qual, p),
                    "%s of the parent's method is %s" % (p, v), ev.where, str(v))
        if "fix_tau_k" in fi.params() and "fix_tau_k" not in f.params():
            v = b.get("fix_tau_k")
            free = v is not None and {x for x in subterms(v) if x.op == "sym"} and all(x.op in ("sym", "not", "const", "is", "eq", "and", "or") for x in subterms(v))
            ctx.tri(True if v is TRUE else (False if v is None or v is FALSE or free else None), "delegation", f.qual + " unit steps",
                    "instantaneous events must use unit time steps, fix_tau_k is %s" % v, ev.where)
    if not n:
        ctx.und("delegation", f.qual, "call of the parent not found")


# ------------------------------------------------------------------ helpers of the exponential
def lapl_expm(ctx, f):
    it, r = interp(ctx.prog, f)
    ctx.saw(it)
    L, fact = sym("L"), sym("fact")
    n = 0

    def small(x):
        def g(y):
            if y.op == "call" and y.args[0] in (".toarray", ".todense", ".tocsr", ".tocsc") and len(y.args[1]) == 1:
                return y.args[1][0]
            return y
        return rebuild(T.strip(x), g)
    exps = []
    for e in it.events:
        if e.kind != "call":
            continue
        nm = str(e.d["fn"]).rsplit(".", 1)[-1].rsplit(":", 1)[-1]
        if nm == "expm" and e.d["args"]:
            exps.append((e, e.d["args"][0]))
        elif nm in ("compute_subspace_expm", "compute_subspace_expm_parallel") or nm == "partial":
            a = e.d["kwargs"].get("A") or (e.d["args"][0] if e.d["args"] and nm != "partial" else None)
            if a is not None:
                exps.append((e, a))
    Ls = None
    for e, a in exps:
        a = small(a)
        n += 1
        p = T.poly(a)
        C = "%s %s" % (f.qual, kind_of(e)[-40:])
        if len(p) == 1:
            (m, c), = p.items()
            ms = list(m)
            other = [x for x in ms if x is not fact]
            sub = other[0] if len(other) == 1 else None
            isL = sub is not None and (sub is L or (sub.op == "idx" and "remove_nnz_rowcol" in str(sub.args[0])))
            ok = c == -1 and len(ms) == 2 and isL
            ctx.tri(True if ok else (False if isL or any(x is L for x in ms) else None), "exponent", C, "the exponent is %s, not -fact * L" % a, e.where, str(a))
        else:
            ctx.und("exponent", C, str(a))
    if not n:
        ctx.und("exponent", f.qual, "no exponential found")


def lin_formula(ctx, f):
    it, r = interp(ctx.prog, f)
    ctx.saw(it)
    Tm, t, Pi, ts = sym("T"), sym("t"), sym("Pi"), sym("t_s")
    v = T.strip(r.value)

    def g(y):
        if y.op == "call" and y.args[0] in (".tocsr", ".tocsc") and len(y.args[1]) == 1:
            return y.args[1][0]
        if y.op == "call" and is_identity(y):
            return sym("%I")
        if y.op == "ite" and y.args[0] is mk("is", Pi, NONE):
            return Pi
        return y
    v = rebuild(v, g)
    one = const(1)
    short = T.add(T.mul(T.sub(one, t), sym("%I")), T.mul(t, Tm))
    mid = T.mul(T.inv(T.sub(one, ts)), T.add(T.mul(Tm, T.sub(t, ts)), T.mul(Pi, T.sub(one, t))))
    n = 0
    held = set()
    for e in it.events:
        if e.kind == "raise" and e.guards:
            held.add(not_(T.strip(e.guards[-1])))
            held.update(T.strip(g) for g in e.guards[:-1] if not any(x is t or x is ts for x in subterms(T.strip(g))))
    pre = lin.of_cond(mk("lt", one, ts)) + lin.of_cond(mk("lt", const(0), t))
    regions = (("t<=1", short, lin.of_cond(mk("lt", t, one))), ("1<t<t_s", mid, lin.of_cond(mk("lt", one, t)) + lin.of_cond(mk("lt", t, ts))),
               ("t>=t_s", Pi, lin.of_cond(mk("lt", ts, t))))
    for cs, leaf in T.cases(v) or []:
        if leaf is NONE:
            continue
        for lab, want, reg in regions:
            sat, vague = lin.possible([c for c in cs if not any(x is Pi for x in subterms(c))], pre + reg, held)
            if sat is False:
                continue
            n += 1
            d = floaty(leaf) is floaty(want) or T.same_rational(leaf, want)
            known = not vague and all(x.op in ("poly", "const", "sym", "inv") for x in subterms(leaf))
            ctx.tri(True if d else (False if known else None), "interpolation", "%s %s" % (f.qual, lab), "for %s the approximation is %s" % (lab, leaf), f.where, str(leaf))
    if not n:
        ctx.und("interpolation", f.qual, str(v))


# ------------------------------------------------------------------ times of the window, elsewhere
def consumers(ctx):
    prog = ctx.prog
    n = 0
    for m in prog.modules.values():
        if "scripts" in m.name:
            continue
        for f in m.all_functions():
            src = ast.unparse(f.node)
            if "_k_start_laplacians" not in src and not ("times" in src and "inter_T" in src) or f.name in ("load", "save", "load_T", "load_inter_T"):
                continue
            if f.name.startswith("compute_") or f.name.startswith("_compute"):
                continue
            with ctx.guard("window-times", f.qual):
                n += consumer(ctx, f)
    if not n:
        ctx.und("window-times", "package", "no consumer of window times found")


def consumer(ctx, f):
    it, r = interp(ctx.prog, f)
    ctx.saw(it)
    n = 0
    for e in it.events:
        if e.kind in ("call", "construct"):
            kw = e.d.get("kwargs") or {}
            pairs = list(kw.items()) if isinstance(kw, dict) else list(kw)
            for k, v in pairs:
                if k == "time_list":
                    n += 1
                    slice_of(ctx, f, v, e, "time_list")
        elif e.kind == "setitem" and T.is_const(e.d["key"]) and "times" in str(T.cval(e.d["key"])) and "_compute" not in str(T.cval(e.d["key"])):
            n += 1
            slice_of(ctx, f, e.d["value"], e, str(T.cval(e.d["key"])))
    return n


def slice_of(ctx, f, v, e, what):
    v = T.strip(v)

    def g(x):
        if x.op == "attr" and x.args[1] == "values":
            return x.args[0]
        if x.op == "call" and x.args[0] in ("list", "numpy.array", "numpy.asarray", ".to_numpy", ".tolist", ".copy") and len(x.args[1]) == 1:
            return x.args[1][0]
        return x
    v = rebuild(v, g)
    C = "%s %s" % (f.qual, what)
    if v.op == "idx" and v.args[1].op == "slice" and v.args[0].op == "attr" and v.args[0].args[1] == "times":
        b = v.args[0].args[0]
        a, z, s = v.args[1].args
        ok = a is mk("attr", b, "_k_start_laplacians") and z is T.add(mk("attr", b, "_k_stop_laplacians"), const(1)) and s is NONE
        ctx.tri(True if ok else (False if all(known_atoms(q) for q in (a, z)) else None), "window-times", C, "times[%s:%s] go with the matrices of the window" % (a, z), e.where, str(v))
    elif v.op == "attr" and v.args[1] == "times":
        ctx.bad("window-times", C, "the times of the whole network go with the matrices of a window", e.where)
    else:
        ctx.und("window-times", C, str(v))
