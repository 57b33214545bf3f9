"""P30 rounding removes exactly what the tolerance says."""
from __future__ import annotations
import ast
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms
from .. import terms as T
from ..csr import decide, resolve, Unknown
from ..engine import State
from ..model import AnalysisBroken
from . import timelib
from .timelib import interp

MIN_OBLIGATIONS = 20
RULE = """
set_to_zeroes and set_to_ones are interpreted for every representation and
every combination of their options: under each combination exactly one store
changes the stored entries, its condition is the comparison the options ask for
(entry or its absolute value, with the tolerance or the tolerance times the
largest absolute entry), nothing is changed or evaluated for tol=None and for
matrices without entries, and the rounded entries are removed.  Every call in
the package hands over its caller's tolerance, and a difference of matrices is
rounded by absolute value.
"""
NAME = "set_to_zeroes"


def cname(x):
    return str(x.args[0]) if x.op == "call" else None


def call(n, *a):
    return mk("call", n, tuple(a), (), None)


def canon(t, data):
    """abs(data), maxabs(data) in one form; numpy functions and methods alike"""
    A, MX, MN, MA = mk("abs", data), mk("max", data), mk("min", data), mk("maxabs")

    def f(x):
        if x.op == "contents":
            return x.args[1]
        if x.op == "call" and x.args[1]:
            c, a = cname(x), x.args[1]
            if c in ("numpy.abs", "abs", "numpy.absolute", "numpy.fabs", ".__abs__"):
                if a[0] == data:
                    return A
                if a[0].op in ("seq", "tuple", "list") and set(a[0].args) == {MX, MN}:
                    return mk("absends")
                if a[0] in (MX, MN):
                    return mk("absof", a[0])
            if c in (".max", "numpy.max", "numpy.amax", "max") and len(a) == 1:
                if a[0] == data:
                    return MX
                if a[0] in (A, mk("absends")):
                    return MA
                if a[0].op in ("seq", "tuple", "list") and set(a[0].args) in ({mk("absof", MX), mk("absof", MN)}, {MX, T.mul(const(-1), MN)}):
                    return MA
            if c == "max" and len(a) == 2 and set(a) in ({mk("absof", MX), mk("absof", MN)}, {MX, T.mul(const(-1), MN)}):
                return MA
            if c in (".min", "numpy.min", "numpy.amin", "min") and len(a) == 1 and a[0] == data:
                return MN
            nm = c.rsplit(".", 1)[-1]
            if nm in ("mean", "median", "sum", "min", "std", "average", "nanmean", "prod", "ptp", "var") and len(a) == 1 and not x.args[2] and a[0] in (data, A, mk("absends")):
                return mk("stat", nm, a[0])
            if c in ("numpy.asarray", "numpy.array") and len(a) == 1:
                return a[0]
        return x
    return T.rebuild(T.strip(t), f)


def stores(it, data):
    return [e for e in it.events if e.kind == "setitem" and T.strip(e.d["base"]) == data]


def options(ctx, lab, it, X, f, tol, rel, ab, facts):
    """facts(size, extra) -> atom"""
    data = mk("attr", X, "data")
    size = mk("attr", data, "size")
    sizes = {size, call("len", data), mk("attr", X, "nnz"), call(".getnnz", X), mk("idx", mk("attr", data, "shape"), const(0))}

    def atom_for(r, a, empty, none):
        def atom(c):
            if c == rel:
                return r
            if c == ab:
                return a
            if c == mk("is", tol, NONE):
                return none
            if c in sizes:
                return not empty
            if c.op in ("lt", "le", "eq") and len(c.args) == 2 and any(z in sizes for z in c.args):
                u, v = c.args
                if T.is_const(v) and u in sizes or T.is_const(u) and v in sizes:
                    n = 0 if empty else 1
                    p = n if u in sizes else T.cval(u)
                    q = n if v in sizes else T.cval(v)
                    try:
                        return p < q if c.op == "lt" else (p <= q if c.op == "le" else p == q)
                    except TypeError:
                        return None
            return facts(c)
        return atom

    def on(e, atom):
        vs = [decide(T.strip(g), atom) for g in e.guards]
        return False if False in vs else (None if None in vs else True)

    for r in (True, False):
        for a in (True, False):
            l2 = "%s, %s tolerance, by %s" % (lab, "relative" if r else "absolute", "absolute value" if a else "value")
            atom = atom_for(r, a, False, False)
            hits, unk = [], False
            for e in stores(it, data):
                w = on(e, atom)
                unk = unk or w is None
                if w:
                    hits.append(e)
            if unk or len(hits) > 1:
                ctx.und("rounding", l2, "which store applies is not clear")
                continue
            if not hits:
                other = [e for e in it.events if e.kind in ("setattr", "aug", "mutate") and any(s == X for s in subterms(T.strip(e.d.get("base") or e.d.get("target") or NONE)))
                         and "eliminate" not in str(e.d.get("how")) and "sort_ind" not in str(e.d.get("how"))]
                ctx.tri(None if other else False, "rounding", l2, "nothing is rounded", f.where, "rounded another way")
                continue
            e = hits[0]
            try:
                k = canon(resolve(T.strip(e.d["key"]), atom), data)
            except Unknown as x:
                ctx.und("rounding", l2, str(x))
                continue
            eff = T.mul(tol, mk("maxabs")) if r else tol
            want = mk("le", mk("abs", data) if a else data, eff)
            alts = {want, not_(mk("lt", eff, want.args[0]))}
            ok = k in alts and e.d["value"] in (const(0), const(0.0))
            known = all(s.op in ("abs", "maxabs", "max", "min", "stat", "attr", "sym", "const", "le", "lt", "eq", "not", "poly", "absof", "absends", "and", "or", "inv") or T.is_const(s) for s in subterms(k))
            ctx.tri(True if ok else (False if known else None), "rounding", l2, "entries with %s become %s" % (show(k, data), e.d["value"]), e.where, str(k)[:200])
            el = [x for x in it.events if ((x.kind == "call" and str(x.d["fn"]) == ".eliminate_zeros" and x.d["args"] and T.strip(x.d["args"][0]) == X)
                                           or (x.kind == "mutate" and "eliminate_zeros" in str(x.d.get("how")) and T.strip(x.d["target"]) == X)) and on(x, atom)]
            after = [x for x in el if it.events.index(x) > it.events.index(e)]
            ctx.check(bool(after), "removed", l2, "the rounded entries stay stored", e.where)
    for none, empty in ((True, False), (False, True)):
        if none and not any(mk("is", tol, NONE) in subterms(T.strip(g)) for e in it.events for g in e.guards) and lab.startswith("SparseStochMat."):
            continue
        bad, unk = None, False
        for r in (True, False):
            for a in (True, False):
                atom = atom_for(r, a, empty, none)
                for e in it.events:
                    hit = (e.kind == "setitem" and T.strip(e.d["base"]) == data and none) or e.kind == "raise" or \
                        (e.kind == "call" and str(e.d["fn"]) in (".max", ".min", "numpy.max", "numpy.min", "max", "min", "numpy.amax", "numpy.amin") and e.d["args"] and empty
                         and T.strip(e.d["args"][0]) in (data, mk("abs", data)))
                    if hit:
                        w = on(e, atom)
                        if w:
                            bad = bad or e
                        elif w is None:
                            unk = True
        ctx.tri(False if bad else (None if unk else True), "no effect", "%s, %s" % (lab, "tol is None" if none else "no entries"),
                "with %s: %s is reached" % ("tol=None" if none else "a matrix without entries", bad and (bad.kind + " " + str(bad.d.get("fn", "")))), bad.where if bad else f.where, "not clear")


def show(k, data):
    return str(k).replace(str(data), "x")[:120]


def types(X, yes):
    """isinstance facts: X is exactly of class yes (None: of none)"""
    def facts(c):
        if c.op == "isinst" and c.args[0] == X:
            return any(str(n).split(".")[-1] == yes for n in c.args[1:]) if yes else False
        if c.op == "call" and cname(c).rsplit(".", 1)[-1] in ("isspmatrix_csr", "isspmatrix_csc", "isspmatrix", "issparse") and c.args[1] and c.args[1][0] == X:
            n = cname(c).rsplit(".", 1)[-1]
            if yes is None:
                return False
            return {"isspmatrix_csr": yes == "csr_matrix", "isspmatrix_csc": yes == "csc_matrix"}.get(n, yes in ("csr_matrix", "csc_matrix"))
        return None
    return facts


def run(ctx):
    prog = ctx.prog
    fs = prog.functions(NAME)
    SS = prog.cls("SparseStochMat")
    if not fs or SS is None:
        raise AnalysisBroken("set_to_zeroes or SparseStochMat is missing")
    f = fs[0]
    P = f.params()
    if len(P) < 4:
        raise AnalysisBroken("set_to_zeroes has no options")
    X, tol, rel, ab = [sym(p) for p in P[:4]]
    # the options' names are their roles
    rel, ab, tol = sym("relative"), sym("use_absolute_value"), sym("tol")
    m = SS.find(NAME)
    for kind in ("csr_matrix", "csc_matrix"):
        with ctx.guard("rounding", kind):
            it, r = interp(prog, f, stop=set())
            ctx.saw(it)
            options(ctx, "set_to_zeroes of a %s" % kind, it, X, f, tol, rel, ab, types(X, kind))
    with ctx.guard("rounding", "SparseStochMat"):
        it, r = interp(prog, m, stop=set(), cls=SS)
        ctx.saw(it)
        options(ctx, "SparseStochMat.set_to_zeroes", it, mk("attr", sym("self"), "T_small"), m, tol, rel, ab, lambda c: None)
    with ctx.guard("rounding", "dispatch"):
        dispatch(ctx, prog, f, m, X, tol, rel, ab)
    with ctx.guard("rounding", "set_to_ones"):
        ones(ctx, prog)
    sites(ctx, prog)


def dispatch(ctx, prog, f, m, X, tol, rel, ab):
    it, r = interp(prog, f, stop={NAME})
    facts = types(X, "SparseStochMat")
    for none in (False, True):
        def atom(c):
            return none if c == mk("is", tol, NONE) else facts(c)
        calls, unk = [], False
        for e in it.events:
            if e.kind == "call" and str(e.d["fn"]).split(":")[-1].split(".")[-1] == NAME and e.d["args"] and T.strip(e.d["args"][0]) == X:
                vs = [decide(T.strip(g), atom) for g in e.guards]
                if False in vs:
                    continue
                if None in vs:
                    unk = True
                calls.append(e)
        lab = "set_to_zeroes of a SparseStochMat%s" % (", tol is None" if none else "")
        if none:
            ctx.check(not calls or unk, "no effect", lab, "the matrix is rounded without a tolerance", f.where)
            continue
        if len(calls) != 1 or unk:
            # interpreted inline or not recognised: look at the stores
            ctx.tri(False if not calls and not any(e.kind == "setitem" and any(s == mk("attr", X, "T_small") for s in subterms(T.strip(e.d["base"]))) for e in it.events) else None,
                    "rounding", lab, "nothing is rounded", f.where, "not recognised")
            continue
        e = calls[0]
        got = dict(zip(m.params()[1:], e.d["args"][1:]))
        got.update({k: v for k, v in e.d["kwargs"].items()})
        for p, want in (("tol", tol), ("relative", rel), ("use_absolute_value", ab)):
            v = got.get(p)
            v = T.strip(v) if v is not None else default(m, p)
            ctx.tri(True if v == want else (False if v is None or T.is_const(v) or v.op in ("sym", "not", "const", "poly") or v in (TRUE, FALSE) else None), "rounding", "%s: %s" % (lab, p),
                    "%s is handed over as %s" % (p, v), e.where, str(v))
    bad = types(X, None)
    rs = [e for e in it.events if e.kind == "raise"]
    hit = [e for e in rs if all(decide(T.strip(g), lambda c: False if c == mk("is", tol, NONE) else bad(c)) is not False for g in e.guards)]
    ctx.tri(True if hit else None, "rounding", "set_to_zeroes of something else", "", f.where, "no error raised")


def default(m, p):
    a = m.node.args
    ds = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
    d = ds.get(p)
    return const(d.value) if isinstance(d, ast.Constant) and not isinstance(d.value, bool) else (TRUE if isinstance(d, ast.Constant) and d.value is True else FALSE)


def ones(ctx, prog):
    fs = prog.functions("set_to_ones")
    if not fs:
        ctx.und("rounding", "set_to_ones", "not there")
        return
    f = fs[0]
    it, r = interp(prog, f, stop=set())
    ctx.saw(it)
    X, tol = sym(f.params()[0]), sym("tol")
    data = mk("attr", X, "data")
    hits = stores(it, data)
    if len(hits) != 1:
        ctx.tri(False if not it.events else None, "rounding", "set_to_ones", "nothing is rounded", f.where, "not one store")
        return
    e = hits[0]
    k = T.strip(e.d["key"])
    d1, d2 = T.sub(data, const(1)), T.sub(const(1), data)
    ok = k.op == "le" and k.args[1] == tol and any(k.args[0] == call(n, d) for n in ("numpy.abs", "abs", "numpy.absolute") for d in (d1, d2))
    cl = T.strip(k)
    if cl.op == "call" and cname(cl) == "numpy.isclose":
        ctx.und("rounding", "set_to_ones", "isclose")
        return
    ctx.tri(True if ok and e.d["value"] in (const(1), const(1.0)) and not e.guards else (False if k.op in ("le", "lt") else None), "rounding", "set_to_ones",
            "entries with %s become %s" % (show(k, data), e.d["value"]), e.where, str(k)[:120])


def sites(ctx, prog):
    seen = set()
    stop = timelib.STOP | {NAME}
    for mod in prog.modules.values():
        for f in mod.all_functions():
            if f.name in (NAME, "set_to_ones") or ".scripts." in str(getattr(mod, "name", "")) or "scripts" in f.where:
                continue
            if not any(isinstance(x, ast.Call) and (getattr(x.func, "id", None) == NAME or getattr(x.func, "attr", None) == NAME) for x in ast.walk(f.node)):
                continue
            with ctx.guard("tolerance", f.qual):
                it, r = interp(prog, f, stop=stop, **({"cls": f.cls} if f.cls else {}))
                ctx.saw(it)
                for e in it.events:
                    if e.kind != "call" or str(e.d["fn"]).split(":")[-1].split(".")[-1] != NAME or e.fi is not f:
                        continue
                    site(ctx, it, f, e, seen)


def site(ctx, it, f, e, seen):
    lab = "%s line %s" % (f.qual, e.where.split(":")[1].split(" ")[0] if ":" in e.where else e.where)
    if lab in seen:
        return
    seen.add(lab)
    a = e.d["args"]
    t = e.d["kwargs"].get("tol") if "tol" in e.d["kwargs"] else (a[1] if len(a) > 1 else None)
    own = [sym(p) for p in f.params() if p in ("tol", "rtol")]
    if own:
        t = T.strip(t) if t is not None else None
        ctx.tri(True if t in own else (False if t is None or T.is_const(t) or t.op in ("sym", "poly") else None), "tolerance", lab,
                "rounded with %s instead of the given tolerance" % ("the default" if t is None else t), e.where, str(t))
    r = e.d["kwargs"].get("relative") or (a[2] if len(a) > 2 else TRUE)
    ab = e.d["kwargs"].get("use_absolute_value") or (a[3] if len(a) > 3 else FALSE)
    ctx.tri(True if T.strip(r) is TRUE else (False if T.strip(r) is FALSE else None), "tolerance", lab + " relative", "the tolerance is taken as absolute", e.where, str(r))
    s = signed(it, T.strip(a[0]))
    if s:
        ctx.tri(True if T.strip(ab) is TRUE else (False if T.strip(ab) is FALSE else None), "sign", lab, "a difference of matrices is rounded by value: its negative entries are lost", e.where, str(ab))


def signed(it, x, depth=0):
    """is the matrix a difference?"""
    if depth > 4:
        return False
    if x.op == "poly" or x.op in ("sub",):
        try:
            return any(c < 0 for c in T.poly(x).values())
        except Exception:
            return False
    if x.op == "elem" or x.op in ("idx", "select"):
        b = x.args[0]
        c = b.args[1] if b.op == "contents" else b
        ph = it.phis.get(c)
        if ph is not None:
            k = T.strip(ph.back)
            if k.op == "append":
                return signed(it, T.strip(k.args[1]), depth + 1)
        if c.op == "listof":
            return False
    if x.op == "call" and cname(x) in (".copy", ".tocsr", ".tocsc"):
        return signed(it, x.args[1][0], depth + 1)
    return False
