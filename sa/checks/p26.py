"""P26 every requested time scale is analysed, with its own rate."""
from __future__ import annotations
import ast
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms, rebuild
from .. import terms as T
from .. import lin
from ..engine import Interp, State
from ..fwd import kwargs_at, mapping
from .timelib import SELF, fld
from .chainlib import seq, under
from .p16 import field, contents, setters

MIN_OBLIGATIONS = 15
FS = "FlowStability"
RULE = """
The time-scale setter is interpreted for none, a number, an iterable and
anything else; the steps are interpreted with the time scales opaque.  In every
step the loop must run over all time scales, matrices must be computed with
rate 1/ts (none for none), looked up with the same expression that they were
stored with, and results kept and searched under ts itself.
"""
TS = sym("time_scale")


def run(ctx):
    prog = ctx.prog
    cls = prog.cls(FS)
    for name, g in (("setter", setter), ("getter", getters), ("constructor", constructor), ("set_time_scale", set_time_scale),
                    ("rates", rates), ("clusterings", clusterings), ("search", search)):
        with ctx.guard(name, FS):
            g(ctx, cls)


def interp(prog, cls, f, args=None, st=None, stop=()):
    acc = set()
    for n in ("time_scale", "lamda"):
        x = (cls.props.get(n) or {}).get("set")
        if x is not None:
            acc.add(x)

    def opaque(z):
        if z is f:
            return False
        if z in acc or z.name in stop:
            return True
        return z.cls is None or z.cls is not cls
    it = Interp(prog, opaque=opaque)
    it.types[SELF] = cls
    r = it.run(f, args=args or {}, st=st or State())
    return it, r


# ------------------------------------------------------------------ the setting
def setter(ctx, cls):
    fs = setters(cls, "time_scale")
    if not fs:
        ctx.und("setting", FS + ".time_scale", "no setter")
        return
    f = fs[0]
    p = sym(f.params()[1] if len(f.params()) > 1 else f.params()[-1])
    isnone, isint, isfl, isit, isstr = mk("is", p, NONE), mk("isinst", p, "int"), mk("isinst", p, "float"), mk("isinst", p, "Iterable"), mk("isinst", p, "str")
    isnum = mk("isinst", p, "Number")
    for kind, pos, negs in (("none", [isnone], [isint, isfl, isit, isstr, isnum]), ("number", [isfl, isnum], [isnone, isint, isit, isstr]),
                            ("whole number", [isint, isnum], [isnone, isfl, isit, isstr]),
                            ("iterable", [isit], [isnone, isint, isfl, isstr, isnum]), ("other", [], [isnone, isint, isfl, isstr, isit, isnum])):
        st = State()
        for x in pos:
            st.assume(x)
        for x in negs:
            st.assume(not_(x))
        st.assume(not_(mk("hasattr", p, "__iter__")) if kind != "iterable" else mk("hasattr", p, "__iter__"))
        it = Interp(ctx.prog, opaque=lambda z: z is not f and z.cls is not cls)
        it.types[SELF] = cls
        r = it.run(f, st=st)
        if kind == "iterable":
            ctx.saw(it)
        lab = "%s.time_scale set to %s" % (FS, kind)
        ev = [e for e in it.events if e.kind == "setattr" and T.strip(e.d["base"]) is SELF and e.d["name"] == "_time_scale"]
        if kind == "other":
            rs = [e for e in it.events if e.kind == "raise"]
            ctx.tri(True if not ev and rs else (None if ev else False), "setting", lab, "accepted and ignored", f.where, "accepted")
            continue
        if not ev:
            ctx.und("setting", lab, "not stored in _time_scale")
            continue
        v = T.unver(ev[-1].d["value"])
        c = v
        if v.op == "obj":
            c = contents(r, v)
        if kind == "iterable":
            raw = T.strip(v)
            if raw is p or (raw.op == "call" and str(raw.args[0]) in ("iter", "map", "filter")):
                used = [i for i in it.loopinfo.values() if i.get("iter") is not None and under(T.strip(i["iter"])) in (p, raw)]
                ctx.bad("setting", lab, "the iterable itself is kept: an iterator is used up %s" % ("by the validation" if used else "after the first step"), ev[-1].where)
                continue
            s = seq(v, it, r.st)
            if s is None and v.op == "obj" and c is not None:
                s = seq(c, it, r.st)
            b = under(T.strip(s.base)) if s is not None and s.base is not None else None
            if b is not p:
                x = T.strip(v)
                if x.op in ("idx", "select") and x.args[1].op == "slice" and any(y is not NONE for y in x.args[1].args[:2]):
                    ctx.bad("setting", lab, "only part of the time scales is kept: %s" % x, ev[-1].where)
                elif x.op == "call" and str(x.args[0]) in ("sorted", "set", "frozenset", "reversed", "numpy.unique", "numpy.sort") and x.args[1][0] is p:
                    ctx.bad("setting", lab, "the time scales are not kept in order: %s" % x, ev[-1].where)
                elif x.op == "call" and str(x.args[0]) in ("list", "tuple", "numpy.array", "numpy.asarray") and x.args[1][0] is p:
                    ctx.ok("setting", lab)
                else:
                    why = altered(c, p, it) if c is not None else None
                    if c is not None and any(y.op in ("sortedof", "setof", "reversedof") and p in subterms(y) for y in subterms(T.unver(c))):
                        why = "the time scales are not kept in order: %s" % c
                    if why:
                        ctx.bad("setting", lab, why, ev[-1].where)
                    else:
                        ctx.und("setting", lab, "stored as %s / %s" % (v, c))
            else:
                ctx.check(s.first is const(0) and s.step == 1 and T.strip(s.n) is mk("call", "len", (p,), (), None) or
                          (s.first is const(0) and s.step == 1), "setting", lab, "stored as %s" % s, ev[-1].where)
            uses = [e for e in it.events if e.kind == "call" and str(e.d["fn"]) in ("list", "tuple", "sorted", "iter", "numpy.array", "numpy.asarray", "any", "all", "min", "max", "sum", "set") and
                    e.d["args"] and T.strip(e.d["args"][0]) is p]
            loops = [i for i in it.loopinfo.values() if i.get("iter") is not None and T.strip(i["iter"]) is p]
            n = len(uses) + len(loops)
            ctx.tri(n <= 1, "setting", lab + " read once", "the iterable is read %d times: an iterator is empty the second time" % n, f.where)
            positive(ctx, it, r, f, ev, p)
        else:
            want = NONE if kind == "none" else p
            c = T.strip(c) if c is not None else None
            items = None
            if c is not None and c.op in ("seq", "list", "tuple"):
                items = list(c.args[0]) if c.args and isinstance(c.args[0], tuple) else list(c.args)
            ctx.tri(None if items is None else items == [want], "setting", lab, "stored as %s" % (items,), ev[-1].where, str(c))


def altered(c, p, it):
    """a list filled in a loop over p: elements left out or changed"""
    i = [i for q, i in it.phis.items() if T.unver(q) is T.unver(c)]
    if not i or i[0].back is None or i[0].iter is None or T.strip(i[0].iter) is not p:
        return None
    q, b = T.unver(c), T.strip(i[0].back)
    if b.op == "ite":
        sides = [T.strip(x) for x in b.args[1:]]
        if T.strip(q) in sides:
            cond = T.strip(b.args[0])
            x = cond.args[0] if cond.op == "not" else cond
            if x.op == "elem" or (x.op == "is" and NONE in x.args):
                return "time scales are left out (%s)" % cond
        return None
    return None


def positive(ctx, it, r, f, ev, p):
    """values that are not positive are rejected before anything is stored"""
    rs = [e for e in it.events if e.kind == "raise"]
    comps = []
    for e in it.events:
        for g in e.guards:
            for x in subterms(T.strip(g)):
                if x.op in ("le", "lt") and any(y.op == "const" and T.cval(y) in (0, 0.0) and T.cval(y) is not False for y in x.args):
                    o = [y for y in x.args if not T.is_const(y)]
                    if o and any(y.op == "elem" or y is p for y in subterms(o[0])):
                        comps.append((e, x))
    lab = FS + ".time_scale positive"
    if not comps:
        anyc = [e for e in it.events if e.kind == "call" and str(e.d["fn"]) in ("any", "all", "min", "max", "numpy.any", "numpy.all", "numpy.min")]
        ctx.tri(None if anyc or rs else False, "setting", lab, "values are not checked", f.where, "comparison not found")
        return
    loose = tight = False
    for e, x in comps:
        zero_right = T.is_const(x.args[1])
        if zero_right and x.op == "le" or (not zero_right and x.op == "lt"):
            tight = True
        else:
            loose = True
    ctx.tri(True if tight and not loose else (False if loose and not tight else None), "setting", lab, "zero is accepted as a time scale although its rate is infinite", comps[0][0].where)
    ctx.check(bool(rs), "setting", lab + " rejected", "no error is raised for values that are not positive", f.where)
    if rs:
        ctx.check(not any(e.n < min(x.n for x in rs) and not any(g.op == "not" for g in e.guards) for e in ev), "setting", lab + " before it is stored",
                  "the value is stored before it is checked", f.where)


def getters(ctx, cls):
    g = cls.props["time_scale"]["get"]
    it = Interp(ctx.prog, opaque=lambda z: z is not g and z.cls is not cls)
    it.types[SELF] = cls
    r = it.run(g)
    v = T.strip(r.value)
    S = fld("_time_scale")
    fresh = (v.op == "call" and str(v.args[0]) in ("iter", "list", "tuple") and v.args[1][0] is S) or v is S
    ctx.tri(True if fresh else None, "setting", FS + ".time_scale read", "reading gives %s" % v, g.where, str(v))
    g = cls.props["lamda"]["get"]
    it = Interp(ctx.prog)
    it.types[SELF] = cls
    r = it.run(g)
    v = T.unver(r.value)
    c = contents(r, v) if v.op == "obj" else v
    el = None
    if c is not None and T.unver(c).op == "phi":
        i = [i for q, i in it.phis.items() if T.unver(q) is T.unver(c)]
        if i:
            el = items(i[0].back, T.unver(c))
    if not el:
        ctx.und("rate", FS + ".lamda", str(c))
    for e in el or []:
        ctx.tri(israte(e), "rate", FS + ".lamda", "the rate of a time scale ts is %s" % e, g.where, str(e))


def items(b, phi):
    """values appended in one round, under whatever conditions"""
    b = T.unver(b)
    if b.op == "append" and b.args[0] is phi:
        return [b.args[1]]
    if b.op == "ite":
        x, y = items(b.args[1], phi), items(b.args[2], phi)
        if x and y and len(x) == len(y) == 1:
            return [mk("ite", b.args[0], x[0], y[0])]
    return None


def elems(t):
    return [x for x in subterms(t) if ists(x)]


def ists(x):
    if x.op not in ("elem",):
        return False
    d = T.strip(x.args[0])
    while d.op == "call" and str(d.args[0]) in ("iter", "list", "tuple", "sorted", "enumerate") and d.args[1]:
        d = T.strip(d.args[1][0])
    return d in (fld("time_scale"), fld("_time_scale"))


def unlam(t):
    """elements of the list of rates, paired with the time scales"""
    def g(x):
        if x.op == "elem" and T.strip(x.args[0]) is fld("lamda"):
            e = mk("elem", fld("time_scale"), *x.args[1:])
            return mk("ite", mk("is", e, NONE), NONE, T.inv(e))
        return x
    return rebuild(t, g)


def israte(t):
    """t = 1/ts, or none for none"""
    t = unlam(T.strip(t))
    es = set(T.strip(x) for x in elems(t))
    if len(es) != 1:
        return None if es or not T.is_const(t) else False
    e = es.pop()
    t = T.strip(t)
    nn = mk("is", e, NONE)
    some = T.assume_in(t, nn, FALSE)
    none = T.assume_in(t, nn, TRUE)
    if T.same_rational(some, T.inv(e)):
        if none is NONE:
            return True
        return None if none.op in ("ite", "call") else True         # none is no valid rate to invert; fails as such
    if some.op in ("poly", "inv", "elem") and all(x.op in ("poly", "inv", "const") or x is e or x in e.args or not elems(x) for x in subterms(some)):
        return False
    return None


# ------------------------------------------------------------------ constructor
def constructor(ctx, cls):
    f = cls.find("__init__")
    it = Interp(ctx.prog, opaque=lambda z: z is not f)
    r = it.run(f)
    ctx.saw(it)
    na = f.node.args
    for p in [x.arg for x in na.posonlyargs + na.args + na.kwonlyargs]:
        if p not in cls.props:
            continue
        ev = [e for e in it.events if e.kind == "setattr" and e.d["name"] == p and T.strip(e.d["base"]) is SELF]
        lab = "%s(%s=..)" % (FS, p)
        if not ev:
            ctx.tri(False if not [e for e in it.events if e.kind == "call" and str(e.d["fn"]) == "setattr"] else None, "constructor", lab, "is not passed on to the setting", f.where)
            continue
        v = T.strip(ev[-1].d["value"])
        ctx.tri(True if v is sym(p) else (False if v.op == "sym" or T.is_const(v) else None), "constructor", lab, "%s is set to %s" % (p, v), ev[-1].where, str(v))
        gs = [g for g in ev[-1].guards if g is not not_(mk("is", sym(p), NONE))]
        ctx.tri(True if not gs else (False if any(g is sym(p) for g in gs) else None), "constructor", lab + " always", "%s is only set if it is true" % p, ev[-1].where, str(gs))


def scale_sets(it):
    out = []
    for e in it.events:
        if e.kind == "setattr" and e.d["name"] == "time_scale" and T.strip(e.d["base"]) is SELF:
            out.append((e, T.strip(e.d["value"])))
        elif e.kind == "call" and str(e.d["fn"]).endswith("time_scale.setter") and len(e.d["args"]) == 2:
            out.append((e, T.strip(e.d["args"][1])))
    return out


def set_time_scale(ctx, cls):
    f = cls.find("set_time_scale")
    it, r = interp(ctx.prog, cls, f)
    ctx.saw(it)
    v = sym("value")
    kw = [sym(p) for p in f.params() if p.startswith("**")]
    for e, x in scale_sets(it):
        for cs, leaf in T.cases(x) or []:
            gs = [T.strip(g) for g in e.guards] + [T.strip(c) for c in cs]
            given = not_(mk("is", v, NONE)) in gs
            if given or v in gs:
                ctx.tri(True if leaf is v else (False if leaf is NONE or T.is_const(leaf) else None), "set_time_scale", FS + ".set_time_scale value", "value given but %s set" % leaf, e.where, str(leaf))
                if v in gs and not given:
                    ctx.bad("set_time_scale", FS + ".set_time_scale zero", "a value of zero is taken as not given", e.where)
            elif leaf.op == "call":
                k = dict(leaf.args[2])
                ctx.tri(True if str(leaf.args[0]) == "numpy.logspace" and set(k) == {"**"} and not leaf.args[1] else (False if str(leaf.args[0]).startswith("numpy.") and str(leaf.args[0]) != "numpy.logspace" else None),
                        "set_time_scale", FS + ".set_time_scale logspace", "%s is used" % leaf, e.where, str(leaf))


# ------------------------------------------------------------------ rates
def all_scales(ctx, it, e, lab, allowed=(), known=()):
    """the event happens once for every time scale; returns its loop"""
    loops = [g.args[0] for g in e.guards if g.op == "iter"]
    if len(loops) != 1:
        ctx.und("every-scale", lab, "%d loops" % len(loops))
        return None
    i = it.loopinfo[loops[0]]
    d = i.get("iter")
    if d is None:
        ctx.und("every-scale", lab, "not a for loop")
        return None
    d = T.strip(d)
    if d.op == "call" and str(d.args[0]) == "zip":
        d = d.args[1][0]
    raw = d
    while d.op == "call" and str(d.args[0]) in ("iter", "list", "tuple", "enumerate") and d.args[1]:
        d = T.strip(d.args[1][0])
    ok = d in (fld("time_scale"), fld("_time_scale"))
    if not ok and d.op in ("idx", "select") and d.args[1].op == "slice" and elems(mk("elem", d.args[0], 0)):
        ok = False
    elif not ok:
        ok = None
    brk = [b for b in i.get("break_guards") or [] if FALSE not in b]
    ctx.tri(False if brk and ok else ok, "every-scale", lab, "the loop %s" % ("ends early" if brk else "runs over %s" % raw), e.where, str(raw))
    gs = [T.strip(g) for g in e.guards if g.op not in ("iter", "exc")]
    bad = None
    for g in gs:
        if any(x in allowed for x in subterms(g)):
            continue
        if any(x.op == "elem" for x in subterms(g)):
            bad = g
    ctx.tri(True if bad is None else (False if T.strip(bad) is T.strip(not_(mk("is", T.strip(elems(bad)[0]), NONE))) and False else None) if bad is None or elems(bad) else None,
            "every-scale", lab + " unconditional", "", e.where, str(bad))
    return loops[0]


def rates(ctx, cls):
    prog = ctx.prog
    f = cls.find("compute_inter_transition_matrices")
    it, r = interp(prog, cls, f)
    ctx.saw(it)
    NAMES = {"compute_inter_transition_matrices": False, "compute_lin_inter_transition_matrices": True}
    lab = FS + ".compute_inter_transition_matrices"
    seen = {}
    la = sym("linear_approx")
    for e in it.events:
        if e.kind != "call":
            continue
        nm = str(e.d["fn"]).rsplit(".", 1)[-1].rsplit(":", 1)[-1]
        if nm not in NAMES or (e.d["args"] and T.strip(e.d["args"][0]) is SELF):
            continue
        lin_ = NAMES[nm]
        seen[nm] = e
        L = lab + (" linear" if lin_ else " exact")
        all_scales(ctx, it, e, L, allowed=(la,))
        gs = [T.strip(g) for g in e.guards]
        ctx.tri(True if (la if lin_ else not_(la)) in gs else (False if (not_(la) if lin_ else la) in gs else None), "rate", L + " chosen",
                "%s is called when linear_approx is %s" % (nm, not lin_), e.where, str(gs))
        kw = kwargs_at(it, e)
        if "lamda" not in kw:
            ctx.tri(False if not e.d["args"][1:] else None, "rate", L, "no rate is passed", e.where)
            continue
        if kw["lamda"] is None:
            ctx.und("rate", L, "rate not followed")
            continue
        ctx.tri(israte(kw["lamda"]), "rate", L, "the rate of time scale ts is %s" % T.strip(kw["lamda"]), e.where, str(T.strip(kw["lamda"])))
    for nm in NAMES:
        if nm not in seen:
            ctx.und("rate", "%s %s" % (lab, nm), "not called")
    # what the caller passes goes through
    kwp = [x for x in set(T.strip(e.d["kwargs"]["**"]) for e in it.events if e.kind == "call" and "**" in (e.d["kwargs"] or {}) and isinstance(e.d["kwargs"]["**"], T.Term))]
    through(ctx, it, lab, kwp, {"time_scale", "lamda"})
    # given with the call
    ev = scale_sets(it)
    if not ev:
        ctx.und("rate", lab + " time_scale given", "not stored")
    for e, x in ev:
        for cs, leaf in T.cases(x) or [((), x)]:
            what = "time_scale" if any(z is const("time_scale") for z in subterms(leaf)) else "lamda" if any(z is const("lamda") for z in subterms(leaf)) else None
            if what is None:
                ctx.und("rate", lab + " given", str(leaf))
                continue
            look = [z for z in subterms(leaf) if z.op in ("getor", "idx", "select") and const(what) in z.args or
                    (z.op == "call" and str(z.args[0]) in (".get", ".pop") and const(what) in z.args[1])]
            if not look:
                ctx.und("rate", "%s %s given" % (lab, what), str(leaf))
                continue
            z = look[0]
            want = z if what == "time_scale" else T.inv(z)
            known = all(y.op in ("poly", "inv", "const") or any(y is q for q in subterms(z)) for y in subterms(leaf))
            ctx.tri(True if leaf is want or T.same_rational(leaf, want) else (False if known else None), "rate", "%s %s given" % (lab, what),
                    "the time scale becomes %s" % leaf, e.where, str(leaf))
        first = [c for c in seen.values() if c.n < e.n]
        ctx.check(not first, "rate", lab + " given first", "the time scale is set after the matrices are computed", e.where)
    # linear: remember which
    v = field(r, "_linear_t_s")
    if v is None:
        ctx.und("rate", lab + " t_s", "not remembered")
        return
    g = prog.cls("ContTempNetwork").find("compute_lin_inter_transition_matrices")
    lt = [g] if g is not None else []
    d = default(lt[0], "t_s") if lt else None
    v = T.strip(v)
    on, off = T.assume_in(v, la, TRUE), T.assume_in(v, la, FALSE)
    ctx.tri(True if off is NONE else None, "rate", lab + " exact remembered", "", f.where, str(off))
    dd = None
    if on.op == "call" and str(on.args[0]) in (".get", ".pop") and len(on.args[1]) == 3 and on.args[1][1] is const("t_s"):
        dd = on.args[1][2]
    elif on.op == "getor" and on.args[1] is const("t_s"):
        dd = on.args[2]
    ctx.tri(None if dd is None or d is None or not T.is_const(dd) else T.cval(dd) == d, "rate", lab + " t_s", "without t_s the matrices are computed with %s and looked up with %s" % (d, dd), f.where, str(on))


def default(fi, name):
    a = fi.node.args
    pos = a.posonlyargs + a.args
    for x, dv in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if x.arg == name:
            try:
                return ast.literal_eval(dv)
            except Exception:
                return None
    for x, dv in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name and dv is not None:
            try:
                return ast.literal_eval(dv)
            except Exception:
                return None
    return None


def through(ctx, it, lab, kwp, own):
    """keyword arguments of the caller are not dropped or changed"""
    for e in it.events:
        if e.kind == "call" and str(e.d["fn"]) in (".pop", ".clear", ".popitem") and e.d["args"] and T.strip(e.d["args"][0]) in kwp:
            k = T.strip(e.d["args"][1]) if len(e.d["args"]) > 1 else None
            nm = T.cval(k) if k is not None and T.is_const(k) else None
            used = nm in own
            if not used:
                ctx.tri(None if nm is not None else False, "options", "%s option %s" % (lab, nm), "options of the caller are dropped", e.where, "option %s is taken out" % nm)
    ctx.ok("options", lab + " options")


# ------------------------------------------------------------------ clusterings
def clusterings(ctx, cls):
    prog = ctx.prog
    f = cls.find("set_flow_clustering")
    it, r = interp(prog, cls, f, stop={"__init__"})
    ctx.saw(it)
    lab = FS + ".set_flow_clustering"
    cons = [e for e in it.events if e.kind == "construct" and e.d["cls"].name == "FlowIntegralClustering"]
    lts = None
    for e in cons:
        way = "?"
        loop = all_scales(ctx, it, e, lab, allowed=(fld("_time_direction"), fld("time_direction")))
        kw = kwargs_at(it, e)
        tl = kw.get("T_inter_list")
        if tl is None:
            ctx.und("matrices", lab, "T_inter_list not followed")
            continue
        # the list: every matrix, in order
        mats = T.unver(tl)
        src = None
        if mats.op == "obj":
            c = it.heaplog.get((mats, "[]")) or []
            ph = [T.unver(x) for x in c if T.unver(x).op == "phi"]
            cand = [i for q, i in it.phis.items() if ph and T.unver(q) is ph[-1]]
            if cand:
                b = T.unver(cand[-1].back)
                if b.op == "append" and b.args[0] is ph[-1]:
                    src = b.args[1]
                    info = it.loopinfo.get(cand[-1].loop) or {}
                    if [x for x in info.get("breaks") or [] if x is not FALSE]:
                        src = None
                elif b.op == "ite":
                    ctx.bad("matrices", lab + " all", "matrices are left out when %s" % b.args[0], e.where)
                    continue
        if src is None:
            x = T.strip(mats)
            src = mk("elem", x, 0) if x.op in ("idx", "ite", "select") else None
        if src is None:
            ctx.und("matrices", lab, str(mats))
            continue
        for cs, leaf in split(T.strip(src)):
            leaf = under(leaf)
            if leaf.op != "elem":
                ctx.und("matrices", lab, str(leaf))
                continue
            d = T.strip(leaf.args[0])
            if d.op == "call" and str(d.args[0]) in ("list", "tuple", "iter"):
                d = d.args[1][0]
            for cs2, d in split(d):
                cond = [T.strip(c) for c in tuple(cs) + tuple(cs2)]
                one(ctx, it, e, d, cond, lab)
    if not cons:
        ctx.und("matrices", lab, "no flow clustering is built")
    # stored under the time scale
    stores = {}
    for d in ("forward", "backward"):
        b = fld("_flow_clustering_" + d)
        for e in it.events:
            if e.kind == "setitem" and T.strip(e.d["base"]) is b:
                k = T.strip(e.d["key"])
                v = T.strip(e.d["value"])
                stores.setdefault(d, []).append((e, v))
                L = "%s %s key%s" % (lab, d, " (none)" if v is NONE else "")
                es = elems(k)
                ctx.tri(True if ists(k) else (False if T.is_const(k) or (es and k.op in ("inv", "poly", "ite")) else None), "stored", L, "stored under %s" % k, e.where, str(k))
        # failures
        for h in it.events:
            if h.kind != "handler":
                continue
            inside = [e for e in it.events if e.n > h.n and set(h.guards) <= set(e.guards) and any(g.op == "exc" for g in e.guards)]
            cov = [c for c in cons if c.n < h.n and set(g for g in c.guards if g.op != "exc") == set(g for g in h.guards if g.op != "exc")]
            if not cov:
                continue
            mine = [e for e, v in stores.get(d, []) if v is not NONE and set(g for g in e.guards if g.op not in ("exc", "isinst", "attr", "not")) <= set(h.guards) and e.n > cov[-1].n and e.n < h.n]
            if not mine:
                continue
            handled = any(e.kind == "raise" for e in inside) or any(e in inside and v is NONE for e, v in stores.get(d, [])) or \
                any(e.kind in ("mutate", "delitem") and T.strip(e.d.get("target", NONE)) is b for e in inside)
            pre = [e for e, v in stores.get(d, []) if v is NONE and e.n < cov[-1].n and set(e.guards) <= set(h.guards)]
            ctx.check(handled or bool(pre), "stored", "%s %s failure" % (lab, d), "the clustering of an earlier call is kept when the new one cannot be built", h.where)


def split(t, depth=0):
    """cases of t by the conditions that do not depend on the time scale"""
    for x in subterms(t):
        if x.op == "ite" and depth < 6:
            c = T.strip(x.args[0])
            if not elems(c) and c.op != "const":
                return [((c,) + a, b) for a, b in split(T.strip(T.assume_in(t, c, TRUE)), depth + 1)] + \
                       [((not_(c),) + a, b) for a, b in split(T.strip(T.assume_in(t, c, FALSE)), depth + 1)]
    return [((), t)]


def one(ctx, it, e, d, cond, lab):
    ts = None
    if d.op in ("idx", "select") and d.args[0].op in ("idx", "select") and d.args[0].args[0].op == "attr" and d.args[0].args[0].args[1] == "inter_T_lin":
        key, src, ts = d.args[0].args[1], "inter_T_lin", d.args[1]
    elif d.op in ("idx", "select") and d.args[0].op == "attr" and d.args[0].args[1] in ("inter_T", "inter_T_lin"):
        key, src = d.args[1], d.args[0].args[1]
    elif d.op in ("idx", "select") and d.args[1].op == "slice":
        ctx.bad("matrices", lab + " all", "only the matrices %s are used" % d, e.where)
        return
    else:
        ctx.und("matrices", lab, str(d))
        return
    ctx.tri(israte(key), "matrices", "%s %s" % (lab, src), "the matrices looked up are those of rate %s" % key, e.where, str(key))
    mem = fld("_linear_t_s")
    nn = mk("is", mem, NONE)
    if src == "inter_T_lin":
        ctx.tri(True if ts is mem else (False if ts is not None and T.is_const(ts) else None), "matrices", lab + " t_s", "t_s is %s" % ts, e.where, str(ts))
        ctx.tri(True if not_(nn) in cond else (False if nn in cond else None), "matrices", lab + " linear", "linear matrices are used when %s" % cond, e.where, str(cond))
    else:
        ctx.tri(True if nn in cond else (False if not_(nn) in cond or not cond else None), "matrices", lab + " exact", "exact matrices are used when %s, also after linear ones were computed" % (cond or "ever"), e.where, str(cond))


# ------------------------------------------------------------------ search
def search(ctx, cls):
    f = cls.find("find_louvain_clustering")
    it, r = interp(ctx.prog, cls, f)
    ctx.saw(it)
    lab = FS + ".find_louvain_clustering"
    n = 0
    kws = set()
    for e in it.events:
        if e.kind != "call" or not str(e.d["fn"]).endswith("find_louvain_clustering") or not e.d["args"]:
            continue
        b = T.strip(e.d["args"][0])
        if b is SELF:
            continue
        n += 1
        L = "%s %s" % (lab, "backward" if "backward" in str(b) else "forward")
        all_scales(ctx, it, e, L, allowed=(fld("_time_direction"), fld("time_direction")))
        if b.op in ("idx", "select"):
            k = b.args[1]
            ctx.tri(True if ists(k) else (False if T.is_const(k) or (elems(k) and k.op in ("inv", "poly", "ite")) else None), "stored", L + " key", "searched under %s" % k, e.where, str(k))
        else:
            ctx.und("stored", L + " key", str(b))
        star = (e.d["kwargs"] or {}).get("**")
        if star is None:
            ctx.bad("options", L + " options", "options of the caller are not passed on", e.where)
        else:
            kws.add(T.strip(star))
            extra = [k for k in e.d["kwargs"] if k != "**"]
            ctx.tri(True if not extra else None, "options", L + " options", "", e.where, str(extra))
    through(ctx, it, lab, kws, set())
    if not n:
        ctx.und("stored", lab, "no search found")
