"""P27 the analysis object uses the settings it was given."""
from __future__ import annotations
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms
from .. import terms as T
from ..fwd import kwargs_at
from ..numeric import num, NotNumeric
from .iolib import run as drive
from .p16 import contents

MIN_OBLIGATIONS = 60
FS = "FlowStability"
FIC = "FlowIntegralClustering"
RULE = """
Short sequences of operations a user performs on the analysis object (set a
setting and read it, set it and run a step) are interpreted over arbitrary
values: every path through the package code that the operations take is
followed.  What is read must be the value that was set; what is handed to the
network and to the flow integral must be the setting, and the other keyword
arguments unchanged; refused values must raise on every path and store nothing.
"""
A, B = sym("a"), sym("b")
HEAD = "def driver(self, a, b, c=None):\n"
STOP = {"_compute_integral", "_merge_overlapping_events"}
LOGS = {"info", "warning", "debug", "error", "critical", "warn", "log", "exception"}


def run(ctx):
    cls = ctx.prog.cls(FS)
    for name, g in (("window", window), ("direction", direction), ("network", network), ("scales", scales), ("scale call", scale_call),
                    ("clusterings", clusterings), ("constructor", constructor), ("laplacians", laplacians), ("rates", rates),
                    ("matrices", matrices), ("search", search), ("two scales", two)):
        with ctx.guard(name, FS):
            g(ctx, cls)


def go(ctx, cls, body, facts=(), stop=STOP):
    src = HEAD + "".join("    %s\n" % x for x in body)
    it, r = drive(ctx.prog, src, cls.module.name, cls, stop=set(stop), facts=list(facts))
    ctx.saw(it)
    return it, r


def positive(x, num="float"):
    out = [mk("isinst", x, num), mk("isinst", x, "Number"), mk("isinst", x, "Real"), mk("lt", const(0), x), not_(mk("is", x, NONE)), not_(mk("isinst", x, "str")),
           not_(mk("isinst", x, "Iterable")), not_(mk("hasattr", x, "__iter__")), not_(mk("le", x, const(0)))]
    out.append(x)
    return out + [not_(mk("isinst", x, "int" if num == "float" else "float"))]


def equal(p, q):
    if p is q:
        return True
    if T.is_const(p) and T.is_const(q):
        a, b = T.cval(p), T.cval(q)
        return a is not None and b is not None and not isinstance(a, (str, bool)) and not isinstance(b, (str, bool)) and a == b
    if p is NONE or q is NONE:
        return False
    return bool(T.same_rational(p, q))


def raised(r):
    """the end is reached on no path / on every path / unknown"""
    v = r.value
    if v.op == "undef":
        return True
    return None if any(x.op == "undef" for x in subterms(v)) else False


def plain(v):
    return v.op in ("sym", "const", "tuple", "attr") or T.is_const(v) or (v.op == "poly" and all(x.op in ("sym", "const", "poly", "attr") for x in subterms(v)))


def settled(c):
    """a condition on what the object held before: it can be either way"""
    c = T.strip(c)
    if c.op == "not":
        return settled(c.args[0])
    if c.op == "is" and NONE in c.args:
        c = [x for x in c.args if x is not NONE][0] if c.args != (NONE, NONE) else NONE
    return c.op == "attr" and c.args[0] is sym("self")


def alternatives(v, conds=()):
    v = T.strip(v)
    if v.op == "ite" and settled(v.args[0]) and len(conds) < 4:
        return alternatives(v.args[1], conds + (v.args[0],)) + alternatives(v.args[2], conds + (not_(v.args[0]),))
    return [(v, conds)]


def same(ctx, rule, lab, got, want, where, it=None):
    got = T.unver(got)
    if got is want:
        return ctx.ok(rule, lab)
    s = T.strip(got)
    if s is want:
        return ctx.ok(rule, lab)
    if s.op == "undef":
        return ctx.bad(rule, lab, "an error is raised", where)
    for x, c in alternatives(s):
        if x is not want and plain(x) and c:
            return ctx.bad(rule, lab, "%s instead of %s if %s" % (x, want, " and ".join(str(y) for y in c)), where)
    d = differ(s, want)
    if d:
        return ctx.bad(rule, lab, d, where)
    ctx.tri(False if plain(s) else None, rule, lab, "%s instead of %s" % (s, want), where, str(s))


def differ(got, want):
    """an assignment of the values given for which the two are different"""
    for a in (-1, 0, 1, None):
        for b in (-1, 0, 1, None):
            env = {A: a, B: b}
            try:
                x, y = value(got, env), value(want, env)
            except NotNumeric:
                continue
            if x is not y and (x is None or y is None or x != y):
                return "%s instead of %s if the values given are a = %s, b = %s" % (x, y, a, b)
    return None


def value(t, env):
    t = T.unver(T.strip(t))
    if t is NONE:
        return None
    if t in env:
        return env[t]
    if t.op == "ite":
        return value(t.args[1] if value(t.args[0], env) else t.args[2], env)
    if t.op == "is":
        return value(t.args[0], env) is value(t.args[1], env)
    if t.op == "not":
        return not value(t.args[0], env)
    if t.op == "and":
        return all(value(x, env) for x in t.args)
    if t.op == "or":
        return any(value(x, env) for x in t.args)
    if t.op == "attr":
        raise NotNumeric(str(t))

    def leaf(x):
        if x in env:
            if env[x] is None:
                raise NotNumeric("none")
            return env[x]
        if x.op == "is":
            return value(x, env)
        return None
    return num(t, leaf)


def refused(ctx, cls, body, attr, facts, lab, rule="refused"):
    where = cls.find("__init__").where
    it, r = go(ctx, cls, body + ["return 1"], facts)
    q = raised(r)
    ctx.tri(True if q else (None if q is None else False), rule, lab, "accepted", where, str(r.value))
    ev = [e for e in it.events if e.kind == "setattr" and e.d["name"] == attr]
    if q:
        ctx.tri(not ev, rule, lab + " nothing stored", "%s is stored although the value is refused" % [str(e.d["value"]) for e in ev], ev[0].where if ev else where)


# ------------------------------------------------------------------ single settings
def window(ctx, cls):
    w = cls.props["t_start"]["set"].where
    for src, want, lab in ((["self.t_start = a", "self.t_stop = b"], (A, B), "given"), (["self.t_stop = b", "self.t_start = a"], (A, B), "other order"),
                           (["self.t_start = 0", "self.t_stop = 0"], (const(0), const(0)), "zero"),
                           (["self.t_start = a", "self.t_stop = b", "self.t_start = None", "self.t_stop = None"], (NONE, NONE), "taken back")):
        it, r = go(ctx, cls, src + ["return (self.t_start, self.t_stop)"])
        v = T.unver(r.value)
        if v.op != "tuple":
            ctx.tri(False if v.op == "undef" else None, "read back", "window " + lab, "an error is raised", w, str(v))
            continue
        for n, x, y in zip(("t_start", "t_stop"), v.args, want):
            same(ctx, "read back", "%s %s" % (n, lab), x, y, w)


def direction(ctx, cls):
    f = cls.props["time_direction"]["set"]
    for src, want in (("None", const(0)), ("-1", const(-1)), ("0", const(0)), ("1", const(1))):
        it, r = go(ctx, cls, ["self.time_direction = %s" % src, "return self.time_direction"])
        same(ctx, "read back", "time_direction " + src, r.value, want, f.where)
    for src in ("2", "-2", "0.5", "'forward'"):
        refused(ctx, cls, ["self.time_direction = %s" % src], "_time_direction", [], "time_direction " + src)


def network(ctx, cls):
    f = cls.props["temporal_network"]["set"]
    isn = mk("isinst", A, "ContTempNetwork")
    it, r = go(ctx, cls, ["self.temporal_network = a", "return self.temporal_network"], [isn, not_(mk("is", A, NONE))])
    same(ctx, "read back", "temporal_network", r.value, A, f.where)
    it, r = go(ctx, cls, ["self.temporal_network = a", "self.temporal_network = None", "return self.temporal_network"], [isn, not_(mk("is", A, NONE))])
    same(ctx, "read back", "temporal_network taken back", r.value, NONE, f.where)
    it, r = go(ctx, cls, ["self.temporal_network = b", "self.temporal_network = a", "return self.temporal_network"],
               [not_(isn), not_(mk("is", A, NONE)), mk("isinst", B, "ContTempNetwork"), not_(mk("is", B, NONE))])
    if raised(r) is not True:
        same(ctx, "read back", "temporal_network of another type", r.value, NONE, f.where)
    g = cls.find("set_temporal_network")
    it, r = go(ctx, cls, ["self.set_temporal_network(x=a, y=b)", "return self.temporal_network"], stop=STOP | {"__init__"})
    v = T.strip(r.value)
    con = [e for e in it.events if e.kind == "construct" and e.d["cls"].name == "ContTempNetwork"]
    if not con:
        ctx.tri(False if plain(v) else None, "network", "set_temporal_network", "no network is made: temporal_network is %s" % v, g.where, str(v))
    else:
        e = con[-1]
        kw = kwargs_at(it, e)
        ctx.tri(kw.get("x") is A and kw.get("y") is B and len(kw) == 2 if None not in kw.values() else None, "network", "set_temporal_network arguments", "the network is made with %s" % kw, e.where)
        ctx.tri(True if v.op == "call" and "ContTempNetwork" in str(v.args[0]) or v is e.d.get("result") else (False if plain(v) else None), "network", "set_temporal_network kept", "temporal_network is %s" % v, e.where, str(v))
    it, r = go(ctx, cls, ["self.set_temporal_network()", "return self.temporal_network"], stop=STOP | {"__init__"})
    v = T.strip(r.value)
    ctx.tri(True if v is NONE else (False if plain(v) or (v.op == "call" and "ContTempNetwork" in str(v.args[0])) else None), "network", "set_temporal_network without arguments", "temporal_network is %s" % v, g.where, str(v))


def stores(it):
    return [e for e in it.events if e.kind in ("setattr", "setitem", "mutate", "aug") or (e.kind == "call" and str(e.d["fn"]) in ("setattr", ".update", ".setdefault", ".__setattr__", ".__setitem__", "object.__setattr__"))]


def stored(it, r, cls, v=None):
    """elements kept as time scales"""
    if v is None:
        if not stores(it) and not raised(r):
            return []
        v = [x for (o, n), x in r.st.heap.items() if n == "_time_scale" and T.strip(o).op == "sym"]
        if len(v) != 1:
            return None
        v = v[0]
    c = contents(r, v)
    if c is None:
        return None
    c = T.unver(c)
    if c.op == "tuple":
        return list(c.args)
    xs = it.known_items(c, r.st)
    return None if xs is None else [T.unver(x) for x in xs]


def scales(ctx, cls):
    f = cls.props["time_scale"]["set"]
    for src, facts, want in (("a", positive(A), [A]), ("a", positive(A, "int"), [A]), ("[a, b]", positive(A) + positive(B), [A, B]), ("(a, b)", positive(A) + positive(B), [A, B]),
                             ("[a, None]", positive(A), [A, NONE]), ("None", [], [NONE]), ("0.25", [], [const(0.25)]), ("3", [], [const(3)])):
        it, r = go(ctx, cls, ["self.time_scale = %s" % src, "return 1"], facts)
        lab = "time_scale %s%s" % (src, " whole" if len(facts) and facts[0].args[-1] == "int" else "")
        if raised(r):
            ctx.bad("read back", lab, "an error is raised", f.where)
            continue
        x = stored(it, r, cls)
        ctx.tri(None if x is None or raised(r) is None else x == want, "read back", lab, "the time scales are %s" % [str(y) for y in x or ()], f.where, "%s" % r.value)
        it, r = go(ctx, cls, ["self.time_scale = %s" % src, "o = []", "for t in self.time_scale:", "    o.append(t)", "return o"], facts)
        x = stored(it, r, cls, r.value)
        ctx.tri(None if x is None or raised(r) is None else x == want, "read back", lab + " read", "the time scales read are %s" % [str(y) for y in x or ()], f.where, "%s" % r.value)
        it, r = go(ctx, cls, ["self.time_scale = %s" % src, "o = []", "for t in self.lamda:", "    o.append(t)", "return o"], facts)
        x = stored(it, r, cls, r.value)
        w = [NONE if y is NONE else T.inv(y) for y in want]
        ctx.tri(None if x is None or raised(r) is None else len(x) == len(w) and all(equal(p, q) for p, q in zip(x, w)), "read back", lab + " rates", "the rates read are %s" % [str(y) for y in x or ()], f.where, "%s" % r.value)
    neg = lambda x: [y for y in positive(x) if y.op != "lt" and not (y.op == "not" and y.args[0].op == "le")] + [mk("le", x, const(0)), not_(mk("lt", const(0), x))]
    for src, facts in (("a", neg(A)), ("[b, a]", positive(B) + neg(A)), ("0", []), ("0.0", []), ("-1", []), ("'abc'", []), ("3j", [])):
        refused(ctx, cls, ["self.time_scale = %s" % src], "_time_scale", facts, "time_scale %s%s" % (src, " not positive" if facts else ""))


def scale_call(ctx, cls):
    f = cls.find("set_time_scale")
    for call, facts, want in (("a", positive(A), [A]), ("value=a", positive(A), [A]), ("a, start=b", positive(A), [A]), ("", [], [NONE])):
        it, r = go(ctx, cls, ["self.set_time_scale(%s)" % call, "return 1"], facts)
        x = stored(it, r, cls)
        ctx.tri(False if raised(r) else (None if x is None else x == want), "read back", "set_time_scale(%s)" % call, "the time scales are %s" % [str(y) for y in x or ()], f.where, str(r.value))
    for call in ("0", "value=0.0", "-1"):
        refused(ctx, cls, ["self.set_time_scale(%s)" % call], "_time_scale", [], "set_time_scale(%s)" % call)
    it, r = go(ctx, cls, ["self.set_time_scale(start=a, stop=b)", "return 1"])
    ev = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).startswith("numpy.")]
    if not ev:
        used = [e for e in it.events if e.kind == "setattr" and e.d["name"] == "_time_scale"]
        ctx.tri(False if not stores(it) and not raised(r) else False if used and not any(x is A for x in subterms(used[-1].d["value"])) and not raised(r) and stored(it, r, cls) == [NONE] else None, "read back",
                "set_time_scale(start=.., stop=..)", "the range asked for is not used", f.where, str(used and used[-1].d["value"]))
    for e in ev[:1]:
        kw = kwargs_at(it, e)
        ctx.tri(str(e.d["fn"]) == "numpy.logspace" and kw.get("start") is A and kw.get("stop") is B and len(kw) == 2 and not e.d["args"], "read back", "set_time_scale(start=.., stop=..)",
                "the time scales are %s(%s)" % (e.d["fn"], kw), e.where)


def clusterings(ctx, cls):
    isf = mk("isinst", B, FIC)
    rv = mk("attr", B, "reversed_time")
    for d, ok in (("forward", not_(rv)), ("backward", rv)):
        f = cls.props["flow_clustering_" + d]["set"]
        n = "flow_clustering_" + d
        body = ["self.%s = (a, b)" % n, "return self.%s[a]" % n]
        it, r = go(ctx, cls, body, [isf, not_(mk("is", B, NONE)), ok])
        if not stores(it) and not raised(r):
            ctx.bad("read back", n, "the clustering is not stored", f.where)
            continue
        v = T.strip(r.value)
        if v.op in ("idx", "select") and v.args[0].op == "attr" and not [e for e in stores(it) if e.kind != "setitem"] and \
                all(T.strip(e.d["base"]).op == "attr" and T.strip(e.d["base"]) is not v.args[0] for e in stores(it)):
            ctx.bad("read back", n, "the clustering is stored in %s" % T.strip(stores(it)[0].d["base"]), f.where)
            continue
        same(ctx, "read back", n, r.value, B, f.where)
        C = sym("c")
        it, r = go(ctx, cls, ["self.%s = (a, c)" % n, "self.%s = (a, b)" % n, "return self.%s[a]" % n],
                   [isf, not_(mk("is", B, NONE)), ok, mk("isinst", C, FIC), not_(mk("is", C, NONE)), T.subst(ok, {B: C})])
        if [e for e in stores(it) if e.kind == "call" and str(e.d["fn"]) == ".setdefault"]:
            ctx.bad("read back", n + " set again", "an earlier clustering is kept", f.where)
        else:
            same(ctx, "read back", n + " set again", r.value, B, f.where)
        it, r = go(ctx, cls, body, [isf, not_(mk("is", B, NONE)), not_(ok)])
        v = T.unver(r.value)
        ctx.tri(True if v.op == "undef" or v is NONE else (False if v is B else None), "refused", n + " of the other direction", "accepted", f.where, str(v))
        it, r = go(ctx, cls, body, [not_(isf), mk("is", B, NONE)])
        if not raised(r):
            same(ctx, "read back", n + " none", NONE if T.unver(r.value) is B else r.value, NONE, f.where)
        else:
            ctx.bad("read back", n + " none", "an error is raised", f.where)
        it, r = go(ctx, cls, body, [not_(isf), not_(mk("is", B, NONE))])
        v = T.unver(r.value)
        ctx.tri(True if v.op == "undef" or v is NONE else (False if v is B else None), "refused", n + " of another type", "accepted", f.where, str(v))


def constructor(ctx, cls):
    f = cls.find("__init__")
    it, r = go(ctx, cls, ["o = FlowStability()", "return (o.t_start, o.t_stop, o.time_direction, o.temporal_network)"])
    for n, x, y in zip(("t_start", "t_stop", "time_direction", "temporal_network"), T.unver(r.value).args if r.value.op == "tuple" else (r.value,) * 4, (NONE, NONE, const(0), NONE)):
        same(ctx, "constructor", "default " + n, x, y, f.where)
    for n in ("forward", "backward"):
        it, r = go(ctx, cls, ["o = FlowStability()", "o.flow_clustering_%s = (a, b)" % n, "p = FlowStability()", "return p.flow_clustering_%s" % n],
                   [mk("isinst", B, FIC), not_(mk("is", B, NONE))])
        v = T.unver(r.value)
        c = r.st.heap.get((v, "[]")) if v.op == "obj" else None
        ctx.tri(True if c is not None and T.unver(c).op == "emptymap" else (False if v.op in ("undef", "attr") or (c is not None and T.unver(c).op == "store") else None), "constructor", "%s clusterings" % n,
                "a new analysis starts with %s" % (c if c is not None else "no place for its clusterings"), f.where, "%s %s" % (v, c))
    it, r = go(ctx, cls, ["o = FlowStability(t_start=a, t_stop=b, time_direction=-1)", "return (o.t_start, o.t_stop, o.time_direction)"])
    for n, x, y in zip(("t_start", "t_stop", "time_direction"), T.unver(r.value).args if r.value.op == "tuple" else (r.value,) * 3, (A, B, const(-1))):
        same(ctx, "constructor", n, x, y, f.where)
    it, r = go(ctx, cls, ["o = FlowStability(temporal_network=a)", "return o.temporal_network"], [mk("isinst", A, "ContTempNetwork"), not_(mk("is", A, NONE))])
    same(ctx, "constructor", "temporal_network", r.value, A, f.where)
    it, r = go(ctx, cls, ["q = FlowStability(time_scale=a)", "o = []", "for t in q.time_scale:", "    o.append(t)", "return o"], positive(A))
    x = stored(it, r, cls, r.value)
    ctx.tri(False if raised(r) else (None if x is None else x == [A]), "constructor", "time_scale", "the time scales are %s" % (x,), f.where, str(r.value))


# ------------------------------------------------------------------ steps
def called(it, name):
    out = []
    for e in it.events:
        if e.kind == "call" and str(e.d["fn"]).rsplit(".", 1)[-1].rsplit(":", 1)[-1] == name and e.d["args"]:
            out.append(e)
    return out


def free(e, facts):
    """conditions of the call other than the assumed ones"""
    fs = {T.strip(x) for x in facts}
    return [g for g in e.guards if T.strip(g) not in fs]


def handed(ctx, it, rule, lab, e, want, exact=True, absent=()):
    kw = kwargs_at(it, e)
    for k, v in want.items():
        if k not in kw:
            ctx.tri(False if not e.d["args"][1:] and "**" not in kw else None, rule, "%s %s" % (lab, k), "%s is not handed on" % k, e.where)
        elif kw[k] is None:
            ctx.und(rule, "%s %s" % (lab, k), "not followed")
        else:
            x = T.strip(kw[k])
            ok = equal(x, v)
            d = None if ok else differ(x, v)
            if d:
                ctx.bad(rule, "%s %s" % (lab, k), "%s is %s" % (k, d), e.where)
                continue
            ctx.tri(True if ok else (False if plain(x) or x.op in ("inv", "poly") else None), rule, "%s %s" % (lab, k), "%s is %s instead of %s" % (k, x, v), e.where, str(x))
    for k in absent:
        ctx.tri(k not in kw, rule, "%s %s" % (lab, k), "%s is handed on although it is no argument there" % k, e.where)


def laplacians(ctx, cls):
    f = cls.find("compute_laplacian_matrices")
    isn = [mk("isinst", A, "ContTempNetwork"), not_(mk("is", A, NONE))]
    for src, ws, lab in ((["self.t_start = a", "self.t_stop = b"], (A, B), "window"), (["self.t_start = a", "self.t_stop = b", "self.t_stop = None"], (A, NONE), "changed window")):
        it, r = go(ctx, cls, src + ["self.compute_laplacian_matrices(other=b)", "return 1"])
        ev = called(it, "compute_laplacian_matrices")
        if not ev:
            ctx.bad("step", "compute_laplacian_matrices %s" % lab, "the Laplacians are not computed", f.where)
            continue
        e = ev[-1]
        ctx.tri(True if not free(e, ()) else None, "step", "compute_laplacian_matrices %s always" % lab, "", e.where, str(free(e, ())))
        handed(ctx, it, "step", "compute_laplacian_matrices " + lab, e, {"t_start": ws[0], "t_stop": ws[1], "other": B})
    it, r = go(ctx, cls, ["self.temporal_network = a", "self.compute_laplacian_matrices()", "return 1"], isn)
    ev = called(it, "compute_laplacian_matrices")
    if not ev:
        ctx.bad("step", "compute_laplacian_matrices network", "the Laplacians are not computed", f.where)
    else:
        same(ctx, "step", "compute_laplacian_matrices network", ev[-1].d["args"][0], A, ev[-1].where)


def rates(ctx, cls):
    f = cls.find("compute_inter_transition_matrices")
    INV = T.inv(A)
    pinv = positive(A) + positive(INV)
    for lab, setup, call, facts, ts, rate in (("setting", ["self.time_scale = a"], "other=b", positive(A), [A], INV),
                                              ("time_scale given", ["self.time_scale = None"], "time_scale=a, other=b", positive(A), [A], INV),
                                              ("lamda given", ["self.time_scale = None"], "lamda=a, other=b", pinv, [INV], A),
                                              ("lamda zero none", ["self.time_scale = a"], "lamda=None, other=b", positive(A), [A], INV),
                                              ("both given", ["self.time_scale = None"], "time_scale=a, lamda=b, other=b", pinv + positive(B) + positive(T.inv(B)), [A], INV),
                                              ("none", ["self.time_scale = None"], "other=b", [], [NONE], NONE)):
        for linear, name in ((False, "compute_inter_transition_matrices"), (True, "compute_lin_inter_transition_matrices")):
            L = "%s %s%s" % (f.name, lab, " linear" if linear else "")
            it, r = go(ctx, cls, setup + ["self.compute_inter_transition_matrices(%s%s)" % ("linear_approx=True, " if linear else "", call), "return 1"], facts)
            if raised(r):
                ctx.bad("step", L, "an error is raised", f.where)
                continue
            ev = [e for e in called(it, name) if T.strip(e.d["args"][0]) is not sym("self")]
            other = called(it, "compute_lin_inter_transition_matrices" if not linear else "compute_inter_transition_matrices")
            other = [e for e in other if T.strip(e.d["args"][0]) is not sym("self") and e not in ev]
            if not ev:
                ctx.tri(False, "step", L, "the matrices are not computed" if not other else "%s is called" % other[0].d["fn"], f.where)
                continue
            ctx.tri(len(ev) == 1 and not other, "step", L + " once", "%d computations for one time scale" % (len(ev) + len(other)), ev[-1].where)
            handed(ctx, it, "step", L, ev[-1], {"lamda": rate, "other": B}, absent=("time_scale", "linear_approx"))
            ctx.tri(True if not free(ev[-1], facts) else None, "step", L + " always", "", ev[-1].where, str(free(ev[-1], facts)))
            x = stored(it, r, cls)
            ctx.tri(None if x is None or len(x) != len(ts) else all(equal(p, q) for p, q in zip(x, ts)), "step", L + " time scales", "the time scales are %s afterwards" % [str(y) for y in x or ()], f.where, str(x))


def matrices(ctx, cls):
    """the flow integral gets the matrices of the time scale, the times of the window, and what the caller passes"""
    f = cls.find("set_flow_clustering")
    S = sym("self")
    for linear, before in ((False, False), (True, False), (False, True), (True, True)):
        for d in (-1, 0, 1):
            facts = positive(A) + positive(T.inv(A)) + [not_(mk("is", B, NONE))]
            setup = ["self.time_scale = a", "self.time_direction = %d" % d]
            if before:
                setup.append("self.compute_inter_transition_matrices(linear_approx=%s%s)" % (not linear, ", t_s=b" if not linear else ""))
            setup.append("self.compute_inter_transition_matrices(linear_approx=%s%s)" % (linear, ", t_s=b" if linear else ""))
            it, r = go(ctx, cls, setup + ["self.set_flow_clustering(other=b)", "return 1"], facts, stop=STOP | {"__init__"})
            L = "set_flow_clustering %s%s" % ({-1: "backward", 0: "both", 1: "forward"}[d], (" linear" if linear else "") + (" after the other kind" if before else ""))
            con = [e for e in it.events if e.kind == "construct" and e.d["cls"].name == FIC]
            want = [x for x in (True, False) if d == 0 or (d < 0) == x]
            rts = []
            for e in con:
                kw = kwargs_at(it, e)
                rt = T.strip(kw["reverse_time"]) if kw.get("reverse_time") is not None else None
                if rt is not None and not T.is_const(rt):
                    # nothing failed before
                    rt = T.strip(T.subst(rt, {x: FALSE for x in subterms(rt) if x.op == "exc"}))
                rts.append(T.cval(rt) if rt is not None and T.is_const(rt) else None)
                one(ctx, cls, it, r, e, kw, linear, L)
            ctx.tri(None if None in rts else sorted(rts) == sorted(want), "step", L + " directions", "flow integrals are made with reverse_time %s" % rts, f.where)
            kept(ctx, cls, it, r, L, want)


def kept(ctx, cls, it, r, L, want):
    for d in ("forward", "backward"):
        ev = [e for e in it.events if e.kind == "setitem" and T.strip(e.d["key"]) is A and ("_clustering_" + d) in str(T.strip(e.d["base"]))]
        # last store on the normal path
        ok = [e for e in ev if not any(x.op == "exc" for g in e.guards for x in ((g,) if g.op != "not" else ()))]
        if not ok:
            ctx.tri(False if not [e for e in it.events if e.kind == "setitem" and ("_clustering_" + d) in str(T.strip(e.d["base"]))] else None, "step", "%s %s kept" % (L, d), "nothing is stored", cls.find("set_flow_clustering").where)
            continue
        v = T.strip(ok[-1].d["value"])
        isin = v.op == "call" and FIC in str(v.args[0]) or v.op == "obj" and it.objs.get(v, {}).get("kind") == "inst"
        asked = (d == "backward") in want
        ctx.tri(isin if asked and (isin or v is NONE) else (True if not asked and v is NONE else (False if not asked and isin else None)), "step", "%s %s kept" % (L, d),
                "the %s clustering is %s" % (d, v), ok[-1].where, str(v))


def one(ctx, cls, it, r, e, kw, linear, L):
    N = None
    tl = kw.get("time_list")
    if "time_list" not in kw or "T_inter_list" not in kw:
        ctx.tri(None if "**" in kw else False, "step", L + " inputs", "%s not handed on" % [k for k in ("T_inter_list", "time_list") if k not in kw], e.where)
        return
    ctx.tri(kw.get("other") is B, "step", L + " other arguments", "other is %s" % kw.get("other"), e.where)
    if tl is None:
        ctx.und("step", L + " times", "not followed")
    else:
        x = T.strip(tl)
        ok = None
        if x.op in ("idx", "select") and x.args[0].op == "attr" and x.args[1].op == "slice":
            b, nm = x.args[0].args[0], x.args[0].args[1]
            s = x.args[1].args
            lo, hi = mk("attr", b, "_k_start_laplacians"), mk("attr", b, "_k_stop_laplacians")
            ok = nm == "times" and s[0] is lo and T.strip(s[1]) is T.add(hi, const(1)) and (len(s) < 3 or s[2] in (NONE, const(1)))
            if not ok and not all(y is NONE or T.is_const(y) or y.op in ("attr", "poly") for y in s):
                ok = None
            N = b
        elif x.op == "attr" and x.args[1] in ("times", "events_table"):
            ok = False
        ctx.tri(ok, "step", L + " times", "the times are %s, the matrices cover times[k_start:k_stop+1]" % x, e.where, str(x))
    tm = kw.get("T_inter_list")
    if tm is None:
        ctx.und("step", L + " matrices", "not followed")
        return
    lam = T.inv(A)
    name = "inter_T_lin" if linear else "inter_T"
    bases = matrix_base(it, r, tm)
    if len(bases) != 1:
        ctx.und("step", L + " matrices", "%s" % [str(b) for b in bases])
        return
    b = bases.pop()
    ctx.tri(b.args[0].args[1] == name and T.same_rational(b.args[1], lam), "step", L + " matrices", "the matrices are %s" % b, e.where)
    if linear and b.args[0].args[1] == name:
        # the step of the approximation asked for
        over = [x for x in matrix_base(it, r, tm, True) if x.args[0] is b]
        if len(over) == 1:
            t = T.strip(over[0].args[1])
            ctx.tri(True if t is B else (False if plain(t) else None), "step", L + " t_s", "the matrices are those of t_s %s, computed were those of %s" % (t, B), e.where, str(t))
        else:
            ctx.und("step", L + " t_s", str(b))


def matrix_base(it, r, tm, outer=False):
    """the dictionary entries the matrices come from"""
    c = contents(r, tm)
    c = T.strip(c) if c is not None else T.strip(tm)
    bases = set()
    def look(t):
        for x in subterms(T.strip(t)):
            if x.op not in ("idx", "select"):
                continue
            if not outer and x.args[0].op == "attr" and str(x.args[0].args[1]).startswith("inter_T"):
                bases.add(x)
            if outer and x.args[0].op in ("idx", "select") and x.args[0].args[0].op == "attr" and x.args[0].args[0].args[1] == "inter_T_lin":
                bases.add(x)
    look(c)
    for o in list(it.phis):
        if T.unver(o) is T.unver(c):
            look(it.phis[o].back)
    return bases


def two(ctx, cls):
    """two time scales: each is computed, looked up, stored and searched for itself"""
    S = sym("self")
    facts = positive(A) + positive(B) + positive(T.inv(A)) + positive(T.inv(B))
    rate = {A: T.inv(A), B: T.inv(B)}
    f = cls.find("set_flow_clustering")
    for d in (-1, 0, 1):
        D = {-1: "backward", 0: "both", 1: "forward"}[d]
        want = [x for x in (True, False) if d == 0 or (d < 0) == x]
        for linear in (False, True):
            L = "two time scales %s%s" % (D, " linear" if linear else "")
            it, r = go(ctx, cls, ["self.time_scale = [a, b]", "self.time_direction = %d" % d, "self.compute_inter_transition_matrices(linear_approx=%s)" % linear,
                                  "self.set_flow_clustering(other=7)", "return 1"], facts, stop=STOP | {"__init__"})
            name = "compute_lin_inter_transition_matrices" if linear else "compute_inter_transition_matrices"
            got = []
            for e in called(it, name):
                if T.strip(e.d["args"][0]) is S:
                    continue
                v = kwargs_at(it, e).get("lamda")
                got.append(None if v is None else T.strip(v))
            ctx.tri(None if None in got else len(got) == 2 and all(equal(x, y) for x, y in zip(got, rate.values())), "step", L + " rates", "the matrices are computed with rates %s" % [str(x) for x in got],
                    cls.find("compute_inter_transition_matrices").where)
            pairs, unk = [], False
            for e in it.events:
                if e.kind != "construct" or e.d["cls"].name != FIC:
                    continue
                kw = kwargs_at(it, e)
                if kw.get("other") is not None:
                    ctx.tri(T.cval(kw["other"]) == 7 if T.is_const(kw["other"]) else None, "step", L + " other arguments", "other is %s" % kw["other"], e.where)
                elif "other" not in kw and not any(k.startswith("*") for k in kw):
                    ctx.bad("step", L + " other arguments", "not handed on", e.where)
                rt = T.strip(kw["reverse_time"]) if kw.get("reverse_time") is not None else None
                if rt is not None:
                    rt = T.strip(T.subst(rt, {x: FALSE for x in subterms(rt) if x.op == "exc"}))
                tm = kw.get("T_inter_list")
                if tm is not None:
                    tm = T.unver(T.subst(T.unver(tm), {x: FALSE for x in subterms(T.unver(tm)) if x.op == "exc"}))
                bs = matrix_base(it, r, tm) if tm is not None else ()
                if rt is None or not T.is_const(rt) or len(bs) != 1:
                    unk = True
                    continue
                k = [x for x in (A, B) if equal(T.strip(list(bs)[0].args[1]), rate[x])]
                pairs.append((T.cval(rt), str(k[0]) if k else str(list(bs)[0])))
            full = [(x, str(y)) for y in (A, B) for x in want]
            ctx.tri(None if unk else sorted(pairs, key=str) == sorted(full, key=str), "step", L + " matrices", "flow integrals are made for (reverse_time, time scale) %s" % pairs, f.where)
            for n in ("forward", "backward"):
                ks = {}
                for e in it.events:
                    if e.kind == "setitem" and ("_clustering_" + n) in str(T.strip(e.d["base"])) and not any(g.op == "exc" for g in e.guards):
                        ks[T.strip(e.d["key"])] = e
                other = [e for e in it.events if ("_clustering_" + n) in str(e.d.get("base")) + str((e.d.get("args") or [""])[0]) and e.kind not in ("setitem", "getattr", "getitem", "load")]
                miss = [x for x in (A, B) if x not in ks]
                ctx.tri(True if not miss else (None if other else False), "step", "%s %s stored" % (L, n), "nothing is stored for %s" % [str(x) for x in miss], f.where)
        it, r = go(ctx, cls, ["self.time_scale = [a, b]", "self.time_direction = %d" % d, "self.find_louvain_clustering(k=7)", "return 1"], facts)
        got, opts = [], []
        for e in called(it, "find_louvain_clustering"):
            o = T.strip(e.d["args"][0])
            if o is S:
                continue
            k = T.strip(o.args[1]) if o.op in ("idx", "select") else None
            got.append(("backward" if "backward" in str(o) else "forward", str(k)))
            kw = kwargs_at(it, e)
            v = kw.get("k")
            opts.append(T.is_const(v) and T.cval(v) == 7 if v is not None else (False if "k" not in kw and not any(x.startswith("*") for x in kw) else None))
        full = [("backward" if x else "forward", str(y)) for y in (A, B) for x in want]
        w = cls.find("find_louvain_clustering").where
        ctx.tri(sorted(got) == sorted(full) if all(x[1] in ("a", "b") for x in got) else None, "step", "two time scales %s searched" % D, "searched are %s" % got, w)
        ctx.tri(False if False in opts else (None if None in opts else True), "step", "two time scales %s search options" % D, "the options of the search are not passed on for every time scale", w)


def search(ctx, cls):
    f = cls.find("find_louvain_clustering")
    for d in (-1, 0, 1):
        facts = positive(A)
        it, r = go(ctx, cls, ["self.time_scale = a", "self.time_direction = %d" % d, "self.find_louvain_clustering(k=b)", "return 1"], facts)
        ev = [e for e in called(it, "find_louvain_clustering") if T.strip(e.d["args"][0]) is not sym("self")]
        L = "find_louvain_clustering %s" % {-1: "backward", 0: "both", 1: "forward"}[d]
        want = ["backward"] * (d <= 0) + ["forward"] * (d >= 0)
        got = []
        for e in ev:
            b = str(T.strip(e.d["args"][0]))
            got.append("backward" if "backward" in b else "forward" if "forward" in b else None)
            handed(ctx, it, "step", L, e, {"k": B})
            o = T.strip(e.d["args"][0])
            ctx.tri(True if o.op in ("idx", "select") and T.strip(o.args[1]) is A else (False if o.op in ("idx", "select") and plain(o.args[1]) else None), "step", L + " of the time scale", "the clustering searched is %s" % o, e.where, str(o))
            ctx.tri(True if not free(e, facts) else None, "step", L + " always", "", e.where, str(free(e, facts)))
        ctx.tri(None if None in got else sorted(got) == sorted(want), "step", L + " directions", "the clusterings searched are %s" % got, f.where)
