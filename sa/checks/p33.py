"""P33 repeated serial runs."""
from __future__ import annotations
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms
from .. import terms as T
from ..engine import Interp
from ..fwd import kwargs_at, static_bind
from .p11 import seeds

MIN_OBLIGATIONS = 8
RULE = """
run_multi_louvain is interpreted over an arbitrary clustering: what each run is
made from, the seed it gets and the four lists that come back are followed
through the loop, and each list must hold, per run and in the order of the
seeds, the quantity documented for it, taken after the search of that run.
"""
CL, KW = sym("clustering"), sym("**kwargs")
ROLES = ("number of loops", "clusters", "stability", "seed")


def run(ctx):
    for f in ctx.prog.functions("run_multi_louvain"):
        with ctx.guard("runs", f.name):
            one(ctx, f)


def made(t, cls=None):
    """a clustering of the class of the one given"""
    if t.op == "call" and str(t.args[0]) == ".__class__" and T.strip(t.args[1][0]) is CL:
        return True
    if t.op == "call" and isinstance(t.args[0], T.Term):
        g = T.strip(t.args[0])
        return g is mk("attr", CL, "__class__") or (g.op == "call" and str(g.args[0]) == "type" and g.args[1][0] is CL)
    return False


def one(ctx, f):
    prog = ctx.prog
    it = Interp(prog, opaque=lambda z: z is not f and not (z.module is f.module and z.cls is None and z.name not in KEEP))
    r = it.run(f)
    ctx.saw(it)
    C = f.name
    # ---------------------------------------------------------------- the run
    evs = [e for e in it.events if e.kind in ("call", "construct") and e.d.get("result") is not None and made(T.strip(e.d["result"]))]
    if len(evs) != 1:
        other = [e for e in it.events if e.kind == "construct" and e.d["cls"].is_a("BaseClustering")]
        ctx.tri(False if other and not evs and not any("isinst" in str(g) or "type" in str(g) for g in other[0].guards) else None, "runs", C + " class",
                "runs are made as %s whatever the kind of clustering given" % [e.d["cls"].name for e in other], f.where, "%d clusterings made" % len(evs))
        return
    e = evs[0]
    run_ = T.unver(e.d["result"])
    loops = [g for g in e.guards if g.op == "iter"]
    if len(loops) != 1:
        ctx.tri(False if not loops else None, "runs", C, "one clustering is used for all runs", e.where, "%d loops" % len(loops))
        if not loops:
            return
    init = prog.cls("Clustering").find("__init__")
    pos = list(e.d["args"])
    if pos and T.strip(pos[0]) is CL and str(e.d["fn"]) == ".__class__":
        pos = pos[1:]
    kw = kwargs_at(it, e)
    for q, v in zip(init.params()[1:], pos):
        kw.setdefault(q, v)
    S = mk("attr", CL, "_S")
    want = {"p1": (mk("attr", CL, "p1"),), "p2": (mk("attr", CL, "p2"),), "S": (S, mk("attr", CL, "S")), "T": (mk("attr", CL, "T"),)}
    for n, w in want.items():
        v = kw.get(n)
        if v is None:
            ctx.tri(None if "**" in kw or n == "T" and n not in kw else False, "inputs", "%s %s" % (C, n), "%s is not given to the runs" % n, e.where)
            continue
        v = T.strip(v)
        while v.op == "call" and str(v.args[0]) == ".copy" and len(v.args[1]) == 1:
            v = v.args[1][0]
        ok = True
        for cs, leaf in T.cases(v) or [((), v)]:
            # S and T of a clustering are always there
            if any(c is mk("is", q, NONE) for c in cs for q in (S, mk("attr", CL, "T"))):
                continue
            while leaf.op == "call" and str(leaf.args[0]) == ".copy" and len(leaf.args[1]) == 1:
                leaf = leaf.args[1][0]
            one = True if leaf in w else (False if leaf.op == "attr" and leaf.args[0] is CL or T.is_const(leaf) else None)
            ok = one if ok is True or one is False else ok
        ctx.tri(ok, "inputs", "%s %s" % (C, n), "%s is %s" % (n, v), e.where, str(v))
    sd = kw.get("rnd_seed")
    el = [x for x in subterms(T.strip(sd)) if x.op == "elem"] if sd is not None else []
    ctx.tri(False if sd is None or T.is_const(sd) or T.strip(sd) in (mk("attr", CL, "rnd_seed"), sym("rnd_seed")) else (True if el and T.strip(sd).op in ("elem",) or el else None), "seed", C, "the seed of a run is %s" % sd, e.where, str(sd))
    src = None
    if sd is not None and not el and T.strip(sd).op in ("idx", "select") and T.is_const(T.strip(sd).args[1]) and loops:
        ctx.bad("seed", C + " own", "every run gets the seed %s" % T.strip(sd), e.where)
    if el:
        src = T.strip(el[0].args[0])
        o = src
        while o.op in ("sortedof", "setof", "reversedof", "listof", "contents") or (o.op == "call" and str(o.args[0]) in ("sorted", "reversed", "set")):
            o = T.strip(o.args[-1] if o.op == "contents" else o.args[0] if o.op != "call" else o.args[1][0])
        if o is not src and T.unver(r.value).op == "tuple" and len(r.value.args) == 4:
            back = T.strip(T.unver(r.value).args[3])
            if back is o and src.op != "listof":
                ctx.bad("results", C + " seed", "the seeds come back in another order than the runs: %s" % src, e.where)
        seeds(ctx, it, r, f, e, {"iter": T.unver([x for x in subterms(T.unver(sd)) if x.op == "elem"][0].args[0])}, C)
        li = it.loopinfo.get(loops[0].args[0]) or {} if loops else {}
        brk = [b for b in li.get("break_guards") or [] if FALSE not in b]
        ctx.tri(not brk, "runs", C + " all", "the loop over the runs ends early", e.where)
    # ---------------------------------------------------------------- the search
    finds = [x for x in it.events if x.kind == "call" and str(x.d["fn"]).endswith("find_louvain_clustering") and x.d["args"] and T.strip(x.d["args"][0]) is T.strip(run_)]
    if len(finds) != 1:
        ctx.tri(False if not finds else None, "search", C, "the search of a run is not started", f.where)
        return
    fe = finds[0]
    gs = [g for g in fe.guards if g.op != "iter"]
    ctx.tri(True if not gs else None, "search", C + " always", "", fe.where, str(gs))
    k = dict(fe.d["kwargs"] or {})
    star = k.pop("**", None)
    ctx.tri(False if star is None and not k else (True if star is not None and T.strip(star) is KW and not k else None), "search", C + " options", "the options of the caller are not passed to the search", fe.where, str(k))
    drop = [x for x in it.events if x.kind == "call" and str(x.d["fn"]) in (".pop", ".clear", ".setdefault", ".update", ".popitem") and x.d["args"] and T.strip(x.d["args"][0]) is KW and x.n < fe.n]
    ctx.tri(True if not drop else None, "search", C + " options unchanged", "", fe.where, str(drop))
    # ---------------------------------------------------------------- the results
    v = T.unver(r.value)
    if v.op != "tuple" or len(v.args) != 4:
        ctx.und("results", C, str(T.strip(v))[:100])
        return
    for want, x in zip(ROLES, v.args):
        role, ev, why = content(it, r, x, T.strip(run_), src, T.strip(sd) if sd is not None else None)
        lab = "%s %s" % (C, want)
        if role is None:
            ctx.und("results", lab, why)
            continue
        ctx.tri(role == want, "results", lab, "the %s of the runs comes back as the %s" % (role, want), f.where)
        if ev is not None and role in ("clusters", "stability", "number of loops"):
            ctx.tri(ev.n > fe.n, "results", lab + " after the search", "the %s is taken before the search has run" % role, ev.where)
        if why:
            ctx.bad("results", lab + " every run", why, f.where)


KEEP = {"run_multi_louvain", "n_random_seeds"}


def content(it, r, x, run_, src, sd):
    """what a list holds per run"""
    s = T.strip(x)
    if src is not None and s is src:
        return "seed", None, ""
    if s.op == "call" and str(s.args[0]) in ("list", "tuple") and src is not None and T.strip(s.args[1][0]) is src:
        return "seed", None, ""
    c = r.st.heap.get((x, "[]")) if x.op == "obj" else x
    if c is None:
        return None, None, str(s)
    c = T.unver(c)
    if c.op != "phi":
        if c.op == "call" and str(c.args[0]) in ("sorted", "set", "reversed"):
            return "reordered list", None, ""
        if c.op in ("sortedof", "setof", "reversedof"):
            return "reordered list", None, ""
        return None, None, str(c)
    i = [i for q, i in it.phis.items() if T.unver(q) is c]
    b = T.unver(i[0].back) if i and i[0].back is not None else None
    why = ""
    if b is not None and b.op == "ite":
        sides = [y for y in b.args[1:] if y.op == "append"]
        if len(sides) == 1 and c in b.args[1:]:
            why = "runs are left out of the result if not %s" % T.strip(b.args[0])
            b = sides[0]
    if b is None or b.op != "append" or b.args[0] is not c:
        return None, None, str(b)
    v = T.strip(b.args[1])
    if v.op == "call" and str(v.args[0]).rsplit(".", 1)[-1] in ("round", "around", "rint", "abs", "floor", "trunc") and v.args[1] and str(v.args[1][0]).find("compute_stability") >= 0:
        return "changed stability (%s)" % str(v.args[0]), None, why
    ap = [e for e in it.events if e.kind == "mutate" and e.d.get("how") == ".append" and T.unver(e.d["target"]) is x]
    ev = ap[-1] if ap else None
    while v.op == "call" and str(v.args[0]) in ("list", "tuple", "float", "int", ".copy", "copy.copy", "copy.deepcopy") and len(v.args[1]) == 1:
        v = v.args[1][0]
    if v.op == "call" and str(v.args[0]).endswith("find_louvain_clustering") and v.args[1] and v.args[1][0] is run_:
        return "number of loops", ev, why
    if v.op == "call" and str(v.args[0]).endswith("compute_stability") and v.args[1]:
        cs = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).endswith("compute_stability")]
        if v.args[1][0] is run_:
            return "stability", cs[-1] if cs else ev, why
        if v.args[1][0] is CL:
            return "stability of the clustering given", None, why
    if v.op == "attr" and v.args[1] == "cluster_list":
        p = v.args[0]
        if p is mk("attr", run_, "partition"):
            return "clusters", ev, why
        if CL in (p, p.args[0] if p.op == "attr" else None):
            return "clusters of the clustering given", None, why
    if sd is not None and v is sd:
        return "seed", None, why
    return None, None, str(v)
