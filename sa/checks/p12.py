"""P12 the two views of a partition always agree."""
from __future__ import annotations
import ast
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms
from .. import terms as T
from ..engine import KNOWN, Interp, State
from ..model import AnalysisBroken
from ..conts import Conts, dedup, nonempty_test
from .louvainlib import cval_or
from ..numeric import num as num_, NotNumeric

MIN_OBLIGATIONS = 12
RULE = """
The constructor (each combination of arguments), the cleaning of empty clusters
and the node move of the partition class are interpreted abstractly; the
contents of the cluster list and of the node->cluster map at exit are reduced to
insertion rules, and the map must hold exactly node -> i for the nodes of the
i-th cluster of the list held at exit.  A move must take the node out of the
set it was recorded in, put it into the target set and record the target, on
exactly the same paths.  No other code of the package stores to either view
(who-writes analysis with local aliasing), and the public partition of a
clustering is the partition the search works on whenever a public method ends.
"""
CL, MAP = "cluster_list", "node_to_cluster_dict"


def start(prog, **fix):
    it = Interp(prog)
    cls = prog.cls("Partition")
    s = it.new_instance(cls)
    return it, cls, s


def run(ctx):
    prog = ctx.prog
    cls = prog.cls("Partition")
    clean(ctx, prog, cls)
    for name, fixed, given in (("default", {CL: NONE, MAP: NONE}, ()), ("cluster list", {MAP: NONE}, (CL,)), ("map", {CL: NONE}, (MAP,))):
        construct(ctx, prog, cls, name, fixed, given)
    both(ctx, prog, cls)
    move(ctx, prog, cls)
    views(ctx, prog, cls)
    outside(ctx, prog)
    alias(ctx, prog)


def contents(it, st, s, name):
    v = st.heap.get((s, name))
    if v is None:
        v = mk("attr", s, name)
    return v, Conts(it, st).of_obj(v)


def agree(ctx, it, st, s, C, where):
    lv, lc = contents(it, st, s, CL)
    mv, mc = contents(it, st, s, MAP)
    cn = Conts(it, st)
    try:
        es, bases = cn.entries(mc)
    except Conts.Unknown as e:
        ctx.und("views-agree", C, str(e))
        return
    es = dedup(es)
    if bases:
        b = T.strip(bases[0])
        if b.op == "init" and b.args[0].op == "sym" and not es:
            ctx.und("views-agree", C, "the map is the caller's")
        else:
            ctx.bad("views-agree", C, "entries of the previous map survive: %s" % b, where)
        return
    if not es:
        ctx.bad("views-agree", C, "the map is left empty", where)
        return
    same = {T.strip(lv), T.strip(lc), T.strip(mk("contents", lv, lc))}
    for e in es:
        k, v = T.strip(e.key) if e.key is not None else None, T.strip(e.val)
        if e.kind != "store":
            ctx.und("views-agree", C, str(e))
            return
        # node of L[i] -> i
        if k.op == "elem" and k.args[0].op in ("idx", "select"):
            L, i = k.args[0].args
            ok_list = T.strip(L) in same
            dom_ok = v.op == "elem" and v.args[0].op == "call" and v.args[0].args[0] == "range" and v is T.strip(i)
            if dom_ok:
                ra = v.args[0].args[1]
                full = len(ra) == 1 or (len(ra) == 2 and ra[0] is const(0))
                n = ra[-1]
                full = full and n.op == "call" and n.args[0] == "len" and T.strip(n.args[1][0]) in same
                if full and ok_list and not e.conds:
                    continue
                if not ok_list:
                    ctx.bad("views-agree", C, "the map numbers the clusters of %s, but the list kept is %s" % (L, lc), where)
                elif not full:
                    ctx.bad("views-agree", C, "the map covers only clusters %s" % v.args[0], where)
                else:
                    ctx.bad("views-agree", C, "a node is recorded only if %s" % "; ".join(map(str, e.conds)), where)
                return
            if T.strip(L) in same or L.op == "phi":
                ctx.bad("views-agree", C, "nodes of cluster %s are recorded as cluster %s" % (i, v), where)
                return
        if k.op == "elem" and k.args[0].op == "call" and k.args[0].args[0] == "range" and k is v and not e.conds:
            # singletons
            try:
                les, lb = cn.entries(lc)
            except Conts.Unknown:
                les = None
            if les and len(dedup(les)) == 1 and not lb:
                x = les[0].val
                sc = None
                for vs in (it.heaplog.get((x, "[]")) or ()):
                    sc = vs
                if sc is not None and any(y is k for y in subterms(T.strip(sc))):
                    continue
            ctx.und("views-agree", C, "singletons")
            return
        ctx.und("views-agree", C, str(e)[:200])
        return
    ctx.ok("views-agree", C, "; ".join(map(str, es))[:300])


def clean(ctx, prog, cls):
    it, _, s = start(prog)
    f = cls.find("remove_empty_clusters")
    if f is None:
        raise AnalysisBroken("Partition.remove_empty_clusters")
    r = it.run(f, selft=s)
    ctx.saw(it)
    C = "Partition.remove_empty_clusters"
    agree(ctx, it, r.st, s, C, f.where)
    old = mk("attr", s, CL)
    kept(ctx, it, r.st, s, C, f.where, lambda x: x.op == "elem" and T.strip(x.args[0]) is old)


def kept(ctx, it, st, s, C, where, is_old):
    lv, lc = contents(it, st, s, CL)
    try:
        es, bases = Conts(it, st).entries(lc)
    except Conts.Unknown as e:
        ctx.und("clusters-kept", C, str(e))
        return
    es = dedup(es)
    if bases:
        ctx.und("clusters-kept", C, "kept in place: %s" % bases)
        return
    if not es:
        ctx.bad("clusters-kept", C, "no cluster is kept", where)
        return
    for e in es:
        x = T.strip(e.val)
        if not is_old(x):
            if x.op == "elem" and x.args[0].op in ("idx", "select") and x.args[0].args[1].op == "slice":
                ctx.bad("clusters-kept", C, "only the clusters %s are kept" % x.args[0], where)
            else:
                ctx.und("clusters-kept", C, "cluster %s" % x)
            return
        conds = [T.strip(c) for c in e.conds]
        if not all(nonempty_test(c, x) for c in conds):
            odd = [c for c in conds if not nonempty_test(c, x)]
            if all(any(y is x for y in subterms(c)) and not any(y.op in ("phi",) for y in subterms(c)) for c in odd):
                ctx.bad("clusters-kept", C, "a cluster is kept only if %s" % "; ".join(map(str, odd)), where)
            else:
                ctx.und("clusters-kept", C, str(conds))
            return
        if not conds:
            ctx.und("clusters-kept", C, "empty clusters are kept")
            return
    ctx.ok("clusters-kept", C)


def construct(ctx, prog, cls, name, fixed, given):
    it, _, s = start(prog)
    f = cls.find("__init__")
    st = State()
    for g in given:
        st.assume(not_(T.cmp_("is", sym(g), NONE)))
    args = dict(fixed)
    if "check_integrity" in f.params():
        args["check_integrity"] = FALSE
    r = it.run(f, args=args, selft=s, st=st)
    ctx.saw(it)
    C = "Partition(%s)" % name
    agree(ctx, it, r.st, s, C, f.where)
    # the clusters held at exit are the ones asked for
    lv, lc = contents(it, r.st, s, CL)
    cn = Conts(it, r.st)
    try:
        es, bases = cn.entries(lc)
    except Conts.Unknown as e:
        ctx.und("clusters-given", C, str(e))
        return
    es = dedup(es)
    if bases or len(es) != 1:
        ctx.und("clusters-given", C, "%s %s" % (bases, es))
        return
    x = T.strip(es[0].val)
    conds = [T.strip(c) for c in es[0].conds]
    if any(not nonempty_test(c, x) for c in conds):
        ctx.und("clusters-given", C, str(conds))
        return
    src = x.args[0] if x.op == "elem" else None
    if src is not None and src.op == "contents":
        # built list of the constructor
        base = src.args[0]
        try:
            es0, b0 = cn.entries(src.args[1])
        except Conts.Unknown as e:
            ctx.und("clusters-given", C, str(e))
            return
        es0 = dedup(es0)
        if b0 or len(es0) != 1 or es0[0].conds:
            ctx.und("clusters-given", C, str(es0))
            return
        x0 = es0[0].val
    else:
        x0 = x
    if name == "default":
        ev = it.heaplog.get((x0, "[]")) or ()
        ok = None
        n = r.st.heap.get((s, "num_nodes"))
        want = mk("call", "range", (n,), (), None)
        for c in ev:
            try:
                ee, bb = cn.entries(T.strip(c))
            except Conts.Unknown:
                continue
            ee = dedup(ee)
            if len(ee) == 1 and not bb and not ee[0].conds:
                v = T.strip(ee[0].val)
                if v.op == "elem" and v.args[0] is want:
                    ok = True
                elif v.op == "elem" and v.args[0].op == "call" and v.args[0].args[0] == "range":
                    ok = False
        ctx.tri(ok, "clusters-given", C, "the default clusters hold %s" % [str(c) for c in ev], f.where, str([str(c) for c in ev])[:200])
    elif name == "cluster list":
        v = T.strip(x0)
        arg = sym(CL)
        ok = None
        if v.op == "elem" and v.args[0] is arg:
            ok = True
        else:
            for c in it.heaplog.get((x0, "[]")) or ():
                if T.strip(c).op == "setof" and any(y is arg for y in subterms(T.strip(c))):
                    ok = True
            if v.op == "call" and v.args[0] in ("set", ".copy", "copy.copy", "copy.deepcopy") and any(y is arg for y in subterms(v)):
                ok = True
        ctx.tri(ok, "clusters-given", C, "", f.where, str(v)[:200])
    else:
        d = sym(MAP)
        adds = [e for e in it.events if e.kind == "mutate" and e.d["how"] == ".add"]
        ok = None
        for e in adds:
            t, a = T.strip(e.d["target"]), T.strip(e.d["args"][0])
            if t.op in ("idx", "select") and a.op == "elem" and a.args[0] in (d, mk("init", d)):
                k = T.strip(t.args[1])
                if k is mk("idx", d, a) or k is T.strip(mk("idx", d, a)):
                    ok = True if ok is None else ok
                elif k.op == "idx" or k.op == "elem":
                    ok = False
        ctx.tri(ok, "clusters-given", C, "a node is put into another cluster than the map says", f.where, "%d adds" % len(adds))
        # enough clusters for the largest label
        if x0.op == "obj":
            big = [mk("call", "max", (mk("call", ".values", (y,), (), None),), (), None) for y in (d, mk("init", d))]
            rng = [T.strip(li["iter"]) for li in it.loopinfo.values() if li.get("iter") is not None]
            rng = [y for y in rng if y.op == "call" and y.args[0] == "range" and any(z is d for z in subterms(y))]
            for y in rng:
                n = y.args[1][-1]
                if any(T.strip(T.sub(n, b)) is const(1) for b in big):
                    ctx.ok("clusters-given", C + " enough")
                elif any(T.is_const(T.sub(n, b)) for b in big):
                    ctx.bad("clusters-given", C + " enough", "%s clusters are made for the labels of the map" % n, f.where)
                elif not any(z.op == "call" and str(z.args[0]).endswith("max") for z in subterms(n)) and any(z.op == "call" and z.args[0] == "len" for z in subterms(n)):
                    ctx.bad("clusters-given", C + " enough", "only %s clusters are made: the labels of the map need not be consecutive" % n, f.where)


def both(ctx, prog, cls):
    it, _, s = start(prog)
    f = cls.find("__init__")
    st = State()
    for g in (CL, MAP):
        st.assume(not_(T.cmp_("is", sym(g), NONE)))
    r = it.run(f, selft=s, st=st)
    C = "Partition(list and map)"
    raised = [e for e in it.events if e.kind == "raise"]
    if r.st.dead or (raised and not any(e.kind == "setattr" and e.d["name"] in (CL, MAP) for e in it.events)):
        ctx.ok("contradictory-input", C)
    elif raised:
        ctx.und("contradictory-input", C, "refused conditionally")
    else:
        ctx.bad("contradictory-input", C, "a cluster list and a map are both accepted", f.where)


def move(ctx, prog, cls):
    it, _, s = start(prog)
    f = cls.find("move_node")
    if f is None:
        raise AnalysisBroken("Partition.move_node")
    r = it.run(f, selft=s)
    ctx.saw(it)
    C = "Partition.move_node"
    ps = f.params()
    node, cf = r.bound[ps[1]], r.bound[ps[2]]
    ci = mk("idx", mk("attr", s, MAP), node)
    src, dst, tab = mk("idx", mk("attr", s, CL), ci), mk("idx", mk("attr", s, CL), cf), mk("attr", s, MAP)
    rem = [e for e in it.events if e.kind == "mutate" and e.d["how"] in (".remove", ".discard")]
    add = [e for e in it.events if e.kind == "mutate" and e.d["how"] == ".add"]
    sto = [e for e in it.events if e.kind == "setitem" and T.strip(e.d["base"]) is tab]
    other = [e for e in it.events if (e.kind in ("mutate", "delitem") and e not in rem + add) or
             (e.kind == "setattr" and e.d["name"] in (CL, MAP)) or (e.kind == "setitem" and e not in sto)]
    other = [e for e in other if e.kind != "mutate" or any(y is s for y in subterms(T.strip(e.d["target"])))]
    if other or any(e.loops for e in rem + add + sto):
        ctx.und("move", C, "other updates: %s" % [e.kind for e in other])
        return

    def one(es, what, tgt, okf):
        if not es:
            ctx.bad("move", C, "the node is never %s" % what, f.where)
            return None
        if len(es) != 1:
            ctx.und("move", C, "%d updates (%s)" % (len(es), what))
            return None
        return es[0]
    a, b, c = one(rem, "taken out of its cluster", src, 0), one(add, "put into the target cluster", dst, 0), one(sto, "recorded in the map", tab, 0)
    if None in (a, b, c):
        return
    ctx.check(T.strip(a.d["target"]) is src and T.strip(a.d["args"][0]) is node, "move-source", C,
              "%s is removed from %s instead of its recorded cluster" % (a.d["args"][0], a.d["target"]), f.where)
    ctx.check(T.strip(b.d["target"]) is dst and T.strip(b.d["args"][0]) is node, "move-target", C,
              "%s is added to %s" % (b.d["args"][0], b.d["target"]), f.where)
    ctx.check(T.strip(c.d["key"]) is node and T.strip(c.d["value"]) is cf, "move-record", C,
              "the map records %s -> %s" % (c.d["key"], c.d["value"]), f.where)
    g = [frozenset(T.strip(x) for x in e.guards) for e in (a, b, c)]
    differ = not_(T.cmp_("==", ci, cf))
    if g[0] == g[1] == g[2]:
        if g[0] == {differ}:
            ctx.ok("move-atomic", C)
        elif not g[0]:
            ctx.check(a.n < b.n, "move-atomic", C, "moving a node to its own cluster removes it after adding it", f.where)
        elif not differ in g[0] and all(x.op in ("lt", "le", "in") for x in g[0]):
            ctx.und("move-atomic", C, str(g[0]))
        else:
            odd = g[0] - {differ}
            if odd and all(not any(y.op == "phi" for y in subterms(x)) for x in odd):
                ctx.und("move-atomic", C, "extra condition %s" % "; ".join(map(str, odd)))
            else:
                ctx.und("move-atomic", C)
    else:
        ctx.bad("move-atomic", C, "the three updates of a move happen on different paths: %s" % " / ".join(
            "[" + "; ".join(map(str, x)) + "]" for x in g), f.where)


def views(ctx, prog, cls):
    # iteration over the clusters: in list order, all members
    it, _, s = start(prog)
    f = cls.find("iter_cluster_node_index")
    if f is not None:
        r = it.run(f, selft=s)
        ctx.saw(it)
        C = "Partition.iter_cluster_node_index"
        ys = [e for e in it.events if e.kind == "yield"]
        lst = mk("attr", s, CL)
        ok = None
        if len(ys) == 1:
            y = ys[0]
            v = y.d.get("value")
            el = mk("elem", lst, None)
            roots = [x for x in subterms(T.strip(mk("tuple", v, *(it.heaplog.get((v, "[]")) or ())))) if x.op == "elem"]
            whole = [x for x in roots if x.args[0] is lst]
            partial = [x for x in roots if x.args[0].op in ("idx", "select") and x.args[0].args[1].op == "slice"]
            g = [c for c in y.guards if c.op != "iter"]
            if whole and not partial and not g:
                ok = True
            elif g and all(nonempty_test(T.strip(c), w) for c in g for w in whole):
                ok = False       # indices of later clusters shift
            elif partial:
                ok = False
        ctx.tri(ok, "cluster-order", C, "the k-th node list is not the k-th cluster", f.where, "%d yields" % len(ys))
    f = cls.find("get_num_clusters")
    if f is not None:
        it, _, s = start(prog)
        r = it.run(f, selft=s, args={f.params()[1]: FALSE} if len(f.params()) > 1 else {})
        C = "Partition.get_num_clusters"
        v = T.strip(r.value)
        want = mk("call", "len", (mk("attr", s, CL),), (), None)
        if v is want:
            ctx.ok("cluster-count", C)
        elif cval_or(T.sub(v, want)) is not None:
            ctx.bad("cluster-count", C, "the number of clusters is %s" % v, f.where)
        else:
            ctx.und("cluster-count", C, str(v))
        if len(f.params()) > 1:
            it, _, s = start(prog)
            r = it.run(f, selft=s, args={f.params()[1]: TRUE})
            ctx.saw(it)
            C += " non-empty"
            v = r.value
            ok = None
            cont = [x for x in subterms(v) if x.op == "contents"]
            if v.op == "call" and v.args[0] == "len" and len(cont) == 1:
                try:
                    es, bases = Conts(it, r.st).entries(cont[0].args[1])
                    es = dedup(es)
                    if len(es) == 1 and not bases:
                        x = T.strip(es[0].val)
                        cs = [T.strip(c) for c in es[0].conds]
                        if x.op == "elem" and x.args[0] is mk("attr", s, CL):
                            ok = bool(cs) and all(nonempty_test(c, x) for c in cs)
                            if not ok and any(y.op in ("phi", "sym") for c in cs for y in subterms(c) if y is not s):
                                ok = None
                except Conts.Unknown:
                    pass
            elif T.strip(v) is want:
                ok = False
            ctx.tri(ok, "cluster-count", C, "not exactly the non-empty clusters are counted", f.where, str(v)[:120])
    f = cls.find("get_indicator")
    if f is not None:
        for sp in (True, False):
            with ctx.guard("indicator", "Partition.get_indicator"):
                indicator(ctx, prog, cls, f, sp)
    f = cls.find("check_integrity")
    if f is not None:
        it, _, s = start(prog)
        r = it.run(f, selft=s)
        ctx.saw(it)
        C = "Partition.check_integrity"
        rs = [e for e in it.events if e.kind == "raise"]
        over = [e for e in rs if any(".intersection" in str(x) or x.op in ("binBitAnd",) for g in e.guards
                                     for x in _deep(it, g))]
        num = mk("attr", s, "num_nodes")
        cnt = [e for e in rs if any(num in subterms(T.strip(g)) for g in e.guards)]
        if over:
            for e in over:
                gs = [T.strip(g) for g in e.guards if g.op != "iter"]
                ls = {x for g in gs for x in subterms(g) if x.op == "call" and str(x.args[0]) == "len" and x.args[1][0].op == "contents"}
                if len(ls) != 1 or any(num in subterms(g) for g in gs):
                    continue
                l = ls.pop()
                vs = [T.and_(*[T.subst(g, {l: const(n)}) for g in gs]) for n in (0, 1, 2, 5)]
                ctx.tri(None if any(v not in (TRUE, FALSE) for v in vs) else vs == [FALSE, TRUE, TRUE, TRUE], "integrity-overlap", C + " refusal",
                        "clusters are refused when %s, not when any node is shared" % gs, e.where, str(gs))
            ctx.ok("integrity-overlap", C)
            pairs(ctx, it, s, C, f)
        else:
            ctx.und("integrity-overlap", C, "no refusal that depends on an intersection of clusters") if rs else \
                ctx.bad("integrity-overlap", C, "overlapping clusters are never refused", f.where)
        if cnt:
            bad = None
            for e in cnt:
                for g in map(T.strip, e.guards):
                    if num in subterms(g):
                        if g.op == "not" and g.args[0].op == "eq":
                            bad = False
                        elif g.op in ("lt", "le") and bad is None:
                            bad = True
            lst = mk("attr", s, CL)
            for x in {x for e in cnt for g in e.guards if num in subterms(T.strip(g)) for x in subterms(T.strip(g)) if x.op == "phi"}:
                i = it.phis.get(x)
                if i is None:
                    continue
                d = T.sub(T.strip(i.back), x)
                ls = {y for y in subterms(d) if y.op == "call" and str(y.args[0]) == "len" and T.strip(y.args[1][0]).op in ("idx", "select", "elem")
                      and lst in subterms(y)}
                if len(ls) == 1:
                    l = ls.pop()
                    try:
                        same = all(num_(d, lambda t: n if t is l else None) == n for n in (0, 1, 2, 3, 7))
                    except NotNumeric:
                        same = None
                    ctx.tri(same, "integrity-missing", C + " count", "the number of nodes counts a cluster as %s" % d, f.where, str(d))
            ctx.tri({False: True, True: False}.get(bad), "integrity-missing", C, "a node count that differs from the number of nodes is accepted", f.where)
        else:
            ctx.und("integrity-missing", C) if rs else ctx.bad("integrity-missing", C, "missing nodes are never refused", f.where)


def pairs(ctx, it, s, C, f):
    """every two clusters are compared"""
    lst = mk("attr", s, CL)
    for e in it.events:
        if e.kind != "mutate" or not any(x.op == "call" and x.args[0] == ".intersection" for a in e.d["args"] for x in subterms(a)):
            continue
        x = next(x for a in e.d["args"] for x in subterms(T.strip(a)) if x.op == "call" and x.args[0] == ".intersection")
        if len(x.args[1]) != 2 or not all(y.op in ("idx", "select") and y.args[0] is lst for y in x.args[1]):
            continue
        i, j = (y.args[1] for y in x.args[1])
        whole = mk("call", "range", (mk("call", "len", (lst,), (), None),), (), None)
        gs = [T.strip(g) for g in e.guards if g.op != "iter"]
        if i is j or not all(y.op == "elem" for y in (i, j)):
            continue
        rng = {}
        for y in (i, j):
            z = y.args[0]
            if z.op == "call" and z.args[0] == "range" and not z.args[2] and 1 <= len(z.args[1]) <= 2:
                rng[y] = z.args[1] if len(z.args[1]) == 2 else (const(0), z.args[1][0])
        if len(rng) != 2:
            continue
        seen = set()
        outer = (j, i) if i in subterms(j) else (i, j)      # an index that depends on the other one first
        for a in range(5):
            for b in range(5):
                m = {i: const(a), j: const(b)}

                def at(t):
                    for y in outer:
                        t = T.subst(t, {y: m[y]})
                    return T.subst(t, {whole.args[1][0]: const(5)})
                vs = [at(g) for g in gs]
                for y, (l, h) in rng.items():
                    vs += [T.cmp_("<=", at(l), m[y]), T.cmp_("<", m[y], at(h))]
                if all(v is TRUE for v in vs):
                    seen.add(frozenset((a, b)))
                elif not any(v is FALSE for v in vs):
                    ctx.und("integrity-overlap", C + " pairs", str(vs))
                    return
        miss = [(a, b) for a in range(5) for b in range(a) if frozenset((a, b)) not in seen]
        ctx.check(not miss, "integrity-overlap", C + " pairs", "clusters %d and %d are not compared" % (miss[0] if miss else (0, 0)), e.where)


def indicator(ctx, prog, cls, f, sparse):
    """one exactly at (node, its cluster)"""
    it, _, s = start(prog)
    r = it.run(f, selft=s, args={f.params()[1]: TRUE if sparse else FALSE})
    ctx.saw(it)
    C = "Partition.get_indicator %s" % ("sparse" if sparse else "dense")
    lst, num = mk("attr", s, CL), mk("attr", s, "num_nodes")
    cnt = mk("call", "len", (lst,), (), None)
    v = T.unver(r.value)
    sets = [e for e in it.events if e.kind == "setitem"]

    def cl(t):
        """list of the nodes of cluster i -> i"""
        t = T.unver(t)
        c = it.made.get(t) if t.op == "obj" else None
        if c is not None:
            t = T.strip(c.args[0]) if c.op in ("listof", "sortedof") else t
        t = T.strip(t)
        if t.op in ("idx", "select") and t.args[0] is lst:
            return t.args[1]
        if t.op == "elem" and t.args[0] is lst:
            return t
        return None

    def pos(i, e):
        """runs over all the clusters"""
        i = T.strip(i)
        return i.op == "elem" and i.args[0] is mk("call", "range", (cnt,), (), None)

    def plain(t):
        return {str(x.args[0]) for x in subterms(t) if x.op == "call"} <= {"len", "range", "max", "min", "numpy.zeros", "numpy.ones", "abs"}
    if not sparse:
        es = [e for e in sets if T.unver(e.d["base"]) is v and e.d["key"].op == "tuple" and len(e.d["key"].args) == 2]
        if len(es) != 1 or not (v.op == "call" and v.args[0] == "numpy.zeros"):
            ctx.und("indicator", C, "%d stores" % len(es))
            return
        e = es[0]
        a, b = e.d["key"].args
        i, k = cl(a), cl(b)
        g = [x for x in e.guards if x.op != "iter"]
        if k is not None and i is None:
            ctx.bad("indicator", C, "rows and columns are exchanged", e.where)
        elif i is None:
            part = [y for q in (a, *((it.made[a],) if a in it.made else ())) for y in subterms(T.strip(q)) if y.op in ("idx", "select") and y.args[0] is lst and y.args[1].op == "slice"]
            ctx.tri(False if part else None, "indicator", C, "only the clusters %s are marked" % (part[0] if part else ""), e.where, str(e.d["key"])[:160])
        else:
            ok = T.strip(b) is T.strip(i) and pos(i, e) and e.d["value"] is const(1) and not g
            ctx.tri(True if ok else (False if plain(T.strip(b)) and plain(T.strip(i)) else None), "indicator", C, "nodes of cluster %s get %s in column %s" % (i, e.d["value"], b), e.where, str(b)[:100])
        sh = T.strip(v.args[1][0])
        ctx.tri(True if sh is mk("tuple", num, cnt) else (False if sh is mk("tuple", cnt, num) else None), "indicator", C + " shape", "the matrix has shape %s" % sh, e.where, str(sh)[:100])
        return
    if not (v.op == "call" and str(v.args[0]).endswith("csc_matrix") and v.args[1] and T.unver(v.args[1][0]).op == "tuple" and len(v.args[1][0].args) == 3):
        ctx.und("indicator", C, str(v)[:160])
        return
    data, ind, ptr = (T.unver(x) for x in v.args[1][0].args)
    sh = T.strip(dict(v.args[2]).get("shape", NONE))
    ctx.tri(True if sh is mk("tuple", num, cnt) else (False if sh in (NONE, mk("tuple", cnt, num)) else None), "indicator", C + " shape", "the matrix has shape %s" % sh, f.where, str(sh)[:100])
    ctx.tri(True if data.op == "call" and data.args[0] == "numpy.ones" and data.args[1][0] is num else None, "indicator", C + " values", "", f.where, str(data)[:100])
    ps = [e for e in sets if T.unver(e.d["base"]) is ptr]
    xs = [e for e in sets if T.unver(e.d["base"]) is ind]
    if len(ps) != 1 or len(xs) != 1:
        ctx.und("indicator", C, "%d, %d stores" % (len(ps), len(xs)))
        return
    e = ps[0]
    i = T.strip(T.sub(e.d["key"], const(1)))
    low = [x for x in subterms(e.d["value"]) if x.op in ("idx", "select") and x.args[0].op == "phi" and T.strip(x.args[1]) is i]
    w = None
    if len(low) == 1:
        w = T.sub(e.d["value"], low[0])
    ok = w is not None and pos(i, e) and T.strip(w) is T.strip(mk("call", "len", (mk("idx", lst, i),), (), None)) and len(e.guards) == 1
    ctx.tri(True if ok else (False if w is not None and plain(T.strip(w)) else None), "indicator", C + " widths", "column %s has %s entries" % (i, w), e.where, str(e.d["value"])[:120])
    if not ok:
        return
    x = xs[0]
    k = x.d["key"]
    c = cl(x.d["value"])
    if k.op != "slice" or c is None:
        ctx.und("indicator", C + " rows", str(k)[:120])
        return
    a, b = T.strip(k.args[0]), T.strip(k.args[1])
    ok = a is T.strip(low[0]) and b is T.strip(e.d["value"]) and T.strip(c) is i
    ctx.tri(True if ok else (False if plain(a) and plain(b) else None), "indicator", C + " rows", "nodes of cluster %s are written to %s" % (c, k), x.where, str(k)[:120])


def _deep(it, g):
    seen = set()
    return list(subterms(T.strip(g), lambda p: [z for z in (it.phis[p].init, it.phis[p].back) if z is not None] if p in it.phis else []))


MUT = {"add", "remove", "discard", "update", "clear", "pop", "append", "extend", "insert", "popitem", "setdefault", "sort", "reverse",
       "difference_update", "intersection_update", "symmetric_difference_update"}


def _attr_of_view(n, aliases):
    """expression rooted at (or containing on its access path) one of the two views"""
    while True:
        if isinstance(n, ast.Attribute):
            if n.attr in (CL, MAP):
                return True
            n = n.value
        elif isinstance(n, ast.Subscript):
            n = n.value
        elif isinstance(n, ast.Name):
            return n.id in aliases
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("values", "items", "get"):
            n = n.func.value
        else:
            return False


def outside(ctx, prog):
    """no store to a partition's views outside the partition class"""
    pcls = prog.cls("Partition")
    own = {f.node for c in prog.subclasses("Partition") for f in c.methods.values()}
    # helpers of the partition class: new functions that only its methods (or other such helpers) mention
    fns = [(m, x) for m in prog.modules.values() for x in ast.walk(m.tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]
    men = {}
    for m, x in fns:
        for y in ast.walk(x):
            k = y.id if isinstance(y, ast.Name) else y.attr if isinstance(y, ast.Attribute) else None
            if k is not None and k not in KNOWN:
                men.setdefault(k, set()).add(x)
    grew = True
    while grew:
        grew = False
        for m, x in fns:
            if x not in own and x.name not in KNOWN and men.get(x.name) and men[x.name] - {x} and men[x.name] - {x} <= own:
                own.add(x)
                grew = True
    n = 0
    for m in prog.modules.values():
        for fn in [x for x in ast.walk(m.tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
            if fn in own:
                continue
            if not any(isinstance(x, ast.Attribute) and x.attr in (CL, MAP) for x in ast.walk(fn)):
                continue
            n += 1
            aliases = set()
            for _ in range(3):
                for x in ast.walk(fn):
                    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) \
                            and isinstance(x.value, (ast.Attribute, ast.Subscript)) and _attr_of_view(x.value, aliases):
                        aliases.add(x.targets[0].id)
                    if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and _attr_of_view(x.iter, aliases):
                        aliases.add(x.target.id)
                    if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == "enumerate" \
                            and x.iter.args and _attr_of_view(x.iter.args[0], aliases) and isinstance(x.target, ast.Tuple) and len(x.target.elts) == 2 \
                            and isinstance(x.target.elts[1], ast.Name):
                        aliases.add(x.target.elts[1].id)
            C = "%s:%s" % (m.short, fn.name)
            bad = None
            # names bound in the function to fresh copies are not aliases
            for x in ast.walk(fn):
                tg = []
                if isinstance(x, ast.Assign):
                    tg = x.targets
                elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                    tg = [x.target]
                elif isinstance(x, ast.Delete):
                    tg = x.targets
                for t in tg:
                    for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(y, ast.Attribute) and y.attr in (CL, MAP) and not (isinstance(y.value, ast.Name) and y.value.id == "self" and not _is_clusteringish(prog, m, fn)):
                            if isinstance(y.value, ast.Name) and y.value.id == "self":
                                continue        # an attribute of another class
                            bad = "line %d: %s is replaced" % (x.lineno, ast.unparse(y))
                        elif isinstance(y, ast.Subscript) and _attr_of_view(y, aliases):
                            bad = "line %d: %s is overwritten" % (x.lineno, ast.unparse(y))
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT and _attr_of_view(x.func.value, aliases):
                    bad = "line %d: %s" % (x.lineno, ast.unparse(x)[:100])
            if bad:
                ctx.bad("view-writers", C, bad)
            else:
                ctx.ok("view-writers", C)


def _is_clusteringish(prog, m, fn):
    return False


def alias(ctx, prog):
    for cls in prog.subclasses("Clustering"):
        C = "%s()" % cls.name
        if any("partition" in c.props for c in cls.mro()):
            g = next(c.props["partition"] for c in cls.mro() if "partition" in c.props)
            ctx.und("public-partition", C, "computed property")
            continue
        it = Interp(prog, opaque=lambda f: f.name in ("_compute_S",))
        s = it.new_instance(cls)
        f = cls.find("__init__")
        r = it.run(f, selft=s)
        ctx.saw(it)
        a, b = r.st.heap.get((s, "partition")), r.st.heap.get((s, "source_part"))
        _same(ctx, C, a, b, f.where, "after construction")
        f = cls.find("find_louvain_clustering")
        it = Interp(prog, opaque=lambda g: g.name in ("_louvain_move_nodes", "_aggregate_clusters", "_save_progress", "_check_if_S_is_zero",
                                                      "__init__", "_get_cluster_list", "_get_num_clusters"), max_depth=6)
        s = it.new_instance(cls)
        r = it.run(f, selft=s)
        ctx.saw(it)
        a, b = r.st.heap.get((s, "partition")), r.st.heap.get((s, "source_part"))
        _same(ctx, "%s.find_louvain_clustering" % cls.name, a, b, f.where, "after the search")


def _same(ctx, C, a, b, where, when):
    if a is None and b is None:
        ctx.und("public-partition", C, "neither is written")
        return
    if a is None or b is None:
        ctx.bad("public-partition", C, "%s the public partition and the partition the search works on can be different objects" % when, where)
        return
    a, b = T.strip(a), T.strip(b)
    if a is b:
        ctx.ok("public-partition", C)
        return
    cs = T.cases(T.sub(a, b)) if False else None
    if {x.op for x in (a, b)} <= {"obj", "attr", "phi", "call", "sym", "ite"}:
        ctx.bad("public-partition", C, "%s the public partition is %s but the search works on %s" % (when, a, b), where)
    else:
        ctx.und("public-partition", C, "%s / %s" % (a, b))
