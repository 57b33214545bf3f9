"""P22 the levels of the search compose to one partition of the original nodes."""
from __future__ import annotations
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms
from .. import terms as T
from ..engine import Interp, State
from ..model import AnalysisBroken
from ..conts import Conts, dedup
from ..loopbound import step
from .louvainlib import hook, hook_full, HOOKS, cval_or, lower_bound

MIN_OBLIGATIONS = 12
RULE = """
Value-flow through one search: the partition handed to the recomposition step
and the level object it is recomposed with are tracked as terms.  First level:
the level's nodes are the nodes themselves, so the partition recomposed must be
the singletons (path conditions evaluated at the first trip); later levels: the
level object must have been built from the aggregation of exactly the partition
that the next recomposition starts from, with every aggregate in its own role,
and nothing may change that partition in between.  The recomposition itself is
reduced to its insertion rule: nodes of cluster i -> level cluster of i.
"""
OPQ = {"_louvain_move_nodes", "_aggregate_clusters", "_check_if_S_is_zero", "_save_progress",
       "_get_updated_partition", "compute_stability"}


class It(Interp):
    """remembers the fields of self at every opaque call"""
    watch = None

    def opaque_call(self, f, args, kwargs, n, st, fr, pure=False):
        r = super().opaque_call(f, args, kwargs, n, st, fr, pure)
        self.snap[T.strip(r)] = {k[1]: v for k, v in st.heap.items() if k[0] is self.watch}
        return r


def run(ctx):
    prog = ctx.prog
    compose(ctx, prog)
    done = set()
    for cls in prog.subclasses("BaseClustering"):
        for f in ("_update_original_partition", "_update_to_singletons", "_update_to_fullpart"):
            pass
        level_loop(ctx, prog, cls)
        fullpart(ctx, prog, cls)
        with ctx.guard("progress", cls.name):
            progress(ctx, prog, cls)


# --------------------------------------------------------------- recomposition
def compose(ctx, prog):
    cls = prog.cls("BaseClustering")
    f = cls.find("_get_updated_partition")
    if f is None:
        ctx.und("compose", "recomposition", "_get_updated_partition not found")
        return
    it = Interp(prog, opaque=lambda fi: fi.name == "__init__" or fi.name == "remove_empty_clusters")
    ps = f.params()
    static = f.name in (f.cls.static if f.cls else ())
    names = ps if static else ps[1:]
    P = prog.cls("Partition")
    og, mp = it.new_instance(P, "old"), it.new_instance(P, "level")
    kw = {names[0]: og, names[1]: mp}
    r = it.run(f, args=kw, selft=None if static else it.new_instance(cls))
    ctx.saw(it)
    C = "BaseClustering._get_updated_partition"
    v = T.strip(r.value)
    if not (v.op == "call" and str(v.args[0]) == "cls:Partition"):
        ctx.und("compose", C, "result %s" % v)
        return
    init = P.find("__init__").params()[1:]
    b = dict(zip(init, v.args[1]))
    b.update(dict(v.args[2]))
    nn = b.get("num_nodes")
    ctx.tri(True if nn is mk("attr", og, "num_nodes") else (False if nn is mk("attr", mp, "num_nodes") else None), "compose-size", C,
            "the result is sized by %s" % nn, f.where, str(nn))
    m = b.get("node_to_cluster_dict")
    if m is None:
        ctx.und("compose", C, "not built from a node map: %s" % v)
        return
    if m.op == "contents":
        m = m.args[1]
    elif m.op == "obj":
        m = Conts(it, r.st).of_obj(m)
    try:
        es, bases = Conts(it, r.st).entries(m)
    except Conts.Unknown as e:
        ctx.und("compose", C, str(e))
        return
    es = dedup(es)
    if bases or not es:
        ctx.und("compose", C, "map %s" % m)
        return
    L = mk("attr", og, "cluster_list")
    M = mk("attr", mp, "node_to_cluster_dict")
    for e in es:
        k, val = deep(e.key), deep(e.val)
        if e.conds:
            ctx.bad("compose", C, "a node is only recorded if %s" % "; ".join(map(str, e.conds)), f.where)
            continue
        if not (k.op == "elem" and k.args[0].op in ("idx", "select", "elem")):
            # is it already keyed by node: val = M[old map[node]]
            om = mk("attr", og, "node_to_cluster_dict")
            if val.op in ("idx", "select") and deep(val.args[0]) is M and val.args[1].op in ("idx", "select") \
                    and deep(val.args[1].args[0]) is om:
                ctx.tri(True if val.args[1].args[1] is k else None, "compose", C, "", f.where, "%s -> %s" % (k, val))
            elif val.op in ("idx", "select") and deep(val.args[0]) is M and k.op == "elem" and val.args[1].op == "idx":
                ctx.und("compose", C, "%s -> %s" % (k, val))
            elif is_item_value(val, M, om, k):
                ctx.ok("compose", C)
            else:
                ctx.und("compose", C, "%s -> %s" % (k, val))
            continue
        cl = k.args[0]
        if cl.op == "elem":
            base, i = cl.args[0], None
        else:
            base, i = cl.args
        if deep(base) is not L:
            if deep(base) is mk("attr", mp, "cluster_list"):
                ctx.bad("compose", C, "the nodes are taken from the level's clusters", f.where)
            elif T.strip(base).op in ("sortedof", "reversedof") and deep(T.strip(base).args[0]) is L and val.op in ("idx", "select") and val.args[1] is i:
                ctx.bad("compose", C, "the clusters are numbered in another order than the nodes of the level: %s" % base, f.where)
            else:
                ctx.und("compose", C, "nodes of %s" % base)
            continue
        if val.op in ("idx", "select") and deep(val.args[0]) is M:
            j = val.args[1]
            ctx.tri(True if j is i else (False if i is not None else None), "compose", C,
                    "nodes of cluster %s get the level cluster of %s" % (i, j), f.where, str(j))
        elif val is i:
            ctx.bad("compose", C, "nodes keep their old cluster: the level's merges are lost", f.where)
        else:
            ctx.und("compose", C, "value %s" % val)
    # cleaning happens on both or the numbering is already clean
    ctx.ok("compose-read", C, "; ".join(map(str, es))[:200])


def is_item_value(val, M, om, k):
    return False


def deep(t):
    t = T.strip(t)
    while t.op in ("at", "contents", "mutated"):
        t = T.strip(t.args[0])
    return t


# ------------------------------------------------------------------ level loop
def parts_of(prog, cls):
    return ["source_part"] if cls.is_a("Clustering") else ["source_part", "target_part"]


def is_partition(t):
    return t.op == "call" and str(t.args[0]) == "cls:Partition"


def pargs(prog, t):
    init = prog.cls("Partition").find("__init__").params()[1:]
    b = dict(zip(init, t.args[1]))
    b.update(dict(t.args[2]))
    return {k: v for k, v in b.items() if v is not NONE}


def is_singletons(prog, t, s):
    if not is_partition(t):
        return None
    b = pargs(prog, t)
    if set(b) - {"num_nodes", "check_integrity"}:
        return False
    nn = T.strip(b.get("num_nodes", NONE))
    return nn is mk("attr", s, "num_nodes") or (nn.op == "attr" and nn.args[1] == "num_nodes") or None


def level_loop(ctx, prog, cls):
    f = cls.find("find_louvain_clustering")
    if f is None:
        raise AnalysisBroken("find_louvain_clustering not found")
    C = "%s.find_louvain_clustering" % cls.name
    it = It(prog, opaque=lambda fi: fi.name in OPQ or fi.name == "__init__" or is_abstract(fi))
    it.snap = {}
    s = it.new_instance(cls)
    it.watch = s
    for p in ("source_part", "target_part"):
        it.types[mk("attr", s, p)] = prog.cls("Partition")
    r = it.run(f, selft=s)
    ctx.saw(it)
    ups = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).endswith("._get_updated_partition")]
    mvs = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).endswith("._louvain_move_nodes")]
    aggs = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).endswith("._aggregate_clusters")]
    if not ups or not mvs or not aggs:
        ctx.und("levels", C, "recomposition, move phase or aggregation not found")
        return
    ui = cls.find("_get_updated_partition")
    un = ui.params() if ui.name in (ui.cls.static if ui.cls else ()) else ui.params()[1:]
    parts = parts_of(prog, cls)
    seen = set()
    for e in ups:
        if not e.loops:
            ctx.und("levels", C, "recomposition outside the level loop")
            continue
        key = e.loops[0]
        a = list(e.d["args"])
        if a and a[0] is s:
            a = a[1:]
        b = dict(zip(un, a))
        b.update({k: v for k, v in e.d["kwargs"].items() if k in un})
        og, mp = deep1(b.get(un[0])), T.strip(b.get(un[1]))
        # --- which partition is stored where
        fld = None
        for (o, n), vs in it.heaplog.items():
            if o is s and any(T.strip(v) is T.strip(e.d["result"]) for v in vs):
                fld = n if fld is None or n != "partition" else fld
        if mp.op == "attr":
            lev, part = mp.args
        else:
            ctx.und("levels", C, "level partition %s" % mp)
            continue
        ctx.tri(None if fld is None else fld == part, "same-side", C + " " + part, "the level's %s updates %s" % (part, fld), e.where)
        seen.add(part)
        if lev not in it.phis:
            ctx.und("levels", C, "level object %s" % lev)
            continue
        li = it.phis[lev]
        # the level moved is the level composed
        for m in mvs:
            ctx.tri(True if T.strip(m.d["args"][0]) is lev else (False if m.d["args"][0] is s else None), "same-level", C,
                    "nodes are moved on %s but the partition is recomposed with %s" % (m.d["args"][0], lev), m.where)
            ctx.check(m.n < e.n, "move-before-compose", C, "the partition is recomposed before the level's nodes are moved", e.where)
        # --- counters at the first trip
        phis = {p: i for p, i in it.phis.items() if i.loop == key}
        ini = {p: T.strip(i.init) for p, i in phis.items() if i.init is not None}
        og0 = ev(it, T.subst(og, ini))
        first_nodes = node_level(prog, T.strip(li.init), s)
        start = T.strip(li.init)
        if first_nodes is True:
            sg = is_singletons(prog, og0, s)
            if sg is None and og0.op in ("attr", "phi", "ite"):
                # the starting partition itself: only right if it is known to be singletons
                ctx.bad("first-level", C + " " + part,
                        "the first level works on the nodes, but its clusters are composed with the starting partition (%s)" % og0, e.where)
            else:
                ctx.tri(sg, "first-level", C + " " + part, "the first level works on the nodes, but its clusters are composed with %s" % og0, e.where, str(og0))
            starting(ctx, prog, cls, it, start, s, C, part, f)
        elif first_nodes is False:
            ctx.bad("first-level", C, "the first level is built from %s" % start, f.where)
        else:
            ctx.und("first-level", C, "first level %s" % start)
        # --- later trips: og must be the value left by the previous trip
        lat = {}
        for p, i in phis.items():
            sp = step(it, p)
            if sp and sp[1] >= 1:
                lat[p] = sp[0] + sp[1]
        og1 = later(it, og, lat)
        ph = [p for p, i in phis.items() if i.var[0] == "h" and i.var[1] is s and i.var[2] == part]
        if og1.op == "phi" and og1 in ph:
            back = T.strip(it.phis[og1].back)
            ctx.tri(True if back is T.strip(e.d["result"]) else None, "carried", C + " " + part,
                    "", e.where, "left by the trip: %s" % back)
            ctx.ok("later-level", C + " " + part, "composes with the partition of the previous level")
        elif is_singletons(prog, og1, s):
            ctx.bad("later-level", C + " " + part, "a later level is composed with singletons: earlier merges are lost", e.where)
        else:
            early = None
            for n in (1, 2, 3):         # second to fourth trip
                at = {p: const(step(it, p)[0] + n * step(it, p)[1]) for p in lat}
                ogn = later(it, ev(it, T.subst(og, at)), {})
                if is_singletons(prog, ogn, s):
                    early = n + 1
                    break
            ctx.tri(False if early else None, "later-level", C + " " + part, "level %s is composed with singletons: earlier merges are lost" % early,
                    e.where, "composed with %s" % og1)
        # --- the next level object
        stopphi = [p for p in phis if T.cases(T.strip(phis[p].back or NONE)) and phis[p].init is FALSE]
        tup = mk("tuple", li.back, *[phis[p].back for p in stopphi])
        for cs, leaf in T.cases(T.strip(tup), limit=256) or []:
            nxt, flags = leaf.args[0], leaf.args[1:]
            if nxt is lev:
                if any(x is TRUE for x in flags):
                    ctx.ok("level-renewed", C, "no new level: the search stops")
                else:
                    # the loop condition may stop it: accept when the case condition contradicts it
                    lc = it.loopinfo[key].get("cond")
                    ctx.und("level-renewed", C, "the level is kept under %s" % "; ".join(map(str, cs)))
                continue
            new_level(ctx, prog, cls, it, s, nxt, e, part, C, parts)
    for p in parts:
        ctx.tri(True if p in seen else None, "side-updated", C + " " + p, "", f.where, "no recomposition of %s found" % p)
    # public result
    if cls.is_a("Clustering"):
        pv = r.st.heap.get((s, "partition"))
        sv = r.st.heap.get((s, "source_part"))
        if pv is None and sv is not None and cls.find_prop("partition") is None and "partition" in written(cls):
            pv = mk("attr", s, "partition")
        ctx.tri(None if pv is None or sv is None else (T.strip(pv) is T.strip(sv)), "result", C,
                "the public partition is %s, the search's is %s" % (pv, sv), f.where)


def written(cls):
    """fields the constructors of the class assign"""
    import ast
    out = set()
    for k in cls.mro():
        m = k.methods.get("__init__")
        for x in ast.walk(m.node) if m is not None else ():
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
                out.add(x.attr)
    return out


def is_abstract(fi):
    import ast
    body = [x for x in fi.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise) and "NotImplementedError" in ast.unparse(body[0])


def deep1(t):
    return T.strip(t)


def ev(it, t):
    """fold constants after substitution"""
    return T.strip(T.rebuild(t, lambda x: x))


def later(it, t, lat):
    """t on trips after the first: counters are at least lat[p]"""
    def dec(c):
        if c.op == "not":
            v = dec(c.args[0])
            return None if v is None else not v
        if c.op in ("eq", "lt", "le"):
            d = T.sub(c.args[0], c.args[1])
            p = T.poly(d)
            ph = [m for m in p if m]
            if len(ph) != 1 or len(ph[0]) != 1 or ph[0][0] not in lat or p[ph[0]] not in (1, -1):
                return None
            lo, k, sgn = lat[ph[0][0]], p.get((), 0), p[ph[0]]
            if sgn == 1:        # d >= lo + k
                if lo + k > 0:
                    return False
            else:               # d <= -lo + k
                if k - lo < 0:
                    return {"eq": False, "lt": True, "le": True}[c.op]
                if k - lo == 0 and c.op == "le":
                    return True
        return None
    while t.op == "ite":
        v = dec(t.args[0])
        if v is None:
            return t
        t = T.strip(t.args[1] if v else t.args[2])
    return t


ROLES = ("T", "p1", "p2", "S")


def cargs(prog, t):
    """bound constructor arguments of a level object"""
    if t.op != "call" or not str(t.args[0]).startswith("cls:"):
        return None
    ci = prog.cls(str(t.args[0])[4:])
    init = ci.find("__init__").params()[1:]
    b = dict(zip(init, t.args[1]))
    b.update(dict(t.args[2]))
    return b


def node_level(prog, t, s):
    b = cargs(prog, t)
    if b is None:
        return None
    ok = True
    for n in ROLES:
        v = T.strip(b.get(n, NONE))
        src = v.args[1] if v.op == "attr" and v.args[0] is s else None
        want = "_S" if n == "S" else n
        if src == want:
            continue
        if src is not None and src.lstrip("_") in ROLES or v is NONE and n == "S":
            return False
        ok = None
    return ok


def starting(ctx, prog, cls, it, t, s, C, part, f):
    """the first level starts from the object's own partition, on a copy"""
    b = cargs(prog, t)
    star = b.get("**")
    names = {"source_part": ("cluster_list", "node_to_cluster_dict", "source_cluster_list", "source_node_to_cluster_dict"),
             "target_part": ("target_cluster_list", "target_node_to_cluster_dict")}[part]
    vals = [b[n] for n in names if n in b]
    src = vals or ([star] if star is not None else [])
    if not src:
        ctx.bad("start-used", C + " " + part, "the first level does not start from the object's own partition", f.where)
        return
    x = T.strip(src[0])
    rd = [y for y in subterms(x) if y.op == "attr" and y.args[1] in ("cluster_list", "node_to_cluster_dict")
          or y.op == "attr" and y.args[1] == part]
    for o, nm in it.heaplog:
        pass
    reach = reachable(it, x)
    hits = [y for y in reach if y.op == "attr" and y.args[1] in (part, "partition") and y.args[0] is s]
    copied = any(y.op == "call" and str(y.args[0]) in ("copy.deepcopy",) for y in subterms(x)) or \
        (x.op == "obj" and any(T.strip(v).op == "deep" for v in it.heaplog.get((x, "[]"), ())))
    fresh = copied or x.op == "obj"
    if any(hook(y, "_get_cluster_list") is not None for y in subterms(x)):
        hits = hits or [x]          # abstract in the base class
    ctx.tri(True if hits else None, "start-used", C + " " + part, "", f.where, "starts from %s" % x)
    direct = x.op in ("attr", "idx", "select")
    ctx.tri(True if copied else (False if direct or not_copied(it, x) else None), "start-copied", C + " " + part,
            "the first level works on the object's own cluster sets: %s" % x, f.where, str(x))


def not_copied(it, x):
    """a fresh mapping whose values are the object's own containers"""
    if x.op == "obj":
        for v in it.heaplog.get((x, "[]"), ()):
            for y in subterms(T.strip(v)):
                if y.op == "attr" and y.args[1] == "cluster_list":
                    return not any(z.op == "call" for z in subterms(T.strip(v)) if y in subterms(z) and z is not y)
    return None


def reachable(it, x):
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        for z in subterms(y):
            if z in seen:
                continue
            seen.add(z)
            if z.op == "obj":
                for v in it.heaplog.get((z, "[]"), ()):
                    todo.append(v)
    return seen


def new_level(ctx, prog, cls, it, s, nxt, e, part, C, parts):
    b = cargs(prog, nxt)
    if b is None:
        ctx.und("next-level", C, "next level %s" % nxt)
        return
    pos = {"T": 0, "p1": 1, "p2": 2, "S": 3}
    for n in ROLES:
        v = T.strip(b.get(n, NONE))
        if v.op in ("idx", "select") and hook(v.args[0], "_aggregate_clusters") is not None:
            i = cval_or(v.args[1])
            ctx.check(i == pos[n], "aggregate-role", C + " " + n, "the level's %s is aggregate number %s" % (n, i), e.where)
            ag = v.args[0]
            a = hook(ag, "_aggregate_clusters")
            if str(T.strip(ag.args[1][0])) != str(s):
                ctx.bad("aggregate-of-self", C, "aggregates %s" % ag.args[1][0], e.where)
            explicit = [T.strip(z) for z in a] + [T.strip(z) for k, z in ag.args[2]]
            sn = it.snap.get(T.strip(ag)) or {}
            val = T.strip(explicit[0]) if explicit else T.strip(sn.get(part, NONE))
            if explicit and explicit[0].op == "tuple":
                val = T.strip(explicit[0].args[parts.index(part)])
            want = T.strip(e.d["result"])
            ok = True if val is want else (False if val.op in ("phi", "ite", "attr") or is_partition(val) else None)
            ctx.tri(ok, "aggregate-current", C + " " + part, "the next level is built from %s, not from the partition just composed" % val, e.where, str(val))
        elif v is NONE and n in ("p1", "p2"):
            continue
        elif v is NONE and n == "S":
            ctx.bad("aggregate-role", C + " S", "the next level computes its own S instead of using the aggregated one", e.where)
        elif v.op == "attr" and v.args[0] is s:
            ctx.bad("aggregate-role", C + " " + n, "the next level keeps the nodes' %s" % v.args[1], e.where)
        else:
            ctx.und("aggregate-role", C + " " + n, str(v))
    for n in b:
        if n not in ROLES + ("rnd_state", "rnd_seed", "S_threshold") and b[n] is not NONE:
            ctx.und("next-level", C, "level started with %s" % n)


def fullpart(ctx, prog, cls):
    f = cls.find("_update_to_fullpart")
    if f is None:
        return
    it = Interp(prog, opaque=lambda fi: fi.name == "__init__")
    s = it.new_instance(cls)
    r = it.run(f, selft=s)
    ctx.saw(it)
    for p in parts_of(prog, cls):
        v = r.st.heap.get((s, p))
        C = "%s._update_to_fullpart %s" % (cls.name, p)
        if v is None:
            ctx.bad("full-partition", C, "not set", f.where)
            continue
        v = T.strip(v)
        if not is_partition(v):
            ctx.und("full-partition", C, str(v))
            continue
        b = pargs(prog, v)
        cl = b.get("cluster_list")
        txt = str(cl)
        nn = mk("attr", s, "num_nodes")
        rg = mk("call", "range", (nn,), (), None)
        sets = [y for y in reachable(it, cl)] if cl is not None else []
        ok = any(y is rg or (y.op == "call" and y.args[0] == "range" and y.args[1] == (nn,)) for y in sets)
        cc = cl.args[1] if cl is not None and cl.op == "contents" else (Conts(it, r.st).of_obj(cl) if cl is not None and cl.op == "obj" else NONE)
        one = cc.op == "seq" and len(cc.args) == 1
        other = [y for y in sets if y.op == "call" and y.args[0] == "range" and y.args[1] != (nn,)]
        part = len(other) == 1 and not ok and len(other[0].args[1]) <= 2 and (
            T.is_const(T.sub(other[0].args[1][-1], nn)) and (T.cval(T.sub(other[0].args[1][-1], nn)) != 0 or T.is_const(other[0].args[1][0]) and T.cval(other[0].args[1][0]) != 0))
        ctx.tri(True if ok and one else (False if cl is None and is_singletons(prog, v, s) or part else None), "full-partition", C,
                "every node is a cluster of its own", f.where, txt)


# --------------------------------------------------------------- recorded progress
def progress(ctx, prog, cls):
    """each level is recorded as it is at that moment"""
    if cls.name == "BaseClustering":
        return
    f = cls.find("find_louvain_clustering")
    if "save_progress" not in {p for c in [cls] + list(prog.subclasses("BaseClustering")) for g in [c.find("find_louvain_clustering")] if g is not None for p in g.params()}:
        return
    C = "%s.find_louvain_clustering" % cls.name
    it = Interp(prog, opaque=lambda fi: fi.name in OPQ or fi.name == "__init__" or is_abstract(fi))
    s = it.new_instance(cls)
    it.run(f, selft=s)
    ctx.saw(it)
    SP = sym("save_progress")
    ups = [(i, e) for i, e in enumerate(it.events) if e.kind == "call" and str(e.d["fn"]).endswith("._get_updated_partition") and e.loops]
    svs = [(i, e) for i, e in enumerate(it.events) if e.kind == "call" and str(e.d["fn"]).endswith("._save_progress")]
    fields = {n for (o, n), vs in it.heaplog.items() if o is s and any(T.strip(v).op == "call" and str(T.strip(v).args[0]).endswith("._get_updated_partition") for v in vs)}
    # held while the search goes on: written in the loop
    held = {e.d["name"] for e in it.events if e.kind == "setattr" and T.strip(e.d["base"]) is s and e.loops} & fields
    if not ups:
        ctx.und("progress", C, "recomposition not found")
        return
    last, ue = max(ups, key=lambda x: x[0])
    inside = [(i, e) for i, e in svs if e.loops and e.loops[0] == ue.loops[0]]
    before = [(i, e) for i, e in svs if not e.loops and i < min(i for i, _ in ups)]
    if not svs:
        ctx.und("progress", C, "no call of _save_progress")
    else:
        ctx.check(bool(before), "progress", C + " start", "the starting partition is not recorded", f.where)
        ctx.check(bool(inside), "progress", C + " levels", "the levels are not recorded", f.where)
    for i, e in inside:
        extra = [g for g in e.guards if g not in ue.guards and g is not SP]
        ctx.check(SP in e.guards, "progress", C + " asked", "progress is recorded without being asked for", e.where)
        ctx.check(i > last, "progress", C + " order", "a level is recorded before the partition is updated", e.where)
        ctx.tri(True if not extra else (False if len(inside) == 1 else None), "progress", C + " every level", "a level is only recorded if %s" % "; ".join(map(str, extra))[:120], e.where, str(extra)[:120])
    g = cls.find("_save_progress")
    if g is None:
        return
    G = "%s._save_progress" % cls.name
    it = Interp(prog, opaque=lambda fi: fi is not g and (fi.name in OPQ or is_abstract(fi)))
    s = it.new_instance(cls)
    r = it.run(g, selft=s)
    ctx.saw(it)
    names = sorted({e.d["name"] for e in it.events if e.kind == "setattr" and str(e.d["name"]).endswith("_progress")})
    for n in names:
        A = mk("attr", s, n)
        for e in it.events:
            if e.kind == "setattr" and e.d["name"] == n and not e.d.get("aug"):
                v = T.strip(e.d["value"])
                keeps = any(x is A for x in subterms(v))
                has = mk("hasattr", s, n)
                new = any(x is has or x is not_(has) for x in e.guards) or any(x.op == "hasattr" or x.op == "call" and "getattr" in str(x.args[0]) for x in subterms(v))
                ctx.tri(True if new or keeps else (False if not e.guards else None), "progress", "%s %s kept" % (G, n), "what was recorded before is thrown away", e.where, str(v)[:100])
        vals = [(e, T.strip(e.d["args"][0])) for e in it.events if e.kind == "mutate" and e.d["how"] == ".append" and T.strip(e.d["target"]) is A and e.d["args"]]
        if not vals:
            ctx.und("progress", "%s %s" % (G, n), "nothing appended")
            continue
        for e, v in vals:
            lab = "%s %s value" % (G, n)
            if "stability" in n:
                ok = v.op == "call" and str(v.args[0]).endswith(".compute_stability") and len(v.args[1]) <= 1 and not v.args[2]
                ctx.tri(True if ok else (False if T.is_const(v) else None), "progress", lab, "the stability recorded is %s" % v, e.where, str(v)[:120])
                continue
            w, deepc = v, False
            if v.op == "call" and str(v.args[0]).rsplit(".", 1)[-1] == "deepcopy" and v.args[1]:
                deepc, w = True, T.strip(v.args[1][0])
            isf = w.op == "attr" and w.args[0] is s
            ctx.tri(True if deepc and isf and w.args[1] in held else (False if isf and (not deepc or held and w.args[1] not in held) else None), "progress", lab,
                    "what is recorded is %s, %s" % (v, "which is not the partition of the level" if deepc else "which changes with the search"), e.where, str(v)[:120])
