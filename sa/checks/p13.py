"""P13 the move phase only commits moves whose evaluated gain is the best and not negative."""
from __future__ import annotations
import ast
from ..terms import mk, const, subterms, TRUE, FALSE, not_
from .. import terms as T
from ..engine import Interp
from ..model import AnalysisBroken
from .. import lin
from .louvainlib import hook, hook_full, run_move, cval_or, HOOKS

MIN_OBLIGATIONS = 8
RULE = """
The node-moving phase is interpreted abstractly with the gain functions opaque.
The (target, gain) pair of every committed move is a pair of loop-carried
values of the candidate scan; all ways one scan iteration can change the pair
are enumerated: the target may only change together with the gain, to a
candidate and to the gain evaluated for exactly that node, its current cluster
and that candidate, and only where the path condition implies that the new
gain is at least the old one, which starts at zero for "stay".  The totals that
steer the loop and are returned grow by exactly the committed gain.  Every node
is visited; every cluster holding an in- or out-neighbour is a candidate.
"""


def leafs(t):
    return T.cases(t, limit=256) or []


KNOWN_ATOM = ("_compute_delta_stab_moveout", "_compute_delta_stab_moveto", "compute_stability")


def implies_ge(conds, new, old, ci, scanphis):
    """do the path conditions give new >= old?  True / False / None"""
    v, odd = lin.implied(conds, T.sub(new, old))
    if v is True or v is None:
        return v
    odd = [c for c in odd if not _own_cluster_test(c, ci)]
    # a condition we cannot interpret might carry the missing fact
    for c in odd:
        if any(x is new or x is old or x in scanphis for x in subterms(c)) or \
                any(hook(x, k) is not None for x in subterms(c) for k in KNOWN_ATOM):
            return None
    for c in conds:
        if c in odd:
            continue
        for m in [m for p, _ in (lin.of_cond(c) or []) for m in p]:
            for a in m:
                if not (a is old or a in scanphis or any(hook(a, k) is not None for k in KNOWN_ATOM) or
                        str(a.args[0]) in ("abs", "numpy.abs") or a.op == "phi" or a.op == "sym"):
                    if not _own_cluster_test(c, ci):
                        return None
    return False


def disjuncts(conds):
    """split `or` conditions: list of condition tuples that cover the path"""
    out = [()]
    for c in conds:
        alts = c.args if c.op == "or" else (c,)
        out = [o + (tuple(a.args) if a.op == "and" else (a,)) for o in out for a in alts]
        if len(out) > 32:
            return [tuple(conds)]
    return out


def _own_cluster_test(c, ci):
    x = c.args[0] if c.op == "not" else c
    return x.op == "eq" and ci in x.args


def gain_form(prog, cls, g, node, ci, X, phis):
    """is g the evaluated gain of moving node from ci to X?
    True / False (a gain of hooks, but of something else) / None"""
    mi = cls.find("_compute_delta_stab_moveout")
    mt = cls.find("_compute_delta_stab_moveto")
    p = T.poly(g)
    outs, ins, stab, other = [], [], [], []
    for mono, c in p.items():
        if len(mono) != 1:
            return (None, "product")
        m = mono[0]
        if hook(m, "_compute_delta_stab_moveout") is not None:
            outs.append((c, hook_full(prog, m, "_compute_delta_stab_moveout", mi.params()[1:])))
        elif hook(m, "_compute_delta_stab_moveto") is not None:
            ins.append((c, hook_full(prog, m, "_compute_delta_stab_moveto", mt.params()[1:])))
        elif hook(m, "compute_stability") is not None:
            stab.append((c, m))
        else:
            other.append((c, m))
    if outs or ins:
        if stab or other:
            return (None, "mixed") if other and any(m.op == "phi" for _, m in other) else (False, "extra term in %s" % g)
        if len(outs) != 1 or len(ins) != 1 or outs[0][0] != 1 or ins[0][0] != 1:
            return (False, "the gain is %s" % g)
        po, pi = mi.params()[1:], mt.params()[1:]
        o, i = outs[0][1], ins[0][1]
        if o.get(po[0]) is not node or i.get(pi[0]) is not node:
            return (False, "the gain is evaluated for another node: %s" % g)
        if not same_cluster(o.get(po[1]), ci):
            return (False, "the loss is evaluated for cluster %s" % o.get(po[1]))
        if i.get(pi[1]) is not X:
            return (False, "the gain is evaluated for cluster %s, the target is %s" % (i.get(pi[1]), X))
        for extra, ps in ((o, po), (i, pi)):
            for k in ps[2:]:
                v = extra.get(k)
                if v is not None and v is not T.NONE:
                    return (None, "explicit partition")
        return (True, "")
    if len(stab) == 1 and stab[0][0] == 1 and len(other) == 1 and other[0][0] == -1:
        R = stab[0][1].args[1][1] if len(stab[0][1].args[1]) > 1 else None
        ph = other[0][1]
        if R is None or hook(R, "_compute_new_R_moveto") is None or ph.op != "phi":
            return (None, "unrecognised")
        nm = cls.find("_compute_new_R_moveto")
        b = hook_full(prog, R, "_compute_new_R_moveto", nm.params()[1:])
        ps = nm.params()[1:]
        if b.get(ps[0]) is not node or not same_cluster(b.get(ps[1]), ci) or b.get(ps[2]) is not X:
            return (False, "the gain is evaluated for %s" % R)
        ro = b.get(ps[3])
        no = cls.find("_compute_new_R_moveout")
        bo = hook_full(prog, ro, "_compute_new_R_moveout", no.params()[1:]) if ro is not None else None
        if bo is None:
            return (None, "")
        po = no.params()[1:]
        if bo.get(po[0]) is not node or not same_cluster(bo.get(po[1]), ci):
            return (False, "the loss is evaluated for %s" % ro)
        return (True, ph)
    return (None, "unrecognised gain %s" % g)


def same_cluster(a, ci):
    return a is ci


def run(ctx):
    prog = ctx.prog
    base = prog.cls("BaseClustering")
    done = set()
    for cls in prog.subclasses("BaseClustering"):
        f = cls.find("_louvain_move_nodes")
        if f is None:
            raise AnalysisBroken("_louvain_move_nodes not found")
        if f in done:
            continue
        done.add(f)
        one(ctx, cls, f)
    candidates(ctx)
    one_partition(ctx)


USERS = ("_compute_delta_stab_moveout", "_compute_delta_stab_moveto", "_potential_new_clusters", "_get_node_cluster",
         "_move_node_to_cluster", "_remove_empty_clusters", "_compute_new_R_moveout", "_compute_new_R_moveto")


def one_partition(ctx):
    """gains, candidates and moves of one object look at one partition"""
    prog = ctx.prog
    for cls in [prog.cls("Clustering")] + [c for c in prog.subclasses("Clustering") if c is not prog.cls("Clustering")]:
        init = cls.find("__init__")
        it = Interp(prog)
        s = it.new_instance(cls)
        r = it.run(init, selft=s)
        parts = {k: T.strip(v) for (o, k), v in r.st.heap.items() if o is s and v is not None and _is_part(v)}
        used, todo, seen = {}, [cls.find(n) for n in USERS], set()
        while todo:
            m = todo.pop()
            if m is None or m in seen:
                continue
            seen.add(m)
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    if x.attr in parts:
                        used.setdefault(x.attr, m.name)
                    elif m.name not in ("__init__",):
                        todo.append(cls.find(x.attr))
        vals = {parts[a] for a in used}
        K = "%s partition" % cls.name
        if len(used) < 2:
            ctx.ok("one-partition", K, "only %s" % ", ".join(used))
        else:
            ctx.check(len(vals) == 1, "one-partition", K, "gains, candidates and moves look at different partitions: %s"
                      % ", ".join("%s by %s" % kv for kv in sorted(used.items())), init.where)


def _is_part(v):
    v = T.strip(v)
    while v.op == "call" and str(v.args[0]).rsplit(".", 1)[-1] in ("deepcopy", "copy") and v.args[1]:
        v = T.strip(v.args[1][-1])
    return v.op == "obj" and v.args[0] == "Partition"


def one(ctx, cls, f):
    prog = ctx.prog
    it, s, r, f = run_move(prog, cls, f)
    ctx.saw(it)
    C = "%s._louvain_move_nodes" % cls.name
    moves = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).endswith("._move_node_to_cluster")]
    if not moves:
        ctx.und("commit", C, "no committed move found")
        return
    for e in moves:
        a = hook_full(prog, e.d["result"], "_move_node_to_cluster", cls.find("_move_node_to_cluster").params()[1:]) \
            if hook(e.d["result"], "_move_node_to_cluster") is not None else None
        a = list(a.values()) if a else list(e.d["args"][1:])
        if len(a) < 2:
            ctx.und("commit", C, "arguments of the move")
            continue
        node, tgt = T.strip(a[0]), T.strip(a[1])
        ci = None
        for x in subterms(mk("tuple", tgt, *[g for g in e.guards]), lambda p: [z for z in (it.phis[p].init, it.phis[p].back) if z is not None] if p in it.phis else []):
            h = hook(x, "_get_node_cluster")
            if h is not None and T.strip(h[0]) is node:
                ci = T.strip(x)
        # --- every node is visited
        if node.op == "elem":
            d = T.strip(node.args[0])
            ok = None
            base_d = d
            while base_d.op in ("mutated",):
                base_d = base_d.args[0]
            nn = mk("attr", s, "num_nodes")
            if base_d.op == "call" and base_d.args[0] in ("numpy.arange", "range") or \
                    base_d.op == "call" and str(base_d.args[0]).endswith(".permutation"):
                ar = base_d.args[1]
                args = ar[1:] if str(base_d.args[0]).endswith(".permutation") and ar and ar[0] is not nn else ar
                if tuple(args) in ((nn,), (const(0), nn)) and not base_d.args[2]:
                    ok = True
                elif any(nn in subterms(x) for x in args) or all(T.is_const(x) for x in args):
                    ok = False
            elif base_d.op in ("idx", "select") and base_d.args[1].op == "slice":
                ok = False
            elif base_d.op == "call" and str(base_d.args[0]).rsplit(".", 1)[-1] in ("randint", "random_integers", "integers"):
                ok = False
            elif base_d.op == "call" and str(base_d.args[0]).rsplit(".", 1)[-1] == "choice" and \
                    len(base_d.args[1]) < 4 and T.strip(dict(base_d.args[2]).get("replace", TRUE)) is TRUE:
                ok = False
            ctx.tri(ok, "all-nodes", C, "a pass visits only %s" % d, f.where, "node order %s" % d)
        else:
            ctx.und("all-nodes", C, "node is %s" % node)
        if tgt.op != "phi" or tgt not in it.phis:
            if tgt.op == "elem":
                # moves straight to a candidate: the guard must say the gain is >= 0
                ctx.und("scan", C, "direct move")
            elif not early(ctx, it, C, f):
                ctx.und("scan", C, "target %s" % tgt)
            continue
        scan(ctx, it, cls, f, C, e, node, tgt, ci, s, r)


def early(ctx, it, C, f):
    """is the scan over the candidates left as soon as some gain is good enough?"""
    for li in it.loopinfo.values():
        if li.get("breaks") and hook(T.strip(li.get("iter") or T.NONE), "_potential_new_clusters") is not None:
            for b in li.get("break_guards") or []:
                gs = [T.strip(g) for g in b if g.op != "iter"]
                if FALSE in gs:
                    continue
                gain = [g for g in gs if g.op in ("lt", "le", "not", "eq") and any(hook(x, k) is not None for x in subterms(g)
                                                                                for k in ("_compute_delta_stab_moveto", "compute_stability"))]
                if gain or not any(g.op not in ("not", "eq") or any(x.op == "phi" for x in subterms(g)) for g in gs):
                    ctx.bad("scan-complete", C, "the scan stops at a candidate before the others were tried: %s" % "; ".join(map(str, gain or gs)), f.where)
                    return True
    return False


def scan(ctx, it, cls, f, C, e, node, tgt, ci, s, r):
    prog = ctx.prog
    pt = it.phis[tgt]
    loop = pt.loop
    init = T.strip(pt.init) if pt.init is not None else None
    li = it.loopinfo.get(loop) or {}
    if li.get("breaks") and not early(ctx, it, C, f):
        ctx.und("scan-complete", C, "the candidate scan can stop early")
    # other loop values of the scan loop that may hold the gain
    others = [p for p, i in it.phis.items() if i.loop == loop and p is not tgt and i.back is not None and i.init is not None
              and i.var[0] == "v"]
    # pick the gain variable: the one that receives an evaluated gain
    gains = []
    for p in others:
        for cs, leaf in leafs(T.strip(it.phis[p].back)):
            if any(hook(x, "_compute_delta_stab_moveto") is not None or hook(x, "compute_stability") is not None
                   for m in T.poly(leaf) for x in m):
                gains.append(p)
                break
    scanphis = set(others) | {tgt}
    if not gains and hook(T.strip(li.get("iter") or T.NONE), "_potential_new_clusters") is not None:
        # no value of the scan remembers a gain: is the choice made on a gain at all?
        for cs, leaf in leafs(T.strip(pt.back)):
            if leaf is tgt:
                continue
            gc = [c for c in cs if any(hook(x, k) is not None for x in subterms(c) for k in KNOWN_ATOM)]
            if not any(x in scanphis for c in cs for x in subterms(c)):
                ctx.bad("best-kept", C, "the last candidate that passes `%s` is taken, not the best one" % "; ".join(map(str, gc)), f.where)
    if len(gains) != 1:
        ctx.und("scan", C, "%d candidate gain variables" % len(gains))
        return
    g = gains[0]
    pg = it.phis[g]
    if ci is None or init is None:
        ctx.und("scan", C, "start of the scan")
        return
    # --- start value: staying gains nothing
    stay = init is ci
    ginit = cval_or(T.strip(pg.init))
    joint = leafs(T.strip(mk("tuple", pt.back, pg.back)))
    if not joint:
        ctx.und("scan", C, "too many cases")
        return
    elem = li.get("elem")
    dom_ok = None
    stab_phi = None
    n = 0
    mono_ok = True
    first_free = False
    for cs, leaf in joint:
        t2, g2 = leaf.args
        n += 1
        if t2 is tgt and g2 is g:
            continue
        if t2 is tgt:
            ctx.bad("paired-update", C, "the tracked gain changes to %s while the target stays" % g2, f.where)
            mono_ok = None
            continue
        if g2 is g:
            ctx.bad("paired-update", C, "the target changes to %s while the tracked gain stays" % t2, f.where)
            mono_ok = None
            continue
        v, why = gain_form(prog, cls, g2, node, ci, t2, it.phis)
        if v is True and why:
            stab_phi = why
        ctx.tri(v, "gain-of-target", C, why if isinstance(why, str) else "", f.where, why if isinstance(why, str) else "")
        verdicts = []
        for dj in disjuncts(cs):
            if T.cmp_("==", tgt, ci) in dj and stay:
                first_free = True       # nothing chosen yet: no order required, but see non-negative
                continue
            verdicts.append(implies_ge(dj, g2, g, ci, scanphis))
        iv = False if False in verdicts else (None if None in verdicts else True)
        ctx.tri(iv, "best-kept", C, "the target changes although the new gain need not be at least the best one so far (path: %s)"
                % "; ".join(str(c) for c in cs), f.where, "path conditions not understood")
        if iv is not True:
            mono_ok = None
        if elem is not None:
            if t2 is T.strip(elem):
                dom_ok = True
    ctx.ok("paired-update", C, "%d cases of one scan step" % n)
    # --- never a negative gain
    gg = [c for c in map(T.strip, e.guards) if any(x is g for x in subterms(c))]
    gv, godd = lin.implied(gg, g)
    guard_nonneg = gv is True
    if guard_nonneg:
        ctx.ok("non-negative", C, "guard of the move")
    elif first_free:
        if godd:
            ctx.und("non-negative", C, "guard of the move not understood")
        else:
            ctx.bad("non-negative", C, "the first candidate is taken whatever its gain, and the move is committed under `%s`"
                    % ("; ".join(map(str, gg)) or "no condition on the gain"), f.where)
    elif ginit is None:
        gi = T.strip(pg.init)
        if mono_ok and (gi.op in ("unary", "poly") or "inf" in str(gi)):
            ctx.bad("non-negative", C, "the best gain starts at %s: a move that lowers the objective can be committed" % gi, f.where)
        else:
            ctx.und("non-negative", C, "start gain %s" % gi)
    else:
        if mono_ok:
            ctx.check(ginit >= 0, "non-negative", C, "the best gain starts at %s: a move that lowers the objective can be committed" % ginit, f.where)
        else:
            ctx.und("non-negative", C)
    ctx.tri(True if stay else None, "stay-default", C, "", f.where, "initial target %s" % init)
    # --- candidate set
    if li.get("iter") is not None:
        d = T.strip(li["iter"])
        h = hook(d, "_potential_new_clusters")
        if h is not None:
            ctx.check(T.strip(h[0]) is node, "candidates-of-node", C, "candidates of %s" % h[0], f.where)
        elif d.op in ("idx", "select") and d.args[1].op == "slice":
            ctx.bad("candidates-of-node", C, "only part of the candidates is scanned: %s" % d, f.where)
        else:
            ctx.und("candidates-of-node", C, str(d))
    # is the candidate scan filtered by anything but 'not the own cluster'?
    keep = [cs for cs, leaf in joint if leaf.args[0] is tgt]
    for cs in keep:
        extra = [c for c in cs if not (c.op == "eq" and ci in c.args) and not any(x is g for x in subterms(c))
                 and not (c.op == "not" and c.args[0].op == "eq" and ci in c.args[0].args)]
        if extra:
            ctx.und("scan-filter", C, "; ".join(map(str, extra)))
    # --- the move happens exactly when another target won
    nodeloop = e.loops[-1] if e.loops else None
    within = [T.strip(c) for c in e.guards]
    mg = [c for c in within if any(x is tgt for x in subterms(c))]
    want = not_(T.cmp_("==", tgt, ci))
    if mg == [want]:
        ctx.ok("commit-guard", C)
    elif not mg:
        ctx.und("commit-guard", C, "unguarded move")
    else:
        ctx.und("commit-guard", C, "; ".join(map(str, mg)))
    # additional conditions of the move inside the node loop
    # --- totals
    tots = [p for p, i in it.phis.items() if i.loop == nodeloop and i.back is not None and i.var[0] == "v"
            and any(x is g or hook(x, "_compute_delta_stab_moveto") is not None or hook(x, "compute_stability") is not None
                    for x in subterms(T.strip(i.back))) and p is not tgt and p is not g]
    if not tots:
        ctx.und("total", C, "no total")
    good_tot = []
    for p in tots:
        i = it.phis[p]
        b = T.strip(i.back)
        if any(hook(x, "_compute_new_R_moveto") is not None for x in subterms(b)) and not T.poly(b).get((p,)):
            continue
        moved, stayv = b, b
        for c in mg:
            moved = T.assume_in(moved, c, TRUE)
        if len(mg) == 1:
            stayv = T.assume_in(stayv, mg[0], FALSE)
        ok = None
        d1, d2 = T.sub(moved, p), T.sub(stayv, p)
        if any(x.op == "ite" for x in subterms(mk("tuple", d1, d2))):
            ok = None
            for cs, leaf in leafs(d1):
                if cval_or(leaf) == 0 and cs and all(c.op in ("in", "not") and not any(
                        x is g or x is tgt or any(hook(x, k) is not None for k in KNOWN_ATOM) for x in subterms(c)) and
                        (c.op == "in" or c.args[0].op == "in") for c in cs):
                    ok = False
                    d1 = leaf
        elif d1 is g and (d2 is g or cval_or(d2) == 0):
            ok = True
        elif p not in subterms(moved) or d1 is const(0) or any(x is g for x in subterms(d1)):
            ok = False
        if ok is None and g not in subterms(d1) and any(hook(x, "_compute_delta_stab_moveto") is not None or
                                                        hook(x, "compute_stability") is not None for x in subterms(d1)):
            ok = False
        ctx.tri(ok, "total", C + " / " + str(i.var[2]), "%s grows by %s for a committed move of gain %s" % (i.var[2], d1, g), f.where,
                "%s -> %s" % (p, b))
        if ok:
            good_tot.append(p)
    if stab_phi is not None:
        # the reference objective value must follow the committed moves
        inner = [p for p in good_tot if p is stab_phi]
        if stab_phi in it.phis and it.phis[stab_phi].loop == nodeloop:
            if not inner and not any(p is stab_phi for p in tots):
                ctx.bad("reference-value", C, "the reference objective value is not updated with a committed move", f.where)
            elif inner:
                ctx.ok("reference-value", C)
        elif stab_phi in it.phis:
            ctx.bad("reference-value", C, "the reference objective value is not updated with a committed move", f.where)
    # --- returned total
    rv = T.strip(r.value)
    if rv.op == "tuple" and len(rv.args) >= 1 and rv.args[0].op == "phi":
        top = rv.args[0]
        i = it.phis[top]
        b = T.strip(i.back)
        z = cval_or(i.init)
        ok = None
        if i.loop == nodeloop:
            ok = True if top in good_tot and z == 0 else None
        elif b.op == "phi" and b in good_tot and it.phis[b].init is top:
            ok = True if z == 0 else (False if z is not None else None)
        else:
            d = T.sub(b, top)
            if d.op == "phi" and d in good_tot:
                zi = cval_or(it.phis[d].init)
                ok = True if (zi == 0 and z == 0) else (False if None not in (zi, z) else None)
                di = it.phis[d].init
                if zi is None and di is not None and di.op == "phi" and di in it.phis and it.phis[di].loop == i.loop and \
                        T.strip(it.phis[di].back) is d:
                    ok = False      # what earlier passes gained is added again
            elif d is const(0) or top not in subterms(b):
                ok = False
        ctx.tri(ok, "returned-total", C, "the returned total is %s (each pass: %s)" % (top, b), f.where, str(b))
    else:
        ctx.und("returned-total", C, str(rv)[:200])


def candidates(ctx):
    """clusters of all in- and out-neighbours are candidates"""
    prog = ctx.prog
    cls = prog.cls("Clustering")
    base = prog.cls("BaseClustering")
    it = Interp(prog, attr_types={("BaseClustering", "source_part"): "Partition", ("BaseClustering", "partition"): "Partition"})
    s = it.new_instance(cls)
    f = cls.find("_potential_new_clusters")
    r = it.run(f, selft=s)
    ctx.saw(it)
    node = r.bound[f.params()[1]]
    C = "Clustering._potential_new_clusters"
    tab = mk("idx", mk("attr", s, "_neighs"), node)
    subs = list(subterms(T.strip(mk("tuple", r.value, *[x for (o, k), x in r.st.heap.items() if k == "[]"])),
                         lambda p: [z for z in (it.phis[p].init, it.phis[p].back) if z is not None] if p in it.phis else []))
    names = {x.args[1] for x in subs if x.op == "attr" and x.args[0] is s}
    part = [x for x in subs if x.op in ("idx", "select") and T.strip(x.args[0]) is tab and x.args[1].op == "slice"]
    if part:
        ctx.bad("neighbours", C, "only part of the neighbours is looked at: %s" % part[0], f.where)
    if tab in subs:
        full = {"_neighs"}
    else:
        full = names & {"_neighs", "_in_neighs", "_out_neighs"}
    if not full:
        ctx.und("neighbours", C, "neighbour table not recognised: %s" % sorted(names))
        return
    need = {"row": False, "col": False}
    tables = {}
    for k in [cls] + [c for c in prog.subclasses("Clustering") if c is not cls]:
        init = k.find("__init__")
        it2 = Interp(prog)
        s2 = it2.new_instance(k)
        r2 = it2.run(init, selft=s2)
        ctx.saw(it2)
        K = "%s neighbour table" % k.name
        have = set()
        ok = None
        cut = []
        for name in full:
            v = r2.st.heap.get((s2, name))
            if v is None:
                continue
            got = _reach(it2, r2.st, v, s2, cut)
            have |= got
            ok = True
        if ok is None:
            ctx.und("neighbours", K, "table not built by the constructor")
        elif cut:
            ctx.bad("neighbours", K, "the neighbour table leaves neighbours out: %s" % "; ".join(sorted(set(cut))), init.where)
        elif have >= {"row", "col"}:
            ctx.ok("neighbours", K)
        elif have:
            ctx.bad("neighbours", K, "only the %s-neighbours of a node are in its neighbour table" %
                    ("out" if "row" in have else "in"), init.where)
        else:
            ctx.und("neighbours", K, "construction not recognised")


def _supp(y):
    """row or column of a matrix"""
    y = T.strip(y)
    if y.op in ("idx", "select") and y.args[1].op == "tuple" and len(y.args[1].args) == 2:
        a, b = y.args[1].args
        return (a.op == "slice") != (b.op == "slice") and T.NONE not in (a, b)
    return y.op == "ite" and all(map(_supp, y.args[1:]))


def _narrow(y):
    """does this step of building a neighbour table leave neighbours out?  text or None"""
    if y.op in ("lt", "le") and T.is_const(y.args[0]) and _supp(y.args[1]):
        c = T.cval(y.args[0])
        if isinstance(c, (int, float)) and (c > 0 and y.op == "lt" or c > 0):
            return "entries up to %s" % c
    if y.op in ("or", "and") and len(y.args) > 1 and all(x.op in ("obj", "contents", "idx", "select", "elem") or x.op == "call" and str(x.args[0]) in ("listof", ".tolist") for x in map(T.strip, y.args)):
        return "one table is used instead of the other: %s" % y
    if y.op == "ite" and all(x.op in ("obj", "contents", "idx", "select") for x in map(T.strip, y.args[1:])) and T.strip(y.args[0]) in (T.strip(y.args[1]), T.strip(y.args[2])):
        return "one table is used instead of the other: %s" % y
    if y.op in ("binBitAnd", "binSub", "binBitXor") and all(x.op in ("obj", "contents") for x in map(T.strip, y.args)) or \
            y.op == "call" and str(y.args[0]).rsplit(".", 1)[-1] in ("intersection", "difference", "intersect1d", "setdiff1d"):
        return "%s" % y
    if y.op in ("idx", "select") and T.strip(y.args[0]).op == "attr" and T.strip(y.args[0]).args[1] == "indices":
        k = T.strip(y.args[1])
        if k.op == "elem" and T.strip(k.args[0]).op == "call" and T.strip(k.args[0]).args[0] == "range":
            a = T.strip(k.args[0]).args[1]
        elif k.op == "slice":
            a = k.args[:2]
        else:
            return None
        if len(a) != 2:
            return None
        # positions and indices of the same matrix: row positions of a CSR matrix say nothing about a CSC one
        def kind(t):
            return "col" if "csc" in str(t).lower() or str(t).endswith(".T") or "transpose" in str(t) else "row"
        own = kind(T.strip(y.args[0]).args[0])
        for z in a:
            ks = {kind(q.args[0]) for q in subterms(T.strip(z)) if q.op == "attr" and q.args[1] == "indptr"}
            if ks and own not in ks:
                return "positions of the %ss with the indices of the %ss" % (ks.pop(), own)
        for (_, lo), (_, hi) in [(x, z) for x in leafs(T.strip(a[0])) for z in leafs(T.strip(a[1]))]:
            for e, want in ((lo, 0), (hi, 1)):
                for m, c in T.poly(e).items():
                    if not m and c and (c > 0 if want == 0 else c < 0):
                        return "positions %s to %s of the row" % (lo, hi)
    return None


def _reach(it, st, v, s, cut=None):
    """which of T[node,:] / T[:,node] (or CSR row / CSC column slices) flow into v"""
    got = set()
    seen = set()
    byobj = {}
    for (o, k), vs in it.heaplog.items():
        byobj.setdefault(T.strip(o), []).extend(vs)
        byobj.setdefault(o, []).extend(vs)
    work = [v]
    while work:
        x = work.pop()
        for y in subterms(T.strip(x), lambda p: [z for z in (it.phis[p].init, it.phis[p].back) if z is not None] if p in it.phis else []):
            if y in seen:
                continue
            seen.add(y)
            n = _narrow(y)
            if n is not None and cut is not None:
                cut.append(n)
            if y in it.made:
                work.append(it.made[y])
            if y.op in ("obj", "elem", "attr"):
                work += [hv for hv in byobj.get(y, ()) if hv is not None]
            if y.op in ("idx", "select") and y.args[1].op == "tuple" and len(y.args[1].args) == 2:
                a, b = y.args[1].args
                if T.NONE in (a, b) or "newaxis" in str(a) + str(b):
                    continue
                if a.op != "slice" and b.op == "slice":
                    got.add("row")
                if a.op == "slice" and b.op != "slice":
                    got.add("col")
            if y.op == "attr" and y.args[1] == "indices":
                o = T.strip(y.args[0])
                txt = str(o)
                if "tocsc" in txt or "csc" in txt.lower():
                    got.add("col")
                elif ".T" in txt or "transpose" in txt:
                    got.add("col")
                else:
                    got.add("row")
    return got
