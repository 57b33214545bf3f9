"""P14 the community search stops within the caps it was given."""
from __future__ import annotations
from ..terms import mk, const, subterms, TRUE, FALSE, not_, sym
from .. import terms as T
from ..engine import Interp, State
from ..model import AnalysisBroken
from ..fwd import calls_to, static_bind, target
from ..loopbound import trips, conj, step
from ..conts import Conts
from ..numeric import num as num_, NotNumeric
from .louvainlib import hook, run_move, HOOKS

MIN_OBLIGATIONS = 14
RULE = """
Loop-bound analysis: the pass loop of the node-moving phase (the loop around
the per-node loop) and the level loop of the search may start at most
cap (+1) times, where cap is the caller's parameter: a counter that grows on
every trip and is compared with the cap in the condition that (re)starts the
loop.  Neither loop may stop for a reason other than: no improvement above the
threshold, the cap, or (levels) nothing left to merge.  Argument-binding
analysis: at every call between the public entry points and these loops the
caps and the threshold are the values the caller was given.
"""
CAPS = ("n_meta_iter_max", "n_sub_iter_max", "delta_r_threshold")


def cap_of(f, n, bound):
    return bound.get(n)


def run(ctx):
    prog = ctx.prog
    sub_loops(ctx)
    levels(ctx)
    forwarding(ctx)


def sub_loops(ctx):
    prog = ctx.prog
    done = set()
    for cls in prog.subclasses("BaseClustering"):
        f = cls.find("_louvain_move_nodes")
        if f is None or f in done:
            continue
        done.add(f)
        it, s, r, f = run_move(prog, cls, f)
        ctx.saw(it)
        C = "%s._louvain_move_nodes" % cls.name
        mv = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).endswith("._move_node_to_cluster")]
        if not mv or len(mv[0].loops) < 2:
            ctx.und("pass-cap", C, "no committed move inside a pass loop")
            continue
        # pass loop: the outermost loop around the node loop
        key = mv[0].loops[0]
        cap = r.bound.get("n_sub_iter_max")
        thr = r.bound.get("delta_r_threshold")
        if cap is None:
            ctx.und("pass-cap", C, "no n_sub_iter_max parameter")
            continue
        verdict(ctx, "pass-cap", C, trips(it, key, cap), f, 0)
        stops(ctx, it, key, C, cap, thr, f, "pass-continue")


def verdict(ctx, rule, C, v, f, slack):
    if v[0] == "bound":
        ctx.check(v[1] <= slack, rule, C, "up to cap + %s iterations are run" % v[1], f.where, "at most cap %+d" % v[1])
    elif v[0] == "free":
        ctx.bad(rule, C, v[1], f.where)
    else:
        ctx.und(rule, C, v[1])


def stops(ctx, it, key, C, cap, thr, f, rule):
    """the loop ends only for: no improvement above the threshold, or the cap"""
    li = it.loopinfo[key]
    if li["breaks"] or li["iter"] is not None:
        ctx.und(rule, C, "stops by break")
        return
    seen_thr = False
    for x in conj(li["cond"]):
        if T.is_const(x):
            continue
        if cap in subterms(x):
            # must not stop long before the cap: counter starts at <= 1 and grows by exactly one
            ph = [z for z in subterms(x) if z.op == "phi"]
            d = T.poly(T.sub(x.args[0], x.args[1])) if x.op in ("lt", "le") else None
            s = step(it, ph[0]) if len(ph) == 1 else None
            if s is None or d is None:
                ctx.und(rule, C, "cap test %s" % x)
                continue
            ctx.check(s[0] <= 1 and s[1] == 1 and d.get((), 0) <= 1, rule, C + " cap test",
                      "the cap is reached after fewer iterations than asked for (counter from %s, step %s, test %s)" % (s[0], s[1], x), f.where)
        elif thr is not None and thr in subterms(x):
            seen_thr = True
            # continues while last improvement > thr
            ok = improves(x, thr)
            ctx.tri(ok, rule, C + " improvement test", "the loop goes on while `%s`, not while the improvement exceeds the threshold" % x, f.where, str(x))
        elif x.op == "not" and x.args[0].op == "phi" or x.op == "phi":
            ctx.ok(rule, C + " flag", str(x))
        else:
            ctx.und(rule, C, "also stops on %s" % x)


def improves(x, thr):
    """is x `the improvement exceeds the threshold`?"""
    if x.op not in ("lt", "le"):
        return None
    a, b = (T.strip(y) for y in x.args)
    if b.op == "phi" and a is not thr and differs(a, thr):
        return False            # compared with another number than the threshold
    p = dict(T.poly(T.sub(x.args[1], x.args[0])))
    k = p.pop((thr,), 0)
    ph = [m for m in p if len(m) == 1 and m[0].op == "phi"]
    if len(ph) != 1 or any(m and m not in ph for m in p):
        return None
    return x.op == "lt" and p[ph[0]] > 0 and k == -p[ph[0]] and not p.get(())


def differs(a, want):
    """is a an expression of the value wanted (and of sizes and constants) that has another value somewhere? """
    def leaf(t, v, n):
        if t is want:
            return v
        if t.op == "attr" and t.args[1] == "num_nodes":
            return n
        if t.op == "call" and str(t.args[0]) == "len":
            return n
        return None
    try:
        return any(num_(a, lambda t: leaf(t, v, n)) != v for v in (0, 1e-16, 2e-16, 1e-9, 1e-3, 1, 2, 3, 50, 1000, 1e4) for n in (2, 7, 100))
    except (NotNumeric, TypeError, ValueError, OverflowError):
        return False


def levels(ctx):
    prog = ctx.prog
    done = set()
    for cls in prog.subclasses("BaseClustering"):
        f = cls.find("find_louvain_clustering")
        if f is None:
            raise AnalysisBroken("find_louvain_clustering not found")
        fam = []
        it = Interp(prog, opaque=lambda fi: fi.name in HOOKS | OPQ or fi.name == "__init__")
        s = it.new_instance(cls)
        r = it.run(f, selft=s)
        ctx.saw(it)
        C = "%s.find_louvain_clustering" % cls.name
        cs = calls_to(it, {"_louvain_move_nodes"})
        if not cs:
            ctx.und("level-cap", C, "no call of the node-moving phase")
            continue
        for e, fi, b, star in cs:
            if not e.loops:
                ctx.und("level-cap", C, "the node-moving phase is not inside a level loop")
                continue
            key = e.loops[0]
            verdict(ctx, "level-cap", C, trips(it, key, r.bound["n_meta_iter_max"]), f, 1)
            level_stop(ctx, it, key, C, r, f)
            for n in ("delta_r_threshold", "n_sub_iter_max"):
                same(ctx, "forward", "%s -> %s %s" % (C, fi.name, n), b.get(n), r.bound[n], star, e, fi, n)
            opts(ctx, C, e, fi, b, r.bound)
        # the reported number of levels
        v = T.strip(r.value)
        key = cs[0][0].loops[0] if cs[0][0].loops else None
        for conds, leaf in T.cases(v) or []:
            if leaf.op == "phi" and leaf in it.phis and it.phis[leaf].loop == key:
                st = step(it, leaf)
                ctx.tri(True if st == (0, 1) else (False if st else None), "level-count", C,
                        "the reported number of levels starts at %s and grows by %s" % (st or ("?", "?")), f.where)
            else:
                p = T.poly(leaf)
                ph = [m[0] for m in p if len(m) == 1 and m[0] in it.phis and it.phis[m[0]].loop == key]
                if len(ph) == 1 and len(p) == 2 and () in p and p[(ph[0],)] == 1 and step(it, ph[0]):
                    ctx.check(step(it, ph[0]) == (-p[()], 1), "level-count", C, "the reported number of levels is %s, which starts at %s" %
                              (leaf, step(it, ph[0])[0]), f.where)


OPQ = {"_louvain_move_nodes", "_update_original_partition", "_update_to_singletons", "_update_to_fullpart",
       "_aggregate_clusters", "_save_progress", "_check_if_S_is_zero", "_get_updated_partition"}


def level_stop(ctx, it, key, C, r, f):
    li = it.loopinfo[key]
    cap, thr = r.bound["n_meta_iter_max"], r.bound["delta_r_threshold"]
    if li["iter"] is not None:
        ctx.und("level-continue", C, "not a while loop")
        return
    if li["breaks"]:
        bg = li.get("break_guards") or []
        if len(bg) < li["breaks"]:
            ctx.und("level-continue", C, "stops by break")
        for gs in bg:
            cs = []
            for g in gs:
                g = T.strip(g)
                cs += list(g.args) if g.op == "and" else [g]
            ctx.tri(may_stop(cs, cap, thr, it), "level-continue", C + " break", "the search also ends when `%s`" %
                    "; ".join(map(str, cs)), f.where, "; ".join(map(str, cs)))
    for x in conj(li["cond"]):
        if T.is_const(x):
            continue
        if cap in subterms(x):
            ph = [z for z in subterms(x) if z.op == "phi"]
            s = step(it, ph[0]) if len(ph) == 1 else None
            if s:
                ctx.check(s[0] <= 1 and s[1] == 1, "level-continue", C + " cap test",
                          "the cap is reached after fewer levels than asked for (counter from %s, step %s)" % s, f.where)
        elif thr in subterms(x):
            ok = improves(x, thr)
            ctx.tri(ok, "level-continue", C + " improvement test",
                    "the search goes on while `%s`, not while the improvement exceeds the threshold" % x, f.where, str(x))
        elif x.op == "not" and x.args[0].op == "phi":
            # stop flag: set only when all clusters are single, cap reached or no improvement
            i = it.phis.get(x.args[0])
            for cs, leaf in T.cases(T.strip(i.back), limit=128) or []:
                if leaf is not TRUE:
                    continue
                why = False
                for c in cs:
                    for d in (c.args if c.op == "or" else (c,)):
                        pass
                    ds = c.args if c.op == "or" else (c,)
                    if all(_ok_stop(d, cap, thr, it) for d in ds):
                        why = True
                if why:
                    ctx.ok("level-continue", C + " stop flag")
                else:
                    ctx.tri(may_stop(cs, cap, thr, it), "level-continue", C + " stop flag",
                            "the search also ends when `%s`" % "; ".join(map(str, cs)), f.where, "set under %s" % "; ".join(map(str, cs)))
        elif x.op == "phi":
            ctx.und("level-continue", C, "goes on while %s" % x)
        else:
            ctx.tri(may_stop([not_(x)], cap, thr, it), "level-continue", C, "the search also ends when `%s`" % not_(x), f.where, "also stops on %s" % not_(x))


def may_stop(cs, cap, thr, it=None):
    """does one of the conditions say: cap reached, no improvement, or nothing left to merge?"""
    odd = False
    for c in cs:
        ds = c.args if c.op == "or" else (c,)
        if all(_ok_stop(d, cap, thr, it) for d in ds):
            return True
        for d in ds:
            if single(d, it) is False:
                continue
            if not _plain(d.args[0] if d.op == "not" else d, cap, thr, it):
                odd = True
    return None if odd else False


def _plain(d, cap, thr, it=None):
    """a comparison of counters, gains, limits and constants (or a test that is known not to mean single clusters)"""
    if d.op in ("iter",) or _ok_stop(d, cap, thr, it) or _ok_stop(not_(d), cap, thr, it) or T.is_const(d):
        return True
    if single(d, it) is False:
        return True
    if d.op in ("lt", "le", "eq"):
        p = T.poly(T.sub(d.args[1], d.args[0]))
        return all(len(m) <= 1 and all(a.op in ("phi", "sym") or a.op in ("idx", "select") and T.strip(a.args[0]).op == "call" and
                                       str(T.strip(a.args[0]).args[0]).endswith("._louvain_move_nodes") for a in m) for m in p)
    return False


def _ok_stop(d, cap, thr, it=None):
    if d.op in ("lt", "le"):
        if d.args[0] is cap or d.args[1] is thr:
            return True
    return single(d, it) is True


def single(d, it):
    """does the condition say that no cluster has more than one node?  True / False / None (not recognised)"""
    pol, x = True, T.strip(d)
    if x.op == "not":
        pol, x = False, T.strip(x.args[0])
    if not (x.op == "call" and str(x.args[0]) in ("all", "any") and len(x.args[1]) == 1) or it is None:
        return None
    a = T.strip(x.args[1][0])
    try:
        es, bases = Conts(it).entries(a.args[1] if a.op == "contents" else a)
    except Exception:
        return None
    if bases or not es:
        return None
    kinds = set()
    for e in es:
        if any(c.op != "iter" for c in e.conds):
            return None
        v = T.strip(e.val)
        ls = [y for y in subterms(v) if y.op == "call" and str(y.args[0]) == "len"]
        if len(set(ls)) != 1 or T.strip(ls[0].args[1][0]).op != "elem":
            return None
        # truth of the test for clusters of 1, 2, 3 nodes (no cluster is empty)
        row = []
        for n in (1, 2, 3, 7):
            w = T.subst(v, {ls[0]: const(n)})
            if w not in (TRUE, FALSE):
                return None
            row.append(w is TRUE)
        kinds.add(tuple(row))
    if len(kinds) != 1:
        return None
    row = kinds.pop()
    if str(x.args[0]) == "any":         # not any(P) = all(not P)
        row, pol = tuple(not y for y in row), not pol
    return pol and row == (True, False, False, False)


def same(ctx, rule, C, got, want, star, e, fi, n):
    if got is None:
        if star is not None:
            ctx.ok(rule, C, "through the keyword mapping")
        else:
            ctx.bad(rule, C, "%s is not passed on: the callee's default is used" % n, e.where)
        return
    got, want = T.strip(got), T.strip(want)
    if got is want:
        ctx.ok(rule, C)
    elif T.is_const(got) or got.op == "sym" or got.op == "default" or not (want in subterms(got)) or differs(got, want):
        ctx.bad(rule, C, "receives %s instead of the caller's %s" % (got, n), e.where)
    else:
        ctx.und(rule, C, "receives %s" % got)


def opts(ctx, C, e, fi, b, bound):
    """reporting options keep their meaning: an argument named X in the caller lands on X"""
    for n, v in b.items():
        if v is not None and v.op == "sym" and v.args[0] in ("verbose", "print_num_loops", "save_progress", "rnd_seed") and v is bound.get(v.args[0]):
            ctx.check(n == v.args[0], "option-role", "%s -> %s.%s %s" % (C, fi.cls.name if fi.cls else "", fi.name, v.args[0]),
                      "the caller's %s is taken as %s" % (v.args[0], n), e.where)


def forwarding(ctx):
    """every function that takes a cap and reaches a search passes it on"""
    prog = ctx.prog
    names = {"find_louvain_clustering"}
    for f in functions(prog):
        ps = f.params()
        mine = [n for n in CAPS if n in ps]
        if f.name.startswith("_louvain") or not reaches(prog, f, names):
            continue
        kw = f.node.args.kwarg.arg if f.node.args.kwarg else None
        if not mine and not kw and f.name not in WORK:
            continue
        it = Interp(prog, opaque=lambda fi: fi is not f and fi.name in (HOOKS | OPQ | names | {"__init__"}))
        st = State()
        selft = it.new_instance(f.cls) if f.cls else None
        try:
            r = it.run(f, selft=selft, st=st)
        except Exception as ex:
            ctx.und("forward", f.id, "%s" % ex)
            continue
        ctx.saw(it)
        C = f.id.split(":")[-1] if ":" in f.id else f.qual
        if f.cls is not None and f.cls.is_a("BaseClustering") and f.name == "find_louvain_clustering":
            if not [1 for e, fi, b, star in calls_to(it, names) if fi is not f]:
                continue
        for e, fi, b, star in calls_to(it, names):
            if fi is f:
                continue
            for n in mine:
                if n in fi.params():
                    same(ctx, "forward", "%s -> %s %s" % (f.qual, fi.qual, n), b.get(n), r.bound[n], star, e, fi, n)
            if kw and not mine:
                ctx.check(star is not None or any(n in b for n in CAPS), "forward", "%s -> %s kwargs" % (f.qual, fi.qual),
                          "the caller's keyword arguments are not passed on", e.where)
                for n in CAPS:
                    v = b.get(n)
                    if v is not None and T.is_const(v):
                        ctx.bad("forward", "%s -> %s %s" % (f.qual, fi.qual, n), "fixed to %s" % v, e.where)
            opts(ctx, f.qual, e, fi, b, r.bound)
        if not calls_to(it, names):
            # call on an object of unknown class
            for e in it.events:
                if e.kind == "call" and str(e.d["fn"]) == ".find_louvain_clustering":
                    kws = e.d["kwargs"]
                    for n in mine:
                        same(ctx, "forward", "%s -> find_louvain_clustering %s" % (f.qual, n), kws.get(n), r.bound[n], kws.get("**"), e, None, n)
                    if kw and not mine:
                        ctx.check("**" in kws, "forward", "%s -> find_louvain_clustering kwargs" % f.qual,
                                  "the caller's keyword arguments are not passed on", e.where)


WORK = ()


def functions(prog):
    for m in prog.modules.values():
        for f in m.all_functions():
            yield f


def reaches(prog, f, names):
    import ast
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in names:
            return True
    return False
