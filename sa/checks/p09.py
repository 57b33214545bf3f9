"""P09 a seeded search is reproducible."""
from __future__ import annotations
import ast
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms
from .. import terms as T
from ..engine import Interp, State
from ..model import AnalysisBroken, FuncInfo, ClassInfo
from ..fwd import calls_to, static_bind, target
from .louvainlib import HOOKS

MIN_OBLIGATIONS = 20
RULE = """
Effect analysis of every function reachable from a search (name-based call
graph): the only source of randomness is the generator of the object.
Dataflow of the seed/generator from every entry point (constructors, the
search, the flow-integral wrapper, static clustering, multi-start runs) to that
generator, with seed 0 as an ordinary seed, and of the generator to the
clusterings of the higher levels.  For multi-start runs the reported seeds are
the ones the runs were given, in order.
"""

PURE = {"RandomState", "default_rng", "Generator", "SeedSequence", "PCG64", "MT19937", "Random"}
AMBIENT = ("os.urandom", "secrets.", "uuid.", "random.", "numpy.random.")
DRAWS = {"shuffle", "permutation", "choice", "rand", "randn", "randint", "random", "random_sample", "uniform", "normal",
         "permuted", "integers", "sample", "getrandbits", "randrange"}


def ambient(name):
    if not isinstance(name, str):
        return False
    if any(name == a or (a.endswith(".") and name.startswith(a)) for a in AMBIENT):
        return name.rsplit(".", 1)[-1] not in PURE
    return False


def callgraph(prog):
    """name-based: method name or function name -> functions"""
    byname = {}
    for m in prog.modules.values():
        for f in m.all_functions():
            byname.setdefault(f.name, []).append(f)
    return byname


def called(prog, f, byname):
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Name):
                r = prog.resolve_name(f.module, x.func.id)
                if isinstance(r, FuncInfo):
                    out.add(r)
                elif isinstance(r, ClassInfo):
                    i = r.find("__init__")
                    if i is not None:
                        out.add(i)
                elif r is None:
                    out |= set(g for g in byname.get(x.func.id, ()) if g.module is f.module)
            elif isinstance(x.func, ast.Attribute):
                r = prog.resolve_expr(f.module, x.func)
                if isinstance(r, FuncInfo):
                    out.add(r)
                elif isinstance(r, ClassInfo):
                    if r.find("__init__") is not None:
                        out.add(r.find("__init__"))
                elif not isinstance(r, str):
                    out |= set(g for g in byname.get(x.func.attr, ()) if g.cls is not None)
    return out


def run(ctx):
    prog = ctx.prog
    base = prog.cls("BaseClustering")
    byname = callgraph(prog)
    # -------------------------------------------------- sources of randomness
    roots = []
    for c in prog.subclasses("BaseClustering"):
        for n in ("find_louvain_clustering", "__init__", "compute_stability"):
            g = c.find(n)
            if g is not None:
                roots.append(g)
    reach, work = set(), list(roots)
    while work:
        f = work.pop()
        if f in reach:
            continue
        reach.add(f)
        work += called(prog, f, byname)
    for f in sorted(reach, key=lambda z: z.id):
        bad = []
        draws = []
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                r = prog.resolve_expr(f.module, x.func)
                if ambient(r):
                    bad.append((x.lineno, r))
                elif isinstance(r, str) and r.startswith("numpy.random.") and r.rsplit(".", 1)[-1] in PURE and not x.args and not x.keywords:
                    bad.append((x.lineno, r + "() without a seed"))
        C = f.qual
        if bad:
            for ln, r in bad:
                ctx.bad("ambient-randomness", C + " " + r, "the search draws from %s, which its seed does not control" % r, "%s:%d (%s)" % (f.module.rel, ln, C))
        else:
            ctx.ok("ambient-randomness", C)
    ctx.functions |= {f.id for f in reach} if hasattr(ctx, "functions") and isinstance(ctx.functions, set) else set()

    # -------------------------------------------------- the generator of an object
    seen = set()
    fields = generator_fields(prog)
    for cls in prog.subclasses("BaseClustering"):
        f = cls.find("__init__")
        if f is None or f in seen or "rnd_seed" not in f.params():
            continue
        seen.add(f)
        for lab, args in (("seed", {"rnd_seed": sym("rnd_seed"), "rnd_state": NONE}), ("seed 0", {"rnd_seed": const(0), "rnd_state": NONE}),
                          ("generator", {"rnd_seed": NONE, "rnd_state": sym("rnd_state")})):
            it = Interp(prog, opaque=lambda fi: fi.name != "__init__" or fi.cls is None or not fi.cls.is_a("BaseClustering"))
            s = it.new_instance(cls)
            st = State()
            for k in ("rnd_seed", "rnd_state"):
                if args[k].op == "sym":
                    st.assume(not_(T.cmp_("is", args[k], NONE)))
            r = it.run(f, selft=s, args=args, st=st)
            ctx.saw(it)
            C = "%s.__init__ / %s" % (cls.name, lab)
            vals = [(n, r.st.heap.get((s, n))) for n in fields]
            vals = [(n, v) for n, v in vals if v is not None]
            if not vals:
                ctx.und("generator", C, "no generator field is set")
            for n, v in vals:
                for cs, x in T.cases(v) or [((), v)]:
                    gen_ok(ctx, "generator", C, x, args, f.where, lab)

    # -------------------------------------------------- the search
    done = set()
    for cls in prog.subclasses("BaseClustering"):
        f = cls.find("find_louvain_clustering")
        if f is None or f in done or "rnd_seed" not in f.params():
            continue
        done.add(f)
        for lab, a in (("seed", sym("rnd_seed")), ("seed 0", const(0)), ("no seed", NONE)):
            it = Interp(prog, opaque=lambda fi: fi is not f and (fi.name in HOOKS or fi.name in ("__init__", "_louvain_move_nodes", "find_louvain_clustering", "_aggregate_clusters")
                        or fi.name.startswith("_update") or fi.name.startswith("_save") or fi.name.startswith("_set")))
            s = it.new_instance(cls)
            st = State()
            if a.op == "sym":
                st.assume(not_(T.cmp_("is", a, NONE)))
            r = it.run(f, selft=s, args={"rnd_seed": a}, st=st)
            ctx.saw(it)
            C = "%s.find_louvain_clustering / %s" % (cls.name, lab)
            sup = [(e, fi, b, star) for e, fi, b, star in calls_to(it, {"find_louvain_clustering"}) if fi is not f]
            if sup:
                for e, fi, b, star in sup:
                    v = b.get("rnd_seed")
                    ctx.tri(True if v is a or (v is None and (a is NONE or star is not None)) else (False if v is None or T.is_const(v) or v.op == "sym" else None),
                            "seed-forward", C + " -> " + fi.qual, "the search receives seed %s" % v, e.where)
                continue
            search(ctx, it, s, f, C, a, fields)

    wrappers(ctx)
    multi(ctx)


def generator_fields(prog):
    """fields that are drawn from, and every field a generator is stored in"""
    out = set()
    for c in prog.subclasses("BaseClustering"):
        for f in c.methods.values() if hasattr(c, "methods") else []:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in DRAWS:
                    v = x.func.value
                    if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self":
                        out.add(v.attr)
    return sorted(out) or ["_rnd_state"]


def gen_ok(ctx, rule, C, x, args, where, lab):
    x = T.strip(x)
    if x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] in ("RandomState", "default_rng"):
        a = list(x.args[1]) + [v for k, v in x.args[2] if k == "seed"]
        got = a[0] if a else NONE
        if lab == "generator":
            ctx.bad(rule, C, "the generator passed in is not the one used (%s)" % x, where)
        else:
            want = args["rnd_seed"]
            ctx.tri(True if got is want else (False if got is NONE or T.is_const(got) or want not in subterms(got) else None), rule, C,
                    "the generator is seeded with %s instead of %s" % (got, want), where, str(x))
        return
    if lab == "generator":
        dup = x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] in ("deepcopy", "copy") and sym("rnd_state") in subterms(x) or \
            x.op == "deep" and sym("rnd_state") in subterms(x)
        ctx.tri(True if x is sym("rnd_state") else (False if x is NONE or dup else None), rule, C, "the generator is %s" % x, where, str(x))
    else:
        ctx.tri(False if x is NONE or ambient(str(x.args[0]) if x.op == "call" else (x.args[0] if x.op == "ext" else "")) else None, rule, C,
                "the generator is %s" % x, where, str(x))


def search(ctx, it, s, f, C, a, fields):
    gens = {mk("attr", s, n) for n in fields}
    seeded = None
    for e in it.events:
        if e.kind == "call" or e.kind == "mutate":
            fn = e.d.get("fn") or e.d.get("how")
            tgt = e.d.get("target") if e.kind == "mutate" else (e.d["args"][0] if e.d.get("args") else None)
            name = str(fn)
            if e.kind == "call" and name == ".seed" and T.strip(tgt) in gens:
                got = e.d["args"][1] if len(e.d["args"]) > 1 else e.d["kwargs"].get("seed", NONE)
                seeded = seeded or (got, e)
    sa = [e for e in it.events if e.kind == "setattr" and e.d.get("base") is s and e.d.get("name") in fields]
    first_draw = None
    for i, e in enumerate(it.events):
        fi, args, kw = target(e)
        nm = fi.name if fi is not None else (str(e.d.get("fn")) if e.kind == "call" else "")
        if nm == "_louvain_move_nodes" or nm.lstrip(".") in DRAWS and nm.startswith("."):
            first_draw = i
            break
    if a is NONE:
        if seeded:
            got = seeded[0]
            if got is NONE and not seeded[1].guards:
                ctx.bad("seeding", C, "without a seed the generator is reseeded, so a seed given to the constructor has no effect", seeded[1].where)
            else:
                ctx.tri(None, "seeding", C, "", "", "seeded with %s" % got)
        else:
            ctx.ok("seeding", C)
    else:
        if seeded is None and not sa:
            ctx.bad("seeding", C, "the seed passed to the search is not used", f.where)
        elif seeded is not None:
            got, e = seeded
            g = [c for c in e.guards if not T.is_const(c) and c.op != "iter" and c is not not_(T.cmp_("is", a, NONE))]
            ctx.tri(True if got is a else (False if T.is_const(got) or a not in subterms(got) else None), "seeding", C,
                    "the generator is seeded with %s" % got, e.where, str(got))
            ctx.tri(True if not g else (False if any(a in subterms(c) for c in g) and a.op == "const" else None), "seeding-always", C,
                    "the generator is seeded only if %s" % "; ".join(map(str, g)), e.where)
            ctx.check(first_draw is None or it.events.index(e) < first_draw, "seeding-first", C, "nodes are moved before the generator is seeded", e.where)
        else:
            for e in sa:
                gen_ok(ctx, "seeding", C, e.d["value"], {"rnd_seed": a}, e.where, "seed")
    # higher levels and start partitions use the same generator
    for e, fi, b, star in calls_to(it, {"__init__"}):
        if fi.cls is None or not fi.cls.is_a("BaseClustering"):
            continue
        v = b.get("rnd_state")
        sd = b.get("rnd_seed")
        v = T.strip(v) if v is not None else None
        ln = e.where
        if v is not None and v in gens:
            ctx.ok("level-generator", C + " construct at " + ln.split(" ")[0].rsplit("/", 1)[-1].split(":")[0])
        elif (v is None or v is NONE) and (sd is None or sd is NONE) and star is None:
            ctx.bad("level-generator", C + " construct", "the clustering of a level is created without the generator: it uses fresh, unseeded randomness", ln)
        elif a.op == "sym" and sd is not None and a in subterms(sd) and v in (None, NONE):
            ctx.ok("level-generator", C + " construct (seed)")
        else:
            ctx.und("level-generator", C + " construct", "%s / %s" % (v, sd))


def wrappers(ctx):
    """functions with a seed (or generator) parameter that build clusterings or start searches pass it on"""
    prog = ctx.prog
    for m in prog.modules.values():
        for f in m.all_functions():
            if "rnd_seed" not in f.params() or (f.cls is not None and f.cls.is_a("BaseClustering")):
                continue
            nested = f.qual
            it = Interp(prog, opaque=lambda fi: fi is not f and (fi.name in ("__init__", "find_louvain_clustering") or fi.name.startswith("compute")))
            st = State()
            sd = sym("rnd_seed")
            st.assume(not_(T.cmp_("is", sd, NONE)))
            selft = it.new_instance(f.cls) if f.cls else None
            try:
                r = it.run(f, selft=selft, st=st, args={"rnd_seed": sd})
            except Exception as ex:
                ctx.und("seed-forward", f.qual, str(ex))
                continue
            ctx.saw(it)
            ctors = [(e, fi, b, star) for e, fi, b, star in calls_to(it, {"__init__"}) if fi.cls is not None and fi.cls.is_a("BaseClustering")]
            finds = calls_to(it, {"find_louvain_clustering"})
            unk = [e for e in it.events if e.kind == "call" and str(e.d["fn"]) == ".find_louvain_clustering"]
            find_seeded = bool(finds or unk) and all(b.get("rnd_seed") is sd for _, _, b, _ in finds) and all(e.d["kwargs"].get("rnd_seed") is sd for e in unk)
            for e, fi, b, star in ctors:
                v = b.get("rnd_seed")
                C = "%s -> %s" % (f.qual, fi.cls.name if "new" not in str(e.d.get("args", [""])) else fi.qual)
                ok = v is sd or find_seeded or (v is None and star is not None)
                ctx.tri(True if ok else (False if v is None or T.is_const(v) or v.op == "sym" else None), "seed-forward", C,
                        "the clustering is built with seed %s instead of the caller's" % v, e.where)
                if "rnd_state" in f.params():
                    v = b.get("rnd_state")
                    ctx.tri(True if v is sym("rnd_state") or v is not None and sym("rnd_state") in subterms(v) else (False if v is None or T.is_const(v) else None),
                            "generator-forward", C, "the caller's generator is replaced by %s" % v, e.where)
            for e, fi, b, star in finds:
                v = b.get("rnd_seed")
                C = "%s -> %s" % (f.qual, fi.qual)
                # a search without a seed continues the generator of the object: fine if that one was seeded
                ok = v is sd or v in (None, NONE) and ctors and all(x[2].get("rnd_seed") is sd for x in ctors)
                ctx.tri(True if ok else (False if v is None or T.is_const(v) or v.op == "sym" else None), "seed-forward", C,
                        "the search receives seed %s" % v, e.where)
            if not ctors and not finds and not unk:
                ctx.und("seed-forward", f.qual, "no clustering is built or searched")


def multi(ctx):
    """functions that run a search per seed: each run gets the seed it is reported with"""
    prog = ctx.prog
    for m in prog.modules.values():
        for f in m.all_functions():
            src = ast.unparse(f.node)
            reports = "n_random_seeds(" in src and ("find_louvain_clustering(" in src or "__class__(" in src)
            if f.cls is not None or "rnd_seed=" not in src and not reports or "rnd_seed" in f.params():
                continue
            it = Interp(prog, opaque=lambda fi: fi is not f and fi.name in ("__init__", "find_louvain_clustering", "n_random_seeds", "compute_stability"))
            try:
                r = it.run(f)
            except Exception as ex:
                ctx.und("multi-start", f.qual, str(ex))
                continue
            ctx.saw(it)
            used = []
            for e in it.events:
                if e.kind in ("call", "enter", "construct"):
                    v = (e.d.get("kwargs") or {}).get("rnd_seed")
                    if v is not None:
                        used.append((e, T.unver(v)))
            v = T.unver(r.value)
            if not used and v.op == "tuple" and any(x.op == "call" and str(x.args[0]).endswith("n_random_seeds") for x in v.args):
                ctx.bad("multi-start-seeds", f.qual, "seeds are reported that no run was started with", f.where)
                continue
            if not used or v.op != "tuple":
                ctx.und("multi-start", f.qual, "%d seeded runs, returns %s" % (len(used), v))
                continue
            for e, u in used:
                C = f.qual
                if u.op == "idx" and not T.is_const(u.args[1]) and u.args[1].op == "elem":
                    u = mk("elem", u.args[0], u.args[1].args[1])
                if u.op == "elem":
                    seq = u.args[0]
                    hit = [x for x in v.args if x is seq]
                    # or a list of the seeds collected in the loop
                    col = [x for x in v.args if any(u is y for y in collected(it, r, x))]
                    ctx.tri(True if hit or col else None, "multi-start-seeds", C, "", e.where, "runs use %s, returned: %s" % (u, [str(z) for z in v.args]))
                    other = [x for x in v.args if x.op == "call" and seq.op == "call" and str(x.args[0]) == str(seq.args[0])]
                    if not hit and not col and (other or not any(str(x).find("seed") >= 0 for x in v.args)):
                        ctx.bad("multi-start-seeds", C, "the seeds used are not the ones returned", e.where)
                elif u.op == "idx" and T.is_const(u.args[1]):
                    ctx.check(any(x is u for x in v.args), "multi-start-seeds", C, "the run uses %s, the seed reported is another" % u, e.where)
                elif T.is_const(u):
                    ctx.bad("multi-start-seeds", C, "every run uses seed %s" % u, e.where)
                else:
                    same = any(x is u for x in v.args)
                    calls = [x for x in v.args if x.op == "call" and str(x.args[0]) == str(u.args[0])] if u.op == "call" else []
                    ctx.tri(True if same else (False if u.op == "call" and "n_random_seeds" in str(u) else None), "multi-start-seeds", C,
                            "the run uses %s" % u, e.where, str(u))


def collected(it, r, x):
    c = x.args[1] if x.op == "contents" else r.st.heap.get((x, "[]"))
    if c is None or c.op != "phi":
        return []
    i = it.phis.get(c)
    if i is not None and i.back is not None and i.back.op == "append":
        return [T.unver(i.back.args[1])]
    return []
