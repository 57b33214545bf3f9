"""P04 - a network written with save() is the network load() returns.

``save`` followed by ``load`` is analysed as one program (see iolib), once for a network in which everything has been
computed and once for one on which nothing has; the loaded object's attributes are then compared, as value terms, with the
attributes of the saved one.  The attributes that have to survive are not a list kept here: they are all attributes any method
of the class writes (plus the ones the class itself lists)."""
from __future__ import annotations
import ast
from .. import terms as T
from ..model import with_helpers
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms
from .iolib import run as drive, roots, file_of, Unknown, bare, modes
from .p05 import keys

SELF = sym("self")
NET = "ContTempNetwork"
TABLE = mk("attr", SELF, "events_table")


CHANGED = {".sort_values", ".sort_index", ".reset_index", ".drop_duplicates", ".drop", ".dropna", ".head", ".tail", ".sample", ".set_index", ".reindex", ".round",
           ".fillna", ".query", ".iloc", ".astype", ".transpose", ".eliminate_zeros", ".rename"}


def run(ctx):
    prog = ctx.prog
    base = prog.cls(NET)
    classes = [c for c in base.module.classes.values() if c is base or c.is_a(NET)]
    for cls in classes:
        if cls.find("save") is None or cls.find("load") is None:
            ctx.und("restored", cls.name, "no save/load")
            continue
        one(ctx, cls)


def written(cls):
    """attribute -> names of the methods that assign self.<attribute>"""
    out = {}
    for c in cls.mro():
        for f in c.methods.values():
            ps = f.params()
            if not ps or ps[0] != "self":
                continue
            for node, me in with_helpers(f):
              for x in ast.walk(node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                    out.setdefault(x.attr, set()).add(f.name)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) == 3 and \
                        isinstance(x.args[0], ast.Name) and x.args[0].id == me:
                    if isinstance(x.args[1], ast.Constant):
                        out.setdefault(x.args[1].value, set()).add(f.name)
                    else:       # a loop over constant names
                        for y in ast.walk(node):
                            if isinstance(y, (ast.For, ast.comprehension)) and isinstance(y.iter, (ast.Tuple, ast.List)):
                                for z in y.iter.elts:
                                    if isinstance(z, ast.Constant) and isinstance(z.value, str):
                                        out.setdefault(z.value, set()).add(f.name)
    return out


def construction(cls):
    """the constructor and the private methods only it (transitively) calls"""
    callers = {}
    for c in cls.mro():
        for f in c.methods.values():
            for node, me in with_helpers(f):
              for x in ast.walk(node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                    callers.setdefault(x.attr, set()).add(f.name)
    out = {"__init__"}
    while True:
        new = {n for n, cs in callers.items() if n.startswith("_") and cs and cs <= out | {n} and cs & out and n not in out}
        if not new:
            return out
        out |= new


def scenario(ctx, cls, attrs, present, save="", load=""):
    src = "def driver(self, name):\n    self.save(name%s)\n    return %s.load(name%s)\n" % (save, cls.name, load)
    fc = [mk("isinst", TABLE, "DataFrame"), not_(mk("isinst", TABLE, "str")), not_(mk("isinst", TABLE, "Path")), not_(mk("is", TABLE, NONE))]
    names = {x.value for node, _ in with_helpers(cls.find("save")) for x in ast.walk(node) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier()}
    for a in sorted(set(attrs) | names):
        h = mk("hasattr", SELF, a)
        fc.append(h if present(a) else not_(h))
    it, r = drive(ctx.prog, src, cls.module.name, cls, facts=fc)
    ctx.saw(it)
    return it, r


def one(ctx, cls):
    fs, fl = cls.find("save"), cls.find("load")
    wr = written(cls)
    cons = construction(cls)
    lab = cls.name
    attrs = sorted(wr)
    with ctx.guard("restored", lab):
        it, r = scenario(ctx, cls, attrs, lambda a: True)
        if not it.written or not it.read:
            ctx.und("restored", lab, "no pickle writer/reader reached")
            return
        listed = keys(r.st, it.written[-1][0])
        net = T.strip(r.value)
        if net.op != "obj" or it.objs.get(net, {}).get("cls") is None:
            ctx.und("restored", lab, "load returns %s" % net)
            return
        ctx.check(it.objs[net]["cls"] is cls, "restored", lab + " type", "load returns a %s" % it.objs[net]["cls"].name, fl.where)
        for a in attrs:
            v = r.st.heap.get((net, a))
            L = "%s.%s" % (lab, a)
            if v is None or v is T.UNDEF:
                ctx.bad("restored", L, "a network saved with %s set is loaded without it" % a, fl.where)
                continue
            b = bare(v)
            if b is mk("attr", SELF, a):
                ctx.ok("restored", L)
                continue
            outside = sorted(wr[a] - cons)
            lv = [y for y in (bare(x) for _, x in T.cases(b)) if y.op == "call" and y.args[0] in CHANGED and y.args[1] and any(x is mk("attr", SELF, a) for x in subterms(y.args[1][0]))]
            if lv:
                ctx.bad("restored", L, "%s is not loaded as it was but as %s" % (a, lv[0]), fl.where)
                continue
            if a == "events_table":
                ctx.und("restored", L, str(b))
                continue
            if outside:
                ctx.tri(False if b.op in ("const", "obj", "attr") or b.op == "sym" else None, "restored", L,
                        "%s, which %s computes, is loaded as %s" % (a, outside[0], b), fl.where, str(b))
                continue
            # only the constructor sets it: the loaded one is rebuilt from the saved events
            other = [x for x in subterms(b) if x.op == "attr" and x.args[0] is SELF and x.args[1] != "events_table"]
            if T.is_const(b):
                g = generic(ctx, cls, a)
                ctx.tri(True if g is b else (None if g is None else False), "restored", L, "%s is always loaded as %s" % (a, b), fl.where, str(g))
            elif any(x is TABLE for x in subterms(b)) and not other:
                ctx.ok("restored", L)
            else:
                ctx.und("restored", L, str(b))
        flags(ctx, cls, it, r, net, lab)
        # nothing of the saved network is changed
        for e in it.events:
            if e.kind == "setattr" and T.unver(T.strip(e.d["base"])) is SELF:
                ctx.bad("unchanged", "%s %s" % (lab, e.fi.name), "saving sets self.%s" % e.d["name"], e.where)
            elif e.kind in ("setitem", "mutate"):
                t = e.d["base"] if e.kind == "setitem" else e.d["target"]
                if SELF in roots(t, it):
                    ctx.bad("unchanged", "%s %s" % (lab, e.fi.name), "saving or loading changes %s of the saved network" % T.strip(t), e.where)
        ctx.ok("unchanged", lab)
        modes(ctx, it, lab, fs.where)
        paths(ctx, it, r, lab, fs)
    # a network on which little has been computed
    always = {a for a in attrs if wr[a] & cons}
    with ctx.guard("absent", lab):
        opt = [a for a in attrs if not (wr[a] & cons) or a == "label_to_node_dict"]
        it, r = scenario(ctx, cls, attrs, lambda a: a not in opt)
        net = T.strip(r.value)
        if net.op != "obj":
            ctx.und("absent", lab, str(net))
        else:
            ks = keys(r.st, it.written[-1][0]) if it.written else None
            for a in opt:
                v = r.st.heap.get((net, a))
                ctx.check(v is None or v is T.UNDEF, "absent", "%s.%s" % (lab, a), "%s is set on the loaded network although the saved one has none" % a, fl.where)
        for e in it.events:
            if e.kind == "badcall":
                ctx.bad("absent", lab, str(e.d)[:120], e.where)
    mats = ["T", "inter_T", "laplacians"]
    for s, l, txt in ((", matrices_list=['T']", "", "saved with matrices_list"), ("", ", matrices_list=['T']", "loaded with matrices_list")):
        with ctx.guard("selection", "%s %s" % (lab, txt)):
            it, r = scenario(ctx, cls, attrs, lambda a: True, s, l)
            net = T.strip(r.value)
            if net.op != "obj":
                ctx.und("selection", lab + " " + txt, str(net))
                continue
            for a in mats:
                v = r.st.heap.get((net, a))
                L = "%s %s %s" % (lab, txt, a)
                if a == "T":
                    ctx.tri(v is not None and bare(v) is mk("attr", SELF, a), "selection", L, "the selected matrices are not restored", fl.where)
                else:
                    ctx.tri(v is None or v is T.UNDEF, "selection", L, "matrices that were not selected are restored", fl.where)
            for a in ("times", "num_nodes"):
                v = r.st.heap.get((net, a))
                ctx.tri(v is not None and bare(v) is mk("attr", SELF, a), "selection", "%s %s %s" % (lab, txt, a), "choosing matrices drops %s" % a, fl.where)


def flags(ctx, cls, it, r, net, lab):
    """public switches a user may set (initialised to a constant, read by the methods) survive"""
    for a in ("is_directed",):
        if any(isinstance(x, ast.Attribute) and x.attr == a for c in cls.mro() for x in ast.walk(c.node)):
            v = r.st.heap.get((net, a))
            ctx.tri(v is not None and bare(v) is mk("attr", SELF, a), "restored", "%s.%s as set by the user" % (lab, a), "%s is loaded as %s" % (a, v), cls.find("load").where)


def generic(ctx, cls, a):
    """the value the constructor gives attribute a for any arguments, None if unknown"""
    from .timelib import interp
    it, r = interp(ctx.prog, cls.find("__init__"), stop={"_merge_overlapping_events"}, cls=cls)
    return r.st.heap.get((SELF, a))


def paths(ctx, it, r, lab, fs):
    names = ["x", "res.d/x", "x.0.5", "x.0.1", "x_lamda0.1", "x_lamda0.5", "xpickle", "x.pickle.d/y", "x.PICKLE"]
    out = {}
    for nm in names + ["x.pickle"]:
        L = "%s %r" % (lab, nm)
        try:
            env = {"sym": {"name": nm}, "exists": lambda p: False}
            wr = file_of([(f, g) for _, f, g in it.written], env, it, r.st)
            if len(wr) != 1:
                ctx.und("file", L, str(sorted(wr)))
                continue
            (op, path), = wr
            if nm in names:
                out.setdefault(path, []).append(nm)
            for by, also in [(x, y) for x in sorted({nm, path}) for y in (False, True)]:
                # also: a file or folder of the plain name exists
                env = {"sym": {"name": by}, "exists": lambda p: p == path or (also and p == nm)}
                rd = {p for _, p in file_of(it.read, env, it, r.st)}
                ctx.tri(None if len(rd) > 1 else rd == {path}, "file", "%s read as %r%s" % (L, by, " beside another file" if also else ""), "written to %s but read from %s" % (path, sorted(rd)), fs.where, str(rd))
        except Unknown as ex:
            ctx.und("file", L, str(ex))
    for p, nms in out.items():
        ctx.check(len(nms) == 1, "file", "%s distinct names -> %s" % (lab, p), "networks saved as %s overwrite each other in %s" % (nms, p), fs.where)
