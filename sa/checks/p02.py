"""P02 parameter changes rewind the workflow."""
from __future__ import annotations
import ast
from ..terms import mk, sym, const, NONE, TRUE, not_, subterms
from ..finite import Fin, UNK
from ..engine import Interp, State
from . import statelib as L
from .p01 import guard_value

MIN_OBLIGATIONS = 14
RULE = """
The setter wrapper built by the registration decorator is analysed over an
arbitrary original setter: the original setter must run before any tracked
record changes, the is-set flag and the stage are evaluated over all orderings
of (current stage, parameter stage) and the cases None / not None x ignored /
not ignored.  For every class built with the metaclass, the parameters a step
reads (through properties or backing fields, transitively through package
calls on self) must be registered at a stage not later than the step's minimal
stage; backing fields may only be written by their setter (or the constructor).
"""


def run(ctx):
    prog = ctx.prog
    mc = L.meta_class(prog)
    W = "%s.register setter wrapper" % mc.name
    r = L.run_wrapper(prog, "property")
    if r is None:
        ctx.und("setter-shape", W, "wrapped setter not recognised")
    else:
        wrapper(ctx, W, *r)
    members(ctx)
    for cls, enum in L.state_classes(prog):
        with ctx.guard("transition", cls.name):
            transitions(ctx, cls, enum)


def transitions(ctx, cls, enum):
    """every setting, assigned none or a value, in every situation"""
    m = L.Machine(ctx.prog, cls, enum)
    ctx.saw(m.it)
    where = m.mc.methods["register"].where
    ps = m.table(m.attr("properties_set"))
    lab = cls.name + " settings of a new object"
    if ps is None or "?" in ps.values():
        ctx.und("transition", lab, str(ps))
    else:
        ctx.check(ps == {p: False for p in m.props}, "transition", lab, "the settings recorded are %s" % ps, where)
    m.st.assume(not_(mk("is", sym("v"), NONE)))
    for name, accept in (("t_start", True), ("t_stop", True), ("temporal_network", False), ("time_scale", False)):
        if name in m.props and cls.name == "FlowStability":
            ctx.check(m.ignore[name] is (not accept), "none-acceptable", "%s.%s" % (cls.name, name),
                      "none %s as a value of %s" % ("does not count" if accept else "counts", name), cls.find_prop(name)["set"].where)
    for name, nx in m.props.items():
        for s in m.stages:
            for fl, flags in m.flagsets():
                for val in (NONE, sym("v"), const(0)):
                    lab = "%s.%s = %s at stage %s, %s" % (cls.name, name, "None" if val is NONE else "a value" if val.op == "sym" else "0", s, fl)
                    o = m.apply(s, flags, "set", name, val)
                    if o["raised"]:
                        ctx.bad("transition", lab, "an error is raised", where)
                        continue
                    notes = [f for f, e in o["notes"]]
                    if notes != ["note_set_" + name]:
                        ctx.tri(False if not notes else None, "transition", lab, "the value is not set", where, str(notes))
                        continue
                    want = dict(flags)
                    want[name] = not (val is NONE and m.ignore[name])
                    if o["stage"] == "?" or o["flags"] is None or "?" in o["flags"].values():
                        ctx.und("transition", lab, "not followed")
                    elif o["stage"] != min(s, nx):
                        ctx.bad("transition", lab, "the stage becomes %s, expected %s" % (o["stage"], min(s, nx)), where)
                    else:
                        ctx.check(o["flags"] == want, "transition", lab, "settings counted as given: %s, expected %s" % ([k for k, v in o["flags"].items() if v], [k for k, v in want.items() if v]), where)



def wrapper(ctx, W, it, st, w, val, func):
    ctx.saw(it)
    S = L.STATE(it)
    cur, nxt = L.cur_term(it), sym("next_state")
    value, ign = sym("value"), sym("ignore_none")
    fset = mk("attr", func, "fset")
    orig = [e for e in it.events if e.kind == "call" and (e.d["fn"] is fset or e.d["fn"] == ".fset")]
    if not orig:
        ctx.bad("setter-runs", W, "the original setter is never called", W)
        return
    o = orig[0]
    a = [x for x in o.d["args"] if x is not func]
    ctx.check(a[:2] == [it.selfsym, value], "setter-arguments", W, "the original setter receives %s" % a, o.where)
    ctx.check(not [g for g in o.guards if g.op not in ("isinst",) and g is not fset], "setter-runs", W,
              "the original setter runs only under %s" % (o.guards,), o.where)
    flag = [e for e in it.events if e.kind == "setitem" and e.d["base"] is mk("attr", S, "properties_set")]
    stage = [e for e in it.events if e.kind == "setattr" and e.d["base"] is S and e.d["name"] == "current"]
    for e in flag + stage:
        ctx.check(e.n > o.n and not e.fin, "setter-first", W,
                  "the tracked record changes before the original setter accepted the value "
                  "(a rejected value still changes the workflow)", e.where)
    if not flag:
        ctx.bad("is-set-flag", W, "assigning a parameter does not record whether it is set", W)
    else:
        key = flag[0].d["key"]
        for isnone in (True, False):
            for ignored in (True, False):
                want = not (isnone and ignored)
                got = UNK

                def oracle(t, isnone=isnone, ignored=ignored):
                    if t is ign:
                        return ignored
                    if t.op == "is" and t.args[0] is value and t.args[1] is NONE:
                        return isnone
                    return UNK
                fin = Fin(oracle, it.phis)
                got, un = None, False
                for e in flag:
                    g = guard_value(fin, [x for x in e.guards if x is not fset])
                    v = fin.truth(e.d["value"])
                    if g is UNK or (g is True and v is UNK):
                        un = True
                    elif g is True:
                        got = v
                nm = "%s, ignore_none=%s" % ("None" if isnone else "a value", ignored)
                if un:
                    # does it depend on the truth value of the parameter?
                    ctx2 = [t for e in flag for g in list(e.guards) + [e.d["value"]] for t in subterms(g)]
                    if value in ctx2 and not any(t.op == "is" and value in t.args for t in ctx2):
                        ctx.bad("is-set-flag", W + " / " + nm,
                                "whether a parameter counts as set depends on its value, not on being None", flag[0].where)
                    else:
                        v0 = [g for e in flag for g in e.guards if g is value or g is not_(value)]
                        if v0:
                            ctx.bad("is-set-flag", W + " / " + nm, "a falsy value is treated like None", flag[0].where)
                        else:
                            ctx.und("is-set-flag", W + " / " + nm, "condition not decidable")
                else:
                    ctx.check(got is want, "is-set-flag", W + " / " + nm,
                              "assigning %s marks the parameter as %s" % (nm, {None: "unchanged", True: "set", False: "not set"}[got]),
                              flag[0].where)
    if not stage:
        ctx.bad("stage-rewind", W, "assigning a parameter never rewinds the workflow stage", W)
        return
    for c, n in ((0, 1), (1, 1), (2, 1)):
        got, un = c, False
        for isnone in (True, False):
            def oracle(t):
                if t is cur:
                    return c
                if t is nxt:
                    return n
                if t.op == "is" and t.args[0] is value and t.args[1] is NONE:
                    return isnone
                return UNK
            fin = Fin(oracle, it.phis)
            got, un = c, False
            for e in stage:
                g = guard_value(fin, [x for x in e.guards if x is not fset])
                v = fin.ev(e.d["value"])
                if g is UNK or (g is True and v is UNK):
                    un = True
                elif g is True:
                    got = v
            nm = "current %s parameter stage" % ("<" if c < n else "==" if c == n else ">")
            if un:
                ctx.und("stage-rewind", W + " / " + nm, "not decidable")
            else:
                ctx.check(got == min(c, n), "stage-rewind", W + " / " + nm,
                          "assigning a parameter (stage %d) while at stage %d leaves stage %s; results depending on "
                          "the old value stay usable / unrelated progress is lost" % (n, c, got), stage[0].where)


class ReadInterp(Interp):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.reads = {}

    def on_read(self, b, name, v, n, st, fr):
        if b is self.root and not any(f.qual.endswith(".setter") for f, _ in self.stack):
            self.reads.setdefault(name, "%s:%d in %s" % (fr.fi.module.rel, n.lineno, fr.fi.qual))

    def getattr(self, b, name, node, st, fr):
        return super().getattr(b, name, node, st, fr)

    root = None


def members(ctx):
    prog = ctx.prog
    for cls, enum in L.state_classes(prog):
        regs = L.registered(prog, cls)
        props = {}
        backing = {}
        for kind, name, fi, kw in regs:
            if kind != "property":
                continue
            s = L.state_of(prog, cls.module, kw.get("next_state"), enum)
            props[name] = s
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) \
                        and x.value.id == fi.params()[0]:
                    backing[x.attr] = name
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute) \
                        and isinstance(x.value.value, ast.Name) and x.value.value.id == fi.params()[0]:
                    backing[x.value.attr] = name
        if not props:
            ctx.und("reads-registered", cls.name, "no registered parameters")
            continue
        opaque = lambda fi: fi.cls is not cls
        for kind, name, fi, kw in regs:
            if kind != "method":
                continue
            lo = L.state_of(prog, cls.module, kw.get("minimal_state"), enum)
            it = ReadInterp(prog, opaque=opaque)
            it.root = it.new_instance(cls)
            it.run(fi, selft=it.root)
            ctx.saw(it)
            for attr, where in sorted(it.reads.items()):
                p = attr if attr in props else backing.get(attr)
                if p is None:
                    continue
                if "?" in (props[p], lo):
                    ctx.und("reads-registered", "%s.%s reads %s" % (cls.name, name, p))
                    continue
                ctx.check(props[p] <= lo, "reads-registered", "%s.%s reads %s" % (cls.name, name, p),
                          "the step uses parameter %s which is registered at stage %s, later than the step's minimal stage %s: "
                          "changing it does not force the step to be redone" % (p, props[p], lo), where)
        # who writes backing fields
        setters = {id(fi.node) for kind, name, fi, kw in regs if kind == "property"}
        for f in list(cls.methods.values()) + [g for p in cls.props.values() for g in p.values()]:
            if f.name == "__init__":
                continue
            for x in ast.walk(f.node):
                a = None
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    a = x
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute):
                    a = x.value
                if a is None or a.attr not in backing:
                    continue
                own = backing[a.attr]
                good = id(f.node) in setters and f.qual.split(".")[1] == own
                if not good and id(f.node) not in setters:
                    # a private helper called only from the owning setter is fine
                    good = called_only_from_setter(cls, f, own)
                ctx.check(good, "setter-owns-field", "%s writes %s" % (f.qual, a.attr),
                          "parameter %s is changed without going through its registered setter: the stage is not rewound" % own,
                          "%s:%d" % (cls.module.rel, a.lineno))


def called_only_from_setter(cls, f, prop):
    callers = set()
    for g in list(cls.methods.values()) + [x for p in cls.props.values() for x in p.values()]:
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute) and x.attr == f.name and g is not f:
                callers.add(g.qual)
    return bool(callers) and callers <= {"%s.%s.setter" % (cls.name, prop), cls.name + ".__init__"}
