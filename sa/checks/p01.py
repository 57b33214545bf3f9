"""P01 workflow gating."""
from __future__ import annotations
import ast
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, and_, ite, subterms
from ..finite import Fin, UNK
from ..engine import Interp, State, Frame
from .. import terms as T
from . import statelib as L

MIN_OBLIGATIONS = 14
RULE = """
The decorator factory of the state-tracking metaclass is analysed by abstract
interpretation: the wrapper it builds around an arbitrary step function is run
over symbolic state; every event that calls the step, or writes the stage, is
checked against its path condition, evaluated over the finite set of orderings
(current stage vs. minimal stage) x (all required parameters set / one unset).
The tables the wrapper consults, the per-instance creation of those tables and
the ordering of stages are separate obligations, as is the chain of
(minimal, next) stages registered by each class built with the metaclass.
"""


def guard_value(fin, guards):
    out = True
    for g in guards:
        if g.op == "iter" or (g.op == "not" and g.args[0].op == "isinst") or g.op == "isinst":
            continue
        v = fin.truth(g)
        if v is False:
            return False
        if v is UNK:
            out = UNK
    return out


def run(ctx):
    prog = ctx.prog
    mc = L.meta_class(prog)
    W = "%s.register wrapper" % mc.name
    r = L.run_wrapper(prog, "method")
    if r is None:
        ctx.und("wrapper-shape", W, "register() does not return a recognisable closure")
    else:
        it, st, w, val, func = r
        ctx.saw(it)
        check_wrapper(ctx, it, st, val, func, W)
    check_tables(ctx, mc)
    check_instances(ctx, mc)
    check_order(ctx)
    check_chain(ctx)
    with ctx.guard("class-creation", mc.name):
        creation(ctx, mc)
    for cls, enum in L.state_classes(prog):
        with ctx.guard("transition", cls.name):
            transitions(ctx, cls, enum)


def creation(ctx, mc):
    """making a class collects its registrations, makes the class, and attaches the tracking to it"""
    f = mc.methods.get("__new__")
    if f is None:
        ctx.und("class-creation", mc.name, "no __new__")
        return
    ini, att = mc.methods.get("init_state"), mc.methods.get("attach_state")
    it = Interp(ctx.prog, opaque=lambda z: z in (ini, att))
    r = it.run(f)
    ctx.saw(it)
    ps = f.params()
    ns = sym("namespace") if "namespace" in ps else None
    C = mc.name + ".__new__"
    ev = {}
    for e in it.events:
        if e.kind == "call":
            nm = str(e.d["fn"]).rsplit(".", 1)[-1].rsplit(":", 1)[-1]
            if nm in ("init_state", "attach_state", "__new__"):
                ev.setdefault(nm, []).append(e)
    for nm, txt in (("init_state", "the registrations of the class are not collected"), ("__new__", "no class is made"), ("attach_state", "the tracking is not attached to the class")):
        es = ev.get(nm, [])
        opq = [e for e in it.events if e.kind == "call" and e.n]
        ctx.tri(True if es and not [g for g in es[-1].guards] else (False if not es else None), "class-creation", C + " " + nm, txt, f.where)
        if es and ns is not None:
            a = [T.strip(x) for x in list(es[-1].d["args"]) + list((es[-1].d["kwargs"] or {}).values())]
            ctx.check(ns in a, "class-creation", C + " %s namespace" % nm, "it is not given the members of the class", es[-1].where)
    if all(k in ev for k in ("init_state", "__new__", "attach_state")):
        ctx.check(ev["init_state"][-1].n < ev["attach_state"][-1].n and ev["__new__"][-1].n < ev["attach_state"][-1].n, "class-creation", C + " order",
                  "the tracking is attached before it was prepared", f.where)
        v = T.strip(r.value)
        ctx.tri(True if v is T.strip(ev["__new__"][-1].d["result"]) else (False if v is NONE else None), "class-creation", C + " result", "the class made is not returned", f.where, str(v))


def transitions(ctx, cls, enum):
    """every step in every situation"""
    m = L.Machine(ctx.prog, cls, enum)
    ctx.saw(m.it)
    where = m.mc.methods["register"].where
    tab = m.table(m.attr("properties_required"))
    for s in m.stages:
        got = None if tab is None else tab.get(s, [])
        lab = "%s stage %s required settings" % (cls.name, s)
        if got is None or not isinstance(got, list) or "?" in got:
            ctx.und("transition", lab, str(got))
        else:
            ctx.check(sorted(got) == sorted(m.required(s)), "transition", lab, "%s are required, expected %s" % (got, m.required(s)), where)
    c0 = m.value(m.attr("current"))
    ctx.tri(None if c0 == "?" else c0 == min(m.stages), "transition", cls.name + " first stage", "a new analysis starts in stage %s" % c0, where)
    init = [e for e in m.it.events if e.kind == "call" and "note_init" in str(e.d["fn"])]
    ctx.tri(True if len(init) == 2 else (None if m.S.op != "obj" else False), "transition", cls.name + " constructor", "the constructor of the class runs %d times for two objects" % len(init), where)
    ctx.tri(True if m.S is not m.S2 and m.S.op == "obj" and m.S2.op == "obj" else (False if m.S is m.S2 else None), "transition", cls.name + " own record", "two objects share one record", where)
    a, b = m.attr("properties_set"), m.value(m.attr("current"))
    b2 = T.unver(m.it.getattr(m.S2, "properties_set", m.f.node, m.st, m.fr))
    ctx.tri(False if a is b2 else (True if a.op == "obj" and b2.op == "obj" else None), "transition", cls.name + " own settings", "two objects share the record of given settings", where)
    for name, (lo, hi) in m.steps.items():
        for s in m.stages:
            for fl, flags in m.flagsets():
                lab = "%s.%s at stage %s, %s" % (cls.name, name, s, fl)
                o = m.apply(s, flags, "run", name)
                runs = s >= lo and all(flags[p] for p in m.required(lo))
                notes = [f for f, e in o["notes"]]
                if o["stage"] == "?" or o["flags"] is None or o["raised"] or any(g.op not in ("iter",) for f, e in o["notes"] for g in e.guards):
                    if o["raised"]:
                        ctx.bad("transition", lab, "an error is raised", where)
                    else:
                        ctx.und("transition", lab, "not followed")
                    continue
                did = notes == ["note_run_" + name]
                if runs and not did:
                    ctx.bad("transition", lab, "the step is refused although it may run" if not notes else "%s runs" % notes, where)
                elif not runs and notes:
                    ctx.bad("transition", lab, "the step runs although its prerequisites are not met", where)
                elif o["stage"] != (hi if runs else s):
                    ctx.bad("transition", lab, "the stage becomes %s, expected %s" % (o["stage"], hi if runs else s), where)
                elif o["flags"] != flags:
                    ctx.bad("transition", lab, "running changes which settings count as given", where)
                elif not runs and not o["warned"]:
                    ctx.bad("transition", lab, "the step is refused without a warning", where)
                elif runs and o["warned"]:
                    ctx.bad("transition", lab, "a step that runs is reported as refused", where)
                else:
                    ctx.ok("transition", lab)


def req_elem(it, t):
    """t is elem(X): which requirement list does it range over?  -> key term | None"""
    if t.op != "elem":
        return None
    x = t.args[0]
    if x.op == "contents":
        x = x.args[0]
    S = L.STATE(it)
    table = mk("attr", S, "properties_required")
    if x.op == "call" and x.args[0] == ".get" and x.args[1][0] is table:
        return x.args[1][1]
    if x.op == "idx" and x.args[0] is table:
        return x.args[1]
    if x.op == "getor":
        return x.args[1]
    return None


def check_wrapper(ctx, it, st, val, func, W):
    S = L.STATE(it)
    cur, nxt, mini = L.cur_term(it), sym("next_state"), sym("minimal_state")
    pset = mk("attr", S, "properties_set")
    keys = set()

    def oracle_for(c, m, allset, box):
        def oracle(t):
            if t is cur:
                return c
            if t is mini:
                return m
            if t.op in ("idx", "select") and t.args[0] is pset:
                k = req_elem(it, t.args[1])
                if k is not None:
                    keys.add(k)
                    return box[0].var
            if t.op == "call" and t.args[0] == ".get" and t.args[1][0] is pset:
                k = req_elem(it, t.args[1][1])
                if k is not None:
                    keys.add(k)
                    return box[0].var
            return UNK
        return oracle
    calls = [e for e in it.events if e.kind == "call" and e.d["fn"] is func]
    if not calls:
        ctx.bad("step-runs", W, "the wrapped step function is never called", W)
        return
    for i, (c, m, allset) in enumerate([(0, 1, True), (0, 1, False), (1, 1, False), (2, 1, False),
                                        (1, 1, True), (2, 1, True)]):
        box = []
        fin = Fin(oracle_for(c, m, allset, box), it.phis, variants=(True,) if allset else (False, True))
        box.append(fin)
        vals = [guard_value(fin, e.guards) for e in calls]
        name = "current %s minimal, required parameters %s" % ("<" if c < m else ("==" if c == m else ">"),
                                                             "all set" if allset else "not all set")
        want = c >= m and allset
        if not want:
            if any(v is True for v in vals):
                e = calls[[v is True for v in vals].index(True)]
                ctx.bad("gate-closed", W + " / " + name,
                        "the step runs although it must be refused (path condition %s)" % (list(e.guards),), e.where)
            elif any(v is UNK for v in vals):
                # undecidable part: must at least be blocked
                ctx.und("gate-closed", W + " / " + name, "path condition not decidable: %s" % [list(e.guards) for e in calls])
            else:
                ctx.ok("gate-closed", W + " / " + name)
        else:
            if all(v is False for v in vals):
                ctx.bad("gate-open", W + " / " + name, "the step is refused although it may run", calls[0].where)
            elif any(v is True for v in vals):
                ctx.ok("gate-open", W + " / " + name)
            else:
                ctx.und("gate-open", W + " / " + name, str([list(e.guards) for e in calls]))
    if keys:
        wrong = [k for k in keys if k is not mini]
        ctx.check(not wrong, "gate-table-key", W,
                  "requirements are looked up under %s instead of the step's minimal stage" % wrong, calls[0].where)
    else:
        ctx.und("gate-table-key", W, "no requirement lookup recognised")
    # arguments are forwarded and the result returned
    for e in calls:
        a = e.d["args"]
        good = a and a[0] is it.selfsym and any(x.op == "star" and x.args[0] is sym("*args") for x in a) \
            and e.d["kwargs"].get("**") is sym("**kwargs")
        ctx.check(good, "step-arguments", W, "the step is not called with the caller's arguments: %s %s" % (a, e.d["kwargs"]), e.where)
    # stage writes
    writes = [e for e in it.events if e.kind == "setattr" and e.d["name"] == "current"
              and e.d["base"] is S]
    if not writes:
        ctx.bad("stage-advance", W, "no write of the stage after a completed step", W)
    for e in writes:
        before = [c for c in calls if c.n < e.n]
        if not before:
            ctx.bad("stage-after-step", W, "the stage is written before the step has run: a failing step leaves a wrong stage", e.where)
            continue
        # dominated by a call: guards of the call imply guards of write & conversely
        dom = [c for c in before if set(g for g in c.guards if g.op != "exc") <= set(e.guards)]
        if not dom:
            ctx.bad("stage-after-step", W, "the stage can be written on a path where the step did not run", e.where)
            continue
        if e.fin:
            ctx.bad("stage-after-step", W, "the stage is written in a finally clause: also when the step raised", e.where)
            continue
        swallowed = False
        for h in it.events:
            if h.kind == "handler" and dom[-1].n < h.n < e.n:
                exc = [g for g in h.guards if g.op == "exc"][-1:]
                if exc and not_(exc[0]) not in e.guards:
                    swallowed = True
        if swallowed:
            ctx.bad("stage-after-step", W, "an exception of the step is swallowed and the stage is advanced anyway", e.where)
            continue
        ctx.ok("stage-after-step", W)
        ctx.check(e.d["value"] is nxt, "stage-value", W,
                  "after a completed step the stage becomes %s instead of the step's next stage" % e.d["value"], e.where)
    if writes:
        # every completed call is followed by a write
        for c in calls:
            foll = [e for e in writes if e.n > c.n and all(
                g in c.guards or g.op == "not" and g.args[0].op == "exc" for g in e.guards)]
            ctx.check(bool(foll), "stage-advance", W + " / call",
                      "after the step completed the stage is only advanced under extra conditions", c.where)
    # any other write to the tracked record while gating
    for e in it.events:
        if e.kind in ("setattr", "setitem", "mutate") and e not in writes:
            tgt = e.d.get("base", e.d.get("target"))
            if tgt is not None and S in subterms(tgt) and not (tgt.op == "obj"):
                ctx.bad("refusal-no-effect", W, "the gate modifies tracked state (%s)" % tgt, e.where)
    ctx.ok("refusal-no-effect", W)


def check_tables(ctx, mc):
    """properties_required[s] == properties whose next stage is <= s"""
    init = mc.methods.get("init_state")
    if init is None:
        ctx.und("requirement-table", mc.name, "no init_state")
        return
    it = Interp(ctx.prog)
    st = State()
    r = it.run(init, st=st, selft=mk("cls", mc))
    ctx.saw(it)
    C = "%s.%s" % (mc.name, init.name)
    # find the dict published as properties_required
    tgt = [e for e in it.events if e.kind == "setattr" and e.d["name"] == "properties_required"]
    if not tgt:
        ctx.und("requirement-table", C, "properties_required not published here")
        return
    obj = tgt[-1].d["value"]
    apps = [e for e in it.events if e.kind == "mutate" and e.d["how"] == ".append"
            and e.d["target"].op in ("idx", "select") and _owner(it, e.d["target"], obj)]
    if not apps:
        ctx.und("requirement-table", C, "table not built by appending; form not recognised")
        return
    for e in apps:
        key = e.d["target"].args[1]         # the stage being filled
        # condition linking the property's next stage to the stage
        conds = [g for g in e.guards if g.op not in ("iter",)]
        verdict = None
        for g in conds:
            v = upto(it, g, key)
            if v is not None:
                verdict = v
        if verdict is None:
            ctx.und("requirement-table", C, "condition %s not recognised" % conds)
        else:
            ctx.check(verdict == "le", "requirement-table", C,
                      "a stage's required parameters are those registered strictly %s it (expected: at or before it)" %
                      {"lt": "before", "gt": "after", "ge": "at or after", "eq": "for exactly"}.get(verdict, verdict), e.where)


def _owner(it, t, obj):
    return any(x is obj for x in subterms(t, it.phi_in)) or obj in subterms(t)


def upto(it, g, key):
    """classify condition g on (state, key): le / lt / ge / gt / eq"""
    if g.op == "le":
        if g.args[1] is key:
            return "le"
        if g.args[0] is key:
            return "ge"
    if g.op == "lt":
        if g.args[1] is key:
            return "lt"
        if g.args[0] is key:
            return "gt"
    if g.op == "eq" and key in g.args:
        return "eq"
    if g.op == "ite" and g.args[0].op == "brk" and g.args[1].op == "in" and g.args[2].op == "in":
        a, b = [x.args[1].args[1] if x.args[1].op == "contents" else x.args[1] for x in g.args[1:]]
        return prefix(it, ite(g.args[0], a, b), key)
    if g.op == "in":
        c = g.args[1]
        if c.op == "contents":
            c = c.args[1]
        return prefix(it, c, key)
    return None


def prefix(it, c, key):
    """the list of stages up to `key`, built by a loop over the sorted stages
    that stops at key: inclusive ('le') or exclusive ('lt')"""
    if c.op == "ite" and c.args[0].op == "brk":
        at_break, fall = c.args[1], c.args[2]
        lk = c.args[0].args[0]
        info = it.loopinfo.get(lk, {})
        bg = (info.get("break_guards") or [()])[-1]
        stops = [g for g in bg if g.op == "eq" and key in g.args] or \
                [g for g in bg if g.op in ("le", "lt") and key in g.args]
        if fall.op != "phi" or not stops:
            return None
        e = info.get("elem")
        if at_break is fall:
            return "lt" if stops[0].op == "eq" else None
        if at_break.op == "append" and at_break.args[0] is fall and at_break.args[1] is e:
            return "le" if stops[0].op == "eq" else None
        return None
    if c.op == "phi":
        i = it.phis.get(c)
        if i is None or i.back is None:
            return None
        b = i.back
        if b.op == "append" and b.args[0] is c:
            return "all"
        if b.op == "ite" and b.args[1].op == "append" and b.args[2] is c:
            el = b.args[1].args[1]
            g = b.args[0]
            if g.op in ("le", "lt") and key in g.args and el in g.args:
                if g.args[0] is el:
                    return g.op
                return {"le": "ge", "lt": "gt"}[g.op]
    return None


def check_instances(ctx, mc):
    """tables are per instance; stage starts at the minimum; state view"""
    at = mc.methods.get("attach_state")
    if at is None:
        ctx.und("per-instance-state", mc.name, "no attach_state")
        return
    it = Interp(ctx.prog)
    st = State()
    selft = sym("cls")
    it.run(at, st=st, selft=selft)
    C = "%s.%s" % (mc.name, at.name)
    inits = [e for e in it.events if e.kind == "setattr" and e.d["name"] == "__init__"]
    props = [e for e in it.events if e.kind == "setattr" and e.d["name"] == "state"]
    if not inits or inits[-1].d["value"].op != "obj":
        ctx.und("per-instance-state", C, "__init__ replacement not recognised")
        return
    clos = inits[-1].d["value"]
    n0 = len(it.events)
    # the state the closure sees: re-run to obtain live frames
    it2 = Interp(ctx.prog)
    st2 = State()
    fr = Frame(at, -1, ())
    it2.inline(at, [selft, sym("namespace")], {}, at.node, st2, fr)
    ev = [e for e in it2.events if e.kind == "setattr" and e.d["name"] == "__init__"]
    outer_objs = set(it2.objs)
    del it2.events[:]
    inst = sym("instance")
    it2.call(ev[-1].d["value"], [inst, mk("star", sym("*args"))], {"**": sym("**kwargs")}, at.node, st2, fr)
    ctx.saw(it2)
    ws = [e for e in it2.events if e.kind == "setattr" and e.d["base"] is inst and e.d["name"] == "_state"]
    user = [e for e in it2.events if e.kind == "call" and e.d["args"] and e.d["args"][0] is inst]
    if not ws:
        ctx.bad("per-instance-state", C, "instances get no stage record of their own", C)
    for e in ws:
        v = e.d["value"]
        ctx.check(v.op == "obj" and it2.objs[v].get("kind") == "inst" and v not in outer_objs,
                  "per-instance-state", C + " / record",
                  "the stage record is shared between instances (%s)" % v, e.where)
        if v.op == "obj":
            # effective table after construction
            ps = st2.heap.get((v, "properties_set"))
            fresh = ps is not None and ((ps.op == "obj" and ps not in outer_objs) or ps.op == "call")
            ctx.check(fresh, "per-instance-state", C + " / set-flags",
                      "the record of which parameters are set is shared between instances (%s)" % ps, e.where)
            c = st2.heap.get((v, "current"))
            ok = c is not None and c.op == "call" and c.args[0] == "min"
            if ok:
                kw = dict(c.args[2])
                k = kw.get("key")
                if k is not None:
                    ok = k.op == "obj"
            if c is not None and c.op == "call" and c.args[0] == "max":
                ctx.bad("initial-stage", "State", "a new analysis starts at the last stage", e.where)
            elif ok:
                ctx.ok("initial-stage", "State")
            else:
                ctx.und("initial-stage", "State", "initial stage %s" % c)
            for u in user:
                ctx.check(u.n > e.n, "per-instance-state", C + " / order",
                          "the user's constructor runs before the stage record exists", u.where)
    if props and props[-1].d["value"].op == "call" and props[-1].d["value"].args[0] == "property":
        g = props[-1].d["value"].args[1][0]
        it3 = Interp(ctx.prog)
        st3 = State()
        it3.inline(at, [selft, sym("namespace")], {}, at.node, st3, fr)
        ev = [e for e in it3.events if e.kind == "setattr" and e.d["name"] == "state"]
        val = it3.call(ev[-1].d["value"].args[1][0], [inst], {}, at.node, st3, fr)
        ctx.check(val is mk("attr", inst, "_state"), "state-view", C,
                  "the public state is not the record the gate consults (%s)" % val, C)
    else:
        ctx.und("state-view", C, "public state property not recognised")


def check_order(ctx):
    """stages compare by their value"""
    prog = ctx.prog
    enums = [e for _, e in L.state_classes(prog)]
    for e in enums:
        base = [c for c in e.mro() if "__lt__" in c.methods or "__le__" in c.methods or "__gt__" in c.methods]
        if not base:
            ctx.und("stage-order", e.name, "no comparison method found")
            continue
        b = base[0]
        for nm, op in (("__lt__", "lt"), ("__le__", "le"), ("__gt__", "gt"), ("__ge__", "ge"), ("__eq__", "eq")):
            if nm not in b.methods:
                continue
            it = Interp(prog, param_types=False)
            s, o = sym("a"), sym("b")
            it.types[s] = it.types[o] = e
            st = State()
            r = it.run(b.methods[nm], {b.methods[nm].params()[1]: o}, selft=s, st=st)
            ctx.saw(it)
            av, bv = mk("attr", s, "value"), mk("attr", o, "value")
            v = r.value
            vals = []
            for x, y in ((0, 1), (1, 1), (1, 0)):
                fin = Fin(lambda t, x=x, y=y: x if t is av else (y if t is bv else UNK), it.phis)
                vals.append(fin.truth(v))
            want = {"lt": [True, False, False], "le": [True, True, False], "gt": [False, False, True],
                    "ge": [False, True, True], "eq": [False, True, False]}[op]
            if str(T.strip(v)).rsplit(".", 1)[-1].rstrip("'\")") == "NotImplemented" or T.strip(v) is NONE:
                ctx.bad("stage-order", b.name + "." + nm, "stages of one workflow are not comparable", b.methods[nm].where)
            elif any(x is UNK for x in vals):
                ctx.und("stage-order", b.name + "." + nm, str(v))
            else:
                ctx.check(vals == want, "stage-order", b.name + "." + nm,
                          "stages do not compare by their position in the workflow", b.methods[nm].where)
        vals = L.enum_values(prog, e)
        ctx.check(len(set(vals.values())) == len(vals) and len(vals) > 1, "stage-values", e.name,
                  "stage values are not distinct: %s" % vals, e.module.rel)


def check_chain(ctx):
    """registered steps form one chain: each step starts where the previous ends"""
    prog = ctx.prog
    n = 0
    for cls, enum in L.state_classes(prog):
        steps = []
        for kind, name, fi, kw in L.registered(prog, cls):
            if kind != "method":
                continue
            lo = L.state_of(prog, cls.module, kw.get("minimal_state"), enum)
            hi = L.state_of(prog, cls.module, kw.get("next_state"), enum)
            steps.append((lo, hi, name, fi))
            n += 1
            if "?" in (lo, hi) or lo is None:
                ctx.und("step-chain", "%s.%s" % (cls.name, name), "stages not literal")
                return
            ctx.check(hi > lo, "step-chain", "%s.%s" % (cls.name, name),
                      "completing the step does not advance the stage (%s -> %s)" % (lo, hi), fi.where)
        steps.sort(key=lambda s: (s[0], s[1]))
        for a, b in zip(steps, steps[1:]):
            ctx.check(a[1] == b[0], "step-chain", "%s.%s -> %s.%s" % (cls.name, a[2], cls.name, b[2]),
                      "step %s may run at stage %s although the preceding step %s only completes stage %s" %
                      (b[2], b[0], a[2], a[1]), b[3].where)
    if not n:
        ctx.und("step-chain", "package", "no registered steps found")
