"""P34 the simulated network holds the contacts that took place."""
from __future__ import annotations
import ast
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms
from .. import terms as T
from ..engine import Interp, State
from ..fwd import static_bind, target

MIN_OBLIGATIONS = 60
RULE = """
SynthTempNetwork is interpreted once per kind of event and per way of choosing
partners.  What is put in the queue (time, owner, partner), what is drawn from
whose distribution, which partners are excluded and from which pool the partner
comes, and what the main loop writes for a popped event (contacts, start times,
the four lists of results, saved states) are compared, as terms over the popped
event, with the definition of the simulation.
"""
SELF = sym("self")
NET = "SynthTempNetwork"
ID = sym("indiv_id")


def fld(n):
    return mk("attr", SELF, n)


def run(ctx):
    prog = ctx.prog
    net = prog.cls(NET)
    with ctx.guard("population", NET + ".__init__"):
        population(ctx, net)
    lay = {}
    for kind in ("activation", "interaction"):
        with ctx.guard("schedule", "%s.put_event %s" % (NET, kind)):
            lay[kind] = schedule(ctx, net, kind)
    for meth in ("random_uniform", "random_uniform_within_group", "block_probs", "block_probs_mod"):
        with ctx.guard("partner", "%s.get_new_partner %s" % (NET, meth)):
            partner(ctx, net, meth)
    with ctx.guard("loop", NET + ".run"):
        main(ctx, net, lay)
    for name, d in (("draw_inter_duration", "inter_distro"), ("draw_activ_time", "activ_distro")):
        with ctx.guard("draws", "Individual." + name):
            draws(ctx, prog.cls("Individual"), name, d)
    with ctx.guard("draws", "Individual.__init__"):
        person(ctx, prog.cls("Individual"))
    with ctx.guard("draws", "Distro"):
        distro(ctx, prog.cls("Distro"))


def go(ctx, f, args=None, st=None, stop=()):
    it = Interp(ctx.prog, opaque=lambda z: z is not f and (z.name in stop or (z.cls is not f.cls and z.name == "__init__")))
    if f.params() and f.params()[0] == "self":
        it.types[SELF] = f.cls
    r = it.run(f, args=args or {}, st=st)
    ctx.saw(it)
    return it, r


def heap(r, name):
    for (o, a), v in r.st.heap.items():
        if a == name and T.strip(o) is SELF:
            return T.unver(v)
    return None


def items(it, st, t):
    """contents of a display"""
    t = T.unver(t)
    if t.op == "contents":
        t = t.args[1]
    if t.op == "obj":
        c = st.heap.get((t, "[]"))
        vs = it.heaplog.get((t, "[]")) or ()
        c = c if c is not None else (next(iter(vs)) if len(vs) == 1 else None)
        cs = [x for _, x in T.cases(T.unver(c)) or [] if x.op != "init"] if c is not None else []
        t = cs[0] if len(set(cs)) == 1 else t
    return list(t.args) if t.op in ("seq", "tuple") else None


def atoms(t):
    """made of parameters, fields, constants and arithmetic only"""
    return all(x.op in ("sym", "const", "attr", "idx", "select", "poly", "inv", "tuple", "slice", "phi", "ite", "not", "is", "eq", "lt", "le") or
               x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] in ("get_nowait", "get", "draw_activ_time", "draw_inter_duration", "SynthTempNetwork.get_new_partner", "get_new_partner", "draw_val",
                                                                       "inter_distro_mod_func", "activ_distro_mod_func", "copy", "len", "min", "max", "round", "int", "abs")
               for x in subterms(t))


# ------------------------------------------------------------------ constructor
def population(ctx, net):
    f = net.find("__init__")
    it, r = go(ctx, f)
    C = f.qual
    IN = sym("individuals")
    v = heap(r, "individuals")
    src = v
    ordered = None
    if v is not None:
        w = T.strip(v)
        c = None
        if w.op == "obj":
            c = r.st.heap.get((w, "[]"))
            if c is not None:
                cs = [x for _, x in T.cases(T.unver(c)) or [] if x.op != "init"]
                c = cs[0] if len(set(cs)) == 1 else None
        s = " ".join([str(w), str(c) if c is not None else ""])
        if "sorted" in s:
            ordered = by_id(ctx, it, f)
        elif w is IN or w.op == "call" and str(w.args[0]) in ("list", "tuple", ".copy") and w.args[1][0] is IN or c is not None and c.op in ("listof", "tupleof") and c.args[0] is IN:
            # positions and numbers may differ unless another order is refused
            ordered = None if refuses(it) else False
        elif c is not None and c.op in ("phi", "store", "map") or w.op in ("phi", "store"):
            ordered = None
    ctx.tri(ordered, "population", C + " order", "individuals are looked up by their number in a list that may be in any order", f.where, str(v)[:160])
    for n in ("t_start", "t_end", "num_interactions_per_activation", "next_event_method"):
        v = heap(r, n)
        ctx.tri(True if v is sym(n) else (False if v is None or atoms(v) else None), "population", "%s %s" % (C, n), "%s is kept as %s" % (n, v), f.where, str(v)[:120])
    v = heap(r, "block_prob_mod_func")
    vs = [x for cs, x in T.cases(v) or [] if mk("eq", sym("next_event_method"), const("block_probs_mod")) in cs or len(cs) == 0] if v is not None else []
    ctx.tri(True if vs and all(x is sym("block_prob_mod_func") for x in vs) else (False if not vs or all(atoms(x) for x in vs) else None), "population", C + " block_prob_mod_func",
            "the function of time is kept as %s" % v, f.where, str(v)[:120])
    # rows of the probabilities sum to one
    v = heap(r, "inter_group_probs")
    P = sym("inter_group_probs")
    n = 0
    for cs, x in T.cases(v) or [] if v is not None else []:
        if mk("eq", sym("next_event_method"), const("block_probs")) not in cs or any(c.op == "isinst" and T.TRUE in () for c in cs):
            continue
        n += 1
        ctx.tri(rows_normal(x, P), "population", "%s probabilities %d" % (C, n), "the probabilities of a group are %s" % str(x)[:120], f.where, str(x)[:160])
    if not n:
        ctx.tri(None if v is not None and not atoms(v) else False, "population", C + " probabilities", "the probabilities of a group are not made to sum to one", f.where, str(v)[:120])
    for n in ("indiv_sources", "indiv_targets", "start_times", "end_times"):
        v = heap(r, n)
        e = items(it, r.st, v) if v is not None else None
        ctx.tri(True if e == [] else (False if v is None or e else None), "population", "%s %s" % (C, n), "%s is %s at first" % (n, v), f.where, str(v)[:80])
    objs = [heap(r, n) for n in ("indiv_sources", "indiv_targets", "start_times", "end_times")]
    ctx.check(len(set(objs)) == 4, "population", C + " lists", "two of the result lists are the same list", f.where)
    # groups
    v = heap(r, "group_to_ids")
    c = T.strip(v) if v is not None else None
    txt = ""
    if c is not None and c.op == "obj":
        x = r.st.heap.get((c, "[]"))
        i = it.phis.get(T.unver(x)) if x is not None else None
        b = i.back if i is not None else x
        if b is not None and b.op == "store":
            k, w = b.args[1], T.strip(b.args[2])
            ga = heap(r, "indiv_groups_array")
            q = w.args[0] if w.op == "idx" and T.is_const(w.args[1]) and T.cval(w.args[1]) == 0 else w
            if q.op == "call" and str(q.args[0]).rsplit(".", 1)[-1] in ("where", "nonzero", "flatnonzero", "argwhere") and q.args[1]:
                m = T.strip(q.args[1][0])
                sides = {T.strip(y) for y in m.args} if m.op in ("eq", "ne") else set()
                ok = m.op == "eq" and T.strip(k) in sides and T.strip(ga) in sides if ga is not None else None
                ctx.tri(True if ok else (False if m.op in ("ne", "le", "lt") or m.op == "not" else None), "population", C + " groups", "group g holds the individuals with %s" % str(m)[:80], f.where, str(m)[:120])
                return
        txt = str(b)[:160]
    ctx.und("population", C + " groups", txt or str(v)[:160])


def by_id(ctx, it, f):
    """sorted by the number of the individual"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == "sorted" or isinstance(n.func, ast.Attribute) and n.func.attr == "sort"):
            key = next((k.value for k in n.keywords if k.arg == "key"), None)
            rev = next((k.value for k in n.keywords if k.arg == "reverse"), None)
            if rev is not None and not (isinstance(rev, ast.Constant) and not rev.value):
                return False
            if isinstance(key, ast.Lambda) and isinstance(key.body, ast.Attribute):
                return key.body.attr == "ID"
            if isinstance(key, ast.Call) and getattr(key.func, "attr", getattr(key.func, "id", "")) == "attrgetter" and key.args and isinstance(key.args[0], ast.Constant):
                return key.args[0].value == "ID"
            return None
    return None


def refuses(it):
    return any(e.kind == "raise" and any("range" in str(g) or "arange" in str(g) or "enumerate" in str(g) for g in e.guards) for e in it.events)


def rows_normal(x, P):
    x = T.strip(x)
    t = False
    if x.op == "attr" and x.args[1] == "T" or x.op == "call" and str(x.args[0]) in (".transpose", "numpy.transpose"):
        t, x = True, (x.args[0] if x.op == "attr" else x.args[1][0])
    p = T.poly(x)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    den = [y for y in m if y.op == "inv"]
    num = [y for y in m if y.op != "inv"]
    if c != 1 or len(den) != 1 or len(num) != 1:
        return False if len(m) == 1 and not den else None
    a, d = num[0], den[0].args[0]
    at = a.op == "attr" and a.args[1] == "T"
    if at:
        a = a.args[0]
    col = False
    if d.op == "idx" and d.args[1].op == "tuple":
        col, d = True, d.args[0]
    if d.op == "call" and str(d.args[0]) in (".reshape",):
        col, d = True, d.args[1][0]
    if not (d.op == "call" and str(d.args[0]) in (".sum", "numpy.sum") and d.args[1]) or T.strip(d.args[1][0]) is not T.strip(a):
        return None
    kw = dict(d.args[2] or ())
    ax = kw.get("axis", d.args[1][1] if len(d.args[1]) > 1 else None)
    keep = "keepdims" in kw
    if ax is None:
        return False
    ax = T.cval(ax) if T.is_const(ax) else None
    if ax is None:
        return None
    ax = ax % 2
    if at:
        return (ax == 1 and not keep and not col) if t else False
    return ax == 1 and (keep or col) and not t


# ------------------------------------------------------------------ scheduling
def schedule(ctx, net, kind):
    f = net.find("put_event")
    C = "%s %s" % (f.qual, kind)
    args = {"event_type": const(kind)}
    if "is_instantaneous" in f.params():
        args["is_instantaneous"] = FALSE
    it, r = go(ctx, f, args=args, stop={"draw_activ_time", "draw_inter_duration"})
    puts = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).rsplit(".", 1)[-1] in ("put", "put_nowait", "heappush") and e.d["args"]]
    if len(puts) != 1:
        ctx.tri(False if not puts else None, "schedule", C, "the event is not put in the queue", f.where, "%d" % len(puts))
        return None
    e = puts[0]
    ctx.tri(True if not [g for g in e.guards if g not in (TRUE,)] else None, "schedule", C + " always", "", e.where, str(e.guards)[:100])
    ev = T.strip(e.d["args"][1]) if len(e.d["args"]) > 1 else None
    parts = items(it, r.st, ev) if ev is not None else None
    if not parts or len(parts) != 2:
        ctx.und("schedule", C, str(ev)[:160])
        return None
    when, what = parts
    draw = ".draw_activ_time" if kind == "activation" else ".draw_inter_duration"
    who = mk("idx", fld("individuals"), ID)
    d = T.sub(T.strip(when), fld("t"))
    ok = False
    if d.op == "call":
        nm = str(d.args[0])
        a = [T.strip(x) for x in d.args[1]]
        kw = dict(d.args[2] or ())
        at = a[1] if len(a) > 1 else kw.get("time")
        if nm.rsplit(".", 1)[-1] == draw[1:]:
            ctx.tri(True if a[:1] == [who] else (False if a and atoms(a[0]) else None), "schedule", C + " owner", "the time is drawn for %s" % a[:1], e.where, str(a)[:100])
            ctx.tri(True if at is not None and T.strip(at) is fld("t") else (False if at is None or atoms(at) else None), "schedule", C + " time dependence", "the parameters of the draw are those at time %s" % at, e.where, str(at))
            ok = True
    ctx.tri(ok, "schedule", C + " time", "the event takes place at %s" % str(when)[:100], e.where) if ok or atoms(when) else ctx.und("schedule", C + " time", str(when)[:160])
    pl = items(it, r.st, what)
    if pl is None:
        ctx.und("schedule", C + " content", str(what)[:100])
        return None
    pl = [T.strip(x) for x in pl]
    want = {"who": ID, "type": const(kind), "off": FALSE}
    if kind == "interaction":
        want["partner"] = sym("partner")
    out = {"n": len(pl)}
    for k, w in want.items():
        hits = [i for i, x in enumerate(pl) if x is w]
        ctx.tri(True if len(hits) == 1 else (False if not hits and all(atoms(x) for x in pl) else None), "schedule", "%s %s" % (C, k), "the event holds %s" % [str(x) for x in pl], e.where)
        if len(hits) == 1:
            out[k] = hits[0]
    return out


# ------------------------------------------------------------------ partners
def gather(it, st, t, depth=0):
    """what a set is made of: (list of members / ('all', sequence), understood)"""
    t = T.strip(t)
    if depth > 8:
        return [], False
    if t.op == "contents":
        return gather(it, st, t.args[1], depth + 1)
    if t.op == "obj":
        c = st.heap.get((t, "[]"))
        vs = it.heaplog.get((t, "[]")) or ()
        if c is None and len(vs) == 1:
            c = next(iter(vs))
        if c is None:
            return [], False
        cs = [x for _, x in T.cases(T.unver(c)) or [] if x.op != "init"]
        if len(set(cs)) != 1:
            return [], False
        return gather(it, st, cs[0], depth + 1)
    if t.op in ("seq", "tuple", "set"):
        return [("one", T.strip(x)) for x in t.args], True
    if t.op in ("setof", "listof", "tupleof", "sortedof") and len(t.args) == 1:
        a = T.strip(t.args[0])
        if a.op in ("seq", "obj", "contents"):
            return gather(it, st, a, depth + 1)
        return [("all", a)], True
    if t.op == "setunion":
        out, okk = [], True
        for x in t.args:
            for y in (x if isinstance(x, tuple) else (x,)):
                a, k = gather(it, st, y, depth + 1)
                out += a
                okk &= k
        return out, okk
    if t.op in ("append", "setadd", "add"):
        a, k = gather(it, st, t.args[0], depth + 1)
        return a + [("one", T.strip(t.args[1]))], k
    if t.op == "phi":
        i = next((j for q, j in it.phis.items() if T.unver(q) is T.unver(t)), None)
        if i is None or i.init is None or i.back is None:
            return [], False
        a, k = gather(it, st, T.unver(i.init), depth + 1)
        b = T.unver(i.back)
        for cs, x in T.cases(b) or []:
            if x.op in ("append", "setadd", "add") and x.args[0] is T.unver(t):
                y = T.strip(x.args[1])
                if y.op == "elem":
                    a = a + [("all" if not cs else "some", T.strip(y.args[0]))]
                else:
                    a = a + [("one" if not cs else "some", y)]
            elif x is T.unver(t):
                continue
            else:
                return a, False
        return a, k
    if t.op in ("call", "idx", "attr", "sym"):
        return [("all", t)], True
    return [], False


def neighbours(x):
    """A[i,:].nonzero()[1] -> row / col / None, and whose"""
    x = T.strip(x)
    while x.op == "call" and str(x.args[0]) in (".tolist", "numpy.unique", "list", "set", ".flatten", ".ravel") and x.args[1]:
        x = T.strip(x.args[1][0])
    a = None
    if x.op == "idx" and T.is_const(x.args[1]) and x.args[0].op == "call" and str(x.args[0].args[0]) in (".nonzero", "numpy.nonzero", "scipy.sparse.find"):
        which, a = T.cval(x.args[1]), T.strip(x.args[0].args[1][0])
    elif x.op == "attr" and x.args[1] == "indices":
        which, a = 1, T.strip(x.args[0])
    elif x.op == "idx" and T.is_const(x.args[1]) and x.args[0].op == "attr" and x.args[0].args[1] == "rows" and T.cval(x.args[1]) != -1:
        return None, None
    elif x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "rows" and x.args[0].args[0] is fld("_A"):
        return "row", x.args[1]
    if a is None:
        return None, None
    while a.op == "call" and str(a.args[0]) in (".tocsr", ".copy", ".toarray", ".getrow") and a.args[1]:
        if str(a.args[0]) == ".getrow" and a.args[1][0] is fld("_A"):
            return ("row" if which == 1 else "index"), a.args[1][1]
        a = T.strip(a.args[1][0])
    if a.op == "idx" and a.args[0] is fld("_A"):
        k = a.args[1]
        full = mk("slice", NONE, NONE, NONE)
        if k.op == "tuple" and len(k.args) == 2:
            if k.args[1] is full:
                return ("row" if which == 1 else "index"), k.args[0]
            if k.args[0] is full:
                return ("col" if which == 0 else "index"), k.args[1]
        elif k.op != "tuple":
            return ("row" if which == 1 else "index"), k
    return None, None


def partner(ctx, net, meth):
    f = net.find("get_new_partner")
    C = "%s %s" % (f.qual, meth)
    st = State()
    st.heap[(SELF, "next_event_method")] = const(meth)
    it, r = go(ctx, f, st=st)
    v = r.value
    got = none = 0
    for cs, x in T.cases(T.unver(v)) or []:
        if x is NONE:
            none += 1
            continue
        got += 1
        one_partner(ctx, it, r, f, C, meth, cs, x)
    ctx.tri(True if got else (False if v is NONE else None), "partner", C, "no partner is ever found", f.where, str(v)[:160])
    if got:
        nobody(ctx, it, r, f, C, meth, v)


class Odd(Exception):
    pass


def filtered(it, st, t):
    """a list of those elements of a sequence that meet conditions -> (sequence, element, [(conditions, kept)])"""
    t = T.unver(t)
    if t.op == "contents":
        t = T.unver(t.args[1])
    if t.op == "call" and str(t.args[0]) in ("numpy.array", "numpy.asarray", "list") and t.args[1]:
        return filtered(it, st, t.args[1][0])
    if t.op in ("listof", "setof", "sortedof"):
        return filtered(it, st, t.args[0])
    if t.op == "obj":
        c = st.heap.get((t, "[]"))
        vs = it.heaplog.get((t, "[]")) or ()
        c = c if c is not None else (next(iter(vs)) if len(vs) == 1 else None)
        cs = {x for _, x in T.cases(T.unver(c)) or [] if x.op != "init"} if c is not None else ()
        return filtered(it, st, cs.pop()) if len(cs) == 1 else None
    if t.op != "phi":
        return None
    i = next((j for q, j in it.phis.items() if T.unver(q) is t), None)
    if i is None or i.back is None or i.init is None or T.unver(i.init) not in (mk("seq"), mk("set")):
        return None
    out, el = [], None
    for cs, x in T.cases(T.unver(i.back)) or []:
        if x is t:
            out.append((cs, False))
        elif x.op in ("append", "setadd", "add") and x.args[0] is t and T.strip(x.args[1]).op == "elem":
            el = T.strip(x.args[1])
            out.append((cs, True))
        else:
            return None
    return (T.strip(el.args[0]), el, out) if el is not None else None


def nobody(ctx, it, r, f, C, meth, v):
    """no partner exactly when everybody of the pool is excluded (five individuals, number 1 chooses)"""
    others = (0, 2, 3, 4)
    n, bad = 0, None
    subsets = lambda q: [frozenset(x for j, x in enumerate(q) if m >> j & 1) for m in range(2 ** len(q))]
    pools = {"random_uniform": [frozenset(range(5))], "random_uniform_within_group": [frozenset(x | {1}) for x in subsets(others)]}.get(meth) or \
        [x for x in subsets((0, 1, 2, 3, 4)) if x]
    for P in pools:
        for nb in subsets(tuple(x for x in (others if "block" in meth else P) if x != 1)):
            for total in ((0.0, 1.0 - 1e-9) if "block" in meth else (1.0,)):
                bound = {}

                def val(t):
                    t = T.unver(t)
                    if t.op == "contents":
                        return val(t.args[1])
                    if t.op == "elem" and T.strip(t) in bound:
                        return bound[T.strip(t)]
                    if t.op == "in":
                        return val(t.args[0]) in val(t.args[1])
                    if t.op in ("obj", "phi"):
                        q = filtered(it, r.st, t)
                        if q is not None and q[2] != [((), True)] and not neighbours(q[0])[0]:
                            keep = []
                            for u in sorted(val(q[0])):
                                bound[q[1]] = u
                                keep += [u] if any(k and all(val(c) for c in cs) for cs, k in q[2]) else []
                            bound.pop(q[1], None)
                            return frozenset(keep)
                    if T.is_const(t):
                        return T.cval(t)
                    if t.op in ("eq", "ne", "lt", "le"):
                        a, b = val(t.args[0]), val(t.args[1])
                        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b}[t.op]
                    if t.op == "not":
                        return not val(t.args[0])
                    if t.op in ("and", "or"):
                        return (all if t.op == "and" else any)(val(x) for x in t.args)
                    if t.op == "poly":
                        s_ = 0
                        for m, c in T.poly(t).items():
                            q = c
                            for x in m:
                                q = q * val(x)
                            s_ = s_ + q
                        return s_
                    if t.op == "call":
                        nm, a = str(t.args[0]), t.args[1]
                        if nm == "len":
                            return len(val(a[0]))
                        if nm in (".sum", "numpy.sum", "sum") and "group_probs" in str(t) or nm in (".sum", "numpy.sum") and "block_prob_mod_func" in str(t):
                            return total
                        if nm in (".any", "numpy.any") and ("group_probs" in str(t) or "block_prob" in str(t)):
                            return total > 0
                        if nm in (".issubset", ".issuperset", ".isdisjoint"):
                            return getattr(frozenset(val(a[0])), nm[1:])(val(a[1]))
                        if nm in (".difference", ".union", ".intersection"):
                            return getattr(frozenset(val(a[0])), nm[1:])(val(a[1]))
                        if nm.rsplit(".", 1)[-1] == "setdiff1d":
                            return frozenset(val(a[0])) - frozenset(val(a[1]))
                    if t.op == "attr" and t.args[1] == "size":
                        return len(val(t.args[0]))
                    if t in (fld("indiv_ids_array"), fld("indiv_ids_list")):
                        return frozenset(range(5))
                    if t is fld("N"):
                        return 5
                    if t is ID:
                        return 1
                    if t.op == "idx" and t.args[0] is fld("group_to_ids"):
                        return P
                    mem, known = gather(it, r.st, t)
                    if not known or mem == [("all", T.strip(t))]:
                        raise Odd(str(t)[:100])
                    out = set()
                    for k, y in mem:
                        if k == "one":
                            out.add(val(y))
                        elif k == "all":
                            w, o = neighbours(y)
                            if w and T.strip(o) is ID:
                                out |= nb
                            elif w:
                                raise Odd(str(y)[:80])
                            else:
                                out |= set(val(y))
                        else:
                            raise Odd(str(y)[:80])
                    return frozenset(out)
                try:
                    x, d = T.unver(v), 0
                    while x.op == "ite" and d < 20:
                        x, d = T.unver(x.args[1] if val(x.args[0]) else x.args[2]), d + 1
                except (Odd, TypeError, KeyError, AttributeError) as ex:
                    ctx.und("partner", C + " nobody left", str(ex)[:160])
                    return
                n += 1
                want = total == 0 or P <= nb | {1}
                if (x is NONE) != want and bad is None:
                    bad = "with %s in contact and %s to choose from%s, individual 1 %s" % (sorted(nb), sorted(P), " (no group possible)" if not total else "", "finds nobody" if x is NONE else "looks for a partner for ever")
    ctx.check(bad is None, "partner", C + " nobody left", bad, f.where, "%d cases" % n)


def pool(ctx, f, C, meth, p, where):
    p = T.strip(p)
    while p.op == "call" and str(p.args[0]) in ("list", "numpy.array", "numpy.asarray", ".copy", ".tolist", "tuple") and p.args[1]:
        p = T.strip(p.args[1][0])
    if p.op == "listof":
        p = T.strip(p.args[0])
    grp = mk("idx", fld("indiv_groups_array"), ID)
    grp2 = mk("idx", fld("indiv_groups_list"), ID)
    grp3 = mk("attr", mk("idx", fld("individuals"), ID), "group")
    if meth == "random_uniform":
        ok = p in (fld("indiv_ids_array"), fld("indiv_ids_list")) or p.op == "call" and str(p.args[0]) in ("numpy.arange", "range") and p.args[1] == (fld("N"),)
        bad = atoms(p) and "group" in str(p)
        ctx.tri(True if ok else (False if bad else None), "partner", C + " pool", "partners come from %s" % p, where, str(p)[:120])
        return
    if not (p.op == "idx" and p.args[0] is fld("group_to_ids")):
        ctx.tri(False if p in (fld("indiv_ids_array"), fld("indiv_ids_list")) else None, "partner", C + " pool", "partners come from %s" % p, where, str(p)[:120])
        return
    g = T.strip(p.args[1])
    if meth == "random_uniform_within_group":
        ctx.tri(True if g in (grp, grp2, grp3) else (False if atoms(g) else None), "partner", C + " pool", "partners come from group %s" % g, where, str(g)[:120])
        return
    if g in (grp, grp2, grp3):
        ctx.bad("partner", C + " pool", "partners come from the own group only", where)
        return
    if not (g.op == "call" and str(g.args[0]) in ("numpy.random.choice",) and g.args[1]):
        ctx.und("partner", C + " pool", str(g)[:160])
        return
    dom, kw = T.strip(g.args[1][0]), dict(g.args[2] or ())
    okd = dom is fld("Ngroups") or dom.op == "call" and str(dom.args[0]) in ("numpy.arange", "range") and dom.args[1] == (fld("Ngroups"),)
    badd = dom.op == "call" and str(dom.args[0]) in ("numpy.arange", "range") and all(atoms(x) for x in dom.args[1])
    ctx.tri(True if okd else (False if badd else None), "partner", C + " groups", "the group is drawn from %s" % dom, where, str(dom)[:100])
    pr = kw.get("p", g.args[1][3] if len(g.args[1]) > 3 else None)
    if pr is None:
        ctx.bad("partner", C + " probabilities", "the group is drawn uniformly", where)
        return
    pr = T.strip(pr)
    M = fld("inter_group_probs") if meth == "block_probs" else None
    full = mk("slice", NONE, NONE, NONE)
    if pr.op == "idx":
        m, k = T.strip(pr.args[0]), pr.args[1]
        if M is not None:
            ctx.tri(True if m is M else (False if atoms(m) else None), "partner", C + " matrix", "probabilities are taken from %s" % m, where, str(m)[:100])
        else:
            fn = m.op == "call" and str(m.args[0]).endswith("block_prob_mod_func")
            a = [T.strip(x) for x in m.args[1] if T.strip(x) is not SELF] if fn else []
            ctx.tri((True if a == [fld("t")] else (False if all(atoms(x) for x in a) else None)) if fn else (False if m is fld("inter_group_probs") else None), "partner", C + " matrix",
                    "probabilities are %s" % m, where, str(m)[:100])
        row = None
        if k.op == "tuple" and len(k.args) == 2:
            row = k.args[0] if k.args[1] is full else ("col" if k.args[0] is full else None)
        elif k.op != "tuple":
            row = k
        ctx.tri(False if row == "col" else (True if row is not None and T.strip(row) in (grp, grp2, grp3) else (False if row is not None and atoms(row) else None)), "partner", C + " row",
                "the probabilities used are %s, not those of the individual's group" % k, where, str(k)[:100])
    else:
        ctx.und("partner", C + " probabilities", str(pr)[:160])


def one_partner(ctx, it, r, f, C, meth, cs, x):
    where = f.where
    x = T.strip(x)
    excl = None
    src = x
    if x.op == "phi":
        i = next((j for q, j in it.phis.items() if T.strip(q) is x or T.unver(q) is T.unver(x)), None)
        if i is None or i.back is None:
            ctx.und("partner", C, str(x)[:100])
            return
        src = T.strip(i.back)
        me = T.unver(x)
        lg = [g for e in it.events for g in e.guards if g.op == "in" and T.unver(g.args[0]) is me]
        if not lg:
            lg = [g.args[0] for e in it.events for g in e.guards if g.op == "not" and g.args[0].op == "in" and T.unver(g.args[0].args[0]) is me]
        excl = lg[0].args[1] if lg else None
        # the first value must be rejected or a draw itself
        z = T.strip(i.init) if i.init is not None else None
        if z is not None and z is not ID and not (z.op == "call" and "choice" in str(z.args[0])) and not T.is_const(z):
            ctx.und("partner", C + " first value", str(z)[:100])
    if not (src.op == "call" and str(src.args[0]).rsplit(".", 1)[-1] in ("choice", "sample", "randint") and src.args[1]):
        ctx.tri(False if src is ID else None, "partner", C, "the partner is %s" % src, where, str(src)[:160])
        return
    p = T.strip(src.args[1][0])
    if excl is None:
        # drawn from what is left over
        if p.op == "call" and str(p.args[0]).rsplit(".", 1)[-1] in ("setdiff1d", "difference") and len(p.args[1]) == 2:
            excl, p = p.args[1][1], T.strip(p.args[1][0])
        elif p.op == "setdiff":
            excl, p = p.args[1], T.strip(p.args[0])
        elif filtered(it, r.st, p):
            dom, el, cases = filtered(it, r.st, p)
            ins = [c for cs, k in cases if k for c in cs]
            if len(ins) == 1 and ins[0].op == "not" and ins[0].args[0].op == "in" and T.strip(ins[0].args[0].args[0]) is el:
                excl, p = ins[0].args[0].args[1], dom
            else:
                ctx.und("partner", C + " excluded", str(ins)[:160])
                return
        elif p.op in ("idx", "attr"):
            ctx.bad("partner", C + " excluded", "nobody is excluded from %s" % p, where)
            pool(ctx, f, C, meth, p, where)
            return
        else:
            ctx.und("partner", C + " excluded", str(p)[:160])
            return
    pool(ctx, f, C, meth, p, where)
    mem, known = gather(it, r.st, excl)
    self_in = any(k == "one" and y is ID for k, y in mem)
    ctx.tri(True if self_in else (False if known else None), "partner", C + " not itself", "an individual can meet itself: excluded are %s" % [str(y) for _, y in mem], where, str(excl)[:120])
    nb = [(k, neighbours(y)) for k, y in mem if k in ("all", "some")]
    ok = any(k == "all" and w == "row" and T.strip(o) is ID for k, (w, o) in nb if w)
    odd = [w for k, (w, o) in nb if w is None]
    ctx.tri(True if ok else (False if known and not odd else None), "partner", C + " not again", "someone already met can be chosen again: excluded are %s" % [str(y)[:80] for _, y in mem], where, str(excl)[:120])


# ------------------------------------------------------------------ the main loop
def main(ctx, net, lay):
    f = net.find("run")
    C = f.qual
    it, r = go(ctx, f, args={"verbose": FALSE} if "verbose" in f.params() else None, stop={"get_new_partner", "put_event"})
    pops = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).rsplit(".", 1)[-1] in ("get", "get_nowait", "heappop") and e.d["args"] and T.strip(e.d["args"][0]) is fld("queue")]
    if len(pops) != 1:
        ctx.tri(False if not pops else None, "loop", C, "no event is taken from the queue", f.where, "%d" % len(pops))
        return
    Q = T.strip(pops[0].d["result"])
    base = list(pops[0].guards)
    now, ev = mk("idx", Q, const(0)), mk("idx", Q, const(1))
    cond = [g for g in base if g.op not in ("iter",)]
    okc = [g for g in cond if g.op in ("lt", "le") and any(x.op == "phi" for x in subterms(g.args[0])) and T.strip(g.args[1]) is fld("t_end")]
    bads = [g for g in cond if g.op in ("lt", "le") and g not in okc and atoms(g)]
    ctx.tri(True if okc and not bads else (False if bads else None), "loop", C + " until t_end", "the simulation goes on while %s" % [str(g) for g in bads], pops[0].where, str(cond)[:120])
    # start of the clock
    ts = [e for e in it.events if e.kind == "setattr" and e.d["name"] == "t" and T.strip(e.d["base"]) is SELF]
    init = [e for e in ts if e.n < pops[0].n and not any(g.op == "iter" for g in e.guards)]
    v = T.strip(init[-1].d["value"]) if init else None
    ctx.tri(True if v is fld("t_start") else (False if v is None or atoms(v) else None), "loop", C + " starts at t_start", "the clock starts at %s" % v, f.where, str(v))
    loop_ts = [e for e in ts if e.n > pops[0].n]
    vs = [T.strip(e.d["value"]) for e in loop_ts]
    ctx.tri(True if vs and all(x is now for x in vs) else (False if not vs or all(atoms(x) for x in vs) else None), "loop", C + " clock", "the clock is set to %s" % [str(x) for x in vs], f.where, str(vs)[:120])

    def role(x):
        """indiv / partner / type / canceled of the popped event -> set of positions"""
        x = T.strip(x)
        if x.op == "idx" and T.strip(x.args[0]) is ev and T.is_const(x.args[1]):
            return T.cval(x.args[1])
        return None

    def is_role(x, kind, k):
        l = lay.get(kind)
        p = role(x)
        if p is None or not l or k not in l:
            return None
        return p == l[k] or p == l[k] - l["n"]
    a = lay.get("activation") or {}
    if not a or not lay.get("interaction"):
        ctx.und("loop", C, "layout of events unknown")
        return
    def flag(g):
        """a condition on an entry of the event that is true or false -> (entry, what it is)"""
        neg = False
        while True:
            if g.op == "not":
                g, neg = g.args[0], not neg
            elif g.op in ("is", "eq") and any(x in (TRUE, FALSE) for x in g.args):
                c = next(x for x in g.args if x in (TRUE, FALSE))
                g, neg = next((x for x in g.args if x is not c), c), neg != (c is FALSE)
            else:
                return (g, not neg) if role(g) is not None else (None, None)

    def branch(e):
        """kind of event an action is made for; guards beyond that"""
        kind, rest = None, []
        for g in e.guards:
            if g in base or g.op == "iter":
                continue
            if flag(g)[1] is False:
                continue
            q = g.args[0] if g.op == "not" else g
            if q.op == "eq" and any(role(y) is not None for y in q.args):
                c = [T.cval(y) for y in q.args if T.is_const(y)]
                tp = [y for y in q.args if role(y) is not None]
                if not c or not (is_role(tp[0], "activation", "type") and is_role(tp[0], "interaction", "type")):
                    rest.append(g)
                elif g.op == "eq":
                    kind = c[0]
                elif kind is None:
                    kind = {"activation": "interaction", "interaction": "activation"}.get(c[0])
                continue
            rest.append(T.strip(g))
        return kind, rest
    # canceled events
    live = [e for e in loop_ts]
    for e in live:
        off = [flag(g)[0] for g in e.guards if g not in base and flag(g)[1] is False]
        wrong = [g for g in e.guards if g not in base and flag(g)[1] is True]
        kinds = [branch(e)[0]] if branch(e)[0] else list(lay)
        ctx.tri(True if any(all(is_role(g, k, "off") for k in kinds) for g in off) and not wrong else (False if wrong or not off or all(any(is_role(g, k, "off") is False for k in kinds) for g in off) else None), "loop", C + " canceled events", "events are treated when %s" % [str(g) for g in wrong or off], e.where)
    puts = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).rsplit(".", 1)[-1] == "put_event"]
    pf = net.find("put_event")

    def bound(e):
        return static_bind(pf, list(e.d["args"]), dict(e.d["kwargs"] or {}))[0]
    first = [e for e in puts if e.n < pops[0].n]
    b = bound(first[0]) if len(first) == 1 else {}
    el = T.strip(b["indiv_id"]) if b.get("indiv_id") is not None else None
    tp = b.get("event_type")
    okf = el is not None and el.op == "elem" and T.strip(el.args[0]) in (fld("indiv_ids_list"), fld("indiv_ids_array")) and (tp is None or T.is_const(tp) and T.cval(tp) == "activation")
    part = el is not None and el.op == "elem" and T.strip(el.args[0]).op == "idx" and T.strip(el.args[0]).args[1].op == "slice"
    ctx.tri(True if okf else (False if not first or part or tp is not None and T.is_const(tp) and T.cval(tp) != "activation" else None), "loop", C + " everybody starts", "the first events are %s" % [str(x) for x in b.values()], f.where, str(el)[:100])
    acts, ints = [], []
    for e in puts:
        if e in first:
            continue
        b = bound(e)
        tp = b.get("event_type")
        tp = "activation" if tp is None else (T.cval(tp) if T.is_const(tp) else None)
        (acts if tp == "activation" else ints).append((e, b))
    if len(acts) != 1:
        ctx.tri(False if not acts else None, "loop", C + " next activation", "an individual is activated once only", f.where, "%d" % len(acts))
    for e, b in acts:
        kind, rest = branch(e)
        ok = kind == "activation" and is_role(b.get("indiv_id"), "activation", "who")
        ctx.tri(False if ok is False or kind == "interaction" or rest and all(atoms(g) for g in rest) else (True if ok and not rest else None), "loop", C + " next activation",
                "the next activation is that of %s, in case of %s %s" % (b.get("indiv_id"), kind, [str(g) for g in rest]), e.where)
    gets = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).rsplit(".", 1)[-1] == "get_new_partner"]
    if len(gets) != 1:
        ctx.tri(False if not gets else None, "loop", C + " partner", "no partner is chosen", f.where, "%d" % len(gets))
        return
    e = gets[0]
    NEW = T.strip(e.d["result"])
    kind, rest = branch(e)
    who = T.strip(e.d["args"][1]) if len(e.d["args"]) > 1 else None
    if who is None:
        who = dict(e.d["kwargs"] or {}).get("indiv_id")
    w = is_role(who, "activation", "who") if who is not None else None
    ctx.tri(False if w is False or kind == "interaction" or rest and all(atoms(g) for g in rest) else (True if w and kind == "activation" else None), "loop", C + " partner", "a partner is chosen for %s in case of %s %s" % (who, kind, [str(g) for g in rest]), e.where)
    loops = [g for g in e.guards if g.op == "iter" and g not in base]
    n = None
    if len(loops) == 1:
        li = it.loopinfo.get(loops[0].args[0])
        n = T.strip(li["iter"]) if li and li.get("iter") is not None else None
        okn = n is not None and n.op == "call" and n.args[0] == "range" and n.args[1] == (fld("num_interactions_per_activation"),)
        bn = n is not None and n.op == "call" and n.args[0] == "range" and all(atoms(x) for x in n.args[1])
        brk = bool(li and li.get("breaks"))
        ctx.tri(True if okn and not brk else (False if bn and not okn else None), "loop", C + " number of interactions", "an activation has %s interactions" % n, e.where, str(n))
    else:
        ctx.tri(False if not loops else None, "loop", C + " number of interactions", "an activation has one interaction", e.where, "%d loops" % len(loops))

    def newpair(k):
        if k.op != "tuple" or len(k.args) != 2:
            return None
        i, j = k.args
        return True if is_role(i, "activation", "who") and T.strip(j) is NEW else (False if (role(i) is not None or T.strip(i) is NEW) and (role(j) is not None or T.strip(j) is NEW) else None)

    def oldpair(k):
        if k.op != "tuple" or len(k.args) != 2:
            return None
        i, j = k.args
        return True if is_role(i, "interaction", "who") and is_role(j, "interaction", "partner") else \
            (False if all(role(x) is not None or x.op == "slice" for x in (i, j)) else None)
    isnone = mk("is", NEW, NONE)
    sets = [e for e in it.events if e.kind == "setitem" and T.strip(e.d["base"]) in (fld("_A"), fld("_last_times"))]
    seen = set()
    for e in sets:
        m = T.strip(e.d["base"]).args[1]
        kind, rest = branch(e)
        rest = [g for g in rest if g is not not_(isnone)]
        v = T.strip(e.d["value"])
        c = T.cval(v) if T.is_const(v) else None
        lab = "%s %s %s" % (C, m, kind)
        begins = kind == "activation"
        if begins:
            p = newpair(e.d["key"])
            good = (c is not None and c != 0) if m == "_A" else v is now
            if m == "_A" and c is None:
                good = None
        else:
            p = oldpair(e.d["key"])
            good = c == 0 if c is not None else (None if m == "_A" else None)
            if m == "_last_times" and c is not None:
                good = True
        seen.add((m, kind))
        ctx.tri(False if p is False or good is False and (c is not None or atoms(v)) or rest and all(atoms(g) for g in rest) else (True if p and good and kind else None), "loop", lab,
                "%s[%s] becomes %s in case of %s %s" % (m, e.d["key"], v, kind, [str(g) for g in rest]), e.where)
    for m, kind, what in (("_A", "activation", "a contact that begins is not noted"), ("_A", "interaction", "a contact that ends is not removed"), ("_last_times", "activation", "the start of a contact is not noted")):
        ctx.tri(True if (m, kind) in seen else (None if any(k is None for q, k in seen if q == m) or m == "_last_times" else False), "loop", "%s %s at %s" % (C, m, kind), what, f.where)
    if len(ints) != 1:
        ctx.tri(False if not ints else None, "loop", C + " end of contact", "the end of a contact is not scheduled", f.where, "%d" % len(ints))
    for e, b in ints:
        kind, rest = branch(e)
        extra = [g for g in rest if g is not not_(isnone)]
        w = is_role(b.get("indiv_id"), "activation", "who")
        pt = T.strip(b["partner"]) if b.get("partner") is not None else None
        inst = b.get("is_instantaneous")
        okp = True if pt is NEW else (False if pt is None or atoms(pt) else None)
        ctx.tri(False if w is False or okp is False or kind == "interaction" or inst is TRUE or extra and all(atoms(g) for g in extra) else (True if w and okp and kind else None), "loop", C + " end of contact",
                "the end scheduled is that of %s with %s, in case of %s %s" % (b.get("indiv_id"), pt, kind, [str(g) for g in extra]), e.where)
        ctx.tri(True if not_(isnone) in rest else (False if NEW in rest else None if any(any(x is NEW for x in subterms(g)) for g in rest) else False), "loop", C + " nobody available", "a contact with nobody is begun", e.where)
    # results
    LT = fld("_last_times")
    recs = {}
    for e in it.events:
        if e.kind == "mutate" and e.d["how"] == ".append" and T.strip(e.d["target"]) in [fld(n) for n in ("indiv_sources", "indiv_targets", "start_times", "end_times")]:
            recs.setdefault(T.strip(e.d["target"]).args[1], []).append(e)
    for n in ("indiv_sources", "indiv_targets", "start_times", "end_times"):
        es = recs.get(n, [])
        if len(es) != 1:
            ctx.tri(False if not es else None, "results", "%s %s" % (C, n), "%s is not recorded" % n, f.where, "%d" % len(es))
            continue
        e = es[0]
        kind, rest = branch(e)
        v = T.strip(e.d["args"][0])
        while v.op == "call" and str(v.args[0]) in ("int", "float") and len(v.args[1]) == 1:
            v = T.strip(v.args[1][0])
        ok = None
        if n == "indiv_sources":
            ok = is_role(v, "interaction", "who")
        elif n == "indiv_targets":
            ok = is_role(v, "interaction", "partner")
        elif n == "end_times":
            ok = True if v is now else None
        elif v.op in ("idx", "select"):
            bb = T.strip(v.args[0])
            cont = bb.op == "phi" and T.unver(bb).args[1][:1] == ("h",) and T.strip(T.unver(bb).args[1][1]) is LT or bb is LT
            ok = oldpair(v.args[1]) if cont else None
        if ok is None and (T.is_const(v) or v is now or role(v) is not None or v is fld("t_end") or v.op in ("poly", "call", "ite") and atoms(v)):
            ok = False
        ctx.tri(False if ok is False or kind == "activation" or rest and all(atoms(g) for g in rest) else (True if ok and kind and not rest else None), "results", "%s %s" % (C, n),
                "%s gets %s, in case of %s %s" % (n, v, kind, [str(g) for g in rest]), e.where, str(v)[:120])
    states(ctx, it, r, f, C, now, base, max([e.n for e in sets] or [0]), flag)


def states(ctx, it, r, f, C, now, base, last, flag):
    for name, opt in (("all_states", "save_all_states"), ("saved_states", "save_dt_states")):
        objs = {T.unver(e.d["value"]) for e in it.events if e.kind == "setattr" and e.d["name"] == name}
        es = [e for e in it.events if e.kind == "setitem" and (T.unver(e.d["base"]) in objs or T.strip(e.d["base"]) is fld(name) or
                                                              T.unver(e.d["base"]).op == "contents" and T.unver(e.d["base"]).args[1] in objs)]
        inl = [e for e in es if base[0] in e.guards]
        if not es or not inl:
            ctx.und("states", "%s %s" % (C, name), "not recognised")
            continue
        for e in es:
            k, v = T.strip(e.d["key"]), T.unver(e.d["value"])
            loop = e in inl
            okk = k is now if loop else k is fld("t_start")
            alias = T.strip(v) is fld("_A")
            cp = v.op == "call" and str(v.args[0]).rsplit(".", 1)[-1] in ("copy", "tocsr", "toarray", "todense", "csr_matrix", "lil_matrix", "deepcopy", "array", "tocoo", "tocsc") and T.strip(v.args[1][0]) is fld("_A")
            fl = sym(opt) in e.guards
            late = not loop or e.n > last
            if loop:
                extra = [T.strip(g) for g in e.guards if g not in base and g is not sym(opt) and g.op != "iter"]
                extra = [g for g in extra if flag(g)[1] is not False and not advanced(g, now) and not (g.op in ("le", "lt") and name == "saved_states" and "_t_next_bin" in str(g) and T.strip(g.args[1]) is now)]
                ctx.tri(True if not extra else (False if all(atoms(g) for g in extra) else None), "states", "%s %s when" % (C, name), "states are saved only when %s" % [str(g) for g in extra], e.where, str(extra)[:120])
            ctx.tri(False if alias or not late or not_(sym(opt)) in e.guards or not okk and atoms(k) else (True if okk and cp and fl else None), "states", "%s %s%s" % (C, name, "" if loop else " at first"),
                    "the contacts saved for %s are %s%s" % (k, v, "" if late else ", before the event took place"), e.where, str(v)[:100])


    nb = [e for e in it.events if e.kind == "setattr" and e.d["name"] == "_t_next_bin"]
    for e in nb:
        v = T.strip(e.d["value"])
        dt = [sym("dt"), fld("dt")]
        if base[0] in e.guards:
            d = [T.sub(v, x) for x in dt]
            ok = any(x.op == "phi" and "_t_next_bin" in str(x) or x is fld("_t_next_bin") for x in d)
        else:
            ok = any(T.sub(v, x) is fld("t_start") for x in dt)
        ctx.tri(True if ok else (False if atoms(v) else None), "states", C + " period", "the next time to save is %s" % v, e.where, str(v)[:100])


def advanced(g, now):
    """the clock has moved on"""
    q = g.args[0] if g.op == "not" else g
    if q.op not in ("lt", "le", "eq", "ne"):
        return False
    a = [T.strip(x) for x in q.args]
    return now in a and any(x.op == "phi" and "self.t)" in str(x) for x in a)


# ------------------------------------------------------------------ draws
def draws(ctx, cls, name, d):
    f = cls.find(name)
    C = f.qual
    it, r = go(ctx, f, stop={"draw_val"})
    D = fld(d)
    mod = d + "_mod_func"
    for given in (False, True):
        lab = C + (" at a time" if given else " without time")
        st = State()
        st.assume(not_(mk("is", sym("time"), NONE)) if given else mk("is", sym("time"), NONE))
        it, r = go(ctx, f, args={} if given else {"time": NONE}, st=st if given else None, stop={"draw_val"})
        for cs, x in T.cases(T.unver(r.value)) or []:
            x = T.strip(x)
            if not (x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] == "draw_val"):
                ctx.und("draws", lab, str(x)[:120])
                continue
            a = [T.strip(y) for y in x.args[1]]
            kw = dict(x.args[2] or ())
            ctx.tri(True if a[0] is D else (False if atoms(a[0]) else None), "draws", lab + " distribution", "the value is drawn from %s" % a[0], f.where, str(a[0]))
            vals = {}
            for n, y in zip(("loc", "scale"), a[1:]):
                vals[n] = y
            vals.update(kw)
            for j, n in enumerate(("loc", "scale")):
                v = T.strip(vals[n]) if n in vals else None
                if not given:
                    ctx.tri(True if v is None or v is mk("attr", D, n) or v is NONE else (False if atoms(v) else None), "draws", "%s %s" % (lab, n), "%s is %s" % (n, v), f.where, str(v))
                    continue
                okv = v is not None and v.op == "idx" and T.is_const(v.args[1]) and T.cval(v.args[1]) == j and v.args[0].op == "call" and str(v.args[0].args[0]).endswith(mod) and \
                    [T.strip(y) for y in v.args[0].args[1] if T.strip(y) is not SELF] == [sym("time")]
                ctx.tri(True if okv else (False if v is None or atoms(v) else None), "draws", "%s %s" % (lab, n), "%s is %s" % (n, v), f.where, str(v))


def person(ctx, cls):
    f = cls.find("__init__")
    it, r = go(ctx, f)
    C = f.qual
    init = ctx.prog.cls("Distro").find("__init__")
    for d in ("inter_distro", "activ_distro"):
        v = heap(r, d)
        if v is None or v.op != "call" or not str(v.args[0]).endswith("Distro"):
            ctx.tri(False if v is None else None, "draws", "%s %s" % (C, d), "no distribution", f.where, str(v)[:100])
            continue
        kw = dict(v.args[2] or ())
        for p, y in zip(init.params()[1:], v.args[1]):
            kw.setdefault(p, y)
        for n, p in (("loc", d + "_loc"), ("scale", d + "_scale"), ("dist_type", d + "_type")):
            x = T.strip(kw[n]) if n in kw else None
            ctx.tri(True if x is sym(p) else (False if x is None or atoms(x) else None), "draws", "%s %s %s" % (C, d, n), "%s of %s is %s" % (n, d, x), f.where, str(x))
        m = heap(r, d + "_mod_func")
        g = sym(d + "_mod_func")
        for cs, x in T.cases(m) or [] if m is not None else []:
            if mk("is", g, NONE) in cs:
                want = [d + "_loc", d + "_scale"]
                o = it.objs.get(x)
                ret = None
                if o and o.get("kind") == "closure":
                    b = o["fi"].node
                    body = b.body if isinstance(b, ast.Lambda) else (b.body[-1].value if isinstance(b.body[-1], ast.Return) else None)
                    if isinstance(body, ast.Tuple):
                        ret = [y.id if isinstance(y, ast.Name) else ast.unparse(y) for y in body.elts]
                ctx.tri(None if ret is None else (True if ret == want else (False if set(ret) <= set(f.params()) else None)), "draws", "%s %s default" % (C, d),
                        "without a function of time the parameters are %s" % ret, f.where, str(x)[:80])
            else:
                ctx.tri(True if x is g else (False if atoms(x) or x.op == "obj" else None), "draws", "%s %s given" % (C, d), "the function of time given is replaced by %s" % x, f.where)
    for n in ("ID", "group"):
        v = heap(r, n)
        ctx.tri(True if v is sym(n) else (False if v is None or atoms(v) else None), "draws", "%s %s" % (C, n), "%s is %s" % (n, v), f.where, str(v)[:80])


def distro(ctx, cls):
    f = cls.find("draw_val")
    C = f.qual
    for gl in (False, True):
        for gs in (False, True):
            st = State()
            args = {}
            for n, g in (("loc", gl), ("scale", gs)):
                if g:
                    st.assume(not_(mk("is", sym(n), NONE)))
                else:
                    args[n] = NONE
            it, r = go(ctx, f, args=args, st=st)
            x = T.strip(r.value)
            lab = "%s%s%s" % (C, " loc" if gl else "", " scale" if gs else "")
            if not (x.op == "call" and (str(x.args[0]).endswith("draw") or "rvs" in str(x.args[0]))):
                ctx.und("draws", lab, str(x)[:120])
                continue
            kw = dict(x.args[2] or ())
            for n, y in zip(("loc", "scale"), [y for y in x.args[1] if T.strip(y) is not SELF]):
                kw.setdefault(n, y)
            for n, g in (("loc", gl), ("scale", gs)):
                v = T.strip(kw[n]) if n in kw else None
                w = sym(n) if g else fld(n)
                ctx.tri(True if v is w else (False if v is None or atoms(v) else None), "draws", "%s %s" % (lab, n), "%s is %s" % (n, v), f.where, str(v))
    f = cls.find("__init__")
    it, r = go(ctx, f)
    for n in ("loc", "scale"):
        v = heap(r, n)
        ctx.tri(True if v is sym(n) else (False if v is None or atoms(v) else None), "draws", "%s %s" % (f.qual, n), "%s is kept as %s" % (n, v), f.where, str(v))
    v = heap(r, "draw")
    ctx.tri(True if v is not None and str(v).endswith("expon.rvs") else None, "draws", f.qual + " draw", "", f.where, str(v)[:80])
