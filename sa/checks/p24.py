"""P24 the network and its Laplacians represent exactly the given events."""
from __future__ import annotations
import ast
import itertools
from fractions import Fraction
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms, rebuild
from .. import terms as T
from ..resolve import Resolve
from ..numeric import num, vec, NotNumeric
from .timelib import nets, own, delegates, interp, SELF, fld, norm, loop_of

MIN_OBLIGATIONS = 30
RULE = """
The replay of events is interpreted abstractly; what one event does to adjacency
matrix, degree array, self-loop and inverse-degree diagonals is the loop's
transition function (terms over the contents before the event).  The transition
is evaluated over the finite abstraction {connected or not} x {degree 0,1,2,3
and more} x {start, end} and compared with: a start connects both directions, an
end disconnects both, degrees count the connections that changed, a node without
contacts gets a self-loop and rate one, any other node none and the inverse of
its degree, nothing else changes.  The Laplacian formula, the contents with
which an interval begins (carried over, or reset together), the contacts that
are under way at the start of a window, and which event and which role
(start/end, source/target) an entry of the time grid refers to are matched
against their definition.  Construction (relabelling, columns, derived sizes),
merging and the static adjacency matrix are matched the same way.
"""
TIMES = fld("times")
KS = fld("_k_start_laplacians")
SRC, TGT, START, END = "source_nodes", "target_nodes", "starting_times", "ending_times"


class Unknown(Exception):
    pass


def run(ctx):
    prog = ctx.prog
    seen = set()
    for c in nets(prog):
        for name, fn in (("compute_laplacian_matrices", replay), ("__init__", construction), ("_compute_time_grid", grid_rows),
                         ("compute_static_adjacency_matrix", static_adj), ("_merge_overlapping_events", merging)):
            f = c.find(name)
            if f is None:
                ctx.und("method", "%s.%s" % (c.name, name), "not found")
                continue
            if f in seen:
                continue
            seen.add(f)
            with ctx.guard("events", f.qual):
                fn(ctx, f)


# ------------------------------------------------------------------ helpers
def strip_int(t):
    while t.op == "call" and t.args[0] in ("int", "numpy.int64", "numpy.int32") and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def col(t, names=(SRC, TGT)):
    """X.col / X["col"] -> (X, col)"""
    t = strip_int(t)
    if t.op == "attr" and t.args[1] in names:
        return t.args[0], t.args[1]
    if t.op in ("idx", "select") and T.is_const(t.args[1]) and T.cval(t.args[1]) in names:
        return t.args[0], T.cval(t.args[1])
    return None


def content_phi(t, obj):
    return t.op == "phi" and isinstance(t.args[1], tuple) and t.args[1][0] == "h" and t.args[1][2] == "[]" and T.unver(t.args[1][1]) is obj


def loops_in(e):
    return [g.args[0] for g in e.guards if g.op == "iter"]


# ------------------------------------------------------------------ formula
def formula(t):
    """I - D @ (A + S) -> (A, S, D, problem): objects of the roles"""
    p = T.poly(t)
    ident, mats = [], []
    for m, c in p.items():
        if len(m) != 1:
            return None
        (mats if m[0].op == "matmul" else ident).append((m[0], c))
    if len(ident) != 1 or not is_eye(ident[0][0]) or not mats:
        return None
    bad = None
    if ident[0][1] != 1:
        bad = "identity has coefficient %s" % ident[0][1]
    D, parts = None, []
    for x, c in mats:
        if len(x.args) != 2:
            return None
        if c != -1:
            bad = bad or "the transition matrix has coefficient %s" % c
        d, y = x.args
        if not is_eye(d) and is_eye(y):
            return None, None, None, "the adjacency matrix is multiplied by the inverse degrees from the right"
        if D is not None and d is not D:
            return None
        D = d
        for m, k in T.poly(y).items():
            if len(m) != 1:
                return None
            if k != 1:
                bad = bad or "%s has coefficient %s" % (m[0], k)
            parts.append(m[0])
    A = S = None
    for x in parts:
        y = x
        while y.op == "call" and y.args[0] in (".tocsc", ".tocsr", ".copy") and len(y.args[1]) == 1 and not is_eye(y.args[1][0]):
            y = y.args[1][0]
        if is_eye(y):
            if S is not None:
                return None
            S = y
        else:
            if A is not None:
                return None
            A = y
    if A is not None and S is None and D is not None and is_eye(D):
        return None, None, None, "isolated nodes have no self-loop"
    if len({id(x) for x in (ident[0][0], S, D)}) < 3 and S is not None:
        return None, None, None, "one and the same matrix is used as %s" % " and ".join(
            n for n, x in (("identity", ident[0][0]), ("self-loops", S), ("inverse degrees", D)) if [ident[0][0], S, D].count(x) > 1)
    return A, S, D, bad


def is_eye(t):
    while t.op == "call" and t.args[0] in (".tocsc", ".tocsr", ".copy", ".todia") and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t.op == "call" and str(t.args[0]).rsplit(".", 1)[-1] in ("eye", "identity", "diags") and len(t.args[1]) >= 1


# ------------------------------------------------------------------ evaluation of one step
class Step:
    """values of the cells after one event, as functions of the cells before"""

    def __init__(self, roles, ends, start, vals):
        self.roles, self.ends, self.start, self.vals = roles, ends, start, vals

    def key(self, k):
        k = strip_int(k)
        if k.op == "tuple":
            return tuple(self.key(x) for x in k.args)
        for n, ts in self.ends.items():
            if k in ts:
                return n
        if k is sym("%other"):
            return "o"
        raise Unknown("key %s" % k)

    def cell(self, c, key):
        """value of contents c at key"""
        if c.op == "ite":
            return self.cell(c.args[1] if self.num(c.args[0]) else c.args[2], key)
        if c.op == "store":
            k = self.key(c.args[1])
            if k == key:
                return self.num(c.args[2])
            return self.cell(c.args[0], key)
        if c.op == "phi":
            for n, ph in self.roles.items():
                if ph is c:
                    if (n, key) in self.vals:
                        return self.vals[(n, key)]
                    return ("old", n, key)
        raise Unknown("contents %s" % str(c)[:80])

    def num(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if T.is_const(t):
            v = T.cval(t)
            if isinstance(v, (int, float)):
                return Fraction(v)
            raise Unknown(str(t))
        if t is self.start[0]:
            return self.start[1]
        op = t.op
        if op == "ite":
            return self.num(t.args[1] if self.num(t.args[0]) else t.args[2])
        if op in ("select", "idx"):
            return self.cell(t.args[0], self.key(t.args[1]))
        if op == "not":
            return not self.num(t.args[0])
        if op == "and":
            return all(self.num(x) for x in t.args)
        if op == "or":
            return any(self.num(x) for x in t.args)
        if op in ("eq", "lt", "le"):
            a, b = self.num(t.args[0]), self.num(t.args[1])
            if isinstance(a, tuple) or isinstance(b, tuple):
                raise Unknown(str(t))
            return a == b if op == "eq" else a < b if op == "lt" else a <= b
        if op == "inv":
            v = self.num(t.args[0])
            if isinstance(v, tuple) or v == 0:
                raise Unknown("division by zero" if v == 0 else str(t))
            return 1 / v
        if op == "poly":
            s = Fraction(0)
            for m, c in T.poly(t).items():
                x = Fraction(c)
                for y in m:
                    v = self.num(y)
                    if isinstance(v, tuple):
                        raise Unknown(str(t))
                    x *= v
                s += x
            return s
        if op == "call" and t.args[0] in ("float", "int", "bool", "numpy.float64") and len(t.args[1]) == 1:
            return self.num(t.args[1][0])
        if op == "call" and t.args[0] in ("max", "min") and len(t.args[1]) == 2:
            return (max if t.args[0] == "max" else min)(*[self.num(x) for x in t.args[1]])
        raise Unknown(str(t)[:80])


def start_atom(terms):
    out = set()
    for t in terms:
        for x in subterms(t):
            if x.op in ("idx", "select", "attr") and any(y.op == "attr" and y.args[1] == "is_start" for y in subterms(x)):
                out.add(x)
    # outermost only
    top = [x for x in out if not any(x is not y and any(z is x for z in subterms(y)) for y in out)]
    return top


def consistent(d):
    return (Fraction(1), Fraction(1)) if d == 0 else (Fraction(0), 1 / Fraction(d))


def step_check(ctx, f, it, loop, objs, C, ends_clear, where):
    """one event of the loop: transition of the four containers"""
    roles, back = {}, {}
    for n, o in objs.items():
        for p, i in it.phis.items():
            if p.args[0] == loop and content_phi(p, o):
                roles[n], back[n] = p, i.back
    for n in objs:
        if n not in roles:
            # never written in this loop: unchanged
            back[n] = None
    owners = set(objs.values()) | {o.args[0] for o in objs.values() if o.op == "attr"}
    for e in it.events:
        if e.kind == "call" and loop in loops_in(e) and len(loops_in(e)) and loops_in(e)[-1] == loop:
            fn = str(e.d["fn"])
            if (fn.startswith("fn:") or (fn.startswith(".") and e.d["args"] and T.unver(e.d["args"][0]) not in owners)) and \
                    any(T.unver(a) in owners for a in list(e.d["args"]) + list(e.d["kwargs"].values())):
                ctx.und("replay", C, "contents are handed to %s" % fn)
                return
    if "A" not in roles:
        ctx.bad("replay", C + " A", "events do not change the adjacency matrix", where)
        return
    # endpoints of the event
    ends = {"s": set(), "t": set()}
    evs = set()
    for b in back.values():
        if b is None:
            continue
        for x in subterms(b):
            ks = [x.args[1]] if x.op in ("select", "store", "idx") else []
            for k in ks:
                for y in (k.args if k.op == "tuple" else (k,)):
                    q = col(y)
                    if q:
                        ends["s" if q[1] == SRC else "t"].add(strip_int(y))
                        evs.add(q[0])
    if not ends["s"] and not ends["t"]:
        ctx.und("replay", C, "endpoints of the events not recognised")
        return
    if len(evs) > 1:
        ctx.und("replay", C, "endpoints of %d different events in one step" % len(evs))
        return
    atoms = start_atom([b for b in back.values() if b is not None])
    if len(atoms) > 1:
        ctx.und("replay", C, "several start markers: %s" % [str(a)[-60:] for a in atoms])
        return
    marker = atoms[0] if atoms else None
    modes = [True] if marker is None else [True, False]
    verdict = {}

    def note(k, ok, msg):
        if k not in verdict or verdict[k][0] is True or (ok is False and verdict[k][0] is None):
            if k in verdict and verdict[k][0] is True and ok is True:
                return
            verdict[k] = (ok, msg)
    for start, a, ds, dt in itertools.product(modes, (0, 1), range(4), range(4)):
        if ds < a or dt < a:
            continue
        vals = {("A", ("s", "t")): Fraction(a), ("A", ("t", "s")): Fraction(a), ("deg", "s"): Fraction(ds), ("deg", "t"): Fraction(dt)}
        for n, d in (("s", ds), ("t", dt)):
            vals[("S", n)], vals[("D", n)] = consistent(d)
        # a node that takes no part in the event keeps its values
        st = Step(roles, ends, (marker, start), vals)
        a2 = 1 if start else (0 if ends_clear else a)
        want = {("A", ("s", "t")): a2, ("A", ("t", "s")): a2, ("deg", "s"): ds + a2 - a, ("deg", "t"): dt + a2 - a}
        for n, d in (("s", want[("deg", "s")]), ("t", want[("deg", "t")])):
            want[("S", n)], want[("D", n)] = consistent(d)
        ev = ("start" if start else "end")
        for (r, k), w in want.items():
            lab = "%s %s of %s" % (ev, dict(A="edge", deg="degree", S="self-loop", D="inverse degree")[r],
                                   {"s": "source", "t": "target", ("s", "t"): "source to target", ("t", "s"): "target to source"}[k])
            try:
                got = vals[(r, k)] if back[r] is None else st.cell(back[r], k)
                note(lab, got == w, "%s event with edge %s, degrees %d and %d: %s, expected %s" % (ev, "present" if a else "absent", ds, dt, got, w))
            except Unknown as u:
                note(lab, False if str(u) == "division by zero" else None, str(u))
        for r in ("A", "deg", "S", "D"):
            k = ("o", "o") if r == "A" else "o"
            lab = "%s other %s" % (ev, dict(A="edges", deg="degrees", S="self-loops", D="inverse degrees")[r])
            try:
                got = ("old", r, k) if back[r] is None else st.cell(back[r], k)
                note(lab, got == ("old", r, k), "entries of other nodes become %s" % (got,))
            except Unknown as u:
                note(lab, None, str(u))
    for k, (ok, msg) in verdict.items():
        ctx.tri(ok, "replay", "%s %s" % (C, k), msg, where, msg)
    return marker, next(iter(evs), None)


# ------------------------------------------------------------------ contents an interval begins with
def uniform(t, obj, role):
    """("all", v): every entry v; ("carry", phi); None"""
    if t.op == "mutated" and len(t.args) >= 2:
        how, a = t.args[1], t.args[2] if len(t.args) > 2 else ()
        how = T.cval(how) if hasattr(how, "op") else how
        if str(how).strip(".") == "fill" and len(a) == 1 and T.is_const(a[0]):
            return ("all", Fraction(T.cval(a[0])))
        if str(how).strip(".") == "clear":
            return ("all", Fraction(0))
        return None
    if t.op == "store" and t.args[1].op == "slice" and all(x is NONE for x in t.args[1].args) and T.is_const(t.args[2]):
        return ("all", Fraction(T.cval(t.args[2])))
    if t.op == "zeros":
        return ("all", Fraction(0))
    if t.op == "ones":
        return ("all", Fraction(1))
    if t.op == "init":
        o = T.unver(t.args[0])
        if o.op == "attr" and o.args[1] == "data" and is_eye(o.args[0]):
            return ("all", Fraction(1))
        if o.op == "call":
            nm = str(o.args[0]).rsplit(".", 1)[-1]
            if nm in ("lil_matrix", "dok_matrix", "csr_matrix", "csc_matrix", "lil_array", "dok_array") and len(o.args[1]) == 1 and o.args[1][0].op == "tuple" and len(o.args[1][0].args) == 2:
                return ("all", Fraction(0))
            if nm in ("zeros", "zeros_like"):
                return ("all", Fraction(0))
            if nm in ("ones", "ones_like"):
                return ("all", Fraction(1))
    if t.op == "phi":
        return ("carry", t)
    return None


BEGIN = dict(A=0, deg=0, S=1, D=1)


def begins(ctx, it, f, ev_loop, outer, objs, C, where):
    """-> True when contents are reset in each interval, False when carried over, None unknown"""
    modes = {}
    for n, o in objs.items():
        ph = next((p for p in it.phis if p.args[0] == ev_loop and content_phi(p, o)), None)
        if ph is None:
            continue
        init = it.phis[ph].init
        u = uniform(init, o, n)
        if u is not None and u[0] == "all":
            ok = u[1] == BEGIN[n]
            ctx.check(ok, "interval-begin", "%s %s" % (C, n), "an interval begins with %s = %s" % (n, u[1]), where)
            modes[n] = True
            continue
        if init.op == "phi" and init.args[0] == outer:
            i2 = it.phis[init]
            firsts = [l for _, l in (T.cases(i2.init) or [((), i2.init)])]
            for l in firsts:
                u = uniform(l, o, n)
                if u is not None and u[0] == "all":
                    ctx.check(u[1] == BEGIN[n], "interval-begin", "%s %s first" % (C, n), "the first interval begins with %s = %s" % (n, u[1]), where)
                elif u is not None and u[0] == "carry" and content_phi(u[1], o):
                    i3 = it.phis[u[1]].init
                    u3 = uniform(i3, o, n)
                    ctx.tri(None if u3 is None or u3[0] != "all" else u3[1] == BEGIN[n], "interval-begin", "%s %s before the window" % (C, n),
                            "contents before any event are %s" % (u3,), where, str(i3))
                else:
                    ctx.und("interval-begin", "%s %s first" % (C, n), str(l)[:120])
            backs = [l for _, l in (T.cases(i2.back) or [((), i2.back)])]
            kinds = set()
            for l in backs:
                if l is ph or l is init:
                    kinds.add(False)
                    continue
                u = uniform(l, o, n)
                if u is not None and u[0] == "all":
                    kinds.add(True)
                    ctx.check(u[1] == BEGIN[n], "interval-begin", "%s %s" % (C, n), "an interval begins with %s = %s" % (n, u[1]), where)
                else:
                    kinds.add(None)
            modes[n] = kinds.pop() if len(kinds) == 1 else None
        else:
            modes[n] = None
    vals = set(modes.values())
    if None in vals or not vals:
        ctx.und("interval-begin", C, str(modes))
        return None
    if len(vals) > 1:
        ctx.bad("interval-begin", C + " together", "reset for each interval: %s, carried over: %s" % (
            [n for n, v in modes.items() if v], [n for n, v in modes.items() if not v]), where)
        return None
    ctx.ok("interval-begin", C + " together", "carried over" if not modes["A"] else "reset")
    return vals.pop()


def replay(ctx, f):
    it, r = interp(ctx.prog, f)
    ctx.saw(it)
    C = f.qual
    apps = [e for e in it.events if e.kind == "mutate" and e.d["how"] == ".append" and e.d["args"] and
            any(x.op == "matmul" for x in subterms(T.unver(e.d["args"][0])))]
    apps = [e for e in apps if loops_in(e)]
    if not apps:
        ctx.und("formula", C, "no Laplacian collected")
        return
    e = apps[-1]
    L = T.unver(e.d["args"][0])
    q = formula(L)
    if q is not None and q[3] is not None and q[0] is None:
        ctx.bad("formula", C, "%s: %s" % (q[3], str(L)[:200]), e.where)
        return
    if q is None or any(x is None for x in q[:3]):
        ctx.und("formula", C, str(L)[:200])
        return
    A, S, D, bad = q
    ctx.tri(bad is None, "formula", C, "the Laplacian is %s: %s" % (L, bad), e.where)
    objs = {"A": A, "S": mk("attr", S, "data"), "D": mk("attr", D, "data")}
    # degree array: the one whose inverse goes to D
    deg = None
    for x in it.events:
        if x.kind == "setitem" and T.unver(x.d["base"]) is objs["D"]:
            for y in subterms(x.d["value"]):
                if y.op == "phi" and isinstance(y.args[1], tuple) and y.args[1][0] == "h" and y.args[1][2] == "[]" and T.unver(y.args[1][1]) not in objs.values():
                    o = T.unver(y.args[1][1])
                    if any(z.kind == "setitem" and T.unver(z.d["base"]) is o for z in it.events):
                        if o.op == "call" and str(o.args[0]).rsplit(".", 1)[-1] in ("zeros", "zeros_like", "ones", "full"):
                            deg = o
    if deg is None:
        ctx.und("replay", C, "degree array not recognised")
        return
    objs["deg"] = deg
    outer = loops_in(e)[-1]
    loops = []
    for x in it.events:
        if x.kind == "setitem" and T.unver(x.d["base"]) is A:
            ls = loops_in(x)
            if ls and ls[-1] not in loops:
                loops.append(ls[-1])
    if not loops:
        # written in loops that the engine summarised otherwise
        ctx.und("replay", C, "no event loop")
        return
    ev_loops = [l for l in loops if any(x.kind == "setitem" and T.unver(x.d["base"]) is A and loops_in(x)[-1] == l and outer in loops_in(x) for x in it.events if loops_in(x))]
    pre = [l for l in loops if l not in ev_loops]
    for l in ev_loops:
        reset = begins(ctx, it, f, l, outer, objs, C, e.where)
        got = step_check(ctx, f, it, l, objs, C, ends_clear=reset is not True, where=e.where)
        if got:
            identity(ctx, it, r, f, got[0], got[1], C, e)
    if not ev_loops:
        ctx.und("replay", C, "no event loop inside the interval loop")
        return
    for l in pre:
        step_check(ctx, f, it, l, objs, C + " before the window", ends_clear=False, where=e.where)
        window_start(ctx, it, f, l, C, e)
        reached(ctx, it, l, C, e)
    if not pre and reset is False:
        ctx.bad("window-start", C, "contacts under way at the beginning of the window are left out", f.where)
    # adjacency matrices are snapshots
    for x in it.events:
        if x.kind == "mutate" and x.d["how"] == ".append" and x is not e and x.d["args"]:
            v = T.unver(x.d["args"][0])
            if v is A:
                ctx.bad("snapshot", C + " adjacencies", "the matrix that later events change is stored", x.where)
            elif v.op == "call" and v.args[0] in (".copy", ".tocsr", ".tocsc", ".tocoo") and v.args[1] and v.args[1][0] is A:
                ctx.ok("snapshot", C + " adjacencies", str(v.args[0]))
            elif any(y.kind == "setattr" and y.d["name"] == "adjacencies" and T.unver(y.d["value"]) is T.unver(x.d["target"]) for y in it.events):
                isA = lambda m: len(m) == 1 and (m[0] is A or m[0].op == "call" and m[0].args[1] and T.unver(m[0].args[1][0]) is A)
                p = T.poly(v)
                ctx.tri(False if len(p) > 1 and any(isA(m) for m in p) else None, "snapshot", C + " adjacencies", "the matrix stored is %s, not the adjacency matrix" % v, x.where, str(v)[:120])


def window_start(ctx, it, f, loop, C, e):
    li = it.loopinfo.get(loop)
    d = T.unver(li["iter"]) if li and li["iter"] is not None else None
    if d is None:
        ctx.und("window-start", C, "loop domain unknown")
        return
    masks = [x.args[1] for x in subterms(d) if x.op in ("idx",) and any(y.op == "attr" and y.args[1] in (START, END) for y in subterms(x.args[1]))]
    from .p17 import conj
    cs = None
    for m in masks:
        cs = cs or conj(m)
    if cs is None:
        ctx.und("window-start", C, str(d)[:200])
        return
    got = {}
    for c in cs:
        a, b = norm(c.args[0]), norm(c.args[1])
        qa, qb = col(a, (START, END)), col(b, (START, END))
        if qa and not qb:
            got.setdefault(qa[1], []).append((c.op, "col", b))
        elif qb and not qa:
            got.setdefault(qb[1], []).append((c.op, "bound", a))
        else:
            ctx.und("window-start", C, str(c)[:160])
            return
    ks = None
    for n, ok_prev, ok_at in ((START, ("le", "col"), (("lt", "col"), ("le", "col"))), (END, ("lt", "bound"), (("lt", "bound"), ("le", "bound")))):
        lst = got.get(n, [])
        lab = "%s %s" % (C, n)
        if len(lst) != 1:
            ctx.tri(False if not lst else None, "window-start", lab, "contacts under way are chosen without looking at %s" % n, e.where, str(cs)[:160])
            continue
        op, side, x = lst[0]
        x = fold(x)
        which = position(x)
        if which is None:
            ctx.und("window-start", lab, str(x)[:200])
            continue
        if which == -1:
            ok = (op, side) == ok_prev
        elif which == 0:
            ok = (op, side) in ok_at
        else:
            ok = False
        ctx.tri(ok, "window-start", lab, "contacts under way at the window start: %s %s %s (interval %+d)" % (n, op if side == "col" else "not " + op, x, which), e.where)


def reached(ctx, it, loop, C, e):
    """contacts under way are looked for whenever the window does not begin at the first time"""
    x = next((x for x in it.events if loop in loops_in(x)), None)
    if x is None:
        return
    gs = []
    for g in x.guards:
        if g.op == "iter":
            break
        gs.append(T.strip(g))
    iskk = lambda y: y is KS or (y.op == "idx" and "_get_closest_time" in str(y.args[0]) and T.is_const(y.args[1]) and T.cval(y.args[1]) == 1)
    for n in (1, 2, 3):
        for g in gs:
            def val(y):
                if y.op == "ite" and y.args[0].op == "is" and y.args[0].args[0] is sym("t_start"):
                    return y.args[2]
                if iskk(y):
                    return const(n)
                return y
            v = rebuild(g, val)
            if v is not TRUE and v is not FALSE:
                # the window was asked to begin at or after times[n], before times[n + 1]
                outs = set()
                for ts in (0, 0.4):
                    grid = [1, 3, 4, 8, 9, 12]
                    lf = lambda y: grid if y is TIMES else grid[n] + ts if y is sym("t_start") else (False if y.op == "is" and sym("t_start") in y.args and NONE in y.args else
                                    grid[n] if y is fld("_t_start_laplacians") or y.op == "idx" and "_get_closest_time" in str(y.args[0]) and T.is_const(y.args[1]) and T.cval(y.args[1]) == 0 else None)
                    try:
                        outs.add(bool(vec(v, lf)))
                    except (NotNumeric, IndexError):
                        outs.add(None)
                v = FALSE if False in outs and None not in outs else TRUE if outs == {True} else v
            ctx.tri(True if v is TRUE else (False if v is FALSE else None), "window-start", "%s window from time %d" % (C, n), "contacts begun before the window are left out unless %s" % g, x.where, str(v)[:160])


def fold(x):
    return x


def position(x):
    """times[k_start + n] (or the start time itself) -> n"""
    leaves = [l for _, l in (T.cases(x) or [])]
    out = set()
    for l in leaves:
        if l.op == "idx" and l.args[0] is TIMES:
            k = l.args[1]
            p = T.poly(k)
            n = p.get((), Fraction(0))
            rest = {m: c for m, c in p.items() if m}
            if not rest:
                out.add(int(n))
                continue
            if len(rest) == 1:
                (m, c), = rest.items()
                if c == 1 and len(m) == 1 and (m[0] is KS or (m[0].op == "idx" and "_get_closest_time" in str(m[0].args[0]) and T.is_const(m[0].args[1]) and T.cval(m[0].args[1]) == 1)):
                    out.add(int(n))
                    continue
            return None
        elif l.op == "idx" and "_get_closest_time" in str(l.args[0]) and T.is_const(l.args[1]) and T.cval(l.args[1]) == 0:
            out.add(0)
        elif l is fld("_t_start_laplacians"):
            out.add(0)
        else:
            return None
    return out.pop() if len(out) == 1 else None


def identity(ctx, it, r, f, marker, ev, C, e):
    """start marker and event belong to the same row of the time grid"""
    if marker is None or ev is None:
        ctx.und("event-identity", C, "start marker or event not recognised")
        return
    R = Resolve(it, r.st)
    mpos = marker.args[1] if marker.op in ("idx", "select") else None
    v = T.unver(ev)
    pos, src = None, None
    if v.op in ("idx", "select"):
        b, pos = v.args
        if b.op == "phi":
            init, back = it.phis[b].init, it.phis[b].back
            if back.op == "append" and back.args[0] is b:
                src = T.unver(back.args[1])
        else:
            src = b
    if src is None or mpos is None:
        ctx.und("event-identity", C, str(v)[:200])
        return
    ctx.tri(True if T.unver(pos) is T.unver(mpos) else None, "event-identity", C + " position", "", e.where, "%s / %s" % (pos, mpos))
    loc = [x for x in subterms(src) if x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] in ("loc", "iloc")
           and any(y.op == "attr" and y.args[1] == "events_table" for y in subterms(x.args[0]))]
    if not loc:
        ctx.und("event-identity", C + " row", str(src)[:200])
        return
    x = loc[0]
    ctx.check(x.args[0].args[1] == "loc", "event-identity", C + " row by index label", "the grid's id is used as a position (%s)" % x.args[0].args[1], e.where)
    ids = [y for y in subterms(x.args[1]) if y.op == "call" and "get_level_values" in str(y.args[0])]
    okid = [y for y in ids if any(T.is_const(z) and T.cval(z) in ("id", 1) for z in y.args[1][1:])]
    ctx.tri(True if okid else (False if ids else None), "event-identity", C + " id", "events are looked up by %s" % (ids[:1],), e.where, str(x.args[1])[:200])
    grp = {y.args[1][0] for y in okid}
    mg = [y for y in subterms(marker) if y.op == "attr" and y.args[1] == "is_start"]
    if okid and mg:
        g1 = {T.unver(y.args[0]) if y.op == "attr" and y.args[1] == "index" else T.unver(y) for y in grp}
        ctx.tri(True if T.unver(mg[0].args[0]) in g1 else None, "event-identity", C + " same rows", "", e.where)


# ------------------------------------------------------------------ construction
ROLES = (SRC, TGT, START, END)


def class_const(ctx, f, t):
    """self.NAME bound to a constant in the class body"""
    if t.op == "attr" and t.args[0] is SELF and f.cls is not None:
        e = f.cls.find_class_attr(t.args[1])
        e = e[-1] if isinstance(e, tuple) else e
        e = getattr(e, "value", e) if isinstance(e, (ast.Assign, ast.AnnAssign)) else e
        if isinstance(e, ast.Constant):
            return const(e.value)
    return t


def listed(it, st, t):
    """contents of a list or dict object -> contents term"""
    if t.op == "contents":
        return t.args[1]
    if t.op == "obj":
        return st.heap.get((t, "[]"))
    return None


def stores(c):
    """store chain -> [(key, value)], base"""
    out = []
    while c is not None and c.op == "store":
        out.append((c.args[1], c.args[2]))
        c = c.args[0]
    return out, c


def mapped(it, st, v, upto=None):
    """list built as [M[x] for x in p] -> (contents of M, p); or None"""
    if upto is not None and v.op == "obj":
        apps = [e for e in it.events if e.kind == "mutate" and e.n < upto.n and e.d["how"] == ".append" and T.unver(e.d["target"]) is v and e.d["args"]]
        x = apps[-1].d["args"][0] if apps else None
        return (x.args[0], x.args[1]) if x is not None and x.op in ("select", "idx") else None
    c = listed(it, st, v)
    if c is not None and c.op == "ite":
        ls = {l for _, l in (T.cases(c, limit=16) or []) if l.op != "init" and not (l.op == "seq" and not l.args)}
        c = ls.pop() if len(ls) == 1 else None
    if c is None or c.op != "phi":
        return None
    i = it.phis.get(c)
    if i is None or i.back.op != "append" or i.back.args[0] is not c:
        return None
    x = i.back.args[1]
    if x.op not in ("select", "idx"):
        return None
    return x.args[0], x.args[1]


def src_of(ctx, f, k, it=None, ev=None):
    """elem(p) / elem(table[col].tolist()) -> name of the parameter or column"""
    if k.op in ("select", "idx") and it is not None and k.args[0].op == "phi" and k.args[0] in it.phis:
        # an element of a list that was itself mapped
        b = it.phis[k.args[0]].back
        if b.op == "append" and b.args[1].op in ("select", "idx"):
            return src_of(ctx, f, b.args[1].args[1], it, ev)
    if k.op == "elem":
        d = T.unver(k.args[0])
        if d.op == "contents" and d.args[1].op == "phi" and it is not None and d.args[1] in it.phis:
            b = it.phis[d.args[1]].back
            if b.op == "append" and b.args[1].op in ("select", "idx"):
                return src_of(ctx, f, b.args[1].args[1], it, ev)
        if d.op == "obj" and it is not None and ev is not None:
            m = mapped(it, None, d, ev)
            return src_of(ctx, f, m[1]) if m else None
        while d.op == "call" and d.args[0] in (".tolist", "list", ".to_numpy", "numpy.asarray", "listof") and len(d.args[1]) == 1:
            d = d.args[1][0]
        if d.op == "attr" and d.args[1] == "values":
            d = d.args[0]
        if d.op == "sym":
            return d.args[0]
        if d.op in ("idx", "select"):
            c = class_const(ctx, f, d.args[1])
            if T.is_const(c):
                return T.cval(c)
        if d.op == "attr" and d.args[1] in ROLES:
            return d.args[1]
    return None


def role_value(ctx, it, st, f, v, want, C, ev, what):
    where = ev.where
    for cs, l in (T.cases(v, limit=16) or [((), v)]):
        got = None
        if l.op == "sym":
            got = l.args[0]
        else:
            m = mapped(it, st, l, ev)
            if m is not None:
                got = {src_of(ctx, f, x, it, ev) for _, x in (T.cases(m[1], limit=16) or [((), m[1])])}
                got = got.pop() if len(got) == 1 else None
        ctx.tri(None if got is None else got == want, "construction", "%s %s %s" % (C, what, want), "column %s gets %s" % (want, got), where, str(l)[:160])


def construction(ctx, f):
    it, r = interp(ctx.prog, f, stop={"_merge_overlapping_events", "_compute_time_grid", "compute_static_adjacency_matrix"} | ({"__init__"} if delegates(f) else set()))
    ctx.saw(it)
    C = f.qual
    if delegates(f):
        derived_init(ctx, it, r, f, C)
        return
    tables = [e for e in it.events if e.kind == "setattr" and e.d["name"] == "events_table"]
    for e in tables:
        v = e.d["value"]
        if v.op == "call" and str(v.args[0]).endswith("DataFrame"):
            data = dict(v.args[2]).get("data") or (v.args[1][0] if v.args[1] else None)
            c = listed(it, r.st, data) if data is not None else None
            if c is None:
                ctx.und("construction", C + " columns", str(v)[:160])
                continue
            got = {}
            for l in leaves(it, c):
                ch, base = stores(l)
                for k, x in ch:
                    if T.is_const(k):
                        got.setdefault(T.cval(k), []).append(x)
            for n in ROLES:
                if n not in got:
                    ctx.und("construction", "%s columns %s" % (C, n), "no value found")
                for x in got.get(n, []):
                    role_value(ctx, it, r.st, f, x, n, C, e, "column")
    # columns rewritten in place
    again = set()
    for e in it.events:
        if e.kind == "setitem":
            k = class_const(ctx, f, e.d["key"])
            if T.is_const(k) and T.cval(k) in ROLES and tableish(e.d["base"]):
                role_value(ctx, it, r.st, f, e.d["value"], T.cval(k), C, e, "relabelled")
                again.add(T.cval(k))
    if again & {SRC, TGT}:
        ctx.check({SRC, TGT} <= again, "construction", C + " relabelled both", "%s are not relabelled" % ({SRC, TGT} - again), f.where)
    # further columns
    for e in it.events:
        if e.kind == "setitem" and e.d["key"].op == "elem" and T.unver(e.d["key"].args[0]) is sym("extra_attrs"):
            v = T.unver(e.d["value"])
            while v.op == "call" and v.args[0] in ("list", "numpy.asarray", "numpy.array", ".copy", "tuple") and len(v.args[1]) == 1:
                v = v.args[1][0]
            c = (listed(it, r.st, v) or it.made.get(v)) if v.op == "obj" else None
            if c is not None and c.op == "listof":
                v = T.unver(c.args[0])
            ok = v.op in ("idx", "select") and T.unver(v.args[0]) is sym("extra_attrs") and v.args[1] is e.d["key"]
            if v.op in ("sortedof", "reversedof", "setof"):
                c = v
            moved = c is not None and c.op in ("sortedof", "reversedof", "setof")
            ctx.tri(True if ok else (False if moved or (v.op in ("idx", "select") and v.args[1] is not e.d["key"]) else None), "construction", C + " further columns", "a column gets %s" % (c if moved else v), e.where, str(v)[:120])
    labels(ctx, it, r, f, C)
    # no row of the table is left out
    for e in it.events:
        how = str(e.d["how"]) if e.kind == "mutate" else str(e.d.get("fn")) if e.kind == "call" else None
        if how not in (".drop_duplicates", ".dropna", ".head", ".tail", ".sample", ".truncate", ".nlargest", ".nsmallest", ".drop"):
            continue
        kw = e.d.get("kwargs") or {}
        base = e.d["target"] if e.kind == "mutate" else (e.d["args"][0] if e.d["args"] else None)
        if base is None or not tableish(base) or (how == ".drop" and e.kind == "call" and ("columns" in kw or "axis" in kw)) or (how == ".drop" and e.kind == "mutate"):
            continue
        kept = any(x.kind == "setattr" and x.d["name"] == "events_table" and e.kind == "call" and e.d.get("result") is not None and any(y is e.d["result"] for y in subterms(x.d["value"])) for x in it.events)
        if kept or e.kind == "mutate" or kw.get("inplace") is TRUE:
            ctx.bad("construction", C + " all events", "rows of the table of events are removed by %s" % how, e.where)
            break
    derived(ctx, it, r, f, C)
    after_merge(ctx, it, f, C)


def tableish(t):
    s = str(T.strip(t))
    return "DataFrame" in s or "read_csv" in s or "events_table" in s


def leaves(it, c, depth=0):
    """contents without joins; loops that only add to them are looked through"""
    if c.op == "ite":
        return leaves(it, c.args[1], depth) + leaves(it, c.args[2], depth)
    if c.op == "phi" and depth < 3 and c in it.phis:
        return leaves(it, it.phis[c].init, depth + 1)
    return [c]


def labels(ctx, it, r, f, C):
    for name in ("label_to_node_dict", "node_to_label_dict"):
        for e in it.events:
            if e.kind != "setattr" or e.d["name"] != name or e.d["value"].op != "obj":
                continue
            c = r.st.heap.get((e.d["value"], "[]"))
            cands = [l for _, l in (T.cases(c) or [])] if c is not None and c.op == "ite" else [c] if c is not None else []
            for l in cands:
                if l.op == "mergemap" and len(l.args) == 2 and all(x in it.phis and it.phis[x].back is not None and it.phis[x].back.op == "store" for x in l.args):
                    two = [(it.phis[x].back.args[1], it.phis[x].back.args[2]) for x in l.args]
                    if all(lb.op in ("idx", "select") and lb.args[0].op == "sortedof" and nd is lb.args[1] for lb, nd in two):
                        ctx.bad("relabelling", "%s %s" % (C, name), "two sets of labels are both numbered from 0: different nodes get the same number", e.where)
            cands = [l for l in cands if l.op == "phi"]
            cell = None
            for l in cands:
                b = it.phis[l].back
                if b.op == "store" and b.args[0] is l:
                    cell = (b.args[1], b.args[2])
            lab = "%s %s" % (C, name)
            if cell is None:
                ctx.und("relabelling", lab, str(c)[:160])
                continue
            label, node = cell if name == "label_to_node_dict" else (cell[1], cell[0])
            pairing(ctx, it, r, label, node, lab, e.where)


def pairing(ctx, it, r, label, node, lab, where):
    """label = sorted(all nodes)[k], node = k; or taken from the inverse map"""
    if label.op in ("idx", "select") and label.args[0].op == "sortedof":
        k = label.args[1]
        n = T.sub(node, k)
        opts = dict(label.args[0].args[1]) if len(label.args[0].args) > 1 else {}
        if opts.get("key", NONE) is not NONE or opts.get("reverse", FALSE) not in (FALSE, NONE):
            ctx.bad("relabelling", lab + " order", "labels are not numbered in sorted order (%s)" % ", ".join("%s=%s" % kv for kv in opts.items()), where)
        ctx.tri(True if node is k else (False if T.is_const(n) or node.op != "poly" else None), "relabelling", lab + " numbering", "label number k is given node %s" % node, where, str(node))
        cont = label.args[0].args[0]
        have = set()
        for x in subterms(cont):
            q = col(x) if x.op in ("attr", "idx", "select") else None
            if q:
                have.add(q[1])
            if x.op == "sym" and x.args[0] in (SRC, TGT):
                have.add(x.args[0])
        miss = [n for n in (SRC, TGT) if n not in have]
        ctx.tri(not miss if have else None, "relabelling", lab + " all nodes", "labels of %s are left out" % miss, where)
        return
    # inverse of the other dictionary: for l, n in D.items()
    if node.op in ("select", "idx") and label.op == "elem" and node.args[1] is label:
        ctx.ok("relabelling", lab + " inverse", "inverse")
        return
    if label.op in ("select", "idx") and node.op == "elem" and label.args[1] is node:
        ctx.bad("relabelling", lab + " inverse", "labels and nodes are exchanged", where)
        return
    if label.op == "elem" or (label.op in ("idx", "select") and any(x.op == "contents" and x.args[0].op == "obj" and x.args[0].args[0] == "set" for x in subterms(label))):
        if any(x.op == "obj" and x.args[0] == "set" for x in subterms(label)):
            ctx.bad("relabelling", lab + " numbering", "nodes are numbered in the arbitrary order of a set", where)
            return
    ctx.und("relabelling", lab, "%s -> %s" % (str(label)[:80], str(node)[:80]))


def derived(ctx, it, r, f, C, only=None):
    want = {"start_time": ("min", START), "end_time": ("max", END)}
    for n, (fn, c) in want.items():
        for e in it.events:
            if e.kind == "setattr" and e.d["name"] == n and T.strip(e.d["base"]) is SELF:
                for _, l in (T.cases(T.strip(e.d["value"]), limit=32) or [((), e.d["value"])]):
                    q = None
                    if l.op == "call" and len(l.args[1]) == 1:
                        q = (str(l.args[0]).rsplit(".", 1)[-1], (col(l.args[1][0], ROLES) or (None, None))[1])
                    ok = None if q is None or q[1] is None or q[0] not in ("min", "max") else q == (fn, c)
                    if l.op in ("idx", "select") and T.is_const(l.args[1]):
                        b = l.args[0].args[0] if l.args[0].op == "attr" and l.args[0].args[1] in ("iloc", "values", "iat") else l.args[0]
                        if col(b, ROLES):
                            # the table need not be sorted
                            ok, q = False, ("row %s" % l.args[1], col(b, ROLES)[1])
                    ctx.tri(ok, "derived", "%s %s" % (C, n), "%s is the %s of %s" % (n, q and q[0], q and q[1]), e.where, str(l)[:120])
    for e in it.events:
        if e.kind == "setitem" and T.is_const(e.d["key"]) and T.cval(e.d["key"]) == "durations":
            for _, l in (T.cases(T.strip(e.d["value"]), limit=64) or []):
                p = T.poly(l)
                got = {}
                for m, c in p.items():
                    q = col(m[0], (START, END)) if len(m) == 1 else None
                    if q:
                        got[q[1]] = c
                if len(got) == len(p) and got:
                    ctx.check(got == {END: 1, START: -1}, "derived", C + " durations", "durations are %s" % l, e.where)
        if e.kind == "setattr" and e.d["name"] == "num_nodes" and T.strip(e.d["base"]) is SELF:
            for _, l in (T.cases(T.strip(e.d["value"]), limit=32) or []):
                have = {T.cval(z) for y0 in subterms(l) for y in [(listed(it, r.st, y0) or y0) if y0.op == "obj" else y0] if isinstance(y, T.Term)
                        for z in (y.args if y.op in ("seq", "tuple") else ()) if isinstance(z, T.Term) and T.is_const(z) and T.cval(z) in (SRC, TGT)}
                have |= {q[1] for y in subterms(l) for q in [col(y)] if q}
                if l.op == "sym":
                    continue
                ctx.tri(False if len(have) == 1 else True if len(have) == 2 or "node_array" in str(l) else None, "derived", C + " num_nodes", "num_nodes is %s: nodes that only occur as %s are not counted" % (l, {SRC: TGT, TGT: SRC}.get(next(iter(have), None))), e.where, str(l)[:120])
        if e.kind == "setattr" and e.d["name"] == "num_events" and T.strip(e.d["base"]) is SELF:
            for _, l in (T.cases(T.strip(e.d["value"]), limit=32) or []):
                ok = None
                if l.op == "idx" and l.args[0].op == "attr" and l.args[0].args[1] == "shape" and T.is_const(l.args[1]):
                    ok = T.cval(l.args[1]) == 0
                elif l.op == "call" and l.args[0] == "len":
                    ok = True
                elif l.op == "poly":
                    ok = False
                ctx.tri(ok, "derived", C + " num_events", "num_events is %s" % l, e.where, str(l)[:120])


def after_merge(ctx, it, f, C):
    ms = [e for e in it.events if e.kind == "call" and "_merge_overlapping_events" in str(e.d["fn"])]
    for m in ms[-1:]:
        outside = []
        for g in m.guards:
            if g.op == "iter":
                break
            outside.append(g)
        du = [e for e in it.events if e.kind == "setitem" and T.is_const(e.d["key"]) and T.cval(e.d["key"]) == "durations" and e.n > m.n]
        inl = [e for e in du if not [g for g in e.guards if g.op == "iter" and g not in m.guards]]
        ctx.check(bool(inl), "derived", C + " durations after merging", "durations are those of the events before merging", m.where)


def derived_init(ctx, it, r, f, C):
    """a network of instantaneous events: each lasts until the next event time"""
    sup = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).endswith(".__init__")]
    if not sup:
        ctx.und("construction", C, "parent constructor not called")
        return
    e = sup[-1]
    du = [x for x in it.events if x.kind == "setitem" and T.is_const(x.d["key"]) and T.cval(x.d["key"]) == "durations" and x.n > e.n]
    if not du:
        ctx.bad("derived", C + " durations", "instantaneous events do not last one unit", e.where)
    for x in du[-1:]:
        v = T.strip(x.d["value"])
        c = listed(it, r.st, v)
        if c is not None:
            v = c
        ones = [y for y in subterms(v) if T.is_const(y) and isinstance(T.cval(y), (int, float)) and not isinstance(T.cval(y), bool)]
        diff = {(col(m[0], (START, END)) or (0, 0))[1] for m in T.poly(v) if len(m) == 1}
        ctx.tri(False if diff & {START, END} else (True if any(T.cval(y) == 1 for y in ones) else (False if T.is_const(v) else None)), "derived", C + " durations", "instantaneous events last %s" % v, x.where, str(v)[:120])
    for n in ROLES[:3] + ("events_table", "relabel_nodes", "node_to_label_dict", "reset_event_table_index"):
        v = e.d["kwargs"].get(n)
        if n not in f.params():
            continue
        ctx.tri(True if v is sym(n) else (False if v is None or v.op == "sym" or T.is_const(v) else None), "construction", "%s %s" % (C, n), "%s of the network is %s" % (n, v), e.where, str(v)[:120])
    v = e.d["kwargs"].get(END)
    if v is None:
        ctx.bad("construction", C + " ending_times", "no ending times are given", e.where)
        return
    if v.op == "ite" and v.args[0] is mk("is", sym("events_table"), NONE):
        v = v.args[1]
    m = mapped(it, r.st, v, e)
    if m is None or src_of(ctx, f, m[1]) is None:
        ctx.und("construction", C + " ending_times", str(v)[:160])
        return
    ctx.check(src_of(ctx, f, m[1]) == START, "construction", C + " ending_times", "ending times are looked up from %s" % src_of(ctx, f, m[1]), e.where)
    ch, base = stores(m[0])
    srcs = {x.args[0] for k, _ in list(ch) + (stores(it.phis[base].back)[0] if base is not None and base.op == "phi" else []) for x in subterms(norm(k)) if x.op == "idx" and x.args[0].op in ("sym", "call", "sortedof")}
    for x in srcs:
        s = str(x.args[0]).rsplit(".", 1)[-1] if x.op == "call" else x.op
        if s in ("sym", "array", "asarray", "list") and (x if x.op == "sym" else x.args[1][0]) is sym(START):
            ctx.bad("construction", C + " times in order", "an event is taken to last until the next one in the list given, whatever its time", e.where)
    cells = list(ch)
    if base is not None and base.op == "phi":
        i = it.phis[base]
        b, _ = stores(i.back)
        cells += b
        loop = i.loop
    for k, x in cells:
        k, x = norm(k), norm(x)
        ok = None
        lab = "last"
        if k.op == "idx" and not T.is_const(k.args[1]):
            lab = "each"
            if x.op == "idx" and x.args[0] is k.args[0]:
                d = T.sub(x.args[1], k.args[1])
                ok = T.cval(d) == 1 if T.is_const(d) else None
            elif T.is_const(T.sub(x, k)):
                ok = False
        elif k.op == "idx" and T.cval(k.args[1]) == -1:
            d = T.sub(x, k)
            ok = (T.cval(d) > 0) if T.is_const(d) else None
        ctx.tri(ok, "construction", "%s ending_times %s" % (C, lab), "an event at %s lasts until %s" % (k, x), e.where, "%s %s" % (k, x))


# ------------------------------------------------------------------ time grid
def grid_rows(ctx, f):
    it, r = interp(ctx.prog, f, stop=set())
    ctx.saw(it)
    C = f.qual
    n = mk("idx", mk("attr", fld("events_table"), "shape"), const(0))
    n2 = mk("call", "len", (fld("events_table"),), (), None)

    def block(k, loc):
        if k.op != "slice" or k.args[2] is not NONE:
            return None
        a, z = T.strip(k.args[0]), T.strip(k.args[1])
        z1 = T.add(z, const(1)) if loc and z is not NONE else z
        first = a is NONE or (T.is_const(a) and T.cval(a) == 0)
        if first and (z1 is n or z1 is n2):
            return "first"
        if (a is n or a is n2) and (z is NONE):
            return "second"
        off = [T.sub(x, m) for x, m in itertools.product((z1,) if first and z1 is not NONE else (), (n, n2))] + \
              [T.sub(a, m) for m in (n, n2) if z is NONE and a is not NONE]
        off = [T.cval(x) for x in off if T.is_const(x)]
        if off:
            wrong.append("%s by %s" % ("first" if first else "second", off[0]))
        return "?"
    wrong = []
    times, starts, dflt = {}, {}, None
    for e in it.events:
        if e.kind != "setitem":
            continue
        b, k, v = e.d["base"], e.d["key"], e.d["value"]
        if b.op == "attr" and b.args[1] in ("iloc", "loc") and k.op == "tuple":
            bl = block(k.args[0], b.args[1] == "loc")
            cols = listed(it, r.st, v.args[1]) if v.op in ("idx", "select") and v.args[1].op == "obj" else None
            if cols is not None and cols.op == "seq":
                cs = [T.cval(x) for x in cols.args if T.is_const(x)]
                tc = [c for c in cs if c in (START, END)]
                if len(tc) == 1:
                    times[bl] = (tc[0], e)
                    tgt = listed(it, r.st, k.args[1])
                    if len(cs) == 2 and set(cs) <= {START, END, SRC, TGT}:
                        ctx.bad("time-grid", "%s %s ids" % (C, bl), "rows of the grid are numbered by %s, not by the event" % [x for x in cs if x != tc[0]][0], e.where)
                    if "index" in cs and tgt is not None and tgt.op == "seq" and len(tgt.args) == len(cs):
                        order = dict(zip(cs, [T.cval(x) for x in tgt.args]))
                        ctx.tri(order[tc[0]] in (0, "times") and order["index"] in (1, "id"), "time-grid", "%s %s columns" % (C, bl), "times and ids are written to columns %s" % order, e.where)
            elif T.is_const(k.args[1]) and T.cval(k.args[1]) == "is_start" and T.is_const(v):
                starts[bl] = (bool(T.cval(v)), e)
        elif T.is_const(k) and T.cval(k) == "is_start" and T.is_const(v):
            dflt = (bool(T.cval(v)), e)
            starts.clear()
    replay_order(ctx, it, r, f, C)
    grid_times(ctx, it, r, f, C)
    if wrong:
        ctx.bad("time-grid", C + " halves", "the half of the grid written to is off: %s" % wrong[0], f.where)
        return
    if set(times) != {"first", "second"} or "?" in starts or (dflt is None and len(starts) < 2):
        bad = [v[0] for v in times.values()]
        if len(times) == 2 and len(set(bad)) == 1 and "?" not in times:
            ctx.bad("time-grid", C, "both halves of the grid hold %s" % bad[0], f.where)
        else:
            ctx.und("time-grid", C, "layout of the grid not recognised: %s %s" % (sorted(map(str, times)), sorted(map(str, starts))))
        return
    for bl, (c, e) in times.items():
        s = starts.get(bl, dflt)[0] if starts.get(bl, dflt) else None
        ctx.tri(None if s is None else s == (c == START), "time-grid", "%s %s half" % (C, bl), "%s are marked is_start=%s" % (c, s), e.where)
    ctx.check({c for c, _ in times.values()} == {START, END}, "time-grid", C + " both", "both halves of the grid hold the same times", f.where)


def grid_times(ctx, it, r, f, C):
    """the times of the network are all the times of the grid, as they are"""
    v = next((v for (o, a), v in r.st.heap.items() if a == "times" and T.strip(o) is SELF), None)
    if v is None:
        ctx.und("time-grid", C + " times", "times not recorded")
        return
    t, odd = T.strip(v), None
    while True:
        if t.op == "call" and str(t.args[0]).rsplit(".", 1)[-1] in ("unique", "sort_values", "sort", "sorted", "to_numpy", "copy", "asarray", "array", "Index", "drop_duplicates", "get_level_values", "astype", "tolist", "to_numeric") and t.args[1]:
            if t.args[0] == ".astype" and "int" in str(t.args[1:]):
                odd = odd or "cut to whole numbers"
            t = T.strip(t.args[1][0])
        elif t.op == "call" and str(t.args[0]).rsplit(".", 1)[-1] in ("round", "floor", "ceil", "rint", "around", "trunc") and t.args[1]:
            odd = odd or "rounded"
            t = T.strip(t.args[1][0])
        elif t.op in ("idx", "select") and t.args[1].op == "slice" and not all(x is NONE for x in t.args[1].args):
            odd = odd or "cut by %s" % t.args[1]
            t = T.strip(t.args[0])
        elif t.op == "attr" and t.args[1] in ("values", "index", "levels", "T"):
            t = T.strip(t.args[0])
        elif t.op in ("idx", "select") and T.is_const(t.args[1]) and T.cval(t.args[1]) == 0 and t.args[0].op == "attr" and t.args[0].args[1] == "levels":
            t = T.strip(t.args[0].args[0])
        else:
            break
    src = "time_grid" in str(t) or "events_table" in str(t) or "set_index" in str(t)
    ctx.tri(False if odd else (True if src else None), "time-grid", C + " times", "the times of the grid are %s" % odd, f.where, str(v)[:160])


def replay_order(ctx, it, r, f, C):
    """rows of the same time are replayed in the order in which the contacts began: an end comes before the start of the next contact"""
    def column(t):
        t = T.strip(t)
        q = col(t, ("times", "id", "is_start"))
        if q:
            return q[1]
        if t.op == "call" and str(t.args[0]).rsplit(".", 1)[-1] in ("tile", "concatenate", "append", "hstack", "concat", "repeat", "r_"):
            cs = [col(y, (START, END)) for y in subterms(t) if col(y, (START, END))]
            c = listed(it, r.st, t.args[1][0])
            cs += [col(y, (START, END)) for y in subterms(c) if col(y, (START, END))] if c is not None else []
            return START if cs and all(x[1] == START for x in cs) else None
        return None
    for e in it.events:
        if e.kind == "call" and str(e.d["fn"]).endswith("lexsort") and e.d["args"]:
            k = T.strip(e.d["args"][0])
            ks = list(k.args) if k.op == "tuple" else None
            if ks is None:
                c = listed(it, r.st, k)
                ks = list(c.args) if c is not None and c.op == "seq" else None
            if not ks:
                ctx.und("time-grid", C + " order", str(k)[:160])
                continue
            cs = [column(x) for x in reversed(ks)]
            bad = (cs[0] is not None and cs[0] != "times") or (None not in cs and cs[1:2] != [START])
            ctx.tri(False if bad else (True if cs[:2] == ["times", START] else None), "time-grid", C + " order", "rows are sorted by %s" % cs, e.where, str(cs))
        elif e.kind in ("call", "mutate") and str(e.d.get("fn") or e.d.get("how")) == ".sort_values":
            kw = dict(e.d.get("kwargs") or {})
            a = list(e.d["args"])
            by = kw.get("by") or (a[1] if e.kind == "call" and len(a) > 1 else a[0] if e.kind == "mutate" and a else None)
            c = listed(it, r.st, T.strip(by)) if by is not None else None
            cs = [T.cval(x) for x in c.args if T.is_const(x)] if c is not None and c.op == "seq" else None
            if cs and cs[0] == "times" and set(cs) <= {"times", "id"}:
                ctx.bad("time-grid", C + " order", "an end and the start of another contact at the same time are replayed by number", e.where)


# ------------------------------------------------------------------ static adjacency
def static_adj(ctx, f):
    it, r = interp(ctx.prog, f)
    ctx.saw(it)
    C = f.qual
    v = r.value
    p = T.poly(v)
    ms = [m[0] for m in p if len(m) == 1]
    plain = [m for m in ms if m.op == "call"]
    tr = [m for m in ms if (m.op == "attr" and m.args[1] == "T") or (m.op == "call" and m.args[0] == ".transpose")]
    plain = [m for m in plain if m not in tr]
    if len(plain) != 1:
        ctx.und("static", C, str(v)[:160])
        return
    M = plain[0]
    sy = len(tr) == 1 and (tr[0].args[0] if tr[0].op == "attr" else tr[0].args[1][0]) is M and all(c == 1 for c in p.values())
    ctx.tri(True if sy else (False if len(p) == 1 else None), "static", C + " symmetric", "the adjacency matrix is %s" % v, f.where, str(v)[:160])
    a = M.args[1][0] if M.args[1] else None
    if not (str(M.args[0]).endswith("_matrix") and a is not None and a.op == "tuple" and len(a.args) == 2 and a.args[1].op == "tuple"):
        ctx.und("static", C + " entries", str(M)[:160])
        return
    data, (rows, cols) = a.args[0], a.args[1].args
    get = {}
    for n, o in (("data", data), ("rows", rows), ("cols", cols)):
        c = listed(it, r.st, o)
        if c is not None and c.op == "phi" and it.phis[c].back.op == "append":
            get[n] = (norm(it.phis[c].back.args[1]), it.phis[c].loop)
    if len(get) != 3:
        ctx.und("static", C + " entries", "entries not recognised")
        return
    ends = {(col(get[n][0]) or (None, None))[1] for n in ("rows", "cols")}
    ctx.tri(None if None in ends else ends == {SRC, TGT}, "static", C + " ends", "entries are placed at %s" % ends, f.where)
    overlap(ctx, it, r, f, C, data)


def bound(t):
    """a time taken from the whole table (rows come in any order): its least / first start, its greatest / last end"""
    if t.op in ("idx", "select") and t.args[0].op == "attr" and t.args[0].args[1] in ("iloc", "values") and T.is_const(t.args[1]):
        q, k = col(t.args[0].args[0], (START, END)), T.cval(t.args[1])
        if q and q[1] == START and k == 0:
            return "first"
        if q and q[1] == END and k == -1:
            return "last"
    if t.op == "call" and str(t.args[0]).rsplit(".", 1)[-1] in ("min", "max", "amin", "amax") and len(t.args[1]) == 1:
        q = col(t.args[1][0], (START, END))
        lo = str(t.args[0]).endswith("min")
        if q and (q[1] == START) == lo:
            return "least" if lo else "greatest"
    return None


def overlap(ctx, it, r, f, C, data):
    """what a contact contributes, for every order of its start and end and of the start and end of the period"""
    lab = C + " overlap"
    c = listed(it, r.st, data)
    ph = it.phis.get(c)
    if ph is None or ph.back is None:
        ctx.und("static", lab, "entries not recognised")
        return
    rows = T.unver(T.strip(it.loopinfo[ph.loop]["iter"])) if ph.loop in it.loopinfo and it.loopinfo[ph.loop].get("iter") is not None else None
    mask = None
    if rows is not None and rows.op == "call" and str(rows.args[0]) in (".itertuples", ".iterrows") and rows.args[1]:
        t = T.unver(T.strip(rows.args[1][0]))
        while t.op in ("idx", "select") or t.op == "attr" and t.args[1] in ("loc",) or t.op == "call" and str(t.args[0]) in (".query", ".copy"):
            if t.op in ("idx", "select") and T.unver(T.strip(t.args[1])).op not in ("seq", "list", "tuple", "obj", "const"):
                mask = t.args[1] if mask is None else mk("and", mask, t.args[1])
            if t.op == "call" and str(t.args[0]) == ".query":
                ctx.und("static", lab, str(t)[:100])
                return
            t = T.unver(T.strip(t.args[0] if t.op != "call" else t.args[1][0]))
    st_, en_ = (sym(x) if x in f.params() else None for x in ("start_time", "end_time"))
    if st_ is None or en_ is None:
        ctx.und("static", lab, "period not recognised")
        return
    bad = None
    n = 0
    for given in ((True, True), (False, True), (True, False), (False, False)):
        lo, hi = 0.0, 7.0                     # the network's own start and end
        for a in range(1, 6) if given[0] else (lo,):
            for b in range(1, 7) if given[1] else (hi,):
                if a >= b:
                    continue
                for s in range(0, 7):
                    for e in range(s + 1, 8):
                        def leaf(t, s=s, e=e, a=a, b=b):
                            if t.op == "attr" and t.args[1] == "values":
                                return None
                            q = col(t, (START, END))
                            if q:
                                return float(s if q[1] == START else e)
                            if t is st_:
                                return float(a)
                            if t is en_:
                                return float(b)
                            if t.op == "attr" and t.args[1] == "start_time":
                                return lo
                            if t.op == "attr" and t.args[1] == "end_time":
                                return hi
                            k = bound(t)
                            if k is not None:
                                return {"least": lo, "first": lo + 1, "greatest": hi, "last": hi - 1}[k]
                            if t.op == "is" and T.NONE in t.args:
                                return (not given[0]) if st_ in t.args else (not given[1]) if en_ in t.args else None
                            return None
                        try:
                            if mask is not None and not num(mask, leaf):
                                got = 0.0
                            else:
                                back, d = ph.back, 0
                                while back.op == "ite" and d < 8:
                                    back, d = (back.args[1] if num(back.args[0], leaf) else back.args[2]), d + 1
                                if back is c:
                                    got = 0.0
                                elif back.op == "append" and back.args[0] is c:
                                    got = num(back.args[1], leaf)
                                else:
                                    raise NotNumeric(str(back)[:80])
                        except NotNumeric as ex:
                            ctx.und("static", lab, str(ex)[:160])
                            return
                        n += 1
                        want = max(0.0, min(e, b) - max(s, a))
                        if got != want and bad is None:
                            bad = "a contact from %d to %d counts %g in the period from %g to %g, not %g" % (s, e, got, a, b, want)
    ctx.check(bad is None, "static", lab, bad, f.where)


# ------------------------------------------------------------------ merging
def merging(ctx, f):
    it, r = interp(ctx.prog, f)
    ctx.saw(it)
    C = f.qual
    derived(ctx, it, r, f, C)
    drop = [e for e in it.events if e.kind == "setitem" and e.d["value"] is FALSE and col(e.d["key"], ("Index",))]
    if not drop:
        ctx.und("merging", C, "no event is dropped in a recognised way")
        return
    for e in drop:
        ev2 = col(e.d["key"], ("Index",))[0]
        gs = [g for g in e.guards if g.op in ("lt", "le", "and") and any(col(x, (START, END)) for x in subterms(g))]
        conds = [x for g in gs for x in (g.args if g.op == "and" else (g,))]
        ok, ev1 = None, None
        for c in conds:
            if c.op in ("lt", "le"):
                a, b = col(c.args[0], (START, END)), col(c.args[1], (START, END))
                if a and b and a[0] is ev2 and b[0] is not ev2:
                    ev1 = b[0]
                    ok = (a[1], b[1]) == (START, END)
                elif a and b and b[0] is ev2 and a[0] is not ev2 and (a[1], b[1]) == (START, END):
                    # the earlier one is dropped: it must not be the one that is prolonged
                    for u in it.events:
                        if u.kind == "setitem" and u.d["key"].op == "tuple" and len(u.d["key"].args) == 2 and T.is_const(u.d["key"].args[1]) and T.cval(u.d["key"].args[1]) == END:
                            who = col(unreplace(u.d["key"].args[0]), ("Index",))
                            if who and who[0] is ev2:
                                ok = False
        ctx.tri(ok if conds else False, "merging", C + " only overlapping", "an event is dropped when %s" % [str(c)[:80] for c in conds], e.where, str(e.guards[-1])[:160])
        if ev1 is None:
            continue
        more = [c for c in conds if (c.op == "eq" or c.op == "not" and c.args[0].op == "eq") and all((col(z, (SRC, TGT)) or (None,))[0] in (ev1, ev2) for z in (c if c.op == "eq" else c.args[0]).args)]
        more += [g for g in e.guards if g not in gs and g.op in ("eq", "not") and all((col(z, (SRC, TGT)) or (None,))[0] in (ev1, ev2) for z in (g if g.op == "eq" else g.args[0]).args)]
        ctx.check(not more, "merging", C + " all overlapping", "overlapping events are merged only if %s" % (more and more[0]), e.where)
        for y in subterms(e.d["key"]):
            if y.op == "call" and str(y.args[0]) == ".sort_values":
                by = dict(y.args[2]).get("by") or (y.args[1][1] if len(y.args[1]) > 1 else None)
                if by is not None:
                    by = T.unver(T.strip(by))
                    c = by.args[1] if by.op == "contents" else by
                    first = c.args[0] if c.op in ("seq", "tuple") and c.args else c
                    if T.is_const(first):
                        ctx.check(T.cval(first) == START, "merging", C + " order", "the events compared are sorted by %s: one that starts earlier is taken as later" % first, e.where)
        # the kept event ends when the later of the two does
        ups = [u for u in it.events if u.kind == "setitem" and u.d["key"].op == "tuple" and len(u.d["key"].args) == 2 and
               T.is_const(u.d["key"].args[1]) and T.cval(u.d["key"].args[1]) == END]
        if not ups:
            ctx.bad("merging", C + " union", "the event that is kept is not prolonged", e.where)
        for u in ups:
            k = unreplace(u.d["key"].args[0])
            who = col(k, ("Index",))
            ctx.tri(True if who and who[0] is ev1 else (False if who and who[0] is ev2 else None), "merging", C + " kept event", "the prolonged event is %s" % k, u.where, str(k)[:120])
            val = unreplace(u.d["value"])
            ctx.tri(is_max(val, ev1, ev2), "merging", C + " union", "the kept event ends at %s" % val, u.where, str(val)[:160])
        # what later events are compared with
        if ev1.op == "phi" and ev1 in it.phis:
            back = it.phis[ev1].back
            for cs, l in (T.cases(back, limit=8) or []):
                hit = any(x is conds[0] for c in cs for x in (c.args if c.op == "and" else (c,))) if conds else None
                x = unreplace(mk("attr", l, END))
                ea, eb = mk("attr", ev1, END), mk("attr", ev2, END)
                more = [c for c in cs if c.op in ("lt", "le") and set(c.args) == {ea, eb}]
                if hit and more and x in (ea, eb):
                    ctx.check(x is more[0].args[1], "merging", C + " next comparison after a merge", "the following event is compared with the earlier end %s" % x, e.where)
                elif hit:
                    ctx.tri(is_max(x, ev1, ev2), "merging", C + " next comparison after a merge", "the following event is compared with an end of %s" % x, e.where, str(x)[:160])
                else:
                    ctx.tri(True if l is ev2 else (False if l is ev1 else None), "merging", C + " next comparison otherwise", "the following event is compared with %s" % l, e.where, str(l)[:160])
        chosen(ctx, it, r, ev2, C, e)
    # rows are selected with the marks
    for e in it.events:
        if e.kind == "setattr" and e.d["name"] == "events_table":
            v = T.unver(e.d["value"])
            if v.op in ("idx", "select"):
                m = v.args[1]
                marks = {T.unver(d.d["base"]) for d in drop}
                ctx.tri(True if m in marks else (False if m.op in ("invert", "not") and m.args[0] in marks else None), "merging", C + " dropped rows", "the rows %s are kept" % m, e.where, str(m)[:120])


def chosen(ctx, it, r, ev, C, e):
    """the contacts compared are all those between the two nodes, in either direction, of a table numbered from 0"""
    loc = [x for x in subterms(e.d["key"]) if x.op in ("idx", "select") and x.args[1].op != "elem" and any(y.op in ("eq",) and any(col(z, (SRC, TGT)) or (z.op == "attr" and col(z.args[0], (SRC, TGT))) for z in y.args) for y in subterms(x.args[1]))]
    if not loc:
        ctx.und("merging", C + " contacts compared", str(ev)[:160])
        return
    x = min(loc, key=lambda t: len(list(subterms(t))))
    m = T.unver(x.args[1])
    nodes = []

    def ev_(t, src, tgt):
        t = T.unver(t)
        if t.op == "eq":
            for a, b in (t.args, t.args[::-1]):
                a = a.args[0] if a.op == "attr" and a.args[1] == "values" else a
                q = col(a, (SRC, TGT))
                if q:
                    if b not in nodes:
                        nodes.append(b)
                    return (src if q[1] == SRC else tgt) == nodes.index(b)
            raise Unknown(str(t))
        nm = str(t.args[0]).rsplit(".", 1)[-1] if t.op == "call" else t.op
        xs = t.args[1] if t.op == "call" else t.args
        if nm in ("logical_or", "bitor", "or", "bitwise_or"):
            return any([ev_(y, src, tgt) for y in xs])
        if nm in ("logical_and", "bitand", "and", "bitwise_and"):
            return all([ev_(y, src, tgt) for y in xs])
        if nm in ("logical_not", "invert", "not"):
            return not ev_(xs[0], src, tgt)
        raise Unknown(str(t))
    try:
        ev_(m, 0, 0)
        got = {(a, b): ev_(m, a, b) for a in range(3) for b in range(3)}
        if len(nodes) != 2:
            raise Unknown("%d nodes" % len(nodes))
    except Unknown as ex:
        ctx.und("merging", C + " contacts compared", str(ex)[:160])
        return
    want = {k: k in ((0, 1), (1, 0)) for k in got}
    diff = sorted(k for k in got if got[k] != want[k] and k[0] != k[1])
    ctx.check(not diff, "merging", C + " contacts compared", "contacts between two nodes are compared %s" % ("in one direction only" if not any(got[k] for k in diff) else "with others"), e.where)
    tab = x.args[0]
    if tab.op == "phi" and isinstance(tab.args[1], tuple) and tab.args[1][0] == "h":
        tab = T.unver(tab.args[1][1])
    reset = any(y.op == "call" and y.args[0] == ".reset_index" for y in subterms(tab))
    base = T.unver(tab.args[0]) if tab.op == "attr" and tab.args[1] in ("loc", "iloc") else None
    key = e.d["key"]
    if base is fld("events_table") and key.op == "attr":
        # an array with one mark per row is indexed with the row's label
        ctx.bad("merging", C + " row marks", "rows are marked by their label although the table need not be numbered from 0", e.where)
    elif reset:
        ctx.ok("merging", C + " row marks")


def unreplace(t):
    """x._replace(f=v).f -> v; x._replace(f=v).g -> x.g"""
    def g(y):
        if y.op == "attr" and y.args[0].op == "call" and y.args[0].args[0] == "._replace":
            kw = dict(y.args[0].args[2])
            if y.args[1] in kw:
                return kw[y.args[1]]
            return g(mk("attr", y.args[0].args[1][0], y.args[1]))
        return y
    return rebuild(t, g)


def is_max(v, a, b):
    ea, eb = mk("attr", a, END), mk("attr", b, END)
    if v.op == "call" and str(v.args[0]).rsplit(".", 1)[-1] in ("max", "maximum") and len(v.args[1]) == 2:
        return True if set(v.args[1]) == {ea, eb} else None
    if v.op == "ite":
        c = v.args[0]
        if c.op in ("lt", "le") and set(c.args) == {ea, eb}:
            return v.args[1] is c.args[1] and v.args[2] is c.args[0]
        return None
    if v is ea or v is eb:
        return False
    if v.op == "call" and v.args[0] == "min":
        return False
    return None
