"""P28 the analysis reports truthfully what is missing and what comes next."""
from __future__ import annotations
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms
from .. import terms as T
from ..engine import _mapkeys
from .iolib import run as drive
from . import statelib as L

MIN_OBLIGATIONS = 60
RULE = """
The state tracking is interpreted over the members that the class registers
(their bodies replaced by markers).  In every situation (stage, settings given)
the list of missing settings and the next step that it reports are compared
with the registrations; the texts kept per member must be the documentation of
that member.  The help of the analysis object is interpreted over arbitrary
reports: what it prints must contain the reported settings, step and texts.
"""


def run(ctx):
    prog = ctx.prog
    for cls, enum in L.state_classes(prog):
        with ctx.guard("report", cls.name):
            reports(ctx, cls, enum)
        if cls.find("help") is not None:
            with ctx.guard("help", cls.name):
                helptext(ctx, cls)


def reports(ctx, cls, enum):
    m = L.Machine(ctx.prog, cls, enum)
    ctx.saw(m.it)
    sc = ctx.prog.cls("State")
    where = (sc.find_prop("next")["get"] if sc is not None and sc.find_prop("next") else m.mc.methods["register"]).where
    for s in m.stages:
        # the step to run: the one that needs the furthest stage reached
        lows = [lo for lo, hi in m.steps.values() if lo is not None and lo <= s]
        best = [n for n, (lo, hi) in m.steps.items() if lows and lo == max(lows)]
        for fl, flags in m.flagsets():
            st = m.situation(s, flags)
            lab = "%s at stage %s, %s" % (cls.name, s, fl)
            want = [p for p in m.required(s) if not flags[p]]
            got = m.value(m.attr("missing_parameters", st), st)
            if not isinstance(got, list) or "?" in got:
                ctx.und("report", lab + " missing", str(got))
            else:
                ctx.check(sorted(got) == sorted(want), "report", lab + " missing", "%s are reported missing, expected %s" % (got, want), where)
            st = m.situation(s, flags)
            nx = m.attr("next", st)
            if nx.op != "tuple" or len(nx.args) != 2:
                ctx.und("report", lab + " next", str(nx))
                continue
            g2, step = m.value(nx.args[0], st), m.value(nx.args[1], st)
            if not isinstance(g2, list) or "?" in g2 or step == "?":
                ctx.und("report", lab + " next", str(nx))
                continue
            ctx.check(sorted(g2) == sorted(want), "report", lab + " settings to give", "%s are named, expected %s" % (g2, want), where)
            ctx.check(step in best if best else step in (None, []), "report", lab + " step to run", "%s is named, expected %s" % (step, best), where)
    # which steps lead to a stage
    tab = m.table(m.attr("methods_required"))
    for s in m.stages:
        want = [n for n, (lo, hi) in m.steps.items() if hi is not None and hi <= s]
        got = None if tab is None else tab.get(s, [])
        lab = "%s stage %s steps before" % (cls.name, s)
        if not isinstance(got, list) or "?" in got:
            ctx.und("report", lab, str(got))
        else:
            ctx.check(sorted(got) == sorted(want), "report", lab, "%s, expected %s" % (got, want), where)
    # texts
    for kind in ("info", "howto"):
        t = m.attr(kind)
        ks = _mapkeys(T.unver(m.it._contents(t, m.st)))
        if ks is None:
            ctx.und("texts", "%s %s" % (cls.name, kind), "not followed")
            continue
        d = {T.cval(k): v for k, v in ks}
        for name in list(m.props) + list(m.steps):
            lab = "%s %s of %s" % (cls.name, kind, name)
            if name not in d:
                ctx.bad("texts", lab, "there is no text", where)
                continue
            me = m.member(name)
            docs = [x.args[0] for x in subterms(T.unver(d[name])) if x.op == "attr" and x.args[1] == "__doc__"]
            mine = [me]
            if name in m.props and me.op == "call":
                mine += list(me.args[1]) + [v for _, v in me.args[2]]
            if not docs:
                ctx.tri(False if T.is_const(d[name]) else None, "texts", lab, "the text is %s" % d[name], where, str(d[name]))
            else:
                others = {}
                for n2 in list(m.props) + list(m.steps):
                    if n2 != name:
                        x = m.member(n2)
                        others[x] = n2
                        if x.op == "call":
                            for y in x.args[1]:
                                others[y] = n2
                docs = [T.unver(x) for x in docs]
                if any(x in mine for x in docs) and any(x in others for x in docs):
                    ctx.und("texts", lab, str(docs))
                elif kind == "howto" and name in m.props and me.op == "call" and len(me.args[1]) > 1 and me.args[1][1] not in docs and any(x in mine for x in docs):
                    ctx.bad("texts", lab, "the text does not say how to set it, it is that of reading it", where)
                elif any(x in mine for x in docs):
                    ctx.ok("texts", lab)
                else:
                    ctx.tri(False if any(x in others for x in docs) else None, "texts", lab, "the text is that of %s" % [others.get(x) for x in docs], where, str(docs))


def printed(it):
    return [e for e in it.events if e.kind == "call" and str(e.d["fn"]) in ("print", ".write") or (e.kind == "call" and str(e.d["fn"]).endswith("stdout.write"))]


def has(t, sub, it):
    return any(sub(x) for x in subterms(T.unver(t), it.phi_in))


def helptext(ctx, cls):
    prog = ctx.prog
    f = cls.find("help")
    for body, lab in (("self.help()", "without subject"), ("self.help(verbose=True)", "verbose")):
        for miss in (True, False):
            for nxt in (True, False):
                P, M = mk("idx", mk("attr", mk("attr", sym("self"), "state"), "next"), const(0)), mk("idx", mk("attr", mk("attr", sym("self"), "state"), "next"), const(1))
                facts = [P if miss else not_(P), M if nxt else not_(M)]
                it, r = drive(prog, "def driver(self):\n    %s\n" % body, cls.module.name, cls, stop=set(), facts=facts)
                ctx.saw(it)
                L2 = "%s.help %s, %s missing, %s" % (cls.name, lab, "settings" if miss else "nothing", "a step to run" if nxt else "no step")
                ev = printed(it)
                if not ev:
                    ctx.bad("help", L2, "nothing is printed", f.where)
                    continue
                if not any(x.op == "attr" and x.args[1] == "next" for e in it.events for a in list(e.d.get("args") or ()) + list(e.guards) for x in subterms(T.unver(a), it.phi_in)):
                    ctx.und("help", L2, "state.next not used")
                    continue
                for what, term, want in (("settings", P, miss), ("step", M, nxt)):
                    inside = any(has(a, lambda x: x is term, it) for e in ev for a in e.d["args"])
                    if want and inside and what == "settings" and not any(whole(T.unver(a), term, it) for e in ev for a in e.d["args"]):
                        ctx.bad("help", L2 + " " + what, "only part of the settings to be given is shown", f.where)
                    elif want:
                        ctx.check(inside, "help", L2 + " " + what, "the %s to be %s is not shown" % (what, "given" if what == "settings" else "run"), f.where)
                for e in ev:
                    gs = [g for g in e.guards if g not in facts]
                    ctx.tri(True if not gs else None, "help", L2 + " always", "", e.where, str(gs))
    I, H = mk("attr", mk("attr", sym("self"), "state"), "info"), mk("attr", mk("attr", sym("self"), "state"), "howto")
    it, r = drive(prog, "def driver(self, a):\n    self.help(a)\n", cls.module.name, cls, stop=set(), facts=[not_(mk("is", sym("a"), NONE))])
    ev = printed(it)
    for nm, tab in (("details", I), ("how to use", H)):
        lab = "%s.help subject, %s" % (cls.name, nm)
        if not ev:
            ctx.bad("help", lab, "nothing is printed", f.where)
            continue
        look = lambda x: (x.op == "call" and str(x.args[0]) == ".get" and len(x.args[1]) > 1 and x.args[1][0] is tab and x.args[1][1] is sym("a")) or \
            (x.op in ("idx", "select", "getor") and x.args[0] is tab and x.args[1] is sym("a"))
        good = [e for e in ev for a in e.d["args"] if shown(T.unver(a), look, it)]
        wrong = [x for e in ev for a in e.d["args"] for x in subterms(T.unver(a), it.phi_in)
                 if (x.op == "call" and str(x.args[0]) == ".get" and len(x.args[1]) > 1 and x.args[1][0] is tab and T.is_const(x.args[1][1]))
                 or (x.op in ("idx", "select", "getor") and x.args[0] is tab and T.is_const(x.args[1]))]
        if wrong:
            ctx.bad("help", lab, "the text of another member is shown: %s" % wrong[0], ev[0].where)
            continue
        any_ = any(has(a, lambda x: x is tab, it) for e in ev for a in e.d["args"])
        ctx.tri(True if good else (False if not any_ else None), "help", lab, "the text is not shown", ev[0].where, str(ev[0].d["args"])[:100])


def whole(t, term, it, seen=None):
    """term occurs other than by a fixed position or a slice of it"""
    seen = set() if seen is None else seen
    if t is term:
        return True
    if t in seen:
        return False
    seen.add(t)
    if t.op in ("idx", "select") and T.unver(t.args[0]) is term and (T.is_const(t.args[1]) or getattr(t.args[1], "op", "") in ("slice", "tuple")):
        return False
    if t.op == "phi":
        i = it.phis.get(t)
        return i is not None and any(whole(T.unver(x), term, it, seen) for x in (i.init, i.back, i.iter) if isinstance(x, T.Term))
    for a in t.args:
        for b in (a if isinstance(a, tuple) else (a,)):
            if isinstance(b, T.Term) and whole(T.unver(b), term, it, seen):
                return True
    return False


def shown(t, look, it):
    """some alternative of the text contains it, outside the conditions"""
    if look(t):
        return True
    if t.op == "ite":
        return shown(T.unver(t.args[1]), look, it) or shown(T.unver(t.args[2]), look, it)
    if t.op == "phi":
        i = it.phis.get(t)
        return i is not None and any(shown(T.unver(x), look, it) for x in (i.init, i.back) if x is not None and x is not t)
    for a in t.args:
        if isinstance(a, T.Term) and shown(a, look, it):
            return True
        if isinstance(a, tuple):
            for b in a:
                if isinstance(b, T.Term) and shown(b, look, it):
                    return True
    return False
