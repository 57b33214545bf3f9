"""How often can a loop body start?  Bounds of the form  cap + k."""
from __future__ import annotations
from . import terms as T
from .terms import const, mk
from . import lin


def _cv(t):
    try:
        v = T.cval(t) if T.is_const(t) else None
        return v if isinstance(v, (int, float)) and not isinstance(v, bool) else None
    except Exception:
        return None


def step(it, phi):
    """(init constant, minimal step) of a counter: every trip adds at least step; None if not a counter"""
    i = it.phis.get(phi)
    if i is None or i.init is None or i.back is None:
        return None
    lo = _cv(T.strip(i.init))
    if lo is None:
        return None
    m = None
    for cs, leaf in T.cases(T.strip(i.back), limit=128) or [((), None)]:
        if leaf is None:
            return None
        d = _cv(T.sub(leaf, phi))
        if d is None:
            return None
        m = d if m is None else min(m, d)
    return lo, m


def conj(c):
    c = T.strip(c)
    if c.op == "and":
        return [x for a in c.args for x in conj(a)]
    if c.op == "not" and c.args[0].op == "or":
        return [x for a in c.args[0].args for x in conj(T.not_(a))]
    return [c]


def trips(it, key, cap):
    """bound on the number of trips of loop `key` in terms of cap:
    ("bound", k): at most cap + k;  ("free", why): no bound by cap exists;  ("?", why)"""
    li = it.loopinfo.get(key)
    if li is None:
        return ("?", "loop not analysed")
    if li["iter"] is not None:
        d = T.strip(li["iter"])
        if d.op == "call" and str(d.args[0]) in ("range", "numpy.arange"):
            a = d.args[1]
            lo, hi = (const(0), a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) < 3:
                k = _cv(T.sub(T.sub(hi, lo), cap))
                if k is not None:
                    return ("bound", k)
                if cap not in T.subterms(T.sub(hi, lo)):
                    if d.args[1] and all(_cv(x) is not None for x in a):
                        return ("free", "the number of passes is fixed: %s" % d)
                    return ("free", "the passes are counted by %s" % d)
            return ("?", str(d))
        return _breaks(it, li, cap, "for over %s" % d)
    c = li.get("cond")
    if c is None:
        return ("?", "no condition")
    best = None
    unk = []
    for x in conj(c):
        r = _bound_by(it, key, x, cap)
        if r is None:
            continue
        if r[0] == "bound":
            best = r[1] if best is None else min(best, r[1])
        else:
            unk.append(r[1])
    if best is not None:
        return ("bound", best)
    b = _breaks(it, li, cap, None)
    if b is not None and b[0] == "bound":
        return b
    if unk:
        return ("?", "; ".join(unk))
    if b is not None and b[0] == "?":
        return b
    if any(x.op not in ("lt", "le", "eq", "not", "phi", "const", "or") and not T.is_const(x) for x in conj(c)):
        bad = [x for x in conj(c) if x.op not in ("lt", "le", "eq", "not", "phi", "or") and not T.is_const(x)]
        if any(cap in T.subterms(x, _ph(it)) for x in bad):
            return ("?", "condition %s" % "; ".join(map(str, bad)))
    # a flag carried around the loop may encode the cap
    for x in conj(c):
        if x.op in ("phi", "not") and cap in T.subterms(x, _ph(it)):
            return _flag(it, key, x, cap)
    return ("free", "the loop runs while `%s`: not limited by %s" % (c, cap))


def _ph(it):
    return lambda p: [z for z in (it.phis[p].init, it.phis[p].back) if z is not None] if p in it.phis else []


def _flag(it, key, x, cap):
    """loop continues while flag x; flag turned off when counter >= cap"""
    phi = x.args[0] if x.op == "not" else x
    i = it.phis.get(phi)
    if i is None or i.back is None:
        return ("?", "flag %s" % x)
    off = T.TRUE if x.op == "not" else T.FALSE
    # on the next head the flag must be off whenever counter (at the end of the trip) reached cap + c
    # collect the cases where the flag stays on
    best = None
    for cs, leaf in T.cases(T.strip(i.back), limit=128) or []:
        if leaf is off:
            continue
        if leaf is not phi and leaf is not T.not_(off) and leaf.op != "phi":
            # boolean expression: on means not leaf / leaf
            on = leaf if x.op != "not" else T.not_(leaf)
            conds = list(cs) + conj(on)
        else:
            conds = list(cs)
        ks = []
        for c in conds:
            for c2 in conj(c):
                r = _bound_by(it, key, c2, cap, end=True)
                if r and r[0] == "bound":
                    ks.append(r[1])
        if not ks:
            return ("free", "the loop goes on under `%s`: not limited by %s" % ("; ".join(map(str, conds)) or "no condition", cap))
        k = min(ks)
        best = k if best is None else max(best, k)
    return ("bound", best) if best is not None else ("?", "flag")


def _bound_by(it, key, x, cap, end=False):
    """x is a condition required to start (end: to go on after) a trip; what bound does it give?"""
    if x.op == "or":
        rs = []
        for d in x.args:
            best = None
            for c in conj(d):
                r = _bound_by(it, key, c, cap, end)
                if r and r[0] == "bound":
                    best = r if best is None or best[0] != "bound" else ("bound", min(best[1], r[1]))
                elif r and best is None:
                    best = r
            rs.append(best)
        if all(r and r[0] == "bound" for r in rs):
            return ("bound", max(r[1] for r in rs))
        if any(r is None and cap not in T.subterms(d, _ph(it)) for r, d in zip(rs, x.args)):
            return None          # one alternative ignores the cap
        return ("?", "condition %s" % x)
    if x.op not in ("lt", "le", "eq", "not"):
        return None
    if x.op == "not":
        y = x.args[0]
        if y.op == "eq" and cap in y.args:
            z = y.args[0] if y.args[1] is cap else y.args[1]
            s = step(it, z)
            if s and s[1] == 1 and it.phis[z].loop == key:
                # counts by one up to equality
                back = it.phis[z].back
                return ("bound", -s[0])
        return None
    if x.op == "eq":
        return None
    d = T.sub(x.args[0], x.args[1])        # d < 0  or d <= 0
    p = T.poly(d)
    cc = p.get((cap,))
    if cc is None:
        if cap in T.subterms(d):
            return ("?", "condition %s" % x)
        return None
    if cc != -1:
        return None
    rest = T.add(d, cap)                   # rest < cap / rest <= cap
    phis = [m[0] for m in p if len(m) == 1 and m[0].op == "phi" and m[0] in it.phis and it.phis[m[0]].loop == key]
    if len(phis) != 1 or p[(phis[0],)] != 1:
        return ("?", "condition %s" % x)
    ph = phis[0]
    off = _cv(T.sub(rest, ph))
    s = step(it, ph)
    if off is None or s is None:
        return ("?", "counter %s" % ph)
    lo, inc = s
    if inc <= 0:
        return ("free", "the counter does not grow on every trip") if inc == 0 else ("?", "counter")
    # trip number n (from 0) starts with ph >= lo + n*inc ; inc >= 1
    # condition: ph + off < cap (or <=) -> n < cap - lo - off (or <=)
    k = -lo - off + (0 if x.op == "lt" else 1)
    if end:
        # evaluated with the head value of the trip that just ran: one more trip may start
        k += 1
    return ("bound", k)


def _breaks(it, li, cap, what):
    """while True / unbounded for with breaks: continuing needs the negation of the break condition"""
    gs = li.get("break_guards") or []
    key = None
    for k, v in it.loopinfo.items():
        if v is li:
            key = k
    best = None
    unk = None
    for g in gs:
        g = [T.strip(c) for c in g if c.op != "iter"]
        if len(g) == 1:
            for x in conj(T.not_(g[0])):
                r = _bound_by(it, key, x, cap, end=True)
                if r and r[0] == "bound":
                    best = r[1] if best is None else min(best, r[1])
                elif r:
                    unk = r[1]
        elif any(cap in T.subterms(c) for c in g):
            unk = "break under %s" % "; ".join(map(str, g))
    if best is not None:
        return ("bound", best)
    if unk:
        return ("?", unk)
    return None if what is None else ("?", what)
