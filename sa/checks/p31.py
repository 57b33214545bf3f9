"""P31 similarity measures of partitions follow their definitions."""
from __future__ import annotations
from fractions import Fraction
from itertools import product
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms, rebuild
from .. import terms as T
from ..engine import Interp, State
from ..sums import Sums, NotSum
from ..fwd import static_bind, target

MIN_OBLIGATIONS = 25
RULE = """
The measures are interpreted over arbitrary partitions, per kind of argument
(list of sets, list of other collections, node-to-cluster dictionary, Partition)
and with and without the compiled kernels.  The accumulated value is brought
into a normal form of sums over clusters (or pairs of nodes), logarithms are
expanded, early exits of the scan must imply that nothing is left to count, and
the result is compared with the definition.  Averages: which pairs are taken,
how often, and what is evaluated for each of them.
"""
K1, K2 = sym("clusters1"), sym("clusters2")
NI, NJ, NIJ, NN = sym("%ni"), sym("%nj"), sym("%nij"), sym("%N")
LOGS = {"log2": 2, "log": None, "log10": 10, "log1p": 0}
USEC = "USE_CYTHON"


def run(ctx):
    prog = ctx.prog
    for name, rule in (("norm_var_information", nvi), ("norm_mutual_information", nmi), ("jaccard_distance", jaccard)):
        for f in prog.functions(name):
            with ctx.guard(name, f.qual):
                rule(ctx, f)
    for name in ("avg_norm_var_information", "compute_parallel_nvi"):
        for f in prog.functions(name):
            with ctx.guard("pairs", f.qual):
                pairs(ctx, f)


# ------------------------------------------------------------------ arguments
def facts(kinds):
    st = []
    for c, k in zip((K1, K2), kinds):
        for n in ("dict", "Partition", "list"):
            x = mk("isinst", c, n)
            want = (k == "dict") if n == "dict" else (k == "Partition") if n == "Partition" else k not in ("dict", "Partition")
            st.append(x if want else not_(x))
        if k in ("sets", "lists"):
            x = mk("isinst", mk("idx", c, const(0)), "set")
            st.append(x if k == "sets" else not_(x))
        if k == "Partition":
            st.append(mk("isinst", mk("idx", mk("attr", c, "cluster_list"), const(0)), "set"))
    return st


class P(Sums):
    """collections of clusters reduced to the argument they hold the clusters of"""
    def __init__(self, it, st, roots):
        super().__init__(it, st)
        self.roots = roots          # term -> sym
        self.filtered = {}
        self.dropped = set()        # copies without the empty clusters

    def col(self, t):
        for _ in range(12):
            t = super().col(t)
            r = self.roots.get(t) or self.roots.get(T.strip(t))
            if r is not None:
                return r
            if t.op == "contents" and t.args[0] in self.roots:
                return self.roots[t.args[0]]
            if t.op == "obj" and t in self.it.made:
                t = mk("contents", t, self.it.made[t])
                continue
            if t.op == "contents" and t.args[1].op == "phi":
                x = self._identity_copy(t.args[1])
                if x is not None and x is not t:
                    t = x
                    continue
            return t
        return t

    def _identity_copy(self, phi):
        i = self.it.phis.get(phi)
        if i is None or i.back is None or i.init is None or i.init.op != "seq" or i.init.args:
            return None
        b, cond = i.back, None
        if b.op == "ite":
            if b.args[2] is phi:
                cond, b = b.args[0], b.args[1]
            elif b.args[1] is phi:
                cond, b = not_(b.args[0]), b.args[2]
        if not (b.op == "append" and b.args[0] is phi):
            return None
        v = self.asset(b.args[1])
        li = self.it.loopinfo.get(i.loop)
        if li is None or li.get("breaks") or li["iter"] is None:
            return None
        d = self.dom(li["iter"])
        if v.op != "elem" or v.args[0] is not d:
            return None
        if cond is not None and not self.nonempty(cond, v):
            if d in (K1, K2):
                self.filtered[phi] = (d, cond)
            return None
        if cond is not None:
            self.dropped.add(phi)
        return d

    def no_empty(self, t):
        """the collection was copied without its empty clusters"""
        seen, todo = set(), [t]
        while todo:
            for x in subterms(todo.pop()):
                if x in self.dropped:
                    return True
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "obj" and x in self.it.made:
                    todo.append(self.it.made[x])
                i = self.it.phis.get(x)
                if i is not None and i.back is not None and isinstance(i.var, tuple) and i.var[0] == "h":
                    li = self.it.loopinfo.get(i.loop)
                    if li and li["iter"] is not None:
                        todo.append(li["iter"])
        return False

    def canon(self, t):
        if t in self.memo:
            return self.memo[t]
        m = {}
        for x in subterms(t):
            if x.op in ("idx", "select") and x.args[0].op == "phi":
                q = x.args[0]
                i = self.it.phis.get(q)
                if i is not None and isinstance(i.var, tuple) and i.var[0] == "h" and i.var[2] == "[]":
                    c = self.roots.get(i.var[1]) or self._identity_copy(q)
                    if c is not None:
                        m[x] = mk("idx", c, x.args[1])
        r = super().canon(T.subst(t, m) if m else t)
        self.memo[t] = r
        return r

    def asset(self, v):
        v = self.canon(v)
        for _ in range(6):
            if v.op == "obj" and v in self.it.made:
                v = self.canon(mk("contents", v, self.it.made[v]))
            elif v.op == "contents" and v.args[1].op in ("setof", "listof"):
                v = self.canon(v.args[1].args[0])
            elif v.op in ("setof",):
                v = self.canon(v.args[0])
            elif v.op == "call" and v.args[0] in ("set", "frozenset") and len(v.args[1]) == 1:
                v = self.canon(v.args[1][0])
            else:
                break
        return v

    def nonempty(self, c, e):
        """the condition holds exactly for the clusters with a node"""
        c = self.canon(c)
        n = mk("call", "len", (e,), (), None)
        if c is e or c is n or (c.op in ("bool", "truth") and c.args[0] in (e, n)):
            return True
        if c.op == "call" and c.args[0] in ("bool", "len") and self.asset(c.args[1][0]) in (e, n):
            return True
        r = rebuild(c, lambda x: const(1) if x is n or (x.op == "call" and x.args[0] == "len" and self.asset(x.args[1][0]) is e) else x)
        r0 = rebuild(c, lambda x: const(0) if x is n or (x.op == "call" and x.args[0] == "len" and self.asset(x.args[1][0]) is e) else x)
        return fold(r) is True and fold(r0) is False

    def _c(self, x):
        y = super()._c(x)
        if y.op == "call" and y.args[0] in ("set", "frozenset") and len(y.args[1]) == 1 and y.args[1][0].op == "elem":
            return y.args[1][0]
        return y


def fold(c):
    if c is TRUE or c is FALSE:
        return c is TRUE
    if c.op in ("lt", "le", "eq") and all(T.is_num(a) for a in c.args):
        a, b = (T.cval(z) for z in c.args)
        return a < b if c.op == "lt" else a <= b if c.op == "le" else a == b
    if c.op == "not":
        r = fold(c.args[0])
        return None if r is None else not r
    if c.op in ("and", "or"):
        rs = [fold(a) for a in c.args]
        if c.op == "and":
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    if T.is_num(c):
        return bool(T.cval(c))
    return None


def roots_of(ctx, it, r, kinds, C):
    """the collections that hold the clusters of each argument"""
    out = {}
    for c, k in zip((K1, K2), kinds):
        out[c] = c
        if k == "Partition":
            out[mk("attr", c, "cluster_list")] = c
        if k == "dict":
            got = from_dict(ctx, it, r, c, C)
            if got is not None:
                out[got] = c
                out[T.unver(got)] = c
    return out


def from_dict(ctx, it, r, c, C):
    """a list of sets, one per cluster number, in which every node is put under its own number"""
    el = mk("elem", c)
    hits = []
    for e in it.events:
        if e.kind == "mutate" and e.d["how"] in (".add", "add", ".append", ".update"):
            tgt, args = T.strip(e.d["target"]), e.d["args"]
            if tgt.op in ("idx", "select") and args:
                k, v = T.strip(tgt.args[1]), T.strip(args[-1])
                if any(x is c for x in subterms(k)) or any(x is c for x in subterms(v)):
                    hits.append((e, tgt.args[0], k, v))
    if not hits:
        oc = K2 if c is K1 else K1
        bases = {}
        for e in it.events:
            if e.kind == "mutate" and e.d["how"] in (".add", "add", ".append", ".update"):
                tgt = T.strip(e.d["target"])
                if tgt.op in ("idx", "select") and e.d["args"] and any(x is oc for x in subterms(T.strip(e.d["args"][-1]))):
                    b = tgt.args[0]
                    while b.op in ("contents", "at"):
                        b = b.args[0]
                    bases[it.phis[b].var[1] if b.op == "phi" and b in it.phis and isinstance(it.phis[b].var, tuple) and it.phis[b].var[0] == "h" else b] = e
        if len(bases) == 2:
            ctx.bad("argument", "%s %s nodes" % (C, c), "the clusters of %s are filled with the nodes of %s" % (c, oc), list(bases.values())[-1].where)
            return None
    if len(hits) != 1:
        ctx.und("argument", "%s %s" % (C, c), "conversion of a dictionary not recognised")
        return None
    e, base, k, v = hits[0]
    node = v if v.op == "elem" and v.args[0] is c else None
    num = k.op in ("idx", "select") and k.args[0] is c and k.args[1].op == "elem" and k.args[1].args[0] is c
    swapped = v.op in ("idx", "select") and v.args[0] is c and k.op == "elem" and k.args[0] is c
    ctx.tri(True if node is not None and num else (False if swapped or (num and v.op in ("idx", "select", "const")) else None), "argument", "%s %s node under its cluster" % (C, c),
            "node %s is put into cluster %s" % (v, k), e.where, "%s / %s" % (k, v))
    extra = [g for g in e.guards if g.op != "iter" and not (g.op == "isinst") and not (g.op == "not" and g.args[0].op == "isinst") and g is not sym("use_clust_list") and g is not not_(sym("use_clust_list"))]
    extra = [g for g in extra if any(x.op in ("elem", "phi") for x in subterms(g))]
    ctx.tri(True if not extra else None, "argument", "%s %s every node" % (C, c), "", e.where, str(extra[:1]))
    b = base
    while b.op in ("contents", "at"):
        b = b.args[0]
    if b.op == "phi":
        i = it.phis.get(b)
        if i is not None and isinstance(i.var, tuple) and len(i.var) > 1 and i.var[0] == "h":
            b = i.var[1]
    if b.op != "obj":
        ctx.und("argument", "%s %s" % (C, c), str(base))
        return None
    # number of sets
    for p, i in it.phis.items():
        if isinstance(i.var, tuple) and i.var[:2] == ("h", b) and i.init is not None and i.init.op == "seq" and not i.init.args:
            li = it.loopinfo.get(i.loop)
            t = T.strip(li["iter"]) if li and li["iter"] is not None else None
            n = t.args[1][-1] if t is not None and t.op == "call" and t.args[0] == "range" and len(t.args[1]) <= 2 else None
            if n is not None:
                mx = [m for m, q in T.poly(n).items() if len(m) == 1 and m[0].op == "call" and m[0].args[0] == "max"]
                cst = T.poly(n).get((), 0)
                ok = len(mx) == 1 and T.poly(n)[mx[0]] == 1 and any(x is c for x in subterms(n))
                ctx.tri((True if cst >= 1 else False) if ok else None, "argument", "%s %s number of clusters" % (C, c), "only %s clusters for a dictionary" % n, e.where, str(n))
    return b


def kernel(ctx, prog, name):
    fs = prog.functions(name)
    return fs[0] if fs else None


# ------------------------------------------------------------------ logarithms
def base_name(t):
    return str(t.args[0]).rsplit(".", 1)[-1].rsplit(":", 1)[-1]


def ln(t):
    """ln of a product, as a sum"""
    p = T.poly(t)
    if len(p) != 1:
        return mk("LN", t)
    (m, c), = p.items()
    r = const(0)
    if c != 1:
        r = mk("LN", const(c) if not isinstance(c, Fraction) or c.denominator != 1 else const(int(c)))
    if not m and c == 1:
        return const(0)
    for f in m:
        if f.op == "inv":
            r = T.sub(r, ln(f.args[0]))
        elif f.op == "pow" and T.is_num(f.args[1]):
            r = T.add(r, T.mul(f.args[1], ln(f.args[0])))
        elif f.op == "call" and base_name(f) in ("sqrt",) and len(f.args[1]) == 1:
            r = T.add(r, T.mul(T.inv(const(2)), ln(f.args[1][0])))
        else:
            r = T.add(r, mk("LN", f))
    return r


def logs(t):
    def g(x):
        if x.op == "call" and base_name(x) in LOGS and len(x.args[1]) in (1, 2) and not x.args[2]:
            b = LOGS[base_name(x)]
            v = ln(x.args[1][0])
            if len(x.args[1]) == 2:
                return T.mul(v, T.inv(ln(x.args[1][1])))
            if b == 0:
                return mk("LN", T.add(const(1), x.args[1][0]))
            return v if b is None else T.mul(v, T.inv(mk("LN", const(b))))
        return x
    return rebuild(t, g)


M1, M2 = sym("%n1"), sym("%n2")


def counts(s, t, N, loose=False):
    """sizes of clusters and of their intersections by name"""
    def g(x):
        if x is N:
            return NN
        if x.op == "call" and x.args[0] == "len" and len(x.args[1]) == 1:
            y = s.asset(x.args[1][0])
            if y.op == "elem" and y.args[0] is K1:
                return NI
            if y.op == "elem" and y.args[0] is K2:
                return NJ
            if y is K1:
                return M1
            if y is K2:
                return M2
            if loose and y.op in ("idx", "select") and y.args[0] in (K1, K2) and y.args[1].op == "elem":
                return NI if y.args[0] is K1 else NJ
            ab = inter(s, y, loose)
            if ab is not None:
                return NIJ if ab == {K1, K2} else x
        if x.op == "call" and x.args[0] in ("float", "int", "numpy.float64") and len(x.args[1]) == 1:
            return x.args[1][0]
        return x
    return rebuild(s.canon(t), g)


def inter(s, y, loose=False):
    a = None
    if y.op == "call" and y.args[0] in (".intersection", "set.intersection") and len(y.args[1]) == 2:
        a = y.args[1]
    elif y.op == "binBitAnd":
        a = y.args
    if a is None:
        return None
    a = [s.asset(z) for z in a]
    if all(z.op == "elem" and z.args[0] in (K1, K2) for z in a):
        return {z.args[0] for z in a}
    if loose and all(z.op == "elem" and z.args[0] in (K1, K2) or z.op in ("idx", "select") and z.args[0] in (K1, K2) and z.args[1].op == "elem" for z in a):
        return {z.args[0] for z in a}
    return None


def complete(z):
    """the exit condition implies that the cluster lies within one cluster of the other partition: True, False or None"""
    if z.op == "or":
        rs = [complete(a) for a in z.args]
        return False if False in rs else None if None in rs else True
    if z.op == "and":
        rs = [complete(a) for a in z.args]
        return True if True in rs else None if None in rs else False
    if z.op in ("eq", "le", "lt") and all(x in (NI, NJ, NIJ) or x.op in ("poly", "const", "inv", "eq", "le", "lt", "num") or T.is_num(x) for x in subterms(z)):
        a, b = z.args
        d = T.sub(NIJ, NI)
        return bool(T.same_rational(T.sub(b, a), d) and z.op != "lt" or z.op == "eq" and T.same_rational(T.sub(a, b), d))
    return None


def several(s, it, key, con, N):
    """exit under several conditions at once: complete only if no sizes satisfy them while nodes are still missing"""
    acc = {x for g in con for x in subterms(g) if x.op == "phi" and x in it.phis and it.phis[x].loop == key}
    if len(acc) > 1:
        return None
    A = sym("%acc")
    for p in acc:
        i = it.phis[p]
        b = i.back
        if b is None or i.init is None or not T.is_num(i.init) or T.cval(i.init) != 0:
            return None
        while b.op == "ite" and b.args[0].op == "brk":
            b = b.args[2]
        if counts(s, T.sub(b, p), N, True) is not NIJ:
            return None
    zs = [counts(s, T.subst(g, {p: A for p in acc}), N, True) for g in con]
    for z in zs:
        if z.op in ("le", "eq") and (T.same_rational(T.sub(z.args[1], z.args[0]), T.sub(T.add(A, NIJ), NI)) or T.same_rational(T.sub(z.args[1], z.args[0]), T.sub(A, NI))):
            return True
    if any(x.op in ("sym", "call", "idx", "phi", "elem", "attr", "select") and x not in (A, NI, NJ, NIJ) for z in zs for x in subterms(z)):
        return None
    for ni in range(1, 6):
        for nj in range(1, 6):
            for nij in range(0, min(ni, nj) + 1):
                for a in range(0, ni - nij if acc else 1):
                    if a + nij >= ni:
                        continue
                    m = {A: T.const(a), NI: T.const(ni), NJ: T.const(nj), NIJ: T.const(nij)}
                    vs = [T.subst(z, m) for z in zs]
                    if all(T.is_const(v) and T.cval(v) in (True, 1) for v in vs):
                        return False
                    if not all(T.is_const(v) for v in vs):
                        return None
    return None


def scans(ctx, it, s, C, N, where):
    """early exits of a scan over the clusters: only when every node of the cluster has been met"""
    for key, li in list(it.loopinfo.items()):
        if not li.get("breaks"):
            continue
        ok, before = True, True        # before: the exit condition looks at earlier iterations only
        for gs in li.get("break_guards") or [()]:
            con = [g for g in gs if g.op != "iter"]
            if len(con) > 1:
                ok = several(s, it, key, con, N)
                if ok:
                    before = False
                    continue
                if ok is False:
                    ctx.bad("scan", C + " early exit", "the scan over the clusters stops when %s: intersections are missed" % " and ".join(str(counts(s, g, N, True)) for g in con), where)
                break
            if len(con) != 1:
                ok = None
                break
            g = con[0]
            acc = [x for x in subterms(g) if x.op == "phi" and x in it.phis and it.phis[x].loop == key]
            if not acc:
                z = counts(s, g, N, loose=True)
                if s.dom(li["iter"]) is K1:
                    z = rebuild(z, lambda y: NJ if y is NI else NI if y is NJ else y)
                c = complete(z)
                if c:
                    before = False
                    continue
                if c is False:
                    ctx.bad("scan", C + " early exit", "the scan over the clusters stops when %s: intersections are missed" % z, where)
                    ok = False
                    break
            if len(acc) != 1:
                ok = None
                break
            i = it.phis[acc[0]]
            d = counts(s, T.sub(i.back, acc[0]), N, True) if i.back is not None and i.back.op != "ite" else None
            zero = i.init is not None and T.is_num(i.init) and T.cval(i.init) == 0
            z = counts(s, T.subst(g, {acc[0]: sym("%acc")}), N, True)
            A, A1 = sym("%acc"), T.add(sym("%acc"), NIJ)
            if d is None:
                ok = None
                break
            own = s.dom(li["iter"])
            size = NJ if own is K1 or own.op == "call" and own.args[0] == "range" and M1 in subterms(counts(s, own, N)) and M2 not in subterms(counts(s, own, N)) and not any(
                x.op in ("idx", "select") and x.args[0] is K2 and x.args[1].op == "elem" and x.args[1].args[0] is own for x in subterms(s.canon(g))) else NI      # of the cluster the intersections are counted for
            met = False
            if z.op in ("le", "lt", "eq"):
                a, b = z.args
                met = any(a is size and b is X or z.op == "eq" and b is size and a is X or T.same_rational(T.sub(b, a), T.sub(X, size)) or
                          z.op == "eq" and T.same_rational(T.sub(a, b), T.sub(X, size)) for X in (A, A1))
            if d is NIJ and zero and met:
                if NIJ in subterms(z):
                    before = False
                continue
            known = all(x in (NI, NJ, NIJ, NN, A) or T.is_const(x) or x.op in ("poly", "le", "lt", "eq", "not", "const") for x in subterms(z) if x.op in ("sym", "call", "idx", "phi", "elem", "attr"))
            ok = False if known and (i.init is None or zero or i.init.op == "phi" or T.is_const(i.init)) else None
            ctx.tri(ok, "scan", C + " early exit", "the scan over the clusters stops when %s (counter starting at %s, %s per cluster): intersections are missed" % (z, i.init, d), where, str(z))
            break
        else:
            ctx.ok("scan", C + " early exit", where)
        if ok is None:
            ctx.und("scan", C + " early exit", "exit condition not understood")
            return None
        # value at the exit = value at the end of that iteration
        for p, i in it.phis.items():
            if i.back is None:
                continue
            y = i.back
            if not before and y.op == "phi" and y in it.phis and it.phis[y].loop == key and it.phis[y].init is p and it.phis[y].back is not y and i.loop != key and isinstance(i.var, tuple) and i.var[0] == "v" and used(it, p):
                ctx.bad("scan", C + " last pair", "the pair at which the scan stops is not added to %s" % i.var[-1], where)
                return None
            for x in subterms(i.back):
                if x.op == "ite" and x.args[0].op == "brk" and x.args[0].args[0] == key:
                    y = x.args[2]
                    if y in it.phis and it.phis[y].loop == key and it.phis[y].back is not x.args[1] and isinstance(i.var, tuple) and i.var[0] == "v" and used(it, p):
                        lost = x.args[1] is y
                        ctx.tri(False if lost else None, "scan", C + " last pair", "the pair at which the scan stops is not counted", where, str(x.args[1]))
                        if not lost:
                            return None

        def nb(x):
            return x.args[2] if x.op == "ite" and x.args[0].op == "brk" and x.args[0].args[0] == key else x
        for p, i in it.phis.items():
            if i.back is not None:
                i.back = rebuild(i.back, nb)
        li["breaks"] = 0
        s.memo.clear()
    return True


def used(it, p):
    i = it.phis[p]
    if i.back is None or i.init is None or i.init.op == "undef":
        return False
    return True


def vi_value(ctx, it, st, s, value, N, C, where):
    """value == -sum_ij nij log2(nij^2/(ni nj)) / (N log2 N)"""
    if scans(ctx, it, s, C, N, where) is None:
        return
    ts = s.terms(value)
    if ts is None:
        for p, (d, c) in s.filtered.items():
            ctx.bad("definition", C, "clusters of %s are left out unless %s" % (d, c), where)
        ctx.und("definition", C, "value not recognised as a sum: %s" % s.why)
        return
    tot, seen = const(0), False
    for (mono, conds, doms), c in ts.items():
        ds = dict(doms)
        if set(ds) != {K1, K2} or any(v != 1 for v in ds.values()):
            for p, (d, cc) in s.filtered.items():
                ctx.bad("definition", C + " clusters", "clusters of %s are left out unless %s" % (d, cc), where)
            part = all(part_of(x) for x in ds) or not ds
            ctx.tri(False if part else None, "definition", C + " clusters", "the sum runs over %s instead of all pairs of clusters" % ", ".join(str(x) for x in ds), where,
                    ", ".join(str(x) for x in ds))
            return
        m = const(1)
        for f in mono:
            m = T.mul(m, f)
        m = T.mul(T._from_poly({(): Fraction(c)}), logs(counts(s, m, N)))
        cs = [counts(s, x, N) for x in conds]
        lab = C + " condition"
        good = True
        guard = False
        for x in cs:
            r1 = fold(rebuild(x, lambda y: const(1) if y is NIJ else y))
            r0 = fold(rebuild(x, lambda y: const(0) if y is NIJ else y))
            r5 = fold(rebuild(x, lambda y: const(5) if y is NIJ else y))
            if (r0, r1, r5) == (False, True, True):
                guard = True
            elif x in (NIJ,):
                guard = True
            elif None in (r0, r1, r5) and any(y in (NI, NJ, NN) or y.op in ("phi", "call") for y in subterms(x)):
                if all(y in (NI, NJ, NIJ, NN) or y.op in ("const", "lt", "le", "eq", "not", "and", "or", "poly") for y in subterms(x)):
                    ctx.bad("definition", lab, "pairs of clusters are counted only when %s" % x, where)
                    return
                good = None
            elif (r0, r1, r5) == (True, True, True):
                pass
            else:
                ctx.tri(False if None not in (r0, r1, r5) else None, "definition", lab, "pairs of clusters are counted only when %s" % x, where, str(x))
                return
        if good is None:
            ctx.und("definition", lab, str([str(x) for x in cs]))
            return
        if not guard and any(x.op == "LN" and x.args[0] is NIJ for x in subterms(m)):
            ctx.bad("definition", lab, "the logarithm of an empty intersection is taken", where)
            return
        tot = T.add(tot, m)
        seen = True
    if not seen:
        ctx.bad("definition", C, "nothing is summed", where)
        return
    L = lambda x: mk("LN", x)
    want = T.mul(T.mul(const(-1), NIJ), T.sub(T.sub(T.mul(const(2), L(NIJ)), L(NI)), L(NJ)))
    want = T.mul(want, T.mul(T.inv(NN), T.inv(L(NN))))
    same = T.same_rational(tot, want)
    atoms = all(x in (NI, NJ, NIJ, NN, M1, M2) or x.op in ("LN", "inv", "poly", "const", "mul", "pow", "float") for x in subterms(tot))
    ctx.tri(True if same else (False if atoms else None), "definition", C, "each pair of clusters contributes %s" % tot, where, str(tot))


def part_of(x):
    """a collection of clusters of the arguments, but not all of them"""
    return x in (K1, K2) or (x.op == "idx" and x.args[0] in (K1, K2) and x.args[1].op == "slice") or \
        (x.op == "call" and x.args[0] == "range" and any(y in (K1, K2) for y in subterms(x)) and not any(y.op in ("phi", "obj", "contents") for y in subterms(x))) or \
        (x.op == "call" and x.args[0] == "zip")


def len_list(s, t):
    """the list of the sizes of the clusters, in any order"""
    t = T.strip(t)
    for _ in range(6):
        if t.op == "obj" and t in s.it.made:
            t = s.it.made[t]
        elif t.op == "contents":
            t = t.args[1]
        elif t.op in ("sortedof", "listof", "setof"):
            t = T.strip(t.args[0])
        elif t.op == "call" and t.args[0] in ("sorted", "list", "tuple", "set", "Counter", "collections.Counter") and t.args[1]:
            t = T.strip(t.args[1][0])
        elif t.op == "phi" and t in s.it.phis:
            b = s.it.phis[t].back
            if b is None or b.op != "append":
                return False
            return counts(s, b.args[1], None) in (NI, NJ)
        else:
            return False
    return False


def identical(s, cs, N):
    """the conditions make the two partitions equal / known counts only"""
    pos = []

    def flat(c):
        if c.op == "and":
            for a in c.args:
                flat(a)
        else:
            pos.append(c)
    for c in cs:
        flat(c)
    cls = {}

    def find(x):
        while cls.get(x, x) is not x:
            x = cls[x]
        return x

    empties = set()

    def name(x):
        raw = x
        x = s.canon(T.strip(x)) if x.op != "sym" else x
        if x is N:
            return "N"
        if x.op == "call" and x.args[0] == "len":
            y = s.col(x.args[1][0])
            if y in (K1, K2) and not s.no_empty(raw):
                empties.add(y)
            if y is K1:
                return "n1"
            if y is K2:
                return "n2"
        if T.is_num(x):
            return T.cval(x)
        return None
    eqs, other = [], False
    for c in pos:
        if c.op == "eq":
            a, b = (name(z) for z in c.args)
            if a is not None and b is not None:
                eqs.append({a, b})
                continue
            x, y = (s.col(z) for z in c.args)
            if {x, y} == {K1, K2}:
                return True, None
            x, y = (s.canon(z) for z in c.args)
            if x.op == y.op and x.op in ("idx", "select") and T.is_num(x.args[1]) and x.args[1] is y.args[1] and {s.col(x.args[0]), s.col(y.args[0])} == {K1, K2}:
                continue            # one cluster of each
            if len_list(s, c.args[0]) and len_list(s, c.args[1]):
                continue            # the sizes of the clusters
            other = True
    grp = [set(e) for e in eqs]
    for _ in range(4):
        for i in range(len(grp)):
            for j in range(len(grp)):
                if i != j and grp[i] & grp[j]:
                    grp[i] |= grp[j]
    if any({"n1", "n2", "N"} <= g or {"n1", "n2", 1} <= g for g in grp):
        return (False if empties else True), empties
    return (None if other else False), None


def leaves_of(v, st=None):
    return T.cases(T.unver(v), limit=256) or []


def run_kind(ctx, f, kinds, on, N=None, extra=()):
    prog = ctx.prog
    more = facts(kinds) + list(extra)
    if N is not None and "N" in f.params():
        more.append(mk("is", sym("N"), NONE) if N == "none" else not_(mk("is", sym("N"), NONE)))
    kern = {"cython_nvi", "cython_nmi"}
    for _ in range(3):
        it = Interp(prog, opaque=lambda z: z is not f and z.name in kern)
        args = {"use_clust_list": FALSE} if "use_clust_list" in f.params() and set(kinds) & {"dict", "Partition"} else {}
        st1 = State()
        for k in more:
            st1.assume(k)
        r = it.run(f, args=args, st=st1)
        new = [x for x in set_tests(it, r.value) if x not in more]
        if not new:
            break
        more += new
    ctx.saw(it)
    v = T.unver(r.value)
    for x in list(subterms(v)):
        if x.op == "glob" and str(x.args[-1]) == USEC:
            v = T.assume_in(v, x, TRUE if on else FALSE)
    return it, r, v


def set_tests(it, v):
    """type tests of the elements of a list of sets built here"""
    out = []
    pool = [v] + [i.back for i in it.phis.values() if i.back is not None] + [li["iter"] for li in it.loopinfo.values() if li["iter"] is not None]
    for t in pool:
        for x in subterms(t):
            if x.op == "isinst" and x.args[1] == "set" and x.args[0].op in ("idx", "select") and x not in out:
                b = x.args[0].args[0]
                b = b.args[1] if b.op == "contents" else b
                i = it.phis.get(b)
                if i is not None and i.back is not None and i.back.op == "append" and it.objs.get(i.back.args[1], {}).get("kind") == "set":
                    out.append(x)
    return out


KINDS = [("sets", "sets"), ("lists", "sets"), ("sets", "lists"), ("dict", "dict"), ("Partition", "Partition"), ("dict", "sets"), ("sets", "Partition")]


def nvi(ctx, f):
    prog = ctx.prog
    for n in ("given", "none"):
        for kinds in KINDS:
            for on in (True, False):
                if n == "none" and kinds not in (KINDS[0], KINDS[3]):
                    continue
                C = "%s(%s, %s)%s%s" % (f.name, kinds[0], kinds[1], "" if n == "given" else " counting nodes", "" if on else " without kernels")
                it, r, v = run_kind(ctx, f, kinds, on, n)
                ro = roots_of(ctx, it, r, kinds, C)
                s = P(it, r.st, ro)
                N = sym("N") if n == "given" else None
                if n == "none":
                    N = count_nodes(ctx, it, r, s, v, C, f.where)
                    if N is None:
                        w = miscount(it, s, v)
                        ctx.tri(False if w else None, "definition", C + " N", "the number of nodes is taken to be %s" % w, f.where, "number of nodes not recognised")
                        continue
                some = False
                for cs, leaf in leaves_of(v):
                    if contradictory(cs):
                        continue
                    if T.is_num(leaf):
                        if T.cval(leaf) == 0:
                            ok, emp = identical(s, cs, N)
                            ctx.tri(ok, "definition", C + " zero", ("empty clusters of %s are counted as clusters: " % " and ".join(sorted(map(str, emp))) if emp else "") + "two partitions are called equal when %s" % " and ".join(str(s.canon(c)) for c in cs)[:300], f.where,
                                    " and ".join(str(c) for c in cs)[:300])
                        else:
                            ctx.bad("definition", C + " constant", "the result is %s for some partitions" % leaf, f.where)
                        continue
                    if leaf is NONE:
                        ctx.bad("definition", C, "no value is returned", f.where)
                        continue
                    if leaf.op == "call" and str(leaf.args[0]).startswith("fn:") and base_name(leaf) == "cython_nvi":
                        some = True
                        use_kernel(ctx, it, r, s, leaf, N, C, f)
                        continue
                    some = True
                    vi_value(ctx, it, r.st, s, leaf, N, C, f.where)
                if not some:
                    ctx.und("definition", C, "no value recognised")


def contradictory(cs):
    fs = set()
    for c in cs:
        fs.update(c.args if c.op == "and" else (c,))
    for c in cs:
        if c.op == "or" and all(not_(a) in fs or (a.op == "and" and any(not_(b) in fs for b in a.args)) for a in c.args):
            return True
    return any(not_(c) in fs for c in fs)


def count_nodes(ctx, it, r, s, v, C, where):
    """the term used as number of nodes: the sum of the cluster sizes of one of the partitions"""
    cand = []
    pool = [x for t in [v] + [i.back for i in it.phis.values() if i.back is not None] for x in subterms(t)]
    for x in pool:
        if x.op == "call" and x.args[0] in ("sum", "numpy.sum") and len(x.args[1]) == 1 and x not in cand:
            cand.append(x)
        if x.op == "phi" and x not in cand and isinstance(getattr(it.phis.get(x), "var", None), tuple) and it.phis[x].var[0] == "v":
            cand.append(x)
    out = None
    for x in cand:
        ts = s.terms(x)
        if not ts or len(ts) != 1:
            continue
        ((mono, conds, doms), c), = ts.items()
        ds = dict(doms)
        if len(ds) == 1 and len(mono) == 1 and not any(k.op == "phi" for k in ds):
            d, = ds
            k = counts(s, mono[0], None)
            if d in (K1, K2) and k in (NI, NJ):
                ctx.check(not conds and c == 1, "definition", C + " N", "nodes are counted only when %s" % (conds,), where)
                out = x
    return out


def miscount(it, s, v):
    """a number of nodes handed to the kernel that is not the sum of the sizes of the clusters"""
    for x in subterms(v):
        if x.op == "call" and str(x.args[0]).startswith("fn:") and base_name(x) in ("cython_nvi", "cython_nmi") and len(x.args[1]) > 2:
            n = T.strip(x.args[1][2])
            if n.op == "call" and n.args[0] in ("max", "min", "len"):
                y = s.col(n.args[1][0]) if n.args[0] == "len" else None
                if y in (K1, K2) or len_list(s, n.args[1][0]):
                    return n
            ts = s.terms(n)
            if ts and len(ts) == 1:
                ((mono, conds, doms), c), = ts.items()
                d = list(dict(doms))
                if len(d) == 1 and len(mono) == 1 and c == 1 and not conds and d[0] not in (K1, K2) and part_of(d[0]) and d[0].op in ("idx", "select"):
                    return n
    return None


_done = {}


def use_kernel(ctx, it, r, s, leaf, N, C, f):
    fi = kernel(ctx, ctx.prog, base_name(leaf))
    b, miss, extra, star = static_bind(fi, list(leaf.args[1]), dict(leaf.args[2]))
    ctx.check(not miss and not extra, "kernel", C + " call", "missing %s, unexpected %s" % (sorted(miss), extra), f.where)
    ps = fi.params()
    if len(ps) < 3 or any(b.get(p) is None for p in ps):
        return
    got = [s.col(b[p]) for p in ps[:2]]
    ok = set(got) == {K1, K2}
    for p, (d, cc) in s.filtered.items():
        if any(x.op == "contents" and x.args[1] is p for g in got for x in subterms(g)):
            ctx.bad("kernel", C + " clusters", "clusters of %s are left out unless %s" % (d, cc), f.where)
            return
    ctx.tri(True if ok else (False if set(got) <= {K1, K2} else None), "kernel", C + " clusters", "the kernel compares %s with %s" % tuple(got), f.where, "%s / %s" % tuple(got))
    n = T.strip(b[ps[2]])
    ctx.tri(True if N is not None and (n is N or n is T.strip(N)) else (False if T.is_const(n) or s.canon(n).op == "call" and s.canon(n).args[0] == "len" and s.col(s.canon(n).args[1][0]) in (K1, K2) else None),
            "kernel", C + " N", "the number of nodes is taken to be %s" % n, f.where, str(n))
    if len(ps) == 5:
        for p, k in zip(ps[3:], got):
            x = s.canon(b[p])
            y = s.col(x.args[1][0]) if x.op == "call" and x.args[0] == "len" else None
            ctx.tri(True if y is k else (False if y in (K1, K2) else None), "kernel", "%s %s" % (C, p), "%s is the number of clusters of %s" % (p, y), f.where, str(x))
    if _done.get((id(ctx), fi.qual)):
        return
    _done[(id(ctx), fi.qual)] = True
    a1, a2 = sym(ps[0]), sym(ps[1])
    it2 = Interp(ctx.prog, opaque=lambda z: z is not fi)
    args = {ps[0]: K1, ps[1]: K2}
    r2 = it2.run(fi, args=args)
    ctx.saw(it2)
    s2 = P(it2, r2.st, {K1: K1, K2: K2})
    v2 = T.unver(r2.value)
    if base_name(leaf) == "cython_nvi":
        for cs, l2 in leaves_of(v2):
            if T.is_num(l2) and cs:
                ok, _ = identical(s2, cs, sym(ps[2]))
                ctx.tri(ok if T.cval(l2) == 0 else False, "definition", fi.name + " constant", "the result is %s when %s" % (l2, " and ".join(map(str, cs))[:200]), fi.where)
                continue
            vi_value(ctx, it2, r2.st, s2, l2, sym(ps[2]), fi.name, fi.where)
    else:
        mi_value(ctx, it2, r2, s2, v2, sym(ps[2]), fi.name, fi.where, {sym(ps[3]): K1, sym(ps[4]): K2} if len(ps) == 5 else {})


# ------------------------------------------------------------------ mutual information
H1, H2, H12 = sym("%H1"), sym("%H2"), sym("%H12")


def array_fill(it, s, A):
    """what a one-dimensional array filled by loops holds: (value per iteration, loops)"""
    phi = A.args[1] if A.op == "contents" else A
    last = None
    for _ in range(8):
        if phi.op != "phi":
            return None
        i = it.phis.get(phi)
        if i is None or i.back is None:
            return None
        b = i.back
        if b.op == "store" and b.args[0] is phi:
            return b.args[1], b.args[2], i
        if b.op == "phi" and b in it.phis and it.phis[b].init is phi:
            phi = b
            continue
        if b.op == "phi" and it.phis.get(b) is not None:
            phi = b
            continue
        return None
    return None


def position(it, s, key, loop):
    """the key numbers the iterations of its loops one by one: returns the loops covered"""
    k = T.strip(key)
    if k.op in ("pos",):
        return [k.args[0]]
    if k.op == "elem" and k.args[0].op == "call" and k.args[0].args[0] == "range" and len(k.args[0].args[1]) == 1:
        return [k.args[1]]
    if k.op == "phi":
        out = []
        for _ in range(6):
            i = it.phis.get(k)
            if i is None or i.back is None:
                return None
            out.append(i.loop)
            step = T.sub(i.back, k)
            if T.is_num(step):
                if T.cval(step) != 1:
                    return None
            elif not (i.back.op == "phi" and i.back in it.phis and it.phis[i.back].init is k):
                return None
            if T.is_num(i.init):
                return out if T.cval(i.init) == 0 else None
            k = i.init
        return None
    # i * n2 + j
    return None


def positive(c, x):
    """holds exactly for the probabilities that are not zero"""
    rs = [fold(rebuild(c, lambda y: const(k) if y is x else y)) for k in (0, 1, 1e-9)]
    return rs == [False, True, True]


def entropy(ctx, it, s, atom, N, sizes):
    """+-H1, +-H2, +-H12 or None"""
    sign, A, mask = None, None, None
    if atom.op == "call" and atom.args[0] in ("numpy.sum", ".sum", "sum") and len(atom.args[1]) == 1 and not atom.args[2]:
        p = T.poly(atom.args[1][0])
        if len(p) != 1:
            return None
        (m, c), = p.items()
        vecs = [f for f in m if f.op in ("idx", "select")]
        lg = [f for f in m if f.op == "call" and base_name(f) == "log2" and len(f.args[1]) == 1]
        if len(m) != 2 or len(vecs) != 1 or len(lg) != 1 or abs(c) != 1:
            return None
        if lg[0].args[1][0] is not vecs[0]:
            o = lg[0].args[1][0]
            if o.op in ("idx", "select") and o.args[0] is not vecs[0].args[0] and distribution(it, s, o.args[0], N, None, sizes) is not None and distribution(it, s, vecs[0].args[0], N, None, sizes) is not None:
                return wrong("probabilities times the logarithm of other probabilities")
            return None
        A, mask = vecs[0].args
        own = it.phis[A].var[1] if A.op == "phi" and A in it.phis and isinstance(it.phis[A].var, tuple) and it.phis[A].var[0] == "h" else A
        if not positive(mask, A) and not positive(mask, own) and not positive(s.canon(mask), s.canon(own)):
            return None
        sign = int(c)
        full = None
    else:
        try:
            raw = s._t(s.prep(atom), (), (), 0)
        except NotSum:
            return None
        if len(raw) != 1:
            return None
        (c, conds, doms, mono), = raw
        if abs(c) != 1 or len(mono) != 2:
            return None
        vecs = [f for f in mono if not (f.op == "call" and base_name(f) == "log2")]
        lg = [f for f in mono if f.op == "call" and base_name(f) == "log2"]
        if len(vecs) != 1 or len(lg) != 1:
            return None
        x = vecs[0]
        o = lg[0].args[1][0]
        if o is not x:
            if o.op in ("idx", "select") and x.op in ("idx", "select") and o.args[0] is not x.args[0] and distribution(it, s, o.args[0], N, None, sizes) is not None and distribution(it, s, x.args[0], N, None, sizes) is not None:
                return wrong("probabilities times the logarithm of other probabilities")
            return None
        if len(conds) != 1 or not positive(conds[0], x):
            if len(conds) == 1:
                rs = [fold(rebuild(conds[0], lambda y: const(k) if y is x else y)) for k in (0, 1, 1e-9)]
                if None not in rs:
                    return wrong("probabilities are counted only when %s" % conds[0])
            return None
        if x.op not in ("idx", "select") or x.args[1].op != "elem":
            return None
        A = x.args[0]
        full = x.args[1].args[0]
        sign = int(c)
        if len(doms) != 1:
            return None
    d = distribution(it, s, A, N, full, sizes)
    if d is None or d.op == "wrong":
        return d
    return T.mul(const(-sign), d)


def distribution(it, s, A, N, full, sizes):
    """the probabilities an array holds"""
    A0 = A
    if A.op == "call" and A.args[0] in ("numpy.array", "numpy.asarray", "numpy.fromiter") and A.args[1]:
        q = A.args[1][0]
        c = q.args[1] if q.op == "contents" else None
        i = it.phis.get(c) if c is not None else None
        if i is None or i.back is None or i.back.op != "append" or i.init is None or i.init.op != "seq" or i.init.args:
            return None
        val, loops = i.back.args[1], [i.loop]
    else:
        w = array_fill(it, s, A)
        if w is None:
            return None
        key, val, i = w
        loops = position(it, s, key, i.loop)
        if loops is None:
            return None
    doms = []
    for l in loops:
        li = it.loopinfo.get(l)
        if li is None or li.get("breaks") or li["iter"] is None:
            return None
        doms.append(s.dom(li["iter"]))
    v = counts(s, val, N)
    v = rebuild(v, lambda x: M1 if sizes.get(x) is K1 else M2 if sizes.get(x) is K2 else x)
    want = {NI: (H1, [K1]), NJ: (H2, [K2]), NIJ: (H12, [K1, K2])}
    for q, (h, ds) in want.items():
        if T.same_rational(v, T.mul(q, T.inv(NN))):
            if sorted(map(str, doms)) != sorted(map(str, ds)):
                return wrong("one probability %s for each of %s" % (v, doms)) if all(d in (K1, K2) for d in doms) else None
            if full is not None and not whole(s, full, ds, sizes):
                n = full.args[1][0]
                n = rebuild(counts(s, n, N), lambda x: M1 if sizes.get(x) is K1 else M2 if sizes.get(x) is K2 else x)
                return wrong("only the first %s of the probabilities" % n) if all(x in (M1, M2, NN) or x.op in ("poly", "const", "inv") for x in subterms(n)) else None
            return h
    cl = lambda x: x.op == "elem" and x.args[0] in (K1, K2) or x in (K1, K2)
    if all(d in (K1, K2) for d in doms) and all(x in (NI, NJ, NIJ, NN, M1, M2) or x.op in ("poly", "const", "inv", "pos") or cl(x) or x.op == "call" and (x.args[0] in (".union", "set.union") and all(cl(y) for y in x.args[1]) or
            x.args[0] == "len" and x.args[1][0].op == "call" and x.args[1][0].args[0] in (".union", "set.union")) for x in leaf_terms(v)):
        return wrong("the probability is %s" % v)
    return None


def wrong(text):
    return mk("wrong", text)


def leaf_terms(v):
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        out.append(x)
        if x.op == "poly":
            for m in T.poly(x):
                todo += list(m)
        elif x.op == "inv":
            todo.append(x.args[0])
        elif x.op == "call" and x.args[0] in ("len", ".union", "set.union"):
            todo += list(x.args[1])
    return out


def whole(s, full, ds, sizes):
    """the loop over the array has as many steps as there are probabilities"""
    if full.op == "call" and full.args[0] == "range" and len(full.args[1]) == 1:
        n = full.args[1][0]
        want = const(1)
        for d in ds:
            want = T.mul(want, next((k for k, v in sizes.items() if v is d), mk("call", "len", (d,), (), None)))
        return T.strip(n) is want or s.canon(n) is s.canon(want)
    return True


def mi_value(ctx, it, r, s, v, N, C, where, sizes):
    memo = {}

    def g(x):
        if x.op == "phi" or (x.op == "call" and x.args[0] in ("numpy.sum", ".sum", "sum")):
            if x not in memo:
                memo[x] = entropy(ctx, it, s, x, N, sizes)
            if memo[x] is not None:
                return memo[x]
        if x.op == "call" and base_name(x) in ("max", "fmax", "maximum", "min", "fmin", "minimum"):
            a = list(x.args[1])
            if len(a) == 1 and a[0].op in ("tuple", "seq", "list"):
                a = list(a[0].args)
            if len(a) == 1 and a[0].op == "contents" and a[0].args[1].op == "seq":
                a = list(a[0].args[1].args)
            return mk(base_name(x).replace("f", "").replace("imum", ""), *sorted(a, key=str))
        return x
    got = top(v, g)
    want = T.mul(T.sub(T.add(H1, H2), H12), T.inv(mk("max", *sorted((H1, H2), key=str))))
    bad = [x for x in subterms(got) if x.op == "wrong"]
    if bad:
        ctx.bad("definition", C, "an entropy is computed wrongly: %s" % bad[0].args[0], where)
        return
    known = all(x in (H1, H2, H12) or x.op in ("max", "min", "poly", "inv", "const", "mul") for x in subterms(got))
    ctx.tri(True if T.same_rational(got, want) else (False if known else None), "definition", C, "the value is %s" % got, where, str(got)[:300])


def top(t, g):
    x = g(t)
    if x is not t and x.op in ("sym", "poly", "wrong") and not (t.op == "call" and base_name(t) in ("max", "fmax", "min")):
        return x
    if t.op == "poly":
        out = const(0)
        for m, c in T.poly(t).items():
            z = T._from_poly({(): c})
            for f in m:
                z = T.mul(z, top(f, g))
            out = T.add(out, z)
        return out
    if t.op == "inv":
        return T.inv(top(t.args[0], g))
    if x.op in ("max", "min"):
        return mk(x.op, *sorted((top(a, g) for a in x.args), key=str))
    return x


def nmi(ctx, f):
    for kinds in KINDS[:5]:
        for on in (True, False):
            C = "%s(%s, %s)%s" % (f.name, kinds[0], kinds[1], "" if on else " without kernels")
            it, r, v = run_kind(ctx, f, kinds, on)
            ro = roots_of(ctx, it, r, kinds, C)
            s = P(it, r.st, ro)
            N = count_nodes(ctx, it, r, s, v, C, f.where)
            for cs, leaf in leaves_of(v):
                if contradictory(cs):
                    continue
                if leaf is NONE:
                    ctx.bad("definition", C, "no value is returned", f.where)
                elif T.is_num(leaf):
                    ctx.und("definition", C + " constant", "%s when %s" % (leaf, [str(c)[:80] for c in cs]))
                elif leaf.op == "call" and str(leaf.args[0]).startswith("fn:") and base_name(leaf) == "cython_nmi":
                    use_kernel(ctx, it, r, s, leaf, N, C, f)
                elif leaf.op == "call" and N is None and miscount(it, s, leaf):
                    ctx.bad("definition", C + " N", "the number of nodes is taken to be %s" % miscount(it, s, leaf), f.where)
                elif N is not None:
                    mi_value(ctx, it, r, s, leaf, N, C, f.where, {})
                else:
                    ctx.und("definition", C, "number of nodes not recognised")


# ------------------------------------------------------------------ jaccard
def jaccard(ctx, f):
    for kinds in (("dict", "dict"), ("sets", "sets"), ("dict", "sets")):
        C = "%s(%s, %s)" % (f.name, kinds[0], kinds[1])
        it, r, v = run_kind(ctx, f, kinds, True)
        s = P(it, r.st, {K1: K1, K2: K2})
        maps = {}
        for c, k in zip((K1, K2), kinds):
            maps[c] = c
            if k != "dict":
                m = to_dict(ctx, it, r, s, c, C)
                if m is False:
                    pass
                elif m is None:
                    ctx.und("argument", "%s %s" % (C, c), "conversion not recognised")
                else:
                    maps[m] = c
        E1, E2 = sym("%same1"), sym("%same2")
        pairdoms = set()
        mixed = []

        def atom(x):
            if x.op == "eq":
                z = []
                for y in x.args:
                    y = T.strip(y)
                    if y.op not in ("idx", "select"):
                        return x
                    b = y.args[0]
                    while b.op in ("contents", "at"):
                        b = b.args[0]
                    if b.op == "phi" and isinstance(it.phis[b].var, tuple) and it.phis[b].var[0] == "h":
                        b = it.phis[b].var[1]
                    z.append((maps.get(b), y.args[1]))
                (a, i), (b, j) = z
                if a is not None and b is not None and a is not b:
                    mixed.append(x)
                if a is None or a is not b:
                    return x
                if i.op in ("idx", "select") and j.op in ("idx", "select") and i.args[0] is j.args[0] and i.args[0].op == "elem" and {str(i.args[1]), str(j.args[1])} == {"0", "1"}:
                    pairdoms.add(i.args[0].args[0])
                    return E1 if a is K1 else E2
            return x

        def count(t):
            """truth table of a counter over pairs"""
            ts = s.terms(t)
            if ts is None:
                return None
            tab = {}
            for e1, e2 in product((0, 1), repeat=2):
                n = Fraction(0)
                for (mono, conds, doms), c in ts.items():
                    if mono or len(dict(doms)) != 1 or list(dict(doms).values()) != [1]:
                        return None
                    ok = True
                    for q in conds:
                        z = rebuild(q, atom)
                        z = fold(rebuild(z, lambda y: (TRUE if e1 else FALSE) if y is E1 else (TRUE if e2 else FALSE) if y is E2 else y))
                        if z is None:
                            return None
                        ok = ok and z
                    if ok:
                        n += c
                tab[(e1, e2)] = n
            return tab
        got = False
        for cs, leaf in leaves_of(v):
            if leaf is NONE:
                ctx.bad("definition", C, "no value is returned", f.where)
                got = True
                continue
            if T.is_num(leaf):
                z = all(not any(x.op == "phi" for x in subterms(c)) or c.op in ("le", "eq", "not", "lt") for c in cs)
                ctx.tri(True if T.cval(leaf) == 0 and cs else None, "definition", C + " nothing to compare", "", f.where, str(leaf))
                continue
            num, den = T.rational(leaf)
            a, b = count(num), count(den)
            if mixed:
                ctx.bad("definition", C + " mixed", "cluster numbers of the two partitions are compared with each other: %s" % mixed[0], f.where)
                got = True
                continue
            if a is None or b is None:
                ctx.und("definition", C, "counters not recognised: %s" % leaf)
                got = True
                continue
            wa = {(0, 0): 0, (0, 1): 1, (1, 0): 1, (1, 1): 0}
            wb = {(0, 0): 0, (0, 1): 1, (1, 0): 1, (1, 1): 1}
            k = a[(0, 1)] if a[(0, 1)] else 1
            ok = all(a[x] == k * wa[x] and b[x] == k * wb[x] for x in wa)
            ctx.check(ok, "definition", C, "numerator and denominator count pairs (together in 1, together in 2) %s and %s times" % ({k: int(v) for k, v in a.items()}, {k: int(v) for k, v in b.items()}), f.where)
            got = True
            for d in pairdoms:
                ok = d.op == "call" and str(d.args[0]).rsplit(".", 1)[-1] == "combinations" and len(d.args[1]) == 2 and T.is_num(d.args[1][1]) and T.cval(d.args[1][1]) == 2
                ctx.tri(True if ok else (False if d.op == "call" and str(d.args[0]).rsplit(".", 1)[-1] in ("product", "combinations_with_replacement") else None), "definition", C + " pairs",
                        "pairs of nodes are taken from %s" % d, f.where, str(d))
        if not got:
            ctx.und("definition", C, str(v))


def to_dict(ctx, it, r, s, c, C):
    """node -> number of its cluster, for every node of every cluster"""
    for e in it.events:
        if e.kind != "setitem":
            continue
        k, v = T.strip(e.d["key"]), T.strip(e.d["value"])
        if v.op == "elem" and s.canon(v.args[0]).op == "elem" and s.col(s.canon(v.args[0]).args[0]) is c and not (k.op == "elem" and k.args[0] is v.args[0]):
            ctx.bad("argument", "%s %s cluster numbers" % (C, c), "%s maps to the node %s" % (k, v), e.where)
            return False
        if k.op == "elem" and any(x is c for x in subterms(k)):
            src = s.canon(k.args[0])
            inner = src.op == "elem" and s.col(src.args[0]) is c
            b = T.strip(e.d["base"])
            if inner:
                loop = src.args[1] if len(src.args) > 1 else None
                ok = v.op == "pos" and v.args[0] == loop or (v.op == "elem" and len(v.args) > 1 and v.args[1] == loop)
                ctx.tri(True if ok else (False if T.is_const(v) or v is k else None), "argument", "%s %s cluster numbers" % (C, c), "a node gets the number %s" % v, e.where, str(v))
                ex = [g for g in e.guards if g.op != "iter" and any(x.op in ("elem", "phi") for x in subterms(g))]
                ctx.tri(True if not ex else None, "argument", "%s %s every node" % (C, c), "", e.where, str(ex[:1]))
                while b.op in ("contents", "at"):
                    b = b.args[0]
                return b
    oc = K2 if c is K1 else K1
    src = [e for e in it.events if e.kind == "setitem" and T.strip(e.d["key"]).op == "elem" and s.canon(T.strip(e.d["key"]).args[0]).op == "elem"]
    src = [e for e in src if s.col(s.canon(T.strip(e.d["key"]).args[0]).args[0]) is oc]
    if len(src) == 2:
        ctx.bad("argument", "%s %s nodes" % (C, c), "the cluster numbers of %s are taken from %s" % (c, oc), src[1].where)
        return False
    return None


# ------------------------------------------------------------------ pairs
def pairs(ctx, f):
    prog = ctx.prog
    ps = f.params()
    L = sym(ps[0])
    n = mk("call", "len", (L,), (), None)
    M = T.mul(T.mul(n, T.sub(n, const(1))), T.inv(const(2)))
    num = next((p for p in ps if "sample" in p), None)
    if num is None:
        ctx.und("pairs", f.qual, "no parameter for the number of pairs")
        return
    for case in ("none", "few", "many"):
        st = State()
        x = sym(num)
        if case == "none":
            st.assume(mk("is", x, NONE))
        else:
            st.assume(not_(mk("is", x, NONE)))
        it = Interp(prog, opaque=lambda z: z is not f and z.name in ("norm_var_information", "_compute_nvi_sample") or (z is not f and z.name.startswith("_compute_")))
        r = it.run(f, st=st)
        ctx.saw(it)
        C = "%s %s" % (f.name, {"none": "all pairs", "few": "some pairs", "many": "more than all pairs"}[case])
        ch = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).rsplit(".", 1)[-1] in ("choice", "sample", "permutation")]
        if not ch:
            rr = [e for e in it.events if e.kind == "call" and str(e.d["fn"]).rsplit(".", 1)[-1] in ("randint", "integers", "random_integers", "choices")]
            if len(rr) == 1:
                ctx.bad("pairs", C + " distinct", "pairs are drawn by %s, with repetition: fewer pairs are used than asked for" % rr[0].d["fn"], rr[0].where)
                continue
        if len(ch) != 1:
            ctx.und("pairs", C, "%d draws" % len(ch))
            continue
        e = ch[0]
        nm = str(e.d["fn"]).rsplit(".", 1)[-1]
        a, kw = list(e.d["args"]), dict(e.d["kwargs"])
        if str(e.d["fn"]).startswith("."):
            a = a[1:]
        pop = a[0] if a else kw.get("a")
        size = a[1] if len(a) > 1 else kw.get("size", kw.get("k"))
        if nm == "choice":
            rep = a[2] if len(a) > 2 else kw.get("replace", TRUE)
            ctx.tri(True if rep is FALSE else (False if rep is TRUE else None), "pairs", C + " distinct", "a pair can be drawn several times, so that fewer pairs are used than asked for", e.where, str(rep))
        # population
        pv = T.strip(pop) if pop is not None else NONE
        if pv.op == "call" and pv.args[0] in ("range", "numpy.arange") and len(pv.args[1]) == 1:
            pv = pv.args[1][0]
        pv = half(pv)
        ctx.tri(True if T.same_rational(pv, M) else (False if only(pv, n) else None), "pairs", C + " population", "pairs are drawn among %s, there are %s" % (pv, M), e.where, str(pv))
        # number
        sv = half(T.strip(size)) if size is not None else NONE
        for cs, leaf in T.cases(sv) or []:
            leaf = half(leaf)
            z = decide(cs, x, M, case, n)
            if z is False:
                continue
            want = x if case == "few" else M
            isx, isM = leaf is x, T.same_rational(leaf, M)
            if leaf.op == "call" and leaf.args[0] == "min":
                g = [half(q) for q in leaf.args[1]]
                if len(g) == 2 and any(q is x for q in g) and any(T.same_rational(q, M) for q in g):
                    ctx.ok("pairs", C + " number", e.where)
                    continue
            if leaf.op == "call" and leaf.args[0] == "max":
                g = [half(q) for q in leaf.args[1]]
                if len(g) == 2 and any(q is x for q in g) and any(T.same_rational(q, M) for q in g):
                    ctx.bad("pairs", C + " number", "the larger of the number asked for and the number of pairs is drawn", e.where)
                    continue
            good = isx if case == "few" else isM
            ctx.tri(True if good else (False if z and (isx or isM or only(leaf, n) or leaf is NONE) else None), "pairs", C + " number", "%s pairs are taken, expected %s" % (leaf, want), e.where, "%s if %s" % (leaf, [str(c) for c in cs]))
        if case == "none":
            chosen(ctx, it, r, f, e, L, C)


def half(t):
    """int(.../2) and .../2 of an even number"""
    def g(x):
        if x.op == "call" and x.args[0] == "int" and len(x.args[1]) == 1:
            return x.args[1][0]
        if x.op in ("floordiv", "binFloorDiv") and len(x.args) == 2:
            return T.mul(x.args[0], T.inv(x.args[1]))
        if x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] == "comb" and len(x.args[1]) == 2 and T.is_num(x.args[1][1]) and T.cval(x.args[1][1]) == 2:
            k = x.args[1][0]
            return T.mul(T.mul(k, T.sub(k, const(1))), T.inv(const(2)))
        return x
    return rebuild(t, g)


def only(t, n):
    return not any(x.op in ("sym", "call", "phi", "attr", "idx") and x is not n and x not in n.args[1] and x is not n for x in subterms(t))


def decide(cs, x, M, case, n):
    """do the conditions hold for a number of pairs below / above the number there are?"""
    big = {"few": -1, "many": 1}.get(case)
    res = True
    for c in cs:
        v = ev(half(c), x, M, case)
        if v is False:
            return False
        if v is None:
            res = None
    return res


def ev(c, x, M, case):
    if c.op == "not":
        v = ev(c.args[0], x, M, case)
        return None if v is None else not v
    if c.op in ("and", "or"):
        vs = [ev(a, x, M, case) for a in c.args]
        if c.op == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if c.op == "is" and c.args[0] is x and c.args[1] is NONE:
        return case == "none"
    if c.op in ("lt", "le") and case != "none":
        a, b = c.args
        if a is x and T.same_rational(b, M):
            return case == "few"
        if b is x and T.same_rational(a, M):
            return case == "many"
        d = T.sub(b, a)
        if T.same_rational(d, T.sub(M, x)):
            return case == "few"
        if T.same_rational(d, T.sub(x, M)):
            return case == "many"
    return None


def chosen(ctx, it, r, f, e, L, C):
    """every drawn pair is evaluated once, with the number of nodes"""
    C = f.name
    res = T.strip(e.d["result"])
    ok = None
    for p, i in it.phis.items():
        if i.back is None or i.back.op != "ite":
            continue
        c, a, b = i.back.args
        neg = False
        if a is p:
            c, a, b, neg = c, b, a, True
        if not (b is p and a.op == "append" and a.args[0] is p):
            continue
        if c.op == "not":
            c, neg = c.args[0], not neg
        if c.op != "in" or T.strip(c.args[1]) is not res and not any(y is res for y in subterms(c.args[1])):
            continue
        li = it.loopinfo.get(i.loop)
        src = T.strip(li["iter"]) if li else None
        k = T.strip(c.args[0])
        enum = src is not None and src.op == "call" and src.args[0] == "enumerate" and len(src.args[1]) == 1 and not src.args[2]
        if src is not None and src.op == "call" and src.args[0] == "enumerate" and not enum:
            start = src.args[1][1] if len(src.args[1]) > 1 else dict(src.args[2]).get("start")
            off = [T.sub(k, q) for q in subterms(k) if q.op in ("pos", "elem")]
            ctx.tri(False if any(T.is_num(q) and T.cval(q) != 0 for q in off) else None, "pairs", C + " enumeration", "the pairs are numbered from %s, the drawn numbers from 0" % start, e.where, str(src))
            continue
        comb = src.args[1][0] if enum else src
        good = comb is not None and comb.op == "call" and str(comb.args[0]).rsplit(".", 1)[-1] == "combinations" and T.strip(comb.args[1][0]) is L and T.cval(comb.args[1][1]) == 2
        other = comb is not None and comb.op == "call" and str(comb.args[0]).rsplit(".", 1)[-1] in ("product", "permutations", "combinations_with_replacement", "zip")
        ctx.tri(True if good else (False if other else None), "pairs", C + " enumeration", "the drawn numbers are looked up in %s" % comb, e.where, str(comb))
        num = k.op == "pos" or k.op == "elem" and k.args[0].op == "call" and k.args[0].args[0] == "range" and k.args[1:] == (i.loop,)
        ctx.tri(True if num and not neg else (False if num and neg else None), "pairs", C + " selection", "the pairs that were not drawn are taken", e.where, str(k))
        v = T.strip(a.args[1])
        ok = v
    if ok is None:
        ctx.und("pairs", C + " selection", "")
    # evaluation
    n = 0
    for ev_ in it.events:
        fi, args, kw = target(ev_)
        if fi is None or fi.name != "norm_var_information":
            continue
        n += 1
        b, miss, extra, star = static_bind(fi, args, kw)
        n -= 1
        n += evaluation(ctx, it, r, C, L, fi, b, ev_.where)
    n += workers(ctx, it, r, C, L, f)
    ret = T.strip(r.value)
    if ret.op == "call" and n:
        nm = str(ret.args[0]).rsplit(".", 1)[-1]
        ctx.tri(True if nm == "mean" else (False if nm in ("sum", "median", "max", "min", "std", "var") else None), "pairs", C + " average", "the %s of the pairs is returned" % nm, f.where, str(ret)[:100])
    for cs, leaf in T.cases(T.unver(r.value), limit=16) or []:
        o = it.objs.get(leaf, {})
        if o.get("kind") == "set":
            ctx.bad("pairs", C + " values", "the values are returned as a set: equal values of different pairs are counted once", f.where)


def body_of(it, t):
    """value appended per iteration to a list built by one loop, and what the loop runs over"""
    t = T.strip(t)
    o = t
    while o.op in ("contents", "at"):
        o = o.args[0]
    for p, i in it.phis.items():
        if isinstance(i.var, tuple) and i.var[0] == "h" and i.var[1] is o and i.back is not None and i.back.op == "append" and i.back.args[0] is p:
            return i.back.args[1], it.loopinfo.get(i.loop)
    return None, None


def workers(ctx, it, r, C, L, f):
    """functions mapped over a list of parameter tuples"""
    n = 0
    for e in it.events:
        if e.kind != "call":
            continue
        fn, args = str(e.d["fn"]), list(e.d["args"])
        w, src = None, None
        if fn.startswith("fn:_compute") and len(args) == 1 and T.strip(args[0]).op == "elem":
            w, src = fn, T.strip(args[0]).args[0]
        elif fn in ("map", ".map", ".imap", ".map_async", ".starmap"):
            k = 1 if fn.startswith(".") else 0
            if len(args) > k + 1 and str(args[k]).startswith("fn:"):
                w, src = str(args[k]), args[k + 1]
        if w is None:
            continue
        name = w.split(":")[-1].rsplit(".", 1)[-1]
        fs = ctx.prog.functions(name)
        if len(fs) != 1:
            continue
        wf = fs[0]
        src = T.strip(src)
        cut = src.op in ("idx", "select") and src.args[1].op == "slice"
        if cut:
            lo, hi = src.args[1].args[:2]
            if any(x is not NONE and not (T.is_num(x) and T.cval(x) == 0) for x in (lo, hi)):
                ctx.bad("pairs", C + " all drawn pairs", "only %s of the parameters are evaluated" % src.args[1], e.where)
            continue
        val, li = body_of(it, src)
        if val is None:
            ctx.und("pairs", C + " parameters", str(src)[:100])
            continue
        it2 = Interp(ctx.prog, opaque=lambda z: z is not wf and z.name == "norm_var_information")
        r2 = it2.run(wf, args={wf.params()[0]: val})
        ctx.saw(it2)
        m = 0
        for ev_ in it2.events:
            fi, a, kw = target(ev_)
            if fi is None or fi.name != "norm_var_information":
                continue
            b = static_bind(fi, a, kw)[0]
            m += evaluation(ctx, it, r, C, L, fi, b, ev_.where)
            v = T.strip(r2.value)
            ctx.tri(True if v is T.strip(ev_.d["result"]) else (False if T.is_const(v) else None), "pairs", C + " value", "%s is returned for each pair" % v, ev_.where, str(v)[:100])
        n += m
        if not m:
            ctx.und("pairs", C + " worker", "%s does not compare partitions" % wf.qual)
    return n


def evaluation(ctx, it, r, C, L, fi, b, where):
    class ev_:
        pass
    ev_.where = where
    if 1:
        ps = fi.params()
        x, y = T.strip(b.get(ps[0])), T.strip(b.get(ps[1]))
        two = x.op in ("idx", "select") and y.op in ("idx", "select") and x.args[0] is y.args[0]
        ctx.tri(True if two and {str(x.args[1]), str(y.args[1])} == {"0", "1"} else (False if x is y else None), "pairs", C + " evaluation", "a partition is compared with itself", ev_.where, "%s / %s" % (x, y))
        N = b.get("N")
        if N is not None and N is not NONE:
            s = P(it, r.st, {})
            ts = s.terms(N) if T.strip(N).op != "sym" else None
            ln_ = T.strip(N)
            ln_ = ln_.args[1][0] if ln_.op == "call" and ln_.args[0] == "len" else None
            if ln_ is not None and (ln_ is L or ln_.op in ("idx", "select") and ln_.args[0] is L or ln_ in (x, y)):
                ctx.bad("pairs", C + " N", "the number of nodes is taken to be %s" % N, ev_.where)
            elif ts and len(ts) == 1:
                ((mono, conds, doms), c), = ts.items()
                d = list(dict(doms))
                good = len(d) == 1 and len(mono) == 1 and c == 1 and not conds and d[0].op in ("idx", "select") and d[0].args[0] is L
                ctx.tri(True if good else None, "pairs", C + " N", "", ev_.where, str(N))
            else:
                nn = T.strip(N)
                lenp = nn.op == "call" and nn.args[0] == "len"
                ctx.tri(False if lenp or T.is_const(nn) else (True if nn.op == "sym" and nn.args[0] == "N" else None), "pairs", C + " N", "the number of nodes is taken to be %s" % nn, ev_.where, str(nn))
    return 1
