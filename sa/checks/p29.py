"""P29 matrices assembled from connected components are those of the whole matrix."""
from __future__ import annotations
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, and_, or_, subterms, rebuild
from .. import terms as T
from ..engine import Interp, State
from ..model import AnalysisBroken
from .timelib import interp

MIN_OBLIGATIONS = 25
RULE = """
The assembly of a block matrix from its connected components (exponential,
parallel exponential, stationary limit) is interpreted abstractly; lists and
dictionaries filled in loops are read back at a symbolic position.  For a
symbolic row: the entries written are those of the block of the row's own
component, at the row's place within it, in the columns of the component's
nodes; data, columns and row pointer use the same running position, which
starts at 0 and advances by the size of the component; every row is visited and
the pointer is closed.  Large and small components together are all of them
and each result is kept under its own component.  Workers get the matrix in the
order the initialiser unpacks it; column i is the exponential applied to the
i-th unit vector.  Thresholding and normalisation happen exactly when asked for.
"""

STOP = {"inplace_csr_row_normalize", "compute_parallel_expm", "csc_row_normalize"}
KEEP = {".toarray", ".todense", ".tocsr", ".tocsc", ".copy", "numpy.asarray", "numpy.array", ".astype"}
EXPM = {"scipy.sparse.linalg.expm", "scipy.linalg.expm"}
NONZ = {".nonzero", "numpy.nonzero", "numpy.where"}


class Unknown(Exception):
    pass


def cname(x):
    return str(x.args[0]) if x.op == "call" else None


def one(x):
    """x[()]-style tuples of one: (v,) -> v"""
    return x.args[0] if x.op == "tuple" and len(x.args) == 1 else x


class Canon:
    """terms over: nodes(k), size(k), posin(row,k), block(X,k), E(X), pos(loop)"""

    def __init__(self, it, st, labels, ncomp, prog=None):
        self.it, self.st, self.labels, self.ncomp, self.prog = it, st, labels, ncomp, prog
        self.memo = {}
        self.busy = set()
        self.domains = {}

    def __call__(self, t):
        t = T.strip(t)
        if t not in self.memo:
            self.memo[t] = rebuild(t, self.f)
        return self.memo[t]

    # ------------------------------------------------------------ containers
    def contents(self, l):
        if l.op == "contents":
            return l.args[1]
        if l.op == "obj":
            c = self.st.heap.get((l, "[]"))
            return c
        return l

    def element(self, l, k):
        """entry k of a list filled in one loop, or None"""
        c = self.contents(l)
        if c is None:
            return None
        if c.op == "listof":
            return self.f(mk("idx", self(c.args[0]), k))
        ph = self.it.phis.get(c) or self.it.phis.get(T.strip(c))
        if c.op != "phi" or ph is None or ph.loop in self.busy:
            return None
        b = T.strip(ph.back)
        if ph.init.op == "seq" and not ph.init.args and b.op == "append" and T.strip(b.args[0]) == T.strip(c):
            self.busy.add(ph.loop)
            v = self(b.args[1])
            self.busy.discard(ph.loop)
            self.domains[ph.loop] = ph
            return T.subst(v, {mk("pos", ph.loop): k})
        return None

    def entries(self, d, k):
        """value of a dictionary filled in loops at key k: [(condition, value)]"""
        c = self.contents(d)
        out = []
        n = 0
        while c is not None and c.op == "phi" and n < 6:
            n += 1
            ph = self.it.phis.get(c)
            if ph is None:
                return None
            b = T.strip(ph.back)
            if b.op != "store" or T.strip(b.args[0]) != T.strip(c):
                return None
            key, v = self(b.args[1]), self(b.args[2])
            self.domains[ph.loop] = ph
            p = mk("pos", ph.loop)
            if key == p:
                out.append((TRUE, T.subst(v, {p: k})))
            elif key.op == "idx" and key.args[1] == p and key.args[0].op == "sel":
                w = T.subst(v, {key: k})
                if any(x == p for x in subterms(w)):
                    out.append((self.at(key.args[0].args[0], k), mk("other", w)))
                else:
                    out.append((self.at(key.args[0].args[0], k), w))
            else:
                return None
            c = ph.init
        if c is None or c.op not in ("emptymap", "seq"):
            return None
        return out

    def at(self, cond, k):
        """a condition on the array of sizes, for component k"""
        return T.subst(cond, {mk("sizes"): mk("size", k)})

    # --------------------------------------------------------------- rewrite
    def f(self, x):
        if x.op == "elem" and len(x.args) > 1:
            d, p = x.args[0], mk("pos", x.args[1])
            if d.op == "call" and cname(d) == "range":
                a = d.args[1]
                return p if len(a) == 1 else (T.add(a[0], p) if len(a) == 2 else x)
            return self.f(mk("idx", d, p))
        if x.op == "call":
            c, a = cname(x), x.args[1]
            if c in ("numpy.flatnonzero",) and a:
                return self.f(mk("idx", mk("call", "numpy.nonzero", (a[0],), (), None), const(0)))
            if c == "numpy.bincount" and a and a[0] == self.labels:
                return mk("sizes")
            if c == "len" and a and a[0].op == "nodes":
                return mk("size", a[0].args[0])
            if c == "len" and a:
                n = self.length(a[0])
                if n is not None:
                    return n
            if c == "numpy.searchsorted" and len(a) == 2 and a[0].op == "nodes":
                return mk("posin", a[1], a[0].args[0])
            if c in EXPM and a:
                return mk("E", a[0])
            if c in KEEP and a and (a[0].op in ("E", "block", "idx", "nodes", "sizes", "col", "mat", "variant")):
                return a[0]
            if c == "fn:compute_parallel_expm" and a:
                kw = dict(x.args[2]) if x.args[2] else {}
                th = a[2] if len(a) > 2 else kw.get("thresh_ratio", NONE)
                nr = a[3] if len(a) > 3 else kw.get("normalize_rows", TRUE)
                if th is NONE and nr is FALSE:
                    return mk("E", a[0])
                return mk("variant", a[0], th, nr)
        if x.op == "attr":
            if x.args[1] == "size" and x.args[0].op == "nodes":
                return mk("size", x.args[0].args[0])
            if x.args[1] == "size" and x.args[0].op == "sizes":
                return self.ncomp
        if x.op in ("idx", "select") and len(x.args) == 2:
            b, k = x.args
            if b.op == "call" and cname(b) in NONZ and len(b.args[1]) == 1 and k == const(0):
                q = b.args[1][0]
                if q.op == "not" and q.args[0].op == "eq" and any(u.op == "nodes" or u == self.labels for u in q.args[0].args):
                    return mk("other", *q.args[0].args)
                if q.op == "eq":
                    for u, v in (q.args, q.args[::-1]):
                        if u == self.labels:
                            return mk("nodes", v)
                        if u.op == "nodes":
                            return mk("posin", v, u.args[0])
                if any(s.op == "sizes" for s in subterms(q)):
                    return mk("sel", q)
            if b.op == "posin" and k == const(0):
                return b
            if b.op == "attr" and b.args[1] == "shape" and b.args[0].op == "nodes" and k == const(0):
                return mk("size", b.args[0].args[0])
            if b.op == "sizes":
                return mk("size", k)
            if k.op == "tuple" and len(k.args) == 2:
                r, c = k.args
                if r.op == "nodes" and whole(c):
                    return mk("rows", b, r.args[0]) if b.op != "cols" else (mk("block", b.args[0], r.args[0]) if b.args[1] == r.args[0] else x)
                if c.op == "nodes" and whole(r):
                    return mk("cols", b, c.args[0]) if b.op != "rows" else (mk("block", b.args[0], c.args[0]) if b.args[1] == c.args[0] else mk("xblock", b.args[0], b.args[1], c.args[0]))
            if b.op == "rows" or b.op == "cols":
                return x
            if k.op == "call" and cname(k) == "numpy.ix_" and len(k.args[1]) == 2 and all(z.op == "nodes" for z in k.args[1]) and k.args[1][0] == k.args[1][1]:
                return mk("block", b, k.args[1][0].args[0])
            if k.op == "nodes" and b.op not in ("phi", "contents", "obj"):
                return mk("rows", b, k.args[0])
            if k.op not in ("slice", "tuple"):
                if b.op == "call" and cname(b) == ".map" and len(b.args[1]) == 3:
                    v = self.element(b.args[1][2], k)
                    if v is not None:
                        return self.f(mk("mapped", b.args[1][1], b.args[1][0], v))
                if b.op in ("phi", "contents", "obj"):
                    v = self.element(b, k)
                    if v is not None:
                        return v
                    es = self.entries(b, k)
                    if es is not None and len(es) == 1 and es[0][0] is TRUE:
                        return es[0][1]
                    if es is not None:
                        return mk("cases", *[z for e in es for z in e])
        if x.op == "mapped" and self.prog is not None:
            fn, pool, v = x.args
            if str(fn) == "fn:_expm_worker" or fn.op == "fn":
                w = worker_value(self.prog, fn, pool, v, self)
                if w is not None:
                    return w
        return x

    def length(self, l):
        c = self.contents(l)
        ph = self.it.phis.get(c) if c is not None and c.op == "phi" else None
        if ph is None:
            return None
        i = T.strip(ph.iter) if ph.iter is not None else None
        if i is not None and i.op == "call" and cname(i) == "range" and len(i.args[1]) == 1:
            return self(i.args[1][0])
        return None


def covers(C, ph):
    """does the loop that fills a container visit every component (or every selected one)?  True/False/None"""
    i = T.strip(ph.iter) if ph.iter is not None else None
    if i is None:
        return None
    seq = [i]
    if i.op == "call" and cname(i) in ("enumerate", "zip", "list", "tuple", "iter"):
        seq = [x for x in i.args[1]]
    res = []
    for q in seq:
        q = T.strip(q)
        if q.op == "call" and cname(q) == "range":
            a = q.args[1]
            hi = C(a[-1]) if len(a) <= 2 else None
            lo = C(a[0]) if len(a) == 2 else const(0)
            if hi is NONE:
                res.append(False)
                continue
            good = (C.ncomp, mk("attr", mk("sizes"), "size"), mk("call", "len", (mk("sizes"),), (), None))
            res.append(True if hi in good and lo == const(0) else (False if hi is not None and simple(hi) and simple(lo) and any(x in good for x in subterms(hi)) else None))
            continue
        w = C(q)
        if w.op == "sel":
            res.append(True)
            continue
        c = C.contents(q)
        ph2 = C.it.phis.get(c) if c is not None and c.op == "phi" else None
        if ph2 is not None and ph2 is not ph:
            C.domains.setdefault(ph2.loop, ph2)
            res.append(True)
        elif w.op == "call" and cname(w) == ".map":
            res.append(True)
        else:
            res.append(None)
    return False if False in res else (None if None in res else True)


def whole(x):
    return x.op == "slice" and all(z is NONE for z in x.args)


def worker_value(prog, fn, pool, v, canon):
    """what the pool's worker returns for the argument v"""
    g = find_fn(prog, fn)
    if g is None:
        return None
    it, r = interp(prog, g, stop=STOP, args={g.params()[0]: v})
    if r.value is None:
        return None
    t = T.strip(r.value)
    env = pool_env(prog, pool)
    if env is None:
        return None

    def h(x):
        if x.op == "idx" and x.args[0].op == "glob" and T.is_const(x.args[1]) and T.cval(x.args[1]) in env:
            return env[T.cval(x.args[1])]
        return x
    c2 = Canon(it, r.st, canon.labels, canon.ncomp, None)
    return c2(rebuild(t, h))


def find_fn(prog, fn):
    n = str(fn)
    n = n[3:] if n.startswith("fn:") else n
    fs = prog.functions(n.split(":")[-1].split(".")[-1])
    return fs[0] if fs else None


def buffers(t):
    """np.frombuffer(RawArray(c, x)) -> x; csc_matrix((x.data, x.indices, x.indptr), shape=(n, n)) -> x"""
    def h(x):
        if x.op == "call":
            c, a = cname(x), x.args[1]
            if c == "numpy.frombuffer" and a and a[0].op == "call" and cname(a[0]).endswith("RawArray") and len(a[0].args[1]) == 2:
                kw = dict(x.args[2]) if x.args[2] else {}
                code, src = a[0].args[1]
                dt = str(kw.get("dtype", a[1] if len(a) > 1 else "numpy.float64"))
                if T.is_const(code) and (T.cval(code), dt) in (("d", "numpy.float64"), ("i", "numpy.int32")):
                    return src
                return mk("reinterpreted", src)
            if c in ("scipy.sparse.csc_matrix",) and a and a[0].op == "tuple" and len(a[0].args) == 3:
                d, i, p = a[0].args
                if d.op == i.op == p.op == "attr" and (d.args[1], i.args[1], p.args[1]) == ("data", "indices", "indptr") and d.args[0] == i.args[0] == p.args[0]:
                    kw = dict(x.args[2]) if x.args[2] else {}
                    sh = kw.get("shape", a[1] if len(a) > 1 else None)
                    n = mk("idx", mk("attr", d.args[0], "shape"), const(0))
                    if sh is None or sh == mk("tuple", n, n) or sh == mk("attr", d.args[0], "shape"):
                        return d.args[0]
                if d.op == i.op == p.op == "attr" and d.args[0] == i.args[0] == p.args[0] and sorted((d.args[1], i.args[1], p.args[1])) == ["data", "indices", "indptr"]:
                    return x if (d.args[1], i.args[1], p.args[1]) == ("data", "indices", "indptr") else mk("reinterpreted", d.args[0])
        return x
    return rebuild(t, h)


def pool_env(prog, pool):
    """names the workers find in the shared dictionary: {name: term over the parent's data}"""
    if pool.op != "call":
        return None
    kw = dict(pool.args[2]) if pool.args[2] else {}
    a = pool.args[1]
    ini = kw.get("initializer", a[1] if len(a) > 1 else None)
    args = kw.get("initargs", a[2] if len(a) > 2 else None)
    if ini is None or args is None or args.op != "tuple":
        return None
    g = find_fn(prog, ini)
    if g is None or len(g.params()) != len(args.args):
        return None
    it, r = interp(prog, g, stop=STOP, args=dict(zip(g.params(), args.args)))
    env = {}
    for e in it.events:
        if e.kind == "setitem" and T.strip(e.d["base"]).op == "glob" and T.is_const(e.d["key"]):
            env[T.cval(e.d["key"])] = buffers(T.strip(e.d["value"]))
    return env


# ------------------------------------------------------------------ assembly
def assembly(ctx, prog, f, want, lab, given):
    """want(canon, row, comp, value) -> True/False/None for the values written in a row"""
    A = sym(f.params()[0])
    st = State()
    if "comp_labels" in f.params():
        for p in ("n_comp", "comp_labels"):
            st.assume(not_(mk("is", sym(p), NONE)) if given is True or given == p else mk("is", sym(p), NONE))
    it, r = interp(prog, f, stop=STOP, st=st)
    ctx.saw(it)
    if given is True:
        labels, ncomp = sym("comp_labels"), sym("n_comp")
    else:
        cc = [T.strip(e.d.get("result", NONE)) for e in it.events if e.kind == "call" and str(e.d["fn"]).endswith("connected_components")]
        if not cc:
            ctx.und("components", lab, "where the components come from was not recognised")
            return
        kw = dict(cc[0].args[2]) if cc[0].args[2] else {}
        ok = cc[0].args[1] and T.strip(cc[0].args[1][0]) == A and (kw.get("directed") is FALSE)
        weak = kw.get("connection")
        dirw = kw.get("directed", TRUE) is TRUE and (weak is None or weak == const("weak"))
        ctx.tri(True if ok or (T.strip(cc[0].args[1][0]) == A and dirw) else
                (False if T.strip(cc[0].args[1][0]) == A else None), "components", lab, "components are computed as %s" % cc[0], f.where, str(cc[0]))
        labels, ncomp = mk("idx", cc[0], const(1)), mk("idx", cc[0], const(0))
        seen = {x for e in it.events if e.kind == "setitem" for v in (e.d["key"], e.d["value"]) for x in subterms(T.strip(v))}
        if given == "comp_labels" and labels not in seen and sym("comp_labels") in seen:
            labels = sym("comp_labels")
    for e in it.events:
        if e.kind == "call" and str(e.d["fn"]) in ("range", "numpy.bincount") and e.d["args"] and e.d["args"][0] is NONE:
            ctx.bad("components", lab + " missing", "the components are not computed although they were not given", e.where)
            return
    C = Canon(it, r.st, labels, ncomp, prog)
    n = mk("idx", mk("attr", A, "shape"), const(0))
    ret = T.strip(r.value) if r.value is not None else None
    rets = [T.strip(e.d["value"]) for e in it.events if e.kind == "return" and e.fi is f] if hasattr(it.events[0], "fi") else []
    mats = {m for m in ([ret] if ret is not None else []) + rets if m is not None and m.op == "call" and cname(m) == "scipy.sparse.csr_matrix"}
    if len(mats) != 1:
        ctx.und("assembly", lab, "the result is not one csr matrix built from three arrays")
        return
    mat = mats.pop()
    a = mat.args[1]
    if not (a and a[0].op == "tuple" and len(a[0].args) == 3):
        ctx.und("assembly", lab, "the result is not built from three arrays")
        return
    kw = dict(mat.args[2]) if mat.args[2] else {}
    sh = C(kw.get("shape", a[1] if len(a) > 1 else NONE))
    ctx.tri(True if sh == mk("tuple", n, n) or sh == mk("attr", A, "shape") else (None if sh is NONE else False), "assembly", lab + " shape", "the result has shape %s" % sh, f.where)
    raw = [e for e in it.events if e.kind == "call" and T.strip(e.d.get("result", NONE)) == mat]
    arrs = raw[0].d["args"][0].args if raw else a[0].args
    who = {}
    for name, x in zip(("data", "indices", "indptr"), arrs):
        who[T.unver(x)] = name
    if len(who) != 3:
        ctx.und("assembly", lab, "the arrays are not told apart")
        return
    stores = {"data": [], "indices": [], "indptr": []}
    for e in it.events:
        if e.kind == "setitem" and T.unver(e.d["base"]) in who:
            stores[who[T.unver(e.d["base"])]].append(e)
    loops = [g for e in stores["data"] for g in e.guards if g.op == "iter"]
    if len(stores["data"]) != 1 or len(stores["indices"]) != 1 or len(loops) != 1 or not stores["indptr"]:
        ctx.und("assembly", lab, "the arrays are not filled in one loop")
        return
    key = loops[0].args[0]
    info = it.loopinfo.get(key)
    dom = T.strip(info["iter"]) if info and info.get("iter") is not None else None
    row = mk("pos", key)
    okdom = dom is not None and dom.op == "call" and cname(dom) == "range" and len(dom.args[1]) == 1
    full = okdom and C(dom.args[1][0]) in (n, mk("call", "len", (labels,), (), None), mk("attr", labels, "size"))
    guard_extra = [g for e in stores["data"] + stores["indices"] for g in e.guards if g.op != "iter" and mentions(g, key)]
    ctx.tri(True if full and not guard_extra else (False if okdom and not full else None), "assembly", lab + " rows", "rows visited: %s" % dom, stores["data"][0].where, str(dom))
    comp = mk("idx", labels, row)
    d, i = stores["data"][0], stores["indices"][0]
    kd, ki = C(d.d["key"]), C(i.d["key"])
    if kd.op != "slice" or ki.op != "slice":
        ctx.und("assembly", lab + " position", "not slices")
        return
    ctx.tri(True if kd == ki else (False if simple(kd) and simple(ki) else None), "assembly", lab + " position", "values go to %s, columns to %s" % (kd, ki), i.where, "%s / %s" % (kd, ki))
    start, stop = kd.args[0], kd.args[1]
    width = T.sub(stop, start)
    ctx.tri(True if width == mk("size", comp) else (False if simple(width) else None), "assembly", lab + " width", "a row takes %s places" % width, d.where, str(width))
    cur = T.strip(d.d["key"]).args[0]
    ph = it.phis.get(cur) if cur.op == "phi" else None
    if ph is None:
        ctx.und("assembly", lab + " cursor", str(cur))
        return
    stepv = T.sub(C(ph.back), C(cur))
    ctx.tri(True if stepv == mk("size", comp) and ph.init == const(0) else (False if simple(stepv) else None), "assembly", lab + " cursor",
            "the position starts at %s and advances by %s" % (ph.init, stepv), d.where, str(stepv))
    okp, badp = set(), None
    for e in stores["indptr"]:
        k, v = C(e.d["key"]), C(e.d["value"])
        inl = any(g.op == "iter" and g.args[0] == key for g in e.guards)
        if inl and k == row and v == C(cur):
            okp.add("rows")
        elif inl and k == T.add(row, const(1)) and v == T.add(C(cur), mk("size", comp)):
            okp |= {"rows", "last"}
        elif not inl and k in (n, const(-1)) and v == C(cur):
            okp.add("last")
        elif not inl and k == const(0) and v == const(0):
            pass
        else:
            badp = badp or (e, k, v)
    if badp is not None:
        e, k, v = badp
        ctx.tri(False if simple(k) and simple(v) else None, "assembly", lab + " row pointer", "row pointer %s is set to %s" % (k, v), e.where, "%s := %s" % (k, v))
    else:
        ctx.tri(True if okp == {"rows", "last"} else False, "assembly", lab + " row pointer", "the row pointer of %s is not set" % ("the end" if "last" not in okp else "the rows"), d.where)
    iv = C(i.d["value"])
    ctx.tri(True if iv == mk("nodes", comp) else (False if simple(iv) else None), "assembly", lab + " columns", "the columns of a row are %s, not the nodes of its component" % iv, i.where, str(iv))
    dv = C(d.d["value"])
    done = set()
    while set(C.domains) - done:
        for key2 in sorted(set(C.domains) - done, key=str):
            done.add(key2)
            ph2 = C.domains[key2]
            ctx.tri(covers(C, ph2), "components", lab + " loop at line %s" % key2[-1][0], "the components visited are %s" % ph2.iter, f.where, str(ph2.iter)[:120])
    want(C, it, r, mat, row, comp, dv, d)


def simple(t):
    """made of recognised pieces only: a difference is a difference"""
    return all(s.op in ("nodes", "size", "posin", "block", "E", "pos", "sym", "const", "idx", "tuple", "slice", "attr", "rows", "cols", "sizes", "xblock", "other", "phi", "cases", "le", "lt",
                        "not", "sel", "variant", "inv", "eq", "is", "call", "sum", "prod", "add", "mul", "poly") or s.op.startswith("bin") or T.is_const(s) for s in subterms(t)) and \
        not any(s.op == "call" and cname(s) not in ("scipy.sparse.csgraph.connected_components", ".sum", "len", "numpy.diff") for s in subterms(t)) and \
        not any(s.op == "contents" or s.op == "obj" for s in subterms(t))


def mentions(g, key):
    return any(x.op == "elem" and len(x.args) > 1 and x.args[1] == key for x in subterms(g))


def expm_rows(ctx, lab, A, thresh=True):
    def want(C, it, r, mat, row, comp, dv, d):
        k = None
        ok = None
        if dv.op in ("idx", "select") and dv.args[1].op == "tuple" and len(dv.args[1].args) == 2 and whole(dv.args[1].args[1]):
            M, k = dv.args[0], dv.args[1].args[0]
        elif dv.op == "idx":
            M, k = dv.args
        else:
            ctx.und("assembly", lab + " values", str(dv)[:200])
            return
        if k.op == "posin":
            ctx.tri(k == mk("posin", row, comp), "assembly", lab + " place in the component", "row %s of the block is used" % k, d.where)
        elif simple(k):
            ctx.bad("assembly", lab + " place in the component", "row %s of the block is used, not the place of the node within its component" % k, d.where)
        else:
            ctx.und("assembly", lab + " place in the component", str(k))
        if M.op == "cases":
            prs = list(zip(M.args[::2], M.args[1::2]))
            conds = [c for c, v in prs]
            ctx.tri(exhaustive(conds, mk("size", comp)), "components",
                    lab + " all of them", "components with %s are computed" % " or ".join(map(str, conds)), d.where, str(conds))
        else:
            prs = [(TRUE, M)]
        for c, v in prs:
            l2 = lab + (" values" if c is TRUE else " values, %s" % c)
            ctx.tri(True if v == mk("E", mk("block", A, comp)) else (False if simple(v) else None), "assembly", l2,
                    "the block of component %s is %s" % (comp, str(v)[:200]), d.where, str(v)[:300])
        post(ctx, lab, it, r, mat)
    return want


LOGIC = {"numpy.logical_and": all, "numpy.logical_or": any, "numpy.logical_not": "not", "numpy.bitwise_and": all, "numpy.bitwise_or": any}


def exhaustive(conds, size):
    """do comparisons of a component's size with constants cover every size?  decided on the breakpoints"""
    cs = set()
    for c in conds:
        for x in subterms(c):
            if x is TRUE or x.op in ("le", "lt", "eq", "not", "and", "or", "binBitAnd", "binBitOr") or x == size or x.op == "call" and str(x.args[0]) in LOGIC:
                continue
            if T.is_const(x) and isinstance(T.cval(x), (int, float)):
                cs.add(T.cval(x))
            elif not any(x in set(subterms(size)) for _ in (0,)):
                return None

    def ev(c, n):
        if c is TRUE or c is FALSE:
            return c is TRUE
        if c.op == "not":
            return not ev(c.args[0], n)
        if c.op in ("and", "or", "binBitAnd", "binBitOr"):
            return (all if c.op in ("and", "binBitAnd") else any)(ev(z, n) for z in c.args)
        if c.op == "call" and LOGIC.get(str(c.args[0])) == "not":
            return not ev(c.args[1][0], n)
        if c.op == "call" and str(c.args[0]) in LOGIC:
            return LOGIC[str(c.args[0])](ev(z, n) for z in c.args[1])
        u, v = [n if z == size else T.cval(z) for z in c.args]
        return u <= v if c.op == "le" else (u < v if c.op == "lt" else u == v)
    pts = {1} | {int(z) + d for z in cs for d in (-1, 0, 1, 2)}
    try:
        return all(any(ev(c, n) for c in conds) for n in pts if n >= 1)
    except Exception:
        return None


def post(ctx, lab, it, r, mat):
    """threshold and normalisation exactly when asked for"""
    data = mk("attr", mat, "data")
    th = sym("thresh_ratio")
    hits = [e for e in it.events if e.kind == "setitem" and T.strip(e.d["base"]) == data]
    good = bad = None
    for e in hits:
        k, v = T.strip(e.d["key"]), T.strip(e.d["value"])
        on = any(T.strip(g) == not_(mk("is", th, NONE)) or T.strip(g) == th for g in e.guards)
        mx = [mk("call", ".max", (data,), (), None), mk("call", "numpy.max", (data,), (), None), mk("call", "max", (data,), (), None)]
        okk = k.op == "lt" and k.args[0] == data and any(k.args[1] == T.mul(m, T.mk("inv", th)) for m in mx)
        if okk and v in (const(0.0), const(0)) and on:
            good = e
        elif k.op in ("lt", "le") and any(s == data for s in subterms(k)):
            bad = bad or (e, k, v, on)
    if bad:
        e, k, v, on = bad
        ctx.bad("threshold", lab, "entries with %s become %s%s" % (short(k), v, "" if on else ", also without a threshold"), e.where)
    elif good:
        ctx.ok("threshold", lab)
    else:
        ctx.tri(None if uses(it, th) else False, "threshold", lab, "the threshold has no effect", "", "not recognised")
    norm = [e for e in it.events if e.kind == "call" and str(e.d["fn"]) == "fn:inplace_csr_row_normalize" and e.d["args"] and T.strip(e.d["args"][0]) == mat]
    nr = sym("normalize_rows")
    if not norm:
        ctx.tri(None if r.value is not None and T.strip(r.value) != mat else False, "normalisation", lab, "the rows are not normalised when asked for", "", "")
    for e in norm:
        g = [T.strip(x) for x in e.guards if not given_guard(x)]
        ctx.tri(True if nr in g and len(g) == 1 else (False if not_(nr) in g or not any(any(s == nr for s in subterms(x)) for x in g) else None), "normalisation", lab,
                "the rows are normalised when %s" % [str(x) for x in g], e.where, str(g))


def uses(it, p):
    """is the parameter used for anything but conditions?"""
    for e in it.events:
        if e.kind in ("setitem", "call", "return", "aug", "mutate", "construct"):
            for v in e.d.values():
                vs = v.values() if isinstance(v, dict) else (v if isinstance(v, (list, tuple)) else (v,))
                for z in vs:
                    if isinstance(z, T.Term) and any(s == p for s in subterms(z)):
                        return True
    return False


def given_guard(g):
    return all(s not in (sym("normalize_rows"), sym("thresh_ratio")) for s in subterms(g)) and any(s in (sym("n_comp"), sym("comp_labels")) for s in subterms(g))


def short(k):
    return str(k).replace("scipy.sparse.", "")[:120]


def stationary_rows(ctx, lab, Tm):
    def want(C, it, r, mat, row, comp, dv, d):
        if any(s == mk("attr", Tm, "indptr") for s in subterms(dv)):
            el = [e for e in it.events if e.kind == "mutate" and "eliminate_zeros" in str(e.d.get("how")) and T.strip(e.d["target"]) == Tm and not e.guards] + \
                 [e for e in it.events if e.kind == "call" and str(e.d["fn"]) == ".eliminate_zeros" and T.strip(e.d["args"][0]) == Tm and not e.guards]
            ctx.check(bool(el), "assembly", lab + " stored zeros", "stored zeros of the matrix count as neighbours", d.where)
        # values: degs[nodes]/degs[nodes].sum() for each way of computing the degrees
        cs = T.cases(dv)
        if cs is None:
            ctx.und("assembly", lab + " values", "too many cases")
            return
        for conds, v in cs:
            w = None
            num_, den = quotient(v)
            if num_ is not None and num_.op == "rows" and num_.args[1] == comp:
                degs = flat(num_.args[0])
                w = den == mk("call", ".sum", (num_,), (), None) or den == mk("call", "numpy.sum", (num_,), (), None)
                wd = degs_ok(degs, Tm)
                ctx.tri(True if wd else (False if simple(degs) else None), "assembly", lab + " degrees", "degrees are %s" % degs, d.where, str(degs))
            elif simple(v) and any(x.op == "rows" for x in subterms(v)):
                w = False
            elif num_ is not None and num_.op == "call" and cname(num_) in ("numpy.sort", "sorted", "numpy.flip", "numpy.roll", "numpy.unique", "reversed") and num_.args[1] and \
                    num_.args[1][0].op == "rows" and num_.args[1][0].args[1] == comp:
                ctx.bad("assembly", lab + " values", "the values of a row are put in another order than its nodes: %s" % str(v)[:120], d.where)
                continue
            ctx.tri(True if w else (False if w is False and simple(v) else None), "assembly", lab + " values",
                    "a row of component c holds %s, not the degrees of its nodes over their sum" % str(v)[:160], d.where, str(v)[:200])
    return want


def flat(t):
    while t.op == "call" and cname(t) in (".squeeze", ".ravel", ".flatten", "numpy.asarray", "numpy.array", "numpy.ravel", "numpy.squeeze", ".astype", ".copy") and t.args[1]:
        t = t.args[1][0]
    return t


def quotient(v):
    """x/y of arrays"""
    ms = T.poly(v)
    if len(ms) != 1:
        return None, None
    (m, c), = ms.items()
    if c != 1 or len(m) != 2:
        return None, None
    a, b = m
    if b.op == "inv":
        return a, b.args[0]
    if a.op == "inv":
        return b, a.args[0]
    return None, None


def degs_ok(degs, Tm):
    if degs == mk("call", "numpy.diff", (mk("attr", Tm, "indptr"),), (), None):
        return True
    if degs.op == "call" and cname(degs) in (".sum", "numpy.sum") and degs.args[1]:
        q = degs.args[1][0]
        ax = degs.args[1][1] if len(degs.args[1]) > 1 else (dict(degs.args[2]) if degs.args[2] else {}).get("axis")
        return q.op == "lt" and q.args == (const(0), Tm) and ax == const(1)
    if degs.op == "call" and cname(degs) == ".getnnz":
        return True
    return False


# -------------------------------------------------------------- column by column
def columns(ctx, prog):
    fs = prog.functions("compute_parallel_expm")
    if not fs:
        ctx.und("columns", "compute_parallel_expm", "not there")
        return
    f = fs[0]
    lab = "compute_parallel_expm"
    A = sym(f.params()[0])
    it, r = interp(prog, f, stop=STOP - {"compute_parallel_expm"})
    ctx.saw(it)
    maps = [e for e in it.events if e.kind == "call" and str(e.d["fn"]) == ".map"]
    if len(maps) != 1 or len(maps[0].d["args"]) != 3:
        ctx.und("columns", lab, "the pool's map was not recognised")
        return
    e = maps[0]
    pool, fn, lst = [T.strip(x) for x in e.d["args"]]
    C = Canon(it, r.st, mk("none"), mk("none"), prog)
    k = sym("%k")
    v = C.element(e.d["args"][2], k)
    n = mk("idx", mk("attr", A, "shape"), const(0))
    if v is None or v.op != "tuple":
        ctx.und("columns", lab + " arguments", str(v))
        return
    # the domain
    c = C.contents(e.d["args"][2])
    ph = it.phis.get(c)
    dom = T.strip(ph.iter) if ph is not None and ph.iter is not None else None
    okd = dom is not None and dom.op == "call" and cname(dom) == "range" and len(dom.args[1]) == 1
    nn = dom.args[1][0] if okd else None
    nn = plain(nn, A) if okd else None
    okn = okd and any(nn == mk("idx", mk("attr", A, "shape"), const(j)) for j in (0, 1))
    ctx.tri(True if okn else (False if okd and not okn else None), "columns", lab + " all of them", "columns computed: %s" % dom, e.where, str(dom))
    g = find_fn(prog, fn)
    if g is None:
        ctx.und("columns", lab + " worker", str(fn))
        return
    env = pool_env(prog, pool)
    if env is None:
        ctx.und("columns", lab + " worker data", "the pool's initialiser was not recognised")
        return
    i, th = sym("%i"), sym("%th")
    # which of the tuple's places is the column, which the threshold
    its, rs = interp(prog, g, stop=STOP, args={g.params()[0]: v})
    ctx.saw(its)
    mult = [x for x in its.events if x.kind == "call" and str(x.d["fn"]).endswith("expm_multiply")]
    if len(mult) != 1:
        ctx.und("columns", lab + " worker", "expm_multiply is not called once")
        return
    m = mult[0]

    def h(x):
        if x.op == "idx" and x.args[0].op == "glob" and T.is_const(x.args[1]) and T.cval(x.args[1]) in env:
            return env[T.cval(x.args[1])]
        return x
    M = plain(rebuild(T.strip(m.d["args"][0]), h), A)
    ctx.tri(True if M == A else (False if any(x.op == "reinterpreted" for x in subterms(M)) else (False if recognised(M) else None)),
            "columns", lab + " matrix", "the workers use %s" % str(M)[:160], m.where, str(M)[:200])
    other = T.subst(rebuild(T.strip(m.d["args"][0]), h), {q: FALSE for q in is_csc(A)})
    other = buffers(rebuild(other, lambda x: T.ite(*x.args) if x.op == "ite" else x))
    conv = [mk("call", c, (A,), (), None) for c in ("scipy.sparse.csc_matrix", ".tocsc", "scipy.sparse.csc_array")]
    ctx.tri(True if any(buffers(T.strip(other)) == T.strip(c) for c in conv) or any(T.strip(other) == T.strip(c) for c in conv) else (False if other == A else None), "columns", lab + " other formats",
            "the arrays of a matrix that is not csc are used as they are", f.where, str(other)[:200])
    vec = T.unver(m.d["args"][1])
    sets = [x for x in its.events if x.kind == "setitem" and T.unver(x.d["base"]) == vec and x.n < m.n] if hasattr(m, "n") and isinstance(m.n, int) else \
        [x for x in its.events[:its.events.index(m)] if x.kind == "setitem" and T.unver(x.d["base"]) == vec]
    zero = vec.op == "call" and cname(vec) == "numpy.zeros"
    okv = zero and len(sets) == 1 and T.strip(sets[0].d["key"]) == k and sets[0].d["value"] in (const(1.0), const(1))
    wrong = zero and len(sets) == 1 and not okv and (T.is_const(sets[0].d["value"]) or T.strip(sets[0].d["key"]) == k)
    ctx.tri(True if okv else (False if wrong or (zero and not sets) else None), "columns", lab + " unit vector",
            "the exponential is applied to %s" % ([("[%s] = %s" % (x.d["key"], x.d["value"])) for x in sets]), m.where, str(vec)[:100])
    if zero:
        sz = plain(rebuild(T.strip(vec.args[1][0]), h), A)
        ctx.tri(True if any(sz == mk("idx", mk("attr", A, "shape"), const(j)) for j in (0, 1)) else None, "columns", lab + " length", "", m.where, str(sz)[:120])
    # threshold of the column
    col = T.strip(m.d.get("result", NONE))
    thr = v.args[1] if len(v.args) > 1 else None
    good = bad = None
    for x in its.events:
        if x.kind == "setitem" and T.strip(x.d["base"]) == col:
            kk, vv = T.strip(x.d["key"]), x.d["value"]
            on = any(T.strip(q) == not_(mk("is", sym("thresh_ratio"), NONE)) or T.strip(q) == sym("thresh_ratio") for q in x.guards)
            mx = [mk("call", nm, (col,), (), None) for nm in (".max", "numpy.max", "max")]
            if kk.op == "lt" and kk.args[0] == col and any(kk.args[1] == T.mul(q, mk("inv", sym("thresh_ratio"))) for q in mx) and vv in (const(0), const(0.0)) and on:
                good = x
            else:
                bad = bad or (x, kk, vv, on)
    if bad:
        ctx.tri(False if bad[1].op in ("lt", "le") else None, "threshold", lab, "entries with %s become %s%s" % (short(bad[1]), bad[2], "" if bad[3] else ", also without a threshold"), bad[0].where)
    else:
        ctx.tri(True if good else (None if uses(its, sym("thresh_ratio")) else False), "threshold", lab, "the threshold has no effect", g.where, "not recognised")
    # what the worker returns: the column as a 1 x N row
    ret = T.strip(rs.value) if rs.value is not None else None
    okr = ret is not None and ret.op == "call" and cname(ret) in ("scipy.sparse.csc_matrix", "scipy.sparse.csr_matrix", "scipy.sparse.coo_matrix") and len(ret.args[1]) == 1 and ret.args[1][0] == col
    # put together
    mp = T.strip(e.d.get("result", NONE))
    out = T.strip(r.value) if r.value is not None else None
    o = out
    while o is not None and o.op == "call" and cname(o) in (".tocsr", ".copy", "scipy.sparse.csr_matrix") and o.args[1]:
        o = o.args[1][0]
    tr = False
    while o is not None and (o.op == "attr" and o.args[1] == "T" or o.op == "call" and cname(o) == ".transpose"):
        tr = not tr
        o = o.args[0] if o.op == "attr" else o.args[1][0]
    stk = o is not None and o.op == "call" and cname(o) in ("scipy.sparse.vstack", "scipy.sparse.hstack") and o.args[1] and o.args[1][0] == mp
    if okr and stk:
        ctx.check(tr and cname(o).endswith("vstack"), "columns", lab + " put together", "the columns are put together as %s%s" % (cname(o), " transposed" if tr else ", as rows"), f.where)
    else:
        ctx.und("columns", lab + " put together", "%s / %s" % (str(ret)[:80], str(out)[:80]))
    norm = [x for x in it.events if x.kind == "call" and str(x.d["fn"]) == "fn:inplace_csr_row_normalize"]
    nr = sym("normalize_rows")
    if not norm:
        ctx.tri(False if stk else None, "normalisation", lab, "the rows are not normalised when asked for", f.where)
    for x in norm:
        gs = [T.strip(q) for q in x.guards]
        ctx.tri(True if nr in gs and len(gs) == 1 else (False if not_(nr) in gs or not any(any(s == nr for s in subterms(q)) for q in gs) else None), "normalisation", lab,
                "the rows are normalised when %s" % [str(q) for q in gs], x.where)
        ctx.tri(True if T.strip(x.d["args"][0]) == out else None, "normalisation", lab + " of the result", "", x.where, str(x.d["args"][0])[:100])


def plain(t, A):
    """conversions of the given matrix to csc do not change it"""
    def h(x):
        if x.op == "call" and cname(x) in ("scipy.sparse.csc_matrix", ".tocsc", "scipy.sparse.csc_array") and x.args[1] and x.args[1][0] == A:
            return A
        if x.op == "ite" and x.args[1] == x.args[2]:
            return x.args[1]
        return x
    return buffers(rebuild(T.strip(t), h))


def is_csc(A):
    return [mk("call", "scipy.sparse.isspmatrix_csc", (A,), (), None), mk("isinst", A, "csc_matrix"), mk("eq", mk("attr", A, "format"), const("csc")), mk("eq", const("csc"), mk("attr", A, "format"))]


def recognised(M):
    return all(s.op in ("sym", "attr", "idx", "tuple", "ite", "call", "const") or T.is_const(s) for s in subterms(M)) and M.op == "attr"


def run(ctx):
    prog = ctx.prog
    for name, parallel in (("compute_subspace_expm", False), ("compute_subspace_expm_parallel", True)):
        fs = prog.functions(name)
        if not fs:
            raise AnalysisBroken("%s is missing" % name)
        for given, w in ((True, "given"), (False, "not given"), ("n_comp", "only counted"), ("comp_labels", "only labelled")):
            if given not in (True, False) and given not in fs[0].params():
                continue
            lab = "%s, components %s" % (name, w)
            with ctx.guard("assembly", lab):
                assembly(ctx, prog, fs[0], expm_rows(ctx, lab, sym(fs[0].params()[0])), lab, given)
    fs = prog.functions("compute_stationary_transition")
    if fs:
        lab = "compute_stationary_transition"
        with ctx.guard("assembly", lab):
            assembly(ctx, prog, fs[0], stationary_rows(ctx, lab, sym(fs[0].params()[0])), lab, False)
    with ctx.guard("columns", "compute_parallel_expm"):
        columns(ctx, prog)
