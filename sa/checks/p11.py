"""P11 parallel runs compute what the serial run would."""
from __future__ import annotations
import ast
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms, rebuild
from .. import terms as T
from ..engine import Interp, State
from ..model import AnalysisBroken, FuncInfo
from ..fwd import calls_to, static_bind, target
from .p14 import differs

MIN_OBLIGATIONS = 40
RULE = """
Every process pool of the package is found; its initialiser is interpreted with
the argument tuple it is given and the worker with the parameter tuple it is
mapped over, so that what a worker computes is expressed in terms of the
caller's data (shared arrays and globals resolved).  The worker's search must
receive the caller's matrices, weights, null model, symmetry flag, limits and
options, each in its own role; shared arrays are read back with the element
type they were written with; results come back attached to the right run.
"""

SIZE = {"d": ("f", 8), "f": ("f", 4), "l": ("i", 8), "q": ("i", 8), "i": ("i", 4), "L": ("u", 8), "I": ("u", 4), "h": ("i", 2), "b": ("i", 1)}
DT = {"float64": ("f", 8), "double": ("f", 8), "float32": ("f", 4), "int64": ("i", 8), "int32": ("i", 4), "int_": ("i", 8), "intc": ("i", 4),
      "uint64": ("u", 8), "uint32": ("u", 4), "float": ("f", 8), "int": ("i", 8), "longlong": ("i", 8), "float16": ("f", 2), "int16": ("i", 2)}
ORDERED = {".map", ".imap", ".starmap", "map"}


def dtname(t):
    if t is None:
        return "float64"
    if t.op == "const":
        return str(T.cval(t))
    return str(t).rsplit(".", 1)[-1]


def run(ctx):
    prog = ctx.prog
    n = 0
    for m in prog.modules.values():
        if "scripts" in m.name:
            continue            # command-line front ends: P18
        for f in m.all_functions():
            if not any(isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and
                       (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) == "Pool" for x in ast.walk(f.node)):
                continue
            n += pools(ctx, f)
    if n == 0:
        ctx.und("pools", "package", "no process pool found")
    for m in prog.modules.values():
        for f in m.all_functions():
            if f.cls is None and "scripts" not in m.name and {"connected_components", "bincount"} <= {
                    ast.unparse(x.func).rsplit(".", 1)[-1] for x in ast.walk(f.node) if isinstance(x, ast.Call)} and "expm" in f.name:
                with ctx.guard("assembly", f.qual):
                    assembly(ctx, f)


def is_all(t):
    return t.op == "slice" and all(a is NONE for a in t.args)


def assembly(ctx, f):
    """block-wise computed matrices are put together block by block, row by row"""
    it = Interp(ctx.prog, opaque=lambda z: z is not f)
    r = it.run(f)
    ctx.saw(it)
    ret = T.unver(r.value)
    if not (ret.op == "call" and str(ret.args[0]).rsplit(".", 1)[-1] in ("csr_matrix", "csc_matrix", "csr_array") and ret.args[1] and ret.args[1][0].op == "tuple"
            and len(ret.args[1][0].args) == 3):
        ctx.und("assembly", f.qual, str(ret))
        return
    D, I, Q = ret.args[1][0].args
    w = {D: [], I: [], Q: []}
    for e in it.events:
        if e.kind == "setitem" and T.unver(e.d["base"]) in w:
            w[T.unver(e.d["base"])].append((T.unver(e.d["key"]), T.unver(e.d["value"]), e))
    if len(w[D]) != 1 or len(w[I]) != 1 or not w[Q]:
        ctx.und("assembly", f.qual, "writes %s" % [len(x) for x in w.values()])
        return
    (dk, dv, de), (ik, iv, ie) = w[D][0], w[I][0]
    C = f.qual
    ctx.tri(True if dk is ik else (False if dk.op == "slice" and ik.op == "slice" else None), "assembly", C + " values and columns",
            "values go to %s, their column numbers to %s" % (dk, ik), de.where)
    ctx.check(str(ret.args[0]).rsplit(".", 1)[-1].startswith("csr"), "assembly", C + " format", "rows are stored one after the other but read as columns", de.where)
    # start of the row
    rows = [(k, v, e) for k, v, e in w[Q] if k.op == "elem"]
    row = rows[0][0] if rows else None
    if row is None or dk.op != "slice":
        ctx.und("assembly", C + " row", str([str(k) for k, v, e in w[Q]]))
        return
    ctx.tri(True if rows[0][1] is dk.args[0] else None, "assembly", C + " row start", "", rows[0][2].where, "%s / %s" % (rows[0][1], dk.args[0]))
    # value of the row
    if dv.op == "idx" and dv.args[1].op == "tuple" and len(dv.args[1].args) == 2:
        a, b = dv.args[1].args
        X = dv.args[0]
        if is_all(a) and not is_all(b):
            ctx.bad("assembly", C + " row values", "row %s of the result is filled with a column of its block" % row, de.where)
            return
        ok = None
        if is_all(b):
            q = a
            if q.op == "idx" and T.is_const(q.args[1]) and T.cval(q.args[1]) == 0:
                q = q.args[0]
            if q.op == "call" and str(q.args[0]).rsplit(".", 1)[-1] in ("where", "nonzero", "flatnonzero", "argwhere") and q.args[1] and q.args[1][0].op == "eq":
                x, y = q.args[1][0].args
                cols = y if x is row else x if y is row else None
                if cols is not None:
                    ok = cols is iv
                    ctx.tri(True if ok else (False if iv.op == "idx" and cols.op == "idx" and iv.args[0] is cols.args[0] else None), "assembly", C + " row values",
                            "the row is looked up among %s but its columns are %s" % (cols, iv), de.where, "%s / %s" % (cols, iv))
                    if ok and X.op == "idx" and iv.op == "idx":
                        ctx.tri(True if X.args[1] is iv.args[1] else (False if X.args[1].op == iv.args[1].op else None), "assembly", C + " block",
                                "values of block %s with the columns of block %s" % (X.args[1], iv.args[1]), de.where)
        if ok is None:
            ctx.und("assembly", C + " row values", str(dv))
    else:
        ctx.und("assembly", C + " row values", str(dv))
    # blocks split by size: every block is computed
    keys = {}
    for e in it.events:
        if e.kind == "setitem" and T.unver(e.d["base"]).op == "obj":
            k = T.unver(e.d["key"])
            for x in subterms(k):
                if x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] in ("nonzero", "where", "flatnonzero") and len(x.args[1]) == 1:
                    keys.setdefault(T.unver(e.d["base"]), []).append((x.args[1][0], e))
                    break
            # results of the pool stored under the block they were computed for
            v = T.unver(e.d["value"])
            if v.op == "idx" and v.args[0].op == "call" and v.args[0].args[0] == ".map" and len(v.args[0].args[1]) >= 3:
                el, lp = elements(it, r.st, v.args[0].args[1][2])
                pos, k = T.strip(v.args[1]), T.strip(k)
                ok = None
                if el is not None and k.op == "idx" and k.args[1] is pos:
                    el = T.strip(el)
                    if el.op in ("idx", "select") and el.args[1].op == "elem":
                        ok = el.args[1].args[0] is k.args[0]
                ctx.tri(True if ok else (False if ok is False and k.op == "idx" else None), "assembly", C + " results of the pool",
                        "the result for block %s is stored as block %s" % (el, k), e.where, "%s / %s" % (el, k))
    for base, ks in keys.items():
        if len(ks) == 2:
            (x, ex), (y, ey) = ks
            neg = [z.args[0] if z.op in ("invert", "not") else not_(z) for z in (x, y)]
            comp = neg[0] is y or neg[1] is x
            ctx.tri(True if comp else (False if all(z.op in ("le", "lt") for z in (x, y)) else None), "assembly", C + " every block",
                    "blocks are computed when %s or %s: not all of them, or some twice" % (x, y), ey.where, "%s / %s" % (x, y))


def pools(ctx, f):
    prog = ctx.prog
    helpers = {g for m in prog.modules.values() for g in m.all_functions() if g.name.startswith("_") and g.module is f.module and g.cls is None}
    it = Interp(prog, opaque=lambda fi: fi is not f and not (fi in helpers and not is_worker(prog, fi)))
    r = it.run(f)
    ctx.saw(it)
    k = 0
    for e in it.events:
        if e.kind != "call":
            continue
        name = str(e.d["fn"])
        a = e.d["args"]
        if name in (".map", ".imap", ".imap_unordered", ".starmap", ".map_async") and len(a) >= 3:
            pool, W, plist = T.strip(a[0]), T.strip(a[1]), a[2]
        elif name == "map" and len(a) == 2:
            pool, W, plist = None, T.strip(a[0]), a[1]
        else:
            continue
        if W.op != "fun":
            continue
        k += 1
        one_pool(ctx, it, f, r, e, name, pool, W.args[0], plist)
    return k


def is_worker(prog, fi):
    return any(isinstance(x, ast.Global) for x in ast.walk(fi.node)) or "var_dict" in ast.unparse(fi.node) or len(fi.params()) == 1


def elements(it, st, plist):
    """term of the generic element of the parameter list"""
    c = plist.args[1] if plist.op == "contents" else st.heap.get((plist, "[]"))
    c = c if c is not None else plist
    if c.op == "phi":
        i = it.phis.get(c)
        if i is not None and i.back is not None and i.back.op == "append":
            return i.back.args[1], i.loop
    for v in it.heaplog.get((plist, "[]"), ()):
        if v.op == "append":
            return v.args[1], None
    return None, None


def one_pool(ctx, it, f, r, e, name, pool, W, plist):
    prog = ctx.prog
    C0 = "%s -> %s" % (f.qual, W.name)
    P, loop = elements(it, r.st, plist)
    if P is None:
        # look at the contents at call time
        for cand in (T.strip(plist),):
            P, loop = elements(it, r.st, cand)
    if P is None:
        ctx.und("pool-params", C0, "parameter list %s" % plist)
        return
    # ------------------------------------------------ initialiser
    env = {}
    if pool is not None and pool.op == "call":
        kw = dict(pool.args[2])
        pos = list(pool.args[1])
        I = kw.get("initializer", pos[1] if len(pos) > 1 else None)
        A = kw.get("initargs", pos[2] if len(pos) > 2 else None)
        if I is not None and I.op == "fun":
            fi = I.args[0]
            if A is None or A.op not in ("tuple", "seq"):
                ctx.und("pool-initargs", C0, str(A))
            else:
                b, miss, extra, star = static_bind(fi, list(A.args), {})
                ctx.check(not miss and not extra, "pool-initargs", "%s -> %s" % (f.qual, fi.name),
                          "initialiser receives %d values; missing %s, extra %s" % (len(A.args), sorted(miss), len(extra)), e.where)
                i2 = Interp(prog, opaque=lambda z: True)
                r2 = i2.run(fi, args=b, st=carry(i2, it, r))
                ctx.saw(i2)
                for ev in i2.events:
                    if ev.kind == "setitem" and ev.d["base"].op in ("glob", "obj", "at", "ext") and T.is_const(ev.d["key"]):
                        env[T.cval(ev.d["key"])] = shared(ctx, C0, fi.name, T.strip(ev.d["value"]), ev)
                for (o, fld), v in r2.st.heap.items():
                    if o.op == "glob" or (o.op == "mod"):
                        pass
        elif I is not None:
            ctx.und("pool-initargs", C0, str(I))
    # ------------------------------------------------ worker
    i3 = Interp(prog, opaque=lambda z: z is not W and not z.name.startswith("_worker_"))
    ps = W.params()
    if len(ps) < 1:
        ctx.und("pool-params", C0, "worker takes no parameter")
        return
    if name == ".starmap" and P.op == "tuple":
        args = dict(zip(ps, P.args))
    else:
        args = {ps[0]: P}
    unpack_count(ctx, C0, W, ps[0], P, e)
    r3 = i3.run(W, args=args, st=carry(i3, it, r))
    ctx.saw(i3)
    missing = set()

    def res(t):
        if t is None:
            return None

        def g(x):
            if x.op in ("idx", "select") and T.is_const(x.args[1]) and (x.args[0].op == "glob" or x.args[0].op == "init" or "var_dict" in str(x.args[0])):
                k = T.cval(x.args[1])
                if k in env:
                    return env[k]
                if env:
                    missing.add(k)
            return x
        return shared(ctx, C0, W.name, rebuild(T.strip(t), g), None)
    ctors = [(ev, fi, b, st_) for ev, fi, b, st_ in calls_to(i3, {"__init__"}) if fi.cls is not None and fi.cls.is_a("BaseClustering")]
    if ctors:
        clustering_worker(ctx, it, f, r, e, W, i3, r3, ctors, res, C0, P, loop)
    else:
        other_worker(ctx, it, f, r, e, name, W, i3, r3, res, C0, P, loop, env)
    for k in sorted(missing):
        ctx.bad("pool-globals", C0 + " " + str(k), "the worker reads %r, which the initialiser does not provide" % k, W.where)


def carry(new, old, r):
    """objects of the caller stay known in the worker"""
    new.objs.update(old.objs)
    new.phis.update(old.phis)
    new.loopinfo.update(old.loopinfo)
    st = State()
    for (o, fld), v in r.st.heap.items():
        if not (o.op in ("glob", "mod") or any(x.op == "glob" for x in subterms(o))):
            st.heap[(o, fld)] = v
    return st


def unpack_count(ctx, C0, W, p, P, e):
    if P.op != "tuple":
        return
    for x in ast.walk(W.node):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == p and isinstance(x.targets[0], (ast.Tuple, ast.List)):
            if any(isinstance(z, ast.Starred) for z in x.targets[0].elts):
                continue
            ctx.check(len(x.targets[0].elts) == len(P.args), "pool-params", C0 + " unpacking",
                      "the worker unpacks %d values, it is given %d" % (len(x.targets[0].elts), len(P.args)), e.where)


_bad = set()


def shared(ctx, C, who, t, ev):
    """resolve shared arrays to what they were filled with"""
    def g(x):
        if x.op == "call" and str(x.args[0]).endswith("frombuffer") and x.args[1]:
            src = x.args[1][0]
            if src.op == "call" and str(src.args[0]).rsplit(".", 1)[-1] in ("RawArray", "Array") and len(src.args[1]) >= 2 and T.is_const(src.args[1][0]):
                tc = T.cval(src.args[1][0])
                d = dict(x.args[2]).get("dtype", x.args[1][1] if len(x.args[1]) > 1 else None)
                a, b = SIZE.get(tc), DT.get(dtname(d))
                key = "%s %s" % (C, src.args[1][1])
                if a is not None and b is not None:
                    ctx.check(a == b, "shared-type", key, "written as %r, read as %s" % (tc, dtname(d)), ev.where if ev is not None else "")
                else:
                    ctx.und("shared-type", key, "%s / %s" % (tc, d))
                extra = set(dict(x.args[2])) - {"dtype"}
                if not extra and len(x.args[1]) <= 2:
                    return src.args[1][1]
            return x
        if x.op == "call" and x.args[0] == ".reshape" and x.args[1]:
            b = x.args[1][0]
            if b.op == "attr" and b.args[1] == "flat" and not dict(x.args[2]).get("order"):
                return b.args[0]
            o = dict(x.args[2]).get("order")
            if b.op == "attr" and b.args[1] == "flat" and o is not None and T.is_const(o):
                return b.args[0] if T.cval(o) in ("C", "A") else mk("attr", b.args[0], "T") if T.cval(o) == "F" else x
            if b.op == "call" and str(b.args[0]) in (".flatten", ".ravel") and len(b.args[1]) == 1 and not b.args[2] and not x.args[2]:
                return b.args[1][0]
            return x
        if x.op == "attr" and x.args[0].op == "call" and str(x.args[0].args[0]) == "cls:SparseAutocovMat":
            b = ctor_args(ctx.prog, x.args[0])
            if x.args[1] in b and x.args[1] in ("PT", "p1", "p2", "PT_symmetric"):
                return b[x.args[1]]
        if x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] in ("csr_matrix", "csc_matrix", "csr_array", "csc_array") and x.args[1] and x.args[1][0].op == "tuple" \
                and len(x.args[1][0].args) == 3:
            d, i, p = x.args[1][0].args
            if all(z.op == "ite" for z in (d, i, p)) and len({z.args[0] for z in (d, i, p)}) == 1:
                br = []
                for k in (1, 2):
                    w = x.args[1][0]
                    y = mk("call", x.args[0], (mk("tuple", *[z.args[k] for z in w.args]),) + tuple(x.args[1][1:]), *x.args[2:])
                    br.append(g(y))
                return mk("ite", d.args[0], br[0], br[1])
            if all(z.op == "attr" for z in (d, i, p)):
                names = tuple(z.args[1] for z in (d, i, p))
                base = {z.args[0] for z in (d, i, p)}
                if names == ("data", "indices", "indptr") and len(base) == 1:
                    ctx.check(len(x.args[1]) > 1 or "shape" in dict(x.args[2]), "shared-shape", "%s %s" % (C, next(iter(base))),
                              "the shape of the matrix is guessed from its entries: empty last columns are lost", ev.where if ev is not None else "")
                    return mk("asfmt", base.pop(), str(x.args[0]).rsplit(".", 1)[-1][:3])
        return x
    return rebuild(t, g)


def ctor_args(prog, t):
    cls = prog.cls(str(t.args[0])[4:])
    ini = cls.find("__init__")
    b = dict(zip(ini.params()[1:], t.args[1]))
    b.update(dict(t.args[2]))
    return b


def opened(t, fmt=None):
    """forget that a matrix was rebuilt from its own arrays in its own format"""
    return rebuild(t, lambda x: x.args[0] if x.op == "asfmt" else x)


def mixed(t):
    """a matrix put together from the arrays of different matrices"""
    for x in subterms(t):
        if x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] in ("csr_matrix", "csc_matrix") and x.args[1] and x.args[1][0].op == "tuple" and len(x.args[1][0].args) == 3:
            ps = [T.strip(y) for y in x.args[1][0].args]
            if all(y.op == "attr" and y.args[1] in ("data", "indices", "indptr") for y in ps) and (len({y.args[0] for y in ps}) > 1 or [y.args[1] for y in ps] != ["data", "indices", "indptr"]):
                return True
    return False


def clustering_worker(ctx, it, f, r, e, W, i3, r3, ctors, res, C0, P, loop):
    prog = ctx.prog
    cl = sym(f.params()[0])
    # class under which this pool runs
    want_cls = None
    for g in e.guards:
        for x in (g.args if g.op == "and" else (g,)):
            if x.op in ("is", "eq") and "type(" in str(x.args[0]):
                want_cls = str(x.args[1]).replace("class:", "")
            elif x.op == "isinstance" or (x.op == "call" and x.args[0] == "isinstance"):
                want_cls = str(x.args[-1][-1] if isinstance(x.args[-1], tuple) else x.args[-1]).replace("class:", "")
    for ev, fi, b, star in ctors:
        cname = ev.d["cls"].name if ev.kind == "call" and ev.d.get("cls") is not None else fi.cls.name
        if want_cls:
            ctx.check(cname == want_cls, "worker-class", C0, "a %s is clustered as a %s" % (want_cls, cname), ev.where)
        S = mk("attr", cl, "_S")
        for n in ("p1", "p2", "T", "S"):
            v = res(b.get(n))
            C = "%s %s" % (C0, n)
            if v is None:
                ctx.tri(False if n != "T" else None, "worker-inputs", C, "%s is not given to the clustering of a worker" % n, ev.where)
                continue
            if n == "S" and v.op == "call" and str(v.args[0]) == "cls:SparseAutocovMat":
                q = ctor_args(prog, v)
                for m, w in (("PT", mk("attr", S, "PT")), ("p1", mk("attr", S, "p1")), ("p2", mk("attr", S, "p2"))):
                    x = q.get(m)
                    if x is not None and x.op == "asfmt" and x.args[1] != "csr":
                        ctx.bad("worker-inputs", C + "." + m, "the arrays of a csr matrix are read as %s" % x.args[1], ev.where)
                        continue
                    x = opened(x) if x is not None else None
                    ctx.tri(None if x is None else True if x is w else (False if base_is(x, cl) or mixed(x) else None), "worker-inputs", C + "." + m,
                            "%s of the covariance is %s" % (m, x), ev.where, str(x))
                x = q.get("PT_symmetric", FALSE)
                ctx.tri(True if x is mk("attr", S, "PT_symmetric") or x is FALSE else (False if x is TRUE else None), "worker-inputs", C + ".PT_symmetric",
                        "any matrix is treated as symmetric", ev.where, str(x))
                continue
            v = opened(v)
            w = [S] if n == "S" else [mk("attr", cl, n)]
            if n == "T":
                w.append(mk("attr", S, "PT"))
            q = v
            while q.op == "call" and q.args[0] in (".tocsr", ".tocsc", ".copy", ".toarray") and len(q.args[1]) == 1:
                q = q.args[1][0]
            ctx.tri(True if q in w else (False if base_is(q, cl) or T.is_const(v) or mixed(v) else None), "worker-inputs", C, "%s is %s" % (n, v), ev.where, str(v))
        seed = b.get("rnd_seed")
        seedv = T.strip(seed) if seed is not None else None
        finds = calls_to(i3, {"find_louvain_clustering"})
        fseed = [z[2].get("rnd_seed") for z in finds if z[2].get("rnd_seed") is not None]
        used = T.strip(fseed[0]) if fseed else seedv
        per_run = used is not None and any(x.op == "elem" and (loop is None or x.args[1] == loop) for x in subterms(used))
        ctx.tri(True if per_run else (False if used is None or not any(x.op == "elem" for x in subterms(used)) else None), "worker-seed", C0,
                "the runs are seeded with %s, not each with its own seed" % used, ev.where, str(used))
        if "num_repeat" in f.params() and per_run:
            el = [x for x in subterms(used) if x.op == "elem"]
            seeds(ctx, it, r, f, e, {"iter": el[0].args[0]}, C0)
        for e2, fi2, b2, star2 in finds:
            for n in ("n_meta_iter_max", "n_sub_iter_max", "print_num_loops", "delta_r_threshold"):
                if n in f.params():
                    v = b2.get(n)
                    ctx.tri(True if v is sym(n) else (False if v is None or v.op in ("sym", "const") else None), "worker-options", C0 + " " + n,
                            "the search of a worker receives %s = %s" % (n, v), e2.where, str(v))
            if "clust_verbose" in f.params():
                v = b2.get("verbose")
                ctx.tri(True if v is sym("clust_verbose") else (False if v is None or v.op in ("sym", "const") else None), "worker-options", C0 + " verbose",
                        "the search of a worker receives verbose = %s" % v, e2.where, str(v))
        if not finds:
            ctx.bad("worker-search", C0, "the worker does not run the search", W.where)
        # results
        ret = T.strip(r3.value)
        if ret.op != "tuple":
            ctx.und("worker-results", C0, str(ret))
            continue
        roles = []
        for x in ret.args:
            s = str(x)
            if used is not None and x is used:
                roles.append("seed")
            elif x.op == "call" and s.startswith("fn:") and ".compute_stability" in str(x.args[0]):
                roles.append("stability")
            elif x.op == "attr" and x.args[1] == "cluster_list":
                roles.append("clusters")
            elif x.op == "call" and s.startswith("fn:") and ".find_louvain_clustering" in str(x.args[0]):
                roles.append("number of loops")
            else:
                roles.append("?")
        # results are taken after the search
        order = [(z.kind, z) for z in i3.events]
        fpos = max([i for i, z in enumerate(i3.events) if target(z)[0] is not None and target(z)[0].name == "find_louvain_clustering"] or [-1])
        for i, z in enumerate(i3.events):
            t, _, _ = target(z)
            if t is not None and t.name == "compute_stability":
                ctx.check(i > fpos, "worker-results", C0 + " stability after the search", "the stability is taken before the search has run", z.where)
        # how the caller hands them out
        names = caller_roles(it, f, r, e)
        if names is None:
            ctx.und("worker-results", C0, "caller unpacking not recognised")
            continue
        for pos, want in enumerate(("clusters", "stability", "seed")):
            if pos >= len(names):
                ctx.und("worker-results", C0 + " " + want, "")
                continue
            j = names[pos]
            got = roles[j] if j is not None and j < len(roles) else "?"
            ctx.tri(True if got == want else (False if got != "?" else None), "worker-results", C0 + " " + want,
                    "result %d of the runs (%s) is returned as the %s" % (j if j is not None else -1, got, want), e.where, "%s" % (roles,))
        if "seed" not in roles:
            for x in ret.args:
                if x.op == "elem" or x.op == "sym" or T.is_const(x):
                    ctx.bad("worker-results", C0 + " seed", "the seed reported (%s) is not the seed used (%s)" % (x, used), W.where)


def seeds(ctx, it, r, f, e, info, C0):
    """one run per repetition asked for, each with a seed drawn for it"""
    n = sym("num_repeat")
    d = info.get("iter")
    if d is None:
        return
    d = T.unver(d)
    s = T.strip(d)
    ev = it
    draw = ("urandom", "randint", "integers", "randrange", "getrandbits", "random", "generate_state", "spawn", "token_bytes", "randbits", "sample")
    if s.op == "call" and str(s.args[0]).startswith("fn:"):
        g = [x for x in ctx.prog.functions(str(s.args[0])[3:].rsplit(".", 1)[-1].rsplit(":", 1)[-1]) if x.module is f.module or x.cls is None]
        g = [x for x in g if x.module is f.module] or g
        if not g or not g[0].params():
            return ctx.und("worker-runs", C0, str(s))
        ev = Interp(ctx.prog)
        r = ev.run(g[0], args=dict(zip(g[0].params(), s.args[1])))
        ctx.saw(ev)
        d = T.unver(r.value)
        s = T.strip(d)
    c = r.st.heap.get((d, "[]")) if d.op == "obj" else d
    c = T.unver(c) if c is not None else s
    if c.op == "repeat" or (c.op == "poly" and s.op == "poly"):
        return ctx.bad("worker-runs", C0, "several runs use the same seed: the seeds are %s" % c, e.where)
    if c.op == "phi":
        i = [i for q, i in ev.phis.items() if T.unver(q) is c]
        b = T.unver(i[0].back) if i and i[0].back is not None else None
        if b is None or b.op != "append" or b.args[0] is not c or i[0].iter is None:
            return ctx.und("worker-runs", C0, str(c))
        k = T.strip(i[0].iter)
        cnt = k.args[1][0] if k.op == "call" and str(k.args[0]) == "range" and len(k.args[1]) == 1 else k.args[0] if k.op == "range" and len(k.args) == 1 else None
        ctx.tri(None if cnt is None else True if cnt is n else (False if cnt.op in ("sym", "const", "poly") or differs(cnt, n) else None), "worker-runs", C0 + " number",
                "%s runs instead of %s" % (cnt, n), e.where, str(k))
        inloop = [x for x in ev.events if x.kind == "call" and any(g.op == "iter" and g.args[0] == i[0].loop for g in x.guards) and str(x.d["fn"]).rsplit(".", 1)[-1] in draw]
        out = [x for x in ev.events if x.kind == "call" and not any(g.op == "iter" for g in x.guards) and str(x.d["fn"]).rsplit(".", 1)[-1] in draw]
        v = b.args[1]
        own = any(x.op == "elem" for x in subterms(v))
        ctx.tri(True if inloop or own else (False if out and not own else None), "worker-runs", C0 + " drawn", "the seed is drawn once and used for every run", e.where, str(v))
    elif c.op in ("idx", "select") and c.args[1].op == "slice":
        ctx.bad("worker-runs", C0 + " number", "only part of the runs is done: %s" % c, e.where)
    elif c.op == "call" and str(c.args[0]).rsplit(".", 1)[-1] in draw + ("range",):
        vals = list(c.args[1]) + [v for _, v in c.args[2]]
        ctx.tri(True if n in vals else None, "worker-runs", C0 + " number", "", e.where, str(c))
    else:
        ctx.und("worker-runs", C0, str(c))


def base_is(v, cl):
    """a field (of a field) of the caller's clustering: certainly another quantity"""
    while v.op == "attr":
        v = v.args[0]
    return v is cl


def caller_roles(it, f, r, e):
    """positions of the workers' result tuple that the caller returns, in order"""
    res = T.strip(e.d["result"])
    for cs, v in T.cases(T.strip(r.value)) or []:
        if v.op != "tuple":
            continue
        if not any(res is x for x in subterms(v)):
            continue
        out = []
        for x in v.args:
            while x.op == "call" and x.args[0] in ("list", "tuple") and x.args[1]:
                x = x.args[1][0]
            if x.op == "obj":
                c = r.st.heap.get((x, "[]"))
                x = c if c is not None else x
            if x.op == "contents":
                x = x.args[1]
            if x.op == "listof":
                x = x.args[0]
            if x.op == "idx" and T.is_const(x.args[1]) and x.args[0].op == "call" and x.args[0].args[0] == "zip":
                out.append(T.cval(x.args[1]))
            else:
                out.append(None)
        if any(z is not None for z in out):
            return out
    return None


def other_worker(ctx, it, f, r, e, name, W, i3, r3, res, C0, P, loop, env):
    prog = ctx.prog
    ctx.check(name in ORDERED, "pool-order", C0, "results are collected by %s, in any order" % name.lstrip("."), e.where)
    # a matrix shared with the workers is the caller's matrix, read in its own format
    for k, v in sorted(env.items(), key=lambda z: str(z[0])):
        C = "%s %s" % (C0, k)
        known = {}
        for x in subterms(v):
            if x.op == "ite" and x.args[0].op == "call" and str(x.args[0].args[0]).rsplit(".", 1)[-1] in ("isspmatrix_csc", "isspmatrix_csr") and x.args[0].args[1]:
                c = x.args[0]
                for y in subterms(x.args[1]):
                    if y.op == "asfmt" and y.args[0] is c.args[1][0]:
                        known[y] = str(c.args[0])[-3:]
        for x in subterms(v):
            if x.op == "asfmt":
                b = x.args[0]
                fmt = known.get(x) or fmt_of(b)
                doc = "csc"
                ctx.tri(True if fmt in (None, x.args[1]) and (fmt is not None or x.args[1] == doc) else (False if fmt is not None else None), "shared-format", C,
                        "the arrays of a %s matrix are read as %s" % (fmt, x.args[1]), e.where, "%s as %s" % (b, x.args[1]))
        if v.op == "call" and str(v.args[0]).rsplit(".", 1)[-1] in ("csr_matrix", "csc_matrix") and v.args[1] and v.args[1][0].op == "tuple" and len(v.args[1][0].args) == 3:
            d, i, p = v.args[1][0].args
            nm = [z.args[1] if z.op == "attr" else None for z in (d, i, p)]
            if None not in nm and nm != ["data", "indices", "indptr"]:
                ctx.bad("shared-format", C, "the matrix is rebuilt from (%s)" % ", ".join(nm), e.where)
            else:
                ctx.und("shared-format", C, str(v))
    # options in their own role: a caller's parameter that lands on a package function's parameter of another name
    for ev in i3.events:
        fi, args, kw = target(ev)
        if fi is None or fi is W:
            continue
        b, miss, extra, star = static_bind(fi, args, kw)
        ctx.check(not miss and not extra or star is not None, "worker-call", "%s -> %s" % (C0, fi.name), "missing %s, unexpected %s" % (sorted(miss), extra), ev.where)
        for n, v in b.items():
            if v is not None and v.op == "sym" and v.args[0] in f.params() and v.args[0] in fi.params():
                ctx.check(n == v.args[0], "worker-options", "%s -> %s %s" % (C0, fi.name, v.args[0]), "the caller's %s is taken as %s" % (v.args[0], n), ev.where)
        if fi.name == "norm_var_information":
            ps = fi.params()
            a, c = b.get(ps[0]), b.get(ps[1])
            N = b.get("N")
            if a is not None and c is not None:
                sa, sc = str(a), str(c)
                ctx.check(T.strip(a) is not T.strip(c), "worker-inputs", C0 + " pair", "a partition is compared with itself", ev.where)
                part = N is not None and N.op == "call" and N.args[0] == "len" and any(N.args[1][0] is T.strip(z) for z in (a, c))
                ctx.tri(True if N is sym("N") else (False if N is None or N.op == "sym" or T.is_const(N) or part else None), "worker-inputs", C0 + " N",
                        "the number of nodes is %s" % N, ev.where, str(N))
            u = b.get("use_clust_list")
            ctx.tri(True if u is TRUE else (False if u is FALSE or u is None else None), "worker-inputs", C0 + " representation",
                    "cluster lists are read as node-to-cluster indices", ev.where)
    column_role(ctx, it, f, r, e, W, i3, r3, res, C0, P)
    # rows returned by the workers, stacked: columns of the result
    out, back = T.strip(r3.value), T.strip(r.value)
    if out.op == "call" and str(out.args[0]).rsplit(".", 1)[-1] in ("csc_matrix", "csr_matrix") and out.args[1] and out.args[1][0].op == "call" \
            and str(out.args[1][0].args[0]).rsplit(".", 1)[-1] == "expm_multiply":
        flips, x = 0, back
        while x.op in ("call", "attr"):
            if x.op == "attr" and x.args[1] == "T" or x.op == "call" and x.args[0] == ".transpose":
                flips += 1
            if x.op == "call" and str(x.args[0]).rsplit(".", 1)[-1] in ("vstack", "hstack", "map"):
                break
            x = x.args[0] if x.op == "attr" else (x.args[1][0] if x.args[1] else NONE)
        if x.op == "call" and str(x.args[0]).endswith("vstack") and x.args[1] and T.strip(x.args[1][0]) is T.strip(e.d["result"]):
            ctx.check(flips % 2 == 1, "assembly", C0 + " columns", "column i of the exponential becomes row i of the result", e.where)
        else:
            ctx.und("assembly", C0 + " columns", str(back))


def fmt_of(t):
    for cs, v in T.cases(t) or [((), t)]:
        pass
    s = None
    if t.op == "ite":
        return None
    if t.op == "call":
        n = str(t.args[0]).rsplit(".", 1)[-1]
        if n in ("csr_matrix", "tocsr"):
            return "csr"
        if n in ("csc_matrix", "tocsc"):
            return "csc"
    return s


def leaves(t):
    return leaves(t.args[1]) + leaves(t.args[2]) if t.op == "ite" else [t]


def column_role(ctx, it, f, r, e, W, i3, r3, res, C0, P):
    """worker i of an exponential works on the unit vector i / component i"""
    for ev in i3.events:
        if ev.kind == "setitem" and T.is_const(ev.d["value"]) and T.cval(ev.d["value"]) == 1.0:
            k = T.strip(ev.d["key"])
            ok = k.op == "elem" and k.args[0].op == "call" and k.args[0].args[0] == "range"
            ctx.tri(True if ok else None, "worker-column", C0, "", ev.where, str(k))
            if ok and len(k.args[0].args[1]) == 1:
                n = k.args[0].args[1][0]
                full = all(v.op == "idx" and v.args[0].op == "attr" and v.args[0].args[1] == "shape" for v in leaves(n))
                ctx.tri(True if full else (False if n.op == "poly" else None), "worker-column", C0 + " all columns", "columns %s only" % k.args[0], e.where, str(n))
