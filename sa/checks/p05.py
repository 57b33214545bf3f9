"""P05 - transition matrices written to a file are the ones read back.

Each of the four savers is analysed together with its loader, as one program (iolib): the network holds three rates (and two
step counts) with distinct symbolic matrices, the value given to the pickle writer is the value the reader returns.
Decided from the resulting value terms: header entries, set of rates, order and number of matrices, every field of every
matrix, what rounding may change, that the network itself is left alone, and (by evaluating the extracted file-name
expressions over the classes of file names) that saver and loader agree on file and opener."""
from __future__ import annotations
from .. import terms as T
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms
from ..engine import _mapkeys
from .iolib import modes, run as drive, matrix, roots, file_of, evalpath, Unknown, bare, holds, opened, fields

SELF = sym("self")
NET, SSM = "ContTempNetwork", "SparseStochMat"
HEAD = ("_k_start_laplacians", "_k_stop_laplacians", "_t_start_laplacians", "_t_stop_laplacians", "num_nodes", "times_k_start_to_k_stop+1")
MATS = ["A0", "A1", "A2", "B0", "B1", "C0", "C1", "C2", "D0", "D1"]
R1, R2, R3 = 0.5, 2.0, 0.25
S1, S2 = 3, 7


def shape(attr):
    """what the network holds: (python literal, {path: [matrix names] or matrix name})"""
    if attr == "inter_T":
        return "{%r: [A0, A1, A2], %r: [B0, B1], %r: [D0]}" % (R1, R2, R3), {(R1,): ["A0", "A1", "A2"], (R2,): ["B0", "B1"], (R3,): ["D0"]}
    if attr == "inter_T_lin":
        return "{%r: {%r: [A0, A1, A2], %r: [C0, C1]}, %r: {%r: [B0, B1]}, %r: {%r: [D0]}}" % (R1, S1, S2, R2, S1, R3, S2), \
            {(R1, S1): ["A0", "A1", "A2"], (R1, S2): ["C0", "C1"], (R2, S1): ["B0", "B1"], (R3, S2): ["D0"]}
    if attr == "T":
        return "{%r: A0, %r: B0, %r: D0}" % (R1, R2, R3), {(R1,): "A0", (R2,): "B0", (R3,): "D0"}
    return "{%r: {%r: A0, %r: C0}, %r: {%r: B0}, %r: {%r: D0}}" % (R1, S1, S2, R2, S1, R3, S2), {(R1, S1): "A0", (R1, S2): "C0", (R2, S1): "B0", (R3, S2): "D0"}


def entry(st, d, k):
    """value stored in dict term ``d`` under constant key ``k``: (value, known)"""
    d = T.strip(d)
    c = st.heap.get((d, "[]"))
    if c is None:
        return None, False
    ks = _mapkeys(c)
    if ks is None:
        return None, False
    for a, v in ks:
        if T.is_const(a) and T.cval(a) == k:
            return v, True
    return None, True


def keys(st, d):
    d = T.strip(d)
    c = st.heap.get((d, "[]"))
    ks = _mapkeys(c) if c is not None else None
    if ks is None or not all(T.is_const(a) for a, _ in ks):
        return None
    return [T.cval(a) for a, _ in ks]


def items(it, st, l):
    l = T.strip(l)
    if l.op == "obj":
        c = st.heap.get((l, "[]"))
        if c is not None and c.op == "seq":
            return list(c.args)
    if l.op in ("tuple", "seq"):
        return list(l.args)
    return None


def absent(t):
    """constant keys looked up in a fully known mapping that lacks them"""
    for x in subterms(T.strip(t)):
        if x.op == "select" and T.is_const(x.args[1]):
            ks = _mapkeys(x.args[0])
            if ks is not None and all(a is not x.args[1] for a, _ in ks):
                yield T.cval(x.args[1])


def facts(kind, names):
    out = []
    for n in names:
        for s in (sym(n), mk("call", ".copy", (sym(n),), (), None)):
            out += [not_(mk("isinst", s, "dict")), not_(mk("isinst", s, "ndarray")), mk("call", "scipy.sparse.issparse", (s,), (), None),
                    mk("call", "scipy.sparse.isspmatrix", (s,), (), None),
                    mk("isinst", s, "csr_matrix"), mk("call", "scipy.sparse.isspmatrix_csr", (s,), (), None), not_(mk("isinst", s, SSM))]
    return out


def go(ctx, saver, loader, attr, kind, opts, fcts=(), mixed=None):
    prog = ctx.prog
    cls, ssm = prog.cls(NET), prog.cls(SSM)
    lit, want = shape(attr)
    src = "def driver(self, name, tol, %s):\n    self.%s = %s\n    self.%s(name%s)\n    return %s.%s(name)\n" % (
        ", ".join(MATS), attr, lit, saver, "".join(", %s=%s" % kv for kv in opts.items()), NET, loader)
    st = [n for n in MATS if (mixed or {}).get(n, kind) == "stoch"]
    it, r = drive(prog, src, cls.module.name, cls, types={n: ssm for n in st}, facts=facts("csr", [n for n in MATS if n not in st]) + list(fcts))
    ctx.saw(it)
    return it, r, want


def check(ctx, saver, loader, attr):
    cls = ctx.prog.cls(NET)
    fs = cls.find(saver)
    pars = fs.params() + [x.arg for x in fs.node.args.kwonlyargs]
    has = lambda n: n in pars
    base = {"replace_existing": "True"} if has("replace_existing") else {}
    scen = []
    for rz in ("False", "True"):
        for lam in (None, repr(R1), repr(R2)):
            o = dict(base, round_zeros=rz, tol="tol")
            if lam:
                o["lamda"] = lam
            scen.append(("stoch", o, None, "SparseStochMat%s%s" % (", rounded" if rz == "True" else "", ", one rate" if lam == repr(R1) else ", other rate" if lam else "")))
            if has("save_delta"):
                scen.append(("csr", dict(o, save_delta="True"), None, "differences%s%s" % (", rounded" if rz == "True" else "", ", one rate" if lam == repr(R1) else ", other rate" if lam else "")))
            else:
                scen.append(("csr", dict(o), None, "csr%s%s" % (", rounded" if rz == "True" else "", ", one rate" if lam == repr(R1) else ", other rate" if lam else "")))
        if not has("save_delta"):
            scen.append(("csr", dict(base, round_zeros=rz, tol="tol"), {"A0": "stoch"}, "both formats%s" % (", rounded" if rz == "True" else "")))
    for kind, o, mixed, lab in scen:
        lab = "%s -> %s, %s" % (saver, loader, lab)
        with ctx.guard("round trip", lab):
            fc = [not_(mk("hasattr", SELF, "delta_" + attr))] + ([not_(mk("hasattr", SELF, x)) for x in ("inter_T", "inter_T_lin", "delta_inter_T", "delta_inter_T_lin") if x != attr] if "save_delta" in o else [])
            it, r, want = go(ctx, saver, loader, attr, kind, o, fc, mixed)
            one(ctx, it, r, want, lab, attr, o, fs)
    for c in ("False", "True"):
        lab = "%s -> %s file%s" % (saver, loader, " (compressed)" if c == "True" else "")
        with ctx.guard("file", lab):
            o = {"round_zeros": "False", "compressed": c}
            it, r, want = go(ctx, saver, loader, attr, "stoch", dict(base, **o))
            paths(ctx, it, r, lab, c == "True", fs)
    if has("replace_existing"):
        for v, c, rz, delta in [(a, b, z, d) for a in ("True", "False") for b in ("True", "False") for z in ("True", "False") for d in ("True", "False")]:
            lab = "%s replace_existing=%s%s%s%s" % (saver, v, " compressed" if c == "True" else "", " rounded" if rz == "True" else "", " differences" if delta == "True" else "")
            with ctx.guard("replace", lab):
                fc = [not_(mk("hasattr", SELF, x)) for x in ("inter_T", "inter_T_lin", "delta_inter_T", "delta_inter_T_lin") if x != attr]
                it, r, want = go(ctx, saver, loader, attr, "csr" if delta == "True" else "stoch", {"round_zeros": rz, "replace_existing": v, "compressed": c, "save_delta": delta}, fc)
                replace(ctx, it, r, lab, v == "True", fs)


def one(ctx, it, r, want, lab, attr, o, fs):
    st = r.st
    w = fs.where
    if not it.written:
        ctx.und("round trip", lab, "nothing given to a pickle writer")
        return
    if "lamda" in o:
        want = {p: v for p, v in want.items() if repr(p[0]) == o["lamda"]}
    # header
    for k in HEAD:
        v, known = entry(st, r.value, k)
        if not known:
            ctx.und("header", lab + " " + k, str(r.value))
            continue
        if v is None:
            ctx.bad("header", lab + " " + k, "%r is not among what is loaded" % k, w)
            continue
        v = bare(v)
        if k.startswith("times"):
            ok = times(v)
        else:
            ok = True if v is mk("attr", SELF, k) else (False if v.op in ("attr", "const") or foreign(v, k) else None)
        ctx.tri(ok, "header", lab + " " + k, "the loaded %s is %s" % (k, v), w, str(v))
    d, known = entry(st, r.value, attr)
    if not known:
        ctx.und("round trip", lab, "loaded value " + str(r.value))
        return
    if d is None:
        ctx.bad("round trip", lab, "%s is not among what is loaded" % attr, w)
        return
    ks = keys(st, d)
    exp = sorted({p[0] for p in want})
    ctx.tri(None if ks is None else sorted(ks) == exp, "round trip", lab + " rates", "loaded rates %s instead of %s" % (ks, exp), w, str(d))
    if ks is None or sorted(ks) != exp:
        return
    copies = []
    for p, names in want.items():
        x = d
        for k in p:
            m = matrix(x, it, st, {sym(z) for z in MATS})[0]
            x, known = entry(st, x, k)
            if x is None:
                known = known or m is not None        # a matrix where the values of several step counts are expected
                break
        L = lab + " " + "/".join(map(str, p))
        if x is None:
            (ctx.bad if known else ctx.und)("round trip", L, "no value loaded", *([w] if known else []))
            continue
        if isinstance(names, list):
            xs = items(it, st, x)
            if xs is None:
                k = next((m for l in it.loopinfo.values() if l.get("iter") is not None for m in absent(l["iter"])), None)
                if k is not None:
                    ctx.bad("round trip", L, "what is written for this rate is looked up under %s, where nothing was stored" % k, w)
                else:
                    ctx.und("round trip", L, str(x))
                continue
            if len(xs) != len(names):
                ctx.bad("round trip", L, "%d matrices loaded for %d saved" % (len(xs), len(names)), w)
                continue
        else:
            xs, names = [x], [names]
        for i, (m, n) in enumerate(zip(xs, names)):
            got, why = matrix(m, it, st, {sym(z) for z in MATS})
            ctx.tri(True if got is sym(n) else (False if got is not None or why else None), "round trip", "%s matrix %d" % (L, i),
                    "%s is loaded as %s" % (n, got if got is not None else "another value: " + why), w, why)
            if got is sym(n) and o.get("round_zeros") == "True" and o.get("save_delta") != "True":
                # the network keeps its entries, so what was rounded is a copy
                copies.append((L, i, n, parts(m, st)))
    rounding(ctx, it, r, lab, attr, o, fs)
    done = set()
    for e in it.events:
        if e.kind == "setitem":
            b = T.unver(T.strip(e.d["base"]))
            if b.op == "attr" and b.args[1] == "data":
                done.add(T.show(b.args[0], 60))
    for L, i, n, ps in copies if done else []:
        hit = any(x in T.show(p, 60) for p in ps for x in done)
        ctx.tri(True if hit else False, "rounding", "%s matrix %d rounded" % (L, i), "the matrix %s is written as it is although rounding was asked for" % n, w)


def parts(m, st):
    """the matrix or the entries it was put together from"""
    m = T.unver(T.strip(m))
    if m.op == "obj":
        return [v for k, v in fields(m, st).items() if k == "data" and v is not None] or [v for k, v in fields(m, st).items() if "data" in str(k) and v is not None]
    return [m]


def foreign(v, k):
    """made of other header fields only"""
    at = {x.args[1] for x in subterms(v) if x.op == "attr" and x.args[0] is SELF}
    return bool(at) and k not in at and at <= set(HEAD) | {"times"}


def times(v):
    """self.times[k_start : k_stop+1]"""
    v = bare(v)
    if v.op not in ("idx", "select") or v.args[1].op != "slice":
        return None
    b = v.args[0]
    while b.op == "attr" and b.args[1] in ("values", "array", "iloc") or b.op == "call" and b.args[0] in (".to_numpy",):
        b = b.args[0] if b.op == "attr" else b.args[1][0]
    if b is not mk("attr", SELF, "times"):
        return None
    a, z, s = v.args[1].args
    k0, k1 = mk("attr", SELF, "_k_start_laplacians"), mk("attr", SELF, "_k_stop_laplacians")
    return a is k0 and z is T.add(k1, const(1)) and s is NONE


# ------------------------------------------------------------------ rounding
def data_of(t):
    """matrix storage a comparison reads: (bare term, absolute value taken)"""
    t = bare(t)
    if t.op == "call" and t.args[0] in ("numpy.abs", "abs", "numpy.absolute", "numpy.fabs") and t.args[1]:
        return bare(t.args[1][0]), True
    return t, False


def rounding(ctx, it, r, lab, attr, o, fs):
    """nothing the network holds is written; values change only by zeroing entries up to the tolerance, only when asked"""
    rz = o["round_zeros"] == "True"
    mats = {sym(n) for n in MATS}
    n = 0
    for e in it.events:
        if e.kind == "setitem":
            tgt = e.d["base"]
        elif e.kind == "mutate":
            tgt = e.d["target"]
        elif e.kind == "setattr":
            b = T.unver(T.strip(e.d["base"]))
            if b in mats or (b.op == "attr" and roots(b, it) & mats):
                ctx.bad("network unchanged", "%s %s" % (lab, e.fi.name), "saving sets %s.%s" % (b, e.d["name"]), e.where)
            elif b is SELF and e.fi is not None and not str(e.d["name"]).startswith("delta_") and e.fi.name != "driver":
                ctx.bad("network unchanged", "%s %s" % (lab, e.fi.name), "saving sets self.%s" % e.d["name"], e.where)
            continue
        else:
            continue
        rs = roots(tgt, it)
        hit = rs & mats
        if hit:
            ctx.bad("network unchanged", "%s %s" % (lab, e.fi.name), "saving changes %s, a matrix of the network (through %s)" % (sorted(map(str, hit))[0], T.strip(tgt)), e.where)
            continue
        sf = [x for x in rs if x is SELF]
        if sf and not ("delta_" in str(T.strip(tgt))):
            ctx.bad("network unchanged", "%s %s" % (lab, e.fi.name), "saving changes %s" % T.strip(tgt), e.where)
            continue
        if e.kind == "setitem" and T.strip(tgt).op != "obj":
            b = bare(tgt)
            if b.op == "attr" and b.args[1] == "data":
                n += 1
                zero(ctx, e, b, lab, rz)
    ctx.check(True, "network unchanged", lab, "", fs.where)
    if rz and not n:
        ctx.und("rounding", lab + " applied", "no assignment to matrix entries found")


def zero(ctx, e, data, lab, rz):
    L = "%s %s" % (lab, e.fi.name)
    if not rz:
        ctx.bad("rounding", L, "entries are changed although round_zeros is off", e.where)
        return
    v = T.strip(e.d["value"])
    if not (T.is_const(v) and T.cval(v) == 0):
        ctx.tri(False if T.is_const(v) else None, "rounding", L, "entries are set to %s" % v, e.where, str(v))
        return
    k = T.strip(e.d["key"])
    if k.op not in ("le", "lt"):
        ctx.tri(None, "rounding", L, "", e.where, str(k))
        return
    x, absval = data_of(k.args[0])
    if x is not data:
        ctx.tri(False if not (set(subterms(x)) & {data}) and x.op in ("attr", "const") else None, "rounding", L, "entries are selected by %s" % k, e.where, str(k))
        return
    bound = k.args[1]
    tol = sym("tol")
    ctx.tri(True if any(y is tol for y in subterms(bound)) else (False if T.is_const(bound) else None), "rounding", L + " tolerance", "entries up to %s are zeroed, not up to the given tolerance" % bound, e.where, str(bound))
    # differences have entries of both signs: only their magnitude may decide
    isdiff = any(y.op == "poly" for y in subterms(data.args[0])) or data.args[0].op == "poly"
    if isdiff:
        ctx.check(absval, "rounding", L + " magnitude", "negative differences are zeroed whatever their size", e.where)


# --------------------------------------------------------------------- files
def paths(ctx, it, r, lab, compressed, fs):
    st = r.st
    w = fs.where
    written = [(f, g) for _, f, g in it.written]
    modes(ctx, it, lab, w)
    names = ["x", "res.d/x", "x.0.5", "x_lamda0.1", "xpickle", "gz"]
    if compressed:
        names2 = ["x.gz", "x.pickle.gz", "x.pickle"]
    else:
        names2 = ["x.pickle", "x.gz"]
    out = {}
    for nm in names + names2:
        L = "%s %r" % (lab, nm)
        try:
            env = {"sym": {"name": nm}, "exists": lambda p: False}
            wr = file_of(written, env, it, st)
            if len(wr) != 1:
                ctx.und("file", L, "written to %s" % sorted(wr))
                continue
            (op, path), = wr
            out.setdefault(path, []).append(nm)
            if op is not None:
                ctx.check((op.startswith("gzip")) == compressed, "file", L + " format", "compressed=%s but opened with %s" % (compressed, op), w)
            # by the path that was written, and by the name given if it carries no extension of ours
            for by in {path} | ({nm} if nm in names else set()):
                env = {"sym": {"name": by}, "exists": lambda p: p == path}
                rd = file_of(it.read, env, it, st)
                if len(rd) != 1:
                    ctx.tri(False if not rd else None, "file", "%s read as %r" % (L, by), "written to %s but not found by the loader" % path, w, str(sorted(rd)))
                    continue
                (op2, path2), = rd
                ctx.check(path2 == path, "file", "%s read as %r" % (L, by), "written to %s but read from %s" % (path, path2), w)
                if op is not None and op2 is not None:
                    ctx.check(op.split(".")[0] == op2.split(".")[0], "file", "%s read as %r opener" % (L, by), "written with %s but read with %s" % (op, op2), w)
        except Unknown as ex:
            ctx.und("file", L, str(ex))
    for p, nms in out.items():
        plain = [n for n in nms if n in names]
        ctx.check(len(plain) <= 1, "file", "%s distinct names -> %s" % (lab, p), "saving to %s writes the same file %s" % (plain, p), w)


def replace(ctx, it, r, lab, rep, fs):
    written = [(f, g) for _, f, g in it.written]
    for ex in (False, True):
        try:
            env = {"sym": {"name": "x"}, "exists": lambda p: ex}
            wr = file_of(written, env, it, r.st)
        except Unknown as u:
            ctx.und("replace", lab, str(u))
            continue
        want = rep or not ex
        ctx.check(bool(wr) == want, "replace", "%s, file %s" % (lab, "exists" if ex else "absent"),
                  "an existing file is %s" % ("kept although replacing was asked for" if rep else "overwritten") if ex else "nothing is written", fs.where)


def check_all(ctx):
    cls = ctx.prog.cls(NET)
    for s, l, a in (("save_inter_T", "load_inter_T", "inter_T"), ("save_inter_T_lin", "load_inter_T", "inter_T_lin"),
                    ("save_T", "load_T", "T"), ("save_T_lin", "load_T", "T_lin")):
        if cls.find(s) is None or cls.find(l) is None:
            ctx.und("round trip", s, "not found")
            continue
        check(ctx, s, l, a)


def run(ctx):
    check_all(ctx)
