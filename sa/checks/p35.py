"""P35 a compact computation describes the same matrix as the full one."""
from __future__ import annotations
from ..terms import mk, sym, const, NONE, TRUE, FALSE, subterms
from .. import terms as T
from ..engine import Interp, State
from ..fwd import static_bind

MIN_OBLIGATIONS = 25
RULE = """
The functions that work on the rows and columns with entries only are
interpreted once; every returned compact matrix has to be put together from the
data, indices and row pointers of one row-wise matrix, the full size and the
indices of the very mask that selected the rows and columns.  The mask is
evaluated for every combination of empty and non-empty row and column.
"""
OPAQUE = {"compute_stationary_transition", "lin_approx_trans_matrix", "from_full_csr_matrix", "__init__", "create_diag",
          "compute_subspace_expm", "compute_subspace_expm_parallel"}
PARTS = ("data", "indices", "indptr")
COUNTS = [(a, b) for a in (0, 1, 2) for b in (0, 1, 2)]


def run(ctx):
    prog = ctx.prog
    for nm, fn in (("sparse_lapl_expm", expo), ("sparse_lin_approx", linear), ("sparse_stationary_trans", stationary), ("remove_nnz_rowcol", removal)):
        fs = prog.functions(nm)
        if not fs and nm != "remove_nnz_rowcol":
            ctx.und("compact", nm, "not found")
        for f in fs:
            with ctx.guard("compact", nm):
                fn(ctx, f)
    with ctx.guard("mask", "compute_lin_inter_transition_matrices"):
        callers(ctx)


def go(ctx, f, extra=()):
    it = Interp(ctx.prog, opaque=lambda z: z is not f and (z.name in OPAQUE or z.name in extra))
    if f.params() and f.params()[0] == "self":
        it.types[sym("self")] = f.cls
    r = it.run(f)
    ctx.saw(it)
    return it, r


def nm(t):
    return str(t.args[0]).rsplit(".", 1)[-1].rsplit(":", 1)[-1] if t.op == "call" else ""


def kw(t):
    return dict(t.args[2]) if t.op == "call" and t.args[2] else {}


def resolve(v):
    """every way of deciding the conditions in v -> [(decided conditions, term)]"""
    out = []
    work = [((), T.strip(v))]
    while work:
        pre, w = work.pop()
        if w.op == "ite":      # outside in, so that only conditions that matter are decided
            c = w.args[0]
            work += [(pre + (T.not_(c),), T.strip(T.assume_in(w.args[2], c, FALSE))), (pre + (c,), T.strip(T.assume_in(w.args[1], c, TRUE)))]
            continue
        rest = T.cases(w, limit=256)
        if rest is None or len(out) > 256:
            return None
        for cs, x in rest:
            out.append(({(c.args[0] if c.op == "not" else c): c.op != "not" for c in pre + tuple(cs)}, T.strip(x)))
    return out or None


# ------------------------------------------------------------------ masks
class Unknown(Exception):
    pass


def base(t):
    """the matrix behind a change of format"""
    t = T.strip(t)
    while t.op == "call" and nm(t) in ("tocsr", "tocsc", "copy", "asfptype", "csr_matrix", "csc_matrix", "tocoo") and len(t.args[1]) >= 1:
        t = T.strip(t.args[1][0])
    return t


def axis(t):
    a = t.args[1]
    x = a[1] if len(a) > 1 else kw(t).get("axis")
    if x is None or not T.is_const(x):
        return None
    return T.cval(x)


def value(t, L, row, col, total=None):
    """value of a term over the counts of one index: row entries, column entries"""
    t = T.strip(t)
    if T.is_const(t):
        return T.cval(t)
    o = t.op
    if o == "call":
        n = nm(t)
        a = t.args[1]
        if n in ("getnnz", "count_nonzero") and a and base(a[0]) is L:
            ax = axis(t)
            if ax in (1, -1):
                return row
            if ax == 0:
                return col
            if total is not None:
                return total
            raise Unknown(t)
        if n == "sum" and a and axis(t) in (0, 1, -1):
            x = T.strip(a[0])
            if base(x) is L:
                return 0    # rows of a Laplacian sum to zero whatever they hold, and so may its columns
            if x.op == "call" and nm(x) in ("abs", "absolute") and base(x.args[1][0]) is L or x.op == "ne" and {base(y) for y in x.args} == {L, const(0)}:
                return row if axis(t) in (1, -1) else col
        if n in ("logical_and", "bitwise_and", "logical_or", "bitwise_or", "logical_xor"):
            p, q = (value(x, L, row, col, total) for x in a[:2])
            return {"a": bool(p) and bool(q), "o": bool(p) or bool(q), "x": bool(p) != bool(q)}[n.split("_")[1][0]]
        if n in ("logical_not", "invert"):
            return not value(a[0], L, row, col, total)
        if n in ("asarray", "array", "ravel", "flatten", "squeeze", "astype", "bool") and a:
            v = value(a[0], L, row, col, total)
            return bool(v) if n in ("bool",) else v
        if n in ("maximum", "minimum"):
            p, q = (value(x, L, row, col, total) for x in a[:2])
            return max(p, q) if n == "maximum" else min(p, q)
        raise Unknown(t)
    if o in ("invert", "not"):
        return not value(t.args[0], L, row, col, total)
    if o in ("and", "or", "binBitAnd", "binBitOr"):
        vs = [bool(value(x, L, row, col, total)) for x in t.args]
        return all(vs) if o in ("and", "binBitAnd") else any(vs)
    if o in ("eq", "ne", "lt", "le"):
        p, q = (value(x, L, row, col, total) for x in t.args[:2])
        return {"eq": p == q, "ne": p != q, "lt": p < q, "le": p <= q}[o]
    if o == "attr" and t.args[1] in ("A1", "T"):
        return value(t.args[0], L, row, col, total)
    if o == "attr" and t.args[1] == "nnz" and base(t.args[0]) is L and total is not None:
        return total
    if o == "idx" and T.strip(t.args[0]).op == "call":
        raise Unknown(t)
    try:
        p = T.poly(t)
    except Exception:
        raise Unknown(t)
    if list(p) == [(t,)]:
        raise Unknown(t)
    s = 0
    for m, c in p.items():
        v = c
        for x in m:
            v = v * value(x, L, row, col, total)
        s += v
    return s


def mask_of(nz):
    """the mask whose true indices nz are"""
    nz = T.strip(nz)
    if nz.op == "call" and nm(nz) in ("astype", "asarray", "array", "copy", "ravel", "flatten"):
        return mask_of(nz.args[1][0])
    if nz.op == "idx" and T.is_const(nz.args[1]) and T.cval(nz.args[1]) in (0, -1):
        nz = T.strip(nz.args[0])
        if nz.op == "call" and nm(nz) in ("nonzero", "where") and len(nz.args[1]) == 1:
            return T.strip(nz.args[1][0])
        return None
    if nz.op == "call" and nm(nz) in ("flatnonzero",):
        return T.strip(nz.args[1][0])
    return None


def matrix_of(m):
    """the matrix whose entries a mask counts"""
    out = set()
    for x in subterms(m):
        if x.op == "call" and nm(x) in ("getnnz", "count_nonzero", "sum") and x.args[1]:
            y = T.strip(x.args[1][0])
            if y.op == "call" and nm(y) in ("abs", "absolute"):
                y = T.strip(y.args[1][0])
            out.add(base(y))
    return out.pop() if len(out) == 1 else None


def mask(ctx, C, m, L, where, exact=False):
    if m is None:
        ctx.und("mask", C, "no mask found")
        return
    for row, col in COUNTS:
        lab = "%s row=%d col=%d" % (C, row, col)
        try:
            v = bool(value(m, L, row, col))
        except Unknown as e:
            ctx.und("mask", lab, str(e)[:120])
            return
        except Exception as e:
            ctx.und("mask", lab, "%s %s" % (type(e).__name__, str(m)[:120]))
            return
        if row or col:
            ctx.check(v, "mask", lab, "an index with %d entries in its row and %d in its column is left out of the compact matrix: %s" % (row, col, str(m)[:120]), where)
        elif exact:
            ctx.check(not v, "mask", lab, "an index without entries is kept, while the stationary limit leaves it out: %s" % str(m)[:120], where)
        else:
            ctx.ok("mask", lab)


def selection(t):
    """matrix[m][:,m] -> (matrix, row selector, column selector)"""
    t = T.strip(t)
    sels = []
    while t.op == "idx":
        k = t.args[1]
        if k.op == "call" and nm(k) == "ix_" and len(k.args[1]) == 2:
            sels.append((T.strip(k.args[1][0]), T.strip(k.args[1][1])))
        elif k.op == "tuple" and len(k.args) == 2:
            sels.append(tuple(None if x.op == "slice" and all(y is NONE for y in x.args) else T.strip(x) for x in k.args))
        elif k.op == "slice":
            return None
        else:
            sels.append((T.strip(k), None))
        t = base(t.args[0])
    r = [a for a, b in sels if a is not None]
    c = [b for a, b in sels if b is not None]
    if len(r) > 1 or len(c) > 1:
        return None
    return base(t), (r[0] if r else None), (c[0] if c else None)


def as_mask(s):
    return s if s is None else (mask_of(s) or s)


# ------------------------------------------------------------------ putting together
def assembled(ctx, f, C, w, where, cls):
    """SparseStochMat(size, X.data, X.indices, X.indptr, nz) -> (size, X, nz)"""
    b, miss, extra, star = static_bind(cls.find("__init__"), [sym("self")] + list(w.args[1]), kw(w))
    names = [p for p in cls.find("__init__").params() if p != "self"][:5]
    size, d, i, p, nz = (T.strip(b[x]) if b.get(x) is not None else None for x in names)
    if any(x is None for x in (size, d, i, p, nz)):
        ctx.und("compact", C + " parts", str(w)[:160])
        return None
    ok = all(x.op == "attr" for x in (d, i, p))
    xs = {x.args[0] for x in (d, i, p)} if ok else set()
    right = ok and tuple(x.args[1] for x in (d, i, p)) == PARTS
    ctx.tri(True if right and len(xs) == 1 else (False if ok else None), "compact", C + " parts",
            "the compact matrix is made of %s" % ", ".join(str(x)[-40:] for x in (d, i, p)), where, str((d, i, p))[:160])
    if len(xs) != 1 or not right:
        return None
    return size, xs.pop(), nz


def results(ctx, it, r, f):
    v = r.value
    rs = resolve(v) if v is not None else None
    if rs is None:
        ctx.und("compact", f.qual, str(v)[:160])
        return []
    return rs


def label(d):
    return " ".join("%s=%s" % (str(k)[:40].replace(" ", ""), "yes" if b else "no") for k, b in sorted(d.items(), key=lambda x: str(x[0])))[:110]


def is_size(t, M):
    """number of rows (or columns) of the square matrix M"""
    t = T.strip(t)
    return t.op == "idx" and T.is_const(t.args[1]) and T.cval(t.args[1]) in (0, 1, -1) and T.strip(t.args[0]).op == "attr" and T.strip(t.args[0]).args[1] == "shape" and base(T.strip(t.args[0]).args[0]) is M


def removal(ctx, f):
    it, r = go(ctx, f)
    C = f.qual
    v = T.strip(r.value)
    if v.op != "tuple" or len(v.args) != 3:
        ctx.und("compact", C, str(v)[:160])
        return
    L = sym(f.params()[0])
    triple(ctx, C, L, v.args[0], v.args[1], v.args[2], f.where)


def triple(ctx, C, L, small, nz, size, where):
    """the selected part, the selected indices and the full size belong together"""
    ctx.tri(True if is_size(size, L) else (False if small_size(size, small) or T.is_const(size) else None), "compact", C + " size", "the size of the full matrix is given as %s" % str(size)[:80], where, str(size)[:120])
    m = mask_of(nz)
    s = selection(small)
    if s is None:
        ctx.und("compact", C + " selection", str(small)[:160])
    else:
        M, a, b = s
        a, b = as_mask(a), as_mask(b)
        if M is not L:
            ctx.und("compact", C + " selection", str(small)[:160])
        elif m is not None:
            ok = a is m and b is m
            clear = all(x is None or matrix_of(x) is L for x in (a, b)) and matrix_of(m) is L
            ctx.tri(True if ok else (False if clear else None), "compact", C + " selection", "rows %s and columns %s are kept under the indices of %s" % (str(a)[:60], str(b)[:60], str(m)[:60]), where, str(small)[:160])
        else:
            ctx.und("compact", C + " selection", str(nz)[:160])
    mask(ctx, C + " mask", m, L, where)


def small_size(t, small):
    t = T.strip(t)
    return t.op == "idx" and T.strip(t.args[0]).op == "attr" and T.strip(T.strip(t.args[0]).args[0]) is T.strip(small)


# ------------------------------------------------------------------ exponential
def expo(ctx, f):
    it, r = go(ctx, f)
    L = sym(f.params()[0])
    cls = ctx.prog.cls("SparseStochMat")
    seen = {}
    for d, w in results(ctx, it, r, f):
        C = "%s %s" % (f.qual, label(d))
        if w.op != "call":
            ctx.und("compact", C, str(w)[:160])
            continue
        if nm(w) == "create_diag":
            a = list(w.args[1])
            a = a[1:] if a and str(a[0]).startswith("class:") else a
            s = a[0] if a else kw(w).get("size")
            ctx.tri(True if s is not None and is_size(s, L) else None, "compact", C + " identity", "", f.where, str(s)[:120])
            state = True
            for tot in (1, 2, 7):
                got = []
                for k, b in d.items():
                    try:
                        got.append(bool(value(k, L, 1, 1, tot)) == b)
                    except Exception:
                        got.append(None)
                if False not in got:
                    state = False if None not in got else (None if state else state)
            ctx.tri(state, "compact", C + " only when empty", "a matrix with entries is taken for the identity", f.where, str(d)[:120])
            continue
        if nm(w) != "SparseStochMat":
            ctx.und("compact", C, str(w)[:160])
            continue
        asm = assembled(ctx, f, C, w, f.where, cls)
        if asm is None:
            continue
        size, X, nz = asm
        small = exponential(ctx, C, X, L, f, nz)
        if small is None:
            continue
        k = (small, nz, size)
        if k in seen:
            ctx.ok("compact", C + " selection as before")
            continue
        seen[k] = True
        triple(ctx, C, L, small, nz, size, f.where)


def factor(a):
    """the matrix in a product with numbers"""
    p = T.poly(T.strip(a))
    if len(p) != 1:
        return None
    (m, c), = p.items()
    ms = [x for x in m if selection(dense(x)) is not None and selection(dense(x))[0].op == "sym" and T.strip(dense(x)).op == "idx"]
    return (ms[0] if len(ms) == 1 else None)


def dense(x):
    x = T.strip(x)
    while x.op == "call" and nm(x) in ("toarray", "todense", "tocsc", "tocsr", "copy") and x.args[1]:
        x = T.strip(x.args[1][0])
    return x


def exponential(ctx, C, X, L, f, nz):
    """the selected part of L that is exponentiated; also: X is stored by rows"""
    w = T.strip(X)
    rows = None
    while w.op == "call" and nm(w) in ("tocsr", "csr_matrix", "tocsc", "csc_matrix", "csr_array", "csc_array", "asarray"):
        if rows is None and nm(w) != "asarray":
            rows = "csr" in nm(w)
        w = T.strip(w.args[1][0])
    if w.op != "call":
        ctx.und("compact", C + " exponential", str(X)[:160])
        return None
    n = nm(w)
    if n == "expm":
        a = factor(w.args[1][0])
        isdense = a is not None and any(x.op == "call" and nm(x) in ("toarray", "todense") for x in subterms(a))
        ctx.tri(True if rows else (False if rows is False or a is not None and not isdense else None), "compact", C + " by rows", "the parts of a matrix stored by columns are used as those of one stored by rows", f.where, str(X)[:120])
        if a is None:
            ctx.und("compact", C + " exponential", str(w)[:160])
            return None
        return dense(a)
    if n in ("compute_subspace_expm", "compute_subspace_expm_parallel"):
        fi = next(iter(ctx.prog.functions(n)), None)
        if fi is None:
            ctx.und("compact", C + " exponential", str(w)[:160])
            return None
        b, miss, extra, star = static_bind(fi, list(w.args[1]), kw(w))
        loose = star is not None
        ctx.tri(True if rows is not False else False, "compact", C + " by rows", "the parts of a matrix stored by columns are used as those of one stored by rows", f.where)
        a = b.get("A")
        a = factor(a) if a is not None else None
        if a is None:
            ctx.und("compact", C + " exponential", str(w)[:160])
            return None
        for q in ("thresh_ratio", "normalize_rows") + (("nproc",) if n.endswith("parallel") else ()):
            if q not in f.params() or q not in fi.params():
                continue
            v = b.get(q)
            ctx.tri(True if v is sym(q) else (None if v is None and loose else False if v is None or T.is_const(v) or v.op == "sym" else None), "compact", "%s %s" % (C, q), "the option %s is passed on as %s" % (q, v), f.where, str(v)[:80])
        for q, k in (("n_comp", 0), ("comp_labels", 1)):
            v = b.get(q)
            if v is None or v is NONE:
                ctx.ok("compact", "%s %s" % (C, q))
                continue
            v = T.strip(v)
            g = T.strip(v.args[0]) if v.op == "idx" else None
            isc = g is not None and g.op == "call" and nm(g) == "connected_components"
            if not isc:
                ctx.und("compact", "%s %s" % (C, q), str(v)[:120])
                continue
            gb = kw(g)
            ga = list(g.args[1])
            dr = ga[1] if len(ga) > 1 else gb.get("directed", TRUE)
            cn = ga[2] if len(ga) > 2 else gb.get("connection", const("weak"))
            weak = dr is FALSE or T.is_const(dr) and not T.cval(dr) or T.is_const(cn) and T.cval(cn) == "weak"
            mat = dense(ga[0]) if ga else None
            same = mat is dense(a) or mat is not None and factor(mat) is not None and dense(factor(mat)) is dense(a)
            pos = T.is_const(v.args[1]) and T.cval(v.args[1]) == k
            ctx.tri(True if weak and same and pos else (False if not weak or not pos or mat is L else None), "compact", "%s %s" % (C, q), "%s is %s" % (q, str(v)[:120]), f.where, str(v)[:160])
        return dense(a)
    ctx.und("compact", C + " exponential", str(w)[:160])
    return None


# ------------------------------------------------------------------ linear approximation
def full(ctx, t):
    """from_full_csr_matrix(matrix, nz) -> (matrix, nz)"""
    t = T.strip(t)
    if t.op != "call" or nm(t) != "from_full_csr_matrix":
        return None
    fi = ctx.prog.cls("SparseStochMat").find("from_full_csr_matrix")
    args = list(t.args[1])
    if args and not str(args[0]).startswith("class:"):
        args = [sym("cls")] + args
    b, miss, extra, star = static_bind(fi, args, kw(t))
    ps = fi.params()
    return b.get(ps[1]), (T.strip(b[ps[2]]) if b.get(ps[2]) is not None else NONE)


def part(t, name):
    t = T.strip(t)
    return T.strip(t.args[0]) if t.op == "attr" and t.args[1] == name else None


def frame(ctx, C, size, nz, where):
    """the compact form of the argument: size and indices come from it"""
    Fs, Fn = part(size, "size"), part(nz, "nz_rowcols")
    F = Fn
    if F is None or full(ctx, F) is None:
        ctx.und("compact", C + " indices", str(nz)[:160])
        return None
    M = base(full(ctx, F)[0])
    sz = Fs is F or is_size(size, M)
    sm = T.strip(size)
    wrong = sm.op == "idx" and "T_small" in str(sm.args[0]) or T.is_const(sm)
    ctx.tri(True if sz else (False if wrong else None), "compact", C + " size", "the size of the full matrix is given as %s" % str(size)[-80:], where, str(size)[:160])
    return F


def linear(ctx, f):
    it, r = go(ctx, f)
    cls = ctx.prog.cls("SparseStochMat")
    Tm, t, Pi, ts, nzp = (sym(x) for x in ("T", "t", "Pi", "t_s", "nz_rowcols"))
    la = next(iter(ctx.prog.functions("lin_approx_trans_matrix")), None)
    for d, w in results(ctx, it, r, f):
        C = "%s %s" % (f.qual, label(d))
        isn = d.get(mk("is", Pi, NONE))
        iss = next((b for k, b in d.items() if k.op == "isinst" and "SparseStochMat" in str(k.args[1])), None)
        if w.op != "call" or nm(w) != "SparseStochMat":
            ctx.und("compact", C, str(w)[:160])
            continue
        asm = assembled(ctx, f, C, w, f.where, cls)
        if asm is None:
            continue
        size, X, nz = asm
        F = frame(ctx, C, size, nz, f.where)
        if F is None or X.op != "call" or nm(X) != "lin_approx_trans_matrix" or la is None:
            ctx.und("compact", C + " approximation", str(X)[:160])
            continue
        M, n0 = full(ctx, F)
        ctx.tri(True if base(M) is Tm else (False if base(M) is Pi else None), "compact", C + " frame", "the rows kept are those of %s" % str(M)[:80], f.where, str(M)[:120])
        b, miss, extra, star = static_bind(la, list(X.args[1]), kw(X))
        small = b.get("T")
        S = part(small, "T_small") if small is not None else None
        ctx.tri(True if S is F else (False if small is not None and (base(small) is Tm or base(small) is Pi) else None), "compact", C + " matrix", "%s is interpolated" % str(small)[:80], f.where, str(small)[:160])
        for q, want in (("t", t), ("t_s", ts)):
            v = b.get(q)
            ctx.tri(True if v is want else (None if v is None and star is not None else False if v is None or T.is_const(v) or v.op in ("sym", "poly", "inv") else None), "compact", "%s %s" % (C, q), "%s is passed on as %s" % (q, v), f.where, str(v)[:80])
        p = b.get("Pi")
        p = NONE if p is None else T.strip(p)
        if isn:
            inner = T.strip(p.args[1][0]) if p.op == "call" and nm(p) == "compute_stationary_transition" else None
            ok = p is NONE or inner is not None and part(inner, "T_small") is F
            ctx.tri(True if ok else (False if inner is not None and base(inner) is Tm else None), "compact", C + " limit", "the limit is %s" % str(p)[:100], f.where, str(p)[:160])
        elif iss:
            ok = part(p, "T_small")
            ctx.tri(True if ok is Pi else (False if p is Pi or p is NONE else None), "compact", C + " limit", "the limit is %s" % str(p)[:100], f.where, str(p)[:160])
        elif isn is False and iss is False:
            S = part(p, "T_small")
            fm = full(ctx, S) if S is not None else None
            if fm is None:
                ctx.tri(False if p is Pi or p is NONE else None, "compact", C + " limit", "the limit is %s" % str(p)[:100], f.where, str(p)[:160])
                continue
            n1 = fm[1]
            same = n1 is n0 or part(n1, "nz_rowcols") is F
            okm = base(fm[0]) is Pi
            ctx.tri(True if okm and same else (False if base(fm[0]) is Tm or okm and {n0, n1} == {NONE, nzp} else None), "compact", C + " limit",
                    "the limit keeps the rows %s of %s while the matrix keeps %s" % (str(n1)[:40], str(fm[0])[:40], str(n0)[:40]), f.where, str(p)[:160])
        else:
            ctx.und("compact", C + " limit", str(p)[:160])


def stationary(ctx, f):
    it, r = go(ctx, f)
    cls = ctx.prog.cls("SparseStochMat")
    Tm = sym(f.params()[0])
    for d, w in results(ctx, it, r, f):
        C = "%s %s" % (f.qual, label(d))
        if w.op != "call" or nm(w) != "SparseStochMat":
            ctx.und("compact", C, str(w)[:160])
            continue
        asm = assembled(ctx, f, C, w, f.where, cls)
        if asm is None:
            continue
        size, X, nz = asm
        F = frame(ctx, C, size, nz, f.where)
        if F is None or X.op != "call" or nm(X) != "compute_stationary_transition":
            ctx.und("compact", C + " limit", str(X)[:160])
            continue
        M, n0 = full(ctx, F)
        ctx.tri(True if base(M) is Tm else None, "compact", C + " frame", "", f.where, str(M)[:120])
        fmt = next((nm(x) for x in [T.strip(M)] if x.op == "call"), "")
        ctx.tri(True if "csr" in fmt else (False if "csc" in fmt else None), "compact", C + " by rows", "a matrix stored by columns is taken for one stored by rows", f.where, str(M)[:80])
        a = X.args[1][0] if X.args[1] else kw(X).get("T")
        ctx.tri(True if part(a, "T_small") is F else (False if base(a) is Tm else None), "compact", C + " matrix", "the limit of %s is taken" % str(a)[:80], f.where, str(a)[:160])


# ------------------------------------------------------------------ the indices given by the caller
def callers(ctx):
    prog = ctx.prog
    fi = next(iter(prog.functions("sparse_lin_approx")), None)
    n = 0
    for cname in [c.name for c in prog.subclasses("ContTempNetwork")]:
        c = prog.cls(cname)
        f = c.methods.get("compute_lin_inter_transition_matrices") if hasattr(c, "methods") else None
        if f is None:
            continue
        it, r = go(ctx, f, extra=("sparse_lin_approx", "_compute_stationary_transition", "compute_laplacian_matrices", "sparse_lapl_expm"))
        seen = set()
        for e in it.events:
            if e.kind != "call" or str(e.d["fn"]).rsplit(":", 1)[-1] != "sparse_lin_approx" or fi is None:
                continue
            b, miss, extra, star = static_bind(fi, list(e.d["args"]), dict(e.d["kwargs"]))
            nz, M = b.get("nz_rowcols"), b.get("T")
            if (nz, M) in seen:
                continue
            seen.add((nz, M))
            n += 1
            C = "%s indices" % f.qual
            if nz is None or nz is NONE:
                ctx.ok("mask", C)      # found from the matrix itself
                continue
            m = mask_of(nz)
            L = matrix_of(m) if m is not None else None
            if L is None:
                ctx.und("mask", C, str(nz)[:160])
                continue
            inM = [x for x in subterms(M) if x is L] if M is not None else []
            laps = {base(x) for x in subterms(M) if x.op in ("idx", "select") and T.strip(x.args[0]).op == "attr" and T.strip(x.args[0]).args[1] == "laplacians"} if M is not None else set()
            ctx.tri(True if inM or L in laps else (False if laps and L.op in ("idx", "select") else None), "mask", C + " matrix", "the indices kept are those of %s, the matrix is made of %s" % (str(L)[:60], [str(x)[:60] for x in laps]), e.where, str(L)[:120])
            mask(ctx, C, m, L, e.where, exact=True)
    if not n:
        ctx.und("mask", "compute_lin_inter_transition_matrices", "no call of sparse_lin_approx")
