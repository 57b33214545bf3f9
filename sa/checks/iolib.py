"""Saving and loading analysed as one program: a driver that saves and loads again, in which the value handed to the
pickle writer is the value the pickle reader returns (the paths are compared separately, see ``paths``)."""
from __future__ import annotations
import ast
from ..terms import mk, sym, const, NONE, TRUE, FALSE, subterms, is_const, cval
from .. import terms as T
from ..engine import Interp, State
from ..model import FuncInfo

WRITERS = {"pickle.dump", "pandas.to_pickle", "joblib.dump"}
READERS = {"pickle.load", "pandas.read_pickle", "joblib.load"}
OPENERS = {"open", "gzip.open", "bz2.open", "lzma.open", "io.open", "gzip.GzipFile"}
# functions whose own computation is not of interest here
STOP = {"_merge_overlapping_events", "_get_closest_time", "_compute_time_grid", "compute_laplacian_matrices",
        "inplace_csr_row_normalize", "rebuild_nnz_rowcol"}


class IO(Interp):
    """the reader returns what the writer was given"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.written = []      # (value, file term, event index)
        self.read = []         # file term
        self.loaded = None     # what readers return before anything was written

    def hook_call(self, name, args, kwargs, n, st, fr):
        kw = dict(kwargs) if not isinstance(kwargs, dict) else kwargs
        if name in WRITERS and args:
            self.emit("call", n, st, fr, fn=name, args=list(args), kwargs=kw, result=NONE)
            self.written.append((args[0], args[1] if len(args) > 1 else kw.get("file"), st.guards))
            return NONE
        if name in READERS:
            self.emit("call", n, st, fr, fn=name, args=list(args), kwargs=kw, result=NONE)
            self.read.append((args[0] if args else None, st.guards))
            if self.written:
                v = self.written[-1][0]
                return v
            return self.loaded
        return None


def driver(prog, modname, src, cls=None):
    """a function written here, analysed as if it stood in module ``modname``"""
    m = prog.modules[modname] if modname in prog.modules else next(x for x in prog.modules.values() if x.name.endswith("." + modname) or x.short == modname)
    node = ast.parse(src).body[0]
    for x in ast.walk(node):
        if hasattr(x, "lineno"):
            x.lineno = 1
    return FuncInfo(m, node, cls=cls)


def run(prog, src, modname, cls, types=None, stop=STOP, facts=(), loaded=None):
    f = driver(prog, modname, src, cls)
    it = IO(prog, opaque=lambda z: z is not f and z.name in stop)
    it.loaded = loaded
    it.types[sym("self")] = cls
    for k, c in (types or {}).items():
        it.types[sym(k)] = c
    st = State()
    it.known = set(facts)
    for x in facts:
        st.assume(x)
    r = it.run(f, st=st)
    return it, r


# ---------------------------------------------------------------- file names
class Unknown(Exception):
    pass


def evalpath(t, env, it=None, st=None):
    """value of a file-name expression for one concrete name: env = {"sym": {...}, "exists": predicate}"""
    import os.path
    ev = lambda x: evalpath(x, env, it, st)
    o = t.op
    if o == "const":
        return cval(t)
    if o == "sym":
        if t.args[0] in env["sym"]:
            return env["sym"][t.args[0]]
        raise Unknown(str(t))
    if t in env.get("facts", {}):
        return env["facts"][t]
    if o == "concat":
        xs = [ev(x) for x in t.args]
        if all(isinstance(x, str) for x in xs):
            return "".join(xs)
        raise Unknown(str(t))
    if o == "ite":
        return ev(t.args[1]) if ev(t.args[0]) else ev(t.args[2])
    if o == "not":
        return not ev(t.args[0])
    if o in ("and", "or"):
        for x in t.args:
            v = ev(x)
            if bool(v) == (o == "or"):
                return v
        return o == "and"
    if o in ("eq", "ne", "is"):
        a, b = ev(t.args[0]), ev(t.args[1])
        return (a == b) if o in ("eq", "is") else (a != b)
    if o == "in":
        return ev(t.args[0]) in ev(t.args[1])
    if o in ("tuple", "seq"):
        return [ev(x) for x in t.args]
    if o == "contents":
        return ev(t.args[1])
    if o == "obj" and st is not None:
        c = st.heap.get((t, "[]"))
        if c is not None and c.op == "seq":
            return [ev(x) for x in c.args]
    if o in ("idx", "select"):
        b, k = t.args
        if k.op == "slice":
            a = [None if x is NONE else ev(x) for x in k.args]
            return ev(b)[slice(*a)]
        return ev(b)[ev(k)]
    if o == "call":
        f, a = t.args[0], [ev(x) for x in t.args[1]]
        if f == "os.path.splitext":
            return os.path.splitext(a[0])
        if f in ("os.fspath", "str", "os.path.abspath", "os.path.normpath", "os.path.expanduser"):
            return str(a[0])
        if f in ("os.path.exists", "os.path.isfile"):
            return env["exists"](a[0])
        if f in (".endswith", ".startswith"):
            x = tuple(a[1]) if isinstance(a[1], list) else a[1]
            return getattr(a[0], f[1:])(x)
        if f in (".lower", ".strip", ".removesuffix", ".rstrip", ".replace", ".format", ".split", ".rsplit", ".join", ".rpartition", ".partition"):
            return getattr(a[0], f[1:])(*a[1:])
        if f == "os.path.join":
            return os.path.join(*a)
        if f == "len":
            return len(a[0])
        if f == "bool":
            return bool(a[0])
        if f in ("os.path.basename", "os.path.dirname"):
            return getattr(os.path, f.split(".")[-1])(a[0])
    raise Unknown(str(t)[:80])


def opened(t):
    """file term -> [(conditions, opener, path)]"""
    out = []
    for conds, x in T.cases(T.strip(t)):
        if x.op == "call" and x.args[0] in OPENERS:
            out.append((conds, x.args[0], x.args[1][0]))
        elif x.op == "call" and x.args[0] == ".__enter__":
            out += [(conds + c, o, p) for c, o, p in opened(x.args[1][0])]
        else:
            out.append((conds, None, x))
    return out


def holds(guards, env, it, st):
    """do the guards that speak about the file name hold (others are assumed)"""
    for g in guards:
        g = T.strip(g)
        if g.op in ("iter", "exc"):
            continue
        try:
            if not evalpath(g, env, it, st):
                return False
        except Unknown:
            if any(x.op == "sym" and x.args[0] in env["sym"] for x in subterms(g)):
                raise
    return True


def file_of(entries, env, it, st):
    """which of the recorded opens is used for this name: (opener, path)"""
    found = set()
    for t, guards in entries:
        if t is None or not holds(guards, env, it, st):
            continue
        for conds, op, p in opened(t):
            if holds(conds, env, it, st):
                found.add((op, str(evalpath(p, env, it, st))))
    return found


# ---------------------------------------------------------------- matrices
SAMEVAL = {"numpy.array", "numpy.asarray", "numpy.ascontiguousarray", ".copy", "copy.copy", "copy.deepcopy", ".astype", "numpy.unique", "numpy.copy", "int", "float",
           ".tocsr", "scipy.sparse.csr_matrix"}
EXACT = {"numpy.float64", "numpy.int32", "numpy.int64", "float64", "int32", "int64", "numpy.double"}


def bare(t):
    """the value without copies and lossless conversions"""
    t = T.unver(T.strip(t))
    while True:
        if t.op == "call" and t.args[0] in SAMEVAL and t.args[1]:
            a, kw = t.args[1], dict(t.args[2])
            dt = kw.get("dtype") or (a[1] if len(a) > 1 and t.args[0] in (".astype", "numpy.array", "numpy.asarray") else None)
            if dt is not None and name(dt) not in EXACT:
                return t
            if t.args[0] == "scipy.sparse.csr_matrix" and a[0].op == "tuple":
                return t
            t = T.unver(T.strip(a[0]))
            continue
        if t.op == "attr":
            b = bare(t.args[0])
            if t.args[1] in ("data", "indices", "indptr") and b.op == "call" and b.args[0] == "scipy.sparse.csr_matrix" and b.args[1] and b.args[1][0].op == "tuple" and len(b.args[1][0].args) == 3:
                t = T.unver(T.strip(b.args[1][0].args[("data", "indices", "indptr").index(t.args[1])]))
                continue
            return mk("attr", b, t.args[1])
        return t


def name(t):
    if t.op == "const":
        return str(cval(t))
    if t.op in ("ext", "mod", "sym", "glob", "builtin"):
        return str(t.args[0])
    return str(t)


FIELDS = ("size", "data", "indices", "indptr", "nz_rowcols", "diag_val")


def fields(t, st):
    """the six defining fields of a SparseStochMat object built in the analysed program"""
    h = lambda n: st.heap.get((t, n))
    ts = h("T_small")
    return {"size": h("size"), "nz_rowcols": h("nz_rowcols"), "diag_val": h("diag_val"),
            "data": mk("attr", ts, "data") if ts is not None else None, "indices": mk("attr", ts, "indices") if ts is not None else None,
            "indptr": mk("attr", ts, "indptr") if ts is not None else None}


def fld_of(m, n):
    return mk("attr", mk("attr", m, "T_small"), n) if n in ("data", "indices", "indptr") else mk("attr", m, n)


def matrix(t, it, st, syms):
    """(symbol the value equals | None, explanation): which of the matrices ``syms`` the term denotes"""
    t = T.unver(T.strip(t))
    if t in syms:
        return t, ""
    if t.op == "ite":
        c = T.rebuild(t.args[0], lambda x: bare(x) if x.op == "call" and x.args[0] == ".copy" else x)
        if c in it.known:
            return matrix(t.args[1], it, st, syms)
        if T.not_(c) in it.known:
            return matrix(t.args[2], it, st, syms)
    if t.op == "obj" and it.objs.get(t, {}).get("cls") is not None:
        fs = fields(t, st)
        got = None
        for n in FIELDS:
            if fs[n] is None:
                return None, "field %s is not set" % n
            b = bare(fs[n])
            src = [s for s in syms if b is fld_of(s, n)]
            if not src:
                return None, "its %s is %s" % (n, b)
            if got is not None and src[0] is not got:
                return None, "its fields come from different matrices"
            got = src[0]
        return got, ""
    if t.op == "call" and t.args[0] in (".copy", "copy.copy", "copy.deepcopy", ".tocsr") and len(t.args[1]) == 1:
        return matrix(t.args[1][0], it, st, syms)
    p = T.rebuild(t, lambda x: bare(x) if x.op == "call" else x)
    if p in syms:
        return p, ""
    return None, "it is %s" % t


def roots(t, it, depth=0):
    """the objects whose storage a write through ``t`` reaches"""
    t = T.unver(T.strip(t))
    if depth > 40:
        return {t}
    if t.op in ("attr", "idx", "select"):
        return roots(t.args[0], it, depth + 1)
    if t.op == "ite":
        return roots(t.args[1], it, depth + 1) | roots(t.args[2], it, depth + 1)
    if t.op == "elem":
        return roots(t.args[0], it, depth + 1)
    if t.op == "call":
        f, a, kw = t.args[0], t.args[1], dict(t.args[2])
        if f in ("numpy.asarray", ".view", ".reshape", ".ravel", ".T", "numpy.ascontiguousarray", ".tocsr") and a:
            return roots(a[0], it, depth + 1)
        if f == ".astype" and kw.get("copy") is FALSE:
            return roots(a[0], it, depth + 1)
        if f == "numpy.array" and kw.get("copy") is FALSE:
            return roots(a[0], it, depth + 1)
        if f == "scipy.sparse.csr_matrix" and a:
            if kw.get("copy") is TRUE:
                return {t}
            if a[0].op == "tuple":
                return set().union(*[roots(x, it, depth + 1) for x in a[0].args]) if a[0].args and len(a[0].args) == 3 else {t}
            return roots(a[0], it, depth + 1)
    return {t}


def modes(ctx, it, lab, where):
    """files are opened for (over)writing by the saver and for reading by the loader, in binary mode"""
    for t, want in [(f, "wb") for _, f, _ in it.written] + [(f, "rb") for f, _ in it.read]:
        if t is None:
            continue
        for conds, op, p in opened(t):
            if op is None:
                continue
            calls = [x for x in subterms(T.strip(t)) if x.op == "call" and x.args[0] == op]
            for c in calls:
                m = c.args[1][1] if len(c.args[1]) > 1 else dict(c.args[2]).get("mode", const("r"))
                if not is_const(m):
                    ctx.und("file", lab + " mode", str(m))
                    continue
                v = cval(m).replace("t", "") if op == "open" else cval(m)
                ok = v in (want, want[0], "xb") if op != "open" else v in (want, "xb" if want == "wb" else "rb")
                ctx.check(ok, "file", "%s mode %s" % (lab, want), "the file is opened with mode %r" % cval(m), where)
