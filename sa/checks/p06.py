"""P06 computing never changes the data it is given."""
from __future__ import annotations
import ast
import multiprocessing
import os
import re
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms
from .. import terms as T
from ..engine import Interp, State, KNOWN
from ..alias import Roots, SHARE_METH, SHARE_FN
from ..model import AnalysisBroken

MIN_OBLIGATIONS = 150
RULE = """
Effect analysis of every public function, method and constructor (helpers, in
Python and Cython, followed): each store into an object (item, attribute,
in-place operator, mutating method, out=) is traced back through views,
conversions that do not copy, containers and loops to the object it changes.
It may be an argument only for the operations that are in-place by name.  The
matrices, arrays and tables an object stands for (operands of the sparse
classes, transition matrix and densities of a clustering, the matrices and
events of a network) change only in those operations.  What an object keeps of
its constructor's arguments is compared with what its methods change.
"""

# in-place by name: (function, parameters that are the target)
INPLACE = {
    "inplace_csr_row_normalize": 1, "inplace_csr_row_normalize_array": 1, "cython_inplace_csr_row_normalize_triu": 1,
    "cython_inplace_csr_row_normalize": 1, "inplace_csr_matmul_diag": 1, "inplace_diag_matmul_csr": 1, "inplace_csr_row_normalize_triu": 1,
    "set_to_ones": 1, "set_to_zeroes": 1,
}
IN_PLACE_METHODS = {"inplace_row_normalize", "set_to_zeroes", "set_to_ones", "move_node", "remove_empty_clusters"}
# what an object stands for: changes only in the operations above
FROZEN = {
    "SparseAutocovMat": {"PT", "PTcsc", "p1", "p2", "p1p2", "size", "shape", "PT_symmetric", "p_scalars"},
    "SparseStochMat": {"T_small", "nz_rowcols", "diag_val", "size", "shape"},
    "BaseClustering": {"T", "p1", "p2", "_S", "num_nodes", "S_threshold"},
    "Clustering": {"T", "p1", "p2", "_S", "num_nodes", "S_threshold"},
    "SparseClustering": {"T", "p1", "p2", "_S", "num_nodes"},
    "FlowIntegralClustering": {"T_list", "T_inter_list", "time_list", "p1", "I_list", "integral_time_grid", "num_nodes"},
    "Partition": {"cluster_list", "node_to_cluster_dict", "num_nodes"},
    "ContTempNetwork": {"events_table", "node_array", "node_to_label_dict", "label_to_node_dict"},
    "ContTempInstNetwork": {"events_table", "node_array", "node_to_label_dict", "label_to_node_dict"},
}
# containers that are filled as results are computed: what they hold is not changed (steps inside)
FILLED = {
    "ContTempNetwork": {"laplacians": 2, "adjacencies": 2, "inter_T": 2, "inter_T_lin": 3, "T": 2, "T_lin": 3, "delta_inter_T": 2,
                        "delta_inter_T_lin": 3, "_stationary_trans": 1, "times": 0, "time_grid": 0},
    "FlowStability": {"_temporal_network": 0},
}
FILLED["ContTempInstNetwork"] = FILLED["ContTempNetwork"]
# the result that is being built is normalised as it grows
OWN = {"compute_transition_matrices": {"T"}, "compute_lin_transition_matrices": {"T_lin"}}
BUILDERS = {"__init__", "_merge_overlapping_events", "__new__", "_compute_time_grid"}
ARRAY_ATTR = {"shape", "T", "size", "nnz", "ndim", "dtype", "data", "indices", "indptr", "flat", "values", "loc", "iloc", "columns"}
ARRAY_METH = {".sum", ".dot", ".copy", ".toarray", ".nonzero", ".max", ".min", ".mean", ".astype", ".tocsr", ".tocsc", ".transpose", ".all",
              ".any", ".diagonal", ".ravel", ".flatten", ".cumsum", ".argmax", ".argmin", ".append", ".extend", ".keys", ".values", ".items",
              ".multiply", ".power", ".tolist", ".reshape"}
CONTAINER_HOW = {".append", ".extend", ".insert", ".pop", ".remove", ".clear", ".sort", ".reverse", ".update", ".add", ".discard", ".setdefault",
                 ".popitem", ".push_back", ".appendleft", ".popleft", ".intersection_update", ".difference_update", ".symmetric_difference_update"}
DOC_ARRAY = re.compile(r"array|matri|list|dict|\bset\b|frame|sequence|csr|csc|iterable", re.I)
DOC_SCALAR = re.compile(r"^\s*(str|string|int|integer|float|bool|number|path)", re.I)


def doc_type(f, p):
    d = ast.get_docstring(f.node) if isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)) else None
    if d:
        m = re.search(r"^\s*%s\s*:\s*(.+)$" % re.escape(p), d, re.M)
        if m:
            if DOC_SCALAR.match(m.group(1)) and not DOC_ARRAY.search(m.group(1)):
                return "scalar"
            if DOC_ARRAY.search(m.group(1)):
                return "array"
    return None


def evidence(it, r):
    """terms used as arrays or containers somewhere in the function"""
    out = set()

    def look(t):
        for s in subterms(t):
            if s.op == "attr" and s.args[1] in ARRAY_ATTR:
                out.add(T.strip(s.args[0]))
                if s.args[1] in ("data", "indices", "indptr", "values", "flat"):
                    out.add(T.strip(s))
            elif s.op == "call":
                f = str(s.args[0])
                if s.args[1] and (f in ARRAY_METH or f.startswith("numpy.") or f.startswith("scipy.sparse")):
                    out.add(T.strip(s.args[1][0]))
            elif s.op in ("matmul", "MatMult"):
                for x in s.args:
                    out.add(T.strip(x))
    seen = set()
    for e in it.events:
        for v in list(e.d.values()):
            for x in (v if isinstance(v, (list, tuple)) else (v,)):
                if isinstance(x, T.Term) and x not in seen:
                    seen.add(x)
                    look(x)
    return out


def changes(it, r):
    """(event, target, how, strong): strong = the target is certainly changed in place"""
    ev = None
    for e in it.events:
        if e.kind in ("setitem", "delitem"):
            yield e, e.d["base"], e.kind, True
        elif e.kind in ("setattr", "delattr"):
            yield e, e.d["base"], e.kind, True
        elif e.kind == "mutate":
            yield e, e.d["target"], str(e.d.get("how")), True
        elif e.kind == "call" and str(e.d.get("fn", "")).startswith(".") and str(e.d["fn"])[1:] in IN_PLACE_METHODS and e.d.get("args"):
            yield e, e.d["args"][0], str(e.d["fn"]), True
        elif e.kind == "aug":
            if ev is None:
                ev = evidence(it, r)
            t = T.strip(e.d["target"])
            v = e.d.get("value")
            if v is not None and T.is_const(v) and isinstance(T.cval(v), str):
                continue
            if e.d.get("op") in ("Add", "Sub", "Mult", "Div", "FloorDiv", "Mod", "Pow", "BitOr", "BitAnd", "BitXor", "MatMult"):
                yield e, e.d["target"], "in-place operator", t in ev


def fmt_guard(e, t):
    """the guards of e exclude that what is converted in t has the format already: the conversion copies"""
    srcs = {T.strip(s.args[1][0]) for s in subterms(t) if s.op == "call" and s.args[1] and (str(s.args[0]) in SHARE_METH or str(s.args[0]) in SHARE_FN)}
    for g in e.guards:
        neg = g.op == "not"
        for s in subterms(g):
            x = None
            if s.op == "isinst":
                x, neg_ok = s.args[0], neg or not re.search(r"csr|csc|spmatrix|sparray|ndarray", str(s.args[1]))
            elif s.op == "call" and s.args[1] and re.search(r"isspmatrix|issparse|format", str(s.args[0])):
                x, neg_ok = s.args[1][0], neg
            elif s.op == "attr" and s.args[1] == "format":
                x, neg_ok = s.args[0], True
            if x is not None and neg_ok and T.strip(x) in srcs:
                return True
    return False


def components(v):
    """a matrix made of given arrays: its parts"""
    v = T.strip(v)
    if v.op == "call" and str(v.args[0]) in ("scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix") and v.args[1] and \
            v.args[1][0].op == "tuple" and len(v.args[1][0].args) == 3:
        return [((n,), x) for n, x in zip(("data", "indices", "indptr"), v.args[1][0].args)]
    return [((), v)]


def interp(prog, f, cls):
    it = Interp(prog)
    if f.cls is not None and "staticmethod" not in decos(f):
        r = it.run(f, selft=it.new_instance(cls or f.cls))
    else:
        r = it.run(f)
    return it, r


def decos(f):
    return {ast.unparse(d).split(".")[-1] for d in getattr(f.node, "decorator_list", ())}


def analyse(prog, f, cls):
    """plain data about one function: argument effects, effects on fields, fields kept of the arguments"""
    it, r = interp(prog, f, cls)
    by = {}

    def roots_of(t, guards):
        # conditions on the arguments that hold throughout
        fs = frozenset(g for g in guards if not any(x.op in ("phi", "elem", "iter") for x in subterms(g)))
        if fs not in by:
            by[fs] = Roots(it, r.st if r is not None else None, fs)
        return by[fs].of(t)
    params = f.params()
    selfp = params[0] if f.cls is not None and "staticmethod" not in decos(f) and params else None
    args, fields, sets = [], [], []
    SELF = None
    for s in (selfp,):
        if s is not None:
            SELF = it.selfterm if hasattr(it, "selfterm") else sym(s)
    seen = set()
    for e, t, how, strong in changes(it, r):
        t = T.strip(t)
        if how == "setattr" and T.strip(t) == SELF:
            old = mk("attr", SELF, e.d["name"])
            v = e.d.get("value")
            dep = v is not None and any(T.strip(s) == old for s in subterms(T.strip(v)))
            sets.append((e.d["name"], bool(e.d.get("aug")) or dep, e.where))
            continue
        own = OWN.get(f.name, ())
        if own and any(x.op == "phi" for x in subterms(t)) and any(p[:1] and p[0] in own for s, p, d, m in roots_of(t, e.guards)):
            continue            # read back from the result that is being built: which element is not followed through the loop
        for s, p, d, may in sorted(roots_of(t, e.guards), key=lambda z: (str(z[0]), z[1], z[2], str(z[3]))):
            if s.op != "sym" or d > 0:
                continue
            name = str(s.args[0])
            k = (name, p, how, e.where)
            if k in seen:
                continue
            seen.add(k)
            if may == "copy" and how not in CONTAINER_HOW:
                continue        # .copy() of an array is deep
            sure = strong
            if not strong and name in params and not p:
                sure = doc_type(f, name) == "array"
            if name in params and doc_type(f, name) == "scalar" and not p and how == "in-place operator":
                continue
            if may is True and fmt_guard(e, t):
                sure = False
            if how == "setattr" and str(e.d.get("name", "")).startswith("_"):
                continue
            if how == "in-place operator" and not strong and p and p[-1] == "[]" and not (
                    t.op == "idx" and len(t.args) > 1 and T.strip(t.args[1]).op == "slice"):
                continue        # a number taken out of an array
            (fields if name == selfp else args).append((name, p, how + (" " + str(e.d.get("name", "")) if how in ("setattr", "delattr") else ""), sure, e.where))
    kept = []
    if f.name == "__init__" and r is not None:
        for (o, a), v in r.st.heap.items():
            if T.strip(o) == SELF and a != "[]" and isinstance(v, T.Term):
                for comp, x in components(v):
                    for s, p, d, may in Roots(it, r.st).of(x):
                        if s.op == "sym" and str(s.args[0]) in params and str(s.args[0]) != selfp:
                            kept.append(((a,) + comp, str(s.args[0]), d, may == "copy"))
    return dict(args=args, fields=fields, sets=sets, kept=kept, functions=sorted(it.analysed), params=params, selfp=selfp)


_PROG = None


def work(job):
    try:
        f, cls = JOBS[job]
        return job, analyse(_PROG, f, cls), None
    except Exception as ex:
        if os.environ.get("SA_RAISE"):
            raise
        return job, None, "%s: %s" % (type(ex).__name__, ex)


JOBS = []


def public(f):
    n = f.name
    if n.startswith("__") and n.endswith("__"):
        return True
    return not n.startswith("_")


def jobs(prog):
    out = []
    for m in prog.modules.values():
        if "scripts" in m.name:
            continue
        for f in m.all_functions():
            if f.name not in KNOWN:
                continue
            if f.cls is not None and (f.cls.name in ("StateMeta", "State", "States", "CustomPathnameFilter", "SPA") or f.cls.name.startswith("_")):
                continue
            if f.module.name.endswith(("logger", "state_tracking")):
                continue
            out.append((f, f.cls))
    return out


def run(ctx):
    global _PROG, JOBS
    prog = ctx.prog
    _PROG = prog
    JOBS = jobs(prog)
    if multiprocessing.current_process().daemon:
        res = [work(j) for j in range(len(JOBS))]
    else:
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
            res = pool.map(work, range(len(JOBS)), chunksize=4)
    byclass = {}
    for j, d, err in res:
        f, cls = JOBS[j]
        name = f.qual.split("flowstab.")[-1]
        if d is None:
            ctx.und("argument is left as it was", name, err)
            continue
        ctx.functions |= set(d["functions"])
        if cls is not None:
            byclass.setdefault(cls.name, []).append((f, d))
        if not public(f):
            continue
        inplace = INPLACE.get(f.name, 0)
        for k, p in enumerate(d["params"]):
            if p == d["selfp"]:
                continue
            if inplace and f.cls is None:
                continue
            rule, c = "argument is left as it was", "%s(%s)" % (name, p)
            sure = [x for x in d["args"] if x[0] == p and x[3]]
            if sure:
                _, path, how, _, where = sure[0]
                ctx.bad(rule, c, "the caller's %s%s is changed (%s)" % (p, "".join("." + s if s != "[]" else "[..]" for s in path), how), where)
            elif any(x[0] == p for x in d["args"]):
                ctx.und(rule, c, "a store whose target may be the argument: %s" % [x[4] for x in d["args"] if x[0] == p][0])
            else:
                ctx.ok(rule, c)
    # ------------------------------------------------------ what objects hold
    for cname, fns in sorted(byclass.items()):
        frozen, filled = FROZEN.get(cname, set()), FILLED.get(cname, {})
        for f, d in fns:
            name = f.qual.split("flowstab.")[-1]
            if f.name in IN_PLACE_METHODS or f.name in BUILDERS:
                continue
            if not (frozen or filled):
                continue
            rule, c = "the object's data are left as they were", name
            bad, maybe = None, None
            for n, p, how, sure, where in d["fields"]:
                if not p:
                    continue
                if p[0] in OWN.get(f.name, ()):
                    continue
                if p[0] in filled and how in CONTAINER_HOW and p[1:].count("[]") >= filled[p[0]]:
                    continue        # not a method of matrices
                if p[0] in frozen or (p[0] in filled and (
                        p[1:].count("[]") >= filled[p[0]] or "data" in p or how.split()[0] not in ("setitem", "delitem", "setattr", "delattr") and how not in CONTAINER_HOW)):
                    if sure:
                        bad = bad or (p, how, where)
                    else:
                        maybe = where
            for a, dep, where in d["sets"]:
                if a in frozen:
                    if dep:
                        bad = bad or ((a,), "replaced by a value made from it", where)
                    else:
                        maybe = where
            if bad:
                p, how, where = bad
                ctx.bad(rule, c, "self.%s is changed (%s)" % ("".join(("." + s if i else s) if s != "[]" else "[..]" for i, s in enumerate(p)), how), where)
            elif maybe:
                ctx.und(rule, c, "a store whose target may be the object's data: %s" % maybe)
            else:
                ctx.ok(rule, c)
    # ---------------------------------------------- what objects keep of arguments
    for cname, fns in sorted(byclass.items()):
        for f, d in fns:
            if f.name != "__init__":
                continue
            for a, p, depth, cp in sorted(set(d["kept"])):
                rule, c = "what is kept of an argument is not changed later", "%s(%s) in self.%s" % (cname, p, ".".join(a))
                hit = None
                for cls in [prog.cls(cname)] + list(prog.subclasses(cname)):
                    for g, dg in byclass.get(cls.name, []):
                        if g.name == "__init__":
                            continue
                        for n, path, how, sure, where in dg["fields"]:
                            if path[:len(a)] == a and sure and len(path) - len(a) >= depth and not (cp and how not in CONTAINER_HOW):
                                hit = hit or (g, path, how, where)
                if hit:
                    g, path, how, where = hit
                    ctx.bad(rule, c, "%s changes the object the caller passed to the constructor (%s)" % (g.name, how), where)
                else:
                    ctx.ok(rule, c)
