"""Shared by the checks on temporal networks: positions in the time grid, per-interval values."""
from __future__ import annotations
import ast
from ..terms import mk, sym, const, NONE, TRUE, FALSE, not_, subterms, rebuild
from .. import terms as T
from ..engine import Interp
from ..model import AnalysisBroken

SELF = sym("self")
BASE = "ContTempNetwork"
STOP = {"_get_closest_time", "_compute_time_grid", "compute_laplacian_matrices", "_compute_stationary_transition", "sparse_lapl_expm", "sparse_lin_approx",
        "lin_approx_trans_matrix", "compute_stationary_transition", "sparse_stationary_trans", "compute_subspace_expm", "compute_subspace_expm_parallel",
        "inplace_csr_row_normalize", "_drop_derived_matrices", "set_to_zeroes", "create_diag", "remove_nnz_rowcol", "__init__", "copy", "to_dict", "tocsr"}


def nets(prog):
    """the network classes of the package"""
    base = prog.cls(BASE)
    return [c for m in prog.modules.values() if "scripts" not in m.name for c in m.classes.values() if c is base or c.is_a(BASE)]


def own(cls, name):
    f = cls.methods.get(name) if hasattr(cls, "methods") else None
    return f


def delegates(f):
    """the body only calls the overridden method of the parent"""
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == f.name and
               isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == "super" for x in ast.walk(f.node))


def interp(prog, f, stop=STOP, cls=None, **kw):
    it = Interp(prog, opaque=lambda z: z is not f and z.name in stop)
    if f.cls is not None and f.params() and f.params()[0] == "self":
        it.types[SELF] = cls or f.cls
    r = it.run(f, **kw)
    return it, r



def fld(n, base=SELF):
    return mk("attr", base, n)


def norm(t, base=SELF):
    """positions instead of loop elements: elem(range(a,b)) -> a+pos, elem(seq) -> seq[pos]; times[a:b][i] -> times[a+i];
    x.values / np.asarray(x) of the time grid -> the grid"""
    times = fld("times", base)

    def f(x):
        if x.op == "elem" and len(x.args) > 1:
            d = x.args[0]
            p = mk("pos", x.args[1])
            if d.op == "call" and d.args[0] == "range":
                a = d.args[1]
                return p if len(a) == 1 else (T.add(a[0], p) if len(a) == 2 else x)
            if d.op == "call" and d.args[0] == "enumerate":
                return x
            return f(mk("idx", d, p))
        if x.op == "attr" and x.args[1] in ("values", "array") and grid(x.args[0], times):
            return x.args[0]
        if x.op == "call" and x.args[0] in (".to_numpy", ".tolist", "list", "numpy.array", "numpy.asarray") and len(x.args[1]) == 1 and grid(x.args[1][0], times):
            return x.args[1][0]
        if x.op in ("idx", "select"):
            b, k = x.args
            if b.op == "idx" and b.args[1].op == "slice" and k.op != "slice" and k.op != "tuple" and grid(b.args[0], times):
                a, z, s = b.args[1].args
                if s is NONE and not neg(k):
                    return mk("idx", b.args[0], T.add(const(0) if a is NONE else a, k))
            if x.op == "select" and not (k.op in ("slice", "tuple")):
                return mk("idx", b, k)
        return x
    return rebuild(T.strip(t), f)


def neg(k):
    return T.is_const(k) and isinstance(T.cval(k), (int, float)) and T.cval(k) < 0


def grid(t, times):
    return t is times


def window_len(d, base=SELF):
    """domain of a loop -> (first, last+1) positions of the time grid it runs over, None if unknown"""
    times = fld("times", base)
    d = norm(d, base)
    if d.op == "call" and d.args[0] in ("enumerate",):
        d = d.args[1][0]
    if d.op == "call" and d.args[0] == "range" and len(d.args[1]) == 1 and d.args[1][0].op == "call" and d.args[1][0].args[0] == "len":
        d = d.args[1][0].args[1][0]
    if d.op == "call" and d.args[0] == "range":
        a = d.args[1]
        return (const(0), a[0]) if len(a) == 1 else (a[0], a[1]) if len(a) == 2 else None
    if d.op == "idx" and d.args[1].op == "slice" and d.args[0] is times and d.args[1].args[2] is NONE:
        a, z, s = d.args[1].args
        return (const(0) if a is NONE else a, z)
    if d.op == "call" and d.args[0] == "zip":
        ws = [window_len(x, base) for x in d.args[1]]
        if all(w is not None for w in ws) and ws:
            n = {T.sub(w[1], w[0]) for w in ws if w[1] is not NONE}
            if len(n) == 1:
                return ws[0]
    return None


def loop_of(ev):
    ls = [g.args[0] for g in ev.guards if g.op == "iter"]
    return ls[-1] if ls else None


def assign_cases(t, limit=64):
    return T.cases(t, limit=limit)
