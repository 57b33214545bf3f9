"""Shared helpers for the Louvain checks."""
from __future__ import annotations
from ..terms import mk, const, cval, subterms, TRUE, FALSE, not_
from .. import terms as T
from ..engine import Interp

HOOKS = {"_compute_delta_stab_moveout", "_compute_delta_stab_moveto", "_compute_new_R_moveout",
         "_compute_new_R_moveto", "compute_stability", "_compute_clustered_autocov",
         "_move_node_to_cluster", "_get_node_cluster", "_potential_new_clusters",
         "_remove_empty_clusters", "_get_num_clusters", "_get_cluster_list"}


def hook(t, name):
    """t is an (opaque) call of method ``name``: its positional args (without self), else None"""
    if t is not None and t.op == "call" and str(t.args[0]).startswith("fn:") \
            and str(t.args[0]).rsplit(".", 1)[-1] == name:
        return t.args[1][1:]
    return None


def hook_full(prog, t, name, params):
    """bind positional+keyword args of the hook call to parameter names"""
    if hook(t, name) is None:
        return None
    out = dict(zip(params, t.args[1][1:]))
    out.update(dict(t.args[2]))
    return out


def run_move(prog, cls, f=None):
    it = Interp(prog, opaque=lambda fi: fi.name in HOOKS)
    s = it.new_instance(cls)
    f = f or cls.find("_louvain_move_nodes")
    r = it.run(f, selft=s)
    return it, s, r, f


def poly_eq(a, b):
    try:
        return T.poly(T.sub(a, b)) in ({}, None) or T.sub(a, b) is const(0) or cval_or(T.sub(a, b)) == 0
    except Exception:
        return False


def cval_or(t, d=None):
    try:
        return cval(t) if T.is_const(t) else d
    except Exception:
        return d


def lower_bound(it, t, seen=()):
    """a constant lower bound of an integer induction expression, or None"""
    if T.is_const(t):
        v = cval_or(t)
        return v if isinstance(v, (int, float)) and not isinstance(v, bool) else None
    if t.op == "phi":
        if t in seen:
            return None
        i = it.phis.get(t)
        if i is None or i.init is None or i.back is None:
            return None
        lo = lower_bound(it, i.init, seen + (t,))
        if lo is None:
            return None
        # every back value is t + nonneg const
        for cs, leaf in T.cases(i.back) or [((), None)]:
            if leaf is None:
                return None
            d = cval_or(T.sub(leaf, t))
            if d is None or d < 0:
                return None
        return lo
    p = T.poly(t)
    if p is None:
        return None
    tot = 0
    for mono, c in p.items():
        if not mono:
            tot += c
        elif len(mono) == 1 and c > 0:
            lb = lower_bound(it, mono[0], seen)
            if lb is None:
                return None
            tot += c * lb
        else:
            return None
    return tot
