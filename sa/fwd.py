"""Calls of package functions with their arguments bound to parameter names."""
from __future__ import annotations
import ast
from . import terms as T
from .terms import mk, const


def static_bind(fi, args, kwargs, drop_self=None):
    """bind argument terms to the parameters of fi.
    -> (bound dict, missing set, extra list, star)   star: an unpacked mapping/sequence is involved"""
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    kwonly = [x.arg for x in a.kwonlyargs]
    out, extra = {}, []
    kwargs = dict(kwargs)
    star = kwargs.pop("**", None)
    seqstar = False
    i = 0
    for v in args:
        if v.op == "star":
            seqstar = True
            continue
        if seqstar:
            continue
        if i < len(names):
            out[names[i]] = v
            i += 1
        elif not a.vararg:
            extra.append(v)
    for k, v in kwargs.items():
        if k in names or k in kwonly:
            if k in out:
                extra.append(k)
            out[k] = v
        elif not a.kwarg:
            extra.append(k)
    nd = len(a.defaults)
    req = set(names[:len(names) - nd]) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    missing = req - set(out)
    return out, missing, extra, (star if star is not None else (True if seqstar else None))


def target(e):
    """(FuncInfo, args) of a call event (opaque call or entered call), class constructions give __init__"""
    if e.kind == "enter":
        return e.d["fn"], e.d["args"], e.d["kwargs"]
    if e.kind == "call":
        f = e.d["fn"]
        if isinstance(f, T.Term) and f.op == "fun":
            return f.args[0], e.d["args"], e.d["kwargs"]
        if e.d.get("cls") is not None:
            ini = e.d["cls"].find("__init__")
            if ini is not None:
                return ini, [T.sym("new " + e.d["cls"].name)] + list(e.d["args"]), e.d["kwargs"]
    return None, None, None


def calls_to(it, names):
    """events that call a package function with one of these names: (event, fi, bound, star)"""
    out = []
    for e in it.events:
        fi, args, kw = target(e)
        if fi is not None and fi.name in names:
            b, miss, extra, star = static_bind(fi, args, kw)
            out.append((e, fi, b, star))
    return out


def star_value(it, st, star, name):
    """value of keyword `name` passed through an unpacked mapping, None if unknown"""
    if star is None or star is True:
        return None
    return it.getitem(star, const(name), st)


def kwargs_at(it, ev, sub=None):
    """keyword arguments a call event passes, including those put into an unpacked mapping before:
    name -> term, or None where it depends on something not followed.
    sub: values to assume for terms in the conditions of earlier statements"""
    val = (lambda g: T.subst(T.strip(g), sub)) if sub else (lambda g: g)
    out = {}
    kw = dict(ev.d.get("kwargs") or {})
    star = kw.pop("**", None)
    if star is not None and star is not True:
        base = T.strip(star)
        if not complete(it, T.unver(star)):
            out["**"] = None
        for k, v in mapping(it, T.unver(star)).items():
            out[k] = v
        mine = set(val(g) for g in ev.guards if g.op != "iter")
        for e in it.events:
            if e.n >= ev.n:
                break
            new = None
            gone = _removed(e, base)
            if gone is not None and gone in out:
                gs = [g for g in (val(g) for g in e.guards if g.op != "iter") if g is not T.TRUE]
                if T.FALSE in gs or any(T.not_(g) in mine for g in gs):
                    continue
                if all(g in mine for g in gs):
                    del out[gone]
                else:
                    out[gone] = None
                continue
            if e.kind == "setitem" and T.strip(e.d["base"]) is base and T.is_const(e.d["key"]):
                new = {T.cval(e.d["key"]): e.d["value"]}
            elif e.kind == "call" and str(e.d["fn"]) == ".update" and e.d["args"] and T.strip(e.d["args"][0]) is base:
                new = dict(e.d["kwargs"] or {})
                for a in e.d["args"][1:]:
                    new.update(mapping(it, T.unver(a)))
            if not new:
                continue
            gs = [g for g in (val(g) for g in e.guards if g.op != "iter") if g is not T.TRUE]
            if T.FALSE in gs or any(T.not_(g) in mine for g in gs):
                continue
            sure = all(g in mine for g in gs)
            for k, v in new.items():
                out[k] = v if sure else None
    out.update(kw)
    return out


def _removed(e, base):
    """constant key this event takes out of the mapping"""
    if e.kind == "delitem" and T.strip(e.d["base"]) is base and T.is_const(e.d["key"]):
        return T.cval(e.d["key"])
    if e.kind == "mutate" and T.strip(e.d["target"]) is base and str(e.d["how"]).lstrip(".") == "pop" and e.d.get("args") and T.is_const(e.d["args"][0]):
        return T.cval(e.d["args"][0])
    if e.kind == "call" and str(e.d["fn"]) == ".pop" and len(e.d["args"]) > 1 and T.strip(e.d["args"][0]) is base and T.is_const(e.d["args"][1]):
        return T.cval(e.d["args"][1])
    return None


def complete(it, t):
    """every entry of the mapping is known"""
    if t.op != "obj":
        return False
    vs = [v for v in (it.heaplog.get((t, "[]")) or ())]
    for v in vs:
        while v.op == "store":
            v = v.args[0]
        if v.op not in ("emptymap",):
            return False
    return bool(vs)


def mapping(it, t):
    """entries of a dict made in place, by constant key"""
    if t.op != "obj":
        return {}
    vs = [v for v in (it.heaplog.get((t, "[]")) or ()) if v.op in ("store", "emptymap")]
    best = {}
    for v in vs:
        m = {}
        x = v
        while x.op == "store":
            if T.is_const(x.args[1]):
                m.setdefault(T.cval(x.args[1]), x.args[2])
            x = x.args[0]
        if len(m) > len(best):
            best = m
    return best
