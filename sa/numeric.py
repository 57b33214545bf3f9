"""Value of an expression at one point of a finite grid that represents all orderings of its variables.

Nothing of the analysed program is run: the terms were built from the source, and only arithmetic, comparisons and
boolean connectives between the named variables are interpreted; anything else makes the expression unknown."""
from __future__ import annotations
from . import terms as T
from .terms import is_const, cval, TRUE, FALSE


class NotNumeric(Exception):
    pass


_MIN = ("min", "minimum", "fmin")
_MAX = ("max", "maximum", "fmax")


def num(t, leaf):
    t = T.unver(T.strip(t))
    v = leaf(t)
    if v is not None:
        return v
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if is_const(t):
        c = cval(t)
        if isinstance(c, bool):
            return c
        if isinstance(c, (int, float)) or hasattr(c, "numerator"):
            return float(c)
        raise NotNumeric(str(t))
    op = t.op
    if op == "poly":
        s = 0.0
        for m, c in T.poly(t).items():
            w = float(c)
            for x in m:
                w *= num(x, leaf)
            s += w
        return s
    if op == "inv":
        d = num(t.args[0], leaf)
        if not d:
            raise NotNumeric("division by 0")
        return 1.0 / d
    if op == "ite":
        return num(t.args[1] if num(t.args[0], leaf) else t.args[2], leaf)
    if op in ("lt", "le", "gt", "ge", "eq", "ne"):
        a, b = (num(x, leaf) for x in t.args)
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op]
    if op in ("not", "invert"):
        return not num(t.args[0], leaf)
    if op in ("and", "bitand"):
        return all(bool(num(x, leaf)) for x in t.args)
    if op in ("or", "bitor"):
        return any(bool(num(x, leaf)) for x in t.args)
    if op == "abs":
        return abs(num(t.args[0], leaf))
    if op == "attr" and t.args[1] in ("values", "array"):
        return num(t.args[0], leaf)
    if op == "call":
        n = str(t.args[0])
        last = n.rsplit(".", 1)[-1]
        a = t.args[1]
        if n.startswith(".") and last in ("copy", "to_numpy", "astype", "tolist"):
            return num(a[0], leaf)
        if n.startswith("."):
            if last == "clip":
                kw = dict(t.args[2])
                lo = kw.get("lower", kw.get("min", a[1] if len(a) > 1 else None))
                hi = kw.get("upper", kw.get("max", a[2] if len(a) > 2 else None))
                v = num(a[0], leaf)
                if lo is not None and lo is not T.NONE:
                    v = max(v, num(lo, leaf))
                if hi is not None and hi is not T.NONE:
                    v = min(v, num(hi, leaf))
                return v
            raise NotNumeric(n)
        if last in ("min", "max", "minimum", "maximum", "fmin", "fmax") and len(a) >= 2 and not t.args[2]:
            vs = [num(x, leaf) for x in a]
            return min(vs) if last in _MIN else max(vs)
        if last in ("abs", "fabs", "absolute") and len(a) == 1:
            return abs(num(a[0], leaf))
        if last in ("float", "int", "bool", "asarray", "array") and a:
            return num(a[0], leaf)
        if last == "clip" and len(a) == 3:
            return min(max(num(a[0], leaf), num(a[1], leaf)), num(a[2], leaf))
        if last == "where" and len(a) == 3:
            return num(a[1] if num(a[0], leaf) else a[2], leaf)
        if last in ("logical_and", "bitwise_and"):
            return all(bool(num(x, leaf)) for x in a)
        if last in ("logical_or", "bitwise_or"):
            return any(bool(num(x, leaf)) for x in a)
        if last == "logical_not":
            return not num(a[0], leaf)
    raise NotNumeric(str(t)[:100])


def _bc(f, *xs):
    n = max((len(x) for x in xs if isinstance(x, list)), default=None)
    if n is None:
        return f(*xs)
    if any(isinstance(x, list) and len(x) != n for x in xs):
        raise NotNumeric("lengths differ")
    return [f(*(x[i] if isinstance(x, list) else x for x in xs)) for i in range(n)]


_CMP = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
        "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


def vec(t, leaf, depth=0):
    """as num, where a variable may stand for a one-dimensional array (a list)"""
    t = T.unver(T.strip(t))
    if depth > 40:
        raise NotNumeric("too deep")
    v = leaf(t)
    if v is not None:
        return v
    go = lambda x: vec(x, leaf, depth + 1)
    if t is TRUE or t is FALSE:
        return t is TRUE
    if is_const(t):
        c = cval(t)
        if isinstance(c, bool) or isinstance(c, str):
            return c
        if isinstance(c, (int, float)) or hasattr(c, "numerator"):
            return int(c) if c == int(c) else float(c)
        raise NotNumeric(str(t))
    op = t.op
    if op == "poly":
        s = 0
        for m, c in T.poly(t).items():
            w = int(c) if c == int(c) else float(c)
            for x in m:
                w = _bc(lambda a, b: a * b, w, go(x))
            s = _bc(lambda a, b: a + b, s, w)
        return s
    if op == "ite":
        return go(t.args[1] if go(t.args[0]) else t.args[2])
    if op in _CMP:
        return _bc(_CMP[op], go(t.args[0]), go(t.args[1]))
    if op == "not":
        return not go(t.args[0])
    if op == "invert":
        return _bc(lambda a: not a, go(t.args[0]))
    if op == "and":
        return all(go(x) for x in t.args)
    if op == "or":
        return any(go(x) for x in t.args)
    if op in ("bitand", "bitor"):
        a, b = (go(x) for x in t.args)
        return _bc((lambda x, y: bool(x and y)) if op == "bitand" else (lambda x, y: bool(x or y)), a, b)
    if op == "in":
        b = go(t.args[1])
        if not isinstance(b, list):
            raise NotNumeric(str(t))
        return go(t.args[0]) in b
    if op == "attr" and t.args[1] in ("values", "array"):
        return go(t.args[0])
    if op == "attr" and t.args[1] == "size":
        b = go(t.args[0])
        if isinstance(b, list):
            return len(b)
        raise NotNumeric(str(t)[:80])
    if op == "tuple":
        return tuple(go(x) for x in t.args)
    if op in ("idx", "select"):
        b, k = go(t.args[0]), go(t.args[1])
        if isinstance(b, tuple) and isinstance(k, int) and not isinstance(k, bool) and -len(b) <= k < len(b):
            return b[k]
        if isinstance(b, list):
            if isinstance(k, list) and len(k) == len(b) and all(isinstance(x, bool) for x in k):
                return [x for x, y in zip(b, k) if y]
            if isinstance(k, list) and all(isinstance(x, int) and not isinstance(x, bool) for x in k):
                return [b[x] for x in k]
            if isinstance(k, int) and not isinstance(k, bool):
                if -len(b) <= k < len(b):
                    return b[k]
                raise IndexError(k)
        raise NotNumeric(str(t)[:80])
    if op == "call":
        n = str(t.args[0])
        last = n.rsplit(".", 1)[-1]
        kw = dict(t.args[2])
        a = t.args[1]
        if last in ("isclose", "allclose") and set(kw) <= {"rtol", "atol"} and len(a) == 2:
            a = tuple(a) + (kw.get("rtol", T.const(1e-5)), kw.get("atol", T.const(1e-8)))
            kw = {}
        if set(kw) - {"side", "dtype", "copy"}:
            raise NotNumeric(str(t)[:80])
        if last in ("copy", "to_numpy", "tolist", "asarray", "array", "float", "list", "sorted") and a:
            v = go(a[0])
            return sorted(v) if last == "sorted" and isinstance(v, list) else v
        if last in ("int", "astype") and a:
            v = go(a[0])
            if isinstance(v, list):
                if len(v) == 1 and last == "int":
                    return v[0]
                if last == "int":
                    raise NotNumeric(str(t)[:80])
                return v
            return int(v) if last == "int" else v
        xs = [go(x) for x in a]
        L = xs and isinstance(xs[0], list)
        if last in ("max", "min", "amax", "amin", "sum", "any", "all", "argmax", "argmin", "count_nonzero", "nonzero", "where", "flatnonzero") and len(xs) == 1 and L:
            b = xs[0]
            if last in ("max", "amax", "min", "amin", "argmax", "argmin"):
                if not b:
                    raise IndexError("empty")
                m = max(b) if "max" in last else min(b)
                return b.index(m) if last.startswith("arg") else m
            if last in ("sum", "count_nonzero"):
                return sum(b) if last == "sum" else sum(1 for x in b if x)
            if last in ("any", "all"):
                return any(b) if last == "any" else all(b)
            pos = [i for i, x in enumerate(b) if x]
            return pos if last == "flatnonzero" else (pos,)
        if last in ("ptp", "std", "var", "mean", "average", "unique", "set") and len(xs) == 1 and L and xs[0]:
            b = xs[0]
            if last == "ptp":
                return max(b) - min(b)
            if last in ("unique", "set"):
                return sorted(set(b))
            m = sum(b) / len(b)
            if last in ("mean", "average"):
                return m
            v = sum((x - m) ** 2 for x in b) / len(b)
            return v if last == "var" else v ** .5
        if last in ("isclose", "allclose", "array_equal") and len(xs) >= 2:
            if last == "array_equal":
                q = _bc(lambda x, y: x == y, xs[0], xs[1])
            else:
                rt, at = (xs[2] if len(xs) > 2 else 1e-5), (xs[3] if len(xs) > 3 else 1e-8)
                q = _bc(lambda x, y: abs(x - y) <= at + rt * abs(y), xs[0], xs[1])
            return q if last == "isclose" else (all(q) if isinstance(q, list) else q)
        if last in ("max", "min", "maximum", "minimum") and len(xs) >= 2:
            return _bc(lambda *q: max(q) if "max" in last else min(q), *xs)
        if last in ("abs", "absolute", "fabs") and len(xs) == 1:
            return _bc(abs, xs[0])
        if last == "len" and L:
            return len(xs[0])
        if last in ("searchsorted", "bisect_right", "bisect_left", "bisect") and len(xs) >= 2 and L and not isinstance(xs[1], list):
            import bisect
            side = cval(kw["side"]) if "side" in kw else (xs[2] if len(xs) > 2 and isinstance(xs[2], str) else "left")
            right = last in ("bisect_right", "bisect") or last == "searchsorted" and side == "right"
            if xs[0] != sorted(xs[0]):
                raise NotNumeric("not sorted")
            return (bisect.bisect_right if right else bisect.bisect_left)(xs[0], xs[1])
        if last in ("get_loc", "index") and len(xs) == 2 and L and xs[1] in xs[0]:
            return xs[0].index(xs[1])
        if last == "where" and len(xs) == 3:
            return _bc(lambda c, x, y: x if c else y, *xs)
        if last in ("logical_and", "logical_or"):
            return _bc((lambda x, y: bool(x and y)) if last.endswith("and") else (lambda x, y: bool(x or y)), *xs)
        if last == "logical_not":
            return _bc(lambda x: not x, xs[0])
        if last == "clip" and len(xs) == 3:
            return _bc(lambda x, lo, hi: min(max(x, lo), hi), *xs)
        if last == "isin" and len(xs) == 2 and isinstance(xs[1], list):
            return _bc(lambda x: x in xs[1], xs[0])
        if last == "searchsorted":
            raise NotNumeric(str(t)[:80])
    raise NotNumeric(str(t)[:100])
