"""Abstract interpreter computing gated-SSA value terms.

Every function is walked once per calling context.  Branches are *joined*
(values become ``ite(cond, a, b)``), loops are summarised by phi terms found by
iterating the body to a fixpoint of the set of modified locations, package
functions are inlined (so extracting a helper changes nothing), everything
outside the package is an opaque operation described by tables.  The result is
a list of events (calls, writes, mutations, raises, returns) each with the
values involved and the conditions under which it happens, plus the terms of
returned values and of the heap.  No program input is ever chosen and no code
of the package is executed.
"""
from __future__ import annotations
import ast
import os
import itertools

from .model import FuncInfo, ClassInfo, Module, AnalysisBroken
from . import terms as T
from .terms import (mk, const, cval, sym, ite, and_, or_, not_, cmp_, is_const,
                    NONE, TRUE, FALSE, UNDEF)

# methods that change their receiver
MUTATORS = {
    "append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse",
    "update", "add", "discard", "setdefault", "popitem", "fill", "resize",
    "put", "itemset", "setdiag", "intersection_update", "difference_update",
    "symmetric_difference_update", "push_back", "__setitem__", "__delitem__",
    "appendleft", "popleft",
}
# change storage layout, never the represented value
NEUTRAL = {"sort_indices", "eliminate_zeros", "sum_duplicates", "prune",
           "sorted_indices", "check_format", "flush", "close", "write"}
# external functions changing an argument (by position)
EXT_MUT = {
    "numpy.random.shuffle": (0,), "random.shuffle": (0,), "numpy.copyto": (0,),
    "numpy.put": (0,), "numpy.fill_diagonal": (0,), "numpy.place": (0,),
    "heapq.heappush": (0,), "heapq.heappop": (0,),
    "scipy.sparse._sparsetools.csr_scale_rows": (4,),
    "scipy.sparse._sparsetools.csr_scale_columns": (4,),
    "scipy.sparse._sparsetools.csr_diagonal": (6,),
    "scipy.sparse._sparsetools.csc_matvec": (6,),
    "setattr": (0,), "delattr": (0,),
}
METH_ARG_MUT = {"shuffle": (0,)}   # rng.shuffle(x), method args (excl. receiver)
# scalar pure functions: equal arguments -> the same value (no identity)
SCALAR = {"len", "abs", "min", "max", "sum", "int", "float", "bool", "round",
          "str", "repr", "isinstance", "hasattr", "any", "all", "id", "hash",
          "callable", "issubclass", "ord", "chr", "numpy.log2", "numpy.log",
          "numpy.exp", "numpy.sqrt", "numpy.abs", "numpy.floor", "numpy.ceil",
          "numpy.isclose", "numpy.allclose", "numpy.float64", "numpy.int32",
          "numpy.int64", "numpy.isnan", "math.log", "math.exp", "math.sqrt",
          "scipy.sparse.isspmatrix_csr", "scipy.sparse.isspmatrix_csc",
          "scipy.sparse.issparse", "scipy.sparse.isspmatrix",
          "libc.math.log2", "libc.math.fmax", "os.path.join", "range",
          "os.path.splitext", "os.path.exists", "os.path.split", "slice",
          "cython.operator.dereference", "type", ".shape", "operator.index"}
PURE_METH = {"item", "keys", "values", "items", "startswith", "endswith",
             "lower", "upper", "strip", "format", "join", "split", "replace",
             "count", "index", "get", "is_integer", "size", "nnz"}


_LOG = [None]


class Heap(dict):
    """heap map that remembers every value ever stored (flow-insensitive view)"""
    __slots__ = ()

    def __setitem__(self, k, v):
        lg = _LOG[0]
        if lg is not None:
            lg.setdefault(k, set()).add(v)
        dict.__setitem__(self, k, v)


class State:
    __slots__ = ("frames", "heap", "guards", "facts", "dead")

    def __init__(self):
        self.frames, self.heap, self.guards, self.facts, self.dead = {}, Heap(), (), {}, False

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = Heap(self.heap)
        s.guards = self.guards
        s.facts = dict(self.facts)
        s.dead = self.dead
        return s

    def assume(self, c):
        if c is TRUE:
            return
        if c is FALSE:
            self.dead = True
            return
        if c.op == "and":
            for x in c.args:
                self.assume(x)
            return
        if self.facts.get(c) is True:
            return
        self.guards = self.guards + (c,)
        self.facts[c] = True
        self.facts[not_(c)] = False
        if c.op == "lt":
            self.facts[mk("le", c.args[0], c.args[1])] = True
            self.facts[mk("lt", c.args[1], c.args[0])] = False
            self.facts[mk("le", c.args[1], c.args[0])] = False
            e = cmp_("==", c.args[0], c.args[1])
            self.facts[e] = False
        if c.op == "eq" and is_const(c.args[1]):
            self.facts[("eqc", c.args[0])] = c.args[1]
        if c.op == "is" and c.args[1] is NONE:
            self.facts[("eqc", c.args[0])] = NONE
        if c.op not in ("lt", "le", "eq", "is", "in", "not", "or"):
            # truthy
            self.facts[cmp_("is", c, NONE)] = False

    def refacts(self):
        g = self.guards
        self.guards, self.facts = (), {}
        for c in g:
            self.assume(c)


class Frame:
    def __init__(self, fi, fid, ctx, selft=None, parent=None):
        self.fi, self.fid, self.ctx, self.selft, self.parent = fi, fid, ctx, selft, parent
        self.returns = []
        self.loops = []       # stack of LoopRec
        self.globals = set()
        self.nonlocals = set()
        self.captured = False


class LoopRec:
    def __init__(self, key, node):
        self.key, self.node = key, node
        self.breaks, self.conts = [], []


class Event:
    __slots__ = ("kind", "node", "frame", "guards", "loops", "stack", "d", "n", "fin")

    def __init__(self, kind, node, frame, guards, loops, stack, d, n):
        self.kind, self.node, self.frame, self.guards, self.loops, self.stack, self.d, self.n = \
            kind, node, frame, guards, loops, stack, d, n

    @property
    def fi(self):
        return self.frame.fi

    @property
    def where(self):
        return "%s:%d in %s" % (self.fi.module.rel, getattr(self.node, "lineno", 0), self.fi.qual)

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.where, {k: str(v)[:80] for k, v in self.d.items()})


class PhiInfo:
    __slots__ = ("init", "back", "loop", "var", "iter")

    def __init__(self, init, back, loop, var, it):
        self.init, self.back, self.loop, self.var, self.iter = init, back, loop, var, it


class Budget(Exception):
    pass


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_names.txt")) as _f:
    KNOWN = frozenset(_f.read().split())


def positional(fi, args, kwargs):
    """keyword arguments that continue the positional ones are made positional"""
    names = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
    if any(a.op == "star" for a in args):
        return args, kwargs
    args, kwargs = list(args), dict(kwargs)
    while len(args) < len(names) and names[len(args)] in kwargs:
        args.append(kwargs.pop(names[len(args)]))
    return args, kwargs


class Interp:
    def __init__(self, prog, max_depth=12, opaque=None, budget=400000,
                 attr_types=None, param_types=True, unroll=32):
        self.prog = prog
        self.max_depth = max_depth
        # a function that the reference tree does not have is a helper of its caller: always looked into
        self.opaque = (lambda fi: fi.name in KNOWN and opaque(fi)) if opaque else (lambda fi: False)
        self.events = []
        self.heaplog = {}
        self.made = {}            # list made from another -> its first contents
        self.phis = {}            # phi term -> PhiInfo
        self.objs = {}            # obj term -> dict(kind=..., cls=...)
        self.types = {}           # term -> ClassInfo
        self.attr_types = attr_types or {}
        self.param_types = param_types
        self.stack = []
        self.loopstack = []
        self.steps = 0
        self.budget = budget
        self.unroll = unroll
        self.analysed = set()
        self.undecided = []
        self.loopinfo = {}        # loop key -> dict(node, iter, cond)
        self._fid = itertools.count()
        self.cur_frame = None
        self.in_finally = 0
        self.alt = 0              # which binding of an import alternative

    # --------------------------------------------------------------- events
    def emit(self, kind, node, st, fr, **d):
        e = Event(kind, node, fr, st.guards, tuple(self.loopstack), tuple(self.stack), d, len(self.events))
        e.fin = self.in_finally
        self.events.append(e)
        return e

    # ----------------------------------------------------------------- run
    def run(self, fi, args=None, kwargs=None, selft=None, st=None, types=None, kw_extra=False):
        """Analyse function ``fi`` with symbolic parameters; returns Result."""
        st = st or State()
        _LOG[0] = self.heaplog
        fr0 = Frame(fi, -1, ())
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        args = dict(args or {})
        if selft is not None and names:
            args[names[0]] = selft
        bound = {}
        for n in names + kwonly:
            bound[n] = args.get(n, sym(n))
            if n not in args and self.param_types:
                self._ann_type(fi, n, bound[n])
        if a.vararg:
            bound[a.vararg.arg] = args.get(a.vararg.arg, sym("*" + a.vararg.arg))
        if a.kwarg:
            v = args.get(a.kwarg.arg)
            if v is None:
                v = sym("**" + a.kwarg.arg)
            bound[a.kwarg.arg] = v
        val, st2 = self._enter(fi, bound, st, fi.node, fr0, selft=selft)
        return Result(self, val, st2, bound)

    def _ann_type(self, fi, n, t):
        for x in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs:
            if x.arg == n and x.annotation is not None:
                r = self.prog.resolve_expr(fi.module, x.annotation)
                if isinstance(x.annotation, ast.Constant) and isinstance(x.annotation.value, str):
                    try:
                        r = self.prog.resolve_expr(fi.module, ast.parse(x.annotation.value, mode="eval").body)
                    except SyntaxError:
                        r = None
                if isinstance(r, ClassInfo):
                    self.types[t] = r

    def new_instance(self, cls, name="self"):
        t = sym(name)
        self.types[t] = cls
        return t

    # ------------------------------------------------------------- frames
    def _enter(self, fi, bound, st, node, caller, selft=None, parent=None):
        fid = next(self._fid)
        ctx = caller.ctx + ((getattr(node, "lineno", 0), getattr(node, "col_offset", 0), fi.id),)
        fr = Frame(fi, fid, ctx, selft, parent)
        st.frames[fid] = dict(bound)
        self.stack.append((fi, node))
        self.analysed.add(fi.id)
        body = fi.node.body
        if isinstance(fi.node, ast.Lambda):
            entry = st.guards
            val = self.eval(body, st, fr)
            self.stack.pop()
            st.frames.pop(fid, None)
            return val, st
        entry = st.guards
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _own_nodes(fi.node)):
            out = self._alloc(st, "list", fi.node, fr)
            st.heap[(out, "[]")] = mk("seq")
            st.frames[fid]["__yield__"] = out
        else:
            out = None
        saved = self.cur_frame
        self.cur_frame = fr
        end = self.block(body, st, fr)
        self.cur_frame = saved
        self.stack.pop()
        rets = list(fr.returns)
        if not end.dead:
            rets.append((end, out if out is not None else NONE))
        if not rets:
            st = end
            st.dead = True
            st.frames.pop(fid, None)
            return UNDEF, st
        if not fr.captured:
            for s, _ in rets:
                s.frames.pop(fid, None)
        # merge returns
        s0, v0 = rets[-1]
        if out is not None:
            v0 = out
        for s, v in reversed(rets[:-1]):
            delta = s.guards[_common(s.guards, entry):]
            c = and_(*delta) if delta else TRUE
            if out is not None:
                v = out
            v0 = ite(c, v, v0)
            s0 = self.merge(c, s, s0, entry)
        return v0, s0

    # ------------------------------------------------------------- merging
    def default(self, key):
        t, f = key
        if f == "[]":
            return mk("init", t)
        if f == "#v":
            return NONE
        return mk("attr", t, f)

    def merge(self, c, s1, s2, entry):
        if s1.dead:
            return s2
        if s2.dead:
            return s1
        out = State()
        for fid in set(s1.frames) | set(s2.frames):
            f1, f2 = s1.frames.get(fid), s2.frames.get(fid)
            if f1 is None or f2 is None:
                out.frames[fid] = dict(f1 or f2)
                continue
            d = {}
            for k in set(f1) | set(f2):
                v1, v2 = f1.get(k, UNDEF), f2.get(k, UNDEF)
                d[k] = v1 if v1 is v2 else ite(c, v1, v2)
            out.frames[fid] = d
        h1, h2 = s1.heap, s2.heap
        for k in set(h1) | set(h2):
            v1 = h1.get(k)
            v2 = h2.get(k)
            if v1 is None:
                v1 = self._absent(k)
            if v2 is None:
                v2 = self._absent(k)
            out.heap[k] = v1 if v1 is v2 else ite(c, v1, v2)
        g1, g2 = s1.guards, s2.guards
        n = 0
        while n < min(len(g1), len(g2)) and g1[n] is g2[n]:
            n += 1
        out.guards = g1[:n]
        d = or_(and_(*g1[n:]), and_(*g2[n:]))
        out.refacts()
        if d is not TRUE:
            out.assume(d)
        return out

    def _absent(self, key):
        # location never touched on that path
        t, f = key
        if t.op == "obj" and f != "#v" and f != "[]":
            return UNDEF
        return self.default(key)

    # ----------------------------------------------------------- deciding
    def decide(self, c, st, depth=0):
        if c.op == "const":
            return bool(cval(c))
        f = st.facts.get(c)
        if f is not None:
            return f
        if c.op == "not":
            r = self.decide(c.args[0], st, depth)
            return None if r is None else not r
        if c.op == "and":
            rs = [self.decide(x, st, depth + 1) for x in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if c.op == "or":
            rs = [self.decide(x, st, depth + 1) for x in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c.op == "ite" and depth < 6:
            k = self.decide(c.args[0], st, depth + 1)
            if k is not None:
                return self.decide(c.args[1 if k else 2], st, depth + 1)
            a, b = self.decide(c.args[1], st, depth + 1), self.decide(c.args[2], st, depth + 1)
            return a if a is not None and a == b else None
        if c.op in ("eq", "is"):
            a, b = c.args
            ka = st.facts.get(("eqc", a))
            if ka is not None and is_const(b):
                return ka is b or cval(ka) == cval(b)
            if b is NONE:
                if a.op in ("obj", "tuple", "fun", "cls", "poly", "bound") or (a.op == "const" and a is not NONE):
                    return False
                if st.facts.get(a) is True:
                    return False
                if a in self.types:
                    return False
                if a.op == "call":
                    return False if self._nonnull_call(a) else None
            return None
        if c.op == "isinst":
            cl = self.typeof(c.args[0])
            if cl is not None:
                return _isa(cl, c.args[1])
            o = c.args[0]
            if o.op == "obj":
                k = self.objs[o]["kind"]
                if c.args[1] in ("list", "dict", "set", "tuple", "str", "int", "float", "complex", "bool", "Number"):
                    return k == c.args[1]
                if c.args[1] in ("Iterable", "Collection", "Container", "Sized") and k in ("list", "dict", "set"):
                    return True
                if k in ("list", "dict", "set") and c.args[1] not in ("Sequence", "Mapping", "MutableSequence", "MutableMapping", "Set", "MutableSet", "Reversible", "object", "Hashable",
                                                                       "tuple", "frozenset", "Callable", "OrderedDict", "Generator", "Iterator"):
                    return False
            if o.op == "const":
                return _const_isa(cval(o), c.args[1])
            if o.op == "tuple":
                return c.args[1] in ("tuple", "Iterable", "Sequence", "Collection", "Container", "Sized")
            return None
        if c.op == "obj":
            k = self.objs.get(c, {}).get("kind")
            if k == "inst" or k == "closure":
                return True
            if k in ("list", "dict", "set"):
                cont = st.heap.get((c, "[]"))
                if cont is not None and cont.op in ("seq", "emptymap"):
                    return bool(cont.op == "seq" and cont.args)
                if cont is not None and cont.op in ("append", "store"):
                    return True
            return None
        if c.op == "tuple":
            return bool(c.args)
        if c.op in ("fun", "cls", "bound"):
            return True
        if c.op == "lt":
            if st.facts.get(mk("le", c.args[1], c.args[0])) is True:
                return False
        return None

    def _nonnull_call(self, a):
        f = a.args[0]
        return isinstance(f, str) and (f.startswith(("numpy.", "scipy.", "pandas.")) or f in
                                       ("len", "range", "list", "dict", "set", "str", "int", "float", "abs"))

    def simp(self, t, st):
        n = 0
        while t.op == "ite" and n < 40:
            k = self.decide(t.args[0], st)
            if k is None:
                a = t.args[1]
                # one-level descent
                if t.args[1].op == "ite" or t.args[2].op == "ite":
                    s1 = self._simp_under(t.args[1], st, t.args[0])
                    s2 = self._simp_under(t.args[2], st, not_(t.args[0]))
                    return ite(t.args[0], s1, s2)
                return t
            t = t.args[1] if k else t.args[2]
            n += 1
        return t

    def _simp_under(self, t, st, c):
        if t.op != "ite":
            return t
        k = self.decide(t.args[0], st)
        if k is None and t.args[0] is c:
            k = True
        if k is None and t.args[0] is not_(c):
            k = False
        if k is None:
            return t
        return self._simp_under(t.args[1] if k else t.args[2], st, c)

    # --------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st.dead:
                break
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, n, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("analysis budget exhausted in %s" % fr.fi.id)
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return st
        r = m(n, st, fr)
        return st if r is None else r

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return st
        self.eval(n.value, st, fr)

    def s_Pass(self, n, st, fr):
        return st

    def s_Assign(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        if st.dead:
            return st
        for t in n.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, n, st, fr):
        if n.value is not None:
            v = self.eval(n.value, st, fr)
            if not st.dead:
                self.assign(n.target, v, st, fr)

    def s_AugAssign(self, n, st, fr):
        tgt = n.target
        if isinstance(tgt, ast.Name):
            old = self.lookup(tgt.id, st, fr)
            rhs = self.eval(n.value, st, fr)
            new = self.binop(type(n.op).__name__, old, rhs, st)
            self.emit("aug", n, st, fr, target=old, value=rhs, new=new, op=type(n.op).__name__,
                      name=tgt.id)
            if old.op == "obj" and self.objs[old]["kind"] in ("list", "set"):
                # in-place extend
                c = st.heap.get((old, "[]"), mk("init", old))
                st.heap[(old, "[]")] = mk("extend", c, self._contents(rhs, st))
                self.emit("mutate", n, st, fr, target=old, how="aug")
                return st
            self.setvar(tgt.id, new, st, fr)
        elif isinstance(tgt, ast.Attribute):
            base = self.eval(tgt.value, st, fr)
            old = self.getattr(base, tgt.attr, n, st, fr)
            rhs = self.eval(n.value, st, fr)
            new = self.binop(type(n.op).__name__, old, rhs, st)
            self.emit("aug", n, st, fr, target=old, value=rhs, new=new, op=type(n.op).__name__,
                      name=tgt.attr, base=base)
            self.setattr(base, tgt.attr, new, n, st, fr, aug=True)
        elif isinstance(tgt, ast.Subscript):
            base = self.eval(tgt.value, st, fr)
            key = self.index(tgt.slice, st, fr)
            old = self.getitem(base, key, st)
            rhs = self.eval(n.value, st, fr)
            new = self.binop(type(n.op).__name__, old, rhs, st)
            self.setitem(base, key, new, n, st, fr, aug=True)

    def s_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.frames[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st, fr)
                self.emit("delattr", n, st, fr, base=b, name=t.attr)
                st.heap[(b, t.attr)] = UNDEF
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, fr)
                k = self.index(t.slice, st, fr)
                self.emit("delitem", n, st, fr, base=b, key=k)
                for leaf, conds in self.leaves(b):
                    c = st.heap.get((leaf, "[]"), mk("init", leaf))
                    st.heap[(leaf, "[]")] = _delkey(c, k)

    def s_Return(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        if st.dead:
            return st
        self.emit("return", n, st, fr, value=v)
        fr.returns.append((st, v))
        s = State()
        s.dead = True
        return s

    def s_Raise(self, n, st, fr):
        v = self.eval(n.exc, st, fr) if n.exc is not None else mk("sym", "<reraise>")
        self.emit("raise", n, st, fr, exc=v)
        s = State()
        s.dead = True
        return s

    def s_Assert(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        self.emit("assert", n, st, fr, cond=c)
        if self.decide(c, st) is False:
            self.emit("raise", n, st, fr, exc=mk("sym", "AssertionError"))
            s = State()
            s.dead = True
            return s
        st.assume(c)
        return st

    def s_If(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        if st.dead:
            return st
        d = self.decide(c, st)
        if d is True:
            return self.block(n.body, st, fr)
        if d is False:
            return self.block(n.orelse, st, fr)
        entry = st.guards
        s1, s2 = st.copy(), st
        s1.assume(c)
        s2.assume(not_(c))
        s1 = self.block(n.body, s1, fr)
        s2 = self.block(n.orelse, s2, fr)
        return self.merge(c, s1, s2, entry)

    def s_With(self, n, st, fr):
        for it in n.items:
            v = self.eval(it.context_expr, st, fr)
            self.emit("with", n, st, fr, value=v)
            if it.optional_vars is not None:
                r = self.getattr_soft_enter(v, st)
                self.assign(it.optional_vars, r, st, fr)
        st = self.block(n.body, st, fr)
        return st

    def getattr_soft_enter(self, v, st):
        return v

    def s_Try(self, n, st, fr):
        entry = st.guards
        pre = st.copy()
        mark = len(self.events)
        s1 = self.block(n.body, st, fr)
        body_events = self.events[mark:]
        res = s1
        if not s1.dead:
            for i in range(len(n.handlers)):
                s1.assume(not_(mk("exc", self._key(n, fr), i)))
        if not s1.dead and n.orelse:
            res = self.block(n.orelse, s1, fr)
        for i, h in enumerate(n.handlers):
            c = mk("exc", self._key(n, fr), i)
            hs = pre.copy()
            # locations possibly modified before the exception
            if not s1.dead:
                for key, new in self._diff(pre, s1):
                    old = self._getloc(pre, key)
                    self._setloc(hs, key, ite(mk("excmid", self._key(n, fr), i), new, old))
            else:
                for e in body_events:
                    if e.kind == "store_name" and e.frame is fr:
                        hs.frames[fr.fid][e.d["name"]] = e.d["value"]
            hs.assume(c)
            if h.name:
                hs.frames[fr.fid][h.name] = mk("sym", "<exc>")
            self.emit("handler", h, hs, fr, type=(ast.unparse(h.type) if h.type else None))
            hs = self.block(h.body, hs, fr)
            res = self.merge(c, hs, res, entry)
        if n.finalbody:
            self.in_finally += 1
            res = self.block(n.finalbody, res, fr)
            self.in_finally -= 1
        return res

    def s_FunctionDef(self, n, st, fr):
        fi = FuncInfo(fr.fi.module, n, None, fr.fi.qual + "." + n.name)
        t = self._closure(fi, st, fr)
        for d in reversed(n.decorator_list):
            dv = self.eval(d, st, fr)
            if dv.op == "ext" and dv.args[0] == "functools.wraps":
                continue
            if dv.op == "call" and dv.args[0] == "functools.wraps":
                continue
            t = self.call(dv, [t], {}, n, st, fr)
        self.setvar(n.name, t, st, fr)

    def _closure(self, fi, st, fr):
        f = fr
        while f is not None:
            f.captured = True
            f = f.parent
        t = mk("obj", "closure:" + fi.qual, self._key(fi.node, fr))
        self.objs[t] = {"kind": "closure", "fi": fi, "parent": fr}
        return t

    def s_ClassDef(self, n, st, fr):
        ci = ClassInfo(fr.fi.module, n)
        self.setvar(n.name, mk("cls", ci), st, fr)

    def s_Global(self, n, st, fr):
        fr.globals |= set(n.names)

    def s_Nonlocal(self, n, st, fr):
        fr.nonlocals |= set(n.names)

    def s_Import(self, n, st, fr):
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else nm
            full = self.prog._canon(full)
            st.frames[fr.fid][nm] = self._modterm(full)

    def s_ImportFrom(self, n, st, fr):
        base = self.prog._abs(fr.fi.module, n.module, n.level)
        for a in n.names:
            r = self.prog._res_binding(fr.fi.module, ("from", base, a.name), self.alt)
            st.frames[fr.fid][a.asname or a.name] = self._wrap_res(r, fr)

    def _modterm(self, full):
        m = self.prog.modules.get(full)
        return mk("mod", m) if m else mk("ext", full)

    def s_Break(self, n, st, fr):
        if fr.loops:
            fr.loops[-1].breaks.append(st)
        s = State()
        s.dead = True
        return s

    def s_Continue(self, n, st, fr):
        if fr.loops:
            fr.loops[-1].conts.append(st)
        s = State()
        s.dead = True
        return s

    # --------------------------------------------------------------- loops
    def _key(self, n, fr):
        return fr.ctx + ((getattr(n, "lineno", 0), getattr(n, "col_offset", 0), type(n).__name__),)

    def s_While(self, n, st, fr):
        return self.loop(n, st, fr, None, n.body, test=n.test)

    def s_For(self, n, st, fr):
        it = self.eval(n.iter, st, fr)
        if st.dead:
            return st
        return self.for_loop(n, it, n.target, n.body, st, fr, n.orelse)

    s_AsyncFor = s_For

    def for_loop(self, n, it, target, body, st, fr, orelse=()):
        items = self.known_items(it, st)
        if items is not None and len(items) <= self.unroll and items is not None:
            rec = LoopRec(("unroll",) + self._key(n, fr), n)
            fr.loops.append(rec)
            entry = st.guards
            ctx0 = fr.ctx
            for num, v in enumerate(items):
                if st.dead:
                    break
                # objects made in different iterations are different objects
                fr.ctx = ctx0 + ((getattr(n, "lineno", 0), getattr(n, "col_offset", 0), num),) if num else ctx0
                self.assign(target, v, st, fr)
                st = self.block(body, st, fr)
                for i, cs in enumerate(rec.conts):
                    delta = cs.guards[_common(cs.guards, entry):]
                    st = self.merge(and_(*delta), cs, st, entry)
                rec.conts = []
            fr.ctx = ctx0
            fr.loops.pop()
            for b in rec.breaks:
                delta = b.guards[_common(b.guards, entry):]
                st = self.merge(and_(*delta), b, st, entry)
            return st
        out = self.loop(n, st, fr, it, body, target=target)
        if orelse and not out.dead:
            out = self.block(orelse, out, fr)
        return out

    def known_items(self, it, st):
        if it.op == "tuple":
            return list(it.args)
        if it.op == "obj":
            c = st.heap.get((it, "[]"))
            k = self.objs[it]["kind"]
            if c is not None and c.op == "seq" and k in ("list", "set"):
                return list(c.args)
            if k == "dict" and c is not None:
                ks = _mapkeys(c)
                return None if ks is None else [k_ for k_, _ in ks]
        if it.op == "seq":
            return list(it.args)
        if it.op == "contents" and it.args[1].op == "seq" and self.objs.get(it.args[0], {}).get("kind") in ("list", "set"):
            return list(it.args[1].args)
        if it.op in ("concat", "binBitOr"):
            xs = [self.known_items(x, st) for x in it.args if x.op in ("obj", "tuple", "seq", "concat", "binBitOr")]
            if len(xs) == len(it.args) and all(x is not None for x in xs):
                xs = [y for x in xs for y in x]
                if it.op == "concat":
                    return xs
                if all(is_const(x) for x in xs):
                    return list(dict.fromkeys(xs))
            return None
        if it.op == "call":
            f, a = it.args[0], it.args[1]
            if f in ("iter", "list", "tuple") and len(a) == 1 and not it.args[2]:
                return self.known_items(a[0], st)
            if f == "enumerate" and len(a) == 1 and not it.args[2]:
                xs = self.known_items(a[0], st)
                return None if xs is None else [mk("tuple", const(i), x) for i, x in enumerate(xs)]
            if f == "zip":
                xs = [self.known_items(x, st) for x in a]
                if all(x is not None for x in xs) and xs:
                    return [mk("tuple", *z) for z in zip(*xs)]
            if f == ".items" and a and a[0].op == "obj":
                c = st.heap.get((a[0], "[]"))
                ks = _mapkeys(c) if c is not None else None
                if ks is not None:
                    return [mk("tuple", k_, v_) for k_, v_ in ks]
            if f in (".keys", ".values") and a and a[0].op == "obj":
                c = st.heap.get((a[0], "[]"))
                ks = _mapkeys(c) if c is not None else None
                if ks is not None:
                    return [k_ if f == ".keys" else v_ for k_, v_ in ks]
            if f == "range" and all(is_const(x) and isinstance(cval(x), int) for x in a):
                r = range(*[cval(x) for x in a])
                if len(r) <= 4:
                    return [const(i) for i in r]
        return None

    def elem(self, it, key, st):
        """abstract element of an iterable at a generic iteration"""
        if it.op == "ite":
            return ite(it.args[0], self.elem(it.args[1], key, st), self.elem(it.args[2], key, st))
        if it.op == "call":
            f, a = it.args[0], it.args[1]
            if f == "enumerate" and a:
                i = mk("elem", mk("call", "range", (self.length(a[0], st),), (), None), key)
                s0 = a[1] if len(a) > 1 else dict(it.args[2]).get("start", const(0))
                return mk("tuple", T.add(i, s0), self.elem_at(a[0], i, key, st))
            if f == "zip":
                lens = mk("call", "range", (self.length(a[0], st) if a else const(0),), (), None)
                i = mk("elem", lens, key)
                return mk("tuple", *[self.elem_at(x, i, key, st) for x in a])
            if f == ".items" and a:
                k = mk("elem", a[0], key)
                return mk("tuple", k, self.getitem(a[0], k, st))
            if f == ".keys" and a:
                return mk("elem", a[0], key)
            if f == ".values" and a:
                return self.getitem(a[0], mk("elem", a[0], key), st)
            if f == "range":
                return mk("elem", it, key)
            if f in ("list", "tuple", "iter") and len(a) == 1:
                return self.elem(a[0], key, st)
            if f == "reversed" and len(a) == 1:
                return mk("elem", it, key)
        if it.op == "obj" and self.objs[it]["kind"] in ("list", "set"):
            c = st.heap.get((it, "[]"))
            if c is not None:
                return mk("elem", mk("contents", it, c), key)
        v = st.heap.get((it, "[]"))
        if v is not None and it.op != "obj":
            return mk("elem", mk("contents", it, v), key)
        return mk("elem", it, key)

    def elem_at(self, x, i, key, st):
        """element of x at position i (generic iteration key)"""
        if x.op == "call" and x.args[0] in ("range", "enumerate", "zip", ".items", ".keys", ".values"):
            return self.elem(x, key, st)
        if x.op in ("tuple",):
            return mk("select", x, i)
        return self.getitem(x, i, st)

    def length(self, x, st):
        return mk("call", "len", (self._versioned(x, st),), (), None)

    def loop(self, n, st, fr, it, body, target=None, test=None):
        key = self._key(n, fr)
        modified = set()
        # seed with names assigned in the body
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    if x.id in st.frames[fr.fid]:
                        modified.add(("v", fr.fid, x.id))
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    modified.add(("v", fr.fid, x.target.id))
        nret = len(fr.returns)
        mark = len(self.events)
        for attempt in range(8):
            head = st.copy()
            phis = {}
            for k in modified:
                p = mk("phi", key, k if k[0] == "v" else ("h", k[1], k[2]))
                phis[k] = p
                old = self._getloc(st, k)
                ty = self.typeof(old) if isinstance(old, T.Term) else None
                if ty is not None and old.op != "obj":
                    self.types.setdefault(p, ty)
                self.phis.setdefault(p, PhiInfo(old, None, key, k, it))
                self._setloc(head, k, p)
            del self.events[mark:]
            del fr.returns[nret:]
            rec = LoopRec(key, n)
            fr.loops.append(rec)
            self.loopstack.append(key)
            info = {"node": n, "iter": it, "cond": None, "fr": fr, "breaks": 0}
            self.loopinfo[key] = info
            s = head.copy()
            s.guards = s.guards + (mk("iter", key),)
            s.facts[mk("iter", key)] = True
            exit_state = head
            const_true = False
            if test is not None:
                c = self.cond(test, s, fr)
                info["cond"] = c
                d = self.decide(c, s)
                if d is True:
                    const_true = True
                elif d is False:
                    pass
                # the exit takes effects of the test (heap writes in test)
                exit_state = s.copy()
                exit_state.guards = head.guards
                exit_state.facts = dict(head.facts)
                if d is not True:
                    exit_state.assume(not_(c))
                s.assume(c)
            if target is not None:
                v = self.elem(it, key, s)
                info["elem"] = v
                self.assign(target, v, s, fr)
            inner_entry = s.guards
            e = self.block(body, s, fr) if not s.dead else s
            for cs in rec.conts:
                delta = cs.guards[_common(cs.guards, inner_entry):]
                e = self.merge(and_(*delta), cs, e, inner_entry)
            self.loopstack.pop()
            fr.loops.pop()
            # modified locations
            new = set()
            if not e.dead:
                for k, v in self._diff(head, e):
                    if k[0] == "v" and k[1] == fr.fid and k[2] not in head.frames[fr.fid]:
                        continue      # local to the iteration
                    if k not in modified:
                        new.add(k)
            if not new:
                for k in modified:
                    p = phis[k]
                    self.phis[p] = PhiInfo(self._getloc(st, k),
                                           self._getloc(e, k) if not e.dead else p, key, k, it)
                break
            modified |= new
        info["breaks"] = len(rec.breaks)
        # exit
        if test is not None and const_true:
            res = State()
            res.dead = True
        else:
            res = exit_state
            # iteration-local names keep their last value
            if not e.dead:
                for k, v in e.frames[fr.fid].items():
                    if k not in res.frames[fr.fid]:
                        res.frames[fr.fid][k] = v
        for i, b in enumerate(rec.breaks):
            c = mk("brk", key, i)
            info.setdefault("break_guards", []).append(b.guards[len(head.guards):])
            if not res.dead:
                bg = b.guards
                b.guards = head.guards + (and_(*b.guards[len(head.guards):]),)
                b.refacts()
                b.guards = head.guards
            res = self.merge(c, b, res, head.guards)
        return res

    def _getloc(self, st, k):
        if k[0] == "v":
            return st.frames.get(k[1], {}).get(k[2], UNDEF)
        v = st.heap.get((k[1], k[2]))
        return v if v is not None else self._absent((k[1], k[2]))

    def _setloc(self, st, k, v):
        if k[0] == "v":
            if k[1] in st.frames:
                st.frames[k[1]][k[2]] = v
        else:
            st.heap[(k[1], k[2])] = v

    def _diff(self, a, b):
        out = []
        for fid, f in b.frames.items():
            fa = a.frames.get(fid)
            if fa is None:
                continue
            for k, v in f.items():
                if fa.get(k) is not v:
                    out.append((("v", fid, k), v))
        for k, v in b.heap.items():
            va = a.heap.get(k)
            if va is None:
                if k[0].op == "obj" and k[0] not in self._live(a):
                    # object allocated inside: not loop-carried unless reachable
                    if not self._known(a, k[0]):
                        continue
                va = self._absent(k)
            if va is not v:
                out.append((("h", k[0], k[1]), v))
        return out

    def _live(self, a):
        return ()

    def _known(self, st, obj):
        for k in st.heap:
            if k[0] is obj:
                return True
        return False

    # --------------------------------------------------------------- names
    def lookup(self, name, st, fr):
        f = fr
        if name not in fr.globals:
            while f is not None:
                d = st.frames.get(f.fid)
                if d is not None and name in d:
                    return self.simp(d[name], st)
                if d is None and getattr(f, "saved", None) and name in f.saved:
                    return f.saved[name]
                f = f.parent
        return self.global_name(name, fr.fi.module, st, fr)

    def global_name(self, name, m, st, fr):
        if (mk("mod", m), name) in st.heap:
            return st.heap[(mk("mod", m), name)]
        r = self.prog.resolve_name(m, name, self.alt)
        if r is not None:
            return self._wrap_res(r, fr)
        return mk("ext", name)

    def _wrap_res(self, r, fr):
        if isinstance(r, FuncInfo):
            return mk("fun", r)
        if isinstance(r, ClassInfo):
            return mk("cls", r)
        if isinstance(r, Module):
            return mk("mod", r)
        if isinstance(r, tuple) and r[0] == "glob":
            m, nm = r[1], r[2]
            asg = m.globals_assign.get(nm, [])
            if len(asg) == 1 and isinstance(asg[0], ast.Assign) and len(asg[0].targets) == 1 \
                    and isinstance(asg[0].targets[0], ast.Name):
                v = asg[0].value
                if isinstance(v, ast.Constant):
                    return const(v.value)
                rr = self.prog.resolve_expr(m, v)
                if isinstance(rr, (FuncInfo, ClassInfo, Module)):
                    return self._wrap_res(rr, fr)
                lit = self._const_literal(v)
                if lit is not None:
                    return lit
            return mk("glob", m, nm)
        if isinstance(r, str):
            return mk("ext", r)
        return mk("ext", "?")

    def _const_literal(self, v):
        if isinstance(v, ast.Constant):
            return const(v.value)
        if isinstance(v, (ast.Tuple, ast.List)):
            xs = [self._const_literal(x) for x in v.elts]
            if all(x is not None for x in xs):
                return mk("tuple", *xs)
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant):
            return const(-v.operand.value)
        return None

    def setvar(self, name, v, st, fr):
        if name in fr.globals:
            st.heap[(mk("mod", fr.fi.module), name)] = v
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if f.fid in st.frames and name in st.frames[f.fid]:
                    st.frames[f.fid][name] = v
                    return
                f = f.parent
        st.frames[fr.fid][name] = v

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, fr)
            self.setattr(b, t.attr, v, t, st, fr)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, fr)
            k = self.index(t.slice, st, fr)
            self.setitem(b, k, v, t, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, mk("unpack", v, const(0)), st, fr)
                return
            for i, x in enumerate(t.elts):
                self.assign(x, self.unpack(v, i, st), st, fr)

    def unpack(self, v, i, st):
        if v.op == "ite":
            return ite(v.args[0], self.unpack(v.args[1], i, st), self.unpack(v.args[2], i, st))
        if v.op == "tuple" and i < len(v.args):
            return v.args[i]
        if v.op == "seq" and i < len(v.args):
            return v.args[i]
        return self.getitem(v, const(i), st)

    # ---------------------------------------------------------- attributes
    def typeof(self, t):
        if t in self.types:
            return self.types[t]
        if t.op == "obj":
            return self.objs[t].get("cls")
        if t.op == "at":
            return self.typeof(t.args[0])
        if t.op == "attr":
            b = self.typeof(t.args[0])
            if b is not None:
                for c in b.mro():
                    h = self.attr_types.get((c.name, t.args[1]))
                    if h:
                        return self.prog.cls(h)
        if t.op in ("idx", "select", "elem"):
            h = self._elem_type(t.args[0])
            if h:
                return self.prog.cls(h)
        if t.op == "ite":
            a, b = self.typeof(t.args[1]), self.typeof(t.args[2])
            if a is b:
                return a
            if t.args[1].op == "undef" or t.args[1] is NONE:
                return b
            if t.args[2].op == "undef" or t.args[2] is NONE:
                return a
        return None

    def _elem_type(self, t):
        if t.op == "attr":
            b = self.typeof(t.args[0])
            if b is not None:
                for c in b.mro():
                    h = self.attr_types.get((c.name, t.args[1] + "[]"))
                    if h:
                        return h
        return None

    def leaves(self, t, conds=()):
        """ite leaves with the conditions selecting them"""
        if t.op == "ite" and len(conds) < 8:
            yield from self.leaves(t.args[1], conds + (t.args[0],))
            yield from self.leaves(t.args[2], conds + (not_(t.args[0]),))
        else:
            yield t, conds

    def getattr(self, b, name, node, st, fr):
        b = self.simp(b, st)
        if b.op == "ite":
            c = b.args[0]
            if self.decide(c, st) is None:
                s1 = st.copy()
                s1.assume(c)
                s2 = st.copy()
                s2.assume(not_(c))
                h1, h2 = dict(s1.heap), dict(s2.heap)
                v1 = self.getattr(b.args[1], name, node, s1, fr) if b.args[1].op != "undef" else UNDEF
                v2 = self.getattr(b.args[2], name, node, s2, fr) if b.args[2].op != "undef" else UNDEF
                if s1.heap != h1 or s2.heap != h2:
                    m = self.merge(c, s1, s2, st.guards)
                    st.heap, st.frames = m.heap, m.frames
                if v1 is UNDEF:
                    return v2
                if v2 is UNDEF:
                    return v1
                return ite(c, v1, v2)
        if b.op == "mod":
            m = b.args[0]
            if (b, name) in st.heap:
                return st.heap[(b, name)]
            sub = self.prog.modules.get(m.name + "." + name)
            r = self.prog.resolve_name(m, name, self.alt)
            if r is None and sub is not None:
                return mk("mod", sub)
            return self._wrap_res(r, fr) if r is not None else mk("ext", m.name + "." + name)
        if b.op == "ext":
            return mk("ext", b.args[0] + "." + name)
        if b.op == "super":
            cls, selft = b.args
            own = self.typeof(selft) or cls
            mro = own.mro()
            i = mro.index(cls) if cls in mro else 0
            for c in mro[i + 1:]:
                if name in c.methods:
                    return mk("bound", c.methods[name], selft)
            return mk("attr", b, name)
        if b.op == "cls":
            ci = b.args[0]
            if name == "__name__":
                return const(ci.name)
            f = ci.find(name)
            if f is not None:
                if name in ci.classm or any(name in c.classm for c in ci.mro()):
                    return mk("bound", f, b)
                return mk("fun", f)
            ca = ci.find_class_attr(name)
            if (b, name) in st.heap:
                return st.heap[(b, name)]
            if ca is not None and isinstance(ca[1], ast.Constant):
                return mk("attr", b, name) if ci.is_a("Enum") or ci.ext_bases() else const(ca[1].value)
            return mk("attr", b, name)
        ci = self.typeof(b)
        if ci is not None:
            if name == "__class__":
                return mk("cls", ci)
            pr = ci.find_prop(name)
            if pr is not None and "get" in pr:
                return self.inline(pr["get"], [b], {}, node, st, fr, selft=b)
            v = st.heap.get((b, name))
            if v is not None:
                v = self.simp(v, st)
                if v is not UNDEF:
                    return v
                return mk("attr", b, name)
            f = ci.find(name)
            if f is not None:
                if any(name in c.static for c in ci.mro()):
                    return mk("fun", f)
                if any(name in c.classm for c in ci.mro()):
                    return mk("bound", f, mk("cls", ci))
                return mk("bound", f, b)
            ca = ci.find_class_attr(name)
            if ca is not None:
                lit = self._const_literal(ca[1])
                if lit is not None:
                    return lit
                return mk("attr", mk("cls", ca[0]), name)
            self.hook_attr(b, ci, name, node, st, fr)
            return mk("attr", b, name)
        v = st.heap.get((b, name))
        if v is not None:
            return self.simp(v, st)
        vv = st.heap.get((b, "#v"))
        if vv is not None and name in ("data", "indices", "indptr", "shape", "T", "size"):
            return mk("attr", mk("at", b, vv), name)
        return mk("attr", b, name)

    def hook_attr(self, b, ci, name, node, st, fr):
        pass

    def setattr(self, b, name, v, node, st, fr, aug=False):
        b = self.simp(b, st)
        ci = self.typeof(b)
        if ci is not None and b.op != "ite":
            pr = ci.find_prop(name)
            if pr is not None and "set" in pr:
                self.emit("setprop", node, st, fr, base=b, name=name, value=v)
                self.inline(pr["set"], [b, v], {}, node, st, fr, selft=b)
                return
        self.emit("setattr", node, st, fr, base=b, name=name, value=v, aug=aug,
                  old=st.heap.get((b, name)))
        lv = list(self.leaves(b))
        if len(lv) == 1:
            st.heap[(b, name)] = v
        else:
            for leaf, conds in lv:
                old = st.heap.get((leaf, name))
                if old is None:
                    old = self._absent((leaf, name))
                st.heap[(leaf, name)] = ite(and_(*conds), v, old)

    # ------------------------------------------------------------ subscripts
    def index(self, n, st, fr):
        if isinstance(n, ast.Slice):
            return mk("slice",
                      self.eval(n.lower, st, fr) if n.lower else NONE,
                      self.eval(n.upper, st, fr) if n.upper else NONE,
                      self.eval(n.step, st, fr) if n.step else NONE)
        if isinstance(n, ast.Tuple):
            return mk("tuple", *[self.index(x, st, fr) for x in n.elts])
        return self.eval(n, st, fr)

    def getitem(self, b, k, st):
        if b.op == "ite":
            return ite(b.args[0], self.getitem(b.args[1], k, st), self.getitem(b.args[2], k, st))
        if b.op == "undef":
            return UNDEF
        if b.op in ("tuple", "seq") and is_const(k) and isinstance(cval(k), int):
            i = cval(k)
            if -len(b.args) <= i < len(b.args):
                return b.args[i]
        if b.op == "tuple" and k.op == "slice":
            s = [None if x is NONE else (cval(x) if is_const(x) else "?") for x in k.args]
            if "?" not in s:
                return mk("tuple", *b.args[slice(*s)])
        if b.op == "const" and isinstance(cval(b), str) and is_const(k) and isinstance(cval(k), int):
            try:
                return const(cval(b)[cval(k)])
            except IndexError:
                pass
        c = st.heap.get((b, "[]"))
        if c is not None:
            return self.simp(self.select(c, k, b), st)
        return mk("idx", b, k)

    def select(self, c, k, b=None, depth=0):
        if c.op == "init":
            return mk("idx", c.args[0], k)
        if c.op == "zeros":
            if k.op not in ("slice",):
                return const(0)
        if c.op == "ite" and depth < 20:
            return ite(c.args[0], self.select(c.args[1], k, b, depth + 1),
                       self.select(c.args[2], k, b, depth + 1))
        if c.op == "store":
            c0, k0, v = c.args
            if k0 is k:
                return v
            if _distinct(k0, k):
                return self.select(c0, k, b, depth + 1)
            return mk("select", c, k)
        if c.op == "delkey":
            if _distinct(c.args[1], k):
                return self.select(c.args[0], k, b, depth + 1)
            return mk("select", c, k)
        if c.op == "seq" and is_const(k) and isinstance(cval(k), int):
            i = cval(k)
            if -len(c.args) <= i < len(c.args):
                return c.args[i]
        if c.op == "seq" and k.op == "slice" and all(is_const(x) for x in k.args):
            return mk("seq", *c.args[slice(*[cval(x) for x in k.args])])
        if c.op == "append" and is_const(k) and cval(k) == -1:
            return c.args[1]
        if c.op == "listof" and is_const(k) and c.args[0].op in ("tuple", "seq"):
            return self.select(c.args[0], k)
        return mk("select", c, k)

    def setitem(self, b, k, v, node, st, fr, aug=False):
        b = self.simp(b, st)
        self.emit("setitem", node, st, fr, base=b, key=k, value=v, aug=aug)
        lv = list(self.leaves(b))
        for leaf, conds in lv:
            if leaf.op == "undef":
                continue
            c = st.heap.get((leaf, "[]"))
            if c is None:
                c = mk("init", leaf)
            new = self._store(c, k, v)
            st.heap[(leaf, "[]")] = new if len(lv) == 1 else ite(and_(*conds), new, c)

    def _store(self, c, k, v):
        if c.op == "store" and c.args[1] is k:
            return mk("store", c.args[0], k, v)
        if c.op == "seq" and is_const(k) and isinstance(cval(k), int) and -len(c.args) <= cval(k) < len(c.args):
            xs = list(c.args)
            xs[cval(k)] = v
            return mk("seq", *xs)
        return mk("store", c, k, v)

    # --------------------------------------------------------- expressions
    def cond(self, n, st, fr):
        if isinstance(n, ast.BoolOp):
            return self.e_BoolOp(n, st, fr, asbool=True)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not_(self.cond(n.operand, st, fr))
        return self.truth(self.eval(n, st, fr), st)

    def truth(self, t, st):
        t = self.simp(t, st)
        if t.op == "const":
            return const(bool(cval(t)))
        d = self.decide(t, st) if t.op in ("obj", "tuple", "fun", "cls", "bound") else None
        if d is not None:
            return const(d)
        if t.op == "ite":
            return ite(t.args[0], self.truth(t.args[1], st), self.truth(t.args[2], st))
        if t.op == "obj":
            return mk("nonempty", t, st.heap.get((t, "[]"), mk("init", t)))
        return t

    def eval(self, n, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("analysis budget exhausted in %s" % fr.fi.id)
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return mk("sym", "?" + type(n).__name__ + str(self._key(n, fr)))
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        return const(n.value)

    def e_Name(self, n, st, fr):
        return self.lookup(n.id, st, fr)

    def e_Attribute(self, n, st, fr):
        b = self.eval(n.value, st, fr)
        v = self.getattr(b, n.attr, n, st, fr)
        self.on_read(b, n.attr, v, n, st, fr)
        return v

    def on_read(self, b, name, v, n, st, fr):
        pass

    def e_Subscript(self, n, st, fr):
        b = self.eval(n.value, st, fr)
        k = self.index(n.slice, st, fr)
        b = self.simp(b, st)
        ci = self.typeof(b)
        if ci is not None and b.op != "ite":
            f = ci.find("__getitem__")
            if f is not None:
                return self.inline(f, [b, k], {}, n, st, fr, selft=b)
        return self.getitem(b, k, st)

    def e_Tuple(self, n, st, fr):
        xs = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                it = self.known_items(v, st)
                if it is None:
                    xs.append(mk("star", v))
                else:
                    xs += it
            else:
                xs.append(self.eval(x, st, fr))
        return mk("tuple", *xs)

    def _alloc(self, st, kind, node, fr, **info):
        t = mk("obj", kind if kind != "inst" else info["cls"].name, self._key(node, fr))
        self.objs[t] = dict(kind=kind, node=node, **info)
        for k in [k for k in st.heap if k[0] is t]:
            del st.heap[k]
        return t

    def e_List(self, n, st, fr):
        xs = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                it = self.known_items(v, st)
                xs += it if it is not None else [mk("star", v)]
            else:
                xs.append(self.eval(x, st, fr))
        t = self._alloc(st, "list", n, fr)
        st.heap[(t, "[]")] = mk("seq", *xs)
        return t

    def e_Set(self, n, st, fr):
        xs = [self.eval(x, st, fr) for x in n.elts]
        t = self._alloc(st, "set", n, fr)
        st.heap[(t, "[]")] = mk("seq", *xs)
        return t

    def e_Dict(self, n, st, fr):
        c = mk("emptymap")
        for k, v in zip(n.keys, n.values):
            if k is None:
                c = self._mergemap(c, self._contents(self.eval(v, st, fr), st))
            else:
                c = self._store(c, self.eval(k, st, fr), self.eval(v, st, fr))
        t = self._alloc(st, "dict", n, fr)
        st.heap[(t, "[]")] = c
        return t

    def _mergemap(self, c, oc):
        """the mapping c after update with the mapping oc"""
        ks = _mapkeys(oc)
        if ks is None:
            return oc if c.op == "emptymap" else mk("mergemap", c, oc)
        for k, v in ks:
            c = self._store(c, k, v)
        return c

    def _contents(self, t, st):
        c = st.heap.get((t, "[]"))
        if c is not None:
            return c
        if t.op in ("tuple", "seq"):
            return mk("seq", *t.args)
        return mk("init", t)

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, st, fr)
                if is_const(x) and v.format_spec is None and v.conversion == -1:
                    x = const(str(cval(x)))
                elif v.format_spec is not None:
                    x = mk("fmt", x, self.eval(v.format_spec, st, fr))
                parts.append(x)
        out = []
        for p in parts:
            if out and is_const(p) and is_const(out[-1]) and isinstance(cval(p), str) and isinstance(cval(out[-1]), str):
                out[-1] = const(cval(out[-1]) + cval(p))
            else:
                out.append(p)
        if not out:
            return const("")
        if len(out) == 1 and is_const(out[0]):
            return out[0]
        return mk("fstr", *out)

    def e_FormattedValue(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            return not_(self.cond(n.operand, st, fr))
        v = self.eval(n.operand, st, fr)
        if isinstance(n.op, ast.USub):
            return T.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return mk("invert", v)
        return mk("unary", type(n.op).__name__, v)

    def e_BinOp(self, n, st, fr):
        a = self.eval(n.left, st, fr)
        b = self.eval(n.right, st, fr)
        op = type(n.op).__name__
        ca = self.typeof(self.simp(a, st))
        meth = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "MatMult": "__matmul__",
                "Div": "__truediv__"}.get(op)
        if ca is not None and meth:
            f = ca.find(meth)
            if f is not None:
                return self.inline(f, [a, b], {}, n, st, fr, selft=a)
        cb = self.typeof(self.simp(b, st))
        if cb is not None and meth:
            f = cb.find("__r" + meth[2:])
            if f is not None:
                return self.inline(f, [b, a], {}, n, st, fr, selft=b)
        self.on_binop(op, a, b, n, st, fr)
        r = self.binop(op, a, b, st)
        if op == "Add" and (a.op == "obj" or b.op == "obj"):
            t = self._alloc(st, "list", n, fr)
            st.heap[(t, "[]")] = mk("concat", self._contents(a, st), self._contents(b, st))
            return t
        if op == "BitOr" and all(x.op == "obj" and self.objs[x]["kind"] == "dict" for x in (a, b)):
            t = self._alloc(st, "dict", n, fr)
            st.heap[(t, "[]")] = self._mergemap(self._contents(a, st), self._contents(b, st))
            return t
        if op == "Mult" and (a.op == "obj" and self.objs[a]["kind"] == "list"):
            t = self._alloc(st, "list", n, fr)
            st.heap[(t, "[]")] = mk("repeat", self._contents(a, st), b)
            return t
        return r

    def on_binop(self, op, a, b, n, st, fr):
        pass

    def binop(self, op, a, b, st):
        sa = is_const(a) and isinstance(cval(a), str)
        sb = is_const(b) and isinstance(cval(b), str)
        if op == "Add":
            if sa and sb:
                return const(cval(a) + cval(b))
            if sa or sb or a.op in ("tuple", "seq", "fstr", "obj", "concat") or b.op in ("tuple", "seq", "fstr", "obj", "concat"):
                if a.op == "tuple" and b.op == "tuple":
                    return mk("tuple", *(a.args + b.args))
                return mk("concat", a, b)
            return T.add(a, b)
        if op == "Sub":
            return T.sub(a, b)
        if op == "Mult":
            return T.mul(a, b)
        if op == "Div":
            return T.div(a, b)
        if op == "Pow":
            return T.power(a, b)
        if op == "MatMult":
            return mk("matmul", a, b)
        if op == "Mod" and sa:
            return mk("fstr", a, b)
        if op in ("BitAnd", "BitOr"):
            if a.n > b.n:
                a, b = b, a
        return mk("bin" + op, a, b)

    def e_BoolOp(self, n, st, fr, asbool=False):
        is_and = isinstance(n.op, ast.And)
        ev = self.cond if asbool else self.eval
        cur = ev(n.values[0], st, fr)
        for x in n.values[1:]:
            c = self.truth(cur, st)
            d = self.decide(c, st)
            if d is not None:
                if d == is_and:
                    cur = ev(x, st, fr)
                    continue
                return cur
            s1 = st.copy()
            s1.assume(c if is_and else not_(c))
            h0, n0 = s1.heap.copy(), len(s1.guards)
            v = ev(x, s1, fr)
            if s1.heap != h0:
                m = self.merge(c if is_and else not_(c), s1, st.copy(), st.guards)
                st.heap, st.frames = m.heap, m.frames
            boolish = asbool or _boolean(cur) and _boolean(v)
            if boolish:
                cur = and_(cur, v) if is_and else or_(cur, v)
            else:
                cur = ite(c, v, cur) if is_and else ite(c, cur, v)
        return cur

    def e_Compare(self, n, st, fr):
        left = self.eval(n.left, st, fr)
        out = TRUE
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st, fr)
            o = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!=",
                 "Is": "is", "IsNot": "isnot", "In": "in", "NotIn": "notin"}[type(op).__name__]
            out = and_(out, self.compare(o, left, right, n, st, fr))
            left = right
        return out

    def compare(self, o, a, b, n, st, fr):
        if o in ("in", "notin"):
            if b.op == "call" and b.args[0] == ".keys" and len(b.args[1]) == 1:
                b = b.args[1][0]
            if b.op == "obj":
                c = st.heap.get((b, "[]"))
                if c is not None and c.op == "seq" and all(is_const(x) for x in c.args):
                    b = c
                elif c is not None:
                    b = mk("contents", b, c)
            else:
                c = st.heap.get((b, "[]"))
                if c is not None:
                    b = mk("contents", b, c)
            if b.op in ("concat", "binBitOr") and all(x.op in ("obj", "tuple", "seq", "concat", "binBitOr") for x in b.args):
                t = or_(*[self.compare("in", a, x, n, st, fr) for x in b.args])
            else:
                t = self._in(a, b)
            return t if o == "in" else not_(t)
        if o in ("is", "isnot") and (b is NONE):
            d = self.decide(cmp_("is", a, NONE), st)
            if d is not None:
                return const(d if o == "is" else not d)
        return cmp_(o, a, b)

    def _in(self, a, b, depth=0):
        if b.op == "contents":
            c = b.args[1]
            while depth < 30:
                depth += 1
                if c.op == "store":
                    if c.args[1] is a:
                        return TRUE
                    if _distinct(c.args[1], a):
                        c = c.args[0]
                        continue
                if c.op == "emptymap":
                    return FALSE
                if c.op == "ite":
                    return ite(c.args[0], self._in(a, mk("contents", b.args[0], c.args[1]), depth),
                               self._in(a, mk("contents", b.args[0], c.args[2]), depth))
                if c.op == "init":
                    return cmp_("in", a, c.args[0])
                break
            b = mk("contents", b.args[0], c)
        return cmp_("in", a, b)

    def e_IfExp(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        d = self.decide(c, st)
        if d is not None:
            return self.eval(n.body if d else n.orelse, st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(not_(c))
        v1 = self.eval(n.body, s1, fr)
        v2 = self.eval(n.orelse, s2, fr)
        m = self.merge(c, s1, s2, st.guards)
        st.heap, st.frames = m.heap, m.frames
        return ite(c, v1, v2)

    def e_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def e_Lambda(self, n, st, fr):
        fi = FuncInfo(fr.fi.module, n, None, fr.fi.qual + ".<lambda>")
        return self._closure(fi, st, fr)

    def e_Starred(self, n, st, fr):
        return mk("star", self.eval(n.value, st, fr))

    def e_Yield(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        out = st.frames[fr.fid].get("__yield__")
        if out is not None:
            c = st.heap.get((out, "[]"), mk("seq"))
            st.heap[(out, "[]")] = _append(c, v)
        self.emit("yield", n, st, fr, value=v)
        return NONE

    def e_Await(self, n, st, fr):
        return self.eval(n.value, st, fr)

    # ------------------------------------------------------ comprehensions
    def _compr(self, n, st, fr, kind, leaf):
        t = self._alloc(st, kind, n, fr)
        st.heap[(t, "[]")] = mk("emptymap") if kind == "dict" else mk("seq")
        nm = "__c%d_%d" % (n.lineno, n.col_offset)
        st.frames[fr.fid][nm] = t
        ld = ast.Name(nm, ast.Load())
        if kind == "dict":
            body = [ast.Assign([ast.Subscript(ld, n.key, ast.Store())], n.value)]
        else:
            meth = "append" if kind == "list" else "add"
            body = [ast.Expr(ast.Call(ast.Attribute(ld, meth, ast.Load()), [n.elt], []))]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            f = ast.For(g.target, g.iter, body, [])
            body = [f]
            ast.copy_location(f, g.iter)
        for x in ast.walk(body[0]):
            if not hasattr(x, "lineno") and hasattr(x, "_attributes") and "lineno" in x._attributes:
                ast.copy_location(x, n)
        saved = dict(st.frames[fr.fid])
        out = self.block(body, st, fr)
        # copy results into st
        st.frames, st.heap = out.frames, out.heap
        st.dead = out.dead
        # comprehension variables do not leak
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        if fr.fid in st.frames:
            for x in names:
                if x in saved:
                    st.frames[fr.fid][x] = saved[x]
                else:
                    st.frames[fr.fid].pop(x, None)
        return t

    def e_ListComp(self, n, st, fr):
        return self._compr(n, st, fr, "list", None)

    def e_GeneratorExp(self, n, st, fr):
        return self._compr(n, st, fr, "list", None)

    def e_SetComp(self, n, st, fr):
        return self._compr(n, st, fr, "set", None)

    def e_DictComp(self, n, st, fr):
        return self._compr(n, st, fr, "dict", None)

    # --------------------------------------------------------------- calls
    def e_Call(self, n, st, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            cls = fr.fi.cls
            f = fr
            while cls is None and f.parent is not None:
                f = f.parent
                cls = f.fi.cls
            return mk("super", cls, f.selft if f.selft is not None else sym("self"))
        f = self.eval(n.func, st, fr) if not isinstance(n.func, ast.Attribute) else None
        meth = None
        if f is None:
            b = self.eval(n.func.value, st, fr)
            b = self.simp(b, st)
            meth = (b, n.func.attr)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                it = self.known_items(v, st)
                if it is not None:
                    args += it
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.eval(a, st, fr))
        for k in n.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                ks = None
                if v.op == "obj":
                    c = st.heap.get((v, "[]"))
                    ks = _mapjoin(c) if c is not None else None
                if ks is not None and all(is_const(kk) for kk, _ in ks):
                    for kk, vv in ks:
                        kwargs[cval(kk)] = vv
                else:
                    c = st.heap.get((v, "[]"))
                    # known overlays on top of an unknown mapping
                    while c is not None and c.op == "store" and is_const(c.args[1]):
                        kwargs.setdefault(cval(c.args[1]), c.args[2])
                        c = c.args[0]
                    if c is not None:
                        for kk, vv in _mapsure(c).items():
                            kwargs.setdefault(cval(kk), vv)
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        if st.dead:
            return UNDEF
        if meth is not None:
            return self.call_method(meth[0], meth[1], args, kwargs, n, st, fr)
        return self.call(f, args, kwargs, n, st, fr)

    def split(self, t, st, fn):
        """evaluate fn(leaf, state) on both sides of an ite value and merge"""
        c = t.args[0]
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(not_(c))
        v1 = fn(t.args[1], s1) if not s1.dead else UNDEF
        v2 = fn(t.args[2], s2) if not s2.dead else UNDEF
        if s1.dead and s2.dead:
            st.dead = True
            return UNDEF
        m = self.merge(c, s1, s2, st.guards)
        st.heap, st.frames, st.guards, st.facts = m.heap, m.frames, m.guards, m.facts
        if s1.dead:
            return v2
        if s2.dead:
            return v1
        return ite(c, v1, v2)

    def call_method(self, b, name, args, kwargs, n, st, fr):
        if b.op == "ite" and self._splittable(b):
            return self.split(b, st, lambda x, s: self.call_method(x, name, args, kwargs, n, s, fr))
        if b.op in ("mod", "ext", "super", "cls"):
            f = self.getattr(b, name, n, st, fr)
            if b.op == "super" and f.op == "attr":
                return self.opaque_call("super." + name, [b.args[1]] + args, kwargs, n, st, fr)
            return self.call(f, args, kwargs, n, st, fr)
        ci = self.typeof(b)
        if ci is not None:
            f = self.getattr(b, name, n, st, fr)
            if f.op != "attr":
                return self.call(f, args, kwargs, n, st, fr)
        if b.op == "obj":
            r = self.container_method(b, name, args, kwargs, n, st, fr)
            if r is not None:
                return r
        v = st.heap.get((b, name))
        if v is not None:
            return self.call(v, args, kwargs, n, st, fr)
        return self.ext_method(b, name, args, kwargs, n, st, fr)

    def _splittable(self, b):
        return sum(1 for _ in self.leaves(b)) <= 6

    def call(self, f, args, kwargs, n, st, fr):
        f = self.simp(f, st)
        if f.op == "ite":
            return self.split(f, st, lambda x, s: self.call(x, args, kwargs, n, s, fr))
        if f.op == "undef":
            return UNDEF
        if f.op == "fun":
            return self.inline(f.args[0], args, kwargs, n, st, fr)
        if f.op == "bound":
            return self.inline(f.args[0], [f.args[1]] + args, kwargs, n, st, fr, selft=f.args[1])
        if f.op == "obj" and self.objs[f]["kind"] == "closure":
            o = self.objs[f]
            return self.inline(o["fi"], args, kwargs, n, st, fr, parent=o["parent"])
        if f.op == "obj" and self.objs[f]["kind"] == "inst":
            m = self.objs[f]["cls"].find("__call__")
            if m is not None:
                return self.inline(m, [f] + args, kwargs, n, st, fr, selft=f)
        if f.op == "cls":
            return self.construct(f.args[0], args, kwargs, n, st, fr)
        if f.op == "partial":
            a0 = list(f.args[1])
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call(f.args[0], a0 + args, kw, n, st, fr)
        if f.op == "ext":
            return self.ext_call(f.args[0], args, kwargs, n, st, fr)
        if f.op == "attr":
            return self.ext_method(f.args[0], f.args[1], args, kwargs, n, st, fr)
        e = self.opaque_call(f, args, kwargs, n, st, fr)
        return e

    def construct(self, ci, args, kwargs, n, st, fr):
        init = ci.find("__init__")
        eb = [b for b in ci.ext_bases() if b not in ("object", None)]
        if init is None and eb:
            self.emit("call", n, st, fr, fn="cls:" + ci.name, args=args, kwargs=kwargs, cls=ci)
            return mk("call", "cls:" + ci.name, tuple(args), tuple(sorted(kwargs.items())), self._key(n, fr))
        self.emit("construct", n, st, fr, cls=ci, args=args, kwargs=kwargs)
        if init is not None and (self.opaque(init) or len(self.stack) >= self.max_depth
                                 or any(x[0] is init for x in self.stack)):
            t = self._alloc(st, "inst", n, fr, cls=ci)
            t0 = mk("call", "cls:" + ci.name, tuple(args), tuple(sorted(kwargs.items())), self._key(n, fr))
            self.emit("call", n, st, fr, fn="cls:" + ci.name, args=args, kwargs=kwargs, cls=ci, result=t0)
            self.types[t0] = ci
            return t0
        t = self._alloc(st, "inst", n, fr, cls=ci)
        if init is not None:
            self.inline(init, [t] + args, kwargs, n, st, fr, selft=t)
        return t

    def inline(self, fi, args, kwargs, n, st, fr, selft=None, parent=None):
        if selft is None and fi.cls is not None and args and fi.name not in fi.cls.static:
            selft = args[0]
        rec = sum(1 for x in self.stack if x[0].node is fi.node)
        if self.opaque(fi) or len(self.stack) >= self.max_depth or rec >= 1:
            args, kwargs = positional(fi, args, kwargs)
            return self.opaque_call(mk("fun", fi), args, kwargs, n, st, fr)
        bound = self.bind(fi, args, kwargs, n, st, fr)
        if bound is None:
            self.emit("badcall", n, st, fr, fn=fi, args=args, kwargs=kwargs)
            return mk("call", "badcall:" + fi.id, tuple(args), (), self._key(n, fr))
        self.emit("enter", n, st, fr, fn=fi, bound=bound, args=args, kwargs=kwargs)
        v, s2 = self._enter(fi, bound, st, n, fr, selft=selft, parent=parent)
        st.frames, st.heap, st.guards, st.facts, st.dead = s2.frames, s2.heap, s2.guards, s2.facts, s2.dead
        self.emit("exit", n, st, fr, fn=fi, value=v)
        return v

    def bind(self, fi, args, kwargs, n, st, fr):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out, rest = {}, []
        kwargs = dict(kwargs)
        star = kwargs.pop("**", None)
        unknown_star = None
        i = 0
        for v in args:
            if v.op == "star":
                unknown_star = v.args[0]
                # remaining positionals come from it
                j = 0
                while i < len(names):
                    out[names[i]] = mk("idx", unknown_star, const(j))
                    i += 1
                    j += 1
                if a.vararg:
                    rest.append(v)
                continue
            if i < len(names):
                out[names[i]] = v
                i += 1
            elif a.vararg:
                rest.append(v)
            else:
                return None
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in out and unknown_star is None:
                    return None
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return None
        if a.vararg:
            out[a.vararg.arg] = mk("tuple", *rest) if not (len(rest) == 1 and rest[0].op == "star") else rest[0].args[0]
        if a.kwarg:
            if star is not None:
                t = star
                if extra:
                    t = self._alloc(st, "dict", fi.node, fr)
                    c = self._contents(star, st)
                    for k, v in extra.items():
                        c = self._store(c, const(k), v)
                    st.heap[(t, "[]")] = c
            else:
                t = self._alloc(st, "dict", fi.node, fr)
                c = mk("emptymap")
                for k, v in extra.items():
                    c = self._store(c, const(k), v)
                st.heap[(t, "[]")] = c
            out[a.kwarg.arg] = t
        # defaults
        df = a.defaults
        pos = a.posonlyargs + a.args
        mfr = Frame(FuncInfo(fi.module, fi.node, fi.cls), -1, fr.ctx)
        for x, d in zip(pos[len(pos) - len(df):], df):
            if x.arg not in out:
                dv = self._default_val(d, fi, st, fr)
                out[x.arg] = dv if star is None or a.kwarg else mk("kwor", star, const(x.arg), dv)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self._default_val(d, fi, st, fr)
        for nm in names + kwonly:
            if nm not in out:
                if star is not None:
                    out[nm] = self.getitem(star, const(nm), st)
                else:
                    return None
        return out

    def _default_val(self, d, fi, st, fr):
        lit = self._const_literal(d)
        if lit is not None and not isinstance(d, ast.List):
            return lit
        r = self.prog.resolve_expr(fi.module, d)
        if r is not None:
            w = self._wrap_res(r, fr)
            return w
        return mk("default", fi, ast.unparse(d))

    # --------------------------------------------------- opaque operations
    def _versioned(self, t, st):
        if not isinstance(t, T.Term):
            return t
        v = st.heap.get((t, "#v"))
        if v is not None and v is not NONE:
            return mk("at", t, v)
        if t.op == "obj":
            c = st.heap.get((t, "[]"))
            if c is not None and self.objs[t]["kind"] in ("list", "set", "dict"):
                return mk("contents", t, c)
        return t

    def bump(self, t, st, node, fr):
        for leaf, conds in self.leaves(t):
            if leaf.op in ("const", "undef"):
                continue
            k = (leaf, "#v")
            st.heap[k] = mk("mut", st.heap.get(k, NONE), self._key(node, fr))

    def opaque_call(self, f, args, kwargs, n, st, fr, pure=False):
        name = f if isinstance(f, str) else None
        va = tuple(self._versioned(a, st) for a in args)
        kw = tuple(sorted((k, self._versioned(v, st)) for k, v in kwargs.items()))
        uid = None if pure or (name in SCALAR) else self._key(n, fr)
        r = mk("call", f, va, kw, uid)
        self.emit("call", n, st, fr, fn=f, args=args, kwargs=kwargs, result=r)
        if "out" in kwargs:
            self.emit("mutate", n, st, fr, target=kwargs["out"], how="out=")
            self.bump(kwargs["out"], st, n, fr)
        if name in EXT_MUT:
            for i in EXT_MUT[name]:
                if i < len(args):
                    self.emit("mutate", n, st, fr, target=args[i], how=name)
                    self.bump(args[i], st, n, fr)
        return r

    def ext_method(self, b, name, args, kwargs, n, st, fr):
        if name in MUTATORS or kwargs.get("inplace") is TRUE:
            self.emit("mutate", n, st, fr, target=b, how="." + name, args=args)
            r = self.opaque_call("." + name, [b] + args, kwargs, n, st, fr)
            if name in ("append", "add", "push_back"):
                c = st.heap.get((b, "[]"), mk("init", b))
                if args:
                    st.heap[(b, "[]")] = _append(c, args[0])
            elif name == "update" and args:
                c = st.heap.get((b, "[]"), mk("init", b))
                st.heap[(b, "[]")] = self._mergemap(c, self._contents(args[0], st))
                return NONE
            elif name == "update":
                for k, v in kwargs.items():
                    if k != "**":
                        self.setitem(b, const(k), v, n, st, fr)
                return NONE
            else:
                self.bump(b, st, n, fr)
                c = st.heap.get((b, "[]"))
                if c is not None:
                    st.heap[(b, "[]")] = mk("mutated", c, const(name), tuple(args))
                if name == "pop" and args:
                    c0 = c if c is not None else mk("init", b)
                    return self.select(c0, args[0], b) if len(args) == 1 else mk("getor", c0, args[0], args[1])
            return r
        if name in METH_ARG_MUT:
            for i in METH_ARG_MUT[name]:
                if i < len(args):
                    self.emit("mutate", n, st, fr, target=args[i], how="." + name)
                    a0 = args[i]
                    r = self.opaque_call("." + name, [b] + args, kwargs, n, st, fr)
                    if a0.op == "obj":
                        st.heap[(a0, "[]")] = mk("permuted", self._contents(a0, st), r)
                    else:
                        self.bump(a0, st, n, fr)
            return NONE
        if name == "get" and args and (b, "[]") in st.heap:
            c = st.heap[(b, "[]")]
            r = self.select(c, args[0], b)
            if r.op not in ("select", "idx"):
                return r
        if name == "copy" and not args and (b, "[]") in st.heap:
            t = self.opaque_call(".copy", [b], kwargs, n, st, fr)
            st.heap[(t, "[]")] = st.heap[(b, "[]")]
            return t
        if name == "format" and is_const(b):
            return mk("fstr", b, *args)
        pure = name in PURE_METH
        return self.opaque_call("." + name, [b] + args, kwargs, n, st, fr, pure=pure)

    def container_method(self, b, name, args, kwargs, n, st, fr):
        o = self.objs[b]
        k = o["kind"]
        if k not in ("list", "dict", "set"):
            return None
        c = st.heap.get((b, "[]"), mk("init", b))

        def put(new):
            self.emit("mutate", n, st, fr, target=b, how="." + name, args=args)
            st.heap[(b, "[]")] = new
        if k in ("list", "set") and name in ("append", "add", "push_back") and args:
            put(_append(c, args[0]))
            return NONE
        if k == "list" and name == "extend" and args:
            oc = self._contents(args[0], st)
            if c.op == "seq" and oc.op == "seq":
                put(mk("seq", *(c.args + oc.args)))
            else:
                put(mk("extend", c, oc))
            return NONE
        if k == "list" and name == "insert" and len(args) == 2:
            if args[0] is const(0) and c.op == "seq":
                put(mk("seq", *((args[1],) + c.args)))
            else:
                put(mk("insert", c, args[0], args[1]))
            return NONE
        if k == "dict" and name == "update":
            new = c
            if args:
                oc = self._contents(args[0], st)
                new = self._mergemap(new, oc)
            for kk, vv in kwargs.items():
                if kk != "**":
                    new = self._store(new, const(kk), vv)
            put(new)
            return NONE
        if k == "dict" and name == "pop" and args:
            if len(args) > 1 and self._in(args[0], mk("contents", b, c)) is FALSE:
                return args[1]
            v = self.select(c, args[0], b)
            put(_delkey(c, args[0]))
            if len(args) > 1 and v.op in ("select", "idx"):
                return mk("getor", c, args[0], args[1])
            return v
        if k == "dict" and name == "get" and args:
            cond = self._in(args[0], mk("contents", b, c))
            dv = args[1] if len(args) > 1 else NONE
            if cond is TRUE:
                return self.select(c, args[0], b)
            if cond is FALSE:
                return dv
            return mk("getor", c, args[0], dv)
        if k == "dict" and name == "setdefault" and args:
            self.emit("mutate", n, st, fr, target=b, how=".setdefault", args=args)
            v = ite(self._in(args[0], mk("contents", b, c)), self.select(c, args[0], b),
                    args[1] if len(args) > 1 else NONE)
            st.heap[(b, "[]")] = self._store(c, args[0], v)
            return v
        if k == "dict" and name in ("keys", "values", "items"):
            return mk("call", "." + name, (b,), (), None)
        if name == "copy" and not args:
            t = self._alloc(st, k, n, fr)
            st.heap[(t, "[]")] = c
            return t
        if name == "clear":
            put(mk("emptymap") if k == "dict" else mk("seq"))
            return NONE
        if name in MUTATORS:
            r = mk("call", "." + name, (mk("contents", b, c),) + tuple(args),
                   tuple(sorted(kwargs.items())), self._key(n, fr))
            put(mk("mutated", c, const(name), tuple(args)))
            return r
        if k == "set" and name in ("union", "intersection", "difference"):
            t = self._alloc(st, "set", n, fr)
            st.heap[(t, "[]")] = mk("set" + name, c, tuple(self._contents(a, st) for a in args))
            return t
        return None

    # ---------------------------------------------------------- externals
    def ext_call(self, name, args, kwargs, n, st, fr):
        h = self.hook_call(name, args, kwargs, n, st, fr)
        if h is not None:
            return h
        base = name.split(".")[-1]
        if name == "__cy_unknown__":
            return mk("sym", "?cy")
        if name.startswith("__cpp_"):
            t = self._alloc(st, "list" if name == "__cpp_vector" else
                            ("dict" if "map" in name else "set"), n, fr)
            st.heap[(t, "[]")] = mk("emptymap") if "map" in name else mk("seq")
            return t
        if name == "isinstance" and len(args) == 2:
            return self._isinstance(args[0], args[1], st)
        if name == "hasattr" and len(args) == 2 and is_const(args[1]):
            return self._hasattr(args[0], cval(args[1]), st)
        if name == "getattr" and len(args) >= 2 and is_const(args[1]):
            return self.getattr(args[0], cval(args[1]), n, st, fr)
        if name == "getattr" and len(args) >= 2:
            return mk("dynattr", args[0], args[1])
        if name == "setattr" and len(args) == 3:
            if is_const(args[1]):
                self.setattr(args[0], cval(args[1]), args[2], n, st, fr)
            else:
                self.emit("setattr", n, st, fr, base=args[0], name=args[1], value=args[2], aug=False, old=None)
            return NONE
        if name == "type" and len(args) == 1:
            ci = self.typeof(args[0])
            if ci is not None:
                return mk("cls", ci)
        if name in ("list", "tuple", "set", "sorted", "frozenset", "reversed") and len(args) <= 1 + (name == "sorted"):
            return self._mkcontainer(name, args, kwargs, n, st, fr)
        if name == "dict":
            t = self._alloc(st, "dict", n, fr)
            c = self._contents(args[0], st) if args else mk("emptymap")
            if args and args[0].op == "call" and args[0].args[0] == "zip":
                c = mk("init", args[0])
                its = self.known_items(args[0], st)
                if its is not None:
                    c = mk("emptymap")
                    for x in its:
                        c = self._store(c, x.args[0], x.args[1])
            for k, v in kwargs.items():
                if k == "**":
                    c = self._mergemap(c, self._contents(v, st))
                else:
                    c = self._store(c, const(k), v)
            st.heap[(t, "[]")] = c
            return t
        if name in ("map", "filter") and len(args) == 2 and name == "map":
            return self._map(args[0], args[1], n, st, fr)
        if name == "functools.partial" and args:
            return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
        if name in ("copy.copy", "copy.deepcopy") and args:
            a = args[0]
            if a.op == "obj" and self.objs[a]["kind"] in ("list", "dict", "set"):
                t = self._alloc(st, self.objs[a]["kind"], n, fr)
                c = st.heap.get((a, "[]"), mk("init", a))
                st.heap[(t, "[]")] = c if name == "copy.copy" else mk("deep", c)
                return t
            r = self.opaque_call(name, args, kwargs, n, st, fr)
            ci = self.typeof(a)
            if ci is not None:
                self.types[r] = ci
            return r
        if name == "len" and len(args) == 1:
            a = args[0]
            if a.op == "tuple" and not any(x.op == "star" for x in a.args):
                return const(len(a.args))
            if a.op == "obj":
                c = st.heap.get((a, "[]"))
                if c is not None and c.op == "seq" and self.objs[a]["kind"] == "list":
                    return const(len(c.args))
            return self.length(a, st)
        if name in ("range", "enumerate", "zip"):
            r = mk("call", name, tuple(args), tuple(sorted(kwargs.items())), None)
            return r
        if name == "print":
            self.emit("call", n, st, fr, fn="print", args=args, kwargs=kwargs)
            return NONE
        if name in ("numpy.zeros", "numpy.zeros_like"):
            r = self.opaque_call(name, args, kwargs, n, st, fr)
            st.heap[(r, "[]")] = mk("zeros")
            for k in [k for k in st.heap if k[0] is r and k[1] != "[]"]:
                del st.heap[k]
            return r
        if name in ("int", "float", "str", "abs", "bool") and len(args) == 1 and is_const(args[0]):
            try:
                return const({"int": int, "float": float, "str": str, "abs": abs, "bool": bool}[name](cval(args[0])))
            except (ValueError, TypeError):
                pass
        if name in ("any", "all") and len(args) == 1:
            items = self.known_items(args[0], st)
            if items is not None:
                ts = [self.truth(x, st) for x in items]
                return or_(*ts) if name == "any" else and_(*ts)
            r = mk("call", name, (self._versioned(args[0], st),), (), None)
            return r
        if name == "next" and args:
            return mk("elem", self._versioned(args[0], st), self._key(n, fr))
        r = self.opaque_call(name, args, kwargs, n, st, fr)
        for k in [k for k in st.heap if k[0] is r and k[1] != "#v"]:
            del st.heap[k]
        return r

    def hook_call(self, name, args, kwargs, n, st, fr):
        return None

    def _map(self, f, it, n, st, fr):
        t = self._alloc(st, "list", n, fr)
        st.heap[(t, "[]")] = mk("seq")
        items = self.known_items(it, st)
        if items is not None and len(items) <= self.unroll:
            out = [self.call(f, [x], {}, n, st, fr) for x in items]
            st.heap[(t, "[]")] = mk("seq", *out)
            return t
        key = self._key(n, fr)
        self.loopstack.append(key)
        self.loopinfo[key] = {"node": n, "iter": it, "cond": None, "fr": fr, "breaks": 0}
        x = self.elem(it, key, st)
        v = self.call(f, [x], {}, n, st, fr)
        self.loopstack.pop()
        p = mk("phi", key, ("h", t, "[]"))
        self.phis[p] = PhiInfo(mk("seq"), mk("append", p, v), key, ("h", t, "[]"), it)
        st.heap[(t, "[]")] = p
        return t

    def _mkcontainer(self, name, args, kwargs, n, st, fr):
        kind = {"list": "list", "tuple": "list", "sorted": "list", "set": "set",
                "frozenset": "set", "reversed": "list"}[name]
        if not args:
            t = self._alloc(st, kind, n, fr)
            st.heap[(t, "[]")] = mk("seq")
            return mk("tuple") if name == "tuple" else t
        a = args[0]
        items = self.known_items(a, st)
        if name == "tuple" and items is not None:
            return mk("tuple", *items)
        t = self._alloc(st, kind, n, fr)
        if items is not None and name in ("list", "set"):
            st.heap[(t, "[]")] = mk("seq", *items)
        elif items is not None and name == "reversed":
            st.heap[(t, "[]")] = mk("seq", *reversed(items))
        elif items is not None and name == "sorted" and not kwargs and items and all(is_const(x) and type(cval(x)) in (int, float) for x in items):
            st.heap[(t, "[]")] = mk("seq", *sorted(items, key=cval))
        else:
            op = {"list": "listof", "tuple": "listof", "set": "setof", "frozenset": "setof",
                  "sorted": "sortedof", "reversed": "reversedof"}[name]
            st.heap[(t, "[]")] = mk(op, self._versioned(a, st)) if op != "sortedof" else \
                mk(op, self._versioned(a, st), tuple(sorted(kwargs.items())))
            self.made[t] = st.heap[(t, "[]")]
        return t

    def _isinstance(self, x, cl, st):
        if cl.op == "obj":
            cl = st.heap.get((cl, "[]"), cl)
        if cl.op in ("tuple", "seq"):
            return or_(*[self._isinstance(x, c, st) for c in cl.args])
        nm = cl.args[0].name if cl.op == "cls" else (cl.args[0].split(".")[-1] if cl.op == "ext" else str(cl))
        if x.op == "ite":
            return ite(x.args[0], self._isinstance(x.args[1], cl, st), self._isinstance(x.args[2], cl, st))
        t = mk("isinst", x, nm)
        d = self.decide(t, st)
        return t if d is None else const(d)

    def _hasattr(self, x, name, st):
        v = st.heap.get((x, name))
        base = mk("hasattr", x, name)
        if v is None:
            ci = self.typeof(x)
            if ci is not None and (ci.find(name) or ci.find_prop(name) or ci.find_class_attr(name)):
                return TRUE
            if x.op == "obj" and self.objs[x]["kind"] == "inst":
                return FALSE
            return base

        def f(t):
            if t.op == "ite":
                return ite(t.args[0], f(t.args[1]), f(t.args[2]))
            if t is UNDEF:
                return FALSE
            if t.op == "attr" and t.args[0] is x and t.args[1] == name:
                return base
            if t.op == "phi":
                return or_(base, mk("set", t))
            return TRUE
        return f(v)

    # ------------------------------------------------------------ queries
    def phi_in(self, p):
        i = self.phis.get(p)
        if i is None:
            return ()
        return [x for x in (i.init, i.back) if x is not None]

    def phi_full(self, p):
        """incoming values plus what decides how often the loop runs"""
        i = self.phis.get(p)
        if i is None:
            return ()
        li = self.loopinfo.get(i.loop, {})
        xs = [x for x in (i.init, i.back) if x is not None]
        if i.iter is not None:
            xs.append(i.iter)
        if li.get("cond") is not None:
            xs.append(li["cond"])
        return xs

    def deps(self, t):
        return T.subterms(t, self.phi_full)


class Result:
    def __init__(self, it, value, st, bound):
        self.it, self.value, self.st, self.bound = it, value, st, bound
        self.events = it.events


# ------------------------------------------------------------------ helpers
def _own_nodes(fn):
    """nodes of a function excluding nested function bodies"""
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))


def _common(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] is b[n]:
        n += 1
    return n


def _boolean(t):
    if t.op == "ite":
        return _boolean(t.args[1]) and _boolean(t.args[2])
    return t.op in ("lt", "le", "eq", "is", "in", "not", "and", "or", "isinst", "hasattr", "nonempty") or \
        (t.op == "const" and t.args[0] == "bool") or \
        (t.op == "call" and t.args[0] in ("isinstance", "hasattr", "any", "all", "callable",
                                          "scipy.sparse.isspmatrix_csr", "scipy.sparse.isspmatrix_csc",
                                          "scipy.sparse.issparse", ".startswith", ".endswith", "os.path.exists"))


def _append(c, v):
    if c.op == "seq":
        return mk("seq", *(c.args + (v,)))
    return mk("append", c, v)


def _distinct(a, b):
    if is_const(a) and is_const(b):
        return not (a is b or cval(a) == cval(b))
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return any(_distinct(x, y) for x, y in zip(a.args, b.args))
    # x and x + c (c constant, non-zero)
    d = T.sub(a, b) if _numericish(a) and _numericish(b) else None
    return d is not None and is_const(d) and cval(d) != 0


def _numericish(t):
    return t.op in ("poly", "phi", "elem", "sym", "idx", "attr") or T.is_num(t)


def _mapjoin(c, over=frozenset(), depth=0):
    """as _mapkeys, of a mapping with the same keys (other than over) whichever way a condition went"""
    out = []
    x = c
    n = 0
    while x.op == "store" and n < 200:
        if not is_const(x.args[1]):
            return None
        out.append((x.args[1], x.args[2]))
        x = x.args[0]
        n += 1
    if x.op == "emptymap":
        res = {}
    elif x.op != "ite" or depth > 24:
        return None
    else:
        o2 = over | {k for k, _ in out}
        p, q = _mapjoin(x.args[1], o2, depth + 1), _mapjoin(x.args[2], o2, depth + 1)
        if p is None or q is None:
            return None
        dp, dq = dict(p), dict(q)
        if set(dp) - o2 != set(dq) - o2:
            return None
        res = {k: (dp[k] if dp[k] is dq[k] else mk("ite", x.args[0], dp[k], dq[k])) for k, _ in p if k not in o2}
    for k, v in reversed(out):
        res[k] = v
    return list(res.items())


def _mapsure(c, depth=0):
    """the constant keys a mapping has whichever way its conditions went, with their values"""
    out = {}
    x = c
    n = 0
    while x.op == "store" and is_const(x.args[1]) and n < 200:
        out.setdefault(x.args[1], x.args[2])
        x = x.args[0]
        n += 1
    if x.op == "ite" and depth < 12:
        p, q = _mapsure(x.args[1], depth + 1), _mapsure(x.args[2], depth + 1)
        for k in p:
            if k in q and k not in out:
                out[k] = p[k] if p[k] is q[k] else mk("ite", x.args[0], p[k], q[k])
    return out


def _mapkeys(c):
    """ordered (key, value) pairs of a fully known mapping, else None"""
    out = []
    n = 0
    while c.op == "store":
        out.append((c.args[1], c.args[2]))
        c = c.args[0]
        n += 1
        if n > 200:
            return None
    if c.op != "emptymap":
        return None
    out.reverse()
    seen, res = {}, []
    for k, v in out:
        if not is_const(k):
            return None
        seen[k] = v
        if k not in res:
            res.append(k)
    return [(k, seen[k]) for k in res]


def _delkey(c, k):
    ks = _mapkeys(c)
    if ks is None or not is_const(k):
        return mk("delkey", c, k)
    out = mk("emptymap")
    for a, v in ks:
        if a is not k:
            out = mk("store", out, a, v)
    return out


def _const_isa(v, name):
    """is a constant an instance of the type with this name"""
    py = {"int": int, "float": float, "str": str, "bool": bool, "complex": complex, "bytes": bytes, "NoneType": type(None),
          "Number": (int, float, complex), "Real": (int, float), "Integral": int,
          "Iterable": (str, bytes), "Sequence": (str, bytes), "Collection": (str, bytes), "Sized": (str, bytes), "Hashable": object, "object": object}
    if name in py:
        return isinstance(v, py[name])
    return False


def _isa(cl, name):
    return any(c.name == name for c in cl.mro()) or any(
        str(b).split(".")[-1] == name for b in cl.ext_bases())
