"""Shared model of the state-tracking metaclass and of classes using it."""
from __future__ import annotations
import ast

from ..model import AnalysisBroken, FuncInfo
from ..engine import Interp, Frame, State
from ..terms import mk, sym, const, NONE, TRUE, FALSE, is_const, cval
from .. import terms as T


class StInterp(Interp):
    """self.state and self._state denote the same record (obligation `state-view`)."""

    def getattr(self, b, name, node, st, fr):
        if name == "state" and b is self.selfsym:
            name = "_state"
        return super().getattr(b, name, node, st, fr)

    selfsym = None


def meta_class(prog):
    for m in prog.modules.values():
        for c in m.classes.values():
            if "register" in c.methods and any(str(b) == "type" or b == "type" for b in
                                               [ast.unparse(x) for x in c.node.bases]):
                return c
    raise AnalysisBroken("no metaclass with a `register` decorator factory found")


def run_wrapper(prog, kind):
    """Analyse register(...)(func) and call the resulting wrapper once.
    kind: 'method' | 'property'."""
    mc = meta_class(prog)
    reg = mc.methods["register"]
    it = StInterp(prog, max_depth=14)
    it.selfsym = sym("instance")
    st = State()
    fr = Frame(reg, -1, ())
    kw = {"next_state": sym("next_state"), "minimal_state": sym("minimal_state"),
          "ignore_none": sym("ignore_none")}
    names = [x.arg for x in reg.node.args.args + reg.node.args.kwonlyargs]
    for k in ("next_state", "minimal_state"):
        if k not in names:
            raise AnalysisBroken("register() has no parameter %r" % k)
    if "ignore_none" not in names:
        kw.pop("ignore_none")
    dec = it.inline(reg, [], kw, reg.node, st, fr)
    func = sym("step_function")
    isprop = mk("isinst", func, "property")
    st.assume(isprop if kind == "property" else T.not_(isprop))
    if kind == "property":
        st.assume(mk("attr", func, "fset"))
    w = it.call(dec, [func], {}, reg.node, st, fr)
    w = it.simp(w, st)
    del it.events[:]
    inst = it.selfsym
    if kind == "method":
        if w.op != "obj" or it.objs[w]["kind"] != "closure":
            return None
        args = [inst, mk("star", sym("*args"))]
        val = it.call(w, args, {"**": sym("**kwargs")}, reg.node, st, fr)
        return it, st, w, val, func
    # property(...) call with the wrapped setter
    if w.op == "call" and w.args[0] == "property":
        pos = list(w.args[1])
        kws = dict(w.args[2])
        setter = pos[1] if len(pos) > 1 else kws.get("fset")
    elif w.op == "call" and w.args[0] == ".setter":
        setter = w.args[1][1]
    else:
        return None
    if setter is None or setter.op != "obj":
        return None
    val = it.call(setter, [inst, sym("value")], {}, reg.node, st, fr)
    return it, st, w, val, func


STATE = lambda it: mk("attr", it.selfsym, "_state")


def cur_term(it):
    return mk("attr", STATE(it), "current")


# ------------------------------------------------------- registered members
def registered(prog, cls):
    """[(kind, name, FuncInfo, {next_state, minimal_state, ignore_none})]"""
    mc = meta_class(prog)
    reg = mc.methods["register"]
    out = []
    for st in cls.node.body:
        if not isinstance(st, ast.FunctionDef):
            continue
        dec = None
        for d in st.decorator_list:
            if isinstance(d, ast.Call):
                r = _callee(prog, cls.module, d.func)
                if r is reg:
                    dec = d
        if dec is None:
            continue
        kw = {k.arg: k.value for k in dec.keywords}
        kind = "property" if any(isinstance(d, ast.Attribute) and d.attr == "setter"
                                 for d in st.decorator_list) else "method"
        if kind == "property":
            fi = cls.props[st.name]["set"]
        else:
            fi = cls.methods[st.name]
        out.append((kind, st.name, fi, kw))
    return out


def _callee(prog, m, f, depth=0):
    if depth > 4:
        return None
    if isinstance(f, ast.Attribute):
        b = prog.resolve_expr(m, f.value)
        if hasattr(b, "methods") and f.attr in b.methods:
            return b.methods[f.attr]
        return None
    if isinstance(f, ast.Name):
        r = prog.resolve_name(m, f.id)
        if isinstance(r, FuncInfo):
            return r
        if isinstance(r, tuple) and r[0] == "glob":
            asg = r[1].globals_assign.get(r[2], [])
            if asg and isinstance(asg[-1], ast.Assign):
                return _callee(prog, r[1], asg[-1].value, depth + 1)
    return None


def enum_values(prog, cls):
    """name -> value of the int class attributes of the states enum"""
    out = {}
    for k, v in cls.class_attrs.items():
        if isinstance(v, ast.Constant) and isinstance(v.value, int):
            out[k] = v.value
    return out


def state_classes(prog):
    """classes created by the metaclass: (ClassInfo, enum ClassInfo)"""
    mc = meta_class(prog)
    out = []
    for m in prog.modules.values():
        for c in m.classes.values():
            kw = {k.arg: k.value for k in c.node.keywords}
            if "metaclass" in kw and prog.resolve_expr(m, kw["metaclass"]) is mc and "states" in kw:
                out.append((c, prog.resolve_expr(m, kw["states"])))
    return out


def state_of(prog, m, e, enumcls):
    """AST expr naming an enum member -> its int value"""
    if e is None or (isinstance(e, ast.Constant) and e.value is None):
        return None
    if isinstance(e, ast.Attribute):
        b = prog.resolve_expr(m, e.value)
        if b is enumcls:
            return enum_values(prog, enumcls).get(e.attr, "?")
    return "?"


# ------------------------------------------------------- the whole machinery on one class
class Full(Interp):
    """stages are their position (comparison by position is obligation `stage-order`); functions, properties and
    namespaces made by the code under analysis are followed as objects"""
    inst = sym("inst")

    def getattr(self, b, name, node, st, fr):
        if b.op == "const" and name == "value" and isinstance(cval(b), int):
            return b
        if name == "state" and b is self.inst:
            name = "_state"
        if b.op == "obj" and self.objs[b]["kind"] == "closure" and name == "__name__":
            return const(self.objs[b].get("name") or self.objs[b]["fi"].name)
        if name == "__dict__" and b.op == "obj":
            return self.attributes(b, node, st, fr)
        if b.op == "call" and str(b.args[0]) == "property" and name in ("fget", "fset", "fdel"):
            i = ("fget", "fset", "fdel").index(name)
            a, kw = b.args[1], dict(b.args[2])
            return a[i] if i < len(a) else kw.get(name, NONE)
        return super().getattr(b, name, node, st, fr)

    def decide(self, c, st):
        if c.op == "isinst":
            o = T.unver(c.args[0])
            if o.op == "obj" and self.objs[o]["kind"] == "closure":
                return c.args[1] in ("Callable", "FunctionType", "function")
            if o.op == "call" and str(o.args[0]) == "property":
                return c.args[1] == "property"
        if c.op == "call" and str(c.args[0]) == "property":
            return True
        return super().decide(c, st)

    def _hasattr(self, x, name, st):
        x = T.unver(x)
        if x.op == "obj" and self.objs[x]["kind"] == "closure" and (x, name) not in st.heap and not name.startswith("__"):
            return FALSE
        if T.is_const(x):
            return const(hasattr(cval(x), name) or (name in ("value", "name") and isinstance(cval(x), int)))
        return super()._hasattr(x, name, st)

    def attributes(self, b, n, st, fr):
        t = self._alloc(st, "dict", n, fr)
        c = mk("emptymap")
        for (o, a), v in list(st.heap.items()):
            if o is b and a != "[]":
                c = mk("store", c, const(a), v)
        st.heap[(t, "[]")] = c
        return t

    def mk_list(self, items, kind, n, st, fr):
        t = self._alloc(st, kind, n, fr)
        st.heap[(t, "[]")] = mk("seq", *(dict.fromkeys(items) if kind == "set" else items))
        return t

    def hook_call(self, name, args, kwargs, n, st, fr):
        if name == "types.SimpleNamespace" and not args:
            t = self._alloc(st, "ns", n, fr)
            for k, v in kwargs.items():
                if k != "**":
                    st.heap[(t, k)] = v
            return t
        if name == "vars" and len(args) == 1 and args[0].op == "obj":
            return self.attributes(args[0], n, st, fr)
        if name == "callable" and len(args) == 1:
            x = T.unver(args[0])
            if x.op == "obj" and self.objs[x]["kind"] == "closure":
                return TRUE
            if x.op == "call" and str(x.args[0]) == "property":
                return FALSE
        if name in ("min", "max", "sorted") and args:
            items = self.known_items(args[0], st) if len(args) == 1 else list(args)
            if items is not None:
                key = kwargs.get("key")
                ks = [self.call(key, [x], {}, n, st, fr) if key is not None else x for x in items]
                if all(T.is_const(k) and not isinstance(cval(k), str) and cval(k) is not None for k in ks):
                    o = sorted(range(len(ks)), key=lambda i: cval(ks[i]), reverse=kwargs.get("reverse") is TRUE)
                    if name == "sorted":
                        return self.mk_list([items[i] for i in o], "list", n, st, fr)
                    if items:
                        return items[o[0] if name == "min" else o[-1]]
        if name in ("set", "frozenset") and len(args) == 1:
            items = self.known_items(args[0], st)
            if items is not None and all(T.is_const(x) for x in items):
                return self.mk_list(items, "set", n, st, fr)
        return None

    def container_method(self, b, name, args, kwargs, n, st, fr):
        if name in ("union", "intersection", "difference") and self.objs[b]["kind"] == "set":
            a, bs = self.known_items(b, st), [self.known_items(x, st) for x in args]
            if a is not None and all(x is not None and all(T.is_const(y) for y in x) for x in bs + [a]):
                o = list(a)
                for x in bs:
                    o = o + x if name == "union" else [y for y in o if (y in x) == (name == "intersection")]
                return self.mk_list(o, "set", n, st, fr)
        return super().container_method(b, name, args, kwargs, n, st, fr)

    def binop(self, op, a, b, st):
        if op in ("BitOr", "BitAnd", "Sub") and all(x.op == "obj" and self.objs[x]["kind"] == "set" for x in (a, b)):
            x, y = self.known_items(a, st), self.known_items(b, st)
            if x is not None and y is not None and all(T.is_const(z) for z in x + y):
                o = x + y if op == "BitOr" else [z for z in x if (z in y) == (op == "BitAnd")]
                return mk("seq", *dict.fromkeys(o))
        return super().binop(op, a, b, st)


class Machine:
    """the tracking of one class: the metaclass methods interpreted over the members that the class registers (their
    bodies replaced by recognisable calls), stages as positions.  ``apply`` gives the effect of one operation in one
    situation (stage, which settings are given), or None where it cannot be followed."""

    def __init__(self, prog, cls, enum):
        from .iolib import driver
        self.prog, self.cls = prog, cls
        mc = meta_class(prog)
        self.mc = mc
        self.stages = sorted(enum_values(prog, enum).values())
        regs = {(kind, name): (fi, kw) for kind, name, fi, kw in registered(prog, cls)}
        self.props, self.steps, self.ignore = {}, {}, {}
        lines, items = [], []
        order = []
        for st in cls.node.body:
            if isinstance(st, ast.FunctionDef) and (not order or st.name not in order):
                order.append(st.name)
        default_ignore = {a.arg: d for a, d in zip(mc.methods["register"].node.args.kwonlyargs, mc.methods["register"].node.args.kw_defaults)}.get("ignore_none")
        for name in order:
            if ("property", name) in regs:
                fi, kw = regs["property", name]
                nx = state_of(prog, cls.module, kw.get("next_state"), enum)
                mn = state_of(prog, cls.module, kw.get("minimal_state"), enum)
                ig = kw.get("ignore_none", default_ignore)
                if "?" in (nx, mn) or not isinstance(ig, ast.Constant):
                    raise AnalysisBroken("registration of %s not literal" % name)
                self.props[name], self.ignore[name] = nx, bool(ig.value)
                lines.append("    def %s(self, value):\n        note_set_%s(self, value)\n" % (name, name))
                items.append("'%s': StateMeta.register(next_state=%r, minimal_state=%r, ignore_none=%r)(property(get_%s, %s))" % (name, nx, mn, self.ignore[name], name, name))
            elif ("method", name) in regs:
                fi, kw = regs["method", name]
                nx = state_of(prog, cls.module, kw.get("next_state"), enum)
                mn = state_of(prog, cls.module, kw.get("minimal_state"), enum)
                if "?" in (nx, mn):
                    raise AnalysisBroken("registration of %s not literal" % name)
                self.steps[name] = (mn, nx)
                lines.append("    def %s(self, *args, **kwargs):\n        return note_run_%s(self, *args, **kwargs)\n" % (name, name))
                items.append("'%s': StateMeta.register(minimal_state=%r, next_state=%r)(%s)" % (name, mn, nx, name))
            elif name in cls.props:
                items.append("'%s': property(get_%s)" % (name, name))
            elif name == "__init__":
                lines.append("    def user_init(self, *args, **kwargs):\n        note_init(self, *args, **kwargs)\n")
                items.append("'__init__': user_init")
            else:
                lines.append("    def %s(self, *args, **kwargs):\n        return other_%s(self)\n" % (name, name))
                items.append("'%s': %s" % (name, name))
        src = "def driver(cls, inst, other):\n" + "".join(lines) + "    ns = {" + ", ".join(items) + "}\n" + \
            "    StateMeta.init_state(namespace=ns, states=%r)\n    StateMeta.attach_state(cls, namespace=ns)\n    cls.__init__(inst)\n    cls.__init__(other)\n" % self.stages
        src += "    return (ns, inst._state, other._state)\n"
        src = src.replace("StateMeta", mc.name)
        f = driver(prog, mc.module.name, src)
        # positions must tell the calls apart
        node = ast.parse(src).body[0]
        f.node = node
        self.it = Full(prog, opaque=lambda z: False)
        self.it.types[sym("cls")] = mc
        self.f = f
        self.r = self.it.run(f)
        v = T.unver(self.r.value)
        if v.op != "tuple":
            raise AnalysisBroken("tracking not followed: %s" % v)
        self.ns, self.S, self.S2 = T.unver(v.args[0]), T.unver(v.args[1]), T.unver(v.args[2])
        self.st = self.r.st
        self.st.dead = False
        self.fr = Frame(f, -1, ())

    def member(self, name):
        return T.unver(self.it.select(self.it._contents(self.ns, self.st), const(name), self.ns))

    def attr(self, name, st=None):
        st = st or self.st
        return T.unver(self.it.getattr(self.S, name, self.f.node, st, self.fr))

    def table(self, t, st=None):
        """a mapping as a Python dict; lists as lists, constants as values; None where unknown"""
        st = st or self.st
        c = self.it._contents(t, st)
        from ..engine import _mapkeys
        ks = _mapkeys(T.unver(c))
        if ks is None:
            return None
        return {cval(k): self.value(v, st) for k, v in ks}

    def value(self, v, st=None):
        st = st or self.st
        v = T.unver(v)
        if is_const(v):
            return cval(v)
        items = self.it.known_items(v, st)
        if items is not None:
            out = [self.value(x, st) for x in items]
            return out
        return "?"

    def situation(self, stage, flags):
        st = self.st.copy()
        st.heap[(self.S, "current")] = const(stage)
        ps = self.attr("properties_set", st)
        c = mk("emptymap")
        for k, v in flags.items():
            c = mk("store", c, const(k), const(v))
        st.heap[(ps, "[]")] = c
        return st

    def apply(self, stage, flags, op, name, value=None):
        """-> dict(stage, flags, calls, warned, raised, st)"""
        it = self.it
        st = self.situation(stage, flags)
        n0 = len(it.events)
        m = self.member(name)
        if op == "run":
            v = it.call(m, [it.inst], {"opt": sym("opt")}, self.f.node, st, self.fr)
        else:
            f = it.getattr(m, "fset", self.f.node, st, self.fr)
            v = it.call(f, [it.inst, value], {}, self.f.node, st, self.fr)
        ev = it.events[n0:]
        notes = [(str(e.d["fn"]), e) for e in ev if e.kind == "call" and "note_" in str(e.d["fn"])]
        warned = [e for e in ev if e.kind == "call" and (str(e.d["fn"]).endswith("warnings.warn") or str(e.d["fn"]).rsplit(".", 1)[-1] in ("warning", "warn"))]
        cur = T.unver(st.heap.get((self.S, "current"), NONE))
        ps = T.unver(st.heap.get((self.S, "properties_set"), NONE))
        return dict(stage=cval(cur) if is_const(cur) else "?", flags=self.table(ps, st) if ps.op == "obj" else None, notes=notes, warned=warned, raised=bool(st.dead), st=st, value=v, events=ev)

    # ---------------------------------------------------------------- the protocol
    def required(self, stage):
        return [p for p, s in self.props.items() if s is not None and s <= stage]

    def flagsets(self):
        ps = list(self.props)
        out = [("all given", {p: True for p in ps}), ("none given", {p: False for p in ps})]
        for p in ps:
            out.append(("all but %s given" % p, {q: q != p for q in ps}))
            out.append(("only %s given" % p, {q: q == p for q in ps}))
        return out
