#!/opt/venv/bin/python
"""Behaviour-preserving rewrites applied to the whole package (or one function), on which every check must stay
quiet.  Not a registered check.   usage: metamorph.py [-t transform,..] [-m module,..] [-f function] [-p P01,..] [-v]"""
import ast
import copy
import importlib
import os
import random
import shutil
import sys
import tempfile
import argparse
from multiprocessing import Pool

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
VER = os.environ.get("VER", "/verif")
sys.path.insert(0, VER)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
T = {}


def tr(f):
    T[f.__name__] = f
    return f


def own(fn):
    """nodes of a function without nested functions/classes"""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, FN + (ast.ClassDef, ast.Lambda)):
                st.append(c)


def has_nested(fn):
    return any(isinstance(n, FN + (ast.ClassDef, ast.Lambda)) for s in fn.body for n in ast.walk(s))


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def comp_targets(n):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in x.generators:
                out |= names(g.target, ast.Store)
    return out


CNT = [0]


def fresh(p="tmp"):
    CNT[0] += 1
    return "%s_%d" % (p, CNT[0])


def name(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


class Blocks(ast.NodeTransformer):
    """calls self.block(list) on every statement list inside a function body, inside out"""
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, (ast.ClassDef, ast.Module)):
                setattr(n, f, self.block(b))
        return n


@tr
def identity(fn, env):
    return True


@tr
def rename_locals(fn, env):
    if has_nested(fn):
        return False
    skip = set(params(fn))
    for n in own(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            skip |= set(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip |= {(a.asname or a.name).split(".")[0] for a in n.names}
    loc = set()
    for s in fn.body:
        loc |= names(s, ast.Store)
    for n in own(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "eval", "exec"):
            return False
    loc -= skip
    for s in fn.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_r"
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name += "_r"
    return bool(loc)


@tr
def invert_if(fn, env):
    ch = [0]

    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse:
                ch[0] += 1
                return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
            return n

        def visit_IfExp(self, n):
            self.generic_visit(n)
            ch[0] += 1
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    fn.body = [V().visit(s) for s in fn.body]
    return ch[0]


def terminates(b):
    return bool(b) and (isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or
                        (isinstance(b[-1], ast.If) and b[-1].orelse and terminates(b[-1].body) and terminates(b[-1].orelse)))


@tr
def early_exit(fn, env):
    """if c: ...return  else: rest  ->  if c: ...return; rest"""
    ch = [0]

    class V(Blocks):
        def block(self, b):
            out = []
            for s in b:
                if isinstance(s, ast.If) and s.orelse and terminates(s.body):
                    ch[0] += 1
                    e = s.orelse
                    s.orelse = []
                    out.append(s)
                    out += e
                else:
                    out.append(s)
            return out
    V().visit(fn)
    return ch[0]


@tr
def nest_else(fn, env):
    """if c: return X; rest -> if c: return X else: rest"""
    ch = [0]

    class V(Blocks):
        def block(self, b):
            for i, s in enumerate(b[:-1]):
                if isinstance(s, ast.If) and not s.orelse and terminates(s.body):
                    ch[0] += 1
                    s.orelse = self.block(b[i + 1:])
                    return b[:i + 1]
            return b
    V().visit(fn)
    return ch[0]


@tr
def temp_return(fn, env):
    ch = [0]

    class V(Blocks):
        def block(self, b):
            out = []
            for s in b:
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                    t = fresh("result")
                    out.append(ast.Assign([name(t, ast.Store())], s.value))
                    s.value = name(t)
                    ch[0] += 1
                out.append(s)
            return out
    V().visit(fn)
    return ch[0]


@tr
def temp_attr_value(fn, env):
    """obj.a = E / obj[k] = E  ->  t = E; obj.a = t"""
    ch = [0]

    class V(Blocks):
        def block(self, b):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Attribute, ast.Subscript)) and not isinstance(s.value, (ast.Name, ast.Constant)):
                    t = fresh("val")
                    out.append(ast.Assign([name(t, ast.Store())], s.value))
                    s.value = name(t)
                    ch[0] += 1
                out.append(s)
            return out
    V().visit(fn)
    return ch[0]


@tr
def temp_cond(fn, env):
    """if test: -> c = test; if c:   (not for elif)"""
    ch = [0]

    class V(Blocks):
        def block(self, b):
            out = []
            for s in b:
                if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                    t = fresh("cond")
                    out.append(ast.Assign([name(t, ast.Store())], s.test))
                    s.test = name(t)
                    ch[0] += 1
                out.append(s)
            return out
    V().visit(fn)
    return ch[0]


@tr
def temp_args(fn, env):
    """x = f(g(..), h(..)) -> a=g(..); b=h(..); x = f(a, b)   (simple callee, all args hoisted in order)"""
    ch = [0]

    class V(Blocks):
        def block(self, b):
            out = []
            for s in b:
                v = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else None
                if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and not any(isinstance(a, ast.Starred) for a in v.args) and not any(k.arg is None for k in v.keywords) \
                        and (isinstance(v.func, ast.Name) or isinstance(v.func.value, ast.Name)) and getattr(v.func, "id", "") not in ("super", "print"):
                    if isinstance(s, ast.Assign) and not all(isinstance(x, ast.Name) for x in s.targets):
                        out.append(s)
                        continue
                    for i, a in enumerate(v.args):
                        if not isinstance(a, (ast.Constant,)):
                            t = fresh("arg")
                            out.append(ast.Assign([name(t, ast.Store())], a))
                            v.args[i] = name(t)
                            ch[0] += 1
                    for k in v.keywords:
                        if not isinstance(k.value, ast.Constant):
                            t = fresh("arg")
                            out.append(ast.Assign([name(t, ast.Store())], k.value))
                            k.value = name(t)
                            ch[0] += 1
                out.append(s)
            return out
    V().visit(fn)
    return ch[0]


@tr
def flip_cmp(fn, env):
    ch = [0]
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in own(fn):
        for x in [n]:
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in F:
                x.left, x.comparators[0] = x.comparators[0], x.left
                x.ops[0] = F[type(x.ops[0])]()
                ch[0] += 1
    return ch[0]


@tr
def is_none(fn, env):
    """x is None -> not (x is not None), a not in b -> not a in b, and back"""
    ch = [0]
    F = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in F:
                ch[0] += 1
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [F[type(n.ops[0])]()], n.comparators))
            return n
    fn.body = [V().visit(s) for s in fn.body]
    return ch[0]


@tr
def demorgan(fn, env):
    ch = [0]

    class V(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            if self.boolean:
                ch[0] += 1
                o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                return ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.values]))
            return n
        boolean = False

        def visit_If(self, n):
            self.boolean = True
            n.test = self.visit(n.test)
            self.boolean = False
            n.body = [self.visit(s) for s in n.body]
            n.orelse = [self.visit(s) for s in n.orelse]
            return n
    fn.body = [V().visit(s) for s in fn.body]
    return ch[0]


@tr
def split_and(fn, env):
    """if a and b: X (no else) -> if a: if b: X"""
    ch = [0]

    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
                ch[0] += 1
                b = n.body
                for v in reversed(n.test.values):
                    b = [ast.If(v, b, [])]
                return b[0]
            return n
    fn.body = [V().visit(s) for s in fn.body]
    return ch[0]


@tr
def ifexp_to_if(fn, env):
    ch = [0]

    class V(Blocks):
        def block(self, b):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
                    ch[0] += 1
                    e = s.value
                    out.append(ast.If(e.test, [ast.Assign([copy.deepcopy(s.targets[0])], e.body)], [ast.Assign([copy.deepcopy(s.targets[0])], e.orelse)]))
                elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                    ch[0] += 1
                    e = s.value
                    out.append(ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)]))
                else:
                    out.append(s)
            return out
    V().visit(fn)
    return ch[0]


@tr
def if_to_ifexp(fn, env):
    """if c: x = A else: x = B -> x = A if c else B"""
    ch = [0]

    class V(Blocks):
        def block(self, b):
            out = []
            for s in b:
                if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 for x in (s.body[0], s.orelse[0])) \
                        and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                    ch[0] += 1
                    out.append(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
                else:
                    out.append(s)
            return out
    V().visit(fn)
    return ch[0]


@tr
def comp_to_loop(fn, env):
    ch = [0]

    class V(Blocks):
        def block(self, b):
            out = []
            for s in b:
                v = getattr(s, "value", None)
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].is_async:
                    g = v.generators[0]
                    # fresh names for the comprehension's variables
                    m = {n: fresh(n) for n in names(g.target, ast.Store)}
                    for x in ast.walk(v.elt):
                        if isinstance(x, ast.Name) and x.id in m:
                            x.id = m[x.id]
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name) and x.id in m:
                            x.id = m[x.id]
                    for c in g.ifs:
                        for x in ast.walk(c):
                            if isinstance(x, ast.Name) and x.id in m:
                                x.id = m[x.id]
                    t = fresh("items")
                    body = [ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [v.elt], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    out.append(ast.Assign([name(t, ast.Store())], ast.List([], ast.Load())))
                    out.append(ast.For(g.target, g.iter, body, []))
                    s.value = name(t)
                    ch[0] += 1
                out.append(s)
            return out
    V().visit(fn)
    return ch[0]


@tr
def loop_to_comp(fn, env):
    """xs = []; for a in b: xs.append(e) -> xs = [e for a in b]   (adjacent statements only)"""
    ch = [0]

    class V(Blocks):
        def block(self, b):
            out = []
            for s in b:
                p = out[-1] if out else None
                if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) and isinstance(s.body[0].value.func, ast.Attribute) \
                        and s.body[0].value.func.attr == "append" and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.value, ast.List) and not p.value.elts \
                        and ast.unparse(p.targets[0]) == ast.unparse(s.body[0].value.func.value) and ast.unparse(p.targets[0]) not in ast.unparse(s.body[0].value.args[0]):
                    p.value = ast.ListComp(s.body[0].value.args[0], [ast.comprehension(s.target, s.iter, [], 0)])
                    ch[0] += 1
                    continue
                out.append(s)
            return out
    V().visit(fn)
    return ch[0]


def loop_ctl(body, kinds):
    """break/continue belonging to this loop"""
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.For, ast.While)):
            st += n.orelse
            continue
        if isinstance(n, FN + (ast.ClassDef,)):
            continue
        st += [c for c in ast.iter_child_nodes(n) if isinstance(c, (ast.stmt, ast.ExceptHandler))]
    return False


@tr
def for_to_while(fn, env):
    """for i in range(n) -> while"""
    ch = [0]

    class V(Blocks):
        def block(self, b):
            out = []
            for s in b:
                if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ("range",) and len(s.iter.args) <= 2 \
                        and not loop_ctl(s.body, (ast.Continue,)) and not s.orelse:
                    a = s.iter.args
                    lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else (a[0], a[1])
                    c, h = fresh("pos"), fresh("stop")
                    out.append(ast.Assign([name(c, ast.Store())], lo))
                    out.append(ast.Assign([name(h, ast.Store())], hi))
                    body = [ast.Assign([s.target], name(c))] + s.body + [ast.AugAssign(name(c, ast.Store()), ast.Add(), ast.Constant(1))]
                    out.append(ast.While(ast.Compare(name(c), [ast.Lt()], [name(h)]), body, []))
                    ch[0] += 1
                else:
                    out.append(s)
            return out
    V().visit(fn)
    return ch[0]


@tr
def range_to_enum(fn, env):
    """for i in range(len(x)) -> for i, _ in enumerate(x)"""
    ch = [0]
    for s in own(fn):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 \
                and isinstance(s.iter.args[0], ast.Call) and isinstance(s.iter.args[0].func, ast.Name) and s.iter.args[0].func.id == "len" and isinstance(s.iter.args[0].args[0], (ast.Name, ast.Attribute)):
            x = s.iter.args[0].args[0]
            s.target = ast.Tuple([s.target, name(fresh("item"), ast.Store())], ast.Store())
            s.iter = ast.Call(name("enumerate"), [x], [])
            ch[0] += 1
    return ch[0]


@tr
def iter_temp(fn, env):
    """for x in E -> it = E; for x in it; bounds named"""
    ch = [0]

    class V(Blocks):
        def block(self, b):
            out = []
            for s in b:
                if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                    t = fresh("seq")
                    out.append(ast.Assign([name(t, ast.Store())], s.iter))
                    s.iter = name(t)
                    ch[0] += 1
                out.append(s)
            return out
    V().visit(fn)
    return ch[0]


@tr
def const_aug(fn, env):
    """x += 1 -> x = x + 1 for plain names"""
    ch = [0]

    class V(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, float)):
                ch[0] += 1
                return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op, n.value))
            return n
    fn.body = [V().visit(s) for s in fn.body]
    return ch[0]


@tr
def aug_item(fn, env):
    """a[i] += e -> a[i] = a[i] + e for subscripts with simple indices"""
    ch = [0]

    class V(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Subscript) and isinstance(n.target.value, ast.Name) and isinstance(n.target.slice, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub)):
                ch[0] += 1
                l = copy.deepcopy(n.target)
                l.ctx = ast.Load()
                return ast.Assign([n.target], ast.BinOp(l, n.op, n.value))
            return n
    fn.body = [V().visit(s) for s in fn.body]
    return ch[0]


@tr
def noop(fn, env):
    class V(Blocks):
        def block(self, b):
            k = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
            return b[:k] + [ast.Assign([name(fresh("unused"), ast.Store())], ast.Constant(None))] + b[k:]
    V().visit(fn)
    return True


@tr
def keywordise(fn, env):
    """positional arguments of package functions -> keywords"""
    ch = [0]
    for n in own(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in env["sig"] and not any(isinstance(a, ast.Starred) for a in n.args):
            ps = env["sig"][n.func.id]
            if len(n.args) <= len(ps):
                n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
                n.args = []
                ch[0] += 1
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and n.func.attr in env["msig"] and not any(isinstance(a, ast.Starred) for a in n.args):
            ps = env["msig"][n.func.attr]
            if len(n.args) <= len(ps):
                n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
                n.args = []
                ch[0] += 1
    return ch[0]


def simple_pure(e):
    return all(isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.Load, ast.Attribute, ast.List, ast.Dict, ast.Tuple)) for x in ast.walk(e))


@tr
def swap_assign(fn, env):
    """swap adjacent independent simple assignments"""
    ch = [0]

    class V(Blocks):
        def block(self, b):
            i = 0
            b = list(b)
            while i + 1 < len(b):
                p, q = b[i], b[i + 1]
                if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and simple_pure(x.value) for x in (p, q)):
                    if p.targets[0].id != q.targets[0].id and p.targets[0].id not in names(q.value, ast.Load) and q.targets[0].id not in names(p.value, ast.Load):
                        b[i], b[i + 1] = q, p
                        ch[0] += 1
                        i += 2
                        continue
                i += 1
            return b
    V().visit(fn)
    return ch[0]


@tr
def self_local(fn, env):
    """method: self.x read several times and never written nor calls of methods between -> skip unless function is call free"""
    if not fn.args.args or fn.args.args[0].arg != "self":
        return False
    wr = {ast.unparse(n) for n in own(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and ast.unparse(n.func).startswith("self.") for n in own(fn)):
        return False
    if has_nested(fn):
        return False
    if any(isinstance(n, ast.Name) and n.id == "super" for n in own(fn)) or fn.name == "__init__":
        return False
    reads = {}
    for n in own(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in env["plain"] and ast.unparse(n) not in wr:
            reads.setdefault(n.attr, []).append(n)
    if not reads:
        return False
    # only attributes used in the first statement level unconditionally: safe when the attribute always exists
    k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    ch = False
    for a, ns in reads.items():
        if a not in env["always"]:
            continue
        t = fresh(a.strip("_"))

        class V(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if n.attr == a and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
                    return name(t)
                return n
        fn.body = [V().visit(s) for s in fn.body]
        fn.body.insert(k, ast.Assign([name(t, ast.Store())], ast.Attribute(name("self"), a, ast.Load())))
        ch = True
    return ch


def extractable(s):
    for n in ast.walk(s):
        if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Delete, ast.Await) + FN + (ast.ClassDef, ast.Lambda)):
            return False
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("super", "locals", "eval", "exec"):
            return False
        if isinstance(n, ast.Attribute) and n.attr.startswith("__") and not n.attr.endswith("__"):
            return False
    if loop_ctl([s], (ast.Break, ast.Continue)):
        return False
    return True


def definite(fn, upto):
    """names certainly assigned before statement number upto of the body (straight-line assignments and parameters)"""
    d = set(params(fn))
    for s in fn.body[:upto]:
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            d |= names(s, ast.Store)
        elif isinstance(s, ast.If):
            d |= both(s)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            d |= {(a.asname or a.name).split(".")[0] for a in s.names}
        elif isinstance(s, ast.For):
            pass
    return d


def both(s):
    def blk(b):
        d = set()
        for x in b:
            if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                d |= names(x, ast.Store)
            elif isinstance(x, ast.If):
                d |= both(x)
        return d
    def ex(b):
        return terminates(b)
    if not s.orelse:
        return set() if not ex(s.body) else set()
    if ex(s.body):
        return blk(s.orelse)
    if ex(s.orelse):
        return blk(s.body)
    return blk(s.body) & blk(s.orelse)


def extract_stmt(fn, i, j, env, newname):
    """move statements i..j-1 of the top-level body to a module-level function"""
    part = fn.body[i:j]
    if not all(extractable(s) for s in part):
        return None
    rest = fn.body[j:]
    comp = set()
    for s in part:
        comp |= comp_targets(s)
    wr, rd = set(), set()
    for s in part:
        wr |= names(s, ast.Store)
        rd |= names(s, ast.Load)
    wr -= comp
    loc = set(params(fn))
    for s in fn.body:
        loc |= names(s, ast.Store)
    before = definite(fn, i)
    ins = sorted((rd | wr) & before & loc)
    maybe = (rd & loc) - set(ins)
    # names read in part that might be assigned before but not surely
    before_any = set(params(fn))
    for s in fn.body[:i]:
        before_any |= names(s, ast.Store)
    if (rd | wr) & (before_any - before):
        return None
    later = set()
    for s in rest:
        later |= names(s, ast.Load)
    outs = sorted(wr & later)
    # outs must be surely assigned at the end of part
    sure = set(ins)
    for s in part:
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            sure |= names(s, ast.Store)
        elif isinstance(s, ast.If):
            sure |= both(s)
        elif isinstance(s, ast.With):
            for x in s.body:
                if isinstance(x, ast.Assign):
                    sure |= names(x, ast.Store)
    if not set(outs) <= sure:
        return None
    body = [copy.deepcopy(s) for s in part]
    if outs:
        body.append(ast.Return(ast.Tuple([name(o) for o in outs], ast.Load()) if len(outs) > 1 else name(outs[0])))
    h = ast.FunctionDef(newname, ast.arguments([], [ast.arg(a) for a in ins], None, [], [], None, []), body, [], None, None)
    try:
        h.type_params = []
    except Exception:
        pass
    call = ast.Call(name(newname), [name(a) for a in ins], [])
    if outs:
        tgt = ast.Tuple([name(o, ast.Store()) for o in outs], ast.Store()) if len(outs) > 1 else name(outs[0], ast.Store())
        st = ast.Assign([tgt], call)
    else:
        st = ast.Expr(call)
    fn.body[i:j] = [st]
    return h


def cut_points(fn):
    k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    return k


def nested_block_extract(fn, env, pick):
    if fn.name.startswith("__") and fn.name != "__init__":
        return False
    return False


@tr
def extract_compound(fn, env):
    """each top-level compound statement (for/while/if/with) that allows it -> helper function"""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn)) or has_nested(fn):
        return False
    ch = 0
    i = cut_points(fn)
    while i < len(fn.body):
        s = fn.body[i]
        if isinstance(s, (ast.For, ast.While, ast.If, ast.With)):
            h = extract_stmt(fn, i, i + 1, env, fresh("_extracted"))
            if h is not None:
                env["helpers"].append(h)
                ch += 1
        i += 1
    return ch


@tr
def extract_run(fn, env):
    """the second half of the top-level statements before a final return -> helper"""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn)) or has_nested(fn):
        return False
    k = cut_points(fn)
    n = len(fn.body)
    if n - k < 4:
        return False
    for i in range(k + 1, n - 1):
        for j in range(min(n, i + 4), i + 1, -1):
            h = extract_stmt(fn, i, j, env, fresh("_extracted"))
            if h is not None:
                env["helpers"].append(h)
                return True
    return False


@tr
def extract_loop_body(fn, env):
    """body of a top-level for loop -> helper when it assigns no name used elsewhere"""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn)) or has_nested(fn):
        return False
    ch = 0
    for i, s in enumerate(fn.body):
        if isinstance(s, ast.For) and all(extractable(x) for x in s.body) and not loop_ctl(s.body, (ast.Break, ast.Continue)):
            inner = names(ast.Module(s.body, []), ast.Store) - comp_targets(ast.Module(s.body, []))
            tgt = names(s.target, ast.Store)
            other = set()
            for k, x in enumerate(fn.body):
                if k != i:
                    other |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
            if inner & other or inner & tgt or inner & set(params(fn)):
                continue
            # no value carried from one iteration to the next: first use must be a store; be strict
            firstload = set()
            seen = set()
            okk = True
            for x in s.body:
                if isinstance(x, ast.Assign):
                    if names(x.value, ast.Load) & (inner - seen):
                        okk = False
                    seen |= names(x, ast.Store)
                else:
                    if names(x, ast.Load) & (inner - seen) - names(x, ast.Store):
                        okk = False
                    if names(x, ast.Load) & (inner - seen):
                        okk = False
            if not okk:
                continue
            before = definite(fn, i)
            allb = set(params(fn))
            for x in fn.body[:i]:
                allb |= names(x, ast.Store)
            rd = names(ast.Module(s.body, []), ast.Load)
            if rd & (allb - before - tgt):
                continue
            ins = sorted(rd & (before | tgt))
            nm = fresh("_step")
            h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in ins], None, [], [], None, []), s.body, [], None, None)
            h.type_params = []
            env["helpers"].append(h)
            s.body = [ast.Expr(ast.Call(name(nm), [name(a) for a in ins], []))]
            ch += 1
    return ch


@tr
def wrap_method(fn, env):
    """method m(self, ...): body  ->  m(self, ...): return self._m_impl(...)"""
    if env["cls"] is None or fn.decorator_list or fn.name.startswith("__") or fn.args.vararg or fn.args.kwarg or fn.args.posonlyargs or not fn.args.args or fn.args.args[0].arg != "self":
        return False
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" for n in own(fn)):
        return False
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn)):
        return False
    impl = copy.deepcopy(fn)
    impl.name = "_impl_" + fn.name.lstrip("_") + fresh("")
    env["methods"].append(impl)
    args = [name(a.arg) for a in fn.args.args[1:]]
    kws = [ast.keyword(a.arg, name(a.arg)) for a in fn.args.kwonlyargs]
    fn.body = fn.body[:cut_points(fn)] + [ast.Return(ast.Call(ast.Attribute(name("self"), impl.name, ast.Load()), args, kws))]
    return True


@tr
def wrap_function(fn, env):
    if env["cls"] is not None or fn.decorator_list or fn.args.vararg or fn.args.kwarg or fn.args.posonlyargs:
        return False
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn)):
        return False
    impl = copy.deepcopy(fn)
    impl.name = "_impl_" + fn.name.lstrip("_") + fresh("")
    env["helpers"].append(impl)
    args = [name(a.arg) for a in fn.args.args]
    kws = [ast.keyword(a.arg, name(a.arg)) for a in fn.args.kwonlyargs]
    fn.body = fn.body[:cut_points(fn)] + [ast.Return(ast.Call(name(impl.name), args, kws))]
    return True


@tr
def enum_to_range(fn, env):
    ch = 0
    for s in own(fn):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and len(s.iter.args) == 1 and not s.iter.keywords \
                and isinstance(s.iter.args[0], (ast.Name, ast.Attribute)) and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
            x, i, v = s.iter.args[0], s.target.elts[0], s.target.elts[1]
            s.target = i
            s.iter = ast.Call(name("range"), [ast.Call(name("len"), [x], [])], [])
            s.body = [ast.Assign([v], ast.Subscript(copy.deepcopy(x), name(i.id), ast.Load()))] + s.body
            ch += 1
    return ch


@tr
def items_to_keys(fn, env):
    ch = 0
    for s in own(fn):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and isinstance(s.iter.func.value, (ast.Name, ast.Attribute)) \
                and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name):
            d, (k, v) = s.iter.func.value, s.target.elts
            s.target, s.iter = k, d
            s.body = [ast.Assign([v], ast.Subscript(copy.deepcopy(d), name(k.id), ast.Load()))] + s.body
            ch += 1
    return ch


@tr
def while_true(fn, env):
    ch = 0
    for s in own(fn):
        if isinstance(s, ast.While) and not s.orelse and not (isinstance(s.test, ast.Constant)):
            s.body = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body
            s.test = ast.Constant(True)
            ch += 1
    return ch


@tr
def unpack(fn, env):
    """a, b = f(...) -> r = f(...); a = r[0]; b = r[1]   for package functions"""
    ch = [0]

    class V(Blocks):
        def block(self, b):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and all(isinstance(x, (ast.Name, ast.Attribute)) for x in s.targets[0].elts):
                    t = fresh("parts")
                    out.append(ast.Assign([name(t, ast.Store())], s.value))
                    for i, x in enumerate(s.targets[0].elts):
                        out.append(ast.Assign([x], ast.Subscript(name(t), ast.Constant(i), ast.Load())))
                    ch[0] += 1
                else:
                    out.append(s)
            return out
    V().visit(fn)
    return ch[0]


@tr
def alias_container(fn, env):
    """self.a[k] = v -> m = self.a; m[k] = v"""
    ch = [0]

    class V(Blocks):
        def block(self, b):
            out = []
            for s in b:
                if isinstance(s, (ast.Assign, ast.AugAssign)):
                    t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else getattr(s, "target", None)
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute):
                        m = fresh("box")
                        out.append(ast.Assign([name(m, ast.Store())], t.value))
                        t.value = name(m)
                        ch[0] += 1
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("append", "add", "remove", "update") and isinstance(s.value.func.value, (ast.Attribute, ast.Subscript)):
                    m = fresh("box")
                    out.append(ast.Assign([name(m, ast.Store())], s.value.func.value))
                    s.value.func.value = name(m)
                    ch[0] += 1
                out.append(s)
            return out
    V().visit(fn)
    return ch[0]


@tr
def merge_if(fn, env):
    ch = [0]

    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
                ch[0] += 1
                return ast.If(ast.BoolOp(ast.And(), [n.test, n.body[0].test]), n.body[0].body, [])
            return n
    fn.body = [V().visit(s) for s in fn.body]
    return ch[0]


@tr
def star_kwargs(fn, env):
    """f(a, b=c) -> kw = dict(b=c); f(a, **kw)"""
    ch = [0]

    class V(Blocks):
        def block(self, b):
            out = []
            for s in b:
                v = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else None
                if isinstance(v, ast.Call) and v.keywords and not any(k.arg is None for k in v.keywords) and isinstance(v.func, (ast.Name, ast.Attribute)) and getattr(v.func, "id", "") not in ("dict", "print", "super"):
                    if any(not isinstance(a, (ast.Name, ast.Constant, ast.Attribute)) for a in v.args):
                        out.append(s)
                        continue
                    t = fresh("opts")
                    out.append(ast.Assign([name(t, ast.Store())], ast.Dict([ast.Constant(k.arg) for k in v.keywords], [k.value for k in v.keywords])))
                    v.keywords = [ast.keyword(None, name(t))]
                    ch[0] += 1
                out.append(s)
            return out
    V().visit(fn)
    return ch[0]


@tr
def split_isinstance(fn, env):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B);  x in (a, b) -> x == a or x == b"""
    ch = [0]

    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], (ast.Name, ast.Attribute)):
                ch[0] += 1
                return ast.BoolOp(ast.Or(), [ast.Call(name("isinstance"), [copy.deepcopy(n.args[0]), e], []) for e in n.args[1].elts])
            return n

        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.left, ast.Name) and isinstance(n.comparators[0], (ast.Tuple, ast.List)) and n.comparators[0].elts and all(isinstance(e, ast.Constant) for e in n.comparators[0].elts):
                ch[0] += 1
                return ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [e]) for e in n.comparators[0].elts])
            return n
    fn.body = [V().visit(s) for s in fn.body]
    return ch[0]


@tr
def square(fn, env):
    ch = [0]

    class V(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
                ch[0] += 1
                return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
            if isinstance(n.op, ast.Sub) and not isinstance(n.right, ast.Constant):
                ch[0] += 1
                return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right)) if env.get("arith") else n
            return n
    fn.body = [V().visit(s) for s in fn.body]
    return ch[0]


@tr
def extract_expr(fn, env):
    """x = <expression of names, attributes, constants, calls> -> x = _helper(names)"""
    if has_nested(fn):
        return False
    ch = [0]
    loc = set(params(fn))
    for s in fn.body:
        loc |= names(s, ast.Store)

    class V(Blocks):
        def block(self, b):
            for s in b:
                v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
                if v is None or not isinstance(v, (ast.BinOp, ast.Call, ast.Compare, ast.BoolOp)):
                    continue
                if any(isinstance(x, (ast.Yield, ast.Lambda, ast.NamedExpr, ast.Await)) for x in ast.walk(v)) or comp_targets(v):
                    continue
                if any(isinstance(x, ast.Name) and x.id in ("super", "locals", "__class__") for x in ast.walk(v)):
                    continue
                if any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(v)):
                    continue
                ins = sorted(names(v, ast.Load) & loc)
                nm = fresh("_value")
                h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in ins], None, [], [], None, []), [ast.Return(v)], [], None, None)
                h.type_params = []
                env["helpers"].append(h)
                s.value = ast.Call(name(nm), [name(a) for a in ins], [])
                ch[0] += 1
            return b
    V().visit(fn)
    return ch[0]


@tr
def extract_tail(fn, env):
    """the last statements of a function, return included -> helper"""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn)) or has_nested(fn) or fn.name == "__init__":
        return False
    k = cut_points(fn)
    n = len(fn.body)
    if n - k < 3:
        return False
    i = k + (n - k) // 2
    part = fn.body[i:]
    for s in part:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id in ("super", "locals"):
                return False
            if isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__"):
                return False
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                return False
    before = definite(fn, i)
    anyb = set(params(fn))
    for s in fn.body[:i]:
        anyb |= names(s, ast.Store)
    used = set()
    for s in part:
        used |= names(s, ast.Load) | names(s, ast.Store)
    if used & (anyb - before):
        return False
    ins = sorted(used & before)
    nm = fresh("_rest")
    h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in ins], None, [], [], None, []), part, [], None, None)
    h.type_params = []
    env["helpers"].append(h)
    fn.body[i:] = [ast.Return(ast.Call(name(nm), [name(a) for a in ins], []))]
    return True


@tr
def extract_method(fn, env):
    """as extract_compound, but the helper is a method"""
    if env["cls"] is None or not fn.args.args or fn.args.args[0].arg != "self" or has_nested(fn) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn)):
        return False
    ch = 0
    i = cut_points(fn)
    while i < len(fn.body):
        s = fn.body[i]
        if isinstance(s, (ast.For, ast.While, ast.If, ast.With)):
            nm = fresh("_part")
            h = extract_stmt(fn, i, i + 1, env, nm)
            if h is not None:
                h.args.args = [ast.arg("self")] + [a for a in h.args.args if a.arg != "self"]
                c = fn.body[i].value
                c.func = ast.Attribute(name("self"), nm, ast.Load())
                c.args = [a for a in c.args if a.id != "self"]
                env["methods"].append(h)
                ch += 1
        i += 1
    return ch


@tr
def inline_temp(fn, env):
    """x = E; <next statement uses x once, x used nowhere else> -> inlined (E pure reads)"""
    ch = [0]
    count = {}
    for s in fn.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name):
                count[x.id] = count.get(x.id, 0) + 1

    class V(Blocks):
        def block(self, b):
            out = []
            i = 0
            while i < len(b):
                s = b[i]
                if i + 1 < len(b) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and count.get(s.targets[0].id) == 2 and isinstance(b[i + 1], (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) \
                        and simple_pure(s.value):
                    nm = s.targets[0].id
                    hit = [x for x in ast.walk(b[i + 1]) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)]
                    if len(hit) == 1:
                        class R(ast.NodeTransformer):
                            def visit_Name(self, n):
                                return copy.deepcopy(s.value) if n.id == nm and isinstance(n.ctx, ast.Load) else n
                        b[i + 1] = R().visit(b[i + 1])
                        ch[0] += 1
                        i += 1
                        continue
                out.append(s)
                i += 1
            return out
    V().visit(fn)
    return ch[0]


def combo(seed):
    def f(fn, env):
        r = random.Random("%s/%s/%s" % (seed, env["cls"], fn.name))
        ch = False
        for t in r.sample([x for x in sorted(T) if x != "identity"], r.randint(2, 4)):
            ch = bool(T[t](fn, env)) or ch
            ast.fix_missing_locations(fn)
        return ch
    return f


# ------------------------------------------------------------------ application
def methods_of(mod, cls, sig, msig):
    pass


def envof(tree):
    sig, msig, plain, props, always = {}, {}, set(), set(), set()
    for s in tree.body:
        if isinstance(s, FN) and not s.args.vararg and not s.args.kwarg and not s.args.posonlyargs:
            sig[s.name] = [a.arg for a in s.args.args]
        if isinstance(s, ast.ClassDef):
            for m in s.body:
                if isinstance(m, FN):
                    dec = [ast.unparse(d) for d in m.decorator_list]
                    if dec:
                        props.add(m.name)
                        msig[m.name] = None
                    elif not m.args.vararg and not m.args.kwarg and not m.args.posonlyargs:
                        ps = [a.arg for a in m.args.args[1:]]
                        msig[m.name] = ps if msig.get(m.name, ps) == ps else None
                    if m.name == "__init__":
                        for x in m.body:
                            if isinstance(x, ast.Assign):
                                for t in x.targets:
                                    if isinstance(t, ast.Attribute):
                                        always.add(t.attr)
    msig = {k: v for k, v in msig.items() if v is not None}
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            plain.add(n.attr)
    return dict(sig=sig, msig=msig, plain=plain - props, always=always)


def apply(tree, t, only=None):
    """transform every function (or only the named ones); returns the names changed"""
    env = envof(tree)
    changed = []
    out = []
    for s in tree.body:
        env["helpers"], env["cls"], env["methods"] = [], None, []
        if isinstance(s, FN):
            if only is None or s.name in only:
                if (T[t] if t in T else combo(t))(s, env):
                    changed.append(s.name)
            out += env["helpers"] + [s]
        elif isinstance(s, ast.ClassDef):
            env["cls"] = s.name
            body = []
            for m in s.body:
                body.append(m)
                if isinstance(m, FN) and (only is None or s.name + "." + m.name in only or m.name in only):
                    env["methods"] = []
                    if (T[t] if t in T else combo(t))(m, env):
                        changed.append(s.name + "." + m.name)
                    body += env["methods"]
            s.body = body
            out += env["helpers"] + [s]
        else:
            out.append(s)
    # keep imports before the helpers
    tree.body = out
    ast.fix_missing_locations(tree)
    return changed


CHECKS = None


def work(job):
    t, mod, only, pids = job
    CNT[0] = 0
    import sa.model as model
    from sa.report import run_check
    from sa.cyparse import parse_pyx as orig
    d = tempfile.mkdtemp(prefix="meta_")
    os.environ["SA_EVID"] = d
    os.environ["SA_REPO"] = d
    ch = []
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.c"))
        root = d + "/src/flowstab/"
        if mod.endswith(".py"):
            p = root + mod
            tree = ast.parse(open(p).read())
            ch = apply(tree, t, only)
            txt = ast.unparse(tree)
            compile(txt, p, "exec")
            open(p, "w").write(txt)
            model.parse_pyx = orig
        else:
            def pp(p):
                tree, unk = orig(p)
                if os.path.basename(p) == mod:
                    ch.extend(apply(tree, t, only))
                    tree = ast.parse(ast.unparse(tree))
                return tree, unk
            model.parse_pyx = pp
        res = []
        prog0 = model.Program(d)
        for pid in pids:
            m = importlib.import_module("sa.checks." + pid.lower())
            model.REPO = d
            try:
                viol, found, und, broken = run_check(pid, m, "quick", prog=model.Program(d), quiet=True, write=False)
                res.append((pid, viol, und, broken))
            except Exception as e:
                res.append((pid, [("EXC", type(e).__name__, str(e))], [], None))
        return job, ch, res
    except SyntaxError as e:
        return job, ["SYNTAX %s" % e], []
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-t", default=",".join(T))
    ap.add_argument("-m", default="flow_stability.py,state_tracking.py,network_clustering.py,temporal_network.py,sparse_stoch_mat.py,parallel_clustering.py,parallel_expm.py,_cython_fast_funcs.pyx,_cython_sparse_stoch.pyx")
    ap.add_argument("-f", default=None)
    ap.add_argument("-p", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-u", action="store_true")
    a = ap.parse_args()
    pids = a.p.split(",") if a.p else sorted(f[:-3].upper() for f in os.listdir(VER + "/sa/checks") if f[0] == "p" and f[1:3].isdigit())
    jobs = [(t, m, a.f.split(",") if a.f else None, pids) for t in a.t.split(",") for m in a.m.split(",")]
    nv = 0
    with Pool(8, maxtasksperchild=4) as pool:
        for job, ch, res in pool.imap(work, jobs):
            bad = [(p, v) for p, v, u, b in res if v or b]
            und = sum(len(u) for p, v, u, b in res)
            if bad or a.v or (ch and str(ch[0]).startswith("SYNTAX")):
                print("%-18s %-26s changed=%d undecided=%d %s" % (job[0], job[1], len(ch), und, "" if bad else (ch[0] if ch and str(ch[0]).startswith("SYNTAX") else "")))
            for p, v, u, b in res:
                if v or b:
                    nv += 1
                    for r, c, dd in v[:4]:
                        print("    %s [%s] %s: %s" % (p, r, c[:90], dd[:700]))
                    if b:
                        print("    %s BROKEN %s" % (p, b))
                if a.u and u:
                    for x in u[:6]:
                        print("    und %s [%s] %s: %s" % (p, x[0], x[1][:80], x[2][:160]))
            sys.stdout.flush()
    print("%d jobs, %d alarms" % (len(jobs), nv))


if __name__ == "__main__":
    main()
