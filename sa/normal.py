"""Loops written with a counter become ``for`` loops over a range, before anything is analysed.

    while c < h:            for c in range(c, h):
        body          ->        body
        c += 1              (c = max(c, h) where c is used afterwards)

only when the body never assigns c, does not change h and neither continues nor (if c is used afterwards) breaks."""
import ast

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
GROW = {"append", "add", "pop", "remove", "extend", "insert", "clear", "update", "discard", "resize", "push_back", "sort"}


def stores(nodes):
    return {x.id for s in nodes for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def loads(nodes):
    return {x.id for s in nodes for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def ctl(body, kind):
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, kind):
            return True
        if isinstance(n, (ast.For, ast.While)):
            st += n.orelse
            continue
        if isinstance(n, FN + (ast.ClassDef,)):
            continue
        st += [c for c in ast.iter_child_nodes(n) if isinstance(c, (ast.stmt, ast.ExceptHandler))]
    return False


def invariant(e, body):
    """the value of e cannot change while the body runs"""
    if isinstance(e, ast.Constant):
        return True
    w = stores(body)
    if isinstance(e, ast.Name):
        return e.id not in w
    if isinstance(e, ast.BinOp):
        return invariant(e.left, body) and invariant(e.right, body)
    base = None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and not e.keywords:
        base = e.args[0]
    elif isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.value, ast.Attribute) and e.value.attr == "shape":
        base = e.value.value
    elif isinstance(e, ast.Attribute) and e.attr in ("size", "num_nodes"):
        base = e.value
    if base is None or not isinstance(base, (ast.Name, ast.Attribute)):
        return False
    txt = ast.unparse(base)
    root = base
    while isinstance(root, ast.Attribute):
        root = root.value
    if not isinstance(root, ast.Name) or root.id in w:
        return False
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and ast.unparse(x) == txt:
                return False
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in GROW and ast.unparse(x.func.value) == txt:
                return False
            if isinstance(x, ast.Delete):
                return False
    return True


def step(s, c):
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == c and isinstance(s.op, ast.Add):
        return isinstance(s.value, ast.Constant) and s.value.value == 1 and s.value.value is not True
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == c and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        l, r = s.value.left, s.value.right
        for x, y in ((l, r), (r, l)):
            if isinstance(x, ast.Name) and x.id == c and isinstance(y, ast.Constant) and y.value == 1 and y.value is not True:
                return True
    return False


def counted(w):
    """(counter, bound) of a while loop that counts"""
    t = w.test
    if w.orelse or not w.body or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return None
    l, o, r = t.left, t.ops[0], t.comparators[0]
    if isinstance(o, ast.Lt):
        c, h = l, r
    elif isinstance(o, ast.Gt):
        c, h = r, l
    elif isinstance(o, ast.NotEq) and False:
        c, h = l, r
    else:
        return None
    if not isinstance(c, ast.Name) or not step(w.body[-1], c.id):
        return None
    body = w.body[:-1]
    if not body or c.id in stores(body) or ctl(body, ast.Continue) or c.id in loads([ast.Expr(h)]):
        return None
    if not invariant(h, w.body):
        return None
    return c.id, h


class Fn:
    def __init__(self, fn):
        self.fn = fn

    def uses_elsewhere(self, c, w):
        """is the counter read outside the loop before being assigned again?  approximated: read anywhere else except in
        further loops of this kind or after a plain reassignment directly in front of them"""
        inside = set(map(id, ast.walk(w)))
        return any(isinstance(x, ast.Name) and x.id == c and isinstance(x.ctx, ast.Load) and id(x) not in inside
                   for x in ast.walk(self.fn))

    def block(self, b):
        out = []
        for s in b:
            for f in ("body", "orelse", "finalbody"):
                x = getattr(s, f, None)
                if isinstance(x, list) and x and isinstance(x[0], ast.stmt) and not isinstance(s, FN + (ast.ClassDef,)):
                    setattr(s, f, self.block(x))
            for h in getattr(s, "handlers", []):
                h.body = self.block(h.body)
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value in (True, 1) and not s.orelse and len(s.body) > 1:
                f0 = s.body[0]      # while True: if x: break; ...   ->   while not x: ...
                if isinstance(f0, ast.If) and not f0.orelse and len(f0.body) == 1 and isinstance(f0.body[0], ast.Break):
                    t = f0.test
                    s.test = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), t), t)
                    s.body = s.body[1:]
            k = counted(s) if isinstance(s, ast.While) else None
            if k is None:
                out.append(s)
                continue
            c, h = k
            used = self.uses_elsewhere(c, s)
            if used and ctl(s.body, ast.Break):
                out.append(s)
                continue
            body = s.body[:-1]
            lo = ast.Name(c, ast.Load())
            p = out[-1] if out else None
            # the initial value, when it is assigned just before
            for q in reversed(out[-3:]):
                if isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name) and q.targets[0].id == c:
                    if isinstance(q.value, ast.Constant):
                        lo = ast.Constant(q.value.value)
                    break
                if not isinstance(q, ast.Assign):
                    break
            args = [h] if isinstance(lo, ast.Constant) and lo.value == 0 and lo.value is not False else [lo, h]
            # a body that begins by copying the counter: that name is the loop variable
            tgt = ast.Name(c, ast.Store())
            f0 = body[0]
            if isinstance(f0, ast.Assign) and len(f0.targets) == 1 and isinstance(f0.targets[0], ast.Name) and isinstance(f0.value, ast.Name) and f0.value.id == c \
                    and c not in loads(body[1:]) and not used and len(body) > 1:
                tgt = f0.targets[0]
                body = body[1:]
            new = ast.For(target=tgt, iter=ast.Call(ast.Name("range", ast.Load()), args, []), body=body, orelse=[], type_comment=None)
            ast.copy_location(new, s)
            for x in ast.walk(new.iter):
                ast.copy_location(x, s.test)
            for x in (tgt,):
                ast.copy_location(x, s.test)
            out.append(new)
            if used:
                e = ast.Assign([ast.Name(c, ast.Store())], ast.Call(ast.Name("max", ast.Load()), [ast.Name(c, ast.Load()), h], []))
                pre = ast.Name(c + "__start", ast.Load())
                # value after the loop: max(start, bound)
                out.insert(len(out) - 1, ast.copy_location(ast.Assign([ast.Name(c + "__start", ast.Store())], lo), s))
                e.value.args[0] = pre
                out.append(ast.copy_location(e, s))
        return out


def normalise(tree):
    for n in ast.walk(tree):
        if isinstance(n, FN):
            n.body = Fn(n).block(n.body)
    ast.fix_missing_locations(tree)
    return tree
