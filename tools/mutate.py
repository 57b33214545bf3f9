#!/opt/venv/bin/python
"""Survey: small behaviour-changing edits (mutants) and which checks see them.  Many mutants are equivalent or outside
every property; the survivors are read by hand.  usage: mutate.py MODULE [-f fn,fn] [-n per-function] [-s seed] [-o out]"""
import argparse
import ast
import copy
import importlib
import os
import random
import shutil
import sys
import tempfile
import time
from multiprocessing import Pool

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
LOGGING = ("print", "logger", "log", "warnings")


def dead(n):
    """a statement without influence on results: docstrings, messages"""
    return isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or (isinstance(n.value, ast.Call) and ast.unparse(n.value.func).split(".")[0] in LOGGING))


def sites(fn):
    """(description, mutator) pairs; a mutator changes a deep copy located by path"""
    out = []

    def visit(n, path, inmsg=False):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, c in enumerate(v):
                    if isinstance(c, ast.AST):
                        if isinstance(c, ast.stmt) and dead(c):
                            continue
                        if f in ("decorator_list",) or isinstance(n, ast.arguments):
                            continue
                        one(c, path + [(f, i)], n)
                        visit(c, path + [(f, i)])
            elif isinstance(v, ast.AST):
                if f in ("args",) and isinstance(n, FN) or f in ("returns", "annotation"):
                    continue
                if isinstance(n, ast.Raise):
                    continue
                one(v, path + [(f, None)], n)
                visit(v, path + [(f, None)])

    def one(c, p, parent):
        L = getattr(c, "lineno", 0)
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            a = alt[type(c.ops[0])]
            out.append((L, p, "cmp", lambda x, a=a: setattr(x, "ops", [a()])))
        if isinstance(c, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
            if type(c.op) in alt:
                out.append((L, p, "arith", lambda x, a=alt[type(c.op)]: setattr(x, "op", a())))
            if isinstance(c.op, (ast.MatMult, ast.Sub, ast.Div)):
                def sw(x):
                    x.left, x.right = x.right, x.left
                out.append((L, p, "swap operands", sw))
        if isinstance(c, ast.AugAssign) and isinstance(c.op, (ast.Add, ast.Sub)):
            out.append((L, p, "aug", lambda x: setattr(x, "op", ast.Sub() if isinstance(x.op, ast.Add) else ast.Add())))
        if isinstance(c, ast.Constant) and not isinstance(parent, (ast.JoinedStr, ast.FormattedValue)):
            if isinstance(c.value, bool):
                out.append((L, p, "bool", lambda x: setattr(x, "value", not x.value)))
            elif isinstance(c.value, (int, float)):
                out.append((L, p, "const", lambda x: setattr(x, "value", x.value + 1)))
        if isinstance(c, (ast.If, ast.IfExp, ast.While)):
            out.append((L, p, "negate", lambda x: setattr(x, "test", ast.UnaryOp(ast.Not(), x.test))))
        if isinstance(c, ast.BoolOp):
            out.append((L, p, "boolop", lambda x: setattr(x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And())))
            for i in range(len(c.values)):
                out.append((L, p, "drop operand %d" % i, lambda x, i=i: x.values.pop(i) if len(x.values) > 1 else None))
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.USub, ast.Not)):
            out.append((L, p, "unary", lambda x: setattr(x, "op", ast.UAdd() if isinstance(x.op, ast.USub) else x.op)))
        if isinstance(c, ast.Call):
            if len(c.args) >= 2 and not any(isinstance(a, ast.Starred) for a in c.args) and getattr(c.func, "id", "") not in ("isinstance", "hasattr", "print"):
                def sa(x):
                    x.args[0], x.args[1] = x.args[1], x.args[0]
                out.append((L, p, "swap args", sa))
            for i, k in enumerate(c.keywords):
                if k.arg and k.arg not in ("dtype", "verbose"):
                    out.append((L, p, "drop keyword " + k.arg, lambda x, i=i: x.keywords.pop(i)))
            if isinstance(c.func, ast.Attribute) and c.func.attr in ("copy", "deepcopy", "tocsr", "toarray") and not isinstance(parent, ast.Expr):
                pass
        if isinstance(c, ast.stmt) and isinstance(c, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break, ast.Continue, ast.Raise)) or (isinstance(c, ast.If) and not c.orelse and len(c.body) == 1):
            out.append((L, p, "delete stmt", "DEL"))
        if isinstance(c, ast.Attribute) and c.attr == "T" and isinstance(c.ctx, ast.Load):
            out.append((L, p, "drop .T", "UNWRAP"))
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("copy",) and not c.args:
            out.append((L, p, "drop .copy()", "UNCALL"))
        if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load) and c.id in NAMES.get(id(fn), ()):
            for o in NAMES[id(fn)][c.id]:
                out.append((L, p, "name %s->%s" % (c.id, o), lambda x, o=o: setattr(x, "id", o)))
        if isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Load):
            for a, b in PAIRS:
                if a in c.attr:
                    out.append((L, p, "attr %s" % c.attr, lambda x, a=a, b=b: setattr(x, "attr", x.attr.replace(a, b))))
    NAMES[id(fn)] = similar(fn)
    visit(fn, [])
    return out


NAMES = {}
PAIRS = (("start", "stop"), ("stop", "start"), ("source", "target"), ("target", "source"), ("p1", "p2"), ("forward", "backward"), ("backward", "forward"))


def similar(fn):
    ns = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)} | {a.arg for a in fn.args.args}
    loc = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in fn.args.args}
    out = {}
    for a in loc:
        for x, y in PAIRS + (("i", "j"), ("1", "2"), ("_f", "_i"), ("A", "B"), ("B", "A"), ("row", "col"), ("k", "i"), ("0", "1")):
            if x in a and a.replace(x, y, 1) in ns and a.replace(x, y, 1) != a:
                out.setdefault(a, []).append(a.replace(x, y, 1))
    return out


def locate(fn, path):
    n, par = fn, None
    for f, i in path:
        par = (n, f, i)
        n = getattr(n, f) if i is None else getattr(n, f)[i]
    return n, par


def mutate(tree, qual, path, how):
    fn = find(tree, qual)
    n, (par, f, i) = locate(fn, path)
    if how == "DEL":
        new = ast.copy_location(ast.Pass(), n)
    elif how == "UNWRAP":
        new = n.value
    elif how == "UNCALL":
        new = n.func.value
    else:
        how(n)
        new = None
    if new is not None:
        if i is None:
            setattr(par, f, new)
        else:
            getattr(par, f)[i] = new
    ast.fix_missing_locations(tree)
    return ast.unparse(find(tree, qual))


def find(tree, qual):
    idx = None
    if "#" in qual:
        qual, idx = qual.split("#")
    hits = []
    for s in tree.body:
        if isinstance(s, FN) and s.name == qual:
            hits.append(s)
        if isinstance(s, ast.ClassDef):
            for m in s.body:
                if isinstance(m, FN) and s.name + "." + m.name == qual:
                    hits.append(m)
    return hits[int(idx or 0)]


def quals(tree):
    out, cnt = [], {}
    for s in tree.body:
        l = [(s.name, s)] if isinstance(s, FN) else [(s.name + "." + m.name, m) for m in s.body if isinstance(m, FN)] if isinstance(s, ast.ClassDef) else []
        for q, m in l:
            k = cnt.get(q, 0)
            cnt[q] = k + 1
            out.append(("%s#%d" % (q, k), m))
    return out


TREES = {}


def base(mod):
    from sa.cyparse import parse_pyx
    if not TREES:
        for m in os.listdir("/repo/src/flowstab"):
            p = "/repo/src/flowstab/" + m
            if m.endswith(".pyx"):
                TREES[m] = parse_pyx(p)[0]
    if mod.endswith(".pyx"):
        return copy.deepcopy(TREES[mod])
    return ast.parse(open("/repo/src/flowstab/" + mod).read())


PIDS = None


def work(job):
    mod, qual, k, pids = job
    tree = base(mod)
    L, path, desc, how = sites(find(tree, qual))[k]
    before = ast.unparse(find(tree, qual)).split("\n")
    try:
        after = mutate(tree, qual, path, how).split("\n")
    except Exception as e:
        return job, L, desc, "error %s" % e, []
    diff = next(((a, b) for a, b in zip(before, after) if a != b), ("", ""))
    if before == after:
        return job, L, desc, "same", []
    import sa.model as model
    from sa.report import run_check
    d = tempfile.mkdtemp(prefix="mut_")
    os.environ["SA_EVID"] = d
    fired = []
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.c", "_cython*.cpp"))
        txt = ast.unparse(tree)
        if mod.endswith(".py"):
            compile(txt, "x", "exec")
            open(d + "/src/flowstab/" + mod, "w").write(txt)
        model.parse_pyx = lambda p: (ast.parse(txt) if os.path.basename(p) == mod else copy.deepcopy(TREES[os.path.basename(p)]), {})
        model.REPO = d
        prog = model.Program(d)
        out = sys.stdout
        sys.stdout = open(os.devnull, "w")
        for pid in pids:
            m = importlib.import_module("sa.checks." + pid.lower())
            try:
                viol, found, und, broken = run_check(pid, m, "quick", prog=prog, quiet=True, write=False)
                if viol:
                    fired.append(pid)
                elif und or broken:
                    fired.append(pid + "?%d" % len(und))
            except Exception as e:
                fired.append(pid + "!" + type(e).__name__)
        sys.stdout = out
        return job, L, desc, "  %s\n  %s" % (diff[0].strip()[:150], diff[1].strip()[:150]), fired
    except SyntaxError:
        return job, L, desc, "syntax", ["syntax"]
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mod")
    ap.add_argument("-f")
    ap.add_argument("-n", type=int, default=8)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-p")
    a = ap.parse_args()
    pids = a.p.split(",") if a.p else sorted(f[:-3].upper() for f in os.listdir(HERE + "/sa/checks") if f[0] == "p" and f[1:3].isdigit())
    tree = base(a.mod)
    rnd = random.Random(a.s)
    jobs = []
    for q, fn in quals(tree):
        if a.f and not any(x in q for x in a.f.split(",")):
            continue
        k = len(sites(fn))
        for i in sorted(rnd.sample(range(k), min(k, a.n))):
            jobs.append((a.mod, q, i, pids))
    t0 = time.time()
    caught = n = 0
    with Pool(8, maxtasksperchild=40) as pool:
        for job, L, desc, diff, fired in pool.imap(work, jobs, chunksize=1):
            if diff in ("same", "syntax"):
                continue
            n += 1
            hard = [f for f in fired if "?" not in f and "!" not in f]
            base_und = [f for f in fired if f not in ("P20?1",)]
            if hard:
                caught += 1
            else:
                print("%s line %d [%s] %s\n%s" % (job[1], L, desc, " ".join(base_und), diff))
                sys.stdout.flush()
    print("%d mutants, %d caught, %.0fs" % (n, caught, time.time() - t0))


if __name__ == "__main__":
    main()
