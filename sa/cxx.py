"""The small C++ helper class, read through clang's syntax tree and turned into Python syntax for the same interpreter."""
from __future__ import annotations
import ast
import json
import subprocess
from .model import FuncInfo


class NoCxx(Exception):
    pass


def dump(path, flt):
    try:
        r = subprocess.run(["clang++", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=%s" % flt, path],
                           capture_output=True, text=True, timeout=120)
    except (OSError, subprocess.TimeoutExpired) as e:
        raise NoCxx(str(e))
    out, dec, i, s = [], json.JSONDecoder(), 0, r.stdout
    while True:
        i = s.find("{", i)
        if i < 0:
            break
        try:
            d, n = dec.raw_decode(s[i:])
        except ValueError:
            raise NoCxx("clang output")
        out.append(d)
        i += n
    if not out:
        raise NoCxx("no declaration found: %s" % r.stderr[:200])
    return out


def kids(n):
    return [x for x in n.get("inner", []) if x]


SKIP = {"ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "ParenExpr", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr", "CStyleCastExpr",
        "CXXStaticCastExpr", "ConstantExpr", "CXXDefaultArgExpr"}
BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "%": ast.Mod}
CMP = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq}


def expr(n):
    k, c = n["kind"], kids(n)
    if k in SKIP:
        if not c:
            raise NoCxx(k)
        return expr(c[0])
    if k == "CXXThisExpr":
        return ast.Name("self", ast.Load())
    if k == "DeclRefExpr":
        return ast.Name(n["referencedDecl"]["name"], ast.Load())
    if k == "MemberExpr":
        return ast.Attribute(expr(c[0]), n["name"], ast.Load())
    if k in ("IntegerLiteral", "FloatingLiteral"):
        return ast.Constant(float(n["value"]) if k[0] == "F" else int(n["value"]))
    if k == "CXXBoolLiteralExpr":
        return ast.Constant(bool(n["value"]))
    if k == "ArraySubscriptExpr":
        return ast.Subscript(expr(c[0]), expr(c[1]), ast.Load())
    if k == "CXXOperatorCallExpr":
        f = c[0]
        while f["kind"] in SKIP:
            f = kids(f)[0]
        op = f.get("referencedDecl", {}).get("name", "")
        if op == "operator[]":
            return ast.Subscript(expr(c[1]), expr(c[2]), ast.Load())
        raise NoCxx(op)
    if k == "CXXMemberCallExpr":
        f = expr(c[0])
        if isinstance(f, ast.Attribute) and f.attr == "at":
            return ast.Subscript(f.value, expr(c[1]), ast.Load())
        ren = {"push_back": "append", "emplace_back": "append"}
        if isinstance(f, ast.Attribute) and f.attr in ren:
            f.attr = ren[f.attr]
        return ast.Call(f, [expr(x) for x in c[1:]], [])
    if k == "BinaryOperator":
        op = n["opcode"]
        if op in BIN:
            return ast.BinOp(expr(c[0]), BIN[op](), expr(c[1]))
        if op in CMP:
            return ast.Compare(expr(c[0]), [CMP[op]()], [expr(c[1])])
        if op in ("&&", "||"):
            return ast.BoolOp(ast.And() if op == "&&" else ast.Or(), [expr(c[0]), expr(c[1])])
    if k == "UnaryOperator":
        op = n["opcode"]
        if op == "-":
            return ast.UnaryOp(ast.USub(), expr(c[0]))
        if op == "!":
            return ast.UnaryOp(ast.Not(), expr(c[0]))
    if k == "ConditionalOperator":
        return ast.IfExp(expr(c[0]), expr(c[1]), expr(c[2]))
    raise NoCxx(k)


def store(e):
    e.ctx = ast.Store()
    return e


def stmt(n):
    k, c = n["kind"], kids(n)
    if k == "CompoundStmt":
        return [y for x in c for y in stmt(x)]
    if k in SKIP:
        return stmt(c[0])
    if k == "NullStmt":
        return []
    if k == "ReturnStmt":
        return [ast.Return(expr(c[0]) if c else None)]
    if k == "IfStmt":
        return [ast.If(expr(c[0]), stmt(c[1]) or [ast.Pass()], stmt(c[2]) if len(c) > 2 else [])]
    if k == "BinaryOperator" and n["opcode"] == "=":
        return [ast.Assign([store(expr(c[0]))], expr(c[1]))]
    if k == "CompoundAssignOperator":
        return [ast.AugAssign(store(expr(c[0])), BIN[n["opcode"][0]](), expr(c[1]))]
    if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
        return [ast.AugAssign(store(expr(c[0])), ast.Add() if n["opcode"] == "++" else ast.Sub(), ast.Constant(1))]
    if k == "DeclStmt":
        out = []
        for v in c:
            i = kids(v)
            if v["kind"] == "VarDecl" and i:
                out.append(ast.Assign([ast.Name(v["name"], ast.Store())], expr(i[0])))
        return out
    if k == "ForStmt":
        raw = n.get("inner", [])
        init, _, cond, inc, body = raw[0], raw[1], raw[2], raw[3], raw[4]
        d = kids(init)[0]
        if init["kind"] == "DeclStmt" and cond.get("opcode") == "<" and inc.get("opcode") == "++":
            b = stmt(body)
            return [ast.For(ast.Name(d["name"], ast.Store()), ast.Call(ast.Name("range", ast.Load()), [expr(kids(d)[0]), expr(kids(cond)[1])], []), b or [ast.Pass()], [])]
        raise NoCxx("for")
    return [ast.Expr(expr(n))]


def methods(prog, module, path, cls):
    """{name: FuncInfo} of the methods of a C++ class with a body; constructors are listed as __init__<number of arguments>"""
    out = {}
    for d in dump(path, cls):
        if d["kind"] not in ("CXXMethodDecl", "CXXConstructorDecl"):
            continue
        c = kids(d)
        body = [x for x in c if x["kind"] == "CompoundStmt"]
        if not body:
            continue
        ps = [x.get("name", "_") for x in c if x["kind"] == "ParmVarDecl"]
        nm = d["name"] if d["kind"] == "CXXMethodDecl" else "__init__%d" % len(ps)
        pre = []
        for x in c:
            if x["kind"] == "CXXCtorInitializer" and x.get("anyInit") and kids(x):
                pre.append((x["anyInit"]["name"], kids(x)[0]))
        b = []
        for m, v in pre:
            if v["kind"] in ("CXXConstructExpr",):
                a = [expr(y) for y in kids(v) if y["kind"] != "CXXDefaultArgExpr"]
                if a:
                    b.append(ast.Expr(ast.Call(ast.Attribute(ast.Attribute(ast.Name("self", ast.Load()), m, ast.Load()), "assign", ast.Load()), a, [])))
            else:
                b.append(ast.Assign([ast.Attribute(ast.Name("self", ast.Load()), m, ast.Store())], expr(v)))
        b += stmt(body[0])
        f = ast.FunctionDef(nm, ast.arguments([], [ast.arg(p) for p in ["self"] + ps], None, [], [], None, []), b or [ast.Pass()], [])
        ast.fix_missing_locations(f)
        for x in ast.walk(f):
            if hasattr(x, "lineno"):
                x.lineno = d.get("loc", {}).get("line", 1)
        out[nm] = FuncInfo(module, f)
    return out
