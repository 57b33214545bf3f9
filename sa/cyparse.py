"""Turn a .pyx source into a Python ``ast`` module, using Cython's own parser
as a *parser only* (nothing is compiled or imported).

C declarations become plain assignments (when they carry an initialiser),
casts disappear, cdef functions become FunctionDefs, pointer/address-of is
dropped.  Anything this converter does not know becomes the expression
``__cy_unknown__("<NodeName>")`` so that the analysis treats it as opaque.
"""
from __future__ import annotations
import ast

BIN = {"AddNode": ast.Add, "SubNode": ast.Sub, "MulNode": ast.Mult,
       "DivNode": ast.Div, "PowNode": ast.Pow, "ModNode": ast.Mod,
       "IntBinopNode": None, "MatMultNode": ast.MatMult}
OPS = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "**": ast.Pow,
       "//": ast.FloorDiv, "%": ast.Mod, "@": ast.MatMult, "&": ast.BitAnd,
       "|": ast.BitOr, "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift}
CMP = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq,
       "!=": ast.NotEq, "is": ast.Is, "is_not": ast.IsNot, "in": ast.In,
       "not_in": ast.NotIn}


class CyConv:
    def __init__(self):
        self.unknown = {}

    # ------------------------------------------------------------ helpers
    def loc(self, new, old):
        pos = getattr(old, "pos", None)
        new.lineno = pos[1] if pos else 1
        new.col_offset = pos[2] if pos else 0
        new.end_lineno, new.end_col_offset = new.lineno, new.col_offset
        return new

    def unk(self, n):
        nm = type(n).__name__
        self.unknown[nm] = self.unknown.get(nm, 0) + 1
        return self.loc(ast.Call(
            func=self.loc(ast.Name("__cy_unknown__", ast.Load()), n),
            args=[self.loc(ast.Constant(nm), n)], keywords=[]), n)

    # -------------------------------------------------------- expressions
    def e(self, n, ctx=None):
        if n is None:
            return None
        try:
            return self._e(n, ctx)
        except (AttributeError, TypeError, ValueError, KeyError, IndexError):
            return self.unk(n)

    def _e(self, n, ctx=None):
        ctx = ctx or ast.Load()
        k = type(n).__name__
        L = lambda x: self.loc(x, n)
        if k == "NameNode":
            return L(ast.Name(str(n.name), ctx))
        if k == "NoneNode":
            return L(ast.Constant(None))
        if k == "NullNode":
            return L(ast.Constant(None))
        if k == "EllipsisNode":
            return L(ast.Constant(...))
        if k == "IntNode":
            v = str(n.value).rstrip("uUlL")
            return L(ast.Constant(int(v, 0)))
        if k == "FloatNode":
            return L(ast.Constant(float(n.value)))
        if k == "BoolNode":
            return L(ast.Constant(bool(n.value)))
        if k in ("UnicodeNode", "StringNode", "IdentifierStringNode", "BytesNode"):
            return L(ast.Constant(str(n.value)))
        if k == "TupleNode":
            return L(ast.Tuple([self.e(a, ctx) for a in n.args], ctx))
        if k == "ListNode":
            return L(ast.List([self.e(a, ctx) for a in n.args], ctx))
        if k == "SetNode":
            return L(ast.Set([self.e(a) for a in n.args]))
        if k == "DictNode":
            return L(ast.Dict([self.e(a.key) for a in n.key_value_pairs],
                              [self.e(a.value) for a in n.key_value_pairs]))
        if k == "IndexNode":
            return L(ast.Subscript(self.e(n.base), self.e(n.index), ctx))
        if k == "SliceIndexNode":
            return L(ast.Subscript(self.e(n.base), L(ast.Slice(
                self.e(n.start), self.e(n.stop), None)), ctx))
        if k == "SliceNode":
            def nn(x):
                return None if x is None or type(x).__name__ == "NoneNode" else self.e(x)
            return L(ast.Slice(nn(n.start), nn(n.stop), nn(n.step)))
        if k == "AttributeNode":
            return L(ast.Attribute(self.e(n.obj), str(n.attribute), ctx))
        if k == "SimpleCallNode":
            return L(ast.Call(self.e(n.function), [self.e(a) for a in n.args], []))
        if k == "GeneralCallNode":
            pa = n.positional_args
            if type(pa).__name__ == "TupleNode":
                args = [self.e(a) for a in pa.args]
            else:
                args = [L(ast.Starred(self.e(pa), ast.Load()))]
            kws = []
            ka = n.keyword_args
            if ka is not None and type(ka).__name__ == "DictNode":
                for it in ka.key_value_pairs:
                    kws.append(ast.keyword(str(it.key.value), self.e(it.value)))
            elif ka is not None:
                kws.append(ast.keyword(None, self.e(ka)))
            return L(ast.Call(self.e(n.function), args, kws))
        if k == "NewExprNode":
            return L(ast.Name(str(getattr(n.cppclass, "name", "cpp_class")), ast.Load()))
        if k in BIN or (hasattr(n, "operand1") and hasattr(n, "operator")
                        and n.operator in OPS):
            op = OPS.get(n.operator)
            if op is not None:
                return L(ast.BinOp(self.e(n.operand1), op(), self.e(n.operand2)))
        if k == "NotNode":
            return L(ast.UnaryOp(ast.Not(), self.e(n.operand)))
        if k == "UnaryMinusNode":
            return L(ast.UnaryOp(ast.USub(), self.e(n.operand)))
        if k == "UnaryPlusNode":
            return self.e(n.operand)
        if k in ("AmpersandNode", "TypecastNode", "CoerceToTempNode",
                 "CloneNode", "ProxyNode"):
            return self.e(n.operand)
        if k == "BoolBinopNode":
            op = ast.And() if n.operator == "and" else ast.Or()
            return L(ast.BoolOp(op, [self.e(n.operand1), self.e(n.operand2)]))
        if k in ("PrimaryCmpNode", "CascadedCmpNode"):
            ops, comps = [], []
            c = n
            left = self.e(n.operand1)
            while c is not None:
                o = c.operator
                if o not in CMP:
                    return self.unk(n)
                ops.append(CMP[o]())
                comps.append(self.e(c.operand2))
                c = c.cascade
            return L(ast.Compare(left, ops, comps))
        if k == "CondExprNode":
            test = n.test if hasattr(n, "test") else n.condition
            return L(ast.IfExp(self.e(test), self.e(n.true_val), self.e(n.false_val)))
        if k == "SizeofTypeNode":
            return L(ast.Constant(8))
        if k == "IteratorNode":
            return self.e(n.sequence)
        if k == "JoinedStrNode":
            return L(ast.Constant("<fstring>"))
        if k == "ComprehensionNode":
            return self._compr(n)
        if k == "GeneratorExpressionNode":
            return self._compr(n)
        if k == "StarredUnpackingNode":
            return L(ast.Starred(self.e(n.target, ctx), ctx))
        if k == "LambdaNode":
            al = []
            for a in n.args:
                nm = str(self._dname(a.declarator).name) or self._tyname(a.base_type)
                al.append(self.loc(ast.arg(nm), n))
            if n.star_arg or n.starstar_arg or any(a.default is not None for a in n.args):
                return self.unk(n)
            return L(ast.Lambda(ast.arguments(posonlyargs=[], args=al, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), self.e(n.result_expr)))
        if k == "TildeNode":
            return L(ast.UnaryOp(ast.Invert(), self.e(n.operand)))
        if k == "AssignmentExpressionNode":
            return L(ast.NamedExpr(self.e(n.lhs, ast.Store()), self.e(n.rhs)))
        return self.unk(n)

    def _compr(self, n):
        gens, node, ifs = [], n.loop, None
        while True:
            k = type(node).__name__
            if k == "ForInStatNode":
                gens.append(ast.comprehension(self.e(node.target, ast.Store()),
                                              self.e(node.iterator), [], 0))
                node = node.body
            elif k == "IfStatNode" and len(node.if_clauses) == 1:
                gens[-1].ifs.append(self.e(node.if_clauses[0].condition))
                node = node.if_clauses[0].body
            elif k == "StatListNode" and len(node.stats) == 1:
                node = node.stats[0]
            elif k == "ComprehensionAppendNode":
                ty = str(getattr(getattr(n, "type", None), "name", "list"))
                return self.loc((ast.SetComp if ty == "set" else ast.ListComp)(self.e(node.expr), gens), n)
            elif k == "DictComprehensionAppendNode":
                return self.loc(ast.DictComp(self.e(node.key_expr), self.e(node.value_expr), gens), n)
            elif hasattr(node, "key_expr") and hasattr(node, "value_expr"):
                return self.loc(ast.DictComp(self.e(node.key_expr), self.e(node.value_expr), gens), n)
            elif k == "ExprStatNode" and type(node.expr).__name__ == "YieldExprNode":
                return self.loc(ast.GeneratorExp(self.e(node.expr.arg), gens), n)
            else:
                return self.unk(n)

    # --------------------------------------------------------- statements
    def body(self, n):
        out = []
        self.s(n, out)
        return out or [ast.Pass(lineno=1, col_offset=0)]

    def s(self, n, out):
        if n is None:
            return
        if isinstance(n, list):
            for x in n:
                self.s(x, out)
            return
        m = len(out)
        try:
            self._s(n, out)
        except (AttributeError, TypeError, ValueError, KeyError, IndexError):
            if type(n).__name__ == "StatListNode":
                raise
            del out[m:]
            out.append(self.loc(ast.Expr(self.unk(n)), n))

    def _s(self, n, out):
        k = type(n).__name__
        L = lambda x: self.loc(x, n)
        if k in ("StatListNode", "CDefExternNode"):
            for x in (n.stats if k == "StatListNode" else []):
                self.s(x, out)
        elif k == "CompilerDirectivesNode":
            self.s(n.body, out)
        elif k == "ExprStatNode":
            out.append(L(ast.Expr(self.e(n.expr))))
        elif k == "SingleAssignmentNode":
            rhs = n.rhs
            if type(rhs).__name__ == "ImportNode":
                nm = str(rhs.module_name.value)
                as_ = str(n.lhs.name)
                out.append(L(ast.Import([ast.alias(nm, as_ if as_ != nm else None)])))
                return
            if type(rhs).__name__ == "CLambda":
                return
            out.append(L(ast.Assign([self.e(n.lhs, ast.Store())], self.e(rhs))))
        elif k == "CascadedAssignmentNode":
            out.append(L(ast.Assign([self.e(x, ast.Store()) for x in n.lhs_list], self.e(n.rhs))))
        elif k == "ParallelAssignmentNode":
            for x in n.stats:
                self.s(x, out)
        elif k == "InPlaceAssignmentNode":
            op = OPS.get(n.operator, ast.Add)
            out.append(L(ast.AugAssign(self.e(n.lhs, ast.Store()), op(), self.e(n.rhs))))
        elif k == "CVarDefNode":
            for d in n.declarators:
                self._cvar(d, n, out)
        elif k in ("DefNode", "CFuncDefNode"):
            out.append(self._func(n))
        elif k == "ForInStatNode":
            out.append(L(ast.For(self.e(n.target, ast.Store()), self.e(n.iterator),
                                 self.body(n.body), self.body(n.else_clause) if n.else_clause else [])))
        elif k == "ForFromStatNode":
            # for i from a <= i < b [by s]
            lo, hi = self.e(n.bound1), self.e(n.bound2)
            st = self.e(n.step) if n.step is not None else None
            one = L(ast.Constant(1))
            if n.relation1 == "<":
                lo = L(ast.BinOp(lo, ast.Add(), one))
            if n.relation2 == "<=":
                hi = L(ast.BinOp(hi, ast.Add(), one))
            if n.relation1 not in ("<", "<=") or n.relation2 not in ("<", "<="):
                out.append(L(ast.Expr(self.unk(n))))
            else:
                rg = L(ast.Call(L(ast.Name("range", ast.Load())), [lo, hi] + ([st] if st is not None else []), []))
                out.append(L(ast.For(self.e(n.target, ast.Store()), rg, self.body(n.body), self.body(n.else_clause) if n.else_clause else [])))
        elif k == "TryExceptStatNode":
            hs = []
            for c in n.except_clauses:
                pat = c.pattern
                ty = None
                if pat:
                    ty = self.e(pat[0]) if len(pat) == 1 else L(ast.Tuple([self.e(x) for x in pat], ast.Load()))
                nm = str(c.target.name) if c.target is not None and hasattr(c.target, "name") else None
                hs.append(L(ast.ExceptHandler(ty, nm, self.body(c.body))))
            out.append(L(ast.Try(self.body(n.body), hs, self.body(n.else_clause) if n.else_clause else [], [])))
        elif k == "WhileStatNode":
            out.append(L(ast.While(self.e(n.condition), self.body(n.body),
                                   self.body(n.else_clause) if n.else_clause else [])))
        elif k == "IfStatNode":
            cur = self.body(n.else_clause) if n.else_clause else []
            for cl in reversed(n.if_clauses):
                cur = [self.loc(ast.If(self.e(cl.condition), self.body(cl.body), cur), cl)]
            out.extend(cur)
        elif k == "ReturnStatNode":
            out.append(L(ast.Return(self.e(n.value))))
        elif k == "BreakStatNode":
            out.append(L(ast.Break()))
        elif k == "ContinueStatNode":
            out.append(L(ast.Continue()))
        elif k == "PassStatNode":
            out.append(L(ast.Pass()))
        elif k == "AssertStatNode":
            out.append(L(ast.Assert(self.e(n.condition), self.e(getattr(n, "value", None)))))
        elif k == "RaiseStatNode":
            out.append(L(ast.Raise(self.e(n.exc_type), None)))
        elif k == "ReraiseStatNode":
            out.append(L(ast.Raise(None, None)))
        elif k == "DelStatNode":
            # C++ "del ptr" / Python del
            out.append(L(ast.Delete([self.e(a, ast.Del()) for a in n.args])))
        elif k in ("GILStatNode", "GILExitNode", "WithStatNode", "TryFinallyStatNode",
                   "CriticalSectionStatNode"):
            self.s(n.body, out)
            if k == "TryFinallyStatNode":
                self.s(n.finally_clause, out)
        elif k == "CImportStatNode":
            out.append(L(ast.Import([ast.alias(str(n.module_name),
                                               str(n.as_name) if n.as_name else None)])))
        elif k == "FromCImportStatNode":
            al = []
            for it in n.imported_names:
                nm, as_ = str(it[1]), (str(it[2]) if it[2] else None)
                al.append(ast.alias(nm, as_))
            out.append(L(ast.ImportFrom(str(n.module_name), al, 0)))
        elif k == "FromImportStatNode":
            mod = str(n.module.module_name.value)
            al = []
            for nm, tgt in n.items:
                as_ = str(tgt.name)
                al.append(ast.alias(str(nm), as_ if as_ != str(nm) else None))
            out.append(L(ast.ImportFrom(mod, al, 0)))
        elif k in ("CTypeDefNode", "CEnumDefNode", "CStructOrUnionDefNode", "GlobalNode"):
            pass
        else:
            out.append(L(ast.Expr(self.unk(n))))

    def _dname(self, d):
        while not hasattr(d, "name"):
            d = d.base
        return d

    def _cvar(self, d, n, out):
        k = type(d).__name__
        if k == "CFuncDeclaratorNode":
            return
        dn = self._dname(d)
        if getattr(dn, "default", None) is not None:
            out.append(self.loc(ast.Assign([self.loc(ast.Name(str(dn.name), ast.Store()), n)],
                                           self.e(dn.default)), n))
        else:
            # a typed declaration without initialiser: C default-constructs
            ty = self._tyname(n.base_type)
            if ty in ("vector", "cset", "umap", "set", "unordered_map"):
                out.append(self.loc(ast.Assign(
                    [self.loc(ast.Name(str(dn.name), ast.Store()), n)],
                    self.loc(ast.Call(self.loc(ast.Name("__cpp_" + ty, ast.Load()), n), [], []), n)), n))

    def _tyname(self, t):
        k = type(t).__name__
        if k == "TemplatedTypeNode":
            return self._tyname(t.base_type_node)
        return str(getattr(t, "name", k))

    def _func(self, n):
        k = type(n).__name__
        if k == "DefNode":
            name, args = str(n.name), n.args
        else:
            d = n.declarator
            while type(d).__name__ != "CFuncDeclaratorNode":
                d = d.base
            args = d.args
            name = str(self._dname(d.base).name)
        al, defaults = [], []
        for a in args:
            d = self._dname(a.declarator)
            nm = str(d.name)
            ty = self._tyname(a.base_type)
            if not nm:            # untyped arg: the "type" is the name
                nm, ty = ty, None
            arg = self.loc(ast.arg(nm), a)
            arg.annotation = None
            arg.cytype = ty
            arg.cyfull = self._tyfull(a.base_type)
            al.append(arg)
            if a.default is not None:
                defaults.append(self.e(a.default))
        f = ast.FunctionDef(
            name=name,
            args=ast.arguments(posonlyargs=[], args=al, vararg=None, kwonlyargs=[],
                               kw_defaults=[], kwarg=None, defaults=defaults),
            body=self.body(n.body),
            decorator_list=[self.e(x.decorator) for x in (n.decorators or [])],
            returns=None, type_params=[])
        f.cykind = "def" if k == "DefNode" else "cdef"
        return self.loc(f, n)

    def _tyfull(self, t):
        k = type(t).__name__
        if k == "MemoryViewSliceTypeNode":
            return self._tyname(t.base_type_node) + "[%s]" % ",".join(":" for _ in t.axes)
        return self._tyname(t)


def parse_pyx(path):
    from Cython.Compiler import Errors
    from Cython.Compiler.Main import Context, CompilationOptions
    from Cython.Compiler.Scanning import FileSourceDescriptor
    ctx = Context.from_options(CompilationOptions(cplus=True, language_level=3))
    sd = FileSourceDescriptor(path)
    Errors.init_thread()
    scope = ctx.find_module("m", pos=(sd, 1, 0), need_pxd=0)
    tree = ctx.parse(sd, scope, pxd=0, full_module_name="m")
    c = CyConv()
    body = c.body(tree.body)
    m = ast.Module(body=body, type_ignores=[])
    ast.fix_missing_locations(m)
    return m, c.unknown


if __name__ == "__main__":
    import sys
    m, u = parse_pyx(sys.argv[1])
    print(ast.unparse(m))
    print(u)
