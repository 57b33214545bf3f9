"""Program model: parses every source file of the package (Python and Cython)
and resolves imports, classes (with MRO) and functions.  Nothing is imported
or executed; everything is derived from /repo's working tree."""
from __future__ import annotations
import ast
import hashlib
import os

from .cyparse import parse_pyx
from .normal import normalise

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "flowstab"


class FuncInfo:
    def __init__(self, module, node, cls=None, qual=None):
        self.module, self.node, self.cls = module, node, cls
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual or ((cls.name + "." if cls else "") + self.name)

    @property
    def id(self):
        return self.module.short + ":" + self.qual

    @property
    def where(self):
        return "%s:%d (%s)" % (self.module.rel, self.node.lineno, self.qual)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def __repr__(self):
        return "<fn %s>" % self.id


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods = {}       # name -> FuncInfo (plain def)
        self.props = {}         # name -> {'get':FuncInfo,'set':FuncInfo}
        self.static = set()
        self.classm = set()
        self.class_attrs = {}   # name -> expr
        self.decorated = {}     # id(node) -> decorator list
        self.bases = []         # filled by Program

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_prop(self, name):
        for c in self.mro():
            if name in c.props:
                return c.props[name]
            if name in c.methods:
                return None
        return None

    def find_class_attr(self, name):
        for c in self.mro():
            if name in c.class_attrs:
                return c, c.class_attrs[name]
        return None

    def is_a(self, name):
        return any(c.name == name for c in self.mro())

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if not isinstance(b, ClassInfo)]
        return out

    def __repr__(self):
        return "<class %s>" % self.name


def _dec_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return ast.unparse(d)
    if isinstance(d, ast.Name):
        return d.id
    return ast.unparse(d)


class Module:
    def __init__(self, prog, name, path, tree, kind, src):
        self.prog, self.name, self.path, self.tree, self.kind = prog, name, path, tree, kind
        self.short = name.split(".")[-1] if name != PKG else "__init__"
        if kind == "script":
            self.short = "scripts/" + self.short
        self.rel = os.path.relpath(path, REPO)
        self.src = src
        self.sha = hashlib.sha256(src.encode()).hexdigest()
        self.bind = {}          # module-level names -> tagged value
        self.functions, self.classes = {}, {}
        self.main_body = []
        self.globals_assign = {}   # name -> last expr node

    def all_functions(self):
        out = list(self.functions.values())
        for c in self.classes.values():
            out += list(c.methods.values())
            for p in c.props.values():
                out += list(p.values())
        return out

    def __repr__(self):
        return "<mod %s>" % self.name


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, "src", PKG)
        self.modules = {}
        self.cy_unknown = {}
        self._load()
        self._resolve()

    # ------------------------------------------------------------- load
    def _load(self):
        if not os.path.isdir(self.root):
            raise AnalysisBroken("package directory %s is missing" % self.root)
        for dp, dn, fn in sorted(os.walk(self.root)):
            dn[:] = sorted(d for d in dn if not d.startswith((".", "__py")))
            for f in sorted(fn):
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)
                if f.endswith(".py"):
                    with open(p, encoding="utf-8") as h:
                        src = h.read()
                    try:
                        tree = ast.parse(src)
                    except SyntaxError as e:
                        raise AnalysisBroken("cannot parse %s: %s" % (p, e))
                    kind = "script" if rel.startswith("scripts") else "py"
                elif f.endswith(".pyx"):
                    with open(p, encoding="utf-8") as h:
                        src = h.read()
                    tree, unk = parse_pyx(p)
                    self.cy_unknown[rel] = unk
                    kind = "pyx"
                else:
                    continue
                tree = normalise(tree)
                mod = rel[:rel.rindex(".")].replace(os.sep, ".")
                name = PKG if mod == "__init__" else PKG + "." + mod
                if name.endswith(".__init__"):
                    name = name[:-9]
                self.modules[name] = Module(self, name, p, tree, kind, src)
        # second pass: definitions
        for m in self.modules.values():
            self._scan(m, m.tree.body, top=True)

    def _scan(self, m, body, top=False):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(m, st)
                m.functions[st.name] = fi
                m.bind[st.name] = ("fun", fi)
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(m, st)
                m.classes[st.name] = ci
                m.bind[st.name] = ("cls", ci)
                self._scan_class(m, ci)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.bind[a.asname] = ("mod", a.name)
                    else:
                        m.bind[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._abs(m, st.module, st.level)
                for a in st.names:
                    nm = a.asname or a.name
                    old = m.bind.get(nm)
                    new = ("from", base, a.name)
                    if old is not None and old != new and old[0] in ("from", "mod", "alt"):
                        alts = list(old[1]) if old[0] == "alt" else [old]
                        m.bind[nm] = ("alt", alts + [new])
                    else:
                        m.bind[nm] = new
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.globals_assign.setdefault(n.id, []).append(st)
                            m.bind.setdefault(n.id, ("glob", n.id))
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                m.globals_assign.setdefault(st.target.id, []).append(st)
                m.bind.setdefault(st.target.id, ("glob", st.target.id))
            elif isinstance(st, ast.Try):
                self._scan(m, st.body)
                for h in st.handlers:
                    self._scan(m, h.body)
                self._scan(m, st.orelse)
                self._scan(m, st.finalbody)
            elif isinstance(st, (ast.If, ast.With, ast.For, ast.While)):
                self._scan(m, st.body)
                self._scan(m, getattr(st, "orelse", []))

    def _scan_class(self, m, ci):
        for st in ci.node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(m, st, ci)
                decs = [_dec_name(d) for d in st.decorator_list]
                if "property" in decs or "cached_property" in decs:
                    ci.props.setdefault(st.name, {})["get"] = fi
                    fi.qual = ci.name + "." + st.name + ".getter"
                    continue
                setter = [d for d in decs if d.endswith(".setter")]
                if setter:
                    ci.props.setdefault(setter[0][:-7], {})["set"] = fi
                    fi.qual = ci.name + "." + st.name + ".setter"
                    continue
                if "staticmethod" in decs:
                    ci.static.add(st.name)
                if "classmethod" in decs:
                    ci.classm.add(st.name)
                ci.methods[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        ci.class_attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                ci.class_attrs[st.target.id] = st.value

    def _abs(self, m, module, level):
        if not level:
            return module
        is_pkg = m.path.endswith("__init__.py")
        parts = m.name.split(".")
        if not is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return ".".join(parts + ([module] if module else []))

    # ---------------------------------------------------------- resolve
    def _resolve(self):
        for m in self.modules.values():
            for ci in m.classes.values():
                for b in ci.node.bases:
                    r = self.resolve_expr(m, b)
                    ci.bases.append(r if isinstance(r, ClassInfo) else (r or ast.unparse(b)))

    def resolve_name(self, m, name, prefer=0):
        """-> FuncInfo | ClassInfo | Module | 'ext.dotted' | ('glob',m,name) | None"""
        b = m.bind.get(name)
        return self._res_binding(m, b, prefer)

    def _res_binding(self, m, b, prefer=0):
        if b is None:
            return None
        if b[0] in ("fun", "cls"):
            return b[1]
        if b[0] == "mod":
            nm = self._canon(b[1])
            return self.modules.get(nm, nm)
        if b[0] == "alt":
            return self._res_binding(m, b[1][prefer], prefer)
        if b[0] == "from":
            base, nm = self._canon(b[1]), b[2]
            full = (base + "." if base else "") + nm
            if full in self.modules:
                return self.modules[full]
            if base in self.modules:
                r = self.resolve_name(self.modules[base], nm, prefer)
                if r is not None:
                    return r
            return full
        if b[0] == "glob":
            return ("glob", m, b[1])
        return None

    def _canon(self, name):
        """compiled modules are installed top-level: _x -> flowstab._x"""
        if name and name not in self.modules and PKG + "." + name in self.modules:
            return PKG + "." + name
        return name

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Module):
                return self.resolve_name(b, e.attr)
            if isinstance(b, str):
                return b + "." + e.attr
        return None

    # ------------------------------------------------------------ lookup
    def mod(self, short):
        for m in self.modules.values():
            if m.short == short:
                return m
        raise AnalysisBroken("module %s not found in the package" % short)

    def cls(self, name):
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        raise AnalysisBroken("class %s not found in the package" % name)

    def method(self, cname, name):
        f = self.cls(cname).find(name)
        if f is None:
            raise AnalysisBroken("method %s.%s not found" % (cname, name))
        return f

    def fn(self, short, name):
        m = self.mod(short)
        if name not in m.functions:
            raise AnalysisBroken("function %s not found in %s" % (name, m.rel))
        return m.functions[name]

    def functions(self, name):
        """module-level functions of that name, scripts apart"""
        return [m.functions[name] for m in self.modules.values() if m.kind != "script" and name in m.functions]

    def subclasses(self, cname):
        return [c for m in self.modules.values() for c in m.classes.values()
                if c.is_a(cname)]

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].sha.encode())
        return h.hexdigest()


class AnalysisBroken(Exception):
    """The analysis lost its anchor (missing function, unparsable file)."""


def with_helpers(f, selfname="self"):
    """(node, name of the object) for the body of f and of the functions, unknown to the reference tree, that it calls:
    ``self`` is followed through the arguments"""
    from .engine import KNOWN
    seen, todo = set(), [(f.node, selfname, f.cls)]
    while todo:
        node, me, cls = todo.pop()
        if (node, me) in seen:
            continue
        seen.add((node, me))
        yield node, me
        for x in ast.walk(node):
            if not isinstance(x, ast.Call):
                continue
            if isinstance(x.func, ast.Name) and x.func.id not in KNOWN and x.func.id in f.module.functions:
                h = f.module.functions[x.func.id].node
                ps = [a.arg for a in h.args.posonlyargs + h.args.args]
                hit = [p for p, a in zip(ps, x.args) if isinstance(a, ast.Name) and a.id == me] + \
                      [k.arg for k in x.keywords if isinstance(k.value, ast.Name) and k.value.id == me]
                todo.append((h, hit[0] if hit else None, cls))
            elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in (me, "cls") and x.func.attr not in KNOWN and cls is not None:
                h = cls.find(x.func.attr)
                if h is not None:
                    ps = h.params()
                    todo.append((h.node, ps[0] if ps else None, cls))
