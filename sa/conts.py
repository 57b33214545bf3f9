"""What a container built by loops/comprehensions holds: its insertion rules."""
from __future__ import annotations
from . import terms as T
from .terms import mk, not_, subterms


class Entry:
    __slots__ = ("kind", "key", "val", "conds")

    def __init__(self, kind, key, val, conds):
        self.kind, self.key, self.val, self.conds = kind, key, val, conds

    def __repr__(self):
        return "%s(%s%s)%s" % (self.kind, "" if self.key is None else "%s: " % self.key, self.val,
                               " if " + " & ".join(map(str, self.conds)) if self.conds else "")


class Conts:
    """entries(contents) -> (list of Entry, list of base terms) ; raises Unknown"""

    class Unknown(Exception):
        pass

    def __init__(self, it, st=None):
        self.it, self.st = it, st

    def of_obj(self, t):
        """contents of a container term"""
        c = self.st.heap.get((t, "[]")) if self.st is not None else None
        return c if c is not None else mk("init", t)

    def entries(self, c):
        out, bases = [], []
        self._walk(c, (), out, bases, frozenset())
        return out, bases

    def _walk(self, c, conds, out, bases, open_):
        o = c.op
        if o in ("emptymap",):
            return
        if o == "seq":
            for x in c.args:
                out.append(Entry("add", None, x, conds))
            return
        if o == "append":
            self._walk(c.args[0], conds, out, bases, open_)
            out.append(Entry("add", None, c.args[1], conds))
            return
        if o == "store":
            self._walk(c.args[0], conds, out, bases, open_)
            out.append(Entry("store", c.args[1], c.args[2], conds))
            return
        if o == "ite":
            self._walk(c.args[1], conds + (c.args[0],), out, bases, open_)
            self._walk(c.args[2], conds + (not_(c.args[0]),), out, bases, open_)
            return
        if o == "phi":
            if c in open_:
                return
            i = self.it.phis.get(c)
            if i is None or i.init is None or i.back is None:
                raise self.Unknown(str(c))
            self._walk(i.init, conds, out, bases, open_ | {c})
            self._walk(i.back, conds, out, bases, open_ | {c})
            return
        if o == "contents":
            self._walk(c.args[1], conds, out, bases, open_)
            return
        if o in ("listof", "setof") and len(c.args) == 1:
            x = c.args[0]
            if x.op in ("contents", "seq", "append", "phi", "ite", "listof", "setof"):
                self._walk(x, conds, out, bases, open_)
                return
            out.append(Entry("add", None, mk("elem", x, 0), conds))
            return
        if o in ("init", "sym", "attr", "idx"):
            bases.append(c)
            return
        raise self.Unknown(str(c)[:120])


def dedup(es):
    seen, out = set(), []
    for e in es:
        k = (e.kind, e.key, e.val, e.conds)
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out


def nonempty_test(c, x):
    """does condition c say that container x is not empty?"""
    c = T.strip(c)
    if c is x:
        return True
    n = mk("call", "len", (x,), (), None)
    zero, one = T.const(0), T.const(1)
    return c in (T.cmp_("<", zero, n), T.cmp_("<=", one, n), not_(T.cmp_("==", n, zero)), n)
