"""What the constructor of SparseAutocovMat puts in each field: lets a method that uses a stored combination of the weights
(p1p2) be compared with one that multiplies the weights itself."""
from __future__ import annotations
from .. import terms as T
from ..terms import mk, sym, const, TRUE, FALSE, subterms
from ..engine import Interp

P1, P2 = sym("p1"), sym("p2")


def _scalar(c):
    if c.op == "isinst" and c.args[0] in (P1, P2):
        return str(c.args[1]) in ("float", "int", "number", "Number", "Real")
    return None


class Fields:
    def __init__(self, prog):
        self.prog = prog
        cls = prog.cls("SparseAutocovMat")
        self.derived, self.flag, self.flag_scalar = {}, None, True
        f = cls.find("__init__") if cls is not None else None
        if f is None:
            return
        it = Interp(prog)
        s = it.new_instance(cls)
        r = it.run(f, selft=s)
        self.it = it
        from ..csr import resolve, Unknown
        for kind in ("scalar", "vector"):
            def atom(c, kind=kind):
                v = _scalar(c)
                return None if v is None else (v if kind == "scalar" else not v)
            for (o, n), v in r.st.heap.items():
                if o is not s or not isinstance(n, str) or n in ("p1", "p2"):
                    continue
                try:
                    v = T.strip(resolve(T.strip(v), atom))
                except Unknown:
                    continue
                if v is TRUE or v is FALSE:
                    self.__dict__.setdefault("_flags", {}).setdefault(n, {})[kind] = v is TRUE
                elif kind == "scalar" and v.op in ("poly", "sym") and {x for x in subterms(v) if x.op == "sym"} <= {P1, P2} \
                        and not any(x.op in ("attr", "call", "phi") for x in subterms(v)):
                    self.derived[n] = v
        for n, d in getattr(self, "_flags", {}).items():
            if len(d) == 2 and d["scalar"] != d["vector"]:
                self.flag, self.flag_scalar = n, d["scalar"]
        if self.flag is None:
            self.flag = "p_scalars"

    def case(self, t, S, scalar):
        """t for an object with scalar / vector weights, in terms of p1 and p2"""
        t = T.assume_in(t, mk("attr", S, self.flag), TRUE if scalar == self.flag_scalar else FALSE)
        return self.norm(t, S) if scalar else t

    def norm(self, t, S):
        a, b = mk("attr", S, "p1"), mk("attr", S, "p2")
        m = {mk("attr", S, n): T.subst(v, {P1: a, P2: b}) for n, v in self.derived.items()}
        return T.subst(t, m) if m else t
