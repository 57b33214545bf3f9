"""Obligations, evidence and exit codes."""
from __future__ import annotations
import contextlib
import json
import os
import sys
import time

from .model import Program, AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("SA_EVID") or os.path.join(HERE, "evidence")


class Ctx:
    def __init__(self, pid, tier, prog):
        self.pid, self.tier, self.prog = pid, tier, prog
        self.obl = []         # (rule, construct, status, detail)
        self.functions = set()
        self.notes = []
        self._prog = prog

    # statuses
    def ok(self, rule, construct, detail=""):
        self.obl.append((rule, construct, "holds", detail))

    def bad(self, rule, construct, detail, where=""):
        self.obl.append((rule, construct, "violated", (where + " — " if where else "") + detail))

    def und(self, rule, construct, detail=""):
        self.obl.append((rule, construct, "undecided", detail))

    def check(self, cond, rule, construct, detail_bad, where="", detail_ok=""):
        if cond:
            self.ok(rule, construct, detail_ok)
        else:
            self.bad(rule, construct, detail_bad, where)
        return cond

    def tri(self, val, rule, construct, detail_bad, where="", und=""):
        if val is True:
            self.ok(rule, construct)
        elif val is False:
            self.bad(rule, construct, detail_bad, where)
        else:
            self.und(rule, construct, und)

    @contextlib.contextmanager
    def guard(self, rule, construct):
        """an internal failure inside leaves this obligation undecided, not the others"""
        try:
            yield
        except Exception as ex:
            if os.environ.get("SA_RAISE"):
                raise
            self.und(rule, construct, "analysis failed: %s: %s" % (type(ex).__name__, ex))

    def saw(self, it):
        self.functions |= set(it.analysed)


def load_known():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p, encoding="utf-8"):
            ln = ln.rstrip("\n")
            if ln.startswith("known: "):
                # known: property=P03 key=<rule>|<construct> :: text
                rest = ln[len("known: "):]
                head, _, text = rest.partition(" :: ")
                pid = head.split()[0].split("=", 1)[1]
                key = head.split(" key=", 1)[1].strip()
                out.append((pid, key, text))
    return out


def run_check(pid, mod, tier="quick", prog=None, quiet=False, write=True):
    t0 = time.time()
    prog = prog or Program()
    ctx = Ctx(pid, tier, prog)
    try:
        mod.run(ctx)
    except Exception as e:      # a construct the analysis does not understand: no verdict for the rest
        if os.environ.get("SA_RAISE"):
            raise
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.und("analysis", "remaining obligations", "%s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        print("UNDECIDED property=%s the analysis stopped: %s: %s" % (pid, type(e).__name__, e))
    # one entry per (rule, construct): violated > undecided > holds
    rank = {"violated": 2, "undecided": 1, "holds": 0}
    best = {}
    for rule, con, stt, det in ctx.obl:
        k = (rule, con)
        if k not in best or rank[stt] > rank[best[k][0]]:
            best[k] = (stt, det)
    known = [(k, t) for p, k, t in load_known() if p == pid]
    kkeys = {k: t for k, t in known}
    viol, found = [], []
    for (rule, con), (stt, det) in best.items():
        if stt == "violated":
            key = rule + "|" + con
            (found if key in kkeys else viol).append((rule, con, det))
    n_ok = sum(1 for v in best.values() if v[0] == "holds")
    und = [(r, c, d) for (r, c), (s, d) in best.items() if s == "undecided"]
    need = getattr(mod, "MIN_OBLIGATIONS", 1)
    broken = None
    if not any(v[0] != "undecided" for v in best.values()):
        broken = "nothing could be decided: the analysis lost its anchors"
    elif len(best) < need:
        ctx.notes.append("fewer obligations than on the reference tree (%d < %d)" % (len(best), need))
    if len(best) < need and not best:
        broken = "only %d obligations were generated (at least %d expected): the analysis lost its anchors" % (len(best), need)
    wall = time.time() - t0
    rules = {}
    for (r, c), (s, d) in best.items():
        x = rules.setdefault(r, {"holds": 0, "violated": 0, "undecided": 0})
        x[s] += 1
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "kind": "other",
            "explanation": getattr(mod, "RULE", "").strip(),
            "obligations": len(best), "holds": n_ok,
            "undecided": [{"rule": r, "construct": c, "why": d} for r, c, d in und],
            "rules": rules,
            "functions_analysed": sorted(ctx.functions),
            "constructs": sorted("%s @ %s: %s" % (r, c, s) for (r, c), (s, _) in best.items())[:400],
            "files": {m.rel: m.sha[:16] for m in prog.modules.values()},
            "notes": ctx.notes,
        },
        "wall_s": round(wall, 3),
        "violations": [{"rule": r, "construct": c, "detail": d} for r, c, d in viol],
        "known_findings": [{"rule": r, "construct": c, "detail": d} for r, c, d in found],
    }
    if write:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if quiet:
        return viol, found, und, broken
    if broken:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, broken))
        if not viol:
            return 2
    for r, c, d in found:
        print("KNOWN-FINDING: property=%s %s @ %s: %s" % (pid, r, c, kkeys[r + "|" + c]))
    if viol:
        rp = os.path.join(EVID, pid + ".violations.txt")
        with open(rp, "w") as f:
            for r, c, d in viol:
                f.write("property=%s\nrule=%s\nconstruct=%s\n%s\n\n" % (pid, r, c, d))
        for r, c, d in viol:
            print("  [%s] %s: %s" % (r, c, d))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d holds=%d undecided=%d known=%d functions=%d %.1fs" % (
        pid, len(best), n_ok, len(und), len(found), len(ctx.functions), wall))
    return 0
