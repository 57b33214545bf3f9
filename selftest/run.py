#!/opt/venv/bin/python
"""Self-test of the checkers: source variants on which a check must fire (bug)
or stay silent (same behaviour, written differently).  Not a registered check.
usage: run.py [ID ...] [-v]"""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))


def load():
    cases = []
    for f in sorted(os.listdir(HERE)):
        if f.startswith("cases_") and f.endswith(".py"):
            spec = importlib.util.spec_from_file_location(f[:-3], os.path.join(HERE, f))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            cases += m.CASES
    return cases


def one(c):
    pid, expect, edits = c[0], c[1], c[2]
    d = tempfile.mkdtemp(prefix="selftest_")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.c"))
        for f, old, new in edits:
            p = os.path.join(d, "src/flowstab", f)
            s = open(p).read()
            if s.count(old) < 1:
                return c, "STALE", "text not found in %s: %r" % (f, old[:60])
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        env = dict(os.environ, SA_REPO=d, SA_EVID=d)
        r = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "..", "check.py"), pid], env=env,
                           capture_output=True, text=True)
        got = {0: "quiet", 1: "fire" if "VIOLATION" in r.stdout else "crash"}.get(r.returncode, "rc%d" % r.returncode)
        return c, got, r.stdout[-1500:] + r.stderr[-1500:]
    finally:
        shutil.rmtree(d)


def main():
    sel = [a for a in sys.argv[1:] if not a.startswith("-")]
    v = "-v" in sys.argv
    cases = [c for c in load() if not sel or c[0] in sel]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for c, got, out in ex.map(one, cases):
            okk = got == c[1]
            bad += not okk
            if not okk or v:
                print("%s %s expected=%s got=%s  %s" % ("ok " if okk else "BAD", c[0], c[1], got,
                                                       c[3] if len(c) > 3 else c[2][0][2][:60]))
                if not okk or v:
                    print("     " + out.strip().replace("\n", "\n     ")[-900:])
    print("%d cases, %d wrong" % (len(cases), bad))
    sys.exit(bool(bad))


if __name__ == "__main__":
    main()
