#!/opt/venv/bin/python
"""check.py <PROPERTY-ID> [quick|thorough]  -- static checks over /repo's source"""
import importlib
import os
import sys
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":     # same order of sets on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa.report import run_check
from sa.model import AnalysisBroken


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    mod = importlib.import_module("sa.checks." + pid.lower())
    try:
        rc = run_check(pid, mod, tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)


main()
