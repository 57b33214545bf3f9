#!/opt/venv/bin/python
"""seed.py gen            regenerate seeded/<id>/ from tools/seeds_*.py against /repo HEAD
   seed.py verify [id..]  build, tests, demo on scratch copies, and which checks report it"""
import glob
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def specs():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "seeds_*.py"))):
        sp = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out.update(m.SEEDS)
    return out


def gen():
    S = specs()
    for i, s in S.items():
        d = tempfile.mkdtemp(prefix="seedgen_")
        try:
            subprocess.run("git -C /repo archive HEAD | tar x -C %s" % d, shell=True, check=True)
            subprocess.run("git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x", shell=True, cwd=d, check=True)
            for f, old, new in s["edits"]:
                p = os.path.join(d, "src/flowstab", f)
                t = open(p).read()
                if t.count(old) != 1:
                    print("STALE", i, f, t.count(old), repr(old[:70]))
                open(p, "w").write(t.replace(old, new, 1))
            diff = subprocess.run("git diff", shell=True, cwd=d, capture_output=True, text=True).stdout
            o = os.path.join(HERE, "seeded", i)
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(diff)
            open(o + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            open(o + "/demo.sh", "w").write("#!/bin/bash\nexport OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python \"$(cd \"$(dirname \"$0\")\" && pwd)/demo.py\"\n")
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(o + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(d)
    for x in os.listdir(os.path.join(HERE, "seeded")):
        if x not in S:
            print("no spec for", x)


def tests(d):
    env = dict(os.environ, PYTHONPATH=d + "/src:/opt/vp/plugins", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TMPDIR=d + "/tmp_")
    os.makedirs(d + "/tmp_", exist_ok=True)
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300", "--continue-on-collection-errors",
                    "--deselect", "tests/test_temporal_network.py::TestTempNetwork", "-o", "junit_family=xunit2", "--junitxml=" + d + "/junit.xml", "tests"],
                   cwd=d, env=env, capture_output=True)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", d + "/res.json", "junit:" + d + "/junit.xml"], cwd=d, capture_output=True)
    r = json.load(open(d + "/res.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return sorted(set(base) - set(r["passed"]))


def copy(patch=None):
    d = tempfile.mkdtemp(prefix="seedv_")
    subprocess.run("cp -a /repo/. %s/" % d, shell=True, check=True)
    if patch:
        subprocess.run(["git", "apply", patch], cwd=d, check=True)
        if ".pyx" in open(patch).read():
            subprocess.run("touch src/flowstab/*.pyx; . /opt/vp/env.sh; $PY setup.py -q build_ext --inplace", shell=True, cwd=d, capture_output=True)
    return d


def demo(d, i):
    env = dict(os.environ, PYTHONPATH=d + "/src")
    return subprocess.run(["bash", os.path.join(HERE, "seeded", i, "demo.sh")], cwd=d, env=env, capture_output=True, text=True, timeout=300)


def verify(i, fast=False):
    out = {"id": i}
    d = copy(os.path.join(HERE, "seeded", i, "patch.diff"))
    try:
        r0 = subprocess.run(["bash", os.path.join(HERE, "seeded", i, "demo.sh")], cwd="/repo", capture_output=True, text=True, timeout=300)
        out["demo_clean"] = r0.returncode
        if r0.returncode:
            out["clean_err"] = (r0.stdout + r0.stderr)[-400:]
        r1 = demo(d, i)
        out["demo_patched"] = r1.returncode
        out["demo_msg"] = (r1.stdout + r1.stderr).strip().split("\n")[-1][-160:]
        if not fast:
            out["tests_broken"] = tests(d)
        caught = []
        prop = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))["property"]
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            r = subprocess.run([PY, HERE + "/check.py", c["property"]], env=dict(os.environ, SA_REPO=d, SA_EVID=d + "/evid"), capture_output=True, text=True)
            if r.returncode:
                caught.append(c["property"] + ("" if r.returncode == 1 else "(rc%d)" % r.returncode))
        out["property"] = prop
        out["caught_by"] = caught
    finally:
        shutil.rmtree(d)
    return out


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen()
    else:
        fast = "--fast" in sys.argv
        ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
        with ThreadPoolExecutor(5) as ex:
            for o in ex.map(lambda i: verify(i, fast), ids):
                good = o.get("demo_clean") == 0 and o.get("demo_patched") != 0 and not o.get("tests_broken")
                print("%-10s %s caught=%s own=%s" % (o["id"], "VALID" if good else "INVALID", ",".join(o["caught_by"]), o["property"] in o["caught_by"]),
                      "" if good else json.dumps(o), "|", o.get("demo_msg", "")[:100])
