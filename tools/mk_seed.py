"""python3 tools/mk_seed.py SPEC.py [id ...]  --  development tool: write and confirm seeded/<id>.
SPEC.py defines S = [dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], demo=python source)]"""
import json, os, re, runpy, shutil, subprocess, sys, time

BASE = "003fa1a"
DEMO_SH = """#!/bin/bash
export NUMBA_DISABLE_JIT=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
MPLCONFIGDIR=$(mktemp -d); export MPLCONFIGDIR
trap '/bin/rm -rf "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
HEAD = """import os, sys
sys.path.insert(0, os.getcwd())
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import dreimac

"""
ids = set(sys.argv[2:])
for s in runpy.run_path(sys.argv[1])["S"]:
    if ids and s["id"] not in ids:
        continue
    name = s["id"]
    out = "/verif/seeded/" + name
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(HEAD + s["demo"].strip("\n") + "\n")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(out + "/meta.json", "w"), indent=1)
    d = "/tmp/mut/seed-" + name
    if os.path.exists(d):
        shutil.rmtree(d)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    bad = False
    for f, old, new in s["edits"]:
        p = os.path.join(d, "dreimac", f)
        t = open(p).read()
        if t.count(old) < 1:
            print(name, "EDIT DOES NOT APPLY", old[:60]); bad = True; break
        open(p, "w").write(t.replace(old, new, 1))
    if bad:
        continue
    patch = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
    open(out + "/patch.diff", "w").write(patch)
    # changed lines come from the original repository?
    own = 0
    f, n = None, 0
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m.group(1)); continue
        if f and n:
            if line.startswith("-") and not line.startswith("---"):
                b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L", "%d,%d" % (n, n), "HEAD", "--", f], capture_output=True, text=True).stdout
                a = subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", b.split()[0].lstrip("^"), BASE]).returncode
                if a:
                    own += 1; print("   line of a later commit:", line)
                n += 1
            elif not line.startswith("+"):
                n += 1
    env = dict(os.environ)
    d0 = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    t = time.time()
    d1 = subprocess.run(["bash", out + "/demo.sh"], cwd=d, capture_output=True, text=True)
    t = time.time() - t
    q = subprocess.run("PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 PYTHONPATH=%s MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p pytest_timeout -p xdist.plugin -n 6 test 2>&1 | grep -aE '^(FAILED|ERROR|[0-9]+ (passed|failed))'|cut -c1-150" % d,
                       shell=True, cwd=d, capture_output=True, text=True).stdout
    r = subprocess.run(["./check", s["property"]], cwd="/verif", env=dict(os.environ, MC_REPO=d, VERIF_SEED="1"), capture_output=True, text=True)
    viol = "VIOLATION property=%s " % s["property"] in r.stdout
    print("%-26s %s demo %d/%d (%.0fs) tests %s check rc=%d %s%s" % (
        name, s["property"], d0.returncode, d1.returncode, t, q.strip().splitlines()[-1] if q.strip() else "?", r.returncode, "CAUGHT" if viol and r.returncode == 1 else "missed",
        "" if not own else " (%d own lines)" % own), flush=True)
    if d0.returncode:
        print(d0.stdout[-500:], d0.stderr[-800:])
    if not d1.returncode or "passed" not in q or "failed" in q:
        print("   NOT VALID", d1.stdout[-300:], q[-400:])
    shutil.rmtree(d)
