"""python3 tools/try_mutants.py SPEC.py [id ...]  --  development tool: run checks against mutants in scratch copies.
SPEC.py defines M = [(id, "C01[,C02]", file, old, new) | (id, props, [(file, old, new), ...])]"""
import os, re, runpy, shutil, subprocess, sys, time

spec, ids = sys.argv[1], set(sys.argv[2:])
tests = os.environ.get("TESTS") == "1"
for m in runpy.run_path(spec)["M"]:
    name, props = m[0], m[1]
    edits = m[2] if isinstance(m[2], list) else [tuple(m[2:5])]
    if ids and name not in ids:
        continue
    d = "/tmp/mut/" + name
    if os.path.exists(d):
        shutil.rmtree(d)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    ok = True
    for f, old, new in edits:
        p = os.path.join(d, "dreimac", f)
        s = open(p).read()
        if old not in s:
            print(name, "EDIT DOES NOT APPLY", repr(old)[:60]); ok = False; break
        open(p, "w").write(s.replace(old, new, 1))
    if ok:
        for prop in props.split(","):
            t = time.time()
            r = subprocess.run(["./check", prop], cwd="/verif", env=dict(os.environ, MC_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"),
                               capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            what = {1: "caught", 0: "MISSED"}.get(r.returncode, "ERROR")
            print("%-28s %s %-7s rc=%d %5.1fs %s" % (name, prop, what, r.returncode, time.time() - t,
                  (v[0] if v else (r.stdout + r.stderr)[-200:].replace("\n", " ")) if what != "caught" else ""), flush=True)
            if tests and what != "caught":
                q = subprocess.run("PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 PYTHONPATH=%s MPLBACKEND=Agg timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p pytest_timeout -p xdist.plugin -n 6 test 2>&1 | grep -aE '^(FAILED|ERROR|[0-9]+ (passed|failed))'|cut -c1-150" % d,
                                   shell=True, cwd=d, capture_output=True, text=True)
                print("   tests:", q.stdout[-300:])
    shutil.rmtree(d)
