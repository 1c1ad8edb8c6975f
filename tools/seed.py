"""seed.py <file of seeds> [ids]: make and verify planted bugs.

The file is Python: SEEDS = [dict(id=, property=, edits=[(path, old, new)],
needs=, breaks=, demo=<python source>)].  Each is built in scratch copies of
/repo: patch made with git diff, stable tests run with the patch, demo run
without (must exit 0) and with (must not).  Then the property's own check is
run against the patched copy and the result printed (kept either way)."""
import os, runpy, shutil, subprocess, sys, json, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# exit 0: the property holds; 1: it is broken.  Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export PYTHONPATH="$here/env:$PWD:$PYTHONPATH"
exec "$PY" "$here/demo.py"
'''
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", []) or [])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


for s in SEEDS:
    if only and s["id"] not in only:
        continue
    out = os.path.join(root, "seeded", s["id"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    tmp = tempfile.mkdtemp(prefix="vf_seed_")
    rp = tmp + "/repo"
    shutil.copytree("/repo", rp, symlinks=True)
    for path, old, new in s["edits"]:
        t = open(rp + "/" + path).read()
        assert t.count(old) >= 1, (s["id"], path, old)
        if t.count(old) > 1:
            print(s["id"], "note: %d matches, first used" % t.count(old))
        open(rp + "/" + path, "w").write(t.replace(old, new, 1))
    d = sh("git diff", cwd=rp).stdout
    open(out + "/patch.diff", "w").write(d)
    open(out + "/demo.sh", "w").write(DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(s["demo"].lstrip())
    shutil.copytree(root + "/env", out + "/env", ignore=shutil.ignore_patterns("__pycache__", *s.get("noenv", [])))
    json.dump({"property": s["property"], "needs": s["needs"],
               "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    a = sh(out + "/demo.sh", cwd="/repo")
    b = sh(out + "/demo.sh", cwd=rp)
    # stable tests in the copy
    shutil.copytree("/opt/vp/support", tmp + "/support")
    f = tmp + "/support/partial_metadetect.py"
    t = open(f).read().replace('"/repo"', repr(rp))
    open(f, "w").write(t)
    t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + rp).replace("/opt/vp/report", tmp + "/report")
    t = t.replace("IGN=()", "IGN=(); export PYTHONPATH=%s/support" % tmp)
    open(tmp + "/test.sh", "w").write(t)
    sh("bash %s/test.sh %s/out.json" % (tmp, tmp))
    try:
        o = json.load(open(tmp + "/out.json"))
        npass = len(o["passed"])
    except Exception:
        npass = -1
    r = sh(root + "/check.sh " + s["property"], env=dict(os.environ, VERIF_REPO=rp))
    cl = [x.strip() for x in r.stdout.splitlines() if "clauses:" in x]
    print(s["id"], s["property"], "demo clean", a.returncode, "patched", b.returncode, "tests", npass,
          "| check:", {0: "MISSED", 1: "caught"}.get(r.returncode, r.returncode), (cl or [""])[0][:120], flush=True)
    if a.returncode != 0:
        print(a.stdout[-600:], a.stderr[-1500:])
    if b.returncode == 0:
        print("  DEMO DOES NOT FAIL", b.stdout[-500:], b.stderr[-300:])
    shutil.rmtree(tmp)
