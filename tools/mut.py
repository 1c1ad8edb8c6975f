"""mut.py <file of mutants>: run checks against mutated scratch copies of /repo.

The file is Python: MUTANTS = [(path, old, new, "P1 P2"), ...]; each mutant is
applied to a copy under /tmp and the named checks run with VERIF_REPO set."""
import os, runpy, shutil, subprocess, sys, tempfile
m = runpy.run_path(sys.argv[1])["MUTANTS"]
only = [int(x) for x in sys.argv[2:]]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i, (path, old, new, props) in enumerate(m):
    if only and i not in only:
        continue
    d = tempfile.mkdtemp(prefix="vf_mut_")
    shutil.copytree("/repo/metadetect", d + "/metadetect")
    f = d + "/" + path
    s = open(f).read()
    if old not in s:
        print(i, "NOT APPLICABLE", repr(old)[:80]); shutil.rmtree(d); continue
    open(f, "w").write(s.replace(old, new, 1))
    out = []
    for p in props.split():
        r = subprocess.run([root + "/check.sh", p], env=dict(os.environ, VERIF_REPO=d),
                           capture_output=True, text=True)
        t = r.stdout + r.stderr
        cl = [x.strip() for x in t.splitlines() if "clauses:" in x]
        out.append("%s:%s %s" % (p, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc%d" % r.returncode),
                                 (cl[0][:90] if cl else t[-200:] if r.returncode not in (0, 1) else "")))
    print(i, repr(new.strip())[:70], "->", " | ".join(out), flush=True)
    shutil.rmtree(d)
