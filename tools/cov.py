"""cov.py [PROP ...]: which lines of metadetect the scenarios of the checks execute (not a check)."""
import importlib, os, random, sys, glob
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import coverage
from vf import core, tlc
props = sys.argv[1:] or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob("vf/props/[a-z][0-9]*.py"))
cov = coverage.Coverage(data_file=None, include=[os.path.join(core.REPO, "metadetect", "*")], branch=True)
cov.start()
core.setup_paths()
for p in props:
    mod = importlib.import_module("vf.props." + p.lower())
    ctx = core.Ctx(p, "quick", 1)
    for spec in mod.MODELS["quick"]:
        ctx.models.append(tlc.check_model(*spec))
    scns = mod.scenarios(ctx)
    for i in random.Random(1).sample(range(len(scns)), min(len(scns), 250)):
        core.run_one(mod, scns[i], i)
    print(p, flush=True)
cov.stop()
cov.report(show_missing=True, omit=["*/tests/*"])
