"""dbg.py <replay.json>: every clause (of any property) a replayed scenario breaks"""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, tlc
core.setup_paths()
import importlib
d = json.load(open(sys.argv[1]))
mod = importlib.import_module("vf.props." + d["property"].lower())
recs = core.run_one(mod, d["scenario"], 0)
v, _, e = tlc.validate_trace(mod.TRACE, [r for r in recs if r["op"] != "crash"])
for i, r in enumerate(recs):
    t = json.dumps(r)
    print(t[:int(sys.argv[2]) if len(sys.argv) > 2 else 1500])
    print("   ->", sorted(v.get(i, ())), e.get(i, "")[-1500:])
