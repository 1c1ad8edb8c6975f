"""Writes MANIFEST.json from the properties that have a check module."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("TLC checks the design model exhaustively within the constants of its cfg; the code is bound to it by "
        "validating records of real executions (scenarios the model emits plus seeded random ones) with TLC. "
        "Exhaustive only up to those scenarios. Trusts TLC, the stand-ins in /verif/env for ngmix, sxdes, meds "
        "and the Rubin stack (absent here), and the projection of floats to fixed point.")
checks, na = [], []
for p in props:
    f = os.path.join(HERE, "vf", "props", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    src = open(f).read()
    m = re.search(r'^TRACE = "(\w+)"', src, re.M)
    mods = sorted(set(re.findall(r'"(MC_\w+?)"', src)))
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "technique": "TLA+ model (%s) checked with TLC; trace validation of real executions against %s" % (
            ", ".join(mods), m.group(1) if m else "?"),
        "level": "model_checking",
        "level_note": NOTE})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+/TLC. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
