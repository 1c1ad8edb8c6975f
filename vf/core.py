"""The check framework.

A property module (vf/props/<id>.py) defines

  ID       the property
  TRACE    the trace-validation module of the specification
  MODELS   {"quick": [(module, cfg)], "thorough": [...]} design models to check
  scenarios(ctx)  -> list of scenario dicts (JSON)
  execute(scn)    -> list of records (JSON, integers/strings/lists/dicts only)
  canaries(records, rng) -> corrupted records which the specification must reject

A check runs the models, executes every scenario on the real code, validates the
recorded trace against the specification and reports the clauses of this
property (named "<ID>.<clause>") that some record breaks.
"""
import copy
import importlib
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s-%s" % (prop, seed))
        self.thorough = tier == "thorough"
        self.models = []          # results of check_model

    def emitted(self, kind=None):
        """scenarios the design models printed"""
        res = []
        for m in self.models:
            for s in m["scenarios"]:
                if kind is None or s.get("kind") == kind:
                    res.append(s)
        return res

    def sample(self, items, n):
        items = list(items)
        if len(items) <= n:
            return items
        idx = sorted(self.rng.sample(range(len(items)), n))
        return [items[i] for i in idx]

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick


def setup_paths():
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("NUMBA_CACHE_DIR", "/tmp/vf_numba")
    sys.dont_write_bytecode = True
    for p in (REPO, os.path.join(HERE, "env")):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")


def run_one(mod, scn, sid):
    """execute a scenario; an escaping exception becomes a record"""
    try:
        recs = mod.execute(copy.deepcopy(scn))
    except Exception as e:  # the driver itself did not expect this
        recs = [{"op": "crash", "prop": mod.ID, "etype": type(e).__name__,
                 "msg": str(e)[:200],
                 "tb": traceback.format_exc()[-1500:]}]
    for r in recs:
        r["sid"] = sid
    return recs


def _child(mod, scns, idx, path):
    """executes scenarios in a process of its own, appending to a file"""
    import pickle
    with open(path, "ab") as f:
        for i in idx:
            pickle.dump((i, None), f)
            f.flush()
            pickle.dump((i, run_one(mod, scns[i], i)), f)
            f.flush()
    os._exit(0)


def _read_results(path):
    import pickle
    res, started = {}, None
    with open(path, "rb") as f:
        while True:
            try:
                i, recs = pickle.load(f)
            except Exception:
                break
            if recs is None:
                started = i
            else:
                res[i], started = recs, None
    return res, started


def run_all(mod, scns, workers=1, patience=120):
    """every scenario, in child processes: code which brings the process down or
    never returns is a crash of that scenario and not of the check"""
    import signal
    import tempfile
    shares = [list(range(k, len(scns), workers)) for k in range(workers)]
    results, live, deaths = {}, [], 0

    def start(idx):
        fd, path = tempfile.mkstemp(prefix="vf_run_")
        os.close(fd)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                _child(mod, scns, idx, path)
            finally:
                os._exit(3)
        live.append({"pid": pid, "idx": idx, "path": path, "size": -1, "t": time.time()})
    for sh in shares:
        if sh:
            start(sh)
    while live:
        time.sleep(0.02)
        for w in list(live):
            pid, status = os.waitpid(w["pid"], os.WNOHANG)
            why = None
            if pid == 0:
                size = os.path.getsize(w["path"])
                if size != w["size"]:
                    w["size"], w["t"] = size, time.time()
                if time.time() - w["t"] < patience:
                    continue
                os.kill(w["pid"], signal.SIGKILL)
                os.waitpid(w["pid"], 0)
                why = "no answer within %d s" % patience
            elif status != 0:
                why = "the process ended with status %d" % status
            live.remove(w)
            got, started = _read_results(w["path"])
            os.unlink(w["path"])
            results.update(got)
            rest = [i for i in w["idx"] if i not in got]
            if why is None and rest:
                why = "results are missing"
            if why is not None:
                deaths += 1
                bad = started if started is not None else (rest[0] if rest else None)
                if bad is not None:
                    results[bad] = [{"op": "crash", "prop": mod.ID, "etype": "died", "msg": why,
                                     "tb": why, "sid": bad}]
                    rest = [i for i in rest if i != bad]
                if rest and deaths < 5 and "no answer" not in why:
                    start(rest)
    return [results.get(i, []) for i in range(len(scns))]


def known_findings(prop):
    """(list of known-finding lines, list of fixed lines) of a property"""
    known, path = [], os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                known.append(line[len("known: property=%s " % prop):])
    return known


def run_check(prop, tier, seed):
    from . import tlc
    t0 = time.time()
    setup_paths()
    mod = importlib.import_module("vf.props." + prop.lower())
    ctx = Ctx(prop, tier, seed)
    for spec in mod.MODELS.get(tier, mod.MODELS["quick"]):
        ctx.models.append(tlc.check_model(*spec))
    t1 = time.time()
    scns = mod.scenarios(ctx)
    records, owner = [], []
    for i, recs in enumerate(run_all(mod, scns, ctx.pick(getattr(mod, "WORKERS", 1), 6))):
        for r in recs:
            records.append(r)
            owner.append(i)
    t2 = time.time()
    crash = [i for i, r in enumerate(records) if r.get("op") == "crash"]
    good = [r for r in records if r.get("op") != "crash"]
    good_owner = [o for r, o in zip(records, owner) if r.get("op") != "crash"]
    ncan = 0
    cans = []
    if good:
        cans = mod.canaries(copy.deepcopy(good), random.Random(seed)) or []
        for j, c in enumerate(cans):
            # a canary is one record, or a list of records forming one history
            for r in (c if isinstance(c, list) else [c]):
                r["sid"] = 1000000 + j
        ncan = len(cans)
    flat = list(good)
    for c in cans:
        flat.extend(c if isinstance(c, list) else [c])
    verdicts, tstates, errors = tlc.validate_trace(
        mod.TRACE, flat, timeout=ctx.pick(600, 3000),
        min_chunk=getattr(mod, "CHUNK", 150))
    viol = []       # (record, owner, clauses)
    hit = set()
    relevant = getattr(mod, "CLAUSES", (prop + ".",))
    for idx in sorted(set(verdicts) | set(errors)):
        cl = sorted(c for c in verdicts.get(idx, ()) if c.startswith(relevant))
        if idx in errors:
            cl.append(prop + ".unreadable")
        if not cl:
            continue
        if idx < len(good):
            viol.append((good[idx], good_owner[idx], cl,
                         errors.get(idx, "")))
        else:
            hit.add(flat[idx]["sid"] - 1000000)
    for i in crash:
        viol.append((records[i], owner[i], [prop + ".crash"], records[i]["tb"]))
    # ---- known findings
    known = known_findings(prop)
    fresh = []
    reported = set()
    for v in viol:
        key = getattr(mod, "finding_key", lambda r, c: None)(v[0], v[2])
        if key is not None and key in known:
            if key not in reported:
                print("KNOWN-FINDING: property=%s %s" % (prop, key))
                reported.add(key)
        else:
            fresh.append(v)
    missed = [j for j in range(ncan) if j not in hit]
    n_traces = len(set(good_owner))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["states"] for m in ctx.models) + tstates,
            "transitions": sum(m["transitions"] for m in ctx.models) + len(flat),
            "traces_validated_against_impl": n_traces,
            "design_models": [
                {k: m[k] for k in ("module", "cfg", "states", "transitions")}
                for m in ctx.models],
            "records_validated": len(good),
            "spec_generated_scenarios": sum(len(m["scenarios"]) for m in ctx.models),
            "scenarios_executed": len(scns),
            "canary_records_rejected": ncan - len(missed),
            "canary_records": ncan,
            "samples": [_short(s) for s in scns[:2] + scns[-1:]],
            "timing_s": {"models": round(t1 - t0, 1), "execution": round(t2 - t1, 1),
                         "validation": round(time.time() - t2, 1)},
        },
        "violations": len(fresh),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
    }
    if hasattr(mod, "coverage"):
        ev["coverage"].update(mod.coverage(scns, good))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        seen = set()
        for n, (rec, own, cl, err) in enumerate(fresh):
            if tuple(cl) in seen:
                continue
            seen.add(tuple(cl))
            path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, len(seen)))
            with open(path, "w") as f:
                json.dump({"property": prop, "clauses": cl, "scenario": scns[own],
                           "record": rec, "error": err}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  clauses: %s" % ", ".join(cl))
            if len(seen) >= 5:
                break
        print("%d records of %d break %s" % (len(fresh), len(good), prop))
        return 1
    if missed:
        print("ERROR: the specification accepts corrupted records %s" % [
            {k: v for k, v in (cans[j][-1] if isinstance(cans[j], list) else cans[j]
                               ).items() if k in ("op", "canary")}
            for j in missed[:10]])
        return 2
    if not good:
        print("ERROR: nothing was recorded")
        return 2
    print("OK property=%s: %d scenarios, %d records, %d design states, "
          "%d canaries rejected, %.1fs" % (
              prop, len(scns), len(good),
              sum(m["states"] for m in ctx.models), ncan, time.time() - t0))
    return 0


def _short(s):
    t = json.dumps(s)
    return s if len(t) < 1500 else t[:1500] + "..."


def replay(path):
    """run one recorded scenario again and judge it"""
    from . import tlc
    setup_paths()
    d = json.load(open(path))
    mod = importlib.import_module("vf.props." + d["property"].lower())
    recs = run_one(mod, d["scenario"], 0)
    bad = [r for r in recs if r["op"] == "crash"]
    good = [r for r in recs if r["op"] != "crash"]
    verdicts, _, errors = tlc.validate_trace(mod.TRACE, good) if good else ({}, 0, {})
    for r in bad:
        print(r["tb"])
    for i, r in enumerate(good):
        print(json.dumps(r)[:2000])
        print("  ->", sorted(verdicts.get(i, ())), errors.get(i, ""))
    return 1 if bad or verdicts or errors else 0


def main(argv):
    if argv and argv[0] == "replay":
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run_check(prop, tier, seed)
