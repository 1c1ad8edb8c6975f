"""M11: runs depend on nothing but what they are given (specification module Session)."""
import copy
from .. import drv_sess

ID, TRACE = "M11", "Trace_Session"
MODELS = {"quick": [("MC_Session", "MC_Session_quick.cfg")],
          "thorough": [("MC_Session", "MC_Session_thorough.cfg")]}
ASSUMPTIONS = ["the measurement library draws from the generators it is handed (and from the process-wide one "
               "if handed none) wherever the real one does",
               "a run started from a colour function uses other images and another generator",
               "one thread"]
WORKERS = 3
execute = drv_sess.execute


def scenarios(ctx):
    every = ctx.emitted("session")
    nested = [s for s in every if any(x[0] == "nested" for x in s["steps"])]
    plain = [s for s in every if not any(x[0] == "nested" for x in s["steps"])]
    sk = ctx.sample(nested, ctx.pick(40, 600)) + ctx.sample(plain, ctx.pick(60, 900))
    return [drv_sess.gen(ctx.rng, s) for s in sk]


def _histories(records):
    out = []
    for r in records:
        if r["op"] == "begin":
            out.append([])
        out[-1].append(r)
    return out


def canaries(records, rng):
    out = []
    hs = _histories(records)
    rng.shuffle(hs)
    for h in hs[:12]:
        for how in ("dig", "end", "out", "raised", "inputs", "glob", "gens", "held", "read"):
            c = copy.deepcopy(h)
            go = [r for r in c if r["op"] == "go"]
            r = rng.choice(go)
            if how == "dig":
                if not r["dig"]:
                    continue
                r["dig"][0] += "x"
            elif how == "raised":
                r["raised"] = 1
            elif how in ("end", "out"):
                r[how] += "x"
            elif how in ("inputs", "glob"):
                if how == "glob":
                    r["st"]["glob"] += "x"
                else:
                    k = rng.choice(sorted(r["st"]["inputs"]))
                    r["st"]["inputs"][k] += "x"
            elif how == "gens":
                # a generator that no active run was given
                c2 = [x for x in c if x["op"] in ("read",)]
                if not c2:
                    continue
                c2[0]["st"]["gens"]["g1"] += "x"
            elif how == "held":
                late = [x for x in c if x.get("st", {}).get("held") and x["op"] in ("new", "read")]
                if not late:
                    continue
                k = sorted(late[-1]["st"]["held"])[0]
                late[-1]["st"]["held"][k] = ["x"]
            else:
                late = [x for x in c if x["op"] == "read"]
                if not late:
                    continue
                late[0]["out"] = "none" if late[0]["out"] != "none" else "dict"
            c[0]["canary"] = c[-1]["canary"] = how
            out.append(c)
    return out
