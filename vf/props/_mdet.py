"""What the pipeline properties share."""
import copy
from .. import drv_mdet

MODELS = {"quick": [("MC_Pipeline", "MC_Pipeline_quick.cfg")],
          "thorough": [("MC_Pipeline", "MC_Pipeline_thorough.cfg")]}
ASSUMPTIONS = [
    "the environment (PSF fits, metacal, detector, moments) answers as scripted; see env/",
    "objects are isolated single pixels; images up to 15x15, up to 4 bands, pixel scale 1",
    "no stamp is entirely without weight in some band"]


def histories(records):
    out, cur = [], []
    for r in records:
        cur.append(r)
        if r["op"] in ("end", "api", "mf"):
            out.append(cur)
            cur = []
    return out


def row_canaries(records, rng, edits, n=6):
    """histories in which one row of the result is edited; edits: name -> f(row)->bool"""
    out = []
    hs = [h for h in histories(records)
          if h[-1]["op"] == "end" and any(len(v) for v in h[-1]["rows"].values())]
    rng.shuffle(hs)
    for name, f in edits.items():
        done = 0
        for h in hs:
            if done >= n:
                break
            h2 = copy.deepcopy(h)
            for t, rows in h2[-1]["rows"].items():
                if rows and f(rng.choice(rows)):
                    for r in h2:
                        r["canary"] = name
                    out.append(h2)
                    done += 1
                    break
    return out
