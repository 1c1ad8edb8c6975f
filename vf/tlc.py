"""Running TLC: exhaustive checks of the design, and validation of traces."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def _start(module, cfg, env=None, workers="1", heap="3g", extra=(), dump=None):
    meta = tempfile.mkdtemp(prefix="vf_tlc_")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-XX:TieredStopAtLevel=4", "-XX:ActiveProcessorCount=%s" % (
               2 if workers == "1" else 8),
           "-cp", JAR + ":" + DEPS, "tlc2.TLC", "-config", cfg,
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-checkpoint", "0"]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = ""
    out = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=out,
                         stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    return p, out, meta


def _finish(started, timeout):
    p, out, meta = started
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise TLCError("TLC timed out after %ss" % timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out.seek(0)
    text = out.read().decode("utf8", "replace")
    out.close()
    return p.returncode, text


def _counts(text):
    m = None
    for m in re.finditer(
            r"([\d,]+) states generated, ([\d,]+) distinct states found", text):
        pass
    if m is None:
        return 0, 0
    return tuple(int(g.replace(",", "")) for g in m.groups())


def _json_lines(text, tag):
    """lines printed by PrintT(tag \\o ToJson(..)); TLC quotes the string"""
    res = []
    for line in text.splitlines():
        if line.startswith('"' + tag + " "):
            body = json.loads(line)
        elif line.startswith(tag + " "):
            body = line
        else:
            continue
        res.append(json.loads(body[len(tag) + 1:]))
    return res


def check_model(module, cfg=None, workers="auto", timeout=600, heap="6g",
                extra=(), env=None):
    """exhaustive check; returns dict with counts and emitted scenarios"""
    t0 = time.time()
    cfg = cfg or module + ".cfg"
    rc, text = _finish(_start(module, cfg, workers=workers, heap=heap,
                              extra=extra, env=env), timeout)
    gen, dist = _counts(text)
    if "Model checking completed. No error has been found." not in text:
        raise TLCError("model %s/%s: rc=%s\n%s" % (
            module, cfg, rc, _tail(text)))
    scn = {}
    for s in _json_lines(text, "SCN"):
        scn[json.dumps(s, sort_keys=True)] = s
    return {"module": module, "cfg": cfg, "states": dist, "transitions": gen,
            "scenarios": [scn[k] for k in sorted(scn)],
            "wall_s": time.time() - t0, "text": text}


def _tail(text, n=60):
    lines = [x for x in text.splitlines() if not x.startswith('"SCN')]
    return "\n".join(lines[-n:])


def _validate_chunk(module, cfg, records, offset, timeout, started=None):
    """returns {line index: [clauses]}, states; handles evaluation errors"""
    verdicts, states, errors = {}, 0, {}
    start = 0
    while start < len(records):
        if started is None:
            started = _launch(module, cfg, records[start:])
        handle, path = started
        started = None
        try:
            rc, text = _finish(handle, timeout)
        finally:
            os.unlink(path)
        gen, dist = _counts(text)
        states += dist
        for v in _json_lines(text, "VERDICT"):
            verdicts.setdefault(offset + start + v["line"] - 1, set()).update(
                v["clauses"])
        if "Model checking completed. No error has been found." in text:
            break
        # an evaluation error: the record at the current line has a shape the
        # specification cannot even read
        where = re.findall(r"\bl = (\d+)", text)
        if "Parsing or semantic analysis failed" in text or not where:
            raise TLCError("trace %s: rc=%s\n%s" % (module, rc, _tail(text)))
        cur = int(where[-1])
        errors[offset + start + cur - 1] = _tail(text, 30)
        start += cur
        # the rest of this history cannot be judged
        while (start < len(records) and "sid" in records[start]
               and records[start]["sid"] == records[start - 1].get("sid")):
            start += 1
        if len(errors) > 20:
            break
    return verdicts, states, errors


def _launch(module, cfg, records):
    fd, path = tempfile.mkstemp(prefix="vf_trace_", suffix=".ndjson")
    with os.fdopen(fd, "w") as f:
        for r in records:
            f.write(json.dumps(r) + "\n")
    return _start(module, cfg, env={"TRACE": path}), path


def validate_trace(module, records, cfg=None, timeout=600, nproc=6,
                   min_chunk=150):
    """validate records against Trace module; chunks are cut at 'sid' changes"""
    from concurrent.futures import ThreadPoolExecutor
    cfg = cfg or module + ".cfg"
    n = len(records)
    k = max(1, min(nproc, n // min_chunk))
    cuts = [0]
    for i in range(1, k):
        c = max(cuts[-1], n * i // k)
        while c < n and c > 0 and records[c].get("sid") == records[c - 1].get("sid"):
            c += 1
        if c > cuts[-1]:
            cuts.append(c)
    cuts.append(n)
    jobs = [(a, records[a:b]) for a, b in zip(cuts, cuts[1:]) if b > a]
    verdicts, states, errors = {}, 0, {}
    with ThreadPoolExecutor(max_workers=max(1, len(jobs))) as ex:
        futs = [ex.submit(_validate_chunk, module, cfg, rs, a, timeout)
                for a, rs in jobs]
        for f in futs:
            v, s, e = f.result()
            verdicts.update(v)
            errors.update(e)
            states += s
    return verdicts, states, errors
