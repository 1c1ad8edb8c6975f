"""automut.py <file under metadetect/> "<checks>" [-n N] [-j J] [-s SEED]: small syntactic
changes of one source file, one at a time; prints those no named check reports.

Runs from a scratch copy of /verif whose model checking results are kept between runs."""
import argparse, ast, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("checks")
ap.add_argument("-n", type=int, default=10**6); ap.add_argument("-j", type=int, default=3)
ap.add_argument("-s", type=int, default=1); ap.add_argument("--only", default="")
a = ap.parse_args()
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open("/repo/metadetect/" + a.file).read()
lines = src.split("\n")
off = [0]
for l in lines:
    off.append(off[-1] + len(l.encode()) + 1)
raw = src.encode()
tree = ast.parse(src)


def span(n):
    return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset


def text(n):
    s, e = span(n)
    return raw[s:e].decode()


CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.BitOr: "&", ast.BitAnd: "|",
       ast.Mod: "+", ast.Pow: "*"}
muts = []


def add(n, new, why):
    s, e = span(n)
    old = raw[s:e].decode()
    if new != old:
        muts.append((s, e, new, n.lineno, why, old))


skip = re.compile(r"\b(LOG|logger|log|warnings|vis)\.|^\s*(import|from)\b")


def visit(n, infn):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        if isinstance(n, ast.FunctionDef):
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
                visit(d, True)
        for b in body:
            visit(b, True)
        return
    if hasattr(n, "lineno") and isinstance(n, ast.stmt) and skip.search(lines[n.lineno - 1]):
        return
    if isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
        return
    if isinstance(n, ast.JoinedStr):
        return
    if isinstance(n, ast.Compare):
        for op, l, r in zip(n.ops, [n.left] + n.comparators, n.comparators):
            s, e = span(l)[1], span(r)[0]
            for k in CMP.get(type(op), []):
                muts.append((s, e, " " + k + " ", n.lineno, "cmp", text(n)))
    if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or \
       isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(getattr(n.left, "value", 0), str):
        s, e = span(n.left)[1], span(n.right)[0]
        t = raw[s:e].decode()
        m = re.search(r"(\*\*|//|[-+*/|&%])", t)
        if m:
            muts.append((s + m.start(), s + m.end(), BIN[type(n.op)], n.lineno, "bin", text(n)))
    if isinstance(n, ast.BoolOp):
        s, e = span(n.values[0])[1], span(n.values[1])[0]
        t = raw[s:e].decode()
        o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
        muts.append((s, e, t.replace(o, w, 1), n.lineno, "bool", text(n)))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        add(n, "(" + text(n.operand) + ")", "not")
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        add(n, "(" + text(n.operand) + ")", "neg")
    if isinstance(n, ast.Constant):
        if n.value is True or n.value is False:
            add(n, str(not n.value), "bool")
        elif isinstance(n.value, int):
            add(n, str(n.value + 1), "const")
            if n.value > 0:
                add(n, str(n.value - 1), "const")
        elif isinstance(n.value, float):
            add(n, repr(n.value * 1.25 + (0.1 if n.value == 0 else 0)), "const")
        return
    if isinstance(n, (ast.If, ast.While, ast.IfExp)):
        add(n.test, "(not (" + text(n.test) + "))", "test")
    if isinstance(n, ast.AugAssign):
        t = text(n)
        muts.append((*span(n), re.sub(r"(\*\*|//|[-+*/|&])=", "=", t, count=1), n.lineno, "aug", t))
        add(n, "pass", "drop")
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
        add(n, "pass", "drop")
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        add(n, "pass", "drop")
    if isinstance(n, ast.Continue):
        add(n, "break", "cont"); add(n, "pass", "cont")
    if isinstance(n, ast.Break):
        add(n, "continue", "cont")
    if isinstance(n, ast.Call):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy") and not n.args:
            add(n, text(n.func.value), "copy")
        if text(n.func).endswith("copy") and len(n.args) == 1:
            add(n, text(n.args[0]), "copy")
        if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            s, e = span(n.args[0])[0], span(n.args[1])[1]
            muts.append((s, e, text(n.args[1]) + ", " + text(n.args[0]), n.lineno, "swap", text(n)))
        for i, k in enumerate(n.keywords):
            if k.arg and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                s = off[k.lineno - 1] + k.col_offset
                e = off[k.end_lineno - 1] + k.end_col_offset
                t = raw[e:].decode()
                m = re.match(r"\s*,", t)
                muts.append((s, e + (m.end() if m else 0), "", n.lineno, "kwdrop " + k.arg, text(n)))
        names = {"median": "mean", "max": "min", "min": "max", "maximum": "minimum", "any": "all", "all": "any",
                 "floor": "ceil", "ceil": "floor", "zeros": "ones", "isfinite": "isnan"}
        if isinstance(n.func, ast.Attribute) and n.func.attr in names:
            s, e = span(n.func)
            muts.append((e - len(n.func.attr), e, names[n.func.attr], n.lineno, "fn", text(n)))
    if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
        add(n.value, "None", "ret")
    if isinstance(n, ast.For):
        add(n.iter, "list(" + text(n.iter) + ")[1:]", "iter")
        add(n.iter, "list(" + text(n.iter) + ")[:-1]", "iter")
    for c in ast.iter_child_nodes(n):
        visit(c, infn)


for n in tree.body:
    visit(n, False)
# only mutants that compile, each text once
seen, good = set(), []
for m in muts:
    t = (raw[:m[0]] + m[2].encode() + raw[m[1]:])
    if t in seen:
        continue
    seen.add(t)
    try:
        compile(t.decode(), "x", "exec")
    except SyntaxError:
        continue
    good.append((m, t))
random.Random(a.s).shuffle(good)
good = good[:a.n]
good.sort(key=lambda g: g[0][3])
if a.only:
    ids = {int(x) for x in a.only.split(",")}
    good = [g for i, g in enumerate(good) if i in ids]
work = tempfile.mkdtemp(prefix="vf_am_")
shutil.copytree(root, work + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "replays", "evidence"))
f = work + "/verif/vf/tlc.py"
t = open(f).read()
t += '''

_check_model = check_model


def check_model(module, cfg=None, **kw):
    import pickle, fcntl
    p = HERE + "/.cache_%s_%s" % (module, cfg)
    with open(p + ".lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(p):
            r = _check_model(module, cfg, **kw)
            r["text"] = ""
            pickle.dump(r, open(p, "wb"))
    return pickle.load(open(p, "rb"))
'''
open(f, "w").write(t)
print(a.file, len(good), "mutants", flush=True)


def one(args):
    i, (m, t) = args
    d = tempfile.mkdtemp(prefix="vf_am_", dir=work)
    shutil.copytree("/repo/metadetect", d + "/metadetect", ignore=shutil.ignore_patterns("__pycache__", "tests"))
    open(d + "/metadetect/" + a.file, "wb").write(t)
    by = ""
    for c in a.checks.split():
        r = subprocess.run([work + "/verif/check.sh", c], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        if r.returncode == 1:
            by = c; print(i, r.returncode, r.stdout[-200:]) if os.environ.get("AMV") else 0
            break
        if r.returncode != 0:
            by = c + ":rc%d" % r.returncode
            break
    shutil.rmtree(d)
    return i, m, by


alive = 0
with ThreadPoolExecutor(a.j) as ex:
    for i, m, by in ex.map(one, enumerate(good)):
        if not by or "rc" in by:
            alive += 1
            new = raw[off[m[3] - 1]:m[0]].decode() + m[2]
            print("%d L%d %s: %s  ==> %s %s" % (i, m[3], m[4], re.sub(r"\s+", " ", m[5])[:110],
                                             re.sub(r"\s+", " ", m[2])[:60], by), flush=True)
print(a.file, "survivors", alive, "of", len(good))
shutil.rmtree(work)
