"""mutate.py FILE CHECKS [--runs N] [--jobs J] [--sample K] [--seed S] [--lines A-B]: small changes to FILE (relative to /repo), each run against the CHECKS (comma separated)
until one reports a violation. Survivors are listed; what they mean is for a person to judge."""
import argparse, ast, os, random, shutil, subprocess, sys, tempfile, concurrent.futures as cf
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("checks")
ap.add_argument("--runs", type=int, default=600); ap.add_argument("--seconds", type=int, default=40); ap.add_argument("--jobs", type=int, default=4); ap.add_argument("--workers", type=int, default=2)
ap.add_argument("--sample", type=int); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--lines"); ap.add_argument("--list", action="store_true"); ap.add_argument("--out"); ap.add_argument("--only", help="output of an earlier run: only what it did not catch")
A = ap.parse_args()
SRC = open("/repo/" + A.file).read()
tree = ast.parse(SRC)
lines = SRC.split("\n")
offs = [0]
for l in lines:
    offs.append(offs[-1] + len(l.encode()) + 1)
B = SRC.encode()
def span(n): return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
def text(n): a, b = span(n); return B[a:b].decode()
muts = []
def rep(n, new, what):
    a, b = span(n)
    muts.append((n.lineno, a, b, new, what))
CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "*", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&"}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "zeros": "ones", "ones": "zeros", "argmin": "argmax", "append": "extend", "int64": "int32", "logical_and": "logical_or", "logical_or": "logical_and"}
skip = set()
for n in ast.walk(tree):
    if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
        skip.add(id(n.body[0].value)); skip.add(id(n.body[0]))
for n in ast.walk(tree):
    if id(n) in skip: continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []):
            rep(n, "(%s %s %s)" % (text(n.left), o, text(n.comparators[0])), "cmp")
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
        rep(n, "(%s %s %s)" % (text(n.left), BIN[type(n.op)], text(n.right)), "bin")
    elif isinstance(n, ast.BoolOp):
        o = " or " if isinstance(n.op, ast.And) else " and "
        rep(n, "(" + o.join(text(v) for v in n.values) + ")", "bool")
        if len(n.values) == 2:
            rep(n, text(n.values[0]), "drop"); rep(n, text(n.values[1]), "drop")
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
        rep(n, "(%s)" % text(n.operand), "unary")
    elif isinstance(n, ast.Constant) and isinstance(n.value, (int, bool)) and n.value is not None:
        if isinstance(n.value, bool): rep(n, str(not n.value), "const")
        else:
            rep(n, str(n.value + 1), "const")
    elif isinstance(n, (ast.If, ast.While)):
        rep(n.test, "(not (%s))" % text(n.test), "if")
        if isinstance(n, ast.If): rep(n.test, "(True or (%s))" % text(n.test).replace("\n", " "), "iftrue"); rep(n.test, "(False and (%s))" % text(n.test).replace("\n", " "), "iffalse")
    elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute))):
        rep(n, "pass", "del")
    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
        pass
    elif isinstance(n, ast.Attribute) and n.attr in NAMES:
        rep(n, text(n.value) + "." + NAMES[n.attr], "name")
    elif isinstance(n, ast.Name) and n.id in NAMES:
        rep(n, NAMES[n.id], "name")
    if isinstance(n, ast.Call):
        for k in n.keywords:
            if k.arg and len(n.args) + len(n.keywords) > 1:
                args = [text(a) for a in n.args] + ["%s=%s" % (q.arg, text(q.value)) if q.arg else "**" + text(q.value) for q in n.keywords if q is not k]
                rep(n, "%s(%s)" % (text(n.func), ", ".join(args)), "kwdrop")
        if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            rep(n, "%s(%s, %s)" % (text(n.func), text(n.args[1]), text(n.args[0])), "argswap")
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype", "strip", "flush") :
            rep(n, text(n.func.value), "calldrop")
    if isinstance(n, ast.Try):
        for h in n.handlers:
            if h.type is not None: rep(h.type, "ZeroDivisionError", "except")
muts = sorted(set(muts))
if A.lines:
    a, b = map(int, A.lines.split("-")); muts = [m for m in muts if a <= m[0] <= b]
ok = []
for m in muts:
    s = (B[:m[1]] + m[3].encode() + B[m[2]:]).decode()
    try: compile(s, "x", "exec")
    except SyntaxError: continue
    ok.append((m, s))
if A.sample and len(ok) > A.sample:
    random.Random(A.seed).shuffle(ok); ok = sorted(ok[:A.sample])
print(len(ok), "mutants", flush=True)
def show(m): return "line %d [%s] %s  ->  %s" % (m[0], m[4], B[m[1]:m[2]].decode().replace("\n", " ")[:110], m[3].replace("\n", " ")[:110])
if A.only:
    prev = set(l.rsplit(" == ", 1)[0] for l in open(A.only))
    ok = [x for x in ok if show(x[0]) in prev]
    print(len(ok), "left", flush=True)
if A.list:
    for m, s in ok: print(show(m))
    sys.exit()
def one(x):
    m, s = x
    t = tempfile.mkdtemp(prefix="mut.", dir="/dev/shm")
    try:
        for d in ("python", "consistency_check"):
            shutil.copytree("/repo/" + d, t + "/" + d, ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
        open(t + "/" + A.file, "w").write(s)
        e = dict(os.environ, VIRGODC_REPO=t, VERIF_MINIMISE_S="0")
        for c in A.checks.split(","):
            try:
                r = subprocess.run(["/verif/check", c, "--runs", str(A.runs), "--seconds", str(A.seconds), "--workers", str(A.workers), "--no-evidence"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                return m, "TIMEOUT " + c
            if r.returncode == 1: return m, c
            if r.returncode: return m, "HARNESS " + c + " " + r.stdout.strip().split("\n")[-2][-150:] if "\n" in r.stdout.strip() else r.stdout
        return m, None
    finally:
        shutil.rmtree(t, ignore_errors=True)
f = open(A.out, "w") if A.out else sys.stdout
n = surv = 0
with cf.ThreadPoolExecutor(A.jobs) as ex:
    for m, r in ex.map(one, ok):
        n += 1
        if r is None or not r.startswith("C"):
            surv += 1
            print(show(m), "==", r or "SURVIVED", file=f, flush=True)
print("%d mutants, %d not caught" % (n, surv), file=f, flush=True)
