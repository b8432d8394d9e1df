"""fmutate.py FILE [--runs N --jobs J --sample K --seed S --out F --list]: small changes to one file of the Fortran HDF5 wrapper, each run against C20; survivors are listed."""
import argparse, os, random, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("--checks", default="C20")
ap.add_argument("--runs", type=int, default=500); ap.add_argument("--seconds", type=int, default=40); ap.add_argument("--jobs", type=int, default=4); ap.add_argument("--workers", type=int, default=2)
ap.add_argument("--sample", type=int); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--list", action="store_true"); ap.add_argument("--out")
A = ap.parse_args()
SRC = open("/repo/" + A.file).read()
L = SRC.split("\n")
SWAP = [(r"\.gt\.", ".ge."), (r"\.ge\.", ".gt."), (r"\.lt\.", ".le."), (r"\.le\.", ".lt."), (r"\.eq\.", ".ne."), (r"\.ne\.", ".eq."), (r"\.and\.", ".or."), (r"\.or\.", ".and."),
        (r"\.true\.", ".false."), (r"\.false\.", ".true."), (r"(?<=[\w)])\s*\+\s*(?=[\w(])", "-"), (r"(?<=[\w)])\s*-\s*(?=[\w(])", "+"), (r"\.not\.", " "), (r"(?<![\w'.])\d+(?![\w'.])", None),
        (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"H5F_ACC_RDWR_F", "H5F_ACC_RDONLY_F"), (r"H5F_ACC_TRUNC_F", "H5F_ACC_EXCL_F"), (r"==", "!="), (r"!=", "=="), (r"<(?=[^=])", "<=")]
muts = []
i = 0
while i < len(L):
    j = i
    while L[j].split("!")[0].rstrip().endswith("&") and j + 1 < len(L):
        j += 1
    st = "\n".join(L[i:j + 1])
    s = st.strip()
    low = s.lower()
    if s and not s.startswith(("!", "#", "//", "/*", "*")) and "::" not in s and not low.startswith(("use ", "implicit", "subroutine", "end", "module", "integer", "real", "character", "logical", "private", "public", "interface", "include", "contains")) and "write(*" not in low:
        code = re.sub(r"'[^'\n]*'|\"[^\"\n]*\"", lambda m: "\x00" * len(m.group()), st)
        for pat, new in SWAP:
            for m in re.finditer(pat, code, re.I):
                n = new if new is not None else str(int(m.group()) + 1)
                muts.append((i, j, st[:m.start()] + n + st[m.end():], "swap"))
        if re.match(r"(call\b|[\w%]+(\([^=]*\))?\s*=[^=]|if\s*\(.*\)\s*(call|[\w%]+(\(.*?\))?\s*=))", low, re.S) and not low.rstrip().endswith("then"):
            muts.append((i, j, re.match(r"\s*", st).group() + ("" if A.file.endswith(".c") else "continue"), "del"))
        if low.startswith("if") and low.endswith("then"):
            k = st.lower().index("if"); a = st.index("(", k); b = st.rindex(")")
            muts.append((i, j, st[:a] + "(.not.(" + st[a + 1:b] + "))" + st[b + 1:], "neg"))
            muts.append((i, j, st[:a] + "(.false..and.(" + st[a + 1:b] + "))" + st[b + 1:], "never"))
    i = j + 1
if A.sample and len(muts) > A.sample:
    random.Random(A.seed).shuffle(muts); muts = sorted(muts[:A.sample])
print(len(muts), "mutants", flush=True)
def flat(s): return " ".join(s.replace("&", " ").split())[:130]
def show(m): return "line %d [%s] %s  ->  %s" % (m[0] + 1, m[3], flat("\n".join(L[m[0]:m[1] + 1])), flat(m[2]))
if A.list:
    for m in muts: print(show(m))
    sys.exit()
def one(m):
    t = tempfile.mkdtemp(prefix="fmut.", dir="/dev/shm")
    try:
        for d in ("python", "consistency_check", "fortran"):
            shutil.copytree("/repo/" + d, t + "/" + d, ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
        open(t + "/" + A.file, "w").write("\n".join(L[:m[0]] + [m[2]] + L[m[1] + 1:]))
        e = dict(os.environ, VIRGODC_REPO=t, VERIF_MINIMISE_S="0")
        for c in A.checks.split(","):
            try:
                r = subprocess.run(["/verif/check", c, "--runs", str(A.runs), "--seconds", str(A.seconds), "--workers", str(A.workers), "--no-evidence"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                return m, "TIMEOUT"
            if r.returncode == 1: return m, c
            if r.returncode:
                return m, "nobuild" if "rror" in r.stdout and ("make" in r.stdout or "gfortran" in r.stdout) else "HARNESS " + r.stdout[-200:].replace("\n", " | ")
        return m, None
    finally:
        shutil.rmtree(t, ignore_errors=True)
f = open(A.out, "w") if A.out else sys.stdout
n = surv = nb = 0
with cf.ThreadPoolExecutor(A.jobs) as ex:
    for m, r in ex.map(one, muts):
        n += 1
        if r == "nobuild": nb += 1
        elif r is None or not r.startswith("C"):
            surv += 1
            print(show(m), "==", r or "SURVIVED", file=f, flush=True)
print("%d mutants, %d did not build, %d not caught" % (n, nb, surv), file=f, flush=True)
