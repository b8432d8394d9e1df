"""benign.py SPEC.py [ID...]: apply behaviour-preserving edits to copies of /repo and run checks, which must stay quiet.
A spec defines BENIGN = [dict(id, checks, edits=[(file, old, new)...])]; old may occur several times (all are replaced)."""
import sys, os, subprocess, shutil, tempfile, time
spec, want = sys.argv[1], sys.argv[2:]
workers = os.environ.get("WORKERS", "4")
ns = {}
exec(open(spec).read(), ns)
for b in ns["BENIGN"]:
    if want and b["id"] not in want:
        continue
    t = tempfile.mkdtemp(prefix="benign.")
    try:
        subprocess.check_call("cp -a /repo %s/repo" % t, shell=True)
        for fn, old, new in b["edits"]:
            p = os.path.join(t, "repo", fn)
            s = open(p).read()
            if old not in s:
                sys.exit("%s: no %r in %s" % (b["id"], old, fn))
            open(p, "w").write(s.replace(old, new))
        for c in b["checks"]:
            t0 = time.time()
            r = subprocess.run(["unshare", "-m", "sh", "-c", "mount --bind %s/repo /repo; cd /verif && exec timeout 900 ./check %s --no-evidence --workers %s" % (t, c, workers)],
                               capture_output=True, text=True)
            print("%-24s %s rc=%d %ds" % (b["id"], c, r.returncode, time.time() - t0), "" if r.returncode == 0 else "  <<<<\n" + (r.stdout + r.stderr)[-1500:], flush=True)
    finally:
        shutil.rmtree(t)
