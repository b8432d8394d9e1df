"""mkbug.py SPEC.py...: make seeded/<id>/ from a spec: ID, PROP, FILE, EDITS [(old, new)...], NEEDS, BREAKS, DEMO (python), NP, [SH]"""
import sys, os, subprocess, json, shutil, tempfile
ROOT = "/verif/seeded"
RUN = """#!/bin/bash
# exit 0: behaves as specified
D=$(cd "$(dirname "$0")" && pwd)
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_plm=isolated
export OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_hwloc_base_binding_policy=none OMP_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/python
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T
cd "$T" || exit 2
timeout -k 5 %(timeout)d %(cmd)s
"""
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    bugs = ns["BUGS"]
    for b in bugs:
        d = os.path.join(ROOT, b["id"])
        t = tempfile.mkdtemp(prefix="mkbug.")
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A -f . >/dev/null && git -c user.email=a -c user.name=a commit -qm x" % (t, t), shell=True)
        for fn, old, new in b["edits"]:
            p = os.path.join(t, fn)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                sys.exit("%s: %d occurrences of %r in %s" % (b["id"], n, old, fn))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t, "diff"], text=True)
        shutil.rmtree(t)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        if "sh" in b:
            open(d + "/demo.sh", "w").write(b["sh"])
        else:
            np_ = b.get("np")
            cmd = "/opt/venv/bin/python \"$D/demo.py\""
            if np_ and b.get("after"):
                cmd = "mpirun --oversubscribe -n %d %s; %s" % (np_, cmd, b["after"])
            elif np_:
                cmd = "mpirun --oversubscribe -n %d %s && [ -e finished ]" % (np_, cmd)
            open(d + "/demo.sh", "w").write(RUN % dict(cmd=cmd, timeout=b.get("timeout", 90)))
            open(d + "/demo.py", "w").write(b["demo"])
        print("made", b["id"])
