"""Which lines of the Python code of /repo the checks execute: cover.py OUTDIR PROP RUNS; cover.py OUTDIR report"""
import glob
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VIRGODC_REPO", "/repo")
HITS = set()


def start():
    m = sys.monitoring
    m.use_tool_id(m.COVERAGE_ID, "cover")

    def line(code, no):
        if code.co_filename.startswith(REPO):
            HITS.add((code.co_filename[len(REPO) + 1:], no))
        return m.DISABLE
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def lines_of(code):
    res = {l for _, _, l in code.co_lines() if l and l != code.co_firstlineno}
    for c in code.co_consts:
        if hasattr(c, "co_lines"):
            res |= lines_of(c)
    return res


def report(out):
    hits = {}
    for f in glob.glob(out + "/*.json"):
        try:
            found = json.load(open(f))
        except ValueError:              # a run that was stopped while it wrote
            continue
        for name, no in found:
            hits.setdefault(name, set()).add(no)
    for name in sorted(hits):
        src = open(os.path.join(REPO, name)).read()
        want = lines_of(compile(src, name, "exec"))
        lost = sorted(want - hits[name])
        print("%s: %d of %d lines" % (name, len(want) - len(lost), len(want)))
        text = src.split("\n")
        for no in lost:
            print("   %4d %s" % (no, text[no - 1].strip()[:110]))


if sys.argv[2] == "report":
    report(sys.argv[1])
    sys.exit()
out, prop, runs = sys.argv[1:4]
os.makedirs(out, exist_ok=True)
real_exit = os._exit


def leave(code):
    try:
        with open("%s/%s.%d.json" % (out, prop, os.getpid()), "w") as f:
            json.dump(sorted(HITS), f)
    finally:
        real_exit(code)


os._exit = leave
start()
import importlib
from dst import harness
sys.argv = ["check", prop, "--no-evidence", "--runs", runs, "--workers", "3", "--seconds", "100"]
sys.exit(harness.main(importlib.import_module("checks." + prop.lower()).CHECK))
