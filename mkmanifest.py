#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks"""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
BASE = ("Seeded exploration: every run is one exactly repeatable execution of the real code under the simulator; no violation was found in the "
        "runs made, which is not a proof. ")
MPI = ("Trusts the simulated MPI (dst/mpi.py) to be a faithful, adversarial model of the standard's guarantees, and numpy.")
CLAIMED = {
    "C01": "1-20 ranks, up to some hundred elements; arrays of a foreign byte order may be refused. " + MPI,
    "C02": "1-20 ranks, integer and float types of all sizes including mixed ones. " + MPI,
    "C03": "1-20 ranks. " + MPI,
    "C04": "1-20 ranks; operators whose result does not depend on the order of application. " + MPI,
    "C05": "1-20 ranks, up to 3 dimensions, C and Fortran order. " + MPI,
    "C06": "1-20 ranks; message splitting through the hook which lowers the size limit. " + MPI,
    "C07": "Histories of up to 4 operations twice, up to two disjoint communicators. Termination means: within the step bound of the run. " + MPI,
    "C08": "Exceptions, interrupts, MPI errors, memory errors at any step or MPI call; failures of the error report itself. " + MPI,
    "C13": "1-20 ranks; non-overlapping groups in order of their offset. " + MPI,
    "C14": "1-20 ranks; particle IDs unique within a catalogue. " + MPI,
    "C15": "1-20 ranks, up to 3 dimensions. " + MPI,
}
exec(open(os.path.join(here, "mkmanifest_more.py")).read()) if os.path.exists(os.path.join(here, "mkmanifest_more.py")) else None
PURE = {
    "C21": "A pure function of two arrays inside one process: there is no schedule, time, I/O, message or other party it could depend on, so simulation with fault injection has nothing to decide.",
    "C22": "Pure arithmetic on keys; no concurrency, time, I/O or randomness for a simulator to control.",
    "C23": "A pure function of in-memory arrays; no concurrency, time, I/O or randomness for a simulator to control.",
    "C24": "Pure functions of in-memory arrays; no concurrency, time, I/O or randomness for a simulator to control.",
    "C25": "Pure string conversion; no concurrency, time, I/O or multi-party behaviour.",
}
def reason(p):
    return PURE.get(p) or "No check for it is registered at present."
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="VIRGODC_SIM_MAX_MESSAGE_BYTES (environment variable, unset by default)",
                    enable="nothing is compiled in: the checks import /repo/python directly and set the variable for the runs which use it",
                    source_commits=[l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("hook:")]),
         checks=[dict(property=p["id"], quick_cmd="./check %s" % p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=TECH.get(p["id"], "deterministic simulation (simulated MPI, seeded scheduler and faults) against a reference model") if "TECH" in globals() else "deterministic simulation (simulated MPI, seeded scheduler and faults) against a reference model",
                      level="exploration", level_note=BASE + CLAIMED[p["id"]]) for p in props if p["id"] in CLAIMED],
         not_applicable=[dict(property=p["id"], reason=reason(p["id"])) for p in props if p["id"] not in CLAIMED])
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
