from .h5common import *
from .c10 import C10
from .c11 import C11

READ_SITES = ["h5.open", "h5.open", "h5.read", "h5.read", "h5.lookup", "h5.attr"]
WRITE_SITES = READ_SITES + ["h5.create", "h5.create", "h5.write", "h5.write", "h5.write", "h5.attr", "h5.close", "h5.close"]
DAMAGE = ["missing", "truncated", "garbage", "empty", "directory"]
KINDS = {"h5.open": "open fails", "h5.read": "read fails", "h5.lookup": "object lookup fails", "h5.attr": "attribute I/O fails",
         "h5.create": "create fails", "h5.write": "write fails", "h5.close": "flush on close fails", "mpi": "mpi-error"}


class C12(FileSetCheck):
    prop = "C12"
    quick_runs = 6000
    quick_s = 60
    rule = ("A run is a job on a file set during which I/O errors, damaged files or process deaths strike, followed by a second job which repeats it "
            "without faults. Non-trivial: a fault took effect.")
    faults_possible = H5_FAULTS + ["open fails", "read fails", "object lookup fails", "attribute I/O fails", "create fails", "write fails",
                                   "flush on close fails", "kill", "mpi-error"] + ["file " + d for d in DAMAGE]

    def gen(self, rng, tier):
        sub = rng.choice(["read", "read", "write"])
        other = C10() if sub == "read" else C11()
        case = other.gen(rng, tier)
        case["sub"] = sub
        case["fs"].pop("types", None)
        for k in ("before", "samename", "misfit"):
            case.pop(k, None)
        case["layout"] = dict(kind="world", groups=[list(range(case["n"]))])
        n = case["n"]
        case["faults"] = []
        case["damage"] = []
        if rng.random() < 0.25:
            for _ in range(rng.choice([1, 1, 2])):
                case["damage"].append(dict(file=rng.randrange(case["fs"]["nf"]), kind=rng.choice(DAMAGE), cut=rng.random()))
        if not case["damage"] or rng.random() < 0.2:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                site = rng.choice(READ_SITES if sub == "read" else WRITE_SITES)
                kind = KINDS[site]
                if rng.random() < 0.12:
                    kind = "kill"
                if rng.random() < 0.06:
                    site, kind = "mpi", rng.choice(["kill", "mpi-error"])
                case["faults"].append(dict(site=site, kind=kind, rank=rng.randrange(n), nth=rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 6, 9]),
                                           errno=rng.choice([5, 28, 2, 13, 116]), early=rng.random() < 0.5))
        return case

    def damage(self, case):
        fs = case["fs"]
        self.saved = {}
        for d in case["damage"]:
            p = file_name(fs, self.dir, d["file"] % fs["nf"], "in")
            if p in self.saved:
                continue
            with open(p, "rb") as f:
                raw = f.read()
            self.saved[p] = raw
            os.unlink(p)
            if d["kind"] == "truncated":
                with open(p, "wb") as f:
                    # HDF5 checks the length of a file when it is opened
                    f.write(raw[:int(len(raw) * d["cut"])])
            elif d["kind"] == "garbage":
                with open(p, "wb") as f:
                    f.write(bytes((i * 37) & 255 for i in range(len(raw))))
            elif d["kind"] == "empty":
                open(p, "wb").close()
            elif d["kind"] == "directory":
                os.mkdir(p)

    def restore(self):
        for p, raw in self.saved.items():
            if os.path.isdir(p):
                os.rmdir(p)
            with open(p, "wb") as f:
                f.write(raw)

    def execute(self, case, log=False):
        from dst import h5
        other = C10() if case["sub"] == "read" else C11()
        case.setdefault("nfiles_stale", case["sseed"] % 3 == 0)
        g = list(range(case["n"]))
        with env.rundir() as d, hdf5_version(case):
            self.dir = other.dir = d
            fs = case["fs"]
            write_files(fs, d)
            write = case["sub"] == "write"
            if write:
                other.prepare_outputs(case)
            before = {}
            if write:
                before = {os.path.join(d, x): other.snapshot(os.path.join(d, x)) for x in sorted(os.listdir(d))}
            raw = {}
            for x in sorted(os.listdir(d)):
                with open(os.path.join(d, x), "rb") as f:
                    raw[x] = f.read()
            self.damage(case)
            sim = run_mpi(case, lambda a, c, r: other.body(case, a, c, r), log=log, scratch=d, allow_exc=True)
            for x in case["damage"]:
                sim.hit("file " + x["kind"])
            struck = bool(sim.fault_hits.keys() & set(KINDS.values()) or "kill" in sim.fault_hits or case["damage"])
            failed = [p for p in sim.procs if p.exc is not None]
            info = None
            try:
                if sim.failed is None and sim.aborted is None and not failed and all(p.what == "returned" for p in sim.procs):
                    # everybody returned normally, so everything must be right
                    sim.probe("completed in spite of the fault" if struck else "fault did not strike")
                    self.check(other, case, g, sim, before, d)
                else:
                    sim.probe("failure was reported")
                    if not struck:
                        p = (failed or [q for q in sim.procs if q.what != "returned"])[0]
                        raise Violation("exception:unprovoked", "no operation failed, yet rank %d: %s\n%s" % (p.rank, p.what, p.exc_tb))
                # the failure has cleared: start again
                h5.cleanup()
                self.restore()
                if write:
                    for x in list(os.listdir(d)):
                        if x not in raw and case["mode"] != "w":
                            os.unlink(os.path.join(d, x))
                    if case["mode"] != "w":
                        for x, b in raw.items():
                            with open(os.path.join(d, x), "wb") as f:
                                f.write(b)
                c2 = dict(case, faults=[], trace=None, sseed=case["sseed"] ^ 0x2545f491)
                sim2 = run_mpi(c2, lambda a, c, r: other.body(case, a, c, r), log=log, scratch=d)
                self.check(other, case, g, sim2, before, d)
            except Violation as v:
                raise violation_info(v, sim)
            info = info_of(sim, nontrivial=struck)
            info["digest"] += sim2.digest
            info["steps"] += sim2.steps
            info["clock"] += sim2.clock
            if log:
                info["log"] = ["rank %d: %s" % e for e in sim.log] + ["--- retry"] + ["rank %d: %s" % e for e in sim2.log]
            return info

    def check(self, other, case, g, sim, before, d):
        res = [sim.procs[r].result for r in g]
        if case["sub"] == "read":
            other.judge(case, g, res)
        else:
            other.judge(case, g, res, before)

    def shrink_data(self, case):
        for x in case["damage"]:
            c = copy.deepcopy(case)
            c["damage"].remove(x)
            yield c
        for i, f in enumerate(case["faults"]):
            if f["nth"]:
                c = copy.deepcopy(case)
                c["faults"][i]["nth"] = 0
                yield c
        if case["sub"] == "write":
            yield from C11().shrink_data(case)
        else:
            yield from shrink_files(case)


CHECK = C12()
