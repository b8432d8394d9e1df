"""The programs which look for missing files: whole runs of them on directories which are damaged, hard to read or still changing"""
import copy
import os
import random
import re
import sys

import h5py
import numpy as np

from dst import env, fio
from dst.harness import Check, Violation, HarnessError, gen_cfg, sim_violation, info_of, violation_info
from . import binformats as bf
from .c16 import ERRNOS

SCRIPTS = {"eagle": "consistency_check/eagle/check_eagle_file_presence.py", "pg3": "consistency_check/p-gadget3/check_pgadget3_file_presence.py"}
BASES = ["sim", "sim", "sim", "deep/er/sim", "a b", "sim[1]", "sim*", "s?m", "./sim", "sim/"]
# (directory, file name, attribute, category)
EAGLE = {"snap": [("snapshot", "snap", "NumFilesPerSnapshot", "snap"), ("groups", "group_tab", "NTask", "group_tab"),
                  ("particledata", "eagle_subfind_particles", "NumFilesPerSnapshot", "eagle_subfind_particles"),
                  ("groups", "eagle_subfind_tab", "NTask", "eagle_subfind_tab")],
         "snip": [("snipshot", "snip", "NumFilesPerSnapshot", "snip"), ("groups_snip", "group_snip_tab", "NTask", "group_snip_tab"),
                  ("particledata_snip", "eagle_subfind_snip_particles", "NumFilesPerSnapshot", "eagle_subfind_snip_particles"),
                  ("groups_snip", "eagle_subfind_snip_tab", "NTask", "eagle_subfind_snip_tab")]}
PG3 = [("groups", "group_tab"), ("groups", "group_ids"), ("groups", "subhalo_tab"), ("groups", "subhalo_ids")]
LINE = re.compile(r"^ *(\S+) (\d{3,}): (OK     |MISSING) - (?:no (\S+) files present!|(-?\d+) of (-?\d+) (\S+) files present)$")
SUMMARY = re.compile(r"^ *(\S+) - (\d+) of (\d+) directories not complete$")
SITES = {"eagle": ["h5.open", "h5.open", "h5.read", "io.listdir", "io.listdir", "io.readdir"],
         "pg3": ["io.open", "io.open", "io.map", "h5.open", "h5.read", "io.listdir", "io.listdir"]}
KINDS = {"io.open": ["EMFILE", "ENFILE", "ENOENT", "EIO", "EACCES", "ESTALE"], "h5.open": ["EMFILE", "ENOENT", "EIO", "EACCES"], "h5.read": ["EIO", "ESTALE"],
         "io.map": ["ENOMEM", "EACCES"], "io.listdir": ["EIO", "EACCES", "ESTALE", "ENFILE"], "io.readdir": ["EIO", "ESTALE"]}

_code = {}


class C26(Check):
    prop = "C26"
    modules = ["virgo.formats.gadget_snapshot", "virgo.formats.subfind_pgadget3"]
    quick_runs = 6000
    quick_s = 45
    real = list(SCRIPTS.values()) + ["virgo/formats/{gadget_snapshot,subfind_pgadget3}.py", "virgo/util/read_binary.py", "glob", "h5py and the HDF5 library",
                                     "the file system (real files in a scratch directory)"]
    stubs = ["opens, maps, listings and HDF5 reads go through dst/fio.py, which injects failures and lets another process run", "the process which moves files in or away",
             "order of directory listings"]
    faults_possible = ["file missing", "first file missing", "first file cut", "first file zeroed", "first file without header", "two directories", "files arrive", "files leave", "kill", "interrupt",
                       "printing fails"] + sorted({"%s:%s" % (s, k) for s in KINDS for k in KINDS[s]})
    rule = ("A run is one execution of a checking program from its command line while files are missing, damaged, unreadable or being moved. Non-trivial: at least one output "
            "was incomplete, a failure was injected or files moved.")
    assumptions = ["a name in a directory listing counts as a file which is present, as the programs document",
                   "a first file whose header survives counts as readable even if it is cut off behind it"]

    def setup(self):
        fio.install()
        fio.install_h5()
        for k, f in SCRIPTS.items():
            f = os.path.join(env.REPO, f)
            try:
                with fio.real_open(f, "rb") as g:
                    _code[k] = compile(g.read(), f, "exec")
            except (OSError, SyntaxError) as e:
                # nothing is reported about any run
                _code[k] = e

    # ---------------------------------------------------------------- cases
    def outputs(self, case):
        """[(directory name, file name, snapshot number, category)] in the order of checking"""
        if case["kind"] == "eagle":
            return [(d, f, i, c) for t in ("snap", "snip") for i in range(case[t]) for d, f, a, c in EAGLE[t]]
        return [(d, f, i, c) for i in range(case["first"], case["last"] + 1, case["step"])
                for d, f, c in [("snapdir", case["snapbase"], "snapshot")] + [(d, f, f) for d, f in PG3]]

    def gen(self, rng, tier):
        kind = rng.choice(["eagle", "pg3"])
        case = dict(n=2, kind=kind, sseed=rng.randrange(2 ** 32), cfg=gen_cfg(rng, 2, p_switch=rng.choice([1.0, 1.0, 0.5])), base=rng.choice(BASES), faults=[], outs={},
                    endian=rng.choice("<>"), idb=rng.choice([4, 8]))
        if kind == "eagle":
            case.update(snap=rng.choice([0, 1, 1, 2, 3]), snip=rng.choice([0, 0, 1, 2]), again=rng.random() < 0.1)
        else:
            first = rng.choice([0, 0, 0, 5, 98])
            case.update(first=first, step=rng.choice([1, 1, 2, 3]), last=first + rng.choice([0, 0, 1, 2, 3]), snapbase=rng.choice(["500_dm", "snap_x", "snapshot"]),
                        hdf5=rng.random() < 0.4)
            if case["snapbase"] == "500_dm":
                case["hdf5"] = True
            elif case["hdf5"]:
                case["hdf5"] = False
            if first == 0 and rng.random() < 0.5:
                case["step"] = 1
                case["short_args"] = True
        damage = rng.choice([0.0, 0.05, 0.3])
        for k, (d, f, i, c) in enumerate(self.outputs(case)):
            n = rng.choice([1, 1, 2, 3, 5, 11, 12, 40])
            o = dict(n=n, lack=[], state="good", stray=rng.random() < 0.2)
            if rng.random() < damage and n > 1:
                o["lack"] = sorted(rng.sample(range(1, n), rng.choice([1, 1, n - 1])))
                if rng.random() < 0.4:
                    o["lack"] = [n - 1]
            if rng.random() < damage * 0.6:
                o["state"] = rng.choice(["missing", "missing", "cut", "zero", "nodir", "noheader", "empty"])
                o["cut"] = rng.random()
                if kind == "eagle" and o["state"] == "nodir" and rng.random() < 0.5:
                    o["twin"] = True
            case["outs"][str(k)] = o
        r = rng.random()
        case["move"] = None
        if r < 0.4:
            ks = [int(k) for k, o in case["outs"].items() if o["state"] == "good"]
            how = rng.choice(["arrive", "leave"])
            moves = []
            for k in rng.sample(ks, min(len(ks), rng.choice([1, 2, 4]))):
                o = case["outs"][str(k)]
                have = [x for x in range(o["n"]) if x not in o["lack"]]
                moves += [[k, x] for x in rng.sample(have, min(len(have), rng.choice([1, 2, 5])))]
            rng.shuffle(moves)
            case["move"] = dict(how=how, files=moves)
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.1:
                    case["faults"].append(dict(site=rng.choice(SITES[kind] + ["stdout"]), kind=rng.choice(["kill", "interrupt"]), rank=0, nth=rng.randrange(12)))
                elif rng.random() < 0.08:
                    case["faults"].append(dict(site="stdout", kind="printing fails", errno=28, rank=0, nth=rng.randrange(30)))
                else:
                    site = rng.choice(SITES[kind])
                    e = rng.choice(KINDS[site])
                    case["faults"].append(dict(site=site, kind="%s:%s" % (site, e), errno=ERRNOS[e], rank=0, nth=rng.choice([0, 1, 2, 3, rng.randrange(30)])))
        return case

    def directed(self):
        res = []
        for kind in ("eagle", "pg3"):
            for state in ("good", "missing", "cut", "zero", "nodir", "noheader", "empty", "lack"):
                for hd in ((False,) if kind == "eagle" else (False, True)):
                    c = dict(n=2, kind=kind, sseed=1, cfg={}, base="sim", faults=[], outs={}, endian="<", idb=8, snap=1, snip=1, first=0, last=0, step=1,
                             snapbase="500_dm" if hd else "snap", hdf5=hd, move=None)
                    for k in range(len(self.outputs(c))):
                        o = dict(n=3, lack=[], state="good", stray=False, cut=0.5)
                        if k % 2 == 0:
                            if state == "lack":
                                o["lack"] = [1 + k // 2 % 2]
                            else:
                                o["state"] = state
                        c["outs"][str(k)] = o
                    res.append(c)
        return res

    # ------------------------------------------------------------ the world
    def names(self, case, base, label, out, numbers):
        d, f, i, c = out
        if case["kind"] == "eagle":
            return ["%s/%s_%03d_%s/%s_%03d_%s.%d.hdf5" % (base, d, i, label, f, i, label, x) for x in numbers]
        return ["%s/%s_%03d/%s_%03d.%d%s" % (base, d, i, f, i, x, ".hdf5" if f == "500_dm" else "") for x in numbers]

    def first_file(self, case, out, n, path, o):
        d, f, i, c = out
        must_miss = o["state"] != "good"
        if case["kind"] == "eagle" or (c == "snapshot" and case["hdf5"]):
            with h5py.File(path, "w", libver=("earliest", "v110")) as g:
                if o["state"] != "noheader":
                    h = g.create_group("Header")
                    v = np.int32(0 if o["state"] == "zero" else n)
                    attr = "NumFilesPerSnapshot" if c in ("snap", "snip", "snapshot") or "particles" in c else "NTask"
                    h.attrs[attr] = v
                    h.attrs["NumPart_ThisFile"] = np.array([0, 2, 0, 0, 0, 0], dtype="i4")
                    h.attrs["NTask" if attr != "NTask" else "NumFilesPerSnapshot"] = np.int32(n + 1)
                g["x"] = np.arange(10)
            data = fio.real_open(path, "rb").read()
            least = len(data)
        else:
            nt = 0 if o["state"] == "zero" else n
            if c == "snapshot":
                data = bf.gadget_snapshot(case["endian"], [0, 2, 0, 0, 0, 0], [0.5] * 6, case["idb"], 4, 3, nfiles=nt).data
                least = 256
            elif c in ("group_ids", "subhalo_ids"):
                data = bf.pg3_ids(case["endian"], 3, 8, nt, c == "subhalo_ids").data
                least = 24
            elif c == "group_tab":
                data = bf.pg3_grouptab(case["endian"], 2, 8, 4, nt).data
                least = 24
            else:
                data = bf.pg3_subtab(case["endian"], 2, 1, 8, 4, nt, False).data
                least = 24
            if o["state"] == "zero":
                data = bytes(len(data))
            if o["state"] == "noheader":
                data = b"\x01\x02\x03"
        if o["state"] == "cut":
            k = min(int(o["cut"] * least), least - 1)
            data = data[:k]
        elif o["state"] == "empty":
            data = b""
        with fio.real_open(path, "wb") as g:
            g.write(data)

    def build(self, case, d):
        rng = random.Random(case["sseed"])
        base = os.path.join(d, case["base"])
        real = os.path.normpath(base)
        os.makedirs(real)
        os.makedirs(os.path.join(d, "away"))
        labels = {}
        outs = self.outputs(case)
        for near in ("sim1", "simX", "s1m", "a"):
            # what a careless pattern would find
            if near != os.path.basename(real) and case["kind"] == "eagle" and rng.random() < 0.5:
                for dn, f, i, c in outs:
                    os.makedirs(os.path.join(d, near, "%s_%03d_z%03dp%03d" % (dn, i, rng.randrange(30), rng.randrange(1000))), exist_ok=True)
        self.paths = {}
        self.start = {}
        nodir = {(outs[int(k)][0], outs[int(k)][2]) for k, o in case["outs"].items() if o["state"] == "nodir"}
        twins = {(outs[int(k)][0], outs[int(k)][2]) for k, o in case["outs"].items() if o["state"] == "nodir" and o.get("twin")}
        for k, out in enumerate(outs):
            o = case["outs"][str(k)]
            key = (out[0], out[2])
            if key not in labels:
                labels[key] = "z%03dp%03d" % (rng.randrange(30), rng.randrange(1000))
            paths = self.names(case, real, labels[key], out, range(o["n"]))
            self.paths[k] = paths
            if key in nodir:
                o["state"] = "nodir"
                self.start[k] = set()
                if key in twins:
                    # two directories, and nothing says which is the right one
                    self.sim_hits.append("two directories")
                    os.makedirs(os.path.dirname(paths[0]), exist_ok=True)
                    os.makedirs(os.path.dirname(self.names(case, real, "z999p%03d" % rng.randrange(1000), out, [0])[0]), exist_ok=True)
                    for x, p in enumerate(paths):
                        if x == 0:
                            self.first_file(case, out, o["n"], p, dict(o, state="good"))
                        else:
                            with fio.real_open(p, "wb") as g:
                                g.write(b"x")
                else:
                    self.sim_hits.append("first file missing")
                continue
            os.makedirs(os.path.dirname(paths[0]), exist_ok=True)
            for x, p in enumerate(paths):
                if x == 0:
                    if o["state"] != "missing":
                        self.first_file(case, out, o["n"], p, o)
                elif x not in o["lack"]:
                    with fio.real_open(p, "wb") as g:
                        g.write(b"x")
            self.start[k] = {x for x in range(o["n"]) if x not in o["lack"] and not (x == 0 and o["state"] == "missing")}
            if o["lack"]:
                self.sim_hits.append("file missing")
            if o["state"] != "good":
                self.sim_hits.append({"missing": "first file missing", "cut": "first file cut", "zero": "first file zeroed", "noheader": "first file without header",
                                      "empty": "first file cut"}[o["state"]])
            if o["stray"]:
                for p in (self.names(case, real, labels[key], out, [o["n"], o["n"] + 7]) + [paths[0] + ".bak", paths[-1] + "~"]
                          + [os.path.join(os.path.dirname(paths[0]), "other_%03d.1" % out[2])]):
                    with fio.real_open(p, "wb") as g:
                        g.write(b"")
        # in transit
        mv = case["move"]
        self.moves = []
        if mv:
            for k, x in mv["files"]:
                if str(k) not in case["outs"] or k not in self.start or x not in self.start[k] or case["outs"][str(k)]["state"] != "good":
                    continue
                p = self.paths[k][x]
                q = os.path.join(d, "away", "%d-%d" % (k, x))
                if mv["how"] == "arrive":
                    os.rename(p, q)
                    self.start[k].discard(x)
                    self.moves.append((q, p, k, x))
                else:
                    self.moves.append((p, q, k, x))
        self.end = {k: set(v) for k, v in self.start.items()}
        for a, b, k, x in self.moves:
            if mv["how"] == "arrive":
                self.end[k].add(x)
            else:
                self.end[k].discard(x)

    # ---------------------------------------------------------------- run
    def execute(self, case, log=False):
        case = copy.deepcopy(case)
        cwd = os.getcwd()
        argv = sys.argv
        try:
            with env.rundir() as d:
                os.chdir(d)
                return self.run_case(case, d, log)
        finally:
            os.chdir(cwd)
            sys.argv = argv

    def run_case(self, case, d, log):
        code = _code[case["kind"]]
        if isinstance(code, SyntaxError):
            raise Violation("program:unusable", "%s: %s" % (SCRIPTS[case["kind"]], code))
        if isinstance(code, Exception):
            raise HarnessError(str(code))
        self.sim_hits = []
        self.build(case, d)
        base = case["base"] if case["sseed"] % 3 == 0 else os.path.join(d, case["base"])
        if case["kind"] == "eagle":
            argv = [SCRIPTS["eagle"], base, str(case["snap"]), str(case["snip"])]
        else:
            argv = [SCRIPTS["pg3"], base, case["snapbase"], str(case["last"])]
            if not (case.get("short_args") and case["first"] == 0 and case["step"] == 1):
                argv += [str(case["first"]), str(case["step"])]
        sim = env.new_sim(case, log=log, scratch=d)
        sim.io_yield = bool(self.moves)
        sim.listing = random.Random(case["sseed"])
        for h in self.sim_hits:
            sim.hit(h)

        def program(p):
            ns = dict(__name__="__main__", __file__=SCRIPTS[case["kind"]])
            exec(code, ns)

        def mover(p):
            for a, b, k, x in self.moves:
                sim.yield_(p, "move")
                os.rename(a, b)
                sim.hit("files arrive" if case["move"]["how"] == "arrive" else "files leave")
                sim.event(1, "move %d/%d" % (k, x))
        sim.procs[0].argv = list(argv)
        sim.procs[1].argv = list(argv)
        try:
            sim.run([program, mover])
            sim_violation(sim, allow_exc=True)
            self.judge(case, sim)
        except Violation as v:
            raise violation_info(v, sim)
        info = info_of(sim, nontrivial=bool(sim.fault_hits))
        if log:
            info["log"] = ["%s" % (e,) for e in sim.log] + "".join(sim.procs[0].out).split("\n")
        return info

    # ---------------------------------------------------------------- oracle
    def judge(self, case, sim):
        p = sim.procs[0]
        text = "".join(p.out)
        fired = [f for f in sim.faults if f.get("fired")]
        ending = [f for f in fired if f["kind"] in ("kill", "interrupt", "printing fails")]
        if p.what != "returned":
            if not ending:
                raise Violation("program:failed", "the program ended with %s %s\n%s" % (type(p.exc).__name__, p.exc, (p.exc_tb or "")[-1500:]))
            sim.probe("program ended by a failure")
        else:
            if any(f["kind"] in ("kill", "interrupt") or f["kind"] == "printing fails" for f in ending):
                raise Violation("program:went-on", "the program ended normally although it was interrupted or could not print")
        lines = text.split("\n")
        for l in lines:
            sim.event(0, l)
        if p.what != "returned":
            # a line may be torn
            lines = lines[:-1]
        outs = self.outputs(case)
        which = {}
        for k, (d, f, i, c) in enumerate(outs):
            which[(d, i, f)] = k
        seen = {}
        category = {}
        spare = len(fired)
        summary = {}
        in_summary = False
        for l in lines:
            if l.startswith("Summary"):
                in_summary = True
                continue
            if not l.strip():
                continue
            if in_summary:
                m = SUMMARY.match(l)
                if not m or m.group(1) in summary:
                    raise Violation("report:garbled", "summary line %r" % l)
                summary[m.group(1)] = (int(m.group(2)), int(m.group(3)))
                continue
            m = LINE.match(l)
            if not m:
                raise Violation("report:garbled", "line %r" % l)
            name = m.group(4) or m.group(7)
            k = which.get((m.group(1), int(m.group(2)), name))
            if k is None or k in seen:
                raise Violation("report:stranger" if k is None else "report:twice", "line %r" % l)
            seen[k] = ok = m.group(3) == "OK     "
            o = case["outs"][str(k)]
            full = set(range(o["n"]))
            good = o["state"] == "good"
            could_ok = good and (self.start[k] == full or self.end[k] == full)
            could_miss = not good or self.start[k] != full or self.end[k] != full
            if ok and not could_ok:
                raise Violation("missed", "%r, but of %d files those numbered %s are missing%s" % (l, o["n"], sorted(full - self.start[k]),
                                                                                               "" if good else " and the first is %s" % o["state"]))
            if not ok and not could_miss:
                spare -= 1
                if spare < 0:
                    raise Violation("false-alarm", "%r, but all %d files are there and nothing failed" % (l, o["n"]))
            if m.group(4) is None and good:
                a, b = int(m.group(5)), int(m.group(6))
                lo, hi = len(self.start[k] & self.end[k]), len(self.start[k] | self.end[k])
                if b != o["n"] or a > hi or a < lo and not fired or ok != (a == b):
                    raise Violation("count", "%r, there are %s of %d" % (l, lo if lo == hi else "%d to %d" % (lo, hi), o["n"]))
            elif m.group(4) is not None and good and 0 in self.start[k] & self.end[k] and not fired:
                raise Violation("count", "%r, but the first file is there" % l)
        if p.what == "returned":
            if len(seen) != len(outs):
                raise Violation("report:incomplete", "nothing is said about %s" % [outs[k] for k in range(len(outs)) if k not in seen][:5])
            if not in_summary:
                raise Violation("report:incomplete", "there is no summary")
            want = {}
            for k, (d, f, i, c) in enumerate(outs):
                a, b = want.get(c, (0, 0))
                want[c] = (a + (not seen[k]), b + 1)
            want = {c: v for c, v in want.items() if v[0]}
            if summary != want:
                raise Violation("summary", "the summary says %s, the lines above it %s" % (summary, want))

    # ---------------------------------------------------------------- shrink
    def shrink(self, case):
        for i in range(len(case["faults"])):
            c = copy.deepcopy(case)
            del c["faults"][i]
            yield c
        if case["move"]:
            c = copy.deepcopy(case)
            c["move"] = None
            yield c
            for i in range(len(case["move"]["files"])):
                c = copy.deepcopy(case)
                del c["move"]["files"][i]
                yield c
        for k, o in sorted(case["outs"].items()):
            if o["lack"] or o["state"] != "good" or o["stray"]:
                c = copy.deepcopy(case)
                c["outs"][k].update(lack=[], state="good", stray=False)
                yield c
            if o["n"] > 1 and not o["lack"] and not case["move"]:
                c = copy.deepcopy(case)
                c["outs"][k]["n"] = 1
                yield c
        if case["kind"] == "eagle":
            if case["snip"]:
                c = copy.deepcopy(case)
                c["snip"] = 0
                yield c
        elif case["last"] > case["first"]:
            c = copy.deepcopy(case)
            c["last"] = case["first"]
            yield c
        if case["base"] != "sim":
            yield dict(copy.deepcopy(case), base="sim")


CHECK = C26()
