"""Merger tree database tables: whole runs from tree files to table and script, with failures of either side"""
import copy
import os
import random
import re
import resource
import signal
import zlib

import h5py
import numpy as np

from dst import env, fio
from dst.env import V
from dst.harness import Check, Violation, sim_violation, info_of, violation_info
from .c16 import ERRNOS

SITES = {"io.open": ["EMFILE", "ENFILE", "EIO", "EACCES", "ENOSPC"], "io.write": ["ENOSPC", "EIO", "EDQUOT"], "h5.open": ["EMFILE", "ENOENT", "EIO", "EACCES"],
         "h5.read": ["EIO", "ESTALE"]}
SQL = {"integer": "<i4", "bigint": "<i8", "real": "<f4", "float": "<f8"}
INDEX = ("mBranch", "depthFirst", "endMainBranch", "lastProgenitor")
EXTRA = [("position", "f4", (3,)), ("velocity", "f8", (3,)), ("hostIndex", "i8", ()), ("isInterpolated", "i4", ()), ("aaa", "f4", ()), ("zz", "f8", ()), ("label", "S5", ()),
         ("spin", "f4", (3,)), ("x1", "i4", (3,))]


class C27(Check):
    prop = "C27"
    modules = ["virgo.database.make_dtrees_table"]
    quick_runs = 12000
    quick_s = 40
    real = ["virgo/database/make_dtrees_table.py", "virgo/database/index_trees.py", "virgo/util/match.py", "h5py and the HDF5 library",
            "the file system (real files in a scratch directory)"]
    stubs = ["opens and writes of ordinary files and opens and reads of HDF5 files go through dst/fio.py, which injects failures", "a full disk is a file size limit of the process"]
    faults_possible = ["input missing", "input damaged", "dataset missing", "dataset of wrong length", "dataset of wrong type", "dataset of wrong shape", "file size limit", "kill", "interrupt"] + sorted({"%s:%s" % (s, k) for s in SITES for k in SITES[s]})
    rule = ("A run makes tables from generated merger trees in one to five files, fails and is repeated. Non-trivial: there are at least two subhalos, and a failure was injected "
            "or the trees span several files.")
    assumptions = ["subhalos have unique indexes and their progenitors are in earlier snapshots", "masses are not negative and their sums are exact"]

    def setup(self):
        fio.install()
        fio.install_h5()
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)

    # ---------------------------------------------------------------- cases
    def gen(self, rng, tier):
        n = rng.choice([0, 1, 2, 3, 8, 8, 25, 60])
        nsnap = rng.choice([1, 2, 3, 6, 12])
        ids = rng.sample(range(1, 10 * n + 10), n)
        scale = rng.choice([1, 1, 10 ** 9 + 7, 10 ** 15])
        nodes = []
        forest = rng.choice([0.02, 0.2, 0.5])
        snaps = [rng.randrange(nsnap) for _ in range(n)]
        for i in range(n):
            later = [j for j in range(n) if snaps[j] > snaps[i]]
            if later and rng.random() > forest:
                if rng.random() < 0.5:
                    m = min(snaps[j] for j in later)
                    later = [j for j in later if snaps[j] == m]
                d = ids[rng.choice(later)] * scale
            else:
                d = -1 if rng.random() < 0.9 else 7 * 10 ** 16 + 1
            nodes.append([ids[i] * scale, d, snaps[i], rng.choice([0, 1, 2, 3, rng.randrange(1, 200)]) if rng.random() < 0.5 else rng.randrange(1, 1000)])
        nf = rng.choice([1, 2, 3, 5])
        cuts = sorted(rng.randint(0, n) for _ in range(nf - 1))
        case = dict(n=1, seed=rng.randrange(1 << 30), faults=[], nodes=nodes, cuts=cuts, mass=rng.choice(["f4", "f8"]), snapt=rng.choice(["i4", "i8"]),
                    extra=rng.sample(range(len(EXTRA)), rng.choice([0, 1, 2, 5])), promote=rng.random() < 0.15, runs=[])
        for _ in range(rng.choice([1, 2, 2, 3])):
            r = dict(hurt=None, limit=None, old=rng.random() < 0.5, out=rng.choice(["out", "out", "sub/tree table"]))
            k = rng.random()
            if k < 0.2:
                r["hurt"] = [rng.randrange(nf), rng.choice(["missing", "damaged", "dataset", "dataset", "length", "length", "type", "shape"]), rng.random()]
            elif k < 0.45:
                r["limit"] = rng.choice([rng.random(), rng.random(), 0.0, 0.999])
            case["runs"].append(r)
        case["runs"].append(dict(hurt=None, limit=None, old=rng.random() < 0.5, out="out"))
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 1, 2, 3])):
                site = rng.choice(sorted(SITES) + ["io.write"])
                e = rng.choice(SITES[site])
                nth = rng.choice([0, 0, 1, 2, 3, rng.randrange(30)])
                if rng.random() < 0.15:
                    case["faults"].append(dict(site=site, kind=rng.choice(["kill", "interrupt"]), rank=0, nth=nth))
                else:
                    case["faults"].append(dict(site=site, kind="%s:%s" % (site, e), errno=ERRNOS[e], rank=0, nth=nth))
        return case

    # ------------------------------------------------------------ the world
    def columns(self, case):
        """Input columns {name: array}"""
        nodes = case["nodes"]
        n = len(nodes)
        rng = np.random.RandomState(case["seed"] & 0xffffffff)
        col = dict(nodeIndex=np.array([x[0] for x in nodes], dtype="i8"), descendantIndex=np.array([x[1] for x in nodes], dtype="i8"),
                   snapshotNumber=np.array([x[2] for x in nodes], dtype=case["snapt"]), nodeMass=(np.array([x[3] for x in nodes], dtype="f8") / 8).astype(case["mass"]))
        for k in case["extra"]:
            name, t, s = EXTRA[k]
            if t[0] == "S":
                col[name] = np.array([b"s%d" % (x % 9999) for x in rng.randint(0, 10000, n)], dtype=t).reshape((n,) + s)
            elif t[0] == "i":
                col[name] = rng.randint(-2 ** 31, 2 ** 31, (n,) + s).astype(t)
            else:
                col[name] = rng.standard_normal((n,) + s).astype(t)
        return col

    def build(self, case, d):
        col = self.columns(case)
        n = len(case["nodes"])
        b = [0] + sorted(min(n, c) for c in case["cuts"]) + [n]
        self.nf = len(b) - 1
        self.files = []
        want = {k: v for k, v in col.items()}
        for i in range(self.nf):
            f = os.path.join(d, "trees.%d.hdf5" % i)
            with h5py.File(f, "w") as g:
                g.create_group("fileInfo").attrs["numberOfFiles"] = np.int32(self.nf)
                h = g.create_group("haloTrees")
                for k, v in col.items():
                    p = v[b[i]:b[i + 1]]
                    if case["promote"] and i == self.nf - 1 and i > 0 and p.dtype == np.dtype("i4"):
                        p = p.astype("i8")
                        want[k] = v.astype("i8")
                    h[k] = p
                g.create_group("other")["x"] = 1
            self.files.append(f)
        self.want = want
        self.rows = b

    def lack(self, i, u):
        """Remove one dataset of a file"""
        with h5py.File(self.files[i], "r+") as g:
            k = sorted(g["haloTrees"])[int(u * len(g["haloTrees"]))]
            del g["haloTrees"][k]

    def spoil(self, i, how, u):
        """Change one dataset to one which can't be put in a table: of another length than the rest in one file, or of an unsupported type or shape in all"""
        col = sorted(k for k, v in self.want.items() if how == "length" or v.dtype.kind != "S")
        k = col[int(u * len(col))]
        for j in range(self.nf):
            if how == "length" and j != i:
                continue
            with h5py.File(self.files[j], "r+") as g:
                h = g["haloTrees"]
                v = h[k][...]
                del h[k]
                w = int(u * 1e6)
                if how == "length":
                    m = [0, 1, len(v) - 1, len(v) + 1, 2 * len(v)][w % 5]
                    if m < 0 or m == len(v):
                        m = len(v) + 1
                    v = np.resize(v, (m,) + v.shape[1:]) if len(v) else np.zeros((m,) + v.shape[1:], v.dtype)
                elif how == "type":
                    v = v.astype(["u4", "u8", "i2", "u1", "f2"][w % 5] if v.dtype.kind == "i" or w % 2 else "c16")
                else:
                    v = np.zeros((len(v),) + [(2,), (1,), (4,), (3, 3), (0,)][w % 5], dtype=v.dtype)
                h[k] = v

    # ---------------------------------------------------------------- run
    def execute(self, case, log=False):
        with env.rundir() as d:
            sim = env.new_sim(case, log=log, scratch=d)
            self.sim = sim
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            try:
                sim.run([lambda p: self.body(case, d, soft, hard)])
                sim_violation(sim, allow_exc=True)
                p = sim.procs[0]
                if p.exc is not None and not any(f.get("fired") and f["kind"] == "interrupt" for f in sim.faults):
                    sim_violation(sim)
            except Violation as v:
                raise violation_info(v, sim)
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            info = info_of(sim, nontrivial=len(case["nodes"]) > 1 and (bool(sim.fault_hits) or len(case["cuts"]) > 0))
            if log:
                info["log"] = ["%s" % (e,) for e in sim.log]
            return info

    def body(self, case, d, soft, hard):
        try:
            self.play(case, d, soft, hard)
        except Violation as v:
            self.sim.violation = (v.cls, v.msg)

    def play(self, case, d, soft, hard):
        sim = self.sim
        with fio.plain():
            self.build(case, d)
        size = None
        for i, r in enumerate(case["runs"]):
            out = os.path.join(d, r["out"])
            hurt = r["hurt"]
            if hurt and hurt[1] == "dataset" and self.nf == 1:
                # a single file defines which datasets there are
                hurt = None
            tries = 0
            while True:
                struck = len([f for f in sim.faults if f.get("fired")])
                with fio.plain():
                    os.makedirs(os.path.dirname(out), exist_ok=True)
                    if r["old"]:
                        for s in (".dat", ".sql"):
                            with fio.real_open(out + s, "wb") as f:
                                f.write(b"what was here before\n" * 3000)
                    saved = None
                    if hurt and hurt[0] < self.nf:
                        f = self.files[hurt[0]]
                        saved = [fio.real_open(g, "rb").read() for g in self.files]
                        if hurt[1] == "missing":
                            os.unlink(f)
                        elif hurt[1] == "damaged":
                            with fio.real_open(f, "wb") as g:
                                g.write(saved[hurt[0]][:int(hurt[2] * len(saved[hurt[0]]))])
                        elif hurt[1] == "dataset":
                            self.lack(hurt[0], hurt[2])
                        else:
                            self.spoil(hurt[0], hurt[1], hurt[2])
                        sim.hit({"missing": "input missing", "damaged": "input damaged", "dataset": "dataset missing"}.get(hurt[1], "dataset of wrong " + hurt[1]))
                rowsize = sum(v.dtype.itemsize * (3 if v.ndim == 2 else 1) for v in self.want.values()) + 24 + self.want["nodeMass"].dtype.itemsize
                full = rowsize * len(case["nodes"])
                outcome = "normal"
                try:
                    if r["limit"] is not None:
                        limit = int(r["limit"] * full)
                        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
                        sim.hit("file size limit")
                    V("database.make_dtrees_table").make_dtrees_table("tab_%d" % i, os.path.join(d, "trees"), out)
                except Exception as x:
                    outcome = "%s: %s" % (type(x).__name__, x)
                    tb = x.__traceback__
                    x.__traceback__ = None
                    del tb
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                    if saved is not None:
                        with fio.plain():
                            for f, b in zip(self.files, saved):
                                with fio.real_open(f, "wb") as g:
                                    g.write(b)
                struck = len([f for f in sim.faults if f.get("fired")]) > struck
                sim.event(0, "run %d: %s" % (i, outcome.split(":")[0]))
                with fio.plain():
                    if outcome == "normal" and saved is not None and hurt[1] == "length":
                        raise Violation("inconsistent-input", "run %d ended normally although a dataset has another number of rows than the others" % i)
                    if outcome == "normal":
                        self.judge(case, "tab_%d" % i, out, i)
                        sim.probe("table made" + (" in spite of a failure" if struck or hurt or r["limit"] is not None else ""))
                    elif not (struck or hurt or r["limit"] is not None):
                        raise Violation("exception:unprovoked", "run %d failed although nothing else did: %s" % (i, outcome))
                    else:
                        sim.probe("failure reported")
                if outcome != "normal" and struck and not hurt and tries < 4:
                    tries += 1
                    continue
                break

    # ---------------------------------------------------------------- oracle
    def judge(self, case, table, out, i):
        m = V("database.make_dtrees_table")
        with fio.real_open(out + ".sql", "rb") as f:
            text = f.read().decode()
        head = "create table %s (\n" % table
        if not text.startswith(head) or not re.match(r"^(  \S+ \S+ NOT NULL,?\n)*\)\n$", text[len(head):]):
            raise Violation("script:garbled", "run %d ended normally, the script is %r" % (i, text[:300]))
        cols = [l.split()[:2] for l in text[len(head):].split("\n")[:-2]]
        dt = []
        for name, t in cols:
            c = re.match(r"^char\((\d+)\)$", t)
            if t not in SQL and not c:
                raise Violation("script:type", "column %s has type %s" % (name, t))
            mine = np.dtype("S" + c.group(1)) if c else np.dtype(SQL[t])
            if np.dtype(m.numpy_type(t)) != mine:
                raise Violation("script:type", "numpy_type(%r) is %s" % (t, m.numpy_type(t)))
            dt.append((name, mine))
        want = {}
        for k, v in self.want.items():
            if v.ndim == 1:
                want[k] = v
            else:
                for j, s in enumerate("xyz"):
                    want[k + "_" + s] = v[:, j]
        n = len(case["nodes"])
        if sorted(c for c, t in cols) != sorted(list(want) + list(INDEX)):
            raise Violation("script:columns", "run %d: columns %s, expected %s" % (i, sorted(c for c, t in cols), sorted(list(want) + list(INDEX))))
        dt = np.dtype(dt)
        with fio.real_open(out + ".dat", "rb") as f:
            data = f.read()
        if len(data) != n * dt.itemsize:
            raise Violation("table:size", "run %d ended normally, %d rows of %d bytes are %d bytes, the file has %d" % (i, n, dt.itemsize, n * dt.itemsize, len(data)))
        self.sim.event(0, "%d rows %08x" % (n, zlib.crc32(data)))
        tab = np.frombuffer(data, dtype=dt)
        for k, v in want.items():
            if case["promote"] and v.dtype == np.dtype("i8") and tab.dtype[k] == np.dtype("<i4"):
                # the only file with the larger type had no rows, and lacks the dataset
                v = v.astype("i4") if self.rows[-1] == self.rows[-2] else v
            if tab.dtype[k] != v.dtype.newbyteorder("<"):
                raise Violation("script:type", "column %s is %s, the input %s" % (k, tab.dtype[k], v.dtype))
            if tab[k].tobytes() != np.ascontiguousarray(v).tobytes():
                raise Violation("table:values", "run %d: column %s is %s, the input %s" % (i, k, tab[k][:20], v[:20]))
        # the trees
        where = {int(x): j for j, x in enumerate(want["nodeIndex"])}
        desc = [where.get(int(x), -1) for x in want["descendantIndex"]]
        order = sorted(range(n), key=lambda j: int(want["snapshotNumber"][j]))
        prog = [[] for _ in range(n)]
        for j in range(n):
            if desc[j] >= 0:
                prog[desc[j]].append(j)
        mass = [float(x) for x in want["nodeMass"]]
        branch, size = [0.0] * n, [1] * n
        for j in order:
            branch[j] = mass[j] + max([branch[p] for p in prog[j]], default=0.0)
            size[j] = 1 + sum(size[p] for p in prog[j])
        if [float(x) for x in tab["mBranch"]] != branch:
            raise Violation("index:mass", "branch masses are %s, should be %s" % (tab["mBranch"], branch))
        first = [int(x) for x in tab["depthFirst"]]
        if sorted(first) != list(range(1, n + 1)):
            raise Violation("index:numbers", "depth first indexes are %s" % first)
        for j in range(n):
            kids = sorted(prog[j], key=lambda p: first[p])
            nxt = first[j] + 1
            for p in kids:
                if first[p] != nxt:
                    raise Violation("index:order", "subhalo %d has index %d, its progenitor %d has %d instead of %d" % (j, first[j], p, first[p], nxt))
                nxt += size[p]
            if any(branch[a] < branch[b] for a, b in zip(kids, kids[1:])):
                raise Violation("index:order", "progenitors of subhalo %d are not in the order of their branch masses" % j)
            if int(tab["lastProgenitor"][j]) != first[j] + size[j] - 1:
                raise Violation("index:last", "last progenitor of subhalo %d is %d, should be %d" % (j, tab["lastProgenitor"][j], first[j] + size[j] - 1))
            e = j
            while prog[e]:
                e = min(prog[e], key=lambda p: first[p])
            if int(tab["endMainBranch"][j]) != first[e]:
                raise Violation("index:end", "end of the main branch of subhalo %d is %d, should be %d" % (j, tab["endMainBranch"][j], first[e]))

    # ---------------------------------------------------------------- shrink
    def shrink(self, case):
        for i in range(len(case["runs"]) - 1):
            c = copy.deepcopy(case)
            del c["runs"][i]
            yield c
        for i in range(len(case["faults"])):
            c = copy.deepcopy(case)
            del c["faults"][i]
            yield c
        n = len(case["nodes"])
        size = n // 2
        while size >= 1:
            for o in range(0, n, size):
                c = copy.deepcopy(case)
                del c["nodes"][o:o + size]
                yield c
            size //= 2
        for k in ("extra", "cuts"):
            for i in range(len(case[k])):
                c = copy.deepcopy(case)
                del c[k][i]
                yield c
        for r in range(len(case["runs"])):
            if case["runs"][r]["old"]:
                c = copy.deepcopy(case)
                c["runs"][r]["old"] = False
                yield c


CHECK = C27()
