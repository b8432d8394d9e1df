import copy
import os
import random

import h5py
import numpy as np

from dst import env, fio
from dst.env import V
from dst.harness import Check, Violation, sim_violation, info_of, violation_info
from . import binformats as bf
from .c16 import equal, same_type, ERRNOS, SITES

MODS = ["virgo.util.read_binary", "virgo.formats.gadget_snapshot", "virgo.formats.subfind_gadget4", "virgo.formats.subfind_pgadget3",
        "virgo.formats.subfind_lgadget3", "virgo.formats.subfind_lgadget2", "virgo.formats.mpa_trees", "virgo.formats.rockstar", "virgo.formats.velociraptor",
        "virgo.sims.coco", "virgo.sims.millennium", "virgo.sims.millennium2", "virgo.sims.mxxl"]
NTASK = [1, 2, 13, 255, 256, 511, 512, 4096, 65280, 65535]
EXTRA = [("Potential", "float", [], [1, 1, 1, 1, 1, 1]), ("Age", "float", [], [0, 0, 0, 0, 1, 0]), ("Metals", "float", [2], [1, 0, 0, 0, 1, 0]),
         ("Group", "int", [], [0, 1, 1, 1, 0, 0])]


def count(rng, big=40):
    return rng.choice([0, 0, 1, 1, 2, 3, 7, rng.randrange(big)])


def kw(p, *names):
    return {n: p[n] for n in names}


class Fmt:
    def __init__(self, classes, gen, build, kwargs, records=False, allbytes=False, native=False, fixed=()):
        self.classes, self.gen, self.build, self.kwargs = classes, gen, build, kwargs
        self.records, self.allbytes, self.native = records, allbytes, native


def ids(r):
    return dict(id_bytes=r.choice([4, 8]))


def gen_gadget(r):
    counts = [count(r) for _ in range(6)]
    n = sum(1 for x in EXTRA)
    return dict(counts=counts, table=[r.choice([0.0, 0.0, 0.5]) for _ in range(6)], idb=r.choice([4, 8]), fltb=r.choice([4, 8]),
                nblocks=r.choice([3, 4, 5, 7, 12, 12]), extra=EXTRA[:r.choice([0, 0, 1, 2, n])])


def build_gadget(p, e):
    return bf.gadget_snapshot(e, p["counts"], p["table"], p["idb"], p["fltb"], p["nblocks"], extra=p["extra"])


def kw_gadget(p):
    return dict(extra=tuple((n, k, tuple(s), tuple(bool(x) for x in t)) for n, k, s, t in p["extra"])) if p["extra"] else {}


def catalogue(r):
    ng = count(r)
    return dict(ng=ng, ns=count(r) if ng else 0, ntask=r.choice(NTASK), id_bytes=r.choice([4, 8]), float_bytes=r.choice([4, 8]), SO_VEL_DISPERSIONS=r.random() < 0.5)


def plain_ids(r):
    return dict(n=count(r, 200), ntask=r.choice(NTASK), id_bytes=r.choice([4, 8]))


def gen_lg2snap(r):
    bits = r.choice([1, 2, 3])
    n = count(r, 60)
    cells = (1 << bits) ** 3
    first = r.randrange(cells)
    last = min(cells - 1, first + r.choice([0, 1, 3, 10, cells]))
    return dict(bits=bits, first=first, last=last, keys=sorted(r.randint(first, last) for _ in range(n)))


def cell_centres(bits):
    """Grid position of every hash cell"""
    peano = V("util.peano")
    k = np.arange((1 << bits) ** 3, dtype=np.int32)
    x, y, z = peano.peano_hilbert_key_inverses(k, bits)
    return np.stack((x, y, z), axis=1)


def build_lg2snap(p, e):
    box = 64.0
    size = box / (1 << p["bits"])
    k = np.array(p["keys"], dtype=np.int64)
    c = cell_centres(p["bits"])
    pos = (c[k] * size + size * (0.125 + 0.75 * ((np.arange(len(k))[:, None] * np.array([3, 5, 7])) % 11) / 11.0)).astype("f4")
    return bf.lg2_snapshot(e, p["keys"], box, (1 << p["bits"]) ** 3, p["first"], p["last"], pos=pos)


def leave_out(fmt, args, rng):
    """Arguments, with some which have their default value left to it"""
    default = dict(id_bytes=4 if fmt.startswith("lg3") else 8, float_bytes=4, SO_VEL_DISPERSIONS=fmt == "mxxl subtab", SUB_SHAPES=False, SAVE_MASS_TAB=False)
    return {k: v for k, v in args.items() if k not in default or v != default[k] or rng.random() < 0.5}


L3 = dict(gen=lambda r: dict(catalogue(r), SUB_SHAPES=r.random() < 0.5))
FORMATS = {
    "gadget": Fmt([("formats.gadget_snapshot", "GadgetBinarySnapshotFile"), ("formats.gadget_snapshot", "open"), ("sims.coco", "SnapshotFile"),
                   ("sims.millennium2", "SnapshotFile"), ("sims.mxxl", "SnapshotFile")], gen_gadget, build_gadget, kw_gadget, records=True),
    "gadget4": Fmt([("formats.subfind_gadget4", "SubTabFile"), ("sims.coco", "SubTabFile")],
                   lambda r: dict(ng=count(r), ns=count(r), id_bytes=r.choice([4, 8]), dp=r.random() < 0.5, ntask=r.choice(NTASK)),
                   lambda p, e: bf.g4_subtab(e, p["ng"], p["ns"], p["id_bytes"], p["dp"], p["ntask"]), lambda p: kw(p, "id_bytes"), records=True),
    "pg3 ids": Fmt([("formats.subfind_pgadget3", "GroupIDsFile")], plain_ids, lambda p, e: bf.pg3_ids(e, p["n"], p["id_bytes"], p["ntask"], False),
                   lambda p: kw(p, "id_bytes"), allbytes=True),
    "pg3 subids": Fmt([("formats.subfind_pgadget3", "SubIDsFile")], plain_ids, lambda p, e: bf.pg3_ids(e, p["n"], p["id_bytes"], p["ntask"], True),
                      lambda p: kw(p, "id_bytes"), allbytes=True),
    "pg3 grouptab": Fmt([("formats.subfind_pgadget3", "GroupTabFile")], catalogue, lambda p, e: bf.pg3_grouptab(e, p["ng"], p["id_bytes"], p["float_bytes"], p["ntask"]),
                        lambda p: kw(p, "id_bytes", "float_bytes"), allbytes=True),
    "pg3 subtab": Fmt([("formats.subfind_pgadget3", "SubTabFile"), ("sims.millennium2", "SubTabFile")], catalogue,
                      lambda p, e: bf.pg3_subtab(e, p["ng"], p["ns"], p["id_bytes"], p["float_bytes"], p["ntask"], p["SO_VEL_DISPERSIONS"]),
                      lambda p: kw(p, "id_bytes", "float_bytes", "SO_VEL_DISPERSIONS"), allbytes=True),
    "lg3 subtab": Fmt([("formats.subfind_lgadget3", "SubTabFile")], lambda r: dict(catalogue(r), SUB_SHAPES=r.random() < 0.5),
                      lambda p, e: bf.lg3_subtab(e, p["ng"], p["ns"], p["id_bytes"], p["float_bytes"], p["ntask"], p["SO_VEL_DISPERSIONS"], p["SUB_SHAPES"]),
                      lambda p: kw(p, "id_bytes", "float_bytes", "SO_VEL_DISPERSIONS", "SUB_SHAPES"), allbytes=True),
    "mxxl subtab": Fmt([("sims.mxxl", "SubTabFile")], catalogue,
                       lambda p, e: bf.lg3_subtab(e, p["ng"], p["ns"], p["id_bytes"], p["float_bytes"], p["ntask"], p["SO_VEL_DISPERSIONS"], False),
                       lambda p: kw(p, "id_bytes", "float_bytes", "SO_VEL_DISPERSIONS"), allbytes=True),
    "lg3 ids": Fmt([("formats.subfind_lgadget3", "SubIDsFile")], plain_ids, lambda p, e: bf.lg3_ids(e, p["n"], p["id_bytes"], p["ntask"]),
                   lambda p: kw(p, "id_bytes"), allbytes=True),
    "lg2 grouptab": Fmt([("formats.subfind_lgadget2", "GroupTabFile"), ("sims.millennium", "GroupTabFile")],
                        lambda r: dict(ng=count(r), ntask=r.choice(NTASK), minlen=count(r)), lambda p, e: bf.lg2_grouptab(e, p["ng"], p["ntask"], p["minlen"]), lambda p: {}),
    "lg2 groupids": Fmt([("formats.subfind_lgadget2", "GroupIDsFile"), ("sims.millennium", "GroupIDsFile")], plain_ids,
                        lambda p, e: bf.lg2_ids(e, p["n"], p["id_bytes"], p["ntask"], "NTask"), lambda p: kw(p, "id_bytes")),
    "lg2 subids": Fmt([("formats.subfind_lgadget2", "SubIDsFile"), ("sims.millennium", "SubIDsFile")], plain_ids,
                      lambda p, e: bf.lg2_ids(e, p["n"], p["id_bytes"], p["ntask"], "NFiles"), lambda p: kw(p, "id_bytes")),
    "lg2 subtab": Fmt([("formats.subfind_lgadget2", "SubTabFile"), ("sims.millennium", "SubTabFile")], catalogue,
                      lambda p, e: bf.lg2_subtab(e, p["ng"], p["ns"], p["id_bytes"], p["ntask"]), lambda p: kw(p, "id_bytes")),
    "lg2 snapshot": Fmt([("formats.subfind_lgadget2", "SnapshotFile"), ("sims.millennium", "SnapshotFile")], gen_lg2snap, build_lg2snap, lambda p: {}, records=True),
    "mpa subdesc": Fmt([("formats.mpa_trees", "SubDescFile")], lambda r: dict(n=count(r)), lambda p, e: bf.mpa_subdesc(p["n"]), lambda p: {}, native=True),
    "mxxl subdesc": Fmt([("sims.mxxl", "SubDescFile")], lambda r: dict(n=count(r)), lambda p, e: bf.mxxl_subdesc(p["n"]), lambda p: {}, native=True),
    "mxxl field": Fmt([("sims.mxxl", "FieldFile")], lambda r: dict(ntask=r.choice(NTASK), nn=r.choice([1, 2, 3, 8]), slabs=r.choice([0, 1, 2, 5])),
                      lambda p, e: bf.mxxl_field(e, p["ntask"], p["nn"], p["slabs"]), lambda p: {}, records=True),
    "mpa treeaux": Fmt([("formats.mpa_trees", "TreeAuxFile")], lambda r: dict(nh=count(r), nu=count(r), nt=count(r, 9), nsnap=count(r, 9), id_bytes=r.choice([4, 8])),
                       lambda p, e: bf.mpa_treeaux(p["nh"], p["nu"], p["nt"], p["nsnap"], p["id_bytes"]), lambda p: kw(p, "id_bytes"), native=True),
    "mpa tree": Fmt([("formats.mpa_trees", "TreeFile")], lambda r: dict(nt=count(r), nh=count(r), id_bytes=r.choice([4, 8]), SAVE_MASS_TAB=r.random() < 0.5),
                    lambda p, e: bf.mpa_tree(p["nt"], p["nh"], p["id_bytes"], p["SAVE_MASS_TAB"]), lambda p: kw(p, "id_bytes", "SAVE_MASS_TAB"), native=True),
    "rockstar": Fmt([("formats.rockstar", "HalosFile")], lambda r: dict(nh=count(r), np=count(r), rev=r.choice([1, 2]), hydro=r.random() < 0.5),
                    lambda p, e: bf.rockstar(p["nh"], p["np"], p["rev"], p["hydro"]), lambda p: kw(p, "hydro"), native=True),
    "velociraptor": Fmt([("formats.velociraptor", "PropertiesFile")], lambda r: dict(ng=count(r), hsize=count(r), ikeepfof=r.choice([0, 1])),
                        lambda p, e: bf.velociraptor(p["ng"], p["hsize"], p["ikeepfof"]), lambda p: kw(p, "ikeepfof"), native=True),
}


class C17(Check):
    prop = "C17"
    modules = MODS
    quick_runs = 20000
    quick_s = 40
    rule = ("the file read was damaged (truncated, marker changed, part lost, bytes appended) or an injected I/O failure was hit while it was opened or read")
    real = ("virgo/formats/gadget_snapshot.py", "virgo/formats/subfind_*.py", "virgo/formats/mpa_trees.py", "virgo/formats/rockstar.py", "virgo/formats/velociraptor.py",
            "virgo/sims/{coco,millennium,millennium2,mxxl}.py", "virgo/util/read_binary.py", "mmap and the file system (real files in a scratch directory)")
    stubs = ("opens, maps, stats and reads of files go through dst/fio.py, which injects failures", "files are written by checks/binformats.py, independent of the readers")
    faults_possible = ["file truncated", "record marker damaged", "part of the file lost", "bytes appended"] + sorted({"%s:%s" % (s, k) for s in ("io.open", "io.map", "io.stat") for k in SITES[s]})
    assumptions = ["the caller passes the options which describe the file (size of IDs etc.), as the formats do not record them",
                   "damage inside a block which leaves its length and the record markers intact cannot be detected by any reader and is not part of the property"]

    def gen(self, rng, tier):
        if rng.random() < 0.03:
            return dict(fmt="hdf5", cls=0, endian="<", params=dict(counts=[count(rng) for _ in range(6)]), damage=["truncate", "any", rng.random(), 0] if rng.random() < 0.7 else None,
                        faults=[], seed=0)
        name = rng.choice(list(FORMATS) + ["gadget"] * 4 + ["gadget4", "lg2 snapshot"] * 2)
        f = FORMATS[name]
        p = f.gen(rng)
        case = dict(fmt=name, cls=rng.randrange(len(f.classes)), endian="<" if f.native else rng.choice("<>"), params=p, damage=None, faults=[],
                    seed=rng.randrange(1 << 30))
        r = rng.random()
        kinds = ["truncate"] * 4 + (["marker"] * 5 + ["both", "hole"] if f.records else []) + ["append"]
        if r < 0.7:
            k = rng.choice(kinds)
            if k == "truncate":
                case["damage"] = [k, rng.choice(["any", "field", "mark"]), rng.random(), rng.choice([0, 0, -1, 1, 2, -4, 4])]
            elif k == "marker":
                case["damage"] = [k, rng.random(), rng.choice(["bit", "swap", "zero", "double", "half", "minus", "plus", "random"]), rng.randrange(1 << 30)]
            elif k == "both":
                case["damage"] = [k, rng.random(), rng.choice(["zero", "swap"])]
            elif k == "hole":
                case["damage"] = [k, rng.random(), rng.choice([1, 16, 64, 512, 4096])]
            else:
                case["damage"] = [k, rng.choice([1, 3, 4, 8, 100])]
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                site = rng.choice(["io.open", "io.open", "io.map", "io.stat"])
                e = rng.choice(SITES[site])
                case["faults"].append(dict(site=site, kind=e, errno=ERRNOS[e], rank=0, nth=rng.choice([0, 1, 2, 3, rng.randrange(60)])))
        return case

    def directed(self):
        out = []
        # every byte of a small snapshot as the end of the file
        for e in "<>":
            p = dict(counts=[1, 2, 0, 0, 1, 0], table=[0, 0.5, 0, 0, 0, 0], idb=8, fltb=4, nblocks=12, extra=EXTRA[:1])
            n = len(build_gadget(p, e).data)
            for i in range(250, n, 1):
                out.append(dict(fmt="gadget", cls=0, endian=e, params=p, damage=["truncate", "at", i, 0], faults=[], seed=i))
        # transient failures at every open while a snapshot is opened
        for k in range(40):
            p = dict(counts=[3, 2, 0, 0, 1, 0], table=[0, 0, 0, 0, 0, 0], idb=8, fltb=4, nblocks=12, extra=EXTRA[:2])
            out.append(dict(fmt="gadget", cls=k % 2, endian="<", params=p, damage=None, faults=[dict(site="io.open", kind="EMFILE", errno=24, rank=0, nth=k)], seed=k))
        # records of more than 2 and nearly 4 GB, in sparse files
        for e in "<>":
            for n in (180000000, 357913900):
                out.append(dict(fmt="huge", cls=0, endian=e, params=dict(n=n), damage=None, faults=[], seed=n, huge=True))
                out.append(dict(fmt="huge", cls=0, endian=e, params=dict(n=n), damage=["truncate"], faults=[], seed=n, huge=True))
        return out

    # ---------------------------------------------------------------- run
    def execute(self, case, log=False):
        fio.install()
        with env.rundir() as d:
            self.dir = d
            sim = env.new_sim(dict(case, n=1), log=log, scratch=d)
            self.sim = sim
            self.damaged = False
            try:
                sim.run([lambda p: self.body(case)])
                sim_violation(sim)
            except Violation as v:
                raise violation_info(v, sim)
            finally:
                m = env.rank_modules[0]["virgo.util.read_binary"]
                c = getattr(m.BinaryDataset, "file_cache", None)
                if isinstance(c, dict):
                    c.clear()
            info = info_of(sim, nontrivial=bool(sim.fault_hits))
            if log:
                info["log"] = ["%s" % e[1] for e in sim.log]
            return info

    def body(self, case):
        try:
            self.play(case)
        except Violation as v:
            self.sim.violation = (v.cls, v.msg)

    def fail(self, cls, msg):
        raise Violation(cls, "%s %s (%s): %s" % (self.case["fmt"], self.clsname, "big endian" if self.case["endian"] == ">" else "little endian", msg))

    def apply(self, case, b):
        """Damaged content; sets self.limit (first byte which is missing) and self.must_fail"""
        data = bytearray(b.data)
        self.limit = len(data)
        self.must_fail = None
        self.appended = False
        dm = case["damage"]
        if dm is None:
            return bytes(data)
        hit = self.sim.hit
        e = case["endian"]
        if dm[0] == "truncate":
            if dm[1] == "at":
                n = dm[2]
            elif dm[1] == "any" or not (b.fields if dm[1] == "field" else b.marks):
                n = int(dm[2] * len(data))
            elif dm[1] == "field":
                f = b.fields[int(dm[2] * len(b.fields))]
                n = f.offset + (f.nbytes if dm[3] % 2 else 0) + dm[3]
            else:
                n = b.marks[int(dm[2] * len(b.marks))][0] + dm[3]
            n = max(0, min(n, len(data) - 1))
            hit("file truncated")
            self.limit = n
            return bytes(data[:n])
        if dm[0] == "append":
            hit("bytes appended")
            self.appended = True
            return bytes(data) + b"\x00\x01\x02\x03"[:dm[1]] * max(1, dm[1] // 4)
        if dm[0] == "hole":
            o, v, k = b.marks[int(dm[1] * len(b.marks))]
            if v == 0:
                return bytes(data)
            lo = max(o // dm[2] * dm[2], b.marks[0][0])
            hi = max(o + 4, lo + dm[2])
            data[lo:hi] = bytes(len(data[lo:hi]))
            # a record of which nothing is left but zeros is as good as an empty one
            hit("part of the file lost")
            self.must_fail = "bytes %d to %d of the file, with a record marker, were lost" % (lo, min(hi, len(data)))
            gone = [m for m in b.marks if m[1] and lo <= m[0] and m[0] + 4 <= hi]
            if not gone or lo < 4:
                if lo < 4 and hi >= len(data):
                    self.must_fail = "file of zeros"
            return bytes(data)
        k = int(dm[1] * len(b.marks))
        o, v, rec = b.marks[k]
        if dm[0] == "both":
            if rec == 0:
                return bytes(data)
            k -= k % 2
            w = 0 if dm[2] == "zero" else int(np.array(v, "<u4").byteswap())
            if w == v:
                return bytes(data)
            for j in (k, k + 1):
                data[b.marks[j][0]:b.marks[j][0] + 4] = np.array(w, dtype=e + "u4").tobytes()
            hit("record marker damaged")
            self.must_fail = "both markers of record %d changed from %d to %d" % (rec, v, w)
            return bytes(data)
        r = random.Random(dm[3])
        how = dm[2]
        w = dict(bit=v ^ (1 << r.randrange(32)), swap=int(np.array(v, "<u4").byteswap()), zero=0, double=2 * v, half=v // 2, minus=v - 4, plus=v + 4,
                 random=r.randrange(1 << 32))[how] % (1 << 32)
        if w == v:
            return bytes(data)
        if k % 2 == 0:
            q = o + 4 + w
            if data[q:q + 4] == np.array(w, dtype=e + "u4").tobytes():
                # happens to look like a complete record
                return bytes(data)
        data[o:o + 4] = np.array(w, dtype=e + "u4").tobytes()
        hit("record marker damaged")
        self.must_fail = "%s marker of record %d changed from %d to %d" % ("end" if k % 2 else "start", rec, v, w)
        return bytes(data)

    def huge(self, case):
        e, n = case["endian"], case["params"]["n"]
        self.case = case
        self.clsname = "GadgetBinarySnapshotFile"
        counts = [0, n, 0, 0, 0, 0]
        small = bf.gadget_snapshot(e, [0] * 6, [0.5] * 6, 8, 4, 3)
        head = bytearray(small.data[:264])
        head[4:28] = np.array(counts, dtype=e + "i4").tobytes()
        name = self.dir + "/huge.dat"
        want = {}
        cut = 4 if case["damage"] else 0
        with fio.real_open(name, "wb") as g:
            g.write(head)
            p = 264
            for j, (ds, d, w) in enumerate((("Coordinates", "f4", 3), ("Velocities", "f4", 3), ("ParticleIDs", "i8", 1))):
                size = np.dtype(d).itemsize * w * n
                m = np.array(size, dtype=e + "u4").tobytes()
                first, last = (np.arange(w) + 10 * j + 1).astype(d), (np.arange(w) + 10 * j + 5).astype(d)
                g.seek(p)
                g.write(m + first.astype(e + d).tobytes())
                g.seek(p + 4 + size - last.nbytes)
                g.write(last.astype(e + d).tobytes() + m)
                p += size + 8
                want["PartType1/" + ds] = (first, last)
            g.truncate(p - cut)
        if cut:
            self.sim.hit("file truncated")
        G = V("formats.gadget_snapshot").GadgetBinarySnapshotFile
        try:
            f = G(name)
        except IOError as x:
            if cut:
                return
            self.fail("exception:IOError", "records of more than 2 GB: %s" % x)
        if cut:
            self.fail("accepted", "the last record marker is missing")
        for k, (a, b) in want.items():
            for i, w in ((0, a), (n - 1, b)):
                if not np.array_equal(np.ravel(f[k][i]), w):
                    self.fail("misread", "%s[%d] is %r, written %r" % (k, i, f[k][i], w))
        f.close()

    def snapshot_hdf5(self, case):
        self.case = case
        self.clsname = "open"
        name = self.dir + "/file.hdf5"
        counts = case["params"]["counts"]
        want = {}
        with fio.plain():
            with h5py.File(name, "w") as f:
                f.create_group("Header").attrs["NumPart_ThisFile"] = counts
                for i, n in enumerate(counts):
                    if n:
                        k = "PartType%d/Coordinates" % i
                        want[k] = f[k] = bf.particle("Coordinates", i, np.arange(n), "f4", (3,))
            size = os.path.getsize(name)
            dm = case["damage"]
            if dm is not None:
                self.sim.hit("file truncated")
                os.truncate(name, min(size - 1, int(dm[2] * size)))
        try:
            f = V("formats.gadget_snapshot").open(name)
        except Exception as x:
            if dm is None:
                self.fail("exception:" + type(x).__name__, "intact HDF5 snapshot: %s" % x)
            self.sim.probe("damaged file refused")
            return
        if dm is not None:
            self.fail("accepted", "truncated HDF5 snapshot")
        for k, v in want.items():
            if not np.array_equal(f[k][...], v):
                self.fail("misread", "%s differs" % k)
        f.close()

    def play(self, case):
        if case["fmt"] == "huge":
            return self.huge(case)
        if case["fmt"] == "hdf5":
            return self.snapshot_hdf5(case)
        sim = self.sim
        fm = FORMATS[case["fmt"]]
        self.case = case
        mod, self.clsname = fm.classes[case["cls"] % len(fm.classes)]
        cls = getattr(V(mod), self.clsname)
        e = case["endian"] if not fm.native else bf.NATIVE
        b = fm.build(case["params"], e)
        rng = random.Random(case["seed"])
        name = self.dir + "/file.dat"
        with fio.plain():
            with fio.real_open(name, "wb") as g:
                g.write(self.apply(case, b))
        args = fm.kwargs(case["params"])
        if "extra" in args and rng.random() < 0.5:
            args["extra"] = list(args["extra"])
        args = leave_out(case["fmt"], args, rng)
        damaged = self.must_fail is not None or self.limit < len(b.data)

        def attempt(fn, what):
            """Result, or the exception if the damage explains it"""
            while True:
                before = sum(sim.fault_hits.values())
                try:
                    return fn(), None
                except Violation:
                    raise
                except Exception as x:
                    struck = sum(sim.fault_hits.values()) > before
                    sim.event(0, "%s: %s%s" % (what, type(x).__name__, " (injected)" if struck else ""))
                    if struck:
                        sim.probe("failure reported, access repeated")
                        continue
                    return None, x

        def explain(x, what):
            import traceback
            self.fail("exception:%s" % type(x).__name__, "%s raised %s: %s\n%s" % (what, type(x).__name__, x, "".join(traceback.format_tb(x.__traceback__)[-3:])))
        f, x = attempt(lambda: cls(name, **args), "open")
        if x is not None:
            if not damaged and not (self.appended and fm.records):
                explain(x, "opening an intact file")
            sim.probe("damaged file refused")
            return
        if self.must_fail:
            self.fail("accepted", "opened although %s" % self.must_fail)
        sim.event(0, "opened %s %s %s %s" % (case["fmt"], e, len(b.data), self.limit))
        if not damaged and not self.appended:
            self.names(f, b)
        fields = list(b.fields)
        rng.shuffle(fields)
        refused = 0
        for fd in fields:
            keys = [Ellipsis]
            if fd.value.ndim and fd.value.shape[0]:
                n = fd.value.shape[0]
                a = rng.randrange(n)
                keys = rng.choice([[Ellipsis], [slice(a, None), Ellipsis], [a], [slice(0, a + 1)], [()], [slice(None, None, 2), -1]])
            for k in keys:
                what = "%s[%s]" % (fd.name, k)
                if fd.attr:
                    h, t = fd.name.rsplit("/", 1)
                    got, x = attempt(lambda: f[h].attrs[t] if k is Ellipsis or not fd.value.ndim else f[h].attrs[t][k], what)
                else:
                    got, x = attempt(lambda: f[fd.name][k], what)
                want = fd.value[k]
                if x is not None:
                    if not damaged:
                        explain(x, "reading %s of an intact file" % what)
                    refused += 1
                    continue
                if not equal(got, want):
                    self.fail("misread", "%s is %r, written %r%s" % (what, got, want, " (file cut at byte %d of %d, field at %d)" % (self.limit, len(b.data), fd.offset) if damaged else ""))
                if not same_type(got, fd.dtype):
                    self.fail("wrong-type", "%s has type %s, written %s" % (what, np.asarray(got).dtype, fd.dtype))
                last = fd.offset + fd.nbytes
                if isinstance(k, slice) or isinstance(k, int):
                    continue
                if last > self.limit and fd.nbytes:
                    self.fail("out-of-range", "%s was read although the file ends at %d before %d" % (what, self.limit, last))
        if refused:
            sim.probe("missing part refused")
        if hasattr(f, "sanity_check"):
            _, x = attempt(f.sanity_check, "sanity_check")
            if x is None and fm.allbytes and (damaged or self.appended):
                self.fail("sanity-check", "passes although the file has %s" % ("extra bytes" if self.appended else "%d of %d bytes" % (self.limit, len(b.data))))
            if x is not None and not damaged and not self.appended:
                explain(x, "sanity_check of an intact file")
            if x is None:
                sim.probe("sanity check passed")
        if hasattr(f, "close"):
            f.close()
        del f
        with fio.plain():
            left = fio.open_files(self.dir)
        if left:
            self.fail("leak", "still open after close: %s" % sorted(left))

    def names(self, f, b):
        """Datasets and attributes the reader offers"""
        seen = set()

        def walk(g, prefix):
            for a in getattr(g, "attrs", ()):
                seen.add(("attr", prefix + a))
            for k in g:
                x = g[k]
                if hasattr(x, "keys"):
                    walk(x, prefix + k + "/")
                else:
                    seen.add(("ds", prefix + k))
        walk(f, "")
        want = {("attr" if d.attr else "ds", d.name) for d in b.fields}
        if seen != want:
            self.fail("names", "offers %s; lacks %s" % (sorted(seen - want), sorted(want - seen)))

    # ---------------------------------------------------------------- shrink
    def shrink(self, case):
        for i in range(len(case["faults"])):
            c = copy.deepcopy(case)
            del c["faults"][i]
            yield c
        if case["damage"] is not None:
            yield dict(copy.deepcopy(case), damage=None)
        p = case["params"]
        for k, v in p.items():
            if isinstance(v, list) and v:
                for i in range(len(v)):
                    c = copy.deepcopy(case)
                    if k == "extra" or k == "keys":
                        del c["params"][k][i]
                        yield c
                    elif isinstance(v[i], int) and v[i]:
                        c["params"][k][i] = 0 if v[i] == 1 else v[i] // 2
                        yield c
            elif isinstance(v, int) and not isinstance(v, bool) and k in ("ng", "ns", "n", "nh", "nu", "nt", "nsnap", "np", "minlen", "hsize") and v:
                c = copy.deepcopy(case)
                c["params"][k] = v // 2
                if not (k == "ng" and v == 1 and p.get("ns")):
                    yield c
        if case["endian"] == ">":
            yield dict(copy.deepcopy(case), endian="<")
        if case["cls"]:
            yield dict(copy.deepcopy(case), cls=0)


CHECK = C17()
