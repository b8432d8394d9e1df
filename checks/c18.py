import copy
import os
import random

import h5py
import numpy as np

from dst import env, fio
from dst.env import V
from dst.harness import Check, Violation, sim_violation, info_of, violation_info
from . import binformats as bf
from .c16 import equal, ERRNOS, SITES
from .c17 import cell_centres

MODS = ["virgo.util.read_binary", "virgo.util.read_multi", "virgo.formats.gadget_snapshot", "virgo.formats.subfind_gadget4", "virgo.formats.subfind_pgadget3",
        "virgo.formats.subfind_lgadget2", "virgo.sims.coco", "virgo.sims.millennium", "virgo.sims.millennium2", "virgo.sims.eagle", "virgo.util.peano"]
NAMES = ("Coordinates", "Velocities", "ParticleIDs")


def split(rng, n, k):
    """n elements over k files, some possibly empty"""
    style = rng.random()
    if style < 0.4:
        cuts = sorted(rng.randint(0, n) for _ in range(k - 1))
    elif style < 0.7:
        cuts = [n * (i + 1) // k for i in range(k - 1)]
    else:
        keep = rng.sample(range(k), max(1, k // 2))
        c = [0] * k
        for _ in range(n):
            c[rng.choice(keep)] += 1
        return c
    b = [0] + cuts + [n]
    return [b[i + 1] - b[i] for i in range(k)]


def boundary_split(rng, offsets, n, k):
    """Like split, with boundaries at or next to the ends of groups"""
    if not offsets or rng.random() < 0.4:
        return split(rng, n, k)
    cuts = sorted(min(n, max(0, rng.choice(offsets) + rng.choice([0, 0, 0, 1, -1]))) for _ in range(k - 1))
    b = [0] + cuts + [n]
    return [b[i + 1] - b[i] for i in range(k)]


class C18(Check):
    prop = "C18"
    modules = MODS
    quick_runs = 12000
    quick_s = 40
    rule = "at least one group, range, region or list of files was read, and a file boundary lay inside or an injected failure or missing file was met"
    real = ("virgo/formats/subfind_gadget4.py", "virgo/formats/subfind_pgadget3.py", "virgo/formats/subfind_lgadget2.py", "virgo/formats/gadget_snapshot.py",
            "virgo/util/read_multi.py", "virgo/util/read_binary.py", "virgo/util/peano.py", "virgo/sims/{coco,millennium,millennium2,eagle}.py", "h5py and the HDF5 library",
            "the file system (real files in a scratch directory)")
    stubs = ("opens, maps, stats and reads of binary files go through dst/fio.py, which injects failures", "files are written by checks/binformats.py, independent of the readers")
    faults_possible = ["file missing", "file damaged"] + sorted({"%s:%s" % (s, k) for s in ("io.open", "io.map") for k in SITES[s]})
    assumptions = ["ranges and groups are not empty and lie within the snapshot; datasets asked for exist in at least one file",
                   "files are not changed while an object reads them, except that they may be missing or cut short for a while"]

    # ---------------------------------------------------------------- generation
    def gen(self, rng, tier):
        kind = rng.choice(["g4"] * 4 + ["pg3"] * 4 + ["lg2"] * 3 + ["multi"] * 2 + ["eagle"])
        case = dict(n=1, kind=kind, seed=rng.randrange(1 << 30), faults=[], wrap=rng.random() < 0.4, endian=rng.choice("<>"))
        if rng.random() < 0.6 and kind != "eagle":
            for _ in range(rng.choice([1, 1, 2, 3])):
                site = rng.choice(["io.open", "io.open", "io.open", "io.map"])
                e = rng.choice(SITES[site])
                case["faults"].append(dict(site=site, kind=e, errno=ERRNOS[e], rank=0, nth=rng.choice([0, 1, 2, 5, rng.randrange(40)])))
        getattr(self, "gen_" + kind)(rng, case)
        if kind in ("g4", "pg3") and rng.random() < 0.04:
            self.gen_far(rng, case)
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5, 8, 12])):
            r = rng.random()
            if r < 0.72:
                ops.append(["read", rng.random(), rng.randrange(1 << 20)])
            elif r < 0.8:
                ops.append(["hide", rng.random(), rng.choice(["missing", "short"]), rng.random()])
            elif r < 0.92:
                ops.append(["show"])
            elif r < 0.97:
                ops.append(["whole", rng.randrange(1 << 20)])
            else:
                ops.append(["new"])
        case["ops"] = ops
        return case

    def gen_g4(self, rng, case):
        ng = rng.choice([0, 1, 2, 3, 5, 8])
        ntypes = rng.choice([1, 2, 6])
        types = rng.sample(range(6), ntypes)
        lens = [[rng.choice([0, 1, 2, 5, rng.randrange(12)]) if t in types else 0 for t in range(6)] for _ in range(ng)]
        subs = []
        for g in lens:
            left = list(g)
            s = []
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                k = [rng.randint(0, x) for x in left]
                left = [a - b for a, b in zip(left, k)]
                s.append(k)
            subs.append(s)
        nt = rng.choice([1, 2, 3, 5])
        nsub = sum(len(s) for s in subs)
        nf = rng.choice([1, 2, 3, 5, 8])
        files = []
        for t in range(6):
            ends = [sum(g[t] for g in lens[:i + 1]) for i in range(ng)]
            tot = (ends[-1] if ends else 0) + (rng.choice([0, 0, 1, 7]) if t in types else 0)
            files.append(boundary_split(rng, ends, tot, nf))
        case.update(lens=lens, subs=subs, tabg=split(rng, ng, nt), tabs=split(rng, nsub, nt), files=[list(x) for x in zip(*files)], idb=rng.choice([4, 8]),
                    fltb=rng.choice([4, 8]), dp=rng.random() < 0.5, hdf5=rng.random() < 0.2, many=rng.random() < 0.1)

    def gen_pg3(self, rng, case):
        ng = rng.choice([1, 1, 2, 3, 5, 8])
        lens = [rng.choice([1, 2, 5, 1 + rng.randrange(12)]) for _ in range(ng)]
        gap = rng.choice([0, 0, 3])
        subs = []
        for g in lens:
            s = []
            o = 0
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                if o < g:
                    k = rng.randint(1, g - o)
                    s.append([o, k])
                    o += k
            subs.append(s)
        nt = rng.choice([1, 2, 3, 5])
        nf = rng.choice([1, 2, 3, 5, 8])
        ends = [sum(lens[:i + 1]) for i in range(ng)]
        tot = ends[-1] + gap
        files = boundary_split(rng, ends, tot, nf)
        case.update(lens=lens, subs=subs, tabg=split(rng, ng, nt), files=files, other=[rng.choice([0, 0, 2]) for _ in range(nf)], idb=rng.choice([4, 8]), fltb=rng.choice([4, 8]),
                    sfltb=rng.choice([4, 8]), vd=rng.random() < 0.3, hdf5=rng.random() < 0.2)

    def gen_far(self, rng, case):
        """Small groups after (or before) huge ones, beyond what 31 or 32 bits can count; only rows next to them exist in the files"""
        big = 2 ** 31 - 1
        limit = rng.choice([2 ** 31, 2 ** 31, 2 ** 32] if case["kind"] == "pg3" else [2 ** 31, 2 ** 32, 2 ** 33])
        case.update(far=True, hdf5=True, idb=8, fltb=8)
        small = lambda: [rng.randrange(1, 12) for _ in range(rng.choice([2, 3, 5]))]
        lens, tail = small(), small()
        left = limit - (sum(tail) if limit == 2 ** 32 and case["kind"] == "pg3" else rng.randrange(40))
        left -= sum(lens)
        at = len(lens)
        while left > big:
            lens.append(big - rng.randrange(5))
            left -= lens[-1]
        lens += [left] + tail
        case["pick"] = list(range(at)) + list(range(len(lens) - len(tail), len(lens)))
        subs, o = [], 0
        for n in lens:
            s, p = [], 0
            while n < 100 and p < n and rng.random() < 0.7 and (case["kind"] == "g4" or o + p < 2 ** 31):
                k = rng.randint(1, n - p)
                s.append([p, k])
                p += k
            subs.append(s)
            o += n
        ends = np.cumsum(lens).tolist()
        nf = rng.choice([2, 3, 5, 8])
        while True:
            cuts = sorted(min(o, max(0, rng.choice([rng.choice(ends) + rng.randint(-3, 3), rng.randrange(o)]))) for _ in range(nf + 1))
            b = [0] + cuts + [o]
            files = [y - x for x, y in zip(b, b[1:])]
            if max(files) <= big:
                break
            nf += 1
        if case["kind"] == "pg3":
            case.update(lens=lens, subs=subs, files=files, other=[rng.choice([0, 0, 2]) for _ in files])
        else:
            t = rng.randrange(6)
            one = lambda n: [n if i == t else 0 for i in range(6)]
            case.update(lens=[one(n) for n in lens], subs=[[one(k) for _, k in s] for s in subs], files=[one(n) for n in files], fartype=t)
            case["tabs"] = split(rng, sum(map(len, subs)), len(case["tabs"]))
        case["tabg"] = split(rng, len(lens), len(case["tabg"]))

    def gen_lg2(self, rng, case):
        bits = rng.choice([1, 2, 2, 3])
        cells = (1 << bits) ** 3
        n = rng.choice([0, 1, 5, 40, 100])
        hot = [rng.randrange(cells) for _ in range(3)]
        keys = sorted(rng.choice(hot) if rng.random() < 0.3 else rng.randrange(cells) for _ in range(n))
        nf = rng.choice([1, 2, 3, 5, 8])
        cuts = sorted(rng.randint(0, cells) for _ in range(nf - 1))
        b = [0] + cuts + [cells]
        case.update(bits=bits, keys=keys, cells=[[b[i], b[i + 1] - 1] for i in range(nf)], box=rng.choice([64.0, 500.0]))

    def gen_multi(self, rng, case):
        nf = rng.choice([1, 2, 3, 5])
        rows = [rng.choice([0, 1, 2, 5]) for _ in range(nf)]
        lack = [[rng.random() < 0.2 for _ in range(3)] for _ in range(nf)]
        for j in range(3):
            lack[rng.randrange(nf)][j] = False
        case.update(rows=rows, lack=lack, axis=rng.choice([0, 0, 1]), hdf5=rng.random() < 0.7)

    def gen_eagle(self, rng, case):
        labels = ["z%03dp%03d" % (rng.randrange(30), rng.randrange(1000)) for _ in range(4)]
        case.update(labels=labels, nf=rng.choice([1, 2, 12]))

    # ---------------------------------------------------------------- run
    def execute(self, case, log=False):
        fio.install()
        with env.rundir() as d:
            self.dir = d
            sim = env.new_sim(case, log=log, scratch=d)
            self.sim = sim
            self.case = case
            self.met = False
            self.reads = 0
            try:
                sim.run([lambda p: self.body(case)])
                sim_violation(sim)
            except Violation as v:
                raise violation_info(v, sim)
            finally:
                self.obj = None
                m = env.rank_modules[0]["virgo.util.read_binary"]
                c = getattr(m.BinaryDataset, "file_cache", None)
                if isinstance(c, dict):
                    c.clear()
                e = env.rank_modules[0]["virgo.sims.eagle"].eagle_filename.__defaults__
                for x in e or ():
                    if isinstance(x, dict):
                        x.clear()
            info = info_of(sim, nontrivial=self.reads > 0 and (self.met or bool(sim.fault_hits)))
            if log:
                info["log"] = ["%s" % e[1] for e in sim.log]
            return info

    def body(self, case):
        try:
            self.play(case)
        except Violation as v:
            self.sim.violation = (v.cls, v.msg)

    def fail(self, cls, msg):
        raise Violation(cls, "%s: %s" % (self.case["kind"], msg))

    def write(self, name, data):
        os.makedirs(os.path.dirname(name), exist_ok=True)
        with fio.real_open(name, "wb") as f:
            f.write(data)
        self.files.append(name)

    def play(self, case):
        sim = self.sim
        self.files = []
        self.hidden = set()
        with fio.plain():
            getattr(self, "make_" + case["kind"])(case)
        self.obj = None
        held = []
        new = getattr(self, "new_" + case["kind"])
        for i, op in enumerate(case["ops"]):
            tries = 0
            while True:
                before = sum(sim.fault_hits.values())
                outcome = "ok"
                try:
                    if op[0] in ("read", "new", "whole") and (self.obj is None or op[0] == "new"):
                        self.obj = None
                        self.obj = new(case)
                    if op[0] in ("read", "whole"):
                        rng = random.Random(op[-1])
                        r = getattr(self, op[0] + "_" + case["kind"])(case, op, rng)
                        self.reads += 1
                        if isinstance(r, list):
                            held += [(a, a.tobytes(), i) for a in r][:40]
                    elif op[0] == "hide":
                        self.hide(op)
                    elif op[0] == "show":
                        self.show()
                except Violation:
                    raise
                except Exception as x:
                    struck = sum(sim.fault_hits.values()) > before
                    outcome = type(x).__name__
                    if not struck and not self.hidden:
                        import traceback
                        self.fail("exception:%s" % outcome, "operation %d %s raised %s: %s\n%s" % (i, op, outcome, x, "".join(traceback.format_tb(x.__traceback__)[-3:])))
                    sim.probe("failure reported")
                    if struck and tries < 5:
                        tries += 1
                        sim.event(0, "op %d %s: %s, repeated" % (i, op[0], outcome))
                        continue
                break
            sim.event(0, "op %d %s: %s %d" % (i, op[0], outcome, self.reads))
            for a, b, j in held:
                if a.tobytes() != b:
                    self.fail("result-changed", "the result of operation %d changed by operation %d %s" % (j, i, op))
        self.show()

    def hide(self, op):
        if not self.files or self.case["kind"] == "eagle":
            return
        f = self.files[int(op[1] * len(self.files))]
        if f in self.hidden:
            return
        os.rename(f, f + ".away")
        self.hidden.add(f)
        if op[2] == "short":
            with fio.plain():
                with fio.real_open(f + ".away", "rb") as g:
                    d = g.read()
                with fio.real_open(f, "wb") as g:
                    g.write(d[:int(op[3] * len(d))])
            self.sim.hit("file damaged")
        else:
            self.sim.hit("file missing")

    def show(self):
        for f in sorted(self.hidden):
            os.rename(f + ".away", f)
        self.hidden.clear()

    def same(self, got, want, what):
        if not equal(got, want):
            self.fail("wrong-data", "%s is %r, should be %r" % (what, got, want))

    # ---------------------------------------------------------------- snapshots of Gadget
    def snapshot_files(self, case, counts, fltb, idb):
        nf = len(counts)
        start = np.zeros(6, dtype=int)
        for i, c in enumerate(counts):
            rows = [np.arange(c[t]) + start[t] if not case.get("far") else None for t in range(6)]
            start += c
            name = self.dir + "/snapdir_%03d/%s_%03d.%d" % (self.isnap, "snap_x", self.isnap, i)
            if case["hdf5"]:
                os.makedirs(os.path.dirname(name), exist_ok=True)
                with h5py.File(name, "w") as f:
                    h = f.create_group("Header")
                    h.attrs["NumPart_ThisFile"] = np.array(c, dtype="i4")
                    h.attrs["NumFilesPerSnapshot"] = np.int32(nf)
                    h.attrs["NumPart_Total"] = np.array(c, dtype="u4")
                    h.attrs["NumPart_Total_HighWord"] = np.zeros(6, dtype="u4")
                    for t in range(6):
                        if c[t] and case.get("far"):
                            self.far_particles(case, f, t, int(start[t]) - c[t], c[t])
                        elif c[t]:
                            for k, d, s in (("Coordinates", "f%d" % fltb, (3,)), ("Velocities", "f%d" % fltb, (3,)), ("ParticleIDs", "i%d" % idb, ())):
                                f["PartType%d/%s" % (t, k)] = bf.particle(k, t, rows[t], d, s)
                self.files.append(name)
            else:
                b = bf.gadget_snapshot(case["endian"], c, [0.5] * 6, idb, fltb, 3, nfiles=nf, rows=rows)
                self.write(name, b.data)
        self.isnap_files = nf

    def far_particles(self, case, f, t, first, n):
        """Datasets with the rows next to small groups only"""
        near = np.array(self.near, dtype=np.int64)
        rows = np.unique(near[:, None] + np.arange(-20, 20)[None, :])
        rows = rows[(rows >= first) & (rows < first + n)]
        for k, d, s in (("Coordinates", "f8", (3,)), ("Velocities", "f8", (3,)), ("ParticleIDs", "i8", ())):
            ds = f.create_dataset("PartType%d/%s" % (t, k), (n,) + s, d, chunks=(64,) + s, maxshape=(None,) + s)
            if len(rows):
                v = bf.particle(k, t, rows, d, s)
                for q in np.split(np.arange(len(rows)), np.flatnonzero(np.diff(rows) != 1) + 1):
                    ds[int(rows[q[0]] - first):int(rows[q[-1]] - first) + 1] = v[q]

    def want_particles(self, t, first, n, k, fltb, idb):
        rows = np.arange(first, first + n)
        return bf.particle(k, t, rows, "i%d" % idb if k == "ParticleIDs" else "f%d" % fltb, () if k == "ParticleIDs" else (3,))

    # ---------------------------------------------------------------- Gadget-4
    def make_g4(self, case):
        self.isnap = 7
        lens = np.array(case["lens"], dtype=int).reshape(-1, 6)
        nsubs = np.array([len(s) for s in case["subs"]], dtype=int)
        first = np.cumsum(nsubs) - nsubs
        slen = np.array([k for s in case["subs"] for k in s], dtype=int).reshape(-1, 6)
        grnr = np.repeat(np.arange(len(nsubs)), nsubs)
        self.nsubs, self.first, self.slen, self.lens = nsubs, first, slen, lens
        self.off = np.cumsum(lens, axis=0) - lens
        nt = len(case["tabg"])
        g = s = 0
        self.tabs = []
        for i in range(nt):
            ng, ns = case["tabg"][i], case["tabs"][i]
            b = bf.g4_subtab(case["endian"], ng, ns, case["idb"], case["dp"], nt, lentype=lens[g:g + ng], nsubs=nsubs[g:g + ng], firstsub=first[g:g + ng],
                             sublentype=slen[s:s + ns], grnr=grnr[s:s + ns], salt=100 * i)
            g += ng
            s += ns
            self.tabs.append(b)
            self.write(self.dir + "/groups_%03d/fof_subhalo_tab_%03d.%d" % (self.isnap, self.isnap, i), b.data)
        if case.get("far"):
            o = self.off[:, case["fartype"]]
            self.near = [x for i in case["pick"] for x in (o[i], o[i] + lens[i, case["fartype"]])]
        self.snapshot_files(case, case["files"], case["fltb"], case["idb"])

    def new_g4(self, case):
        m = V("sims.coco") if case["wrap"] else V("formats.subfind_gadget4")
        return m.GroupOrderedSnapshot(self.dir, "snap_x", self.isnap, id_bytes=case["idb"])

    def pick(self, case, op, n):
        """One of the groups which can be read (not those of billions of particles)"""
        k = [i for i in case["pick"] if i < n] if case.get("far") else range(n)
        return k[int(op[1] * len(k))]

    def read_g4(self, case, op, rng):
        ng = len(self.lens)
        if not ng:
            return
        i = self.pick(case, op, ng)
        how = rng.choice(["int", "np", "tuple", "list"])
        if how in ("tuple", "list"):
            f, k = 0, i
            while k >= case["tabg"][f]:
                k -= case["tabg"][f]
                f += 1
            arg = (f, k) if how == "tuple" else [f, k]
        else:
            arg = i if how == "int" else np.int64(i)
        r = self.obj.read_fof_group(arg)
        if len(r) != 6:
            self.fail("wrong-data", "%d particle types" % len(r))
        out = []
        for t in range(6):
            n, o = self.lens[i, t], self.off[i, t]
            if n:
                ends = np.cumsum([c[t] for c in case["files"]])
                self.met |= bool(np.any((ends > o) & (ends < o + n)))
            for k in NAMES:
                w = self.want_particles(t, o, n, k, case["fltb"], case["idb"])
                if k not in r[t]:
                    if n:
                        self.fail("rows-missing", "group %d type %d: no %s, %d particles belong to it" % (i, t, k, n))
                    continue
                if len(r[t][k]) != n:
                    self.fail("rows-missing" if len(r[t][k]) < n else "extra-rows", "group %d type %d: %d rows of %s, %d belong to it (%r)" % (i, t, len(r[t][k]), k, n, case["files"]))
                self.same(r[t][k], w, "group %d type %d %s" % (i, t, k))
                out.append(r[t][k])
            w = -np.ones(n, dtype="i4")
            p = 0
            for s in range(self.first[i], self.first[i] + self.nsubs[i]):
                w[p:p + self.slen[s, t]] = s
                p += self.slen[s, t]
            if n:
                if "SubNr" not in r[t]:
                    self.fail("rows-missing", "no SubNr")
                if not np.array_equal(r[t]["SubNr"], w):
                    self.fail("wrong-data", "group %d type %d SubNr is %r, should be %r" % (i, t, r[t]["SubNr"], w))
                out.append(r[t]["SubNr"])
        return out

    def whole_g4(self, case, op, rng):
        m = V("sims.coco") if case["wrap"] else V("formats.subfind_gadget4")
        want = self.whole_fields()
        names = sorted(want)
        full = "GroupLen" in want and "SubLen" in want
        if not full or rng.random() < 0.5:
            names = rng.sample(names, min(len(names), rng.choice([1, 3, 30])))
            cat = m.GroupCatalogue(self.dir, self.isnap, id_bytes=case["idb"], datasets=names)
        else:
            cat = m.GroupCatalogue(self.dir, self.isnap, id_bytes=case["idb"])
        return self.catalogue(cat, names, want)

    def whole_fields(self):
        want = {}
        for b in self.tabs:
            for f in b.fields:
                if f.value.ndim:
                    want.setdefault(f.name, []).append(f.value)
        return {k: np.concatenate(v) for k, v in want.items()}

    def catalogue(self, cat, names, want):
        if sorted(cat) != sorted(names) or len(cat) != len(names):
            self.fail("names", "catalogue has %s, should have %s" % (sorted(cat), sorted(names)))
        for k in names:
            self.same(cat[k], want[k], "catalogue %s" % k)
        self.met |= len(self.tabs) > 1
        return [cat[k] for k in names]

    # ---------------------------------------------------------------- P-Gadget3
    def make_pg3(self, case):
        self.isnap = 63
        nt = len(case["tabg"])
        lens = case["lens"]
        self.goff = np.cumsum(lens) - lens
        self.tabs = []
        self.sub = []
        g = 0
        nsub_total = sum(len(s) for s in case["subs"])
        for i in range(nt):
            ng = case["tabg"][i]
            mine = case["subs"][g:g + ng]
            so, sl = [], []
            for j, s in enumerate(mine):
                for o, k in s:
                    so.append(self.goff[g + j] + o)
                    sl.append(k)
            b = bf.pg3_subtab(case["endian"], ng, len(so), case["idb"], case["sfltb"], nt, case["vd"], lens=lens[g:g + ng], nsubs=[len(s) for s in mine], sub0=len(self.sub),
                              off0=int(self.goff[g]) if ng else 0, grp0=g, totg=len(lens), tots=nsub_total, suboff=so, sublen=sl, salt=100 * i)
            self.sub += list(zip(so, sl))
            g += ng
            self.tabs.append(b)
            self.write(self.dir + "/groups_%03d/subhalo_tab_%03d.%d" % (self.isnap, self.isnap, i), b.data)
        self.total = sum(case["files"])
        if case.get("far"):
            self.near = [x for i in case["pick"] for x in (int(self.goff[i]), int(self.goff[i]) + lens[i])]
        self.snapshot_files(case, [[0, a, b, 0, 0, b] for a, b in zip(case["files"], case["other"])], case["fltb"], case["idb"])

    def pg3(self, case):
        return V("sims.millennium2") if case["wrap"] else V("formats.subfind_pgadget3")

    def new_pg3(self, case):
        return self.pg3(case).GroupOrderedSnapshot(self.dir, "snap_x", self.isnap, SO_VEL_DISPERSIONS=case["vd"], id_bytes=case["idb"], float_bytes=case["sfltb"])

    def read_pg3(self, case, op, rng):
        how = rng.choice(["fof", "fof", "sub", "sub", "range", "range"])
        names = rng.choice([None, None, ["ParticleIDs"], ("Velocities", "Coordinates")])
        kw = {} if names is None else dict(datasets=names)
        if how == "sub" and self.sub:
            i = int(op[1] * len(self.sub))
            o, n = self.sub[i]
            r = self.obj.read_subfind_group(i, **kw)
        elif how == "range":
            if not self.total:
                return
            o = int(op[1] * self.total)
            n = rng.randint(1, self.total - o)
            if case.get("far"):
                o = min(self.total - 1, max(0, rng.choice(self.near) + rng.randint(-18, 0)))
                n = min(self.total - o, rng.randint(1, 18))
            r = self.obj.read_particle_range(o, n, **kw)
        else:
            i = self.pick(case, op, len(case["lens"]))
            o, n = int(self.goff[i]), case["lens"][i]
            r = self.obj.read_fof_group(i, **kw)
        names = names or NAMES
        if sorted(r) != sorted(names):
            self.fail("names", "returned %s instead of %s" % (sorted(r), sorted(names)))
        ends = np.cumsum(case["files"])
        self.met |= bool(np.any((ends > o) & (ends < o + n)))
        for k in names:
            if len(r[k]) != n:
                self.fail("rows-missing" if len(r[k]) < n else "extra-rows", "%s: %d rows of %s, %d belong to it" % (how, len(r[k]), k, n))
            self.same(r[k], self.want_particles(1, o, n, k, case["fltb"], case["idb"]), "%s %s" % (how, k))
        return [r[k] for k in names]

    def whole_pg3(self, case, op, rng):
        want = self.whole_fields()
        names = sorted(want)
        kw = dict(SO_VEL_DISPERSIONS=case["vd"], id_bytes=case["idb"], float_bytes=case["sfltb"])
        if rng.random() < 0.5:
            names = rng.sample(names, rng.choice([1, 3, 20]))
            kw["datasets"] = names
        return self.catalogue(self.pg3(case).GroupCatalogue(self.dir, self.isnap, **kw), names, want)

    # ---------------------------------------------------------------- L-Gadget2
    def make_lg2(self, case):
        self.isnap = 3
        n = 1 << case["bits"]
        self.cellsize = case["box"] / n
        keys = np.array(case["keys"], dtype=int)
        self.centre = cell_centres(case["bits"])
        frac = 0.125 + 0.75 * ((np.arange(len(keys))[:, None] * np.array([3, 5, 7])) % 11) / 11.0
        self.pos = ((self.centre[keys] + frac) * self.cellsize).astype("f4")
        for i, (a, b) in enumerate(case["cells"]):
            sel = (keys >= a) & (keys <= b)
            rows = np.flatnonzero(sel)
            d = bf.lg2_snapshot(case["endian"], keys[sel], case["box"], n ** 3, a, b, nfiles=len(case["cells"]), rows=rows, pos=self.pos[sel])
            self.write(self.dir + "/snapdir_%03d/%s_%03d.%d" % (self.isnap, "snap_x", self.isnap, i), d.data)
        self.keys = keys

    def new_lg2(self, case):
        m = V("sims.millennium") if case["wrap"] else V("formats.subfind_lgadget2")
        return m.Snapshot(self.dir, "snap_x", self.isnap)

    def read_lg2(self, case, op, rng):
        n = 1 << case["bits"]
        if rng.random() < 0.5:
            k = rng.choice([1, 2, 5, n ** 3])
            cells = sorted({rng.randrange(n ** 3) for _ in range(k)})
            arg = np.array(cells)
            if rng.random() < 0.3:
                arg = np.array(rng.sample(cells, len(cells)) + cells[:1])
            r = self.obj.read_cells(arg)
        else:
            box = case["box"]
            coords = []
            sel = np.ones(len(self.centre), dtype=bool)
            for d in range(3):
                a = rng.uniform(-0.3, 1.0)
                b = a + rng.choice([0.0, 0.1, 0.5, 0.95]) * rng.random()
                if rng.random() < 0.3:
                    # exactly on a cell boundary
                    a = round(a * n) / n
                coords += [a * box, b * box] if b >= a else [a * box, a * box]
                lo, hi = np.floor(coords[-2] / self.cellsize), np.floor(coords[-1] / self.cellsize)
                want = set(np.mod(np.arange(lo, hi + 1), n).astype(int).tolist())
                sel &= np.isin(self.centre[:, d], list(want))
            cells = np.flatnonzero(sel)
            r = self.obj.read_region(coords)
        rows = np.flatnonzero(np.isin(self.keys, cells))
        self.met |= len(case["cells"]) > 1
        want = (self.pos[rows], bf.particle("Velocities", 1, rows, "f4", (3,)), bf.particle("ParticleIDs", 1, rows, "u8", ()))
        for name, g, w in zip(NAMES, r, want):
            self.same(g, w, "%s in cells %s" % (name, list(cells)[:20]))
        return list(r)

    def whole_lg2(self, case, op, rng):
        r = self.obj.read_cells(np.arange((1 << case["bits"]) ** 3))
        self.same(r[0], self.pos, "all coordinates")
        return list(r)

    # ---------------------------------------------------------------- read_multi
    def make_multi(self, case):
        self.data = []
        for i, n in enumerate(case["rows"]):
            ds = {}
            if case["hdf5"]:
                name = self.dir + "/multi.%d.hdf5" % i
                with h5py.File(name, "w") as f:
                    for j in range(3):
                        if not case["lack"][i][j]:
                            shape = (n, 2) if case["axis"] == 0 else (2, n)
                            ds["g/d%d" % j] = f["g/d%d" % j] = np.arange(2 * n).reshape(shape) + 1000 * i + 100 * j
                    f["other"] = 1
                self.files.append(name)
            else:
                b = bf.lg2_ids(case["endian"], n, 8, len(case["rows"]), "NFiles")
                self.write(self.dir + "/multi.%d" % i, b.data)
                ds = {"GroupIDs": b.fields[-1].value}
            self.data.append(ds)
        self.whole_multi = self.read_multi

    def new_multi(self, case):
        return True

    def read_multi(self, case, op, rng):
        nf = len(case["rows"])
        idx = [rng.randrange(nf) for _ in range(rng.choice([1, 2, 5]))] if rng.random() < 0.5 else list(range(nf))
        rm = V("util.read_multi").read_multi
        names = ["g/d%d" % j for j in rng.sample(range(3), rng.choice([1, 3]))] if case["hdf5"] else ["GroupIDs"]
        names = [k for k in names if any(k in self.data[i] for i in idx)]
        arg = np.array(idx) if rng.random() < 0.5 else idx
        if not case["hdf5"]:
            # rows of the IDs files
            r = rm(self.dir + "/multi.%(i)d", arg, names, file_type=V("formats.subfind_lgadget2").SubIDsFile, id_bytes=8)
        elif case["axis"]:
            r = rm(self.dir + "/multi.%(i)d.hdf5", arg, names, axis=case["axis"])
        else:
            r = rm(self.dir + "/multi.%(i)d.hdf5", arg, names)
        if list(r) != list(names):
            self.fail("names", "returned %s instead of %s" % (list(r), names))
        for k in names:
            w = np.concatenate([self.data[i][k] for i in idx if k in self.data[i]], axis=case["axis"] if case["hdf5"] else 0)
            self.same(r[k], w, k)
        self.met |= len(idx) > 1
        return list(r.values())

    # ---------------------------------------------------------------- Eagle file names
    DIRS = {"eagle_subfind_tab": "groups", "eagle_subfind_snip_tab": "groups_snip", "group_tab": "groups", "group_snip_tab": "groups_snip",
            "eagle_subfind_particles": "particledata", "eagle_subfind_snip_particles": "particledata_snip", "snapshot": "snapshot", "snipshot": "snipshot"}

    def make_eagle(self, case):
        self.eagle = {}
        k = 0
        for base in ("sim1", "sim2", "sim[2]", "sim?"):
            for isnap in (0, 12):
                for name, dn in sorted(self.DIRS.items()):
                    label = case["labels"][(k + len(dn)) % 4]
                    d = "%s/%s/%s_%03d_%s" % (self.dir, base, dn, isnap, label)
                    # all files of a directory have its label
                    have = [x for x in self.eagle.values() if x.startswith("%s/%s/%s_%03d_" % (self.dir, base, dn, isnap))]
                    if have:
                        label = os.path.basename(os.path.dirname(have[0])).split("_")[-1]
                        d = os.path.dirname(have[0])
                    os.makedirs(d, exist_ok=True)
                    for i in range(case["nf"]):
                        f = "%s/%s_%03d_%s.%d.hdf5" % (d, name, isnap, label, i)
                        with fio.real_open(f, "wb"):
                            pass
                        self.eagle[(base, name, isnap, i)] = f
                k += 1

    def new_eagle(self, case):
        return True

    def read_eagle(self, case, op, rng):
        keys = sorted(self.eagle)
        for _ in range(6):
            k = rng.choice(keys)
            i = k[3]
            if rng.random() < 0.2:
                # a file which does not exist
                try:
                    V("sims.eagle").eagle_filename(self.dir + "/" + k[0], k[1], 5, 0)
                except IOError:
                    pass
                else:
                    self.fail("wrong-name", "found a file of a snapshot which does not exist")
            got = V("sims.eagle").eagle_filename(self.dir + "/" + k[0], k[1], k[2], i)
            if got != self.eagle[k]:
                self.fail("wrong-name", "%s for %s, file is %s" % (got, k, self.eagle[k]))
        self.met = True

    whole_eagle = read_eagle

    # ---------------------------------------------------------------- shrink
    def shrink(self, case):
        n = len(case["ops"])
        size = max(1, n // 2)
        while size >= 1 and n:
            for p in range(0, n, size):
                c = copy.deepcopy(case)
                del c["ops"][p:p + size]
                yield c
            size //= 2
        for i in range(len(case["faults"])):
            c = copy.deepcopy(case)
            del c["faults"][i]
            yield c
        k = case["kind"]
        far = case.get("far")
        if k == "g4":
            for i in range(len(case["files"]) - 1):
                c = copy.deepcopy(case)
                a = c["files"].pop(i)
                if far and sum(a) + sum(c["files"][i]) >= 1 << 31:
                    continue
                c["files"][i] = [x + y for x, y in zip(a, c["files"][i])]
                yield c
            for i in range(len(case["subs"])):
                for j in range(len(case["subs"][i])):
                    c = copy.deepcopy(case)
                    del c["subs"][i][j]
                    for q in range(len(c["tabs"])):
                        if c["tabs"][q]:
                            c["tabs"][q] -= 1
                            break
                    yield c
        if k in ("g4", "pg3"):
            for i in range(len(case["tabg"]) - 1):
                c = copy.deepcopy(case)
                a = c["tabg"].pop(i)
                c["tabg"][i] += a
                if k == "g4":
                    a = c["tabs"].pop(i)
                    c["tabs"][i] += a
                yield c
        if k == "pg3":
            for i in range(len(case["files"]) - 1):
                c = copy.deepcopy(case)
                a = c["files"].pop(i)
                if far and a + c["files"][i] >= 1 << 31:
                    continue
                c["files"][i] += a
                c["other"].pop(i)
                yield c
        if k == "lg2":
            for i in range(len(case["keys"])):
                c = copy.deepcopy(case)
                del c["keys"][i]
                yield c
            for i in range(len(case["cells"]) - 1):
                c = copy.deepcopy(case)
                a = c["cells"].pop(i)
                c["cells"][i][0] = a[0]
                yield c
        if case.get("hdf5") and k != "multi" and not far:
            yield dict(copy.deepcopy(case), hdf5=False)
        if case["endian"] == ">":
            yield dict(copy.deepcopy(case), endian="<")
        if case["wrap"]:
            yield dict(copy.deepcopy(case), wrap=False)


CHECK = C18()
