"""
C29: sanity_check() of the binary catalogues.

A file is written whose lengths, offsets and pointers fit together exactly (totals are tight, so that an off by one error in a
comparison shows).  Then one value in the file is overwritten, as a corrupted disk block or a broken transfer would do, or the
file is opened with options which do not describe it.  The rules below, in exact arithmetic, decide whether what is now in the
file contradicts itself: then sanity_check has to raise; and it has to pass on the file as it was written.
"""
import copy
import math
import random

import numpy as np

from dst import env, fio
from dst.env import V
from dst.harness import Check, Violation, sim_violation, info_of, violation_info
from .c16 import equal, ERRNOS, SITES
from . import c17

FORMATS = c17.FORMATS
NAMES = ["pg3 ids", "pg3 subids", "pg3 grouptab", "pg3 subtab", "lg3 subtab", "mxxl subtab", "lg3 ids", "lg2 grouptab", "lg2 groupids", "lg2 subids", "lg2 subtab",
         "lg2 snapshot", "rockstar"]
HALO = ["Halo_%s_%s200" % (a, b) for a in "MR" for b in ("Mean", "Crit", "TopHat")]
HALO_M = HALO[:3]
SUBVEC = ["SubPos", "SubVel", "SubCofM", "SubSpin"]
SUBPOS = ["SubVelDisp", "SubVmax", "SubRVmax", "SubHalfMass"]
PG3 = dict(positive=["GroupMass"] + HALO + ["SubMass"] + SUBPOS, finite=SUBVEC)
LG3 = dict(positive=HALO_M + ["GroupVelDisp"] + SUBPOS, finite=SUBVEC)
LG2 = dict(positive=[], finite=HALO + ["SubPos", "SubVel", "SubVelDisp", "SubVmax", "SubSpin", "SubHalfMass"])


def ints(v):
    return [int(x) for x in np.ravel(v)]


def first_bad(seq):
    for i, bad in enumerate(seq):
        if bad:
            return i
    return None


# ------------------------------------------------------------------ rules
def unique(v, p):
    x = ints(v["GroupIDs"])
    return "duplicate IDs" if len(set(x)) != len(x) else None


def numbers(v, rules):
    for n in rules["positive"] + rules["finite"]:
        for x in np.ravel(v[n]).tolist():
            if not math.isfinite(x):
                return "%s is %s" % (n, x)
            if x < 0 and n in rules["positive"]:
                return "%s is negative" % n
    return None


def grouptab(v, p):
    ln, lt, off = ints(v["GroupLen"]), v["GroupLenType"].astype(object), ints(v["GroupOffset"])
    for i in range(len(ln)):
        if sum(lt[i]) != ln[i]:
            return "GroupLen[%d] is %d, its types sum to %d" % (i, ln[i], sum(lt[i]))
    if int(v["Nids"]) > 1:
        for i in range(1, len(ln)):
            if off[i] != off[i - 1] + ln[i - 1]:
                return "GroupOffset[%d]" % i
    m, mt = v["GroupMass"].astype("f8"), v["GroupMassType"].astype("f8")
    for i in range(len(ln)):
        s = math.fsum(mt[i])
        if m[i] == s:
            continue
        if not math.isfinite(m[i]) or not math.isfinite(s) or abs(m[i] - s) > 1e-3 * abs(s):
            return "GroupMass[%d] is %s, its types sum to %s" % (i, m[i], s)
    return None


def subtab(rules):
    def check(v, p):
        nid, ng, ns = int(v["TotNids"]), int(v["TotNgroups"]), int(v["TotNsubgroups"])
        if min(nid, ng, ns) < 0:
            return "negative total"
        for a, b in (("GroupLen", "GroupOffset"), ("SubLen", "SubOffset")):
            for i, (n, o) in enumerate(zip(ints(v[a]), ints(v[b]))):
                if n < 0:
                    return "%s[%d] is %d" % (a, i, n)
                if nid < 1 << 31 and (o < 0 or o + n > nid):
                    return "%s[%d]+%s[%d] is %d+%d of %d" % (b, i, a, i, o, n, nid)
        for i, (n, o) in enumerate(zip(ints(v["Nsubs"]), ints(v["FirstSub"]))):
            if n < 0 or n > 0 and (o < 0 or o + n > ns):
                return "subgroups %d+%d of group %d, there are %d" % (o, n, i, ns)
        g = ints(v["SubGrNr"])
        for i, x in enumerate(g):
            if x < 0 or x >= ng or i and x < g[i - 1]:
                return "SubGrNr[%d] is %d" % (i, x)
        return numbers(v, rules)
    return check


def lg2_grouptab(v, p):
    ln, off, nids = ints(v["GroupLen"]), ints(v["GroupOffset"]), int(v["Nids"])
    if sum(ln) != nids:
        return "lengths sum to %d, not %d" % (sum(ln), nids)
    for i in range(len(ln)):
        if off[i] < 0 or off[i] >= nids or i and off[i] != off[i - 1] + ln[i - 1]:
            return "GroupOffset[%d] is %d" % (i, off[i])
    return None


def lg2_ids(v, p):
    zeros = 0
    for i, x in enumerate(ints(v["GroupIDs"])):
        key, low = x >> 34, x & ((1 << 34) - 1)
        if key >= 256 ** 3 or low > 2160 ** 3:
            return "GroupIDs[%d] is %d" % (i, x)
        zeros += low == 0
    return "ID zero found %d times" % zeros if zeros > 1 else None


def lg2_subtab(v, p):
    ns, nids = int(v["Nsubhalos"]), int(v["Nids"])
    n, first = ints(v["NsubPerHalo"]), ints(v["FirstSubOfHalo"])
    if sum(n) != ns or min(n + [0]) < 0:
        return "subhalos per halo sum to %d, not %d" % (sum(n), ns)
    for i in range(len(n)):
        if n[i] and not 0 <= first[i] < ns:
            return "FirstSubOfHalo[%d]" % i
    for i, (o, m) in enumerate(zip(ints(v["SubOffset"]), ints(v["SubLen"]))):
        if o < 0 or o + m > nids:
            return "SubOffset[%d]+SubLen[%d] is %d+%d of %d" % (i, i, o, m, nids)
    if ints(v["SubParentHalo"]) != [i for i in range(len(n)) for _ in range(n[i])]:
        return "SubParentHalo"
    return numbers(v, LG2)


def snapshot(v, p):
    box = float(v["Header/BoxSize"])
    pos, vel = v["PartType1/Coordinates"].astype("f8"), v["PartType1/Velocities"].astype("f8")
    n = 1 << p["bits"]
    size = box / n
    centre = (c17.cell_centres(p["bits"])[np.array(p["keys"], dtype=int)] + 0.5) * size
    for i in range(len(pos)):
        for j in range(3):
            x = pos[i, j]
            if not math.isfinite(x) or x < 0 or x > box:
                return "coordinate %s" % x
            d = abs(x - centre[i, j])
            if min(d, box - d) > 0.51 * size:
                return "coordinate %s of particle %d in cell centred on %s" % (x, i, centre[i, j])
            if not math.isfinite(vel[i, j]) or abs(vel[i, j]) > 1.0e6:
                return "velocity %s" % vel[i, j]
    t = ints(v["Header/NumPart_Total"])
    for x in ints(v["PartType1/ParticleIDs"]):
        if x > t[1] + (t[2] << 32):
            return "particle ID %d" % x
    return None


def rock(v, p):
    n = p["np"]
    for i in range(len(v["Halo"])):
        a, m = int(v["Halo"]["p_start"][i]), int(v["Halo"]["num_p"][i])
        if a < 0 or a + m > n:
            return "particles %d+%d of halo %d, there are %d" % (a, m, i, n)
    return None


RULES = {"pg3 ids": unique, "pg3 subids": unique, "lg3 ids": unique, "pg3 grouptab": grouptab, "pg3 subtab": subtab(PG3), "lg3 subtab": subtab(LG3), "mxxl subtab": subtab(LG3),
         "lg2 grouptab": lg2_grouptab, "lg2 groupids": lg2_ids, "lg2 subids": lg2_ids, "lg2 subtab": lg2_subtab, "lg2 snapshot": snapshot, "rockstar": rock}
# fields which are worth damaging: those the rules look at
LOOK = {"pg3 ids": ["GroupIDs"], "pg3 grouptab": ["GroupLen", "GroupOffset", "GroupLenType", "GroupMass", "GroupMassType"],
        "pg3 subtab": ["TotNids", "TotNgroups", "TotNsubgroups", "GroupLen", "GroupOffset", "Nsubs", "FirstSub", "SubLen", "SubOffset", "SubGrNr"] * 2 + PG3["positive"] + PG3["finite"],
        "lg3 subtab": ["TotNids", "TotNgroups", "TotNsubgroups", "GroupLen", "GroupOffset", "Nsubs", "FirstSub", "SubLen", "SubOffset", "SubGrNr"] * 2 + LG3["positive"] + LG3["finite"],
        "lg2 grouptab": ["GroupLen", "GroupOffset", "Nids"],
        "lg2 subtab": ["Nids", "NsubPerHalo", "FirstSubOfHalo", "SubLen", "SubOffset", "SubParentHalo"] * 2 + LG2["finite"],
        "lg2 snapshot": ["PartType1/Coordinates", "PartType1/Velocities", "PartType1/ParticleIDs"], "rockstar": ["Halo:p_start", "Halo:num_p"]}
for _n in ("pg3 subids", "lg3 ids", "lg2 groupids", "lg2 subids"):
    LOOK[_n] = LOOK["pg3 ids"]
LOOK["mxxl subtab"] = LOOK["lg3 subtab"]


class C29(Check):
    prop = "C29"
    modules = c17.MODS
    quick_runs = 60000
    quick_s = 40
    rule = "a value in the file was overwritten, the file was opened with options which do not describe it, or an injected I/O failure was hit"
    real = ("virgo/formats/subfind_{pgadget3,lgadget3,lgadget2}.py", "virgo/formats/rockstar.py", "virgo/sims/{millennium,millennium2,mxxl}.py", "virgo/util/{read_binary,peano}.py",
            "mmap and the file system (real files in a scratch directory)")
    stubs = ("opens, maps, stats and reads of files go through dst/fio.py, which injects failures", "files are written by checks/binformats.py, independent of the readers")
    faults_possible = ["value overwritten", "wrong options"] + sorted({"%s:%s" % (s, k) for s in ("io.open", "io.map", "io.stat") for k in SITES[s]})
    assumptions = ["a value which is wrong but contradicts nothing else in its file cannot be noticed", "offsets are not judged where there are 2^31 particles or more, as the format does not hold them"]

    def gen(self, rng, tier):
        name = rng.choice(NAMES)
        f = FORMATS[name]
        p = f.gen(rng)
        case = dict(fmt=name, cls=rng.randrange(len(f.classes)), endian="<" if f.native else rng.choice("<>"), params=p, tight=self.tight(name, p, rng), damage=None, faults=[],
                    options=None, seed=rng.randrange(1 << 30))
        r = rng.random()
        if r < 0.7:
            case["damage"] = [rng.choice(LOOK[name]), rng.random(), rng.choice(["minus one", "plus one", "negative", "large", "zero", "neighbour", "total", "nonfinite", "bit", "largest", "trade", "trade", "swap",
                                                                               "move"]), rng.randrange(1 << 30)]
        elif r < 0.82 and f.allbytes:
            o = f.kwargs(p)
            k = rng.choice(sorted(o))
            case["options"] = [k, not o[k] if isinstance(o[k], bool) else 12 - o[k]]
            if rng.random() < 0.3:
                case["options"] = [k, rng.choice([0, 2, 5, 16])] if not isinstance(o[k], bool) else rng.choice([["SO_BAR_INFO", True], ["WRITE_SUB_IN_SNAP_FORMAT", True]]) \
                    if name in ("pg3 subtab", "mxxl subtab") else case["options"]
        if rng.random() < 0.25:
            site = rng.choice(["io.open", "io.open", "io.map", "io.stat"])
            e = rng.choice(SITES[site])
            case["faults"].append(dict(site=site, kind=e, errno=ERRNOS[e], rank=0, nth=rng.choice([0, 1, 2, 3, rng.randrange(60)])))
        return case

    def tight(self, name, p, rng):
        """Seed of a consistent catalogue with tight totals, or None for the one of binformats"""
        return rng.choice([None, rng.randrange(1 << 30), rng.randrange(1 << 30)])

    def values(self, name, p, b, seed):
        """Values of the file by name; with a seed, lengths and offsets are replaced by others which leave no room"""
        v = {f.name: np.array(f.value) for f in b.fields}
        if seed is None:
            return v
        r = random.Random(seed)
        low = r.choice([0, 1, 1])
        if "GroupLen" in v and name != "lg2 grouptab":
            ng = len(v["GroupLen"])
            ln = [r.choice([low, 1, 2, 20, r.randrange(1, 1000)]) for _ in range(ng)]
            off = [sum(ln[:i]) for i in range(ng)]
            v["GroupLen"][...] = ln
            v["GroupOffset"][...] = off
            v["Nids"][...] = sum(ln)
            if name == "pg3 grouptab":
                for i in range(ng):
                    left = ln[i]
                    for t in range(6):
                        k = left if t == 5 else r.randint(0, left)
                        v["GroupLenType"][i, t] = k
                        left -= k
                v["GroupMassType"][...] = v["GroupLenType"] * 0.375 * r.choice([1.0, 1.0, 1e-9, 1e-30, 1e30])
                v["GroupMass"][...] = v["GroupMassType"].astype("f8").sum(axis=1)
                return v
            ns = len(v["SubLen"])
            tot = sum(ln)
            if ns and not ng:
                tot = 50
            so = [r.randint(0, tot) for _ in range(ns)]
            sl = [r.choice([tot - o, r.randint(0, tot - o)]) for o in so]
            v["SubOffset"][...] = so
            v["SubLen"][...] = sl
            v["TotNids"][...] = tot if r.random() < 0.8 else tot + r.choice([1, 1 << 20, 1 << 31, 1 << 40])
            if int(v["TotNids"]) >= 1 << 31 and r.random() < 0.7:
                # more particles than the offsets can count
                for n in ("GroupOffset", "SubOffset"):
                    for i in range(len(v[n])):
                        w = r.randrange(1 << 32)
                        v[n][i] = w - (1 << 32) if w >= 1 << 31 and v[n].dtype.kind == "i" else w
            if ng:
                g = sorted(r.randrange(ng) for _ in range(ns))
                v["SubGrNr"][...] = g
                n = [g.count(i) for i in range(ng)]
                v["Nsubs"][...] = n
                v["FirstSub"][...] = [(sum(n[:i]) if n[i] or r.random() < 0.5 else r.choice([-1, 1 << 30])) for i in range(ng)]
                v["TotNgroups"][...] = r.choice([ng, max(g + [0]) + 1 if ns else ng, ng + 3])
                v["TotNsubgroups"][...] = ns
            for n in v:
                if v[n].dtype.kind == "f" and v[n].size and r.random() < 0.2:
                    for k in range(r.choice([1, 2, 5])):
                        v[n].flat[r.randrange(v[n].size)] = r.choice([0.0, 3.0e38, 1e-40, -3.0e38 if n in SUBVEC else 0.0])
            return v
        if name == "lg2 grouptab":
            ng = len(v["GroupLen"])
            ln = [r.choice([1, 2, 20, r.randrange(1, 1000)]) for _ in range(ng)]
            v["GroupLen"][...] = ln
            v["GroupOffset"][...] = [sum(ln[:i]) for i in range(ng)]
            v["Nids"][...] = sum(ln)
        elif name == "lg2 subtab":
            ng, ns = len(v["NsubPerHalo"]), len(v["SubLen"])
            g = sorted(r.randrange(ng) for _ in range(ns)) if ng else []
            n = [g.count(i) for i in range(ng)]
            v["NsubPerHalo"][...] = n
            v["FirstSubOfHalo"][...] = [(sum(n[:i]) if n[i] or r.random() < 0.5 else r.choice([-1, ns])) for i in range(ng)]
            v["SubParentHalo"][...] = g
            tot = r.choice([0, 20, 500])
            v["Nids"][...] = tot
            so = [r.randint(0, tot) for _ in range(ns)]
            v["SubOffset"][...] = so
            v["SubLen"][...] = [r.choice([tot - o, r.randint(0, tot - o)]) for o in so]
        elif name in ("lg2 groupids", "lg2 subids"):
            x = v["GroupIDs"]
            for i in range(len(x)):
                if p["id_bytes"] == 8:
                    x[i] = np.uint64((r.choice([0, 1, 256 ** 3 - 1, r.randrange(256 ** 3)]) << 34) + r.choice([1, 2160 ** 3, r.randint(1, 2160 ** 3)]))
                else:
                    x[i] = r.choice([1, (1 << 32) - 1, r.randrange(1, 1 << 32)])
            if len(x) and r.random() < 0.5:
                x[r.randrange(len(x))] = np.uint64(0) if p["id_bytes"] == 4 else np.uint64(r.choice([0, 5]) << 34)
        elif name in ("pg3 ids", "pg3 subids", "lg3 ids"):
            x = v["GroupIDs"]
            big = (1 << 8 * x.dtype.itemsize) - 1
            s = sorted(set([0, big] + [r.randint(0, big) for _ in range(len(x))]))
            r.shuffle(s)
            x[...] = np.array(s[:len(x)], dtype=x.dtype)
        elif name == "rockstar":
            n = p["np"]
            h = v["Halo"]
            for i in range(len(h)):
                h["p_start"][i] = r.choice([0, n, r.randint(0, n)])
                h["num_p"][i] = r.choice([n - h["p_start"][i], r.randint(0, n - int(h["p_start"][i]))])
        elif name == "lg2 snapshot":
            x = v["PartType1/ParticleIDs"]
            for i in range(len(x)):
                x[i] = r.choice([0, 1 << 30, r.randint(0, 1 << 30)])
            q, c = v["PartType1/Coordinates"], c17.cell_centres(p["bits"])
            size = 64.0 / (1 << p["bits"])
            for i in range(len(q)):
                for j in range(3):
                    if r.random() < 0.3:
                        k = int(c[p["keys"][i]][j])
                        q[i, j] = r.choice([k * size, (k + 1) * size] + [64.0] * (k == 0))
            w = v["PartType1/Velocities"]
            for i in range(w.size):
                w.flat[i] = r.choice([0.0, -999999.0, 999999.0, r.uniform(-900, 900)])
        return v

    def hurt(self, name, v, dm, p):
        """One value overwritten; returns what was done"""
        field, where, how, seed = dm
        r = random.Random(seed)
        field, _, part = field.partition(":")
        x = v[field][part] if part else v[field]
        if not x.size:
            return None
        i = int(where * x.size)
        old = x.flat[i]
        isf = x.dtype.kind == "f"
        info = None if isf else np.iinfo(x.dtype)
        if how in ("trade", "swap"):
            # two values, so that sums stay what they were
            j = r.randrange(x.size)
            k = r.choice([1, 1, 2, 10])
            before = x.copy()
            if j == i or not isf and how == "trade" and not (info.min <= int(x.flat[i]) - k and int(x.flat[j]) + k <= info.max):
                return None
            if how == "swap":
                x.flat[i], x.flat[j] = x.flat[j], x.flat[i]
            else:
                x.flat[i] -= x.dtype.type(k)
                x.flat[j] += x.dtype.type(k)
            if np.array_equal(before, x, equal_nan=isf):
                return None
            return "%s[%d] and [%d] changed from %s and %s to %s and %s" % (dm[0], i, j, before.flat[i], before.flat[j], x.flat[i], x.flat[j])
        if how in ("minus one", "plus one"):
            s = -1 if how == "minus one" else 1
            new = float(old) + s * (1.0 if isf else 1) if not isf else float(old) * (1 + s * r.choice([0.01, 0.5, 3.0])) if name == "pg3 grouptab" else float(old) + s
            new = new if isf else int(old) + s
        elif how == "negative":
            new = -float(old) if isf else -r.choice([1, 1, 2, 100])
        elif how == "large":
            new = float(r.choice([1.1e6, 1e30])) if isf else r.choice([1 << 20, 1 << 30, 1 << 34, 1 << 58, (1 << 34) - 1])
        elif how == "largest":
            new = float(np.finfo(x.dtype).max) if isf else int(info.max)
        elif how == "zero":
            new = 0
        elif how == "neighbour":
            new = x.flat[r.randrange(x.size)]
        elif how == "total":
            t = [int(v[k]) + d for k in ("TotNids", "Nids", "TotNsubgroups", "TotNgroups", "Nsubhalos") if k in v for d in (0, 0, 1, -1)] or [len(v[field])]
            new = r.choice(t)
        elif how == "nonfinite":
            new = r.choice([math.nan, math.inf, -math.inf]) if isf else int(info.min)
        elif how == "bit":
            raw = bytearray(np.array(old).tobytes())
            raw[r.randrange(len(raw))] ^= 1 << r.randrange(8)
            new = np.frombuffer(bytes(raw), dtype=x.dtype)[0]
        else:
            new = float(r.uniform(0, 64.0)) if isf else r.randrange(1 << 31)
        if not isf and not info.min <= int(new) <= info.max:
            return None
        with np.errstate(over="ignore"):
            x.flat[i] = new
        if x.flat[i] == old:
            return None
        return "%s[%d] changed from %s to %s" % (dm[0], i, old, x.flat[i])

    def directed(self):
        return []

    # ---------------------------------------------------------------- run
    def execute(self, case, log=False):
        fio.install()
        with env.rundir() as d:
            self.dir = d
            sim = env.new_sim(dict(case, n=1), log=log, scratch=d)
            self.sim = sim
            try:
                sim.run([lambda p: self.body(case)])
                sim_violation(sim)
            except Violation as v:
                raise violation_info(v, sim)
            finally:
                m = env.rank_modules[0]["virgo.util.read_binary"]
                c = getattr(m.BinaryDataset, "file_cache", None)
                if isinstance(c, dict):
                    c.clear()
            info = info_of(sim, nontrivial=bool(sim.fault_hits))
            if log:
                info["log"] = ["%s" % e[1] for e in sim.log]
            return info

    def body(self, case):
        try:
            self.play(case)
        except Violation as v:
            self.sim.violation = (v.cls, v.msg)

    def fail(self, cls, msg):
        raise Violation(cls, "%s %s (%s): %s" % (self.case["fmt"], self.clsname, "big endian" if self.case["endian"] == ">" else "little endian", msg))

    def play(self, case):
        sim = self.sim
        self.case = case
        name = case["fmt"]
        fm = FORMATS[name]
        p = case["params"]
        mod, self.clsname = fm.classes[case["cls"] % len(fm.classes)]
        cls = getattr(V(mod), self.clsname)
        e = case["endian"]
        from . import binformats as bf
        if fm.native:
            e = bf.NATIVE
        b = fm.build(p, e)
        v = self.values(name, p, b, case["tight"])
        rule = RULES[name]
        why = rule(v, p)
        if why:
            raise RuntimeError("harness: written inconsistent: %s" % why)
        done = None
        if case["damage"] is not None:
            done = self.hurt(name, v, case["damage"], p)
            if done:
                sim.hit("value overwritten")
                why = rule(v, p)
        data = bytearray(b.data)
        for f in b.fields:
            data[f.offset:f.offset + f.nbytes] = v[f.name].astype(f.dtype.newbyteorder(e)).tobytes()
        path = self.dir + "/file.dat"
        with fio.plain():
            with fio.real_open(path, "wb") as g:
                g.write(data)
        args = c17.leave_out(name, fm.kwargs(p), random.Random(case["seed"] + 1))
        if case["options"] is not None:
            k, x = case["options"]
            args[k] = x
            if k not in fm.kwargs(p) or x in (0, 2, 5, 16) and not isinstance(x, bool):
                sim.hit("wrong options")
                why = "opened with %s=%r, which is not supported" % (k, x)
                done = "options"
                size = len(data)
            else:
                size = len(fm.build(dict(p, **{k: x}), e).data)
            if size != len(data):
                sim.hit("wrong options")
                why = "opened with %s=%r, which describes a file of %d bytes, not %d" % (k, x, size, len(data))
                done = "options"

        def attempt(fn, what):
            while True:
                before = sum(sim.fault_hits.values())
                try:
                    return fn(), None
                except Violation:
                    raise
                except Exception as x:
                    struck = sum(sim.fault_hits.values()) > before
                    sim.event(0, "%s: %s%s" % (what, type(x).__name__, " (injected)" if struck else ""))
                    if struck:
                        sim.probe("failure reported, access repeated")
                        continue
                    return None, x
        f, x = attempt(lambda: cls(path, **args), "open")
        if x is not None:
            if why and case["options"] is not None:
                sim.probe("wrong options refused on opening")
                return
            self.fail("exception:%s" % type(x).__name__, "opening raised %s" % x)
        sim.event(0, "%s: %d bytes, %s: %s" % (name, len(data), done or case["options"], why or "consistent"))
        rng = random.Random(case["seed"])
        if rng.random() < 0.3 and case["options"] is None:
            self.compare(f, v, rng, attempt, "before sanity_check")
        for i in range(rng.choice([1, 1, 2])):
            with np.errstate(all="ignore"):
                _, x = attempt(f.sanity_check, "sanity_check")
            if why and x is None:
                self.fail("sanity-check", "passes although %s%s" % (why, " (%s)" % done if done else ""))
            if not why and not done and x is not None:
                self.fail("sanity-alarm", "raised %s: %s on a file with nothing wrong" % (type(x).__name__, x))
            if why:
                sim.probe("sanity check raised")
            elif x is None:
                sim.probe("sanity check passed")
        if case["options"] is None:
            self.compare(f, v, rng, attempt, "after sanity_check")
        if hasattr(f, "close"):
            f.close()
        with fio.plain():
            with fio.real_open(path, "rb") as g:
                if g.read() != bytes(data):
                    self.fail("changed", "sanity_check changed the file")

    def compare(self, f, v, rng, attempt, when):
        for n in rng.sample(sorted(v), min(3, len(v))):
            if n.startswith("Header/"):
                continue
            got, x = attempt(lambda: f[n][...], n)
            if x is not None or not equal(got, v[n]):
                self.fail("misread", "%s %s is %r (%s), the file has %r" % (n, when, got, x, v[n]))

    # ---------------------------------------------------------------- shrink
    def shrink(self, case):
        for i in range(len(case["faults"])):
            c = copy.deepcopy(case)
            del c["faults"][i]
            yield c
        for k in ("damage", "options", "tight"):
            if case[k] is not None:
                yield dict(copy.deepcopy(case), **{k: None})
        p = case["params"]
        for k in ("ng", "ns", "n", "nh", "np", "minlen"):
            if p.get(k):
                for w in (p[k] // 2, p[k] - 1):
                    c = copy.deepcopy(case)
                    c["params"][k] = w
                    if not (k == "ng" and w == 0 and p.get("ns")):
                        yield c
        if p.get("keys"):
            for i in range(len(p["keys"])):
                c = copy.deepcopy(case)
                del c["params"]["keys"][i]
                yield c
        if case["endian"] == ">":
            yield dict(copy.deepcopy(case), endian="<")
        if case["cls"]:
            yield dict(copy.deepcopy(case), cls=0)


CHECK = C29()
