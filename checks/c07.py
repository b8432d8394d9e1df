import copy
import numpy as np
from .common import *
from .h5common import H5_REAL, H5_STUB, write_files
from . import c01, c02, c03, c04, c05, c06, c11, c13, c14, c15


class Split(MpiCheck):
    """find_splitting_points: values with given global ranks"""
    prop = "C07s"
    fields = ("data",)

    def gen(self, rng, tier):
        case = gen_mpi(rng, tier)
        n = case["n"]
        tot = rng.randrange(1, 50)
        case["data"] = gen_codes(rng, gen_sizes(rng, n, tot))
        case["dtype"] = rng.choice(INT_TYPES + FLOAT_TYPES)
        case["mode"] = rng.choice(["plain", "low", "high", "wide"])
        case["want"] = [rng.randrange(10 ** 6) for _ in range(rng.choice([1, 2, n, n + 1, 12]))]
        return case

    def body(self, case, arg, comm, rank):
        ps = V("mpi.parallel_sort")
        tot = sum(map(len, case["data"]))
        if not tot:
            return None
        a = np.sort(decode(case["data"][rank], case["dtype"], case["mode"]))
        r = np.array([w % tot for w in case["want"]])
        v, lo, hi = ps.find_splitting_points(a, r, arg)
        return dict(a=a, r=r, v=np.array(v), lo=np.array(lo), hi=np.array(hi))

    def judge(self, case, g, res):
        if res[0] is None:
            return
        allv = np.sort(cat([x["a"] for x in res]))
        for x in res:
            w = allv[x["r"]]
            if not same(x["v"], w) or not np.array_equal(x["lo"], np.searchsorted(allv, w, "left")) \
               or not np.array_equal(x["hi"], np.searchsorted(allv, w, "right") - 1):
                raise Violation("splitting-points", "values %s ranks %s\nresult %s %s %s" % (show(allv), x["r"], x["v"], x["lo"], x["hi"]))


OPS = dict(sort=c01.CHECK, match=c02.CHECK, unique=c03.CHECK, reduce=c04.CHECK, fetch=c05.CHECK, exchange=c06.CHECK,
           groupindex=c13.CHECK, halos=c14.CHECK, gather=c15.CHECK, split=Split())


class C07(MpiCheck):
    prop = "C07"
    fields = ()
    hdf5 = True
    real = MPI_REAL + H5_REAL[:1] + H5_REAL[-2:]
    stubs = MPI_STUB + H5_STUB[1:2]
    rule = ("A run is one job in which one or two disjoint communicators each run their own generated sequence of distributed operations, "
            "twice, or in which sets of files are read and written several times. Non-trivial: more than one rank.")
    runs_per_chunk = 4

    def gen(self, rng, tier):
        if rng.random() < 0.05:
            return self.gen_files(rng, tier)
        n = gen_n(rng, tier)
        case = dict(n=n, sseed=rng.randrange(2**32), cfg=gen_cfg(rng, n, max_steps=400000), layout=gen_layout(rng, n))
        if rng.random() < 0.35:
            case["chunk"] = rng.choice([8, 16, 24, 32, 64])
        case["prog"] = []
        for g in case["layout"]["groups"]:
            prog = []
            for _ in range(rng.randrange(1, 5)):
                op = rng.choice(list(OPS))
                prog.append([op, self.sub(rng, tier, op, len(g))])
            case["prog"].append(prog)
        case["rounds"] = 2
        return case

    def gen_files(self, rng, tier):
        """Sets of files which are read and written, several times"""
        case = c11.CHECK.gen(rng, tier)
        case.pop("misfit", None)
        case.update(files=True, mode="w", inplace=False, hdf5=None, rounds=3)
        return case

    def execute_files(self, case, log):
        sims = []
        other = c11.CHECK

        def body(arg, comm, rank):
            rounds = []
            for _ in range(case["rounds"]):
                res = other.body(case, arg, comm, rank)
                if res["n"] is not None:
                    comm.Barrier()
                    res["back"] = other.body2(case, arg, comm, rank)
                    comm.Barrier()
                rounds.append((res, sims[0].census(rank)))
            return rounds
        with env.rundir() as other.dir:
            write_files(case["fs"], other.dir)
            sim = run_mpi(case, body, log=log, setup=sims.append, scratch=other.dir)
            try:
                self.no_growth(sim)
            except Violation as v:
                raise violation_info(v, sim)
        sim.probe("files read and written repeatedly")
        info = info_of(sim, nontrivial=case["n"] > 1)
        if log:
            info["log"] = ["rank %d: %s" % e for e in sim.log]
        return info

    def no_growth(self, sim):
        for p in sim.procs:
            if p.result is None:
                continue
            a, b = p.result[0][1], p.result[-1][1]
            for kind in b:
                if b[kind] > a.get(kind, 0):
                    raise Violation("handle-leak", "rank %d: live %s handles after each round: %s" % (
                        p.rank, kind, [x[1].get(kind, 0) for x in p.result]))
        left = sim.world_state.leftovers()
        if left:
            raise Violation("lost-message", "%d messages or receives unmatched at the end" % left)

    def sub(self, rng, tier, op, m):
        """A case of another check, made for m ranks"""
        for _ in range(200):
            c = OPS[op].gen(rng, tier)
            if c["n"] == m and self.fit(c):
                break
        else:
            return self.sub(rng, tier, "gather" if op != "gather" else "sort", m) if False else self.resize(rng, tier, op, m)
        return self.strip(c, m)

    def fit(self, c):
        """Not the large arrays, of which one operation at a time is enough, and not what is refused"""
        return not any(c.get(k) for k in ("huge", "large", "mismatch", "outside", "short", "wrong", "odd", "swapped"))

    def resize(self, rng, tier, op, m):
        """Give the case the right number of ranks by leaving out the rest"""
        while True:
            c = OPS[op].gen(rng, "thorough")
            if c["n"] < m or not self.fit(c):
                continue
            c.setdefault("faults", [])
            while c["n"] > m:
                c = OPS[op].drop_rank(c, c["n"] - 1)
            return self.strip(c, m)

    def strip(self, c, m):
        for k in ("cfg", "sseed", "chunk", "faults"):
            c.pop(k, None)
        c["layout"] = dict(kind="world", groups=[list(range(m))])
        if c.get("order") in ("F", "strided"):
            c["order"] = "C"
        c["noncontig"] = c["strided"] = False
        c.pop("form", None)
        if c.get("dtype") in ("S3", "U3") and "dtype2" in c:
            c["dtype"] = c["dtype2"] = "?"
        if c.get("result") in ("F", "strided"):
            c["result"] = "C"
        return c

    def program(self, case, rank):
        gi, pos = group_of(case, rank)
        return case["prog"][gi], pos

    def execute(self, case, log=False):
        if case.get("files"):
            return self.execute_files(case, log)
        sims = []

        def body(arg, comm, rank):
            prog, pos = self.program(case, rank)
            sim = sims[0]
            rounds = []
            for k in range(case["rounds"]):
                out = []
                for op, sub in prog:
                    out.append(OPS[op].body(sub, arg, comm, pos))
                rounds.append((out, sim.census(rank)))
            return rounds
        sim = run_mpi(case, body, log=log, setup=sims.append)
        try:
            for gi, g in enumerate(case["layout"]["groups"]):
                for k in range(case["rounds"]):
                    for i, (op, sub) in enumerate(case["prog"][gi]):
                        OPS[op].judge(sub, list(range(len(g))), [sim.procs[r].result[k][0][i] for r in g])
            self.no_growth(sim)
        except Violation as v:
            violation_info(v, sim)
            raise
        info = info_of(sim, nontrivial=case["n"] > 1)
        for prog in case["prog"]:
            for op, _ in prog:
                info["probes"]["op " + op] = info["probes"].get("op " + op, 0) + case["rounds"]
        if len(case["prog"]) > 1:
            info["probes"]["two communicators at once"] = 1
        if log:
            info["log"] = ["rank %d: %s" % e for e in sim.log]
        return info

    def shrink(self, case):
        if case.get("files"):
            yield from c11.CHECK.shrink(case)
            return
        # one communicator only
        if len(case["prog"]) > 1:
            for k in range(len(case["prog"])):
                c = copy.deepcopy(case)
                g = c["layout"]["groups"][k]
                m = len(g)
                c["n"], c["layout"], c["prog"] = m, dict(kind="world", groups=[list(range(m))]), [c["prog"][k]]
                c["cfg"]["starve"] = 0
                yield c
        for k, prog in enumerate(case["prog"]):
            for i in range(len(prog)):
                if len(prog) > 1:
                    c = copy.deepcopy(case)
                    del c["prog"][k][i]
                    yield c
        if case["rounds"] > 1:
            yield dict(copy.deepcopy(case), rounds=1)
        if case["layout"]["kind"] != "world" and len(case["prog"]) == 1:
            yield dict(copy.deepcopy(case), layout=dict(kind="world", groups=[list(range(case["n"]))]))
        if case.get("chunk"):
            c = copy.deepcopy(case)
            del c["chunk"]
            yield c
        # fewer ranks
        if len(case["prog"]) == 1 and case["n"] > 1 and case["layout"]["kind"] == "world":
            for r in range(case["n"]):
                c = copy.deepcopy(case)
                c["n"] -= 1
                c["layout"]["groups"] = [list(range(c["n"]))]
                c["cfg"]["starve"] = 0
                for i, (op, sub) in enumerate(c["prog"][0]):
                    sub["cfg"] = {}
                    c["prog"][0][i][1] = self.strip(OPS[op].drop_rank(sub, r), c["n"])
                yield c
        for k, prog in enumerate(case["prog"]):
            for i, (op, sub) in enumerate(prog):
                for s in OPS[op].shrink_data(sub):
                    c = copy.deepcopy(case)
                    c["prog"][k][i][1] = s
                    yield c


CHECK = C07()
