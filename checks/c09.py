from .h5common import *


class C09(MpiCheck):
    prop = "C09"
    hdf5 = True
    quick_runs = 6000
    quick_s = 45
    fields = ("rows",)
    real = H5_REAL
    stubs = H5_STUB
    faults_possible = H5_FAULTS
    rule = "A run is one job writing 1-3 datasets collectively and reading them back on another number of ranks. Non-trivial: more than one rank, at least one row."

    def gen(self, rng, tier):
        case = gen_mpi(rng, tier)
        n = case["n"]
        k = rng.random()
        tot = 0 if k < 0.06 else rng.randrange(1, 12) if k < 0.25 else rng.randrange(8, 140)
        case["rows"] = [[x] for x in gen_sizes(rng, n, tot)]
        case["sets"] = []
        for i in range(rng.choice([1, 1, 2, 3])):
            d = dict(type=rng.choice(SIMPLE + ODD), tail=rng.choice([[], [], [], [3], [2, 2], [1], [0]]),
                     wbuf=rng.choice([None, None, 1, 7, 8, 16, 24, 50, 100, 1000]), rbuf=rng.choice([None, None, 1, 7, 8, 16, 24, 50, 100, 1000]),
                     exist=rng.random() < 0.2, order=rng.choice(["C", "C", "F", "strided"]),
                     opts=rng.choice([{}, {}, dict(gzip=4), dict(shuffle=True, gzip=1, chunk=4), dict(shuffle=True), dict(gzip=2, chunk=1), dict(dcpl=1, gzip=2), dict(dcpl=0)]))
            case["sets"].append(d)
        case["hdf5"] = [1, 12, 0] if rng.random() < 0.35 else None
        case["bad"] = rng.choice(["dtype", "shape", "ndim"]) if n > 1 and rng.random() < 0.06 else None
        if case["bad"]:
            case["layout"] = dict(kind="world", groups=[list(range(n))])
            case["badrank"] = rng.randrange(n)
            case["sets"][0]["exist"] = False
        return case

    def drop_rank(self, c, r):
        c = super().drop_rank(c, r)
        if c.get("bad"):
            c["badrank"] %= c["n"]
            if c["n"] == 1:
                c["bad"] = None
        return c

    def local(self, case, g, rank, i):
        d = case["sets"][i]
        first = sum(case["rows"][r][0] for r in g[:g.index(rank)])
        n = case["rows"][rank][0]
        tail, typ = tuple(d["tail"]), d["type"]
        if case["bad"] and i == 0 and rank == case["badrank"]:
            if case["bad"] == "dtype":
                typ = "i4" if typ != "i4" else "i8"
            elif case["bad"] == "shape":
                tail = (tail[:-1] + (tail[-1] + 1,)) if tail else (2,)
            else:
                tail = tail + (1,)
        a = make(typ, np.arange(first, first + n), tail, i)
        if d["order"] == "F":
            a = np.asfortranarray(a)
        elif d["order"] == "strided":
            b = np.zeros((2 * len(a),) + a.shape[1:], dtype=a.dtype)
            b[::2] = a
            a = b[::2]
        return a

    def body(self, case, arg, comm, rank):
        ph = V("mpi.parallel_hdf5")
        gi, _ = group_of(case, rank)
        g = case["layout"]["groups"][gi]
        path = os.path.join(self.dir, "out%d.h5" % gi)
        ph_write, ph_read = ph.collective_write, ph.collective_read
        ins = [self.local(case, g, rank, i) for i in range(len(case["sets"]))]
        keep = [a.copy() for a in ins]
        with h5py.File(path, "w", driver="mpio", comm=comm) as f:
            grp = f.create_group("data")
            for i, d in enumerate(case["sets"]):
                if d["exist"]:
                    tot = sum(case["rows"][r][0] for r in g)
                    grp.create_dataset("d%d" % i, shape=(tot,) + tuple(d["tail"]), dtype=dt(d["type"]))
                ds = ph_write(grp, "d%d" % i, ins[i], comm, buffer_size=d["wbuf"], create_dataset=not d["exist"], **write_options(d["opts"]))
                if ds.shape[0] != sum(case["rows"][r][0] for r in g):
                    raise AssertionError("dataset returned by collective_write has shape %s" % (ds.shape,))
                del ds
            del grp
        for a, k in zip(ins, keep):
            if not same(a, k):
                raise AssertionError("collective_write modified its input")
        res = []
        with h5py.File(path, "r", driver="mpio", comm=comm) as f:
            for i, d in enumerate(case["sets"]):
                res.append(ph_read(f["data/d%d" % i], comm, buffer_size=d["rbuf"]))
        return res

    def judge(self, case, g, results):
        gi = case["layout"]["groups"].index(g)
        n = len(g)
        rows = [case["rows"][r][0] for r in g]
        tot = sum(rows)
        with h5py.File(os.path.join(self.dir, "out%d.h5" % gi), "r") as f:
            if sorted(f["data"]) != sorted("d%d" % i for i in range(len(case["sets"]))):
                raise Violation("write", "datasets in the file: %s" % sorted(f["data"]))
            for i, d in enumerate(case["sets"]):
                want = make(d["type"], np.arange(tot), d["tail"], i)
                got = f["data/d%d" % i][...]
                if got.dtype != want.dtype or not equal(got, want):
                    raise Violation("write", "dataset d%d (%s) in the file is not the concatenation of the ranks' arrays\nexpected %s %s\n     got %s %s"
                                    % (i, d, want.dtype, show(want), got.dtype, show(got)))
                if not d["exist"]:
                    check_storage(f["data/d%d" % i], case, d["opts"])
                o = 0
                for r in range(n):
                    x = results[r][i]
                    k = tot // n + (1 if r < tot % n else 0)
                    if not isinstance(x, np.ndarray) or not equal(x, want[o:o + k]):
                        # any near-equal split would do
                        parts = [np.asarray(results[q][i]) for q in range(n)]
                        sizes = [len(p) for p in parts]
                        if max(sizes) - min(sizes) <= 1 and all(p.shape[1:] == want.shape[1:] for p in parts) and equal(np.concatenate(parts), want):
                            break
                        raise Violation("read", "collective_read of d%d (%s): rank %d got\n%s\ninstead of\n%s" % (i, d, r, show(x), show(want[o:o + k])))
                    o += k

    def execute(self, case, log=False):
        with env.rundir() as self.dir, hdf5_version(case):
            if not case["bad"]:
                sim = run_mpi(case, lambda a, c, r: self.body(case, a, c, r), log=log, scratch=self.dir)
                try:
                    for g in case["layout"]["groups"]:
                        self.judge(case, g, [sim.procs[r].result for r in g])
                except Violation as v:
                    violation_info(v, sim)
                    raise
            else:
                sim = run_mpi(case, lambda a, c, r: self.body(case, a, c, r), log=log, scratch=self.dir, allow_exc=True)
                bad = [p for p in sim.procs if isinstance(p.exc, (ValueError, TypeError))]
                sim.hit("inconsistent input")
                if not bad:
                    p = [(p.what, repr(p.exc)) for p in sim.procs]
                    raise violation_info(Violation("inconsistent", "inconsistent %s on rank %d was not refused: %s" % (case["bad"], case["badrank"], p)), sim)
            info = info_of(sim, nontrivial=self.nontrivial(case))
            if log:
                info["log"] = ["rank %d: %s" % e for e in sim.log]
            return info

    def nontrivial(self, case):
        return case["n"] > 1 and any(r[0] for r in case["rows"])

    def shrink_data(self, case):
        if case.get("hdf5"):
            yield dict(copy.deepcopy(case), hdf5=None)
        for i in range(len(case["sets"])):
            if len(case["sets"]) > 1:
                c = copy.deepcopy(case)
                del c["sets"][i]
                if c["bad"]:
                    c["sets"][0]["exist"] = False
                yield c
            for k, v in (("wbuf", None), ("rbuf", None), ("exist", False), ("order", "C"), ("opts", {}), ("tail", []), ("type", "i4")):
                if case["sets"][i][k] != v:
                    c = copy.deepcopy(case)
                    c["sets"][i][k] = v
                    yield c
        for r in range(case["n"]):
            v = case["rows"][r][0]
            for w in sorted({0, v // 2, v - 1}):
                if 0 <= w < v:
                    c = copy.deepcopy(case)
                    c["rows"][r][0] = w
                    yield c


CHECK = C09()
