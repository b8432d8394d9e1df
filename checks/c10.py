from .h5common import *


class C10(FileSetCheck):
    prop = "C10"
    quick_runs = 5000
    quick_s = 45
    rule = "A run is one job reading 1-3 datasets from a generated set of files. Non-trivial: more than one rank, at least one row."

    def gen(self, rng, tier):
        case = gen_mpi(rng, tier)
        fs = case["fs"] = gen_files(rng, tier)
        case["want"] = rng.choice(["dict", "dict", "unpack", "single", "list", "absent"])
        case["file_nr"] = rng.choice([None, "all", "all", "first"])
        case["attributes"] = rng.random() < 0.4
        case["again"] = rng.random() < 0.15
        if rng.random() < 0.12 and fs["nf"] > 1:
            # one file disagrees on a type
            fs["types"] = [[d["type"] for d in fs["sets"]] for _ in range(fs["nf"])]
            f, i = rng.randrange(fs["nf"]), rng.randrange(len(fs["sets"]))
            fs["types"][f][i] = rng.choice([t for t in SIMPLE if dt(t) != dt(fs["sets"][i]["type"]).newbyteorder("=")])
        if rng.random() < 0.15:
            case["buffer"] = rng.choice([16, 100])
        if rng.random() < 0.03:
            # one name for several files: their rows can't be read once each
            case["samename"] = rng.choice([2, 3, 9])
        elif rng.random() < 0.12:
            # the program reads another set of files first, which is then replaced by this one
            old = gen_files(rng, tier)
            if fs["style"] != "plain" and old["nf"] != fs["nf"] or old["style"] == "plain":
                old.update(nf=fs["nf"], rows=(old["rows"] * 8)[:fs["nf"]], nogroup=(old["nogroup"] * 8)[:fs["nf"]]) if rng.random() < 0.4 or fs["style"] == "plain" else None
            old.update(style=fs["style"], count=fs["count"], group=fs["group"])
            if fs["style"] == "plain":
                old.update(nf=1, rows=old["rows"][:1], nogroup=old["nogroup"][:1])
            old["idx"] = (fs["idx"] + [i for i in range(40) if i not in fs["idx"]])[:old["nf"]]
            if fs["group"] is None:
                old["nogroup"] = [False] * old["nf"]
            case["before"] = old
        return case

    def shrink_data(self, case):
        if case.get("samename", 2) != 2:
            yield dict(copy.deepcopy(case), samename=2)
        if case.get("before"):
            c = copy.deepcopy(case)
            del c["before"]
            yield c
        yield from super().shrink_data(case)

    def disagree(self, case):
        fs = case["fs"]
        if not fs.get("types"):
            return False
        for i in range(len(fs["sets"])):
            if case["want"] == "single" and i > 0:
                continue
            if len({dt(fs["types"][f][i]).newbyteorder("=").str for f in range(fs["nf"]) if present(fs, f, i)}) > 1:
                return True
        return False

    def body(self, case, arg, comm, rank):
        fs = case["fs"]
        ph = V("mpi.parallel_hdf5")
        ph.BUFFER_SIZE = case.get("buffer", 100 * 1024 * 1024)
        names = [d["name"] for d in fs["sets"]]
        if case.get("samename"):
            kw = {} if arg is None else dict(comm=arg)
            return ph.MultiFile(file_name(fs, self.dir, 0), file_idx=np.arange(case["samename"]), **kw).read(names, group=fs["group"])
        if case["want"] == "absent":
            names = names + ["nothere"]
        kw = {}
        if case["file_nr"] == "all":
            kw["return_file_nr"] = list(names)
        elif case["file_nr"] == "first":
            kw["return_file_nr"] = (names[0],)
        if case["attributes"]:
            kw["read_attributes"] = True
        if case["want"] == "unpack":
            kw["unpack"] = True
            if case["file_nr"] == "first":
                kw["return_file_nr"] = tuple(names)
        if case["want"] == "single":
            names = names[0]
            if "return_file_nr" in kw:
                kw["return_file_nr"] = (names,)
        if case.get("before"):
            from dst import mpi
            world = mpi.module.COMM_WORLD
            open_set(case["before"], self.dir, arg).read([d["name"] for d in case["before"]["sets"]], group=fs["group"])
            world.Barrier()
            if world.Get_rank() == 0:
                for f in range(case["before"]["nf"]):
                    os.unlink(file_name(case["before"], self.dir, f))
                write_files(fs, self.dir)
            world.Barrier()
        try:
            mf = open_set(fs, self.dir, arg)
            res = mf.read(names, group=fs["group"], **kw)
            if case["again"]:
                res2 = mf.read(names, group=fs["group"], **kw)
        except RuntimeError as e:
            if "nconsistent dtype" in str(e):
                return "refused"
            raise
        return [self.normal(case, names, r, kw) for r in ([res, res2] if case["again"] else [res])]

    def normal(self, case, names, res, kw):
        """(dict of arrays, dict of file numbers)"""
        nr = None
        if "return_file_nr" in kw:
            res, nr = res
        if isinstance(names, str):
            return {names: res}, {names: nr} if nr is not None or "return_file_nr" in kw else None
        if kw.get("unpack"):
            if not isinstance(res, list):
                raise AssertionError("unpack gave %s" % type(res))
            return dict(zip(names, res)), dict(zip(names, nr)) if nr is not None else None
        if set(res) != set(names):
            raise AssertionError("names returned: %s" % sorted(res))
        return res, nr

    def judge(self, case, g, results):
        fs = case["fs"]
        if self.disagree(case):
            bad = [r for r, x in zip(g, results) if x != "refused"]
            if bad:
                raise Violation("type-disagreement", "files disagree on the element type but ranks %s (of %s) got no error: types %s" % (bad, g, fs["types"]))
            return
        if any(x == "refused" for x in results):
            raise Violation("refused", "consistent files were refused as inconsistent")
        for k in range(len(results[0])):
            self.judge1(case, g, [x[k] for x in results])

    def judge1(self, case, g, results):
        fs = case["fs"]
        nset = 1 if case["want"] == "single" else len(fs["sets"])
        if case["want"] == "absent":
            for r, (data, nr) in zip(g, results):
                if data["nothere"] is not None or (nr and nr.get("nothere") is not None):
                    raise Violation("absent", "rank %d: a dataset which is in no file was returned as %s" % (r, show(data["nothere"])))
        for i in range(nset):
            d = fs["sets"][i]
            name = d["name"]
            want, wnr = whole(fs, i)
            if want is not None and fs.get("types"):
                t = [fs["types"][f][i] for f in range(fs["nf"]) if present(fs, f, i)][0]
                want = np.concatenate([make(t, 1000 * f + np.arange(fs["rows"][f][i]), d["tail"], i) for f in range(fs["nf"]) if present(fs, f, i)])
            got = [data[name] for data, _ in results]
            if want is None:
                if any(x is not None for x in got):
                    raise Violation("absent", "%s is in no file but was returned as %s" % (name, [None if x is None else x.shape for x in got]))
                continue
            for r, x in zip(g, got):
                if x is None:
                    raise Violation("none", "rank %d got None for %s although files have it" % (r, name))
                if x.dtype != want.dtype.newbyteorder("=") or x.shape[1:] != want.shape[1:]:
                    raise Violation("type", "rank %d: %s has type %s shape %s, not %s and rows of %s" % (r, name, x.dtype, x.shape, want.dtype, want.shape[1:]))
            if not equal(np.concatenate([np.asarray(x) for x in got]), want):
                raise Violation("rows", "%s: rows in rank order are\n%s\nnot those in file order\n%s" % (name, show(np.concatenate([np.asarray(x) for x in got])), show(want)))
            o = 0
            for r, (data, nr) in zip(g, results):
                m = len(data[name])
                if nr is not None and name in nr and nr[name] is not None:
                    if len(nr[name]) != m or not np.array_equal(nr[name], wnr[o:o + m]):
                        raise Violation("file-nr", "rank %d: file numbers of %s are %s, should be %s" % (r, name, show(nr[name]), show(wnr[o:o + m])))
                elif case["file_nr"] == "all" or (case["file_nr"] == "first" and i == 0):
                    raise Violation("file-nr", "rank %d: no file numbers for %s" % (r, name))
                if case["attributes"]:
                    a = getattr(data[name], "attrs", None)
                    files = sorted(set(wnr[o:o + m])) if m else []
                    ids = fs["idx"] if fs["count"] != "list" else list(range(fs["nf"]))
                    cand = [f for f in range(fs["nf"]) if present(fs, f, i) and (not files or ids[f] in files or not fs["rows"][f][i])]
                    ok = any(self.attrs_equal(a, file_attrs(fs, f, i)) for f in cand)
                    if not ok:
                        raise Violation("attributes", "rank %d: attributes of %s are %s, the files have %s" % (r, name, a, [file_attrs(fs, f, i) for f in cand]))
                o += m

    @staticmethod
    def attrs_equal(a, b):
        if a is None or set(a) != set(b):
            return False
        return all(np.array_equal(a[k], b[k]) for k in b)

    def execute(self, case, log=False):
        with env.rundir() as self.dir:
            write_files(case.get("before") or case["fs"], self.dir)
            sim = run_mpi(case, lambda a, c, r: self.body(case, a, c, r), log=log, scratch=self.dir, allow_exc=bool(case.get("samename")))
            try:
                if case.get("samename"):
                    if not sim.aborted and all(p.what == "returned" for p in sim.procs):
                        raise Violation("same-name", "the rows of one file were read %d times as those of %d files" % ((case["samename"],) * 2))
                    sim.hit("one name for several files")
                for g in () if case.get("samename") else case["layout"]["groups"]:
                    self.judge(case, g, [sim.procs[r].result for r in g])
            except Violation as v:
                raise violation_info(v, sim)
            if case.get("before"):
                sim.hit("files replaced between reads")
            if self.disagree(case):
                sim.hit("files disagree on a type")
            info = info_of(sim, nontrivial=self.nontrivial(case))
            if log:
                info["log"] = ["rank %d: %s" % e for e in sim.log]
            return info


CHECK = C10()
