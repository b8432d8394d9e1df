from .h5common import *


class C11(FileSetCheck):
    prop = "C11"
    quick_runs = 4000
    quick_s = 50
    rule = ("A run is two jobs: one reads a set of files, asks for the layout and writes new arrays with it; another one, with its own number of "
            "ranks, reads the result. Non-trivial: more than one rank, at least one row.")

    def gen(self, rng, tier):
        case = gen_mpi(rng, tier)
        if case["layout"]["kind"] == "split" and len(case["layout"]["groups"]) > 1:
            case["layout"] = dict(kind="split", groups=[sum(case["layout"]["groups"], [])])
        fs = case["fs"] = gen_files(rng, tier)
        case["mode"] = rng.choice(["w", "w", "w", "r+", "a", "a", "w-"])
        case["wgroup"] = rng.choice([None, "out", "x/y", "PartType0"])
        case["wattrs"] = rng.choice([None, None, 0, 1, 2])
        case["opts"] = rng.choice([{}, {}, dict(gzip=3), dict(shuffle=True, gzip=1, chunk=2), dict(shuffle=True), dict(dcpl=1, gzip=2), dict(dcpl=0)])
        case["hdf5"] = [1, 12, 0] if rng.random() < 0.35 else None
        case["derived"] = [dict(type=rng.choice(SIMPLE + ["b1", "comp", "be_i8"]), tail=rng.choice([[], [2], [3, 1], []])) for _ in range(rng.choice([0, 0, 1, 2]))]
        case["n2"] = gen_n(rng, tier)
        case["base"] = rng.randrange(len(fs["sets"]))
        case["inplace"] = case["mode"] in ("r+", "a") and rng.random() < 0.5
        case["outstyle"] = rng.choice(["same", "same", "list"])
        if rng.random() < 0.1:
            case["buffer"] = rng.choice([8, 40])
        if rng.random() < 0.05:
            # what is to be written doesn't fit the layout, or several files would have one name
            case["misfit"] = [rng.choice(["longer", "shorter", "samename", "samelist"]), rng.randrange(30), rng.randrange(3)]
        return case

    def names(self, case):
        """Datasets with the layout of the base dataset are written: it and the derived ones"""
        return ["copy"] + ["new%d" % k for k in range(len(case["derived"]))]

    def derived(self, case, k, ids):
        d = case["derived"][k]
        return make(d["type"], ids, d["tail"], 50 + k)

    def outpat(self, case, dirname):
        fs = case["fs"]
        prefix = "in" if case["inplace"] else "out"
        if case["outstyle"] == "list":
            return [file_name(fs, dirname, f, prefix) for f in range(fs["nf"])]
        return file_pattern(fs, dirname, prefix)

    def body(self, case, arg, comm, rank):
        fs = case["fs"]
        ph = V("mpi.parallel_hdf5")
        ph.BUFFER_SIZE = case.get("buffer", 100 * 1024 * 1024)
        name = fs["sets"][case["base"]]["name"]
        mf = open_set(fs, self.dir, arg)
        epf = mf.get_elements_per_file(name, group=fs["group"])
        data, nr = mf.read(name, group=fs["group"], return_file_nr=(name,))
        if data is None:
            return dict(epf={int(k): int(v) for k, v in epf.items()}, n=None)
        # rows of derived datasets are made from the position of the local rows in the whole
        n = len(data)
        first = comm.exscan(n)
        first = 0 if first is None else first
        ids = np.arange(first, first + n)
        out = {"copy": data}
        for k in range(len(case["derived"])):
            out["new%d" % k] = self.derived(case, k, ids)
        keep = {k: np.array(v) for k, v in out.items()}
        attrs = None
        if case["wattrs"] is not None:
            attrs = {m: dict(ATTRS[case["wattrs"]], which=m) for m in list(out)[:2]}
        if case.get("misfit"):
            return self.misfit(case, mf, out, epf, rank)
        mf.write(out, epf, self.outpat(case, self.dir), case["mode"], group=case["wgroup"], attrs=attrs, **write_options(case["opts"]))
        for k in keep:
            if not same(np.asarray(out[k]), keep[k]):
                raise AssertionError("write modified its input")
        return dict(epf={int(k): int(v) for k, v in epf.items()}, n=n, nr=nr)

    def misfit(self, case, mf, out, epf, rank):
        """Ask for something which can't be written without losing or inventing rows; returns whether it was asked"""
        kind, who, which = case["misfit"]
        g = case["layout"]["groups"][0]
        names = self.outpat(case, self.dir)
        asked = False
        if kind in ("longer", "shorter"):
            if g[who % len(g)] == rank:
                k = list(out)[which % len(out)]
                x = np.asarray(out[k])
                if kind == "shorter" and len(x):
                    out[k], asked = x[:-1], True
                elif kind == "longer":
                    out[k], asked = np.concatenate([x, np.zeros((1,) + x.shape[1:], x.dtype)]), True
        elif case["fs"]["nf"] > 1:
            names = os.path.join(self.dir, "same.hdf5")
            if kind == "samelist":
                names = [file_name(case["fs"], self.dir, f, "out") for f in range(case["fs"]["nf"])]
                names[who % len(names)] = names[who % len(names) - 1]
            asked = True
        mf.write(out, epf, names, "w", group=case["wgroup"])
        return dict(asked=asked)

    def execute_misfit(self, case, log):
        with env.rundir() as self.dir:
            write_files(case["fs"], self.dir)
            sim = run_mpi(case, lambda a, c, r: self.body(case, a, c, r), log=log, scratch=self.dir, allow_exc=True)
            try:
                if not sim.aborted and all(p.what == "returned" for p in sim.procs):
                    if any(p.result and p.result.get("asked") for p in sim.procs):
                        raise Violation("misfit", "a request which loses or invents rows (%s) returned normally on all ranks" % case["misfit"][0])
                else:
                    sim.probe("request which doesn't fit refused")
            except Violation as v:
                raise violation_info(v, sim)
            info = info_of(sim, nontrivial=self.nontrivial(case))
            if log:
                info["log"] = ["rank %d: %s" % e for e in sim.log]
            return info

    def prepare_outputs(self, case):
        """Existing files which are to be modified"""
        fs = case["fs"]
        self.extra = {}
        if case["mode"] in ("r+", "a") and not case["inplace"]:
            for f in range(fs["nf"]):
                if case["mode"] == "a" and f % 3 == 2:
                    continue
                with h5py.File(file_name(fs, self.dir, f, "out"), "w") as h:
                    h["other/thing"] = np.arange(5) + f
                    h.attrs["note"] = "keep %d" % f
                    if case["wgroup"]:
                        h.create_group(case["wgroup"]).create_dataset("sibling", data=np.arange(3) * f)
        elif case["mode"] == "w" and case["nfiles_stale"]:
            for f in range(fs["nf"]):
                with h5py.File(file_name(fs, self.dir, f, "out"), "w") as h:
                    h["stale"] = np.arange(100)

    def snapshot(self, path):
        """All content of a file"""
        res = {}
        with h5py.File(path, "r") as h:
            def visit(name, o):
                if isinstance(o, h5py.Dataset):
                    res[name] = (o.dtype.str, o[...].tobytes(), o.shape, sorted((k, repr(v)) for k, v in o.attrs.items()))
                else:
                    res[name] = (None, sorted((k, repr(v)) for k, v in o.attrs.items()))
            h.visititems(visit)
            res["/"] = sorted((k, repr(v)) for k, v in h.attrs.items())
        return res

    def judge(self, case, g, results, before):
        fs = case["fs"]
        b = case["base"]
        ids = fs["idx"] if fs["count"] != "list" else list(range(fs["nf"]))
        # counts
        tot = {}
        for r in results:
            for k, v in r["epf"].items():
                tot[k] = tot.get(k, 0) + v
        want = {int(ids[f]): (fs["rows"][f][b] if present(fs, f, b) else 0) for f in range(fs["nf"])}
        if tot != want:
            raise Violation("counts", "elements per file add up to %s, should be %s" % (tot, want))
        allrows, nr = whole(fs, b)
        if allrows is None:
            return
        for r, x in zip(g, results):
            have = {int(k): int(c) for k, c in zip(*np.unique(x["nr"], return_counts=True))}
            if {k: v for k, v in x["epf"].items() if v} != have:
                raise Violation("counts", "rank %d: elements per file %s but it reads rows of files %s" % (r, x["epf"], have))
        # files
        first = 0
        outs = self.outpat(case, self.dir)
        prefix = "in" if case["inplace"] else "out"
        for f in range(fs["nf"]):
            path = file_name(fs, self.dir, f, prefix)
            m = want[int(ids[f])]
            if not os.path.exists(path):
                raise Violation("files", "%s was not written" % os.path.basename(path))
            after = self.snapshot(path)
            mine = set()
            with h5py.File(path, "r") as h:
                loc = h[case["wgroup"]] if case["wgroup"] else h
                for name in self.names(case):
                    mine.add((case["wgroup"] + "/" if case["wgroup"] else "") + name)
                    if name not in loc:
                        raise Violation("files", "%s has no %s" % (os.path.basename(path), name))
                    got = loc[name][...]
                    exp = file_rows(fs, f, b) if name == "copy" else self.derived(case, int(name[3:]), np.arange(first, first + m))
                    if not equal(got, exp):
                        raise Violation("rows", "%s: %s is %s\n%s\nshould be %s\n%s" % (os.path.basename(path), name, got.dtype, show(got), exp.dtype, show(exp)))
                    check_storage(loc[name], case, case["opts"])
                    a = dict(loc[name].attrs)
                    wa = dict(ATTRS[case["wattrs"]], which=name) if case["wattrs"] is not None and name in self.names(case)[:2] else {}
                    if set(a) != set(wa) or not all(np.array_equal(a[k], wa[k]) for k in wa):
                        raise Violation("attributes", "%s: %s has attributes %s instead of %s" % (os.path.basename(path), name, a, wa))
            groups = set()
            if case["wgroup"]:
                p = ""
                for part in case["wgroup"].split("/"):
                    p = p + "/" + part if p else part
                    groups.add(p)
            old = before.get(path, {"/": []}) if case["mode"] in ("r+", "a") else {"/": []}
            for k in old:
                if after.get(k) != old[k]:
                    raise Violation("other-content", "%s: %s was changed or lost" % (os.path.basename(path), k))
            new = set(after) - set(old) - mine - groups
            if new:
                raise Violation("other-content", "%s: unexpected %s" % (os.path.basename(path), sorted(new)))
            first += m

    def body2(self, case, arg, comm, rank):
        ph = V("mpi.parallel_hdf5")
        ph.BUFFER_SIZE = case.get("buffer", 100 * 1024 * 1024)
        fs = case["fs"]
        pat = self.outpat(case, self.dir)
        kw = dict(file_idx=fs["idx"]) if isinstance(pat, str) else {}
        if arg is not None:
            kw["comm"] = arg
        mf = ph.MultiFile(pat, **kw)
        return mf.read(self.names(case), group=case["wgroup"])

    def execute(self, case, log=False):
        if case.get("misfit"):
            return self.execute_misfit(case, log)
        case.setdefault("nfiles_stale", case["sseed"] % 3 == 0)
        with env.rundir() as self.dir, hdf5_version(case):
            fs = case["fs"]
            write_files(fs, self.dir)
            if case["mode"] == "r+" and not case["inplace"]:
                pass
            self.prepare_outputs(case)
            before = {p: self.snapshot(p) for p in [os.path.join(self.dir, x) for x in sorted(os.listdir(self.dir))]}
            if case["mode"] == "w-":
                for f in range(fs["nf"]):
                    p = file_name(fs, self.dir, f, "out")
                    assert not os.path.exists(p)
            sim = run_mpi(case, lambda a, c, r: self.body(case, a, c, r), log=log, scratch=self.dir)
            g = case["layout"]["groups"][0]
            res = [sim.procs[r].result for r in g]
            n2 = case["n2"]
            c2 = dict(case, n=n2, sseed=case["sseed"] ^ 0x5bd1e995, layout=dict(kind="world", groups=[list(range(n2))]), trace=None,
                      cfg=dict(case["cfg"], starve=0), faults=[])
            sim2 = None
            try:
                self.judge(case, g, res, before)
                for p, s in before.items():
                    if os.path.basename(p).startswith("in") and not case["inplace"] and self.snapshot(p) != s:
                        raise Violation("other-content", "input file %s was changed" % os.path.basename(p))
                want, _ = whole(fs, case["base"])
                if want is not None:
                    sim2 = run_mpi(c2, lambda a, c, r: self.body2(case, a, c, r), log=log, scratch=self.dir)
                    for name in self.names(case):
                        got = [sim2.procs[r].result[name] for r in range(n2)]
                        exp = want if name == "copy" else self.derived(case, int(name[3:]), np.arange(len(want)))
                        if any(x is None for x in got) or not equal(np.concatenate([np.asarray(x) for x in got]), exp):
                            raise Violation("read-back", "%s read back on %d ranks is\n%s\ninstead of\n%s" % (name, n2, [show(x) for x in got], show(exp)))
            except Violation as v:
                raise violation_info(v, sim)
            info = info_of(sim, nontrivial=self.nontrivial(case))
            if sim2 is not None:
                info["steps"] += sim2.steps
                info["clock"] += sim2.clock
                info["digest"] += sim2.digest
                for k, v in sim2.fault_hits.items():
                    info["faults"][k] = info["faults"].get(k, 0) + v
            if log:
                info["log"] = ["rank %d: %s" % e for e in sim.log] + (["--- reading back"] + ["rank %d: %s" % e for e in sim2.log] if sim2 else [])
            return info

    def shrink_data(self, case):
        for k, v in (("wgroup", None), ("wattrs", None), ("opts", {}), ("mode", "w"), ("outstyle", "same"), ("n2", 1), ("base", 0), ("hdf5", None)):
            if case.get(k) != v:
                c = copy.deepcopy(case)
                c[k] = v
                if k == "mode":
                    c["inplace"] = False
                yield c
        for k in range(len(case["derived"])):
            c = copy.deepcopy(case)
            del c["derived"][k]
            yield c
        for c in shrink_files(case):
            c["base"] = min(c["base"], len(c["fs"]["sets"]) - 1)
            yield c


CHECK = C11()
