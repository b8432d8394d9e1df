import copy
import numpy as np
from .common import *


class C13(MpiCheck):
    prop = "C13"
    fields = ("groups", "npart")
    rule = ("A run is one whole job computing group membership for generated group lengths and offsets. Non-trivial: more than one rank, "
            "at least one group and one particle.")

    def gen(self, rng, tier):
        case = gen_mpi(rng, tier)
        n = case["n"]
        ng = rng.choice([0, 1, 2, 5, 10, 25])
        gl = rng.choice([1, 3, 10, 40])
        gap = rng.choice([0, 0, 1, 6])
        if rng.random() < 0.01:
            ng, gl = rng.choice([(300, 10), (34000, 2), (66000, 1), (3, 40000), (1, 70000)])
            few_messages(case, ng)
        flat = []
        for _ in range(ng):
            flat.append([rng.choice([0, rng.randrange(gap + 1)]), 0 if rng.random() < 0.15 else rng.randrange(1, gl + 1)])
        case["groups"] = split_list(flat, gen_sizes(rng, n, ng))
        # particles per rank: weights, made to fit; tail = unused particles at the end
        case["npart"] = [[v] for v in gen_sizes(rng, n, 100)]
        case["tail"] = rng.choice([0, 0, 1, 10])
        case["ltype"] = rng.choice(["i4", "u4", "i8", "u8", "list"])
        case["otype"] = rng.choice(["i4", "u4", "i8", "u8", "list"])
        case["rank"] = rng.random() < 0.7
        case["ntype"] = rng.choice(["int", "i8"])
        return case

    def table(self, case, g):
        off, lens = {}, {}
        o = 0
        for r in g:
            off[r], lens[r] = [], []
            for gap, ln in case["groups"][r]:
                o += gap
                off[r].append(o)
                lens[r].append(ln)
                o += ln
        tot = o + case["tail"]
        w = [sum(case["npart"][r]) for r in g]
        if not sum(w):
            w[0] = 1
        num = [tot * x // sum(w) for x in w]
        num[max(range(len(g)), key=lambda i: w[i])] += tot - sum(num)
        return g, off, lens, dict(zip(g, num)), tot

    def body(self, case, arg, comm, rank):
        u = V("mpi.util")
        g, off, lens, num, tot = self.table(case, [x for x in case["layout"]["groups"] if rank in x][0])
        conv = lambda v, t: v if t == "list" else np.array(v, dtype=t)
        ln, of = conv(lens[rank], case["ltype"]), conv(off[rank], case["otype"])
        keep = (list(lens[rank]), list(off[rank]))
        nl = num[rank] if case["ntype"] == "int" else np.int64(num[rank])
        kw = dict(return_rank=True) if case["rank"] else dict(return_rank=False) if case["tail"] else {}
        res = u.group_index_from_length_and_offset(ln, of, nl, comm=arg, **kw)
        if case["rank"]:
            a, b = res
        else:
            a, b = res, None
        keep_result(a, b)
        return dict(grnr=np.array(a), rank=None if b is None else np.array(b), mod=(list(ln), list(of)) != keep)

    def judge(self, case, g, res):
        g, off, lens, num, tot = self.table(case, g)
        want = np.full(tot, -1)
        wrank = np.full(tot, -1)
        i = 0
        for r in g:
            for o, ln in zip(off[r], lens[r]):
                want[o:o + ln] = i
                wrank[o:o + ln] = np.arange(ln)
                i += 1
        for r, x in zip(g, res):
            if x["mod"]:
                raise Violation("input-modified", "lengths or offsets were modified")
            if x["grnr"].shape != (num[r],) or (case["rank"] and x["rank"].shape != (num[r],)):
                raise Violation("layout", "rank %d: %s results for %d particles" % (r, x["grnr"].shape, num[r]))
            if any(v is not None and v.dtype.kind != "i" for v in (x["grnr"], x["rank"])):
                raise Violation("type", "rank %d: results of type %s" % (r, [v.dtype for v in (x["grnr"], x["rank"]) if v is not None]))
        a = cat([x["grnr"] for x in res])
        if not np.array_equal(a, want):
            raise Violation("membership", "lengths %s offsets %s particles %s\nresult %s\nexpected %s" % (lens, off, num, show(a), show(want)))
        if case["rank"]:
            b = cat([x["rank"] for x in res])
            if not np.array_equal(b, wrank):
                raise Violation("rank-in-group", "lengths %s offsets %s particles %s\nresult %s\nexpected %s" % (lens, off, num, show(b), show(wrank)))

    def nontrivial(self, case):
        return case["n"] > 1 and any(map(len, case["groups"]))

    def shrink_data(self, case):
        for r in range(case["n"]):
            for i in range(len(case["groups"][r])):
                c = copy.deepcopy(case)
                del c["groups"][r][i]
                yield c
                for k in (0, 1):
                    v = case["groups"][r][i][k]
                    if v:
                        for w in sorted({0, v // 2, v - 1}):
                            c = copy.deepcopy(case)
                            c["groups"][r][i][k] = w
                            yield c
        for k, v in (("tail", 0), ("ltype", "i8"), ("otype", "i8"), ("ntype", "int")):
            if case[k] != v:
                yield dict(copy.deepcopy(case), **{k: v})


CHECK = C13()
