import numpy as np
from .common import *


class C03(MpiCheck):
    prop = "C03"
    rule = "A run is one whole job finding the distinct values of a generated distributed array. Non-trivial: more than one rank, elements."

    def gen(self, rng, tier):
        case = gen_mpi(rng, tier)
        n = case["n"]
        case["data"] = gen_codes(rng, gen_sizes(rng, n, gen_total(rng, tier, case)))
        case["dtype"] = rng.choice(INT_TYPES + FLOAT_TYPES + ["rec"] + ODD_TYPES[rng.randrange(5):][:1])
        case["mode"] = rng.choice(["plain", "plain", "low", "high", "wide"])
        if case["dtype"] in FLOAT_TYPES and rng.random() < 0.25:
            case["mode"] = "nan"
        case["sorted"] = rng.random() < 0.4
        case["counts"] = rng.random() < 0.8
        case["balance"] = rng.random() < 0.5
        case["strided"] = rng.random() < 0.08
        case["swapped"] = rng.random() < 0.03
        return case

    def may_refuse(self, case):
        return bool(case.get("strided") or case.get("swapped"))

    def body(self, case, arg, comm, rank):
        ps = V("mpi.parallel_sort")
        g = case["layout"]["groups"][group_of(case, rank)[0]]
        a = {r: decode(case["data"][r], case["dtype"], case["mode"]) for r in g}
        if case["sorted"]:
            flat = np.sort(cat([a[r] for r in g]), kind="stable")
            o = 0
            for r in g:
                a[r], o = flat[o:o + len(a[r])].copy(), o + len(a[r])
        a = a[rank]
        c = a.copy()
        if case.get("strided"):
            a = strided(a)
        if case.get("swapped"):
            a = other_order(a)
        res = ps.parallel_unique(a, comm=arg, arr_sorted=case["sorted"], return_counts=case["counts"], repartition_output=case["balance"])
        if case["counts"]:
            u, k = res
        else:
            u, k = res, None
        mod = not same(native(a), c)
        ou, ok, u, k = u, k, native(u), None if k is None else np.array(k)
        scramble(a)
        keep_result(ou, ok)
        return dict(inp=c, mod=mod, u=u, k=k)

    def judge(self, case, g, res):
        allv = cat([r["inp"] for r in res])
        wu, wk = np.unique(allv, return_counts=True)
        if any(r["mod"] for r in res):
            raise Violation("input-modified", "the input array was modified")
        u = cat([r["u"] for r in res])
        what = "input %s\nresult %s\nexpected %s" % (show(allv), show(u), show(wu))
        if not same(u, wu):
            raise Violation("values", what)
        if case["counts"]:
            for i, r in enumerate(res):
                if r["k"].shape != r["u"].shape:
                    raise Violation("counts-layout", "rank %d: %d counts for %d values" % (i, len(r["k"]), len(r["u"])))
            k = cat([r["k"] for r in res])
            if not np.array_equal(k, wk):
                raise Violation("counts", what + "\ncounts %s\nexpected %s" % (show(k), show(wk)))
        if case["balance"]:
            s = [len(r["u"]) for r in res]
            if max(s) - min(s) > 1:
                raise Violation("balance", "numbers of values per rank: %s" % s)


CHECK = C03()
