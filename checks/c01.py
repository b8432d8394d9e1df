import numpy as np
from .common import *


class C01(MpiCheck):
    prop = "C01"
    fields = ("data",)
    rule = ("A run is one whole job: 1-20 ranks sort generated distributed arrays under a seeded schedule. Non-trivial: more than one rank "
            "and at least one element.")

    def directed(self):
        res = []
        base = dict(cfg=dict(p_eager=0.0), sseed=1, index=True, dtype="f8", mode="plain", subclass=False)
        for n, data in [(1, [[]]), (2, [[], []]), (3, [[5, 5, 5], [5], [5, 5]]), (3, [[], [3, 1, 2], []]), (4, [[1], [0], [1], [0]]),
                        (5, [[], [1, 1], [], [1, 1, 0], []])]:
            for kind in ("world", "dup"):
                res.append(dict(base, n=n, data=data, layout=dict(kind=kind, groups=[list(range(n))])))
        return res

    def gen(self, rng, tier):
        case = gen_mpi(rng, tier)
        n = case["n"]
        tot = gen_total(rng, tier, case)
        case["data"] = gen_codes(rng, gen_sizes(rng, n, tot))
        case["dtype"] = rng.choice(INT_TYPES + FLOAT_TYPES * 3 + ["rec"] * 2 + ODD_TYPES)
        case["mode"] = rng.choice(["plain", "plain", "low", "high", "wide"])
        if case["dtype"] in FLOAT_TYPES and rng.random() < 0.25:
            case["mode"] = "nan"
        case["index"] = rng.random() < 0.75
        case["subclass"] = rng.random() < 0.1
        case["strided"] = rng.random() < 0.08
        case["swapped"] = rng.choice(["bytes", "bytes", "2d", "list"]) if rng.random() < 0.03 else False
        case["again"] = rng.random() < 0.1
        case["verbose"] = rng.random() < 0.05
        return case

    def may_refuse(self, case):
        return bool(case.get("strided") or case.get("swapped"))

    def body(self, case, arg, comm, rank):
        ps = V("mpi.parallel_sort")
        arr = decode(case["data"][rank], case["dtype"], case["mode"])
        kw = dict(verbose=True) if case.get("verbose") else {}
        if case.get("strided"):
            arr = strided(arr)
        if case.get("subclass"):
            arr = arr.view(Sub)
        before = np.array(arr)
        dtype = before.dtype
        if case.get("swapped"):
            # or not an array at all
            arr = arr.reshape(-1, 1) if case["swapped"] == "2d" else arr.tolist() if case["swapped"] == "list" else other_order(arr)
        idx = ps.parallel_sort(arr, comm=arg, return_index=case["index"], **kw)
        keep_result(idx)
        res = dict(before=before, after=native(np.asarray(arr, dtype=dtype if type(arr) is list else None)).reshape(-1), idx=None if idx is None else np.array(idx))
        if case["index"]:
            if case.get("again"):
                ps.parallel_sort(arr, comm=arg)
                res["after2"] = native(np.asarray(arr, dtype=dtype if type(arr) is list else None)).reshape(-1)
            res["fetched"] = np.array(ps.fetch_elements(before, idx, comm=arg))
        return res

    def judge(self, case, g, res):
        before = cat([r["before"] for r in res])
        after = cat([r["after"] for r in res])
        want = np.sort(before, kind="stable")
        for i, r in enumerate(res):
            if len(r["after"]) != len(r["before"]):
                raise Violation("count", "rank %d passed %d elements and has %d" % (i, len(r["before"]), len(r["after"])))
        if not same(after, want):
            raise Violation("not-sorted", "input %s\nresult %s\nexpected %s" % (show(before), show(after), show(want)))
        if case["index"]:
            for i, r in enumerate(res):
                if r["idx"] is None or r["idx"].shape != r["before"].shape or r["idx"].dtype.kind not in "iu":
                    raise Violation("index-layout", "index on rank %d: %r" % (i, r["idx"]))
            idx = cat([r["idx"] for r in res])
            if not np.array_equal(np.sort(idx), np.arange(len(before))):
                raise Violation("index-not-permutation", "input %s\nindex %s" % (show(before), show(idx)))
            if not same(before[idx.astype(np.int64)], want):
                raise Violation("index-wrong", "input %s\nindex %s" % (show(before), show(idx)))
            if not same(cat([r["fetched"] for r in res]), want):
                raise Violation("index-apply", "fetching by the index does not give the sorted array")
            if "after2" in res[0] and not same(cat([r["after2"] for r in res]), want):
                raise Violation("not-sorted", "sorting twice changed the result")
        else:
            for i, r in enumerate(res):
                if r["idx"] is not None:
                    raise Violation("index-layout", "an index was returned without being asked for")


class Sub(np.ndarray):
    """An ndarray subclass, such as a unyt array"""


CHECK = C01()
