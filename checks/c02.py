import numpy as np
from .common import *

MIXED = [("i8", "i4"), ("i4", "i8"), ("u8", "u4"), ("u4", "i8"), ("i8", "u4"), ("f8", "f4"), ("i2", "u8"), ("u8", "i4"), ("f8", "i4"),
         ("i8", "u8"), ("u8", "i8")]


def equal_exact(a, b):
    """Equality of two numbers of any two numeric types, as mathematical values"""
    if a.dtype.kind in "iu" and b.dtype.kind in "iu":
        return int(a) == int(b)
    return bool(a == b)


def key(x):
    return int(x) if x.dtype.kind in "iub" else x.item() if x.dtype.kind in "SUc" else x if x.dtype.char == "g" else float(x)


class C02(MpiCheck):
    prop = "C02"
    fields = ("data", "data2")
    rule = "A run is one whole job matching two generated distributed arrays. Non-trivial: more than one rank, elements in both arrays."

    def gen(self, rng, tier):
        case = gen_mpi(rng, tier)
        n = case["n"]
        case["data"] = gen_codes(rng, gen_sizes(rng, n, gen_total(rng, tier, case)))
        case["data2"] = gen_codes(rng, gen_sizes(rng, n, gen_total(rng, tier, case)))
        if rng.random() < 0.75:
            case["dtype"] = case["dtype2"] = rng.choice(INT_TYPES * 2 + FLOAT_TYPES * 2)
        else:
            case["dtype"], case["dtype2"] = rng.choice(MIXED)
        case["mode"] = case["mode2"] = rng.choice(["plain", "plain", "low", "high", "wide", "mid"])
        if case["dtype"] != case["dtype2"] and rng.random() < 0.3:
            case["mode2"] = rng.choice(["plain", "low", "high"])
        if rng.random() < 0.15:
            # disjoint values
            case["data2"] = [[c + 200 for c in x] for x in case["data2"]]
        if rng.random() < 0.08:
            case["dtype"] = case["dtype2"] = rng.choice(ODD_TYPES)
        for d, m in (("dtype", "mode"), ("dtype2", "mode2")):
            if case[d] in FLOAT_TYPES and rng.random() < 0.2:
                case[m] = "nan"
        case["sorted"] = rng.random() < 0.4
        case["form"] = [rng.choice(["plain"] * 8 + ["strided", "strided"]) for _ in range(2)]
        if rng.random() < 0.03:
            case["swapped"] = [rng.random() < 0.6 for _ in range(2)]
        return case

    def arrays(self, case, g):
        """Second array per rank, in the order the group sees it"""
        a2 = {r: decode(case["data2"][r], case["dtype2"], case["mode2"]) for r in g}
        if case["sorted"]:
            flat = np.sort(cat([a2[r] for r in g]), kind="stable")
            o = 0
            for r in g:
                a2[r] = flat[o:o + len(a2[r])].copy()
                o += len(a2[r])
        return a2

    def may_refuse(self, case):
        return bool(case.get("swapped")) or "strided" in case.get("form", ()) or case["dtype"] in ("S3", "U3")

    def body(self, case, arg, comm, rank):
        ps = V("mpi.parallel_sort")
        gi, pos = group_of(case, rank)
        g = case["layout"]["groups"][gi]
        a1 = decode(case["data"][rank], case["dtype"], case["mode"])
        a2 = self.arrays(case, g)[rank]
        c1, c2 = a1.copy(), a2.copy()
        # one input, or both, not adjacent in memory
        form = case.get("form", ["plain", "plain"])
        a1, a2 = (strided(a) if f == "strided" else a for a, f in zip((a1, a2), form))
        a1, a2 = (other_order(a) if s else a for a, s in zip((a1, a2), case.get("swapped") or (False, False)))
        idx = ps.parallel_match(a1, a2, arr2_sorted=case["sorted"], comm=arg)
        mod = not (same(native(a1), c1) and same(native(a2), c2))
        out, idx = idx, np.array(idx)
        scramble(a1, a2)
        keep_result(out)
        return dict(a1=c1, a2=c2, idx=idx, mod=mod)

    def judge(self, case, g, res):
        allv = cat([r["a2"] for r in res])
        have = {}
        for v in allv:
            have[key(v)] = True
        for i, r in enumerate(res):
            if r["mod"]:
                raise Violation("input-modified", "rank %d: an input array was modified" % i)
            idx = r["idx"]
            if idx.shape != r["a1"].shape or idx.dtype.kind != "i":
                raise Violation("layout", "rank %d: result %r for %d elements" % (i, idx, len(r["a1"])))
            for k, (v, j) in enumerate(zip(r["a1"], idx)):
                j = int(j)
                if j == -1:
                    if key(v) in have:
                        raise Violation("missed", "rank %d element %d = %s (%s) is reported unmatched; array 2 is %s %s"
                                        % (i, k, v, v.dtype, show(allv), allv.dtype))
                elif not 0 <= j < len(allv) or key(allv[j]) != key(v):
                    raise Violation("wrong-match", "rank %d element %d = %s (%s) matched to %s; array 2 is %s %s"
                                    % (i, k, v, v.dtype, j, show(allv), allv.dtype))

    def nontrivial(self, case):
        return case["n"] > 1 and any(map(len, case["data"])) and any(map(len, case["data2"]))


CHECK = C02()
