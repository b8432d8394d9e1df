import numpy as np
from .common import *


class Sub(np.ndarray):
    """An ndarray subclass, such as a unyt array"""


def shaped(case, rank):
    """Distributed array with distinct recognisable elements"""
    t = tuple(case["tail"]) if case["dtype"] != "rec" else ()
    a = decode(case["data"][rank], case["dtype"], "plain")
    if t:
        k = np.arange(int(np.prod(t, dtype=int)))
        a = (a[:, None] * 3 + k[None, :]).astype(case["dtype"]).reshape((len(a),) + t)
    a = np.array(a, order=case.get("order", "C"))
    if case.get("noncontig"):
        b = np.zeros((len(a) * 2,) + a.shape[1:], dtype=a.dtype)
        b[::2] = a
        a = b[::2]
    return a.view(Sub) if case.get("subclass") else a


class C05(MpiCheck):
    prop = "C05"
    fields = ("data", "want", "hsrc", "hdst")
    rule = "A run is one whole job moving elements of a generated distributed array. Non-trivial: more than one rank, at least one element."

    def gen(self, rng, tier):
        if rng.random() < 0.003:
            return self.gen_huge(rng)
        case = gen_mpi(rng, tier)
        n = case["n"]
        case["what"] = rng.choice(["repartition", "fetch", "fetch"])
        tot = gen_total(rng, tier, case)
        sizes = gen_sizes(rng, n, tot)
        case["data"] = gen_codes(rng, sizes) if rng.random() < 0.4 else split_list([i % 120 for i in range(tot)], sizes)
        case["dtype"] = rng.choice(INT_TYPES + FLOAT_TYPES)
        case["tail"] = rng.choice([[], [], [], [1], [3], [2, 2], [0], [3, 1]])
        if rng.random() < 0.15:
            case["dtype"] = rng.choice(["rec"] + ODD_TYPES)
            if case["dtype"] in ("S3", "U3"):
                case["tail"] = []
        case["order"] = rng.choice(["C", "C", "F"])
        case["noncontig"] = rng.random() < 0.15
        case["subclass"] = rng.random() < 0.15
        case["swapped"] = rng.random() < 0.03
        if case["what"] == "repartition":
            case["want"] = [[rng.randrange(4) + (5 if rng.random() < 0.1 else 0)] for _ in range(n)]
            case["mismatch"] = rng.random() < 0.08
            case["aslist"] = rng.random() < 0.3
            if case["mismatch"]:
                case["layout"] = dict(kind="world", groups=[list(range(n))])
        else:
            nf = gen_total(rng, tier, case)
            pat = rng.choice(["random", "random", "perm", "hot", "reverse"])
            if pat == "perm":
                p = list(range(tot))
                rng.shuffle(p)
            elif pat == "reverse":
                p = list(range(tot))[::-1]
            elif pat == "hot":
                h = rng.randrange(max(tot, 1))
                p = [h if rng.random() < 0.8 else rng.randrange(10 ** 6) for _ in range(nf)]
            else:
                p = [rng.randrange(10 ** 6) for _ in range(nf)]
            case["want"] = split_list(p, gen_sizes(rng, n, len(p)))
            case["idtype"] = rng.choice(["i8", "i8", "i4", "u8", "u4"])
            case["result"] = rng.choice([None, None, "C", "F", "strided"])
            if rng.random() < 0.04:
                # an element which does not exist: the job must not end as if it did
                case["layout"] = dict(kind="world", groups=[list(range(n))])
                case["outside"] = [rng.randrange(n), rng.choice(["below", "above", "far"]), rng.randrange(10 ** 6)]
                case["idtype"] = "i8"
        return case

    def gen_huge(self, rng):
        """More elements than a message or a 32 bit integer can hold, nearly all of them zero"""
        n = rng.choice([2, 2, 3])
        dt, big = gen_huge(rng)
        t = rng.choice([1, 1, 3])
        big //= t
        src = [rng.choice([0, 1, 5]) for _ in range(n)]
        src[rng.randrange(n)] = big
        tot = sum(src)
        dst = [rng.choice([0, 2]) for _ in range(n)]
        if rng.random() < 0.5:
            dst[rng.randrange(n)] = tot - sum(dst)
        else:
            dst = [tot // n + (i < tot % n) for i in range(n)]
        if sum(dst) != tot:
            dst = [tot] + [0] * (n - 1)
        return dict(n=n, sseed=rng.randrange(2 ** 32), cfg=dict(gen_cfg(rng, n), poisonmode=3), layout=dict(kind="world", groups=[list(range(n))]),
                    huge=True, what="repartition", dtype=dt, tail=[t] if t > 1 else [], hsrc=src, hdst=dst, mseed=rng.randrange(2 ** 32))

    def nontrivial(self, case):
        return True if case.get("huge") else super().nontrivial(case)

    def huge_body(self, case, arg, rank):
        ps = V("mpi.parallel_sort")
        dt = np.dtype(case["dtype"])
        t = case["tail"][0] if case["tail"] else 1
        src, dst = case["hsrc"], case["hdst"]
        arr = np.zeros([src[rank]] + case["tail"], dtype=dt)
        p, v = huge_marks(sum(src) * t, dt.itemsize, case["mseed"])
        a = sum(src[:rank]) * t
        k = (p >= a) & (p < a + src[rank] * t)
        arr.reshape(-1)[p[k] - a] = v[k]
        out = ps.repartition(arr, np.array(dst, dtype=np.int64), comm=arg)
        a = sum(dst[:rank]) * t
        k = (p >= a) & (p < a + dst[rank] * t)
        pos, val = nonzero_elements(out.reshape(-1))
        return dict(ok=np.array_equal(pos, p[k] - a) and np.array_equal(val, v[k]), shape=list(out.shape) == [dst[rank]] + case["tail"] and out.dtype == dt,
                    got=[[int(x), int(y)] for x, y in zip(pos[:40], val[:40])])

    def shrink(self, case):
        return iter(()) if case.get("huge") else super().shrink(case)

    def may_refuse(self, case):
        return bool(case.get("swapped") or case.get("noncontig") or case.get("result") in ("F", "strided") or case.get("order") == "F")

    def shares(self, case, g):
        """Requested numbers, made to add up to the total"""
        tot = sum(len(case["data"][r]) for r in g)
        w = [sum(case["want"][r]) for r in g]
        if not sum(w):
            w[-1] = 1
        s = [tot * x // sum(w) for x in w]
        k = 0
        while sum(s) < tot:
            s[k % len(s)] += 1
            k += 1 if w[0] % 2 else len(s)
        return s

    def execute(self, case, log=False):
        if case.get("what") == "fetch" and case.get("outside") and case["outside"][0] >= case["n"]:
            case = dict(case, outside=None)
        if case.get("outside") or case["what"] == "repartition" and case.get("mismatch"):
            # must end in MPI_Abort
            sim = run_mpi(case, lambda a, c, r: self.body(case, a, c, r), log=log, allow_exc=True)
            try:
                if not sim.aborted:
                    if all(p.what == "returned" for p in sim.procs):
                        raise Violation("no-abort", "fetching an element which does not exist returned normally" if case.get("outside") else
                                        "repartition to a different total number of elements returned normally")
            except Violation as v:
                violation_info(v, sim)
                raise
            sim.probe("index out of range" if case.get("outside") else "aborted on mismatched total")
            return info_of(sim)
        return super().execute(case, log)

    def body(self, case, arg, comm, rank):
        if case.get("huge"):
            return self.huge_body(case, arg, rank)
        ps = V("mpi.parallel_sort")
        gi, pos = group_of(case, rank)
        g = case["layout"]["groups"][gi]
        arr = shaped(case, rank)
        c = np.array(arr)
        if case.get("swapped"):
            arr = other_order(arr)
        if case["what"] == "repartition":
            s = self.shares(case, g)
            if case.get("mismatch"):
                s[0] += 1
            nd = list(s) if case.get("aslist") else np.array(s)
            out = ps.repartition(arr, nd, comm=arg)
            val = out
            mod, typ, out = not same(native(arr), c), isinstance(out, Sub), native(out)
            scramble(arr)
            keep_result(val)
            return dict(inp=c, out=out, typ=typ, want=s[pos], mod=mod)
        tot = sum(len(case["data"][r]) for r in g)
        idx = np.array([i % tot for i in case["want"][rank]] if tot else [], dtype=case["idtype"])
        if case.get("outside") and case["outside"][0] == rank:
            bad = dict(below=-1, above=tot, far=-(1 << 40))[case["outside"][1]]
            idx = np.insert(idx, case["outside"][2] % (len(idx) + 1), bad)
        ci = idx.copy()
        res = None
        shape = (len(idx),) + arr.shape[1:]
        if case["result"] in ("C", "F"):
            res = np.full(shape, 77, dtype=arr.dtype, order=case["result"])
        elif case["result"] == "strided":
            big = np.full((2 * len(idx),) + arr.shape[1:], 77, dtype=arr.dtype)
            res = big[::2]
        out = ps.fetch_elements(arr, idx, result=res, comm=arg)
        if case["result"] is None:
            val = out
        else:
            val = res
        keep_result(val)
        return dict(inp=c, idx=ci, out=native(val), typ=isinstance(out, Sub) or res is not None, none=out is None or out is res,
                    mod=not (same(native(arr), c) and same(idx, ci)),
                    spill=case["result"] == "strided" and bool(np.any(big[1::2] != np.full(1, 77, dtype=arr.dtype))))

    def judge(self, case, g, res):
        if case.get("huge"):
            for i, r in enumerate(res):
                if not r["shape"]:
                    raise Violation("number", "rank %d: wrong shape or type" % i)
                if not r["ok"]:
                    raise Violation("repartition", "rank %d: elements which are not zero [position, value] %r" % (i, r["got"]))
            return
        if any(r["mod"] for r in res):
            raise Violation("input-modified", "an input array was modified")
        allv = cat([r["inp"] for r in res])
        if case.get("subclass") and not all(r["typ"] for r in res):
            raise Violation("subclass", "the result lost the type of the input")
        if case["what"] == "repartition":
            for i, r in enumerate(res):
                if len(r["out"]) != r["want"]:
                    raise Violation("number", "rank %d got %d elements instead of %d" % (i, len(r["out"]), r["want"]))
            out = cat([r["out"] for r in res])
            if not same(out, allv):
                raise Violation("repartition", "input %s\nresult %s" % (show(allv), show(out)))
            return
        for i, r in enumerate(res):
            want = allv[r["idx"].astype(np.int64)]
            if r["spill"]:
                raise Violation("spill", "rank %d: elements next to the result array were written" % i)
            if not same(r["out"], want):
                raise Violation("fetch", "rank %d index %s\nresult %s\nexpected %s" % (i, show(r["idx"]), show(r["out"]), show(want)))


CHECK = C05()
