import numpy as np
from .common import *

UFUNCS = {"add": np.add, "max": np.maximum, "min": np.minimum, "mul": np.multiply, "or": np.bitwise_or, "and": np.bitwise_and,
          "xor": np.bitwise_xor, "sub": np.subtract}
MPIOPS = {"add": "SUM", "max": "MAX", "min": "MIN", "mul": "PROD", "or": "BOR", "and": "BAND", "xor": "BXOR"}


class C04(MpiCheck):
    prop = "C04"
    fields = ("size", "index", "upd")
    rule = ("A run is one whole job applying generated updates (or counting generated values) in a distributed array. Non-trivial: more than "
            "one rank and at least one update.")

    def gen(self, rng, tier):
        case = gen_mpi(rng, tier)
        n = case["n"]
        case["what"] = rng.choice(["reduce", "reduce", "bincount"])
        nupd = gen_total(rng, tier, case)
        sizes = gen_sizes(rng, n, nupd)
        if case["what"] == "reduce":
            if rng.random() < 0.15:
                case["layout"]["groups"] = [list(range(n))] if len(case["layout"]["groups"]) > 1 else case["layout"]["groups"]
            case["size"] = gen_sizes(rng, n, rng.choice([0, 1, 2, 5, 20, 60]))
            case["mpiop"] = rng.random() < 0.45
            case["op"] = rng.choice(list(MPIOPS) if case["mpiop"] else list(UFUNCS))
            ints = ["i8", "i4", "u8", "u4"]
            case["dtype"] = rng.choice(ints if case["op"] in ("or", "and", "xor") else ints + FLOAT_TYPES * 2)
            case["tail"] = rng.choice([[], [], [], [1], [2], [3], [2, 2], [0]])
            case["order"] = rng.choice(["C", "C", "C", "F"])
            case["idtype"] = rng.choice(["i8", "i8", "i4", "u8", "u4"])
            hot = rng.random() < 0.3
            if not case["mpiop"] and rng.random() < 0.2:
                # updates of a narrower type than the array
                case["utype"] = {"f8": rng.choice(["f4", "i4"]), "i8": rng.choice(["i4", "u1"]), "u8": "u4", "f4": "i2"}.get(case["dtype"])
            case["form"] = [rng.choice(["plain"] * 9 + ["strided"]) for _ in range(3)]
            case["index"] = [[(0 if hot and rng.random() < 0.7 else rng.randrange(10 ** 6)) for _ in range(s)] for s in sizes]
            case["upd"] = [[rng.randrange(1, 8) for _ in range(s)] for s in sizes]
            if rng.random() < 0.02 and 0 not in case["tail"] and sum(case["size"]):
                # one rank's arguments don't fit together: the job must not end as if they did
                case["layout"] = dict(kind="world", groups=[list(range(n))])
                case["wrong"] = [rng.randrange(n), rng.choice(["fewer", "more", "shape", "beyond", "square", "below"])]
        else:
            case["size"] = [rng.randrange(0, 30) for _ in range(n)]
            case["dtype"] = rng.choice(INT_TYPES)
            hi = rng.choice([1, 3, 20, 100])
            pat = rng.choice(["uniform", "zero-heavy", "perrank"])
            if pat == "perrank":
                case["index"] = [[v] * s for s, v in zip(sizes, [rng.randrange(hi) for _ in range(n)])]
            else:
                case["index"] = [[rng.randrange(hi) if pat == "uniform" or rng.random() < 0.2 else 0 for _ in range(s)] for s in sizes]
            case["weights"] = rng.choice([None, None, None, "f8", "f8", "f4", "i8", "i4", rng.choice(["?", "i1", "u1", "u2", "u4"])])
            case["upd"] = [[rng.randrange(0, 8) for _ in range(s)] for s in sizes]
            case["minlength"] = rng.choice([None, None, 0, 1, 5, 40, 150])
            case["result"] = rng.choice([None, None, "i8", "f8"])
            # each value many times: more than a narrow type can count
            case["form"] = [rng.choice(["plain"] * 9 + ["strided"]) for _ in range(3)]
            case["rep"] = rng.choice([1, 1, 1, 1, 130, 300])
            if case["result"] and rng.random() < 0.15:
                # a result array without room for all values: must not return
                case["layout"] = dict(kind="world", groups=[list(range(n))])
                case["short"] = rng.choice([1, 1, 2, 10])
            elif rng.random() < 0.03:
                # weights which don't belong to the values, or values which can't be counted, on one rank
                case["layout"] = dict(kind="world", groups=[list(range(n))])
                case["wrong"] = [rng.randrange(n), rng.choice(["fewer", "more", "below", "square"])]
                if case["wrong"][1] in ("fewer", "more"):
                    case["weights"] = case["weights"] or "f8"
        if rng.random() < 0.03:
            case["swapped"] = [rng.random() < 0.5 for _ in range(3)]
        return case

    def may_refuse(self, case):
        return bool(case.get("swapped")) or case.get("order") == "F" or "strided" in case.get("form", ())

    def shrink_data(self, case):
        import copy
        for r in range(case["n"]):
            x = case["index"][r]
            size = len(x)
            while size >= 1:
                for o in range(0, len(x), size):
                    c = copy.deepcopy(case)
                    del c["index"][r][o:o + size]
                    del c["upd"][r][o:o + size]
                    yield c
                size //= 2
            for i, v in enumerate(x):
                if v > 0:
                    for w in {0, v // 2}:
                        c = copy.deepcopy(case)
                        c["index"][r][i] = w
                        yield c
            if case["size"][r] > 0:
                c = copy.deepcopy(case)
                c["size"][r] -= 1
                yield c
        for k, v in (("tail", []), ("order", "C"), ("minlength", None), ("result", None), ("weights", None), ("rep", 1), ("short", None)):
            if case.get(k, v) != v:
                yield dict(copy.deepcopy(case), **{k: v})

    def misfit(self, case, upd, idx, tot):
        """Updates and indexes which can't be applied"""
        k = case["wrong"][1]
        if k == "beyond":
            return np.concatenate([upd, np.ones((1,) + upd.shape[1:], upd.dtype)]), np.append(idx, [tot]).astype(idx.dtype)
        if k == "below":
            return np.concatenate([np.ones((1,) + upd.shape[1:], upd.dtype), upd]), np.append([-1], idx.astype(np.int64))
        if k == "fewer" and len(upd):
            return upd[:-1], idx
        if k == "shape":
            return np.repeat(upd[:, None], 2, axis=1), idx
        if k == "square":
            return upd, idx[:, None]
        return np.concatenate([upd, np.ones((1,) + upd.shape[1:], upd.dtype)]), idx

    def bins(self, case):
        """How many elements the result array of a bincount has at least"""
        x = [min(v, np.iinfo(case["dtype"]).max) for i in case["index"] for v in i]
        return max(max(x, default=-1) + 1, case["minlength"] or 0)

    def execute(self, case, log=False):
        if case.get("wrong") and case["wrong"][0] >= case["n"]:
            case = dict(case, wrong=None)
        if not case.get("wrong") and (not case.get("short") or not self.bins(case)):
            return super().execute(dict(case, short=None) if case.get("short") else case, log)
        sim = run_mpi(case, lambda a, c, r: self.body(case, a, c, r), log=log, allow_exc=True)
        try:
            if case.get("wrong"):
                if not sim.aborted and all(p.what == "returned" for p in sim.procs):
                    raise Violation("wrong-arguments", "the arguments of a rank don't fit together (%s) but all ranks returned" % case["wrong"][1])
            elif not sim.aborted and any(p.what == "returned" for p in sim.procs):
                raise Violation("short-result", "counting into arrays of %d elements in total returned normally, %d are needed"
                                % (max(0, self.bins(case) - case["short"]), self.bins(case)))
        except Violation as v:
            violation_info(v, sim)
            raise
        sim.probe("wrong arguments" if case.get("wrong") else "result array too small")
        info = info_of(sim)
        if log:
            info["log"] = ["rank %d: %s" % e for e in sim.log]
        return info

    def updates(self, case, rank):
        u = np.array(case["upd"][rank], dtype=case["dtype"])
        t = tuple(case["tail"])
        if t:
            k = np.arange(int(np.prod(t)), dtype=case["dtype"])
            u = (u[:, None] + k[None, :]).astype(case["dtype"]).reshape((len(u),) + t)
        if case["op"] == "mul":
            u = np.where(u % 2 == 1, 2, 1).astype(case["dtype"])  # exact in any order
        return np.array(u, order=case["order"], dtype=case.get("utype"))

    def initial(self, case, rank):
        t = tuple(case["tail"])
        m = case["size"][rank]
        a = (np.arange(m * int(np.prod(t, dtype=int)), dtype="i8") % 5 + 1).astype(case["dtype"]).reshape((m,) + t)
        return np.array(a, order=case["order"] if case["mpiop"] is False else "C")

    def forms(self, case, *arrays):
        """Some of the arrays are not adjacent in memory"""
        arrays = [other_order(a) if s and a is not None else a for a, s in zip(arrays, case.get("swapped") or (False,) * 3)]
        return [strided(a) if f == "strided" and a is not None else a for a, f in zip(arrays, case.get("form", ("plain",) * 3))]

    def body(self, case, arg, comm, rank):
        from dst import mpi
        ps = V("mpi.parallel_sort")
        g = case["layout"]["groups"][group_of(case, rank)[0]]
        if case["what"] == "reduce":
            tot = sum(case["size"][r] for r in g)
            arr = self.initial(case, rank)
            upd = self.updates(case, rank)
            idx = np.array([i % tot for i in case["index"][rank]] if tot else [], dtype=case["idtype"])
            if not tot:
                upd = upd[:0]
            c = [x.copy() for x in (arr, upd, idx)]
            arr, upd, idx = self.forms(case, arr, upd, idx)
            if case.get("wrong") and case["wrong"][0] == rank:
                upd, idx = self.misfit(case, upd, idx, tot)
            op = getattr(mpi.module, MPIOPS[case["op"]]) if case["mpiop"] else UFUNCS[case["op"]]
            ps.reduce_elements(arr, upd, idx, op, comm=arg)
            mod = not (same(native(upd), c[1]) and same(native(idx), c[2]))
            scramble(upd, idx)
            keep_result(arr)
            return dict(init=c[0], upd=c[1], idx=c[2], out=native(arr), mod=mod)
        x = np.array([min(v, np.iinfo(case["dtype"]).max) for v in case["index"][rank]], dtype=case["dtype"])
        w = None if case["weights"] is None else np.array(case["upd"][rank], dtype=case["weights"])
        rep = case.get("rep", 1)
        if sum(map(sum, case["upd"])) * rep >= 1 << 24:
            rep = 1     # sums stay exact in single precision
        x, w = np.repeat(x, rep), None if w is None else np.repeat(w, rep)
        result = None
        if case["result"]:
            # must be big enough in total
            need = 200 // len(g) + 1 + case["size"][rank]
            if case.get("short"):
                tot = max(0, self.bins(case) - case["short"])
                need = tot // len(g) + (g.index(rank) < tot % len(g))
            result = np.zeros(need, dtype=case["result"] if w is None or w.dtype.kind != "f" else "f8")
        x, w, result = self.forms(case, x, w, result)
        cx, cw = native(x), None if w is None else native(w)
        if case.get("wrong") and case["wrong"][0] == rank:
            k = case["wrong"][1]
            if k == "below":
                x = np.append([-1], x.astype(np.int64))
                w = None if w is None else np.append([1], w).astype(w.dtype)
            elif k == "square":
                x, w = np.ones((2, 2), x.dtype), None if w is None else np.ones((2, 2), w.dtype)
            elif k == "fewer" and len(x) and w is not None:
                w = w[:-1]
            else:
                w = np.zeros(len(x) + 1) if w is None else np.append(w, [1]).astype(w.dtype)
        out = ps.parallel_bincount(x, weights=w, minlength=case["minlength"], result=result, comm=arg)
        mod = not same(native(x), cx) or (w is not None and not same(native(w), cw))
        out_, isres = native(out), out is result
        scramble(x, w)
        keep_result(out)
        return dict(x=cx, w=cw, out=out_, isres=isres, mod=mod)

    def judge(self, case, g, res):
        if any(r["mod"] for r in res):
            raise Violation("input-modified", "updates, indexes or weights were modified")
        out = cat([r["out"] for r in res])
        if case["what"] == "reduce":
            for i, r in enumerate(res):
                if r["out"].shape != r["init"].shape:
                    raise Violation("layout", "array on rank %d changed shape" % i)
            want = cat([r["init"] for r in res])
            idx = cat([r["idx"] for r in res]).astype(np.int64)
            upd = cat([r["upd"] for r in res])
            with np.errstate(over="ignore"):
                UFUNCS[case["op"]].at(want, idx, upd)
            if not same(out, want):
                raise Violation("reduce", "op %s initial %s\nindex %s updates %s\nresult %s\nexpected %s"
                                % (case["op"], show(cat([r["init"] for r in res])), show(idx), show(upd), show(out), show(want)))
            return
        x = cat([r["x"] for r in res]).astype(np.int64)
        w = None if case["weights"] is None else cat([r["w"] for r in res])
        want = np.bincount(x, weights=w, minlength=case["minlength"] or 0)
        if case["result"]:
            if not all(r["isres"] for r in res):
                raise Violation("bincount-result", "the supplied result array was not returned")
            if len(out) < len(want) or not np.array_equal(out[:len(want)], want) or np.any(out[len(want):]):
                raise Violation("bincount", "values %s weights %s\nresult %s\nexpected %s then zeros" % (show(x), w, show(out), show(want)))
        elif out.shape != want.shape or not np.array_equal(out, want):
            raise Violation("bincount", "values %s weights %s minlength %s\nresult %s\nexpected %s" % (show(x), w, case["minlength"], show(out), show(want)))

    def nontrivial(self, case):
        return case["n"] > 1 and any(map(len, case["index"]))


CHECK = C04()
