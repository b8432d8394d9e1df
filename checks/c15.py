import copy
import numpy as np
from .common import *


class C15(MpiCheck):
    prop = "C15"
    fields = ("data",)
    rule = ("A run is one whole job gathering a generated distributed array or filling in absent arrays. Non-trivial: more than one rank and "
            "at least one element.")

    def gen(self, rng, tier):
        case = gen_mpi(rng, tier)
        n = case["n"]
        case["what"] = rng.choice(["gather", "gather", "allgather", "absent"])
        tot = rng.choice([0, 1, 3, 12, 40])
        if rng.random() < 0.01:
            tot = rng.choice([300, 5000, 66000])
            few_messages(case, tot)
        sizes = gen_sizes(rng, n, tot)
        o = 0
        case["data"] = []
        for s in sizes:
            case["data"].append(list(range(o, o + s)))
            o += s
        case["dtype"] = rng.choice(["f8", "f4", "i8", "i4", "u1", "bool", "c16", "u8"])
        nd = rng.choice([1, 1, 2, 2, 3])
        case["other"] = [rng.choice([1, 2, 3, 4, 0] if rng.random() < 0.15 else [1, 2, 3, 4]) for _ in range(nd - 1)]
        case["axis"] = rng.randrange(-nd, nd)
        case["order"] = rng.choice(["C", "C", "F", "strided"])
        case["root"] = rng.randrange(n)
        case["defaults"] = rng.random() < 0.3
        if case["what"] == "absent":
            case["axis"] = 0
            case["none"] = [rng.random() < 0.5 for _ in range(n)]
            if rng.random() < 0.1:
                case["none"] = [True] * n
        elif rng.random() < 0.03:
            case["swapped"] = True
        elif case["what"] == "gather" and rng.random() < 0.1:
            # the function of parallel_sort.py which does this
            case.update(what="first", axis=0, root=0)
        elif rng.random() < 0.03 and n > 1:
            # one rank's array can't be put together with the others
            case["layout"] = dict(kind="world", groups=[list(range(n))])
            case["odd"] = [rng.randrange(n), rng.choice(["type", "shape", "ndim"])]
        return case

    fields = ("data", "none")

    def array(self, case, rank):
        v = np.array(case["data"][rank], dtype=np.int64)
        other = case["other"]
        k = int(np.prod(other, dtype=int))
        a = (v[:, None] * 7 + np.arange(k)[None, :]).astype(case["dtype"]).reshape([len(v)] + other)
        a = np.moveaxis(a, 0, case["axis"])
        if case["order"] == "strided":
            b = np.zeros((a.shape[0] * 2,) + a.shape[1:], dtype=a.dtype)
            b[::2] = a
            return b[::2]
        return np.array(a, order=case["order"])

    def body(self, case, arg, comm, rank):
        pos = comm.Get_rank()
        if case["what"] == "absent":
            u = V("mpi.util")
            a = None if case["none"][rank] else self.array(case, rank)
            out = u.replace_none_with_zero_size(a, comm=arg)
            dt = u.broadcast_dtype_and_dims(a, comm=arg)
            return dict(a=a, out=out, dt=dt, same=out is a)
        ga = V("mpi.gather_array")
        a = self.array(case, rank)
        if case.get("odd") and case["odd"][0] == rank:
            if case["odd"][1] == "type":
                a = a.astype("f4" if case["dtype"] == "i4" else "i4")
            elif case["odd"][1] == "shape":
                k = (case["axis"] + 1) % a.ndim
                a = np.repeat(a, 2, axis=k) if a.shape[k] else np.zeros(a.shape[:k] + (1,) + a.shape[k + 1:], a.dtype)
            else:
                a = a[..., None] if case["axis"] >= 0 else a[None, ...]
        keep = a.copy()
        if case.get("swapped"):
            a = other_order(a)
        g = case["layout"]["groups"][group_of(case, rank)[0]]
        kw = {} if case["defaults"] and case["axis"] == 0 else dict(axis=case["axis"])
        if case["what"] == "first":
            out = V("mpi.parallel_sort").gather_to_first_rank(a, comm)
        elif case["what"] == "gather":
            root = case["root"] % len(g)
            if not (case["defaults"] and root == 0):
                kw["root"] = root
            out = ga.gather_array(a, comm=arg, **kw)
        elif case["defaults"]:
            out = ga.gather_array(a, root=None, comm=arg, **kw)
        else:
            out = ga.allgather_array(a, comm=arg, **kw)
        keep_result(out)
        return dict(a=keep, out=None if out is None else native(out), mod=not same(native(a), keep))

    def misfits(self, case):
        """Whether the arrays really can't be put together"""
        if not case.get("odd") or case["odd"][0] >= case["n"] or case["what"] not in ("gather", "allgather"):
            return False
        if case["odd"][1] == "shape" and not case["other"]:
            return False
        used = [r for r in range(case["n"]) if case["data"][r] or case["what"] == "allgather" or r == case["root"] % case["n"]]
        return case["odd"][0] in used and len(used) > 1

    def execute(self, case, log=False):
        if case.get("odd") and not self.misfits(case):
            case = dict(case, odd=None)
        if not case.get("odd"):
            return super().execute(case, log)
        sim = run_mpi(case, lambda arg, comm, rank: self.body(case, arg, comm, rank), log=log, allow_exc=True)
        try:
            if not sim.aborted and all(p.what == "returned" for p in sim.procs):
                raise Violation("misfit", "the array of rank %d has another %s than the others but all ranks returned" % (
                    case["odd"][0], dict(type="type", shape="shape", ndim="number of dimensions")[case["odd"][1]]))
        except Violation as v:
            raise violation_info(v, sim)
        sim.probe("arrays which can't be put together refused")
        info = info_of(sim, nontrivial=True)
        if log:
            info["log"] = ["rank %d: %s" % e for e in sim.log]
        return info

    def may_refuse(self, case):
        return bool(case.get("swapped"))

    def judge(self, case, g, res):
        if case["what"] == "absent":
            there = [r for r in res if r["a"] is not None]
            for i, r in enumerate(res):
                o = r["out"]
                if not there:
                    if o is not None or r["dt"] != (None, None):
                        raise Violation("absent", "absent everywhere but rank %d got %r" % (i, o))
                elif r["a"] is not None:
                    if not r["same"] and not (o is not None and same(o, r["a"])):
                        raise Violation("present", "rank %d has the array but got %r" % (i, o))
                else:
                    w = there[0]["a"]
                    if o is None or o.shape != (0,) + w.shape[1:] or o.dtype != w.dtype:
                        raise Violation("filled", "rank %d got %r, others have type %s shape %s" % (i, o, w.dtype, w.shape))
                if there and (r["dt"][0] != there[0]["a"].dtype or tuple(r["dt"][1]) != there[0]["a"].shape[1:]):
                    raise Violation("filled", "rank %d: type and shape %r" % (i, r["dt"]))
            return
        want = np.concatenate([r["a"] for r in res], axis=case["axis"])
        for i, r in enumerate(res):
            if r["mod"]:
                raise Violation("input-modified", "the input was modified")
            has = case["what"] == "allgather" or i == case["root"] % len(g)
            if not has:
                if r["out"] is not None:
                    raise Violation("not-none", "rank %d is not the root but got %r" % (i, r["out"]))
            elif r["out"] is None or not same(r["out"], want):
                raise Violation("gather", "rank %d got %s\nexpected %s" % (i, r["out"], show(want)))

    def shrink_data(self, case):
        for r in range(case["n"]):
            size = len(case["data"][r])
            while size:
                for i in range(0, len(case["data"][r]), size):
                    c = copy.deepcopy(case)
                    del c["data"][r][i:i + size]
                    yield c
                size //= 2
        for k, v in (("order", "C"), ("dtype", "i8"), ("root", 0)):
            if case[k] != v:
                yield dict(copy.deepcopy(case), **{k: v})
        if case["axis"] < 0:
            yield dict(copy.deepcopy(case), axis=case["axis"] + len(case["other"]) + 1)
        if case["other"]:
            c = copy.deepcopy(case)
            c["other"] = []
            c["axis"] = 0
            yield c


CHECK = C15()
