import copy
import numpy as np
from .common import *

STRUCT = [("a", "i4"), ("b", "f8"), ("c", "u1")]


def values(ids, dtype):
    """Recognisable elements"""
    ids = np.asarray(ids, dtype=np.int64)
    if dtype == "struct":
        a = np.zeros(len(ids), dtype=STRUCT)
        a["a"], a["b"], a["c"] = ids, ids * 0.5, ids % 251
        return a
    if dtype == "pad":
        a = np.zeros(len(ids), dtype=np.dtype([("a", "u1"), ("b", "i8")], align=True))
        a["a"], a["b"] = ids % 251, ids
        return a
    return ids.astype(dtype)


class C06(MpiCheck):
    prop = "C06"
    fields = ("spare",)
    exchanged = ("count",)
    rule = ("A run is one whole job exchanging generated blocks (all-to-all by both methods, or pairwise), with transfers split into messages "
            "of a generated size limit. Non-trivial: more than one rank and at least one element.")

    def gen(self, rng, tier):
        if rng.random() < 0.004:
            return self.gen_huge(rng)
        case = gen_mpi(rng, tier)
        n = case["n"]
        case["what"] = rng.choice(["alltoall", "alltoall", "pair"])
        case["chunk"] = rng.choice([None, 1, 8, 16, 24, 40, 64, 128])
        case["dtype"] = rng.choice(["i8", "f8", "i4", "u1", "f4", "i2", "struct", "pad", "bool", "c16"])
        case["spare"] = [0] * n
        hi = rng.choice([1, 3, 8, 30])
        sparse = rng.random() < 0.4
        if case["what"] == "alltoall":
            # count[src][dst]
            case["count"] = [[0 if sparse and rng.random() < 0.6 else rng.randrange(hi + 1) for _ in range(n)] for _ in range(n)]
            case["gaps"] = [[rng.choice([0, 0, 0, 1, 3]) for _ in range(n + 1)] for _ in range(n)]
            case["perm"] = [rng.sample(range(n), n) if rng.random() < 0.4 else list(range(n)) for _ in range(n)]
            case["method"] = rng.choice([None, "hypercube", "async", "both"])
            case["ctype"] = rng.choice(["i8", "i8", "i4", "list"])
            case["overlap"] = rng.random() < 0.15
        else:
            p = list(range(n))
            rng.shuffle(p)
            case["pairs"] = [p[i:i + 2] for i in range(0, n, 2)]
            case["layout"] = gen_layout(rng, n) if rng.random() < 0.3 else dict(kind=rng.choice(["world", "dup"]), groups=[list(range(n))])
            if len(case["layout"]["groups"]) > 1:
                case["layout"] = dict(kind="world", groups=[list(range(n))])
            case["count"] = [[rng.choice([0, 1, 2, hi, rng.randrange(hi * 2 + 1)])] for _ in range(n)]
            case["nchunk"] = rng.choice([None, None, 1, 2, 3, 7])
            case["extra"] = rng.choice([0, 0, 0, 4])
        return case

    def gen_huge(self, rng):
        """More data than fits in one message, nearly all of it zeros"""
        n = rng.choice([1, 2, 2, 3])
        dt, big = gen_huge(rng)
        case = dict(n=n, sseed=rng.randrange(2 ** 32), cfg=dict(gen_cfg(rng, n), poisonmode=3), layout=dict(kind="world", groups=[list(range(n))]),
                    huge=True, what=rng.choice(["alltoall", "alltoall", "pair"]), dtype=dt, spare=[0] * n, mseed=rng.randrange(2 ** 32))
        a, b = rng.randrange(n), rng.randrange(n)
        if case["what"] == "alltoall":
            case["method"] = rng.choice([None, "hypercube", "async"])
            case["count"] = [[rng.choice([0, 1, 5]) for _ in range(n)] for _ in range(n)]
            case["count"][a][b] = big
            if n > 1 and rng.random() < 0.4:
                # each part is small enough, the offsets and totals are not
                case["count"][a][b] = big // 2 + 3
                case["count"][a][(b + 1) % n] = big // 2 + 5
        else:
            p = list(range(n))
            case["pairs"] = [p[i:i + 2] for i in range(0, n, 2)]
            case["count"] = [[rng.choice([0, 3])] for _ in range(n)]
            case["count"][a] = [big]
        return case

    def marked(self, case, src, dst):
        return huge_marks(case["count"][src][dst], np.dtype(case["dtype"]).itemsize, "%d %d %d" % (case["mseed"], src, dst))

    def huge_body(self, case, arg, comm, rank):
        ps = V("mpi.parallel_sort")
        n = case["n"]
        if case["what"] == "pair":
            pr = [p for p in case["pairs"] if rank in p][0]
            other = pr[0] if len(pr) == 1 or pr[1] == rank else pr[1]
            dests, srcs, cols = [0], [other], 0
        else:
            dests, srcs = list(range(n)), list(range(n))
        sc = np.array([case["count"][rank][d] for d in dests], dtype=np.int64)
        rc = np.array([case["count"][s][0 if case["what"] == "pair" else rank] for s in srcs], dtype=np.int64)
        so, ro = np.cumsum(sc) - sc, np.cumsum(rc) - rc
        send = np.zeros(int(sc.sum()), dtype=case["dtype"])
        recv = np.zeros(int(rc.sum()), dtype=case["dtype"])
        for k, d in enumerate(dests):
            p, v = self.marked(case, rank, d)
            send[so[k] + p] = v
        if case["what"] == "pair":
            ps.sendrecv(other, send, recv, comm=arg)
        else:
            ps.my_alltoallv(send, sc, so, recv, rc, ro, comm=arg, method=case["method"])
        want = [self.marked(case, s, 0 if case["what"] == "pair" else rank) for s in srcs]
        wp = np.concatenate([p + ro[k] for k, (p, v) in enumerate(want)])
        wv = np.concatenate([v for p, v in want])
        pos, val = nonzero_elements(recv)
        del send, recv
        return dict(ok=np.array_equal(pos, wp) and np.array_equal(val, wv), mod=False,
                    got=[[int(a), int(b)] for a, b in zip(pos[:40], val[:40])], want=[[int(a), int(b)] for a, b in zip(wp[:40], wv[:40])])

    def drop_rank(self, c, r):
        c = super().drop_rank(c, r)
        if c["what"] == "alltoall":
            for k in ("count", "gaps", "perm"):
                if k in c:
                    del c[k][r]
            c["count"] = [[x for j, x in enumerate(row) if j != r] for row in c["count"]]
            if c.get("huge"):
                return c
            c["gaps"] = [row[:-1] for row in c["gaps"]]
            c["perm"] = [[x - (x > r) for x in row if x != r] for row in c["perm"]]
        else:
            del c["count"][r]
            c["pairs"] = [q for q in [[x - (x > r) for x in p if x != r] for p in c["pairs"]] if q]
        return c

    def shrink_data(self, case):
        if case.get("huge"):
            for i, row in enumerate(case["count"]):
                for j, v in enumerate(row):
                    if v:
                        c = copy.deepcopy(case)
                        c["count"][i][j] = 0
                        yield c
            return
        for i, row in enumerate(case["count"]):
            for j, v in enumerate(row):
                if v:
                    for w in sorted({0, v // 2, v - 1}):
                        c = copy.deepcopy(case)
                        c["count"][i][j] = w
                        yield c
        for k, v in (("dtype", "i8"), ("overlap", False), ("ctype", "i8"), ("nchunk", None), ("extra", 0)):
            if case.get(k, v) != v:
                yield dict(copy.deepcopy(case), **{k: v})
        if case["what"] == "alltoall":
            n = case["n"]
            if any(any(g) for g in case["gaps"]):
                yield dict(copy.deepcopy(case), gaps=[[0] * (n + 1) for _ in range(n)])
            if any(p != list(range(n)) for p in case["perm"]):
                yield dict(copy.deepcopy(case), perm=[list(range(n)) for _ in range(n)])

    def block(self, case, src, dst):
        k = 0 if case.get("overlap") else dst
        return src * 1000 + k * 50 + np.arange(case["count"][src][dst])

    def plan(self, case, g, rank):
        """Layout of the receive buffer: offsets by group position and total size"""
        off, o = {}, 0
        order = [p for p in case["perm"][rank] if p in g]
        for k, src in enumerate(order):
            o += case["gaps"][rank][k]
            off[src] = o
            o += case["count"][src][rank]
        return [off[s] for s in g], o + case["gaps"][rank][-1]

    def body(self, case, arg, comm, rank):
        if case.get("huge"):
            return self.huge_body(case, arg, comm, rank)
        ps = V("mpi.parallel_sort")
        g = case["layout"]["groups"][group_of(case, rank)[0]]
        if case["what"] == "pair":
            return self.pair(case, arg, comm, rank, g, ps)
        if case.get("overlap"):
            m = max(case["count"][rank][d] for d in g)
            send = values(rank * 1000 + np.arange(m), case["dtype"])
            so = [0] * len(g)
        else:
            blocks = [self.block(case, rank, d) for d in g]
            send = values(np.concatenate(blocks), case["dtype"])
            so = np.cumsum([len(b) for b in blocks]) - [len(b) for b in blocks]
        ro, tot = self.plan(case, g, rank)
        sc = [case["count"][rank][d] for d in g]
        rc = [case["count"][s][rank] for s in g]
        conv = (lambda v: [int(x) for x in v]) if case["ctype"] == "list" else (lambda v: np.array(v, dtype=case["ctype"]))
        keep = send.copy()
        outs = []
        methods = ["hypercube", "async"] if case["method"] == "both" else [case["method"]]
        for m in methods:
            recv = values(np.full(tot, 77), case["dtype"])
            ps.my_alltoallv(send, conv(sc), conv(so), recv, conv(rc), conv(ro), comm=arg, method=m)
            outs.append(recv)
        mod = not np.array_equal(send, keep)
        scramble(send)
        return dict(outs=outs, mod=mod)

    def pair(self, case, arg, comm, rank, g, ps):
        pr = [p for p in case["pairs"] if rank in p][0]
        other = pr[0] if len(pr) == 1 or pr[1] == rank else pr[1]
        pos = g.index(other)
        send = values(rank * 1000 + np.arange(case["count"][rank][0]), case["dtype"])
        recv = values(np.full(case["count"][other][0] + case["extra"], 77), case["dtype"])
        keep = send.copy()
        ps.sendrecv(pos, send, recv, comm=arg, nchunk=case["nchunk"])
        mod = not np.array_equal(send, keep)
        scramble(send)
        return dict(outs=[recv], mod=mod, other=other)

    def judge(self, case, g, res):
        for i, r in enumerate(res):
            rank = g[i]
            if r["mod"]:
                raise Violation("send-modified", "rank %d: the send buffer was modified" % rank)
            if case.get("huge"):
                if not r["ok"]:
                    raise Violation("delivery", "rank %d: elements which are not zero [position, value] %r, expected %r" % (rank, r["got"], r["want"]))
                continue
            if case["what"] == "pair":
                o = r["other"]
                want = values(np.concatenate([o * 1000 + np.arange(case["count"][o][0]), np.full(case["extra"], 77)]), case["dtype"])
            else:
                ro, tot = self.plan(case, g, rank)
                ids = np.full(tot, 77)
                for s, off in zip(g, ro):
                    b = self.block(case, s, rank)
                    ids[off:off + len(b)] = b
                want = values(ids, case["dtype"])
            for k, out in enumerate(r["outs"]):
                if not np.array_equal(out, want):
                    raise Violation("delivery", "rank %d: received %s\nexpected %s" % (rank, show(out), show(want)))

    def nontrivial(self, case):
        return case["n"] > 1 and any(any(r) for r in case["count"])


CHECK = C06()
