import copy
import numpy as np
from .common import *


class C14(MpiCheck):
    prop = "C14"
    fields = ("p1", "p2", "nh1", "nh2")
    rule = ("A run is one whole job matching halos of two generated catalogues in both directions and testing consistency. Non-trivial: more "
            "than one rank and at least one particle in each catalogue.")

    def gen(self, rng, tier):
        case = gen_mpi(rng, tier, nmax=5)
        n = case["n"]
        np1 = rng.choice([0, 1, 5, 20, 60])
        np2 = rng.choice([0, 1, 5, 20, 60])
        h1, h2 = rng.choice([1, 2, 4, 12]), rng.choice([1, 2, 4, 12])
        if rng.random() < 0.012:
            h1, h2 = rng.choice([12, 300, 40000, 66000]), rng.choice([12, 300, 40000, 66000])
            if rng.random() < 0.3:
                np1 = np2 = rng.choice([400, 3000])
            few_messages(case, max(h1, h2, np1))
        pool = max(np1, np2) + rng.choice([0, 0, 5, 30])
        scale = rng.choice([1, 1, 1000003, 2 ** 40 + 1])
        free = rng.choice([0.0, 0.2, 0.6])
        def cat_(k, h):
            ids = rng.sample(range(pool), k) if k else []
            follow = rng.random() < 0.5
            return [[i * scale, -1 if rng.random() < free else (i * h // max(pool, 1) if follow and rng.random() < 0.8 else rng.randrange(h))] for i in ids]
        case["p1"] = split_list(cat_(np1, h1), gen_sizes(rng, n, np1))
        case["p2"] = split_list(cat_(np2, h2), gen_sizes(rng, n, np2))
        case["nh1"] = [[v] for v in gen_sizes(rng, n, h1 + rng.choice([0, 0, 3]))]
        case["nh2"] = [[v] for v in gen_sizes(rng, n, h2 + rng.choice([0, 0, 3]))]
        case["idtype"] = rng.choice(["i8", "u8"])
        case["gtype"] = rng.choice(["i4", "i8"])
        return case

    def fix(self, case, g):
        """Number of halos of each catalogue on the ranks of one communicator (halo numbers wrap to it)"""
        return [max(1, sum(case[k][r][0] if case[k][r] else 0 for r in g)) for k in ("nh1", "nh2")]

    def nh(self, case, key, r, g):
        v = case[key][r][0] if case[key][r] else 0
        if not sum((case[key][q][0] if case[key][q] else 0) for q in g) and r == g[0]:
            v = 1
        return v

    def body(self, case, arg, comm, rank):
        mt = V("mpi.merger_tree")
        g = [x for x in case["layout"]["groups"] if rank in x][0]
        t1, t2 = self.fix(case, g)
        def arrs(p, t):
            return (np.array([x[0] for x in p], dtype=case["idtype"]), np.array([x[1] % t if x[1] >= 0 else -1 for x in p], dtype=case["gtype"]))
        i1, g1 = arrs(case["p1"][rank], t1)
        i2, g2 = arrs(case["p2"][rank], t2)
        keep = [x.copy() for x in (i1, g1, i2, g2)]
        n1, n2 = self.nh(case, "nh1", rank, g), self.nh(case, "nh2", rank, g)
        m12 = mt.match_halos(g1, i1, g2, i2, n1, comm=arg)
        m21 = mt.match_halos(g2, i2, g1, i1, n2, comm=arg)
        c = mt.consistent_match(m12, m21, comm=arg)
        keep_result(m12, m21, c)
        return dict(p=keep, n=(n1, n2), m12=np.array(m12), m21=np.array(m21), c=np.array(c),
                    mod=not all(same(a, b) for a, b in zip(keep, (i1, g1, i2, g2))))

    def expect(self, ia, ga, ib, gb, nh):
        where = {int(i): int(h) for i, h in zip(ib, gb)}
        votes = [dict() for _ in range(nh)]
        for i, h in zip(ia, ga):
            if h >= 0:
                o = where.get(int(i), -1)
                if o >= 0:
                    votes[h][o] = votes[h].get(o, 0) + 1
        return np.array([min(v, key=lambda k: (-v[k], k)) if v else -1 for v in votes], dtype=int)

    def judge(self, case, g, res):
        if any(r["mod"] for r in res):
            raise Violation("input-modified", "an input was modified")
        i1, g1, i2, g2 = [cat([r["p"][k] for r in res]) for k in range(4)]
        for r in res:
            if len(r["m12"]) != r["n"][0] or len(r["m21"]) != r["n"][1] or len(r["c"]) != r["n"][0]:
                raise Violation("layout", "requested %s halos, got %d, %d and %d flags" % (r["n"], len(r["m12"]), len(r["m21"]), len(r["c"])))
            if r["m12"].dtype.kind != "i" or r["m21"].dtype.kind != "i":
                raise Violation("type", "matches of type %s and %s" % (r["m12"].dtype, r["m21"].dtype))
        n1, n2 = sum(r["n"][0] for r in res), sum(r["n"][1] for r in res)
        w12, w21 = self.expect(i1, g1, i2, g2, n1), self.expect(i2, g2, i1, g1, n2)
        m12, m21 = cat([r["m12"] for r in res]), cat([r["m21"] for r in res])
        for a, w, nm in ((m12, w12, "1->2"), (m21, w21, "2->1")):
            if not np.array_equal(a, w):
                raise Violation("match", "%s: result %s expected %s\ncatalogue 1 %s %s\ncatalogue 2 %s %s" % (nm, a, w, i1, g1, i2, g2))
        c = cat([r["c"] for r in res])
        wc = np.array([1 if m >= 0 and w21[m] == h else 0 for h, m in enumerate(w12)], dtype=int)
        if not np.array_equal(c, wc):
            raise Violation("consistent", "matches %s and %s, flags %s expected %s" % (w12, w21, c, wc))

    def nontrivial(self, case):
        return case["n"] > 1 and any(map(len, case["p1"])) and any(map(len, case["p2"]))

    def shrink_data(self, case):
        for k in ("p1", "p2"):
            for r in range(case["n"]):
                size = len(case[k][r])
                while size >= 1:
                    for o in range(0, len(case[k][r]), size):
                        c = copy.deepcopy(case)
                        del c[k][r][o:o + size]
                        yield c
                    size //= 2
        for k in ("nh1", "nh2"):
            for r in range(case["n"]):
                if case[k][r] and case[k][r][0]:
                    c = copy.deepcopy(case)
                    c[k][r][0] -= 1
                    yield c


CHECK = C14()
