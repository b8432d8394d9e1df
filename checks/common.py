"""Shared generators and runners for the MPI checks"""
import copy
import numpy as np

from dst import env
from dst.env import V
from dst.harness import Check, Violation, gen_cfg, sim_violation, info_of, violation_info, derive

MPI_REAL = ["virgo.mpi.parallel_sort", "virgo.mpi.util", "virgo.mpi.gather_array", "virgo.mpi.errchk", "numpy"]
MPI_STUB = ["mpi4py.MPI (simulated communicators, messages, collectives, datatypes)", "mpi4py.util.dtlib", "numpy allocator (poisoned)",
            "time", "sys.stdout/sys.stderr"]
MPI_FAULTS = ["message delayed by more than 10 steps", "message overtakes an older one", "rank stalled throughout",
              "ranks strictly prioritised", "send waits for its receiver", "send buffer read late", "receive buffer filled late",
              "collective left before all arrived", "garbage in uninitialised memory"]

INT_TYPES = ["i8", "i4", "u8", "u4", "i2", "u1", "i1"]
FLOAT_TYPES = ["f8", "f4"]
ODD_TYPES = ["?", "S3", "U3", "c16", "g"]


def scramble(*arrays):
    """Overwrite arrays which belong to the caller again: nothing may read them any more"""
    for a in arrays:
        if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind != "O":
            a[...] = np.frombuffer(b"\xa5" * a.dtype.itemsize, dtype=a.dtype)[0] if a.dtype.kind != "b" else True


KEPT = []


def keep_result(*arrays):
    """Results which the caller goes on using: nothing may change them any more"""
    for a in arrays:
        if isinstance(a, np.ndarray) and a.nbytes < 1 << 16:
            KEPT.append((a, a.tobytes()))


def check_kept():
    for a, b in KEPT:
        if a.tobytes() != b:
            raise Violation("result-changed", "an array returned by an earlier operation was changed later, to %s" % show(a))


def decode(codes, dtype, mode):
    """Map small integers onto values of a type; monotonic within the type's range"""
    codes = np.asarray(codes, dtype=np.int64)
    if dtype == "rec":
        # records, ordered by both fields
        r = np.zeros(len(codes), dtype=[("a", "i4"), ("b", "f8")])
        r["a"] = codes // 5 - 3
        r["b"] = codes % 5
        return r
    dt = np.dtype(dtype)
    if dt.kind == "b":
        return (codes & 1).astype(bool)
    if dt.kind in "SU":
        return np.array([b"%d" % (c % 1000) if mode == "plain" else b"ab"[:c % 3] + b"%c" % (97 + c % 7) for c in map(int, codes)],
                        dtype="S3").astype(dt)
    if dt.kind == "c":
        return (codes // 4 - 2 + 1j * (codes % 4)).astype(dt)
    if dt.char == "g":
        return (codes - 8).astype(dt) / 4 + (0 if mode == "plain" else np.ldexp(np.longdouble(1), 60))
    if dt.kind in "iu":
        info = np.iinfo(dt)
        if mode == "plain":
            lo = 0 if dt.kind == "u" else -8
            res = codes + lo
            return res.astype(dt)
        if mode == "low":
            base = info.min
            return np.array([min(info.max, base + int(c)) for c in codes], dtype=dt)
        if mode == "high":
            base = info.max
            return np.array([max(info.min, base - int(c)) for c in codes], dtype=dt)
        if mode == "mid":
            base = 1 << (dt.itemsize * 8 - 2)
            return np.array([min(info.max, base + int(c)) for c in codes], dtype=dt)
        # wide: spread over the whole range
        span = info.max - info.min
        return np.array([info.min + (int(c) * (span // 101)) % (span + 1) for c in codes], dtype=dt)
    if mode == "plain":
        return (codes - 8).astype(dt)
    if mode == "low":
        return (codes * 0.125 - 1.0).astype(dt)
    if mode == "nan":
        return np.array([np.nan if c % 5 == 0 else np.inf if c % 7 == 1 else c - 8 for c in map(int, codes)], dtype=dt)
    if mode == "high":
        tiny = np.finfo(dt).tiny
        tab = np.array([-np.inf, np.finfo(dt).min, -1.0, -tiny, 0.0, tiny, 1.0, np.finfo(dt).max, np.inf], dtype=dt)
        return tab[codes % len(tab)]
    return ((codes - 50) * np.asarray(1.0e30 if dt.itemsize == 4 else 1.0e250)).astype(dt)


def strided(a):
    """The same elements, not adjacent in memory"""
    b = np.zeros((len(a) * 2,) + a.shape[1:], dtype=a.dtype)
    b[::2] = a
    return b[::2]


def other_order(a):
    """The same elements in the byte order of other machines"""
    return a.astype(a.dtype.newbyteorder())


def native(a):
    """A copy in this machine's byte order"""
    a = np.array(a)
    return a.astype(a.dtype.newbyteorder("="))


def gen_sizes(rng, n, total):
    """Split total elements over n ranks"""
    pat = rng.choice(["random", "random", "one", "some-empty", "some-empty", "equal", "last", "first", "skew"])
    if n == 1:
        return [total]
    if pat == "one":
        s = [0] * n
        s[rng.randrange(n)] = total
        return s
    if pat == "last":
        s = [0] * n
        s[-1] = total
        return s
    if pat == "first":
        s = [0] * n
        s[0] = total
        return s
    if pat == "equal":
        return [total // n + (1 if i < total % n else 0) for i in range(n)]
    w = [rng.random() for _ in range(n)]
    if pat == "some-empty":
        for i in range(n):
            if rng.random() < 0.5:
                w[i] = 0
        if not any(w):
            w[rng.randrange(n)] = 1
    if pat == "skew":
        w = [x ** 6 for x in w]
    t = sum(w)
    s = [int(total * x / t) for x in w]
    while sum(s) < total:
        i = rng.randrange(n)
        if w[i]:
            s[i] += 1
    return s


def few_messages(case, tot):
    """Not a message for every element if there are many"""
    case["large"] = True
    if "chunk" in case:
        case["chunk"] = max(case["chunk"], tot // 50 * 8)


def gen_total(rng, tier, case=None):
    """Number of elements of a distributed array"""
    k = rng.random()
    if case is not None and k > 0.99:
        # sometimes more than 8 or 16 bits can count, in messages of at most 1/50 of it
        tot = rng.randrange(200, 5000) if k < 0.998 else rng.choice([2 ** 15, 2 ** 16]) + rng.randrange(-300, 3000)
        few_messages(case, tot)
        return tot
    if k < 0.06:
        return 0
    if k < 0.16:
        return rng.randrange(1, 4)
    if k < 0.65:
        return rng.randrange(4, 25)
    if k < 0.95:
        return rng.randrange(25, 80)
    return rng.randrange(80, 200 if tier == "quick" else 600)


def gen_codes(rng, sizes):
    """Values (as codes) per rank: duplicates, constants, runs, ..."""
    n = len(sizes)
    tot = sum(sizes)
    pat = rng.choice(["few", "few", "many", "const", "sorted", "reverse", "perrank", "runs", "twovals", "skew", "rotated"])
    hi = rng.choice([2, 3, 5, 10, 60, 101] if tot < 200 else [2, 10, 101, tot, 4 * tot])
    if pat == "const":
        c = rng.randrange(100)
        flat = [c] * tot
    elif pat == "few":
        flat = [rng.randrange(hi) for _ in range(tot)]
    elif pat == "many":
        flat = [rng.randrange(101) for _ in range(tot)]
    elif pat in ("sorted", "reverse"):
        flat = sorted(rng.randrange(hi) for _ in range(tot))
        if pat == "reverse":
            flat.reverse()
    elif pat == "perrank":
        flat = []
        for s in sizes:
            flat += [rng.randrange(hi)] * s
    elif pat == "runs":
        flat = []
        while len(flat) < tot:
            flat += [rng.randrange(hi)] * rng.randrange(1, 12)
        flat = flat[:tot]
    elif pat == "twovals":
        a, b = rng.randrange(100), rng.randrange(100)
        flat = [a if rng.random() < 0.9 else b for _ in range(tot)]
    elif pat == "skew":
        flat = [int(100 * rng.random() ** 4) for _ in range(tot)]
    else:
        # sorted blocks held by the wrong ranks
        flat = sorted(rng.randrange(101) for _ in range(tot))
        k = rng.randrange(tot) if tot else 0
        flat = flat[k:] + flat[:k]
    return split_list(flat, sizes)


def split_list(flat, sizes):
    res, o = [], 0
    for s in sizes:
        res.append(list(flat[o:o + s]))
        o += s
    return res


def gen_n(rng, tier, nmax=7):
    if tier == "thorough" and rng.random() < 0.15:
        return rng.randrange(8, env.MAXRANKS + 1)
    if rng.random() < 0.02 and nmax >= 7:
        return rng.randrange(8, env.MAXRANKS + 1)
    return rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8][:nmax + 5])


def gen_layout(rng, n):
    """Which communicator the operation runs on; a list of groups of world ranks"""
    k = rng.random()
    if k < 0.6 or n == 1:
        return dict(kind="world", groups=[list(range(n))])
    if k < 0.7:
        return dict(kind="dup", groups=[list(range(n))])
    if k < 0.8:
        p = list(range(n))
        rng.shuffle(p)
        return dict(kind="split", groups=[p])
    p = list(range(n))
    rng.shuffle(p)
    cut = rng.randrange(1, n)
    return dict(kind="split", groups=[p[:cut], p[cut:]])


def gen_mpi(rng, tier, nmax=7):
    n = gen_n(rng, tier, nmax)
    case = dict(n=n, sseed=rng.randrange(2**32), cfg=gen_cfg(rng, n), layout=gen_layout(rng, n))
    # message size limit of the code under test
    k = rng.random()
    if k < 0.35:
        case["chunk"] = rng.choice([8, 16, 24, 32, 64])
    return case


HUGE_ELEMENTS = {"u1": 2 ** 31, "i2": 2 ** 30, "i4": 2 ** 29, "f8": 2 ** 28, "i8": 2 ** 28}


def gen_huge(rng):
    """Element type and a number of elements near or above what a message can hold"""
    dt = rng.choice(sorted(HUGE_ELEMENTS))
    return dt, HUGE_ELEMENTS[dt] + rng.choice([-1, 0, 1, 5, 12345, HUGE_ELEMENTS[dt] // 4])


def huge_marks(n, itemsize, seed):
    """Positions and values of the few elements which are not zero"""
    import random
    r = random.Random(seed)
    pos = {0, n - 1, n // 2}
    for k in (2 ** 31, 2 ** 32, 100 * 1024 * 1024):
        for q in (k // itemsize, k):
            for j in (1, r.randrange(1, 50)):
                pos |= {j * q - 1, j * q, j * q + 1}
    pos |= {r.randrange(n) for _ in range(8)} if n else set()
    pos = sorted(p for p in pos if 0 <= p < n)
    return np.array(pos, dtype=np.int64), np.array([1 + r.randrange(120) for _ in pos], dtype=np.int64)


def nonzero_elements(arr):
    """Positions and values of the elements of a large array which are not zero"""
    from dst.mpi import nonzero_blocks
    pos, isz = [np.zeros(0, dtype=np.int64)], arr.dtype.itemsize
    val = [np.zeros(0, dtype=arr.dtype)]
    if arr.nbytes:
        for o, m in nonzero_blocks(arr.ctypes.data, arr.nbytes):
            a = arr[o // isz:(o + m) // isz]
            k = np.flatnonzero(a)
            pos.append(k + o // isz)
            val.append(a[k])
    return np.concatenate(pos), np.concatenate(val)


def group_of(case, rank):
    for i, g in enumerate(case["layout"]["groups"]):
        if rank in g:
            return i, g.index(rank)


def make_comm(case, rank, MPI):
    """(communicator or None for the default, free it?)"""
    lay = case["layout"]
    if lay["kind"] == "world":
        return None, MPI.COMM_WORLD
    if lay["kind"] == "dup":
        c = MPI.COMM_WORLD.Dup()
        return c, c
    gi, pos = group_of(case, rank)
    c = MPI.COMM_WORLD.Split(gi, pos)
    return c, c


def run_mpi(case, body, log=False, allow_exc=False, setup=None, scratch=None):
    """
    Run body(comm_argument, comm, rank) on every rank. Returns the simulation;
    anything that went wrong becomes a Violation.
    """
    from dst import mpi
    sim = env.new_sim(case, log=log, scratch=scratch)
    KEPT.clear()
    if setup:
        setup(sim)
    MPI = mpi.module

    def fn(p):
        arg, comm = make_comm(case, p.rank, MPI)
        res = body(arg, comm, p.rank)
        if arg is not None:
            arg.Free()
        return res
    sim.run([fn] * case["n"])
    try:
        sim_violation(sim, allow_exc)
        check_kept()
    except Violation as v:
        violation_info(v, sim)
        raise
    finally:
        KEPT.clear()
    return sim


class MpiCheck(Check):
    """Checks whose case has per-rank lists named in self.fields"""
    real = MPI_REAL
    stubs = MPI_STUB
    faults_possible = MPI_FAULTS
    fields = ("data",)
    rule = ""
    assumptions = ("ranks interact only through the simulated MPI calls", "numpy is correct")

    def judge(self, case, sim, results):
        raise NotImplementedError

    def body(self, case, arg, comm, rank):
        raise NotImplementedError

    def second(self, case):
        """What the same job does next: the same with the ranks' data exchanged, sometimes on a communicator of another order"""
        if not case.get("twice", case["sseed"] % 6 == 0) or case.get("huge") or case.get("large") or case.get("mismatch"):
            return None
        c = copy.deepcopy(case)
        for f in set(self.fields) | set(self.exchanged):
            if f in c:
                c[f] = c[f][1:] + c[f][:1]
        if case["sseed"] % 12 == 0:
            c["layout"] = dict(kind="split", groups=[g[::-1] for g in c["layout"]["groups"]])
        return c

    exchanged = ()

    def execute(self, case, log=False):
        refuse = self.may_refuse(case)
        nxt = self.second(case)

        def job(arg, comm, rank):
            res = self.body(case, arg, comm, rank)
            if nxt is None:
                return [res]
            if nxt["layout"] == case["layout"]:
                return [res, self.body(nxt, arg, comm, rank)]
            other = comm.Split(0, -comm.Get_rank())
            res = [res, self.body(nxt, other, other, rank)]
            other.Free()
            return res
        sim = run_mpi(case, job, log=log, allow_exc=refuse)
        if refuse and (any(isinstance(p.exc, (TypeError, ValueError, BufferError, NotImplementedError, KeyError)) for p in sim.procs)
                       or case.get("swapped") and sim.aborted):
            # an unusual memory layout or byte order: an error is acceptable, a wrong answer is not
            sim.probe("foreign byte order refused" if case.get("swapped") else "unusual layout refused")
            info = info_of(sim, nontrivial=False)
            if log:
                info["log"] = ["rank %d: %s" % e for e in sim.log]
            return info
        try:
            if refuse:
                sim_violation(sim)
            for k, c in enumerate((case, nxt)):
                for g in c["layout"]["groups"] if c else ():
                    self.judge(c, g, [sim.procs[r].result[k] for r in g])
        except Violation as v:
            violation_info(v, sim)
            raise
        info = info_of(sim, nontrivial=self.nontrivial(case))
        if log:
            info["log"] = ["rank %d: %s" % e for e in sim.log]
        return info

    def may_refuse(self, case):
        return False

    def nontrivial(self, case):
        return case["n"] > 1 and any(len(x) for x in case[self.fields[0]])

    # -- shrinking
    def shrink(self, case):
        n = case["n"]
        lay = case["layout"]
        # fewer ranks
        if n > 1:
            for r in range(n):
                yield self.drop_rank(copy.deepcopy(case), r)
        if lay["kind"] != "world":
            c = copy.deepcopy(case)
            c["layout"] = dict(kind="world", groups=[list(range(n))])
            yield c
        if case.get("chunk"):
            c = copy.deepcopy(case)
            del c["chunk"]
            yield c
        for f in list(case.get("faults", [])):
            c = copy.deepcopy(case)
            c["faults"].remove(f)
            yield c
        if case.get("cfg"):
            c = copy.deepcopy(case)
            c["cfg"] = dict(p_eager=0.0, p_sync=0.0, p_late_read=0.0, p_late_write=0.0)
            if c["cfg"] != case["cfg"]:
                yield c
        if case.get("twice", case["sseed"] % 6 == 0):
            yield dict(copy.deepcopy(case), twice=False)
        yield from self.shrink_data(case)

    def drop_rank(self, c, r):
        n = c["n"]
        c["n"] = n - 1
        for f in self.fields:
            if f in c:
                del c[f][r]
        gs = []
        for g in c["layout"]["groups"]:
            g = [x - (x > r) for x in g if x != r]
            if g:
                gs.append(g)
        c["layout"]["groups"] = gs
        if c["cfg"].get("starve", 0) >= n - 1:
            c["cfg"]["starve"] = 0
        c["faults"] = [dict(f, rank=f["rank"] - (f["rank"] > r)) for f in c.get("faults", []) if f["rank"] != r]
        return c

    def shrink_data(self, case):
        for f in self.fields:
            if f not in case:
                continue
            for r in range(case["n"]):
                x = case[f][r]
                if not isinstance(x, list):
                    continue
                size = len(x)
                while size >= 1:
                    for o in range(0, len(x), size):
                        c = copy.deepcopy(case)
                        del c[f][r][o:o + size]
                        yield c
                    size //= 2
                for i, v in enumerate(x):
                    if isinstance(v, int) and v > 0:
                        for w in {0, v // 2}:
                            c = copy.deepcopy(case)
                            c[f][r][i] = w
                            yield c


def same(a, b):
    """Equal values, type and shape (NaN equal to NaN)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind in "fc":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def cat(parts):
    parts = [np.asarray(p) for p in parts]
    return np.concatenate(parts) if parts else np.zeros(0)


def show(a, k=40):
    s = np.array2string(np.asarray(a), threshold=k)
    return s
