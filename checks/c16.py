import copy
import gc
import os
import resource
import sys

import h5py
import numpy as np

from dst import env, fio
from dst.env import V
from dst.harness import Check, Violation, HarnessError, gen_cfg, sim_violation, info_of, violation_info

LIMIT = 32
ERRNOS = dict(EMFILE=24, ENFILE=23, ENOENT=2, EIO=5, EACCES=13, ENOMEM=12, ENOSPC=28, EDQUOT=122, ESTALE=116)
SITES = {"io.open": ["EMFILE", "EMFILE", "ENFILE", "ENOENT", "EIO", "EACCES", "ESTALE"], "io.map": ["ENOMEM", "EACCES"],
         "io.stat": ["EIO", "ESTALE", "EACCES"], "io.write": ["ENOSPC", "EIO", "EDQUOT"]}
TYPES = {"i1": "i1", "u1": "u1", "i2": "i2", "i4": "i4", "u4": "u4", "i8": "i8", "u8": "u8", "f4": "f4", "f8": "f8", "c8": "c8", "S5": "S5",
         ">i4": ">i4", "<f8": "<f8", ">f4": ">f4", "rec": [("a", "i4"), ("b", "f4", (3,)), ("s", "S3"), ("c", "i8")],
         "arec": np.dtype([("a", "i2"), ("b", "f8"), ("c", "u1")], align=True)}


def dtype_of(name):
    return np.dtype(TYPES[name])


def file_dtype(name, endian):
    return dtype_of(name).newbyteorder(endian)


def size_of(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def values(name, shape, salt):
    """Recognisable finite values of a type"""
    d = dtype_of(name)
    n = size_of(shape)
    v = np.arange(n, dtype=np.int64) * 7 + salt * 13 + 1
    if d.names:
        r = np.zeros(n, dtype=d)
        for i, f in enumerate(d.names):
            ft = d.fields[f][0]
            w = v + i
            if ft.base.kind == "S":
                r[f] = (w % 999).astype("U3").astype("S3")
            elif ft.shape:
                r[f] = w[:, None] + np.arange(ft.shape[0])
            else:
                r[f] = w % 100 if ft.itemsize == 1 else w % 30000
        return r.reshape(shape)
    if d.kind == "S":
        return (v % 99999).astype("U5").astype(d).reshape(shape)
    if d.kind in "iu":
        v = v % (100 if d.itemsize == 1 else 30000 if d.itemsize == 2 else 2 ** 31 - 1)
        if d.kind == "i":
            v = np.where(v % 3 == 0, -v, v)
        elif d.itemsize == 8:
            return (v.astype(np.uint64) + np.uint64(2 ** 63)).astype(d).reshape(shape)
        return v.astype(d).reshape(shape)
    if d.kind == "c":
        return (v + 1j * (v % 11)).astype(d).reshape(shape)
    return (v * 0.25 - 3).astype(d).reshape(shape)


def equal(a, b):
    """Bitwise equal values, ignoring byte order and padding"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.names or b.dtype.names:
        return a.dtype.names == b.dtype.names and all(equal(a[f], b[f]) for f in a.dtype.names)
    if a.dtype.kind == "S" and b.dtype.kind == "S":
        return bool(np.array_equal(a, b))
    n = a.dtype.newbyteorder("<")
    if n != b.dtype.newbyteorder("<"):
        return False
    return a.astype(n).tobytes() == b.astype(n).tobytes()


def same_type(a, d):
    """Declared type, up to the padding of records"""
    scalar = not isinstance(a, np.ndarray)
    a = np.asarray(a).dtype
    if d.names:
        return a.names == d.names and all(a.fields[f][0] == d.fields[f][0] for f in d.names)
    return a == d or (scalar and (a.kind == d.kind == "S" or a.newbyteorder("<") == d.newbyteorder("<")))


# ------------------------------------------------------------------ layouts
def record_length(steps):
    n = 0
    for s in steps:
        n += s[1] if s[0] == "skip" else dtype_of(s[2]).itemsize * size_of(s[3])
    return n


def encode(fspec):
    """Content of a file"""
    out = []
    e = fspec["endian"]

    def put(steps, salt):
        for i, s in enumerate(steps):
            if s[0] == "skip":
                out.append(bytes((salt * 5 + i + k * 3) & 255 for k in range(s[1])))
            elif s[0] == "rec":
                m = np.array(record_length(s[1]), dtype=e + "i4").tobytes()
                out.append(m)
                put(s[1], salt + 100 + i)
                out.append(m)
            else:
                v = values(s[2], s[3], salt + i)
                out.append(v.astype(file_dtype(s[2], e)).tobytes())
    put(fspec["steps"], fspec["salt"])
    out.append(bytes(fspec["tail"]))
    return b"".join(out)


def gen_steps(rng, big, dup=False):
    steps = []
    names = []
    n = rng.choice([1, 2, 3, 4, 6])
    for i in range(n):
        r = rng.random()
        nd = rng.choice([0, 1, 1, 1, 2, 2, 3])
        shape = [rng.choice([1, 2, 3, 5, 17] + ([0] if rng.random() < 0.3 else [4])) for _ in range(nd)]
        if big and rng.random() < 0.2:
            shape = [rng.choice([3000, 700]), 3]
        t = rng.choice(list(TYPES))
        where = rng.choice(["", "", "g/", "g/h/", "k/"])
        if r < 0.62:
            steps.append(["ds", where + "d%d" % i, t, shape])
            names.append(where + "d%d" % i)
            if rng.random() < 0.25:
                steps.append(["attr", where + "d%d/u%d" % (i, i), rng.choice(["f4", "i4", "f8", "S5"]), rng.choice([[], [], [3]])])
        elif r < 0.78:
            steps.append(["attr", where + "a%d" % i, t, shape if rng.random() < 0.4 else []])
        elif r < 0.84:
            steps.append(["skip", rng.choice([1, 3, 8, 60])])
        elif r < 0.92:
            steps.append(["ras", "r%d" % i, rng.choice(["i4", "u8", "f8", "u1"]), rng.choice([[], [2]])])
        else:
            k = rng.choice([1, 1, 2])
            steps.append(["rec", [["ds", where + "e%d_%d" % (i, j), rng.choice(["i4", "f8", "u1"]), rng.choice([[], [3], [5, 2], [0]])] for j in range(k)]])
    return steps


def gen_file(rng, k, big):
    steps = gen_steps(rng, big)
    auto = False
    if rng.random() < 0.15:
        steps.insert(0, ["rec", [["ds", "hdr0", "i4", [rng.choice([2, 6, 64])]], ["ds", "hdr1", "f8", []]]])
        auto = True
    tail = [] if rng.random() < 0.7 else [7] * rng.choice([1, 4, 9])
    return dict(steps=steps, endian=rng.choice("<>"), salt=k, tail=tail, auto=auto)


def gen_key(rng, shape):
    r = rng.random()
    if r < 0.3 or not shape:
        return rng.choice([["..."], ["()"]])
    out = []
    for n in shape[:rng.choice([1, 1, 2, 3])]:
        q = rng.random()
        if q < 0.35:
            out.append(["i", rng.randrange(-n, n) if n and rng.random() < 0.95 else n])
        elif q < 0.8:
            a, b = rng.randrange(-n - 1, n + 2), rng.randrange(-n - 1, n + 2)
            out.append(["s", rng.choice([None, a]), rng.choice([None, b]), rng.choice([None, 1, 2, -1, 3])])
        elif q < 0.9:
            out.append(["m", rng.randrange(1 << 16)])
            break
        else:
            out.append(["l", [rng.randrange(n) for _ in range(rng.choice([0, 1, 3]))] if n else []])
            break
    if rng.random() < 0.2:
        out.append(["..."])
    return out


def real_key(key, shape):
    if key == ["..."]:
        return Ellipsis
    if key == ["()"]:
        return ()
    out = []
    for d, k in enumerate(key):
        if k[0] == "i":
            out.append(k[1])
        elif k[0] == "s":
            out.append(slice(k[1], k[2], k[3]))
        elif k[0] == "m":
            n = shape[d]
            out.append(np.array([(k[1] >> (i % 16)) & 1 == 1 for i in range(n)], dtype=bool))
        elif k[0] == "l":
            out.append(np.array(k[1], dtype=int))
        else:
            out.append(Ellipsis)
    return out[0] if len(out) == 1 else tuple(out)


class Block:
    def __init__(self, kind, name, tname, shape, offset, endian):
        self.kind, self.name, self.tname, self.shape, self.offset, self.endian = kind, name, tname, tuple(shape), offset, endian
        self.nbytes = dtype_of(tname).itemsize * size_of(shape) if kind != "mark" else 4


class Obj:
    """Model of one open BinaryFile"""
    def __init__(self, real, f, path):
        self.real, self.f, self.path = real, f, path
        self.blocks = []
        self.endian = "<" if sys.byteorder == "little" else ">"
        self.offset = 0

    def set(self, e):
        self.endian = e
        for b in self.blocks:
            b.endian = e


NATIVE = "<" if sys.byteorder == "little" else ">"
OTHER = {"<": ">", ">": "<"}


class C16(Check):
    prop = "C16"
    modules = ("virgo.util.read_binary",)
    quick_runs = 20000
    quick_s = 35
    rule = ("A run is one program: a history of opening, reading, closing, dropping, copying and hashing a number of binary files while opens, "
            "maps and writes fail, files vanish, return or lose their end. Non-trivial: at least one value was read and either a fault took effect "
            "or more than three files were used.")
    real = ["virgo.util.read_binary", "numpy", "mmap and files of the operating system (memory file system)", "h5py"]
    stubs = ["failures of open, mmap, stat and write (dst/fio.py)", "numpy allocator (poisoned)", "time"]
    faults_possible = list(ERRNOS) + ["file truncated", "file missing", "file system full while writing HDF5", "garbage collection", "interrupt",
                                      "short read"]
    assumptions = ["A file's content is not replaced while it is open.", "Single-threaded use."]

    def setup(self):
        fio.install()
        gc.collect()
        gc.freeze()

    # ---------------------------------------------------------------- cases
    def gen(self, rng, tier):
        many = rng.random() < 0.3
        nf = rng.choice([34, 36, 40, 50]) if many else rng.choice([1, 2, 3, 4, 6])
        files = [gen_file(rng, k, not many) for k in range(nf)]
        for f in files:
            if many:
                f["steps"] = f["steps"][:3]
        case = dict(n=1, sseed=rng.randrange(1 << 30), cfg=gen_cfg(rng, 1, policy="fair"), files=files,
                    limit=LIMIT if many else rng.choice([LIMIT, 1, 2, 3]), rel=rng.random() < 0.15)
        ops = []
        nslots = nf if many else rng.choice([nf, nf + 2])
        for k in range(nslots if many else 0):
            ops.append(["open", k, k, rng.choice(["before", "after", "swap"])])
            if rng.random() < 0.9:
                ops.append(["read", k, rng.randrange(50), ["..."], "item"])
        W = dict(open=5, read=22, iter=2, attrs=2, close=5, drop=3, gc=2, endian=2, toggle=1, swap=1, hash=2, used=1, wb=2.5, h5=0.7, truncate=0.6,
                 hide=1.5, show=1.5, chdir=3 if case["rel"] else 0, dup=0.5, meta=1)
        for k in W:
            if rng.random() < 0.25 and k not in ("open", "read"):
                W[k] = 0
        kinds, weights = list(W), list(W.values())
        for _ in range(rng.choice([8, 20, 40, 60])):
            o = rng.choices(kinds, weights)[0]
            s = rng.randrange(nslots)
            if o == "open":
                ops.append([o, s, s if many else rng.randrange(nf), rng.choice(["before", "after", "swap"])])
            elif o == "read":
                ops.append([o, s, rng.randrange(50), None, rng.choice(["item", "item", "item", "array", "arrayt", "value", "path", "get"]), rng.randrange(1 << 30)])
            elif o in ("iter", "attrs", "meta"):
                ops.append([o, s, rng.randrange(50)])
            elif o == "close":
                ops.append([o, s, rng.choice(["file", "file", "ds", "group", "with"]), rng.randrange(50)])
            elif o == "endian":
                ops.append([o, s, rng.choice("<>=")])
            elif o == "swap":
                ops.append([o, s, rng.random() < 0.5])
            elif o == "hash":
                ops.append([o, s, rng.choice(["sha1", "md5", None])])
            elif o == "wb":
                ops.append([o, s, rng.choice([None, None, "wb", "xb"]), rng.choice([None, "<", ">", "="]), rng.random() < 0.2])
            elif o == "h5":
                ops.append([o, s, rng.choice([None, 0, 6, 1]), rng.random() < 0.3, rng.choice([None, None, None, 0, 100, 2100, 5000])])
            elif o == "truncate":
                ops.append([o, rng.randrange(nf), rng.random()])
            elif o in ("hide", "show"):
                ops.append([o, rng.randrange(nf)])
            elif o == "chdir":
                ops.append([o, rng.randrange(2)])
            elif o == "gc":
                ops.append([o])
            else:
                ops.append([o, s])
        case["ops"] = ops
        faults = []
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 1, 2, 4])):
                site = rng.choice(["io.open", "io.open", "io.open", "io.map", "io.stat", "io.write"])
                e = rng.choice(SITES[site])
                hi = nf if many and rng.random() < 0.6 else 12
                faults.append(dict(site=site, kind=e, errno=ERRNOS[e], rank=0, nth=rng.randrange(hi)))
        case["faults"] = faults
        return case

    # ---------------------------------------------------------------- run
    def execute(self, case, log=False):
        fio.install()
        with env.rundir() as d:
            os.mkdir(d + "/A")
            os.mkdir(d + "/B")
            os.mkdir(d + "/out")
            self.dir = d
            self.content = []
            self.paths = []
            for k, f in enumerate(case["files"]):
                c = encode(f)
                # the same names in both directories
                p = "%s/%s/f%02d.dat" % (d, "AB"[k % 2], k // 2)
                with fio.real_open(p, "wb") as g:
                    g.write(c)
                self.content.append(c)
                self.paths.append(p)
            self.hidden = set()
            self.held = []
            self.cwd = os.getcwd()
            sim = env.new_sim(case, log=log, scratch=d)
            self.sim = sim
            self.case_files = case['files']
            self.reads = 0
            try:
                sim.run([lambda p: self.body(case)])
                sim_violation(sim)
            except Violation as v:
                raise violation_info(v, sim)
            finally:
                os.chdir(self.cwd)
                self.objs = None
                self.held = None
                m = env.rank_modules[0]["virgo.util.read_binary"]
                c = getattr(m.BinaryDataset, "file_cache", None)
                if isinstance(c, dict):
                    c.clear()
            nt = self.reads > 0 and (bool(sim.fault_hits) or len(case["files"]) > 3)
            info = info_of(sim, nontrivial=nt)
            if log:
                info["log"] = ["%s" % e[1] for e in sim.log]
            return info

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def body(self, case):
        try:
            self.play(case)
        except Violation as v:
            # hand over without ending up in the record of exceptions
            self.sim.violation = (v.cls, v.msg)

    def play(self, case):
        rb = V("util.read_binary")
        sim = self.sim
        D = rb.BinaryDataset
        if hasattr(D, "max_files"):
            D.max_files = case["limit"]
        os.chdir(self.dir + "/A")
        self.where = "A"
        objs = self.objs = {}
        self.nout = 0
        for i, op in enumerate(case["ops"]):
            self.opno = i
            k = op[0]
            before = sum(v for v in sim.fault_hits.values())
            outcome = "ok"
            retry = True
            while True:
                try:
                    r = getattr(self, "op_" + k)(case, objs, op)
                    outcome = "ok" if r is None else str(r)
                    break
                except Violation:
                    raise
                except Exception as e:
                    struck = sum(v for v in sim.fault_hits.values()) > before
                    if struck and retry:
                        # the failure was reported; it is over now
                        sim.event(0, "op %d %s: %s" % (i, k, type(e).__name__))
                        sim.probe("failure reported, operation repeated")
                        before = sum(v for v in sim.fault_hits.values())
                        continue
                    if struck:
                        break
                    import traceback
                    raise Violation("exception:%s" % type(e).__name__, "operation %d %s raised %s: %s\n%s" % (i, op, type(e).__name__, e, traceback.format_exc()))
            sim.event(0, "op %d %s: %s" % (i, k, outcome))
            sim.steps += 1
            self.check_limit(op)
            if i % 16 == 15:
                self.check_held()
        for k in list(objs):
            if objs[k] is not None and k % 2:
                objs[k].real.close()
            objs[k] = None
        self.check_held()
        gc.collect()
        with fio.plain():
            left = fio.open_files(self.dir)
        if left:
            self.fail("leak", "still open after everything was closed and dropped: %s" % sorted(left))
        self.check_held()

    def check_limit(self, op):
        if len(self.paths) <= LIMIT:
            return
        with fio.plain():
            n = fio.open_files(self.dir, maps=False)
        self.sim.probe("files open at the limit", int(len(n) >= LIMIT))
        if len(n) > LIMIT:
            self.fail("limit", "%d files held open after operation %d %s" % (len(n), self.opno, op))

    def check_held(self):
        for a, b, what in self.held:
            if np.asarray(a).tobytes() != b:
                self.fail("result-changed", "a result returned earlier changed: %s" % what)

    def hold(self, a, what):
        if len(self.held) < 60 and isinstance(a, np.ndarray):
            self.held.append((a, a.tobytes(), what))

    # ---------------------------------------------------------------- model
    def expected(self, o, b):
        """Values of a block, or None if it lies outside the file"""
        c = self.content[o.f]
        if b.offset + b.nbytes > len(c):
            return None
        d = file_dtype(b.tname, b.endian)
        return np.frombuffer(c[b.offset:b.offset + b.nbytes], dtype=d).reshape(b.shape) if b.nbytes or d.itemsize == 0 else np.zeros(b.shape, dtype=d)

    def unreadable(self, o):
        """A read may fail for reasons the program caused"""
        return o.f in self.hidden or len(self.content[o.f]) == 0

    def dataset(self, o, b, via="item"):
        if b.kind == "ds":
            if via == "path":
                x = o.real
                for part in b.name.split("/"):
                    x = x[part]
                return x
            if via == "get":
                x = o.real.get(b.name)
                if x is None:
                    self.fail("missing", "%s not found" % b.name)
                return x
            return o.real[b.name]
        raise AssertionError

    def attr(self, o, b):
        if "/" in b.name:
            head, tail = b.name.rsplit("/", 1)
            return o.real[head].attrs[tail]
        return o.real.attrs[b.name]

    def compare(self, o, b, got, want, what):
        self.reads += 1
        if not equal(got, want):
            self.fail("wrong-data", "%s of %s (block %s, byte order %s): got %r, expected %r" % (what, o.path, b.name, b.endian, got, want))
        if not same_type(got, dtype_of(b.tname)):
            self.fail("wrong-type", "%s of %s: got type %s, declared %s" % (what, b.name, np.asarray(got).dtype, dtype_of(b.tname)))

    def attempt(self, o, b, fn, what, want):
        """Perform a read which may have to fail"""
        try:
            got = fn()
        except Exception as e:
            if want is None:
                self.sim.probe("read outside the file refused")
                return None
            if self.unreadable(o):
                return None
            raise
        if want is None:
            self.fail("out-of-range", "%s of %s returned %r although the file is too short" % (what, b.name, got))
        return (got,)

    def pick(self, objs, op, kinds=("ds",)):
        o = objs.get(op[1])
        if o is None:
            return None, None
        bl = [b for b in o.blocks if b.kind in kinds]
        return o, bl[op[2] % len(bl)] if bl else None

    # ---------------------------------------------------------------- operations
    def op_open(self, case, objs, op):
        rb = V("util.read_binary")
        f = op[2] % len(case["files"])
        fs = case["files"][f]
        if f in self.hidden:
            return "hidden"
        path = self.paths[f]
        name = path
        if case["rel"] and path.split("/")[-2] == self.where:
            name = os.path.basename(path)
        objs[op[1]] = None
        o = Obj(rb.BinaryFile(name), f, path)
        how = op[3]
        if fs["auto"] and how != "swap":
            how = "auto"
        elif any(s[0] in ("ras", "rec") for s in fs["steps"]) and how == "after":
            how = "before"
        if how == "before":
            o.real.set_endian(fs["endian"])
            o.set(fs["endian"])
        elif how == "swap":
            o.real.enable_byteswap(fs["endian"] != NATIVE)
            o.set(fs["endian"])
        elif how == "auto" and op[1] % 2:
            o.real.set_endian(OTHER[fs["endian"]])
            o.set(OTHER[fs["endian"]])
        try:
            self.declare(o, fs["steps"], how == "auto")
        except Violation:
            raise
        except Exception:
            if self.need(fs["steps"], 0)[1] > len(self.content[f]) or self.unreadable(o):
                return "refused"
            raise
        if how == "after":
            o.real.set_endian(fs["endian"])
            o.set(fs["endian"])
        objs[op[1]] = o

    def need(self, steps, off):
        """Offset after the steps and the end of the last part which is read while declaring"""
        last = 0
        for s in steps:
            if s[0] == "skip":
                off += s[1]
            elif s[0] == "rec":
                off += 8 + record_length(s[1])
                last = off
            else:
                off += dtype_of(s[2]).itemsize * size_of(s[3])
                if s[0] == "ras":
                    last = off
        return off, last

    def declare(self, o, steps, auto=False):
        r = o.real
        for i, s in enumerate(steps):
            if s[0] == "skip":
                r.skip_bytes(s[1])
                o.offset += s[1]
            elif s[0] == "ds":
                b = Block("ds", s[1], s[2], s[3], o.offset, o.endian)
                r.add_dataset(s[1], dtype_of(s[2]), tuple(s[3]))
                o.blocks.append(b)
                o.offset += b.nbytes
            elif s[0] == "attr":
                b = Block("attr", s[1], s[2], s[3], o.offset, o.endian)
                r.add_attribute(s[1], dtype_of(s[2]), tuple(s[3]))
                o.blocks.append(b)
                o.offset += b.nbytes
            elif s[0] == "ras":
                b = Block("ras", s[1], s[2], s[3], o.offset, o.endian)
                want = self.expected(o, b)
                got = self.insist(lambda: r.read_and_skip(dtype_of(s[2]), tuple(s[3])))
                if want is None:
                    self.fail("out-of-range", "read_and_skip returned %r although the file is too short" % (got,))
                o.blocks.append(b)
                o.offset += b.nbytes
                self.compare(o, b, got, want, "read_and_skip")
            elif s[0] == "rec":
                a = auto and i == 0
                self.insist(lambda: r.start_fortran_record(auto_byteswap=True) if a else r.start_fortran_record())
                o.blocks.append(Block("mark", "mark", "i4", [], o.offset, o.endian))
                o.offset += 4
                self.declare(o, s[1])
                self.insist(r.end_fortran_record)
                o.blocks.append(Block("mark", "mark", "i4", [], o.offset, o.endian))
                o.offset += 4
                if a:
                    # the marker told the byte order
                    n = record_length(s[1])
                    sw = int(np.array(n, dtype="i4").byteswap())
                    true = self.sim_endian(o)
                    if o.endian != true and n != sw:
                        o.set(true)

    def sim_endian(self, o):
        return self.case_files[o.f]["endian"]

    def insist(self, fn):
        """Repeat a step whose failure was injected and reported"""
        before = sum(self.sim.fault_hits.values())
        try:
            return fn()
        except Exception as e:
            if sum(self.sim.fault_hits.values()) == before:
                raise
            self.sim.event(0, "step failed: %s" % type(e).__name__)
            self.sim.probe("declaration step repeated")
        return fn()

    def op_read(self, case, objs, op):
        o, b = self.pick(objs, op)
        if b is None:
            return "nothing"
        import random
        key = op[3]
        if key is None:
            key = gen_key(random.Random(op[5]), b.shape)
        k = real_key(key, b.shape)
        full = self.expected(o, b)
        via = op[4]
        ds = self.dataset(o, b, via)
        if via == "value":
            fn, k = (lambda: ds.value), ()
        elif via == "array":
            fn, k = (lambda: np.asarray(ds)), Ellipsis
        elif via == "arrayt" and not dtype_of(b.tname).names and dtype_of(b.tname).kind in "iuf":
            # converted to double
            r = self.attempt(o, b, lambda: np.asarray(ds, dtype="f8"), "conversion", full)
            if r is not None:
                with np.errstate(all="ignore"):
                    w = full.astype("f8")
                if r[0].dtype != np.dtype("f8") or not np.array_equal(r[0], w, equal_nan=True):
                    self.fail("wrong-data", "np.asarray(%s, f8): got %r expected %r" % (b.name, r[0], w))
                self.reads += 1
            return "converted"
        else:
            fn = lambda: ds[k]
        want = None
        if full is not None:
            try:
                want = full[k]
            except IndexError:
                try:
                    got = fn()
                except IndexError:
                    return "IndexError"
                except Exception:
                    if self.unreadable(o):
                        return "unreadable"
                    raise
                self.fail("bad-index", "index %r of %s returned %r" % (key, b.name, got))
        r = self.attempt(o, b, fn, "index %r" % (key,), want)
        if r is None:
            return "refused"
        self.compare(o, b, r[0], want, "index %r" % (key,))
        self.hold(r[0], b.name)

    def op_iter(self, case, objs, op):
        o, b = self.pick(objs, op)
        if b is None:
            return "nothing"
        ds = self.dataset(o, b)
        if not b.shape:
            for f in (lambda: len(ds), lambda: ds.len(), lambda: list(ds)):
                try:
                    f()
                except TypeError:
                    continue
                self.fail("scalar", "len or iteration of a scalar works")
            return "scalar"
        if len(ds) != b.shape[0] or ds.len() != b.shape[0]:
            self.fail("len", "len %d of shape %s" % (len(ds), b.shape))
        full = self.expected(o, b)
        if b.shape[0] == 0:
            if list(ds):
                self.fail("iter", "iterating %s" % b.name)
            return
        n = 0
        it = iter(ds)
        while n < 20:
            want = None if full is None else (full[n] if n < b.shape[0] else ())
            if want is not None and n >= b.shape[0]:
                for x in it:
                    self.fail("iter", "too many items in %s" % b.name)
                return
            r = self.attempt(o, b, lambda: next(it), "iteration", want)
            if r is None:
                return "refused"
            self.compare(o, b, r[0], want, "item %d" % n)
            n += 1

    def op_attrs(self, case, objs, op):
        o, b = self.pick(objs, op, ("attr",))
        if b is None:
            return "nothing"
        want = self.expected(o, b)
        r = self.attempt(o, b, lambda: self.attr(o, b), "attribute", want)
        if r is None:
            return "refused"
        self.compare(o, b, r[0], want, "attribute")
        self.hold(r[0], b.name)

    def op_meta(self, case, objs, op):
        """Names, types and shapes"""
        o = objs.get(op[1])
        if o is None:
            return "nothing"
        names = []

        def walk(g, pre):
            keys = list(g)
            if len(keys) != len(g):
                self.fail("group", "len of group %s" % pre)
            for k in keys:
                x = g[k]
                if hasattr(x, "dtype"):
                    names.append(pre + k)
                else:
                    walk(x, pre + k + "/")
        walk(o.real, "")
        want = sorted(b.name for b in o.blocks if b.kind == "ds")
        if sorted(names) != want:
            self.fail("group", "datasets %s, declared %s" % (sorted(names), want))
        for b in o.blocks:
            if b.kind == "ds":
                ds = o.real[b.name]
                if ds.dtype != dtype_of(b.tname) or tuple(ds.shape) != b.shape or ds.size != size_of(b.shape):
                    self.fail("group", "%s: %s %s %s" % (b.name, ds.dtype, ds.shape, ds.size))
                if b.name not in o.real:
                    self.fail("group", "%s not in file" % b.name)
        if "nothing/here" in o.real or "zz" in o.real:
            self.fail("group", "contains what was not declared")

    def op_dup(self, case, objs, op):
        """Declaring the same name again is refused and changes nothing"""
        o = objs.get(op[1])
        bl = [b for b in o.blocks if b.kind == "ds"] if o else []
        if not bl:
            return "nothing"
        try:
            o.real.add_dataset(bl[0].name, "i4", (3,))
        except KeyError:
            return
        self.fail("duplicate", "declared %s twice" % bl[0].name)

    def op_close(self, case, objs, op):
        o = objs.get(op[1])
        if o is None:
            return "nothing"
        if op[2] == "file":
            o.real.close()
        elif op[2] == "with":
            with o.real as f:
                if f is not o.real:
                    self.fail("with", "context manager returned something else")
        elif op[2] == "ds":
            bl = [b for b in o.blocks if b.kind == "ds"]
            if bl:
                o.real[bl[op[3] % len(bl)].name].close()
        else:
            g = [b.name.split("/")[0] for b in o.blocks if b.kind == "ds" and "/" in b.name]
            if g:
                o.real[g[op[3] % len(g)]].close()

        if op[2] in ("file", "with") and not any(x is not None and x is not o and x.f == o.f for x in objs.values()):
            with fio.plain():
                if o.path in fio.open_files(self.dir):
                    self.fail("not-closed", "%s is still open after it was closed" % o.path)

    def op_drop(self, case, objs, op):
        objs[op[1]] = None
        if self.opno % 2:
            self.op_gc(case, objs, op)

    def op_gc(self, case, objs, op):
        self.sim.hit("garbage collection")
        gc.collect()

    def op_endian(self, case, objs, op):
        o = objs.get(op[1])
        if o is None:
            return "nothing"
        o.real.set_endian(op[2])
        o.set(NATIVE if op[2] == "=" else op[2])

    def op_toggle(self, case, objs, op):
        o = objs.get(op[1])
        if o is None:
            return "nothing"
        o.real.toggle_byteswap()
        o.set(OTHER[o.endian])

    def op_swap(self, case, objs, op):
        o = objs.get(op[1])
        if o is None:
            return "nothing"
        o.real.enable_byteswap(op[2])
        o.set(OTHER[NATIVE] if op[2] else NATIVE)

    def used(self, o):
        pos = 0
        for b in sorted(o.blocks, key=lambda b: b.offset):
            if b.offset != pos:
                return False
            pos += b.nbytes
        return pos == len(self.content[o.f])

    def op_used(self, case, objs, op):
        o = objs.get(op[1])
        if o is None or o.f in self.hidden:
            return "nothing"
        if bool(o.real.all_bytes_used()) != self.used(o):
            self.fail("used", "all_bytes_used() wrong for %s" % o.path)

    def op_hash(self, case, objs, op):
        import hashlib
        o = objs.get(op[1])
        if o is None or o.f in self.hidden or not o.blocks or len(self.content[o.f]) == 0:
            return "nothing"
        fn = (lambda: o.real.hash(op[2])) if op[2] else (lambda: o.real.hash())
        if not self.used(o):
            before = sum(self.sim.fault_hits.values())
            try:
                fn()
            except IOError:
                if sum(self.sim.fault_hits.values()) > before:
                    raise
                return "refused"
            self.fail("hash", "hashed a file with undeclared bytes")
        got = fn()
        h = hashlib.new(op[2] or "sha1")
        for b in sorted(o.blocks, key=lambda b: b.offset):
            if b.kind != "mark" and dtype_of(b.tname).names:
                # padding makes the bytes of copies of records unspecified
                if b.tname == "arec":
                    return "padded"
            h.update(self.expected(o, b).astype(file_dtype(b.tname, "<")).tobytes())
        if got != h.hexdigest():
            self.fail("hash", "hash of %s is %s, expected %s" % (o.path, got, h.hexdigest()))
        self.reads += 1

    def op_wb(self, case, objs, op):
        o = objs.get(op[1])
        if o is None or o.f in self.hidden or len(self.content[o.f]) == 0:
            return "nothing"
        if any(self.expected(o, b) is None for b in o.blocks):
            return "too short"
        self.nout += 1
        name = "%s/out/o%d" % (self.dir, self.nout)
        if op[4]:
            with fio.real_open(name, "wb") as f:
                f.write(b"precious")
        kw = {}
        if op[2] is not None:
            kw["mode"] = op[2]
        if op[3] is not None:
            kw["endian"] = op[3]
        exclusive = op[2] in (None, "xb")
        before = sum(self.sim.fault_hits.values())
        try:
            o.real.write_binary(name, **kw)
        except FileExistsError:
            if op[4] and exclusive:
                with fio.real_open(name, "rb") as f:
                    if f.read() != b"precious":
                        self.fail("overwritten", "an existing file was modified")
                return "exists"
            raise
        if op[4] and exclusive:
            self.fail("overwritten", "an existing file was overwritten")
        if sum(self.sim.fault_hits.values()) > before:
            self.sim.probe("copy completed in spite of a failure")
        with fio.real_open(name, "rb") as f:
            out = f.read()
        end = 0
        for b in o.blocks:
            want = self.expected(o, b)
            d = dtype_of(b.tname)
            if op[3] is not None:
                d = d.newbyteorder(NATIVE if op[3] == "=" else op[3])
            part = out[b.offset:b.offset + b.nbytes]
            end = max(end, b.offset + b.nbytes if b.nbytes else 0)
            if len(part) != b.nbytes:
                self.fail("copy", "%s missing from the copy" % b.name)
            got = np.frombuffer(part, dtype=d).reshape(b.shape) if b.nbytes else np.zeros(b.shape, dtype=d)
            if not equal(got, want):
                self.fail("copy", "%s in the copy of %s: %r, expected %r" % (b.name, o.path, got, want))
        if len(out) != end:
            self.fail("copy", "copy has %d bytes, blocks end at %d" % (len(out), end))
        self.reads += 1
        os.unlink(name)

    def op_h5(self, case, objs, op):
        o = objs.get(op[1])
        if o is None or o.f in self.hidden or len(self.content[o.f]) == 0:
            return "nothing"
        if any(self.expected(o, b) is None for b in o.blocks):
            return "too short"
        if any(b.kind == "attr" and b.nbytes > 30000 for b in o.blocks):
            return "attributes too long for HDF5"
        self.nout += 1
        name = "%s/out/h%d.hdf5" % (self.dir, self.nout)
        kw = {} if op[2] is None else dict(gzip=op[2])
        full = op[4] is not None
        def write():
            if op[3]:
                with h5py.File(name, "w") as f:
                    o.real.write_hdf5(h5group=f, **kw)
            else:
                o.real.write_hdf5(name, **kw)
        if full:
            # in a process of its own: the HDF5 library may not survive
            pid = os.fork()
            if pid == 0:
                code = 7
                try:
                    old = resource.getrlimit(resource.RLIMIT_FSIZE)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (op[4], old[1]))
                    write()
                    code = 0
                finally:
                    os._exit(code)
            st = os.waitpid(pid, 0)[1]
            if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0):
                self.sim.hit("file system full while writing HDF5")
                return "no space"
        else:
            write()
        with h5py.File(name, "r") as f:
            seen = []
            f.visititems(lambda n, x: seen.append(n) if isinstance(x, h5py.Dataset) else None)
            want = sorted(b.name for b in o.blocks if b.kind == "ds")
            if sorted(seen) != want:
                self.fail("hdf5-copy", "datasets in the copy: %s, declared %s" % (sorted(seen), want))
            for b in o.blocks:
                if b.kind not in ("ds", "attr"):
                    continue
                w = self.expected(o, b)
                try:
                    if b.kind == "ds":
                        g = f[b.name][()]
                    else:
                        h, t = b.name.rsplit("/", 1) if "/" in b.name else ("/", b.name)
                        g = f[h].attrs[t]
                except KeyError:
                    self.fail("hdf5-copy", "%s is missing from the copy" % b.name)
                g = np.asarray(g)
                if b.tname == "S5":
                    g = g.astype("S5")
                if not equal(g, w):
                    self.fail("hdf5-copy", "%s in the copy: %r expected %r" % (b.name, g, w))
        self.reads += 1
        os.unlink(name)

    def op_truncate(self, case, objs, op):
        f = op[1]
        if f in self.hidden:
            return "hidden"
        n = int(len(self.content[f]) * op[2])
        self.content[f] = self.content[f][:n]
        os.truncate(self.paths[f], n)
        self.sim.hit("file truncated")

    def op_hide(self, case, objs, op):
        f = op[1]
        if f not in self.hidden:
            os.rename(self.paths[f], self.paths[f] + ".away")
            self.hidden.add(f)
            self.sim.hit("file missing")

    def op_show(self, case, objs, op):
        f = op[1]
        if f in self.hidden:
            os.rename(self.paths[f] + ".away", self.paths[f])
            self.hidden.discard(f)

    def op_chdir(self, case, objs, op):
        self.where = "AB"[op[1]]
        os.chdir(self.dir + "/" + self.where)

    # ---------------------------------------------------------------- shrink
    def shrink(self, case):
        n = len(case["ops"])
        size = n // 2
        while size >= 1:
            for p in range(0, n, size):
                c = copy.deepcopy(case)
                del c["ops"][p:p + size]
                yield c
            size //= 2
        for i in range(len(case["faults"])):
            c = copy.deepcopy(case)
            del c["faults"][i]
            yield c
        for i, f in enumerate(case["faults"]):
            if f["nth"]:
                c = copy.deepcopy(case)
                c["faults"][i]["nth"] -= 1
                yield c
        last = max([op[2] if op[0] == "open" else op[1] if op[0] in ("truncate", "hide", "show") else 0 for op in case["ops"]] + [0])
        if last + 1 < len(case["files"]):
            c = copy.deepcopy(case)
            c["files"] = c["files"][:last + 1]
            yield c
        for k, f in enumerate(case["files"]):
            for j in range(len(f["steps"])):
                c = copy.deepcopy(case)
                del c["files"][k]["steps"][j]
                if j == 0:
                    c["files"][k]["auto"] = False
                yield c
        if case["limit"] != LIMIT:
            yield dict(copy.deepcopy(case), limit=LIMIT)
        if case["rel"]:
            yield dict(copy.deepcopy(case), rel=False)


CHECK = C16()
