"""
C20: the Fortran/C HDF5 wrapper is an exact array store and fails loudly.

The real wrapper, built from the tree under test, and the real HDF5 library run
in a process of their own, performing a script of operations. The system calls
HDF5 makes on the files are simulated storage (dst/native/vfs.c). A run is a
sequence of such processes, each starting from the files the last one left.
"""
import copy
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import struct
import subprocess
import tempfile

import numpy as np

from dst import env
from dst.env import REPO, VERIF, HarnessError
from dst.harness import Check, Violation
from . import c20_driver as drv
from .c20_driver import OPS, F_SEL, F_INIT, F_EXT, F_EXT_VALUE, F_OVER, F_OVER_VALUE, F_GZIP, F_CHUNK

SRC = "fortran/hdf5_wrapper"
LIBDIR = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
INCDIR = "/usr/include/hdf5/serial"
SITES = ["open", "read", "write", "truncate", "close", "stat"]
KINDS = {"error": 0, "short": 1, "kill": 2}
ERR = dict(EIO=5, ENOSPC=28, EDQUOT=122, EMFILE=24, EACCES=13, ENOENT=2, EFBIG=27, ENOMEM=12)
SITE_ERR = dict(open=["EMFILE", "EIO", "EACCES", "ENOENT"], read=["EIO"], write=["EIO", "ENOSPC", "ENOSPC", "EDQUOT", "EFBIG"], truncate=["EIO", "ENOSPC", "EFBIG"],
                close=["EIO", "ENOSPC", "EDQUOT"], stat=["EIO", "ENOMEM"])
# 6 only in files written by another program: there's no Fortran type for it
DT = {1: "<i4", 2: "<i8", 3: "<f4", 4: "<f8", 6: "<i2"}
KIND = {1: "INTEGER", 2: "INTEGER", 3: "REAL", 4: "REAL", 5: "CHARACTER", 6: "INTEGER"}
CLASS = {1: 0, 2: 0, 3: 1, 4: 1, 5: 3}
SIZE = {1: 4, 2: 8, 3: 4, 4: 8, 6: 2}

BAD, SKIP, OK = "error", "skip", "ok"


def data(t, L, dims, seed):
    n = int(np.prod(dims, dtype=np.int64)) if dims else 1
    r = np.random.RandomState(seed % (1 << 32))
    if t == 5:
        letters = np.frombuffer(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJ  0123456789", dtype="u1")
        b = letters[r.randint(0, len(letters), n * L)].reshape(n, L).copy()
        # trailing blanks on some
        for i in range(min(n, 50)):
            k = r.randint(0, L + 1)
            b[i, k:] = 32
        a = np.frombuffer(b.tobytes(), dtype="S%d" % L) if L else None
        # numpy strips NULs only, blanks stay
        return a.reshape(dims, order="F")
    d = np.dtype(DT[t])
    a = np.frombuffer(r.bytes(n * d.itemsize), dtype=d)
    return a.reshape(dims, order="F")


def dtype_of(t, L):
    return np.dtype("S%d" % L) if t == 5 else np.dtype(DT[t])


def blank(a):
    """Strings as Fortran compares them"""
    if a.dtype.kind != "S":
        return a
    flat = [bytes(x).rstrip(b" \0") for x in a.ravel(order="F")]
    return np.array(flat, dtype=object).reshape(a.shape, order="F") if flat else a.astype(object)


def same(a, b, known=None):
    """Elements which were never written may have any value"""
    if a.shape != b.shape:
        return False
    if known is not None:
        a, b = a[known], b[known]
    if a.dtype.kind in "SO" or b.dtype.kind in "SO":
        return all(bytes(x).rstrip(b" \0") == bytes(y).rstrip(b" \0") for x, y in zip(a.ravel(order="F"), b.ravel(order="F")))
    return a.dtype == b.dtype and a.tobytes(order="F") == b.tobytes(order="F")


def norm(path):
    return "/".join(p for p in path.split("/") if p)


class DS:
    __slots__ = ("t", "L", "a", "ext", "known", "dtype")

    def __init__(self, t, L, a, ext, known=None, dtype=None):
        self.t, self.L, self.a, self.ext = t, L, a, ext
        self.dtype = dtype or dtype_of(t, L)
        # None: all elements were written
        self.known = None if known is None or known.all() else known


class File:
    def __init__(self):
        self.groups = {""}
        self.dsets = {}
        self.attrs = {}
        self.known = True

    def copy(self):
        f = File()
        f.groups = set(self.groups)
        # arrays are replaced, never changed in place
        f.dsets = dict(self.dsets)
        f.attrs = dict(self.attrs)
        f.known = self.known
        return f


class Model:
    def __init__(self):
        self.files = {}
        self.slots = {}
        # handles which were open in this job
        self.used = set()

    def copy(self):
        m = Model()
        m.files = {k: f.copy() for k, f in self.files.items()}
        m.slots = dict(self.slots)
        m.used = set(self.used)
        return m

    def handles(self, name):
        return [s for s, (n, ro) in self.slots.items() if n == name]

    # Every step returns (verdict, expected outputs)
    def step(self, op):
        return getattr(self, "do_" + op["op"])(op)

    def foreign(self, items):
        """Files written by another program"""
        for x in items:
            f = self.files.setdefault(x["file"], File())
            a = data(x["type"], x["len"], tuple(x["dims"]), x["seed"])
            dtype = None
            if x["type"] == 6:
                dtype = np.dtype("<i2")
            elif x["type"] != 5:
                dtype = np.dtype(DT[x["type"]]).newbyteorder(">" if x["big"] else "<")
            ext = bool(x["chunked"] and x["dims"])
            p = norm(x["path"])
            if x["attr"]:
                f.attrs[("", p)] = DS(x["type"], x["len"], a, False, None, dtype)
            else:
                self.mkgroups(f, p.split("/")[:-1])
                f.dsets[p] = DS(x["type"], x["len"], a, ext, None, dtype)

    def do_config(self, op):
        return OK, []

    def do_create(self, op):
        if op["slot"] in self.slots:
            return SKIP, []
        if self.handles(op["file"]):
            return BAD, []
        self.files[op["file"]] = File()
        self.slots[op["slot"]] = (op["file"], False)
        return OK, []

    def do_open(self, op):
        if op["slot"] in self.slots:
            return SKIP, []
        f = self.files.get(op["file"])
        if f is None:
            return BAD, []
        if not f.known:
            return SKIP, []
        h = self.handles(op["file"])
        if h and not op["ro"] and all(self.slots[s][1] for s in h):
            return SKIP, []
        self.slots[op["slot"]] = (op["file"], bool(op["ro"]))
        return OK, []

    def do_cycle(self, op):
        """Opened and closed over and over"""
        if op["slot"] in self.slots:
            return SKIP, []
        f = self.files.get(op["file"])
        if f is None:
            return BAD, []
        if not f.known or self.handles(op["file"]):
            return SKIP, []
        self.used.add(op["slot"])
        return OK, []

    def do_close(self, op):
        if op["slot"] not in self.slots:
            return self.no_file(op)
        del self.slots[op["slot"]]
        self.used.add(op["slot"])
        return OK, []

    def no_file(self, op):
        """A handle which doesn't stand for an open file"""
        if op["slot"] in self.used and self.slots:
            # the wrapper may have given the number out again
            return SKIP, []
        return BAD, []

    def at(self, op):
        if op["slot"] not in self.slots:
            return None, None
        n, ro = self.slots[op["slot"]]
        return self.files[n], ro

    def mkgroups(self, f, parts):
        for i in range(len(parts)):
            p = "/".join(parts[:i + 1])
            if p in f.dsets:
                return False
            f.groups.add(p)
        return True

    def do_group(self, op):
        f, ro = self.at(op)
        if f is None:
            return self.no_file(op)
        if ro:
            return BAD, []
        parts = norm(op["path"]).split("/")
        for i in range(len(parts)):
            if "/".join(parts[:i + 1]) in f.dsets:
                return BAD, []
        self.mkgroups(f, parts)
        return OK, []

    @staticmethod
    def corner(dims, want):
        """Slices of an array of shape dims which hold data of shape want, ignoring dimensions of one element"""
        e = [i for i, d in enumerate(dims) if d > 1]
        w = [d for d in want if d > 1]
        if len(e) != len(w) or any(dims[i] < k for i, k in zip(e, w)):
            return None
        sl = [slice(None)] * len(dims)
        for i, k in zip(e, w):
            sl[i] = slice(0, k)
        return tuple(sl)

    def do_write(self, op):
        f, ro = self.at(op)
        if f is None:
            return self.no_file(op)
        if ro:
            return BAD, []
        p = norm(op["path"])
        if p in f.groups:
            return SKIP, []
        t, L, dims = op["type"], op["len"], tuple(op["dims"])
        r = len(dims)
        d = f.dsets.get(p)
        sel = op.get("sel")
        if d is not None and op.get("over"):
            for k in [k for k in f.attrs if k[0] == p]:
                pass
            gone = True
        else:
            gone = False
        if d is None or gone:
            parts = p.split("/")
            for i in range(len(parts) - 1):
                if "/".join(parts[:i + 1]) in f.dsets:
                    return SKIP, []
            if r == 0 and (op.get("ext") or op.get("gzip") or sel or op.get("init")):
                return SKIP, []
            if sel and (len(sel[0]) < r):
                return BAD, []
            if op.get("init") is not None:
                if len(op["init"]) < r:
                    return BAD, []
                fd = tuple(op["init"][:r])
            elif sel:
                fd = tuple(s + c - 1 for s, c in zip(sel[0][:r], sel[1][:r]))
            else:
                fd = dims
            if op.get("chunk") and len(op["chunk"]) < r:
                return SKIP, []
            base = np.zeros(fd, dtype=dtype_of(t, L), order="F")
            known = np.zeros(fd, dtype=bool, order="F")
            fr, fL, ext, dtype = r, L, bool(op.get("ext")), None
        else:
            if d.t != t or (t == 5 and L > d.L):
                return BAD, []
            fr, fL, ext, dtype = d.a.ndim, d.L, d.ext, d.dtype
            if fr == 0:
                # HDF5 can't select part of a scalar; the wrapper asks for start and count all the same
                return SKIP, []
            if not sel:
                return BAD, []
            if len(sel[0]) < fr:
                return BAD, []
            fd = tuple(max(n, s + c - 1) for n, s, c in zip(d.a.shape, sel[0][:fr], sel[1][:fr]))
            if fd != d.a.shape and not ext:
                return BAD, []
            base = np.zeros(fd, dtype=d.a.dtype, order="F")
            base[tuple(slice(0, n) for n in d.a.shape)] = d.a
            known = np.zeros(fd, dtype=bool, order="F")
            known[tuple(slice(0, n) for n in d.a.shape)] = True if d.known is None else d.known
        if sel:
            start, count = tuple(sel[0][:fr]), tuple(sel[1][:fr])
        else:
            start, count = (1,) * fr, fd
        if any(s < 1 or s + c - 1 > n for s, c, n in zip(start, count, fd)):
            # partly outside the initial size: HDF5 refuses
            return BAD, []
        sl = self.corner(dims, count)
        if sl is None:
            return BAD, []
        if any(n == 0 for n in dims) != any(c == 0 for c in count):
            return SKIP, []
        a = data(t, L, dims, op["seed"])
        if a.size:
            part = a[sl].reshape(count, order="F")
            box = tuple(slice(s - 1, s - 1 + c) for s, c in zip(start, count))
            base[box] = part
            known[box] = True
        if gone:
            for k in [k for k in f.attrs if k[0] == p]:
                del f.attrs[k]
        self.mkgroups(f, p.split("/")[:-1])
        f.dsets[p] = DS(t, fL, base, ext, known, dtype)
        return OK, []

    def do_read(self, op):
        f, ro = self.at(op)
        if f is None:
            return self.no_file(op)
        p = norm(op["path"])
        d = f.dsets.get(p)
        if d is None:
            return BAD, []
        t, L, dims = op["type"], op["len"], tuple(op["dims"])
        if d.t != t or (t == 5 and L < d.L):
            return BAD, []
        sel = op.get("sel")
        if sel:
            if len(sel[0]) < d.a.ndim:
                return BAD, []
            start, count = tuple(sel[0][:d.a.ndim]), tuple(sel[1][:d.a.ndim])
            if d.a.ndim == 0:
                return SKIP, []
        else:
            start, count = (1,) * d.a.ndim, d.a.shape
        if any(s < 1 or s + c - 1 > n for s, c, n in zip(start, count, d.a.shape)):
            return BAD, []
        sl = self.corner(dims, count)
        if sl is None:
            return BAD, []
        if any(n == 0 for n in dims) != any(c == 0 for c in count):
            return SKIP, []
        a = data(t, L, dims, op["seed"]).copy(order="F")
        if a.size:
            box = tuple(slice(s - 1, s - 1 + c) for s, c in zip(start, count))
            a[sl] = d.a[box].reshape(a[sl].shape, order="F")
            if d.known is not None:
                known = np.ones(a.shape, dtype=bool, order="F")
                known[sl] = d.known[box].reshape(a[sl].shape, order="F")
                return OK, [("array", t, L, a, known)]
        return OK, [("array", t, L, a, None)]

    def parent(self, f, path):
        parts = path.split("/")
        return norm("/".join(parts[:-1])), parts[-1]

    def do_wattr(self, op):
        f, ro = self.at(op)
        if f is None:
            return self.no_file(op)
        if ro:
            return BAD, []
        p, n = self.parent(f, op["path"])
        if p not in f.groups and p not in f.dsets:
            return BAD, []
        if (p, n) in f.attrs and not op.get("over"):
            return BAD, []
        a = data(op["type"], op["len"], tuple(op["dims"]), op["seed"])
        f.attrs[(p, n)] = DS(op["type"], op["len"], a, False)
        return OK, []

    def do_rattr(self, op):
        f, ro = self.at(op)
        if f is None:
            return self.no_file(op)
        p, n = self.parent(f, op["path"])
        d = f.attrs.get((p, n))
        if d is None:
            return BAD, []
        dims = tuple(op["dims"])
        if d.t != op["type"] or (d.t == 5 and op["len"] < d.L):
            return SKIP, []
        if dims != d.a.shape and not (len(dims) == d.a.ndim == 1 and dims[0] >= d.a.shape[0]):
            return SKIP, []
        a = data(op["type"], op["len"], dims, op["seed"]).copy(order="F")
        if a.size:
            if a.ndim == 0:
                a = d.a.astype(a.dtype)
            else:
                a[tuple(slice(0, k) for k in d.a.shape)] = d.a
        return OK, [("array", op["type"], op["len"], a, None)]

    def find(self, f, path):
        p = norm(path)
        if p in f.dsets:
            return f.dsets[p]
        p, n = self.parent(f, path)
        return f.attrs.get((p, n))

    def do_dims(self, op):
        f, ro = self.at(op)
        if f is None:
            return self.no_file(op)
        d = self.find(f, op["path"])
        if d is None:
            return BAD, []
        return OK, [("dims", d.a.shape)]

    def do_type(self, op):
        f, ro = self.at(op)
        if f is None:
            return self.no_file(op)
        d = self.find(f, op["path"])
        if d is None:
            return BAD, []
        return OK, [("type", KIND[d.t], d.L if d.t == 5 else SIZE[d.t])]

    def children(self, op, which):
        f, ro = self.at(op)
        if f is None:
            return self.no_file(op)
        p = norm(op["path"])
        if which == "attrs":
            if p not in f.groups and p not in f.dsets:
                return BAD, []
            names = {n for q, n in f.attrs if q == p}
        else:
            if p not in f.groups:
                return BAD, []
            src = f.dsets if which == "dsets" else f.groups
            names = {q.rsplit("/", 1)[-1] for q in src if q and (q.rsplit("/", 1)[0] if "/" in q else "") == p}
        if any(len(n) > 64 for n in names):
            return SKIP, []
        return OK, [("names", sorted(names))]

    def do_ldsets(self, op):
        return self.children(op, "dsets")

    def do_lgroups(self, op):
        return self.children(op, "groups")

    def do_lattrs(self, op):
        return self.children(op, "attrs")


# ------------------------------------------------------------------ script
def pack(op, dirname):
    p = [0] * 64
    blob = b""
    name = op.get("path", "")
    kind = op["op"]
    if kind == "config":
        if op.get("auto") is False:
            p[0] = OPS["h5open"]
        else:
            p[0] = OPS["config"]
            p[45], p[46] = op["verbosity"], op["suppress"]
    elif kind in ("create", "open", "cycle"):
        name = os.path.join(dirname, op.get("prefix", "") + op["file"])
        p[0] = OPS[kind]
        if kind == "open":
            if op["ro"] is None:
                p[0] = OPS["open_default"]
            p[45] = 1 if op["ro"] else 0
        if kind == "cycle":
            p[45] = op["count"]
    else:
        p[0] = OPS[kind]
    p[1] = op.get("slot", 0) + 1
    if "type" in op and "dims" in op:
        dims = op["dims"]
        p[2], p[3], p[4] = op["type"], len(dims), op["len"]
        p[5:5 + len(dims)] = dims
        fl = 0
        n = 0
        sel = op.get("sel")
        if sel:
            fl |= F_SEL
            n = len(sel[0])
            p[15:15 + n] = sel[0]
            p[22:22 + n] = sel[1]
        if op.get("init") is not None:
            fl |= F_INIT
            n = max(n, len(op["init"]))
            p[29:29 + len(op["init"])] = op["init"]
        if op.get("chunk"):
            fl |= F_CHUNK
            n = max(n, len(op["chunk"]))
            p[36:36 + len(op["chunk"])] = op["chunk"]
        p[14] = n
        if op.get("ext") is not None:
            fl |= F_EXT | (F_EXT_VALUE if op["ext"] else 0)
        if op.get("over") is not None:
            fl |= F_OVER | (F_OVER_VALUE if op["over"] else 0)
        if op.get("gzip") is not None:
            fl |= F_GZIP
            p[13] = op["gzip"]
        p[12] = fl
        p[43] = 1 if op.get("strided") else 0
        a = data(op["type"], op["len"], tuple(dims), op["seed"])
        blob = a.tobytes(order="F")
    name = name.encode()
    p[44] = len(name)
    return struct.pack("<64q", *p) + struct.pack("<q", len(name)) + name + struct.pack("<q", len(blob)) + blob


def write_foreign(dirname, model, items):
    import h5py
    for x in items:
        f = model.files[x["file"]]
        with h5py.File(os.path.join(dirname, x["file"]), "a") as h:
            p = norm(x["path"])
            d = f.attrs[("", p)] if x["attr"] else f.dsets[p]
            a = np.ascontiguousarray(d.a.T) if d.a.ndim else d.a
            if d.t != 5:
                a = a.astype(d.dtype)
            if x["attr"]:
                h.attrs.create(p, a, dtype=d.dtype)
            elif x["chunked"] and a.ndim:
                h.create_dataset(p, data=a, dtype=d.dtype, chunks=tuple(max(1, n // 2) for n in a.shape), maxshape=(None,) * a.ndim, compression="gzip", shuffle=True)
            else:
                h.create_dataset(p, data=a, dtype=d.dtype)


def parse_results(raw):
    res, pos = {}, 0
    done = -1
    while pos + 24 <= len(raw):
        op, kind, n = struct.unpack_from("<3q", raw, pos)
        pos += 24
        if kind == 0:
            done = op
        else:
            res.setdefault(op, []).append(raw[pos:pos + n])
        pos += n
    return done, res


def compare_file(path, f, skip=()):
    """Differences between a file and what should be in it"""
    import h5py
    try:
        h = h5py.File(path, "r")
    except Exception as e:
        return "the file can't be opened: %s" % e
    with h:
        groups, dsets = {""}, {}
        def visit(name, obj):
            if isinstance(obj, h5py.Group):
                groups.add(name)
            else:
                dsets[name] = obj
        h.visititems(visit)
        def hidden(n):
            return any(n == s or n.startswith(s + "/") or s.startswith(n + "/") for s in skip)
        for n in sorted(set(f.groups) ^ groups):
            if not hidden(n):
                return "group %s %s" % (n, "is missing" if n in f.groups else "was never created")
        for n in sorted(set(f.dsets) ^ set(dsets)):
            if not hidden(n):
                return "dataset %s %s" % (n, "is missing" if n in f.dsets else "was never written")
        for n, d in f.dsets.items():
            if hidden(n):
                continue
            x = dsets[n]
            try:
                a = np.asarray(x[()])
            except Exception as e:
                return "dataset %s can't be read: %s" % (n, e)
            a = a.T
            w = check_value("dataset " + n, a, d, x.dtype)
            if w:
                return w
            if bool(x.maxshape and any(m is None for m in x.maxshape)) != (d.ext and d.a.ndim > 0):
                return "dataset %s %s" % (n, "should be extensible" if d.ext else "should not be extensible")
        for (p, n), d in f.attrs.items():
            if hidden(p):
                continue
            o = h[p] if p else h
            if n not in o.attrs:
                return "attribute %s of %s is missing" % (n, p)
            try:
                dt = h5py.h5a.open(o.id, n.encode()).dtype
                a = np.asarray(o.attrs[n])
            except Exception as e:
                return "attribute %s of %s can't be read: %s" % (n, p, e)
            if d.t == 5:
                a = np.array([x if isinstance(x, bytes) else str(x).encode() for x in a.ravel()], dtype=object).reshape(a.shape)
            w = check_value("attribute %s of %s" % (n, p), a.T, d, dt)
            if w:
                return w
        for p in list(f.groups) + list(f.dsets):
            if hidden(p):
                continue
            o = h[p] if p else h
            for n in o.attrs:
                if (p, n) not in f.attrs:
                    return "attribute %s of %s was never written" % (n, p)
    return None


def check_value(what, a, d, dt):
    if a.shape != d.a.shape:
        return "%s has dimensions %s, written as %s" % (what, a.shape, d.a.shape)
    if d.t == 5:
        if a.dtype.kind not in "SO" and a.size:
            return "%s has type %s" % (what, a.dtype)
    elif dt != d.dtype:
        return "%s has type %s, written as %s" % (what, dt, d.dtype)
    else:
        a = a.astype(d.a.dtype)
    if not same(a, d.a, d.known):
        return "%s is %s, written as %s" % (what, brief(a), brief(d.a))
    return None


def brief(a):
    return repr(a.ravel(order="F")[:8].tolist()) + ("..." if a.size > 8 else "")


# ------------------------------------------------------------------ build
def tree_key():
    h = hashlib.blake2b(digest_size=12)
    base = os.path.join(REPO, SRC)
    for d, dirs, files in sorted(os.walk(base)):
        dirs.sort()
        for n in sorted(files):
            p = os.path.join(d, n)
            h.update(os.path.relpath(p, base).encode() + b"\0")
            with open(p, "rb") as f:
                h.update(f.read())
    for p in (os.path.join(VERIF, "dst/native/vfs.c"), os.path.join(VERIF, "checks/c20_driver.py")):
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def run_tool(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, stdin=subprocess.DEVNULL, timeout=600, **kw)
    if r.returncode:
        raise HarnessError("%s failed:\n%s" % (" ".join(cmd[:3]), r.stdout[-3000:]))
    return r.stdout


def build():
    """The driver program, linked with the wrapper of the tree under test; returns its path"""
    out = os.path.join(VERIF, "build", "c20-" + tree_key())
    exe = os.path.join(out, "driver")
    if os.path.exists(exe):
        return exe
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="c20-build-", dir=os.path.join(VERIF, "build"))
    try:
        e = dict(os.environ, CC="/usr/bin/gcc", FC="/usr/bin/gfortran", FFLAGS="-fallow-argument-mismatch -w")
        b = os.path.join(tmp, "w")
        src = os.path.join(tmp, "src")
        shutil.copytree(os.path.join(REPO, SRC), src)
        run_tool(["cmake", "-Wno-dev", "-Wno-deprecated", "-S", src, "-B", b, "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_LIBRARY_PATH=" + LIBDIR], env=e)
        run_tool(["make", "-C", b, "hdfwrapper"], env=e)
        with open(os.path.join(tmp, "driver.f90"), "w") as f:
            f.write(drv.source())
        run_tool(["gcc", "-O1", "-g", "-c", os.path.join(VERIF, "dst/native/vfs.c"), "-o", os.path.join(tmp, "vfs.o")])
        final = os.path.join(tmp, "out")
        os.makedirs(final)
        shutil.copy(os.path.join(b, "lib", "libhdfwrapper.so"), final)
        run_tool(["gfortran", "-O0", "-g", "-std=legacy", "-w", "-fallow-argument-mismatch", "-ffree-line-length-none", "-I" + os.path.join(b, "include"), "-I" + INCDIR,
                  "-J" + tmp, os.path.join(tmp, "driver.f90"), os.path.join(tmp, "vfs.o"), "-o", os.path.join(final, "driver"), "-rdynamic",
                  "-L" + final, "-lhdfwrapper", "-L" + LIBDIR, "-lhdf5_fortran", "-lhdf5", "-Wl,-rpath,$ORIGIN"])
        try:
            os.rename(final, out)
        except OSError:
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


# ------------------------------------------------------------------ the check
FILES = ["a.hdf5", "b.hdf5", "c.hdf5"]
DSETS = ["D1", "D2", "/D3", "G1/D1", "/G1/D4", "G1/G2/D5", "G3/D6", "/D1", "G1/D4"]
GROUPS = ["G1", "G3", "/G1", "G1/G2", "G4/G5/G6", "/G1/G2/", "G7"]
ATTRS = ["A1", "A2", "A3"]


class C20(Check):
    prop = "C20"
    standalone = True
    quick_runs = 12000
    quick_s = 60
    rule = ("the jobs performed at least one write or read through the wrapper")
    real = ("fortran/hdf5_wrapper/src (built with gfortran and gcc from the tree under test)", "the HDF5 library and its Fortran interface", "the file system (a scratch directory)")
    stubs = ("open, read, write, truncate, close and stat system calls on the files: dst/native/vfs.c counts them and injects failures", "clock")
    faults_possible = ["%s:%s" % (s, e) for s in SITES for e in sorted(set(SITE_ERR[s]))] + ["read:short", "write:short"] + ["%s:kill" % s for s in SITES]
    assumptions = ["the HDF5 library reports a failed system call to its caller sooner or later (it does: at the latest when the file is closed)",
                   "files which a killed or failed process had open for writing are lost"]

    def prepare(self):
        self.exe = build()

    # ---------------------------------------------------------------- generation
    def gen(self, rng, tier):
        m = Model()
        jobs = []
        big = rng.random() < 0.15
        foreign = []
        if rng.random() < 0.2:
            used = set()
            for _ in range(rng.randint(1, 5)):
                attr = rng.random() < 0.3
                t = rng.choice([1, 2, 3, 4, 5, rng.choice([1, 2, 3, 4, 5, 6])])
                x = dict(file=rng.choice(FILES), attr=attr, path=rng.choice(ATTRS) if attr else rng.choice(DSETS), type=t, len=rng.choice([1, 3, 8, 20]) if t == 5 else 0,
                         dims=self.gen_dims(rng, big and not attr, False), big=rng.random() < 0.5, chunked=rng.random() < 0.4, seed=rng.randrange(1 << 30))
                if (x["file"], norm(x["path"])) not in used:
                    used.add((x["file"], norm(x["path"])))
                    foreign.append(x)
            m.foreign(foreign)
        for j in range(rng.choice([1, 1, 2, 3])):
            ops = []
            # the plan is made as if nothing fails; what does not apply any more is left out when it is played
            m.slots, m.used = {}, set()
            if rng.random() < 0.15:
                ops.append(dict(op="config", verbosity=rng.choice([0, 1, 2]), suppress=rng.choice([0, 1])))
            if rng.random() < 0.05:
                ops.append(dict(op="config", auto=False))
            n = rng.choice([3, 6, 12, 25, 40])
            hist = []
            while len(ops) < n:
                op = self.gen_op(rng, m, big, hist)
                if op is None:
                    continue
                trial = m.copy()
                v, _ = trial.step(op)
                wrong = op.pop("wrong", False)
                if v == SKIP or (v == BAD and rng.random() < (0.3 if wrong else 0.97)):
                    continue
                ops.append(op)
                hist.append(op)
                if v == BAD:
                    break
                m.files, m.slots, m.used = trial.files, trial.slots, trial.used
            order = sorted(m.slots)
            rng.shuffle(order)
            for s in order:
                ops.append(dict(op="close", slot=s))
                m.slots.pop(s)
            faults = []
            if rng.random() < 0.6:
                for _ in range(rng.choice([1, 1, 1, 2])):
                    site = rng.choice(["write"] * 5 + ["read"] * 2 + ["open", "truncate", "close", "stat"])
                    k = rng.choice(["error"] * 6 + ["kill"] + (["short"] * 3 if site in ("read", "write") else []))
                    op = rng.choice([0, rng.randrange(len(ops)), rng.randrange(len(ops)), max(0, len(ops) - 1 - rng.randrange(4))])
                    e = rng.choice(SITE_ERR[site])
                    faults.append(dict(site=site, op=op, nth=rng.choice([0, 0, 0, 1, 2, 3, rng.randrange(12)]), kind=k, err=e,
                                       repeat={"kill": 1, "short": rng.choice([1, 1, 3, 30])}.get(k) or rng.choice([1, 1, 1, 3, 10 ** 6]), frac=rng.choice([0, 1, 500, 999])))
            jobs.append(dict(ops=ops, faults=faults))
        return dict(jobs=jobs, foreign=foreign, seed=rng.randrange(1 << 30))

    def gen_dims(self, rng, big, zero=True):
        r = rng.choice([0, 1, 1, 1, 2, 2, 3, rng.randrange(8)])
        if big and r == 1 and rng.random() < 0.5:
            return [rng.choice([3000, 20000, 70000, 8192, 8193])]
        if big and r == 2 and rng.random() < 0.3:
            return [rng.choice([3, 300, 1000]), rng.choice([3, 100, 200])]
        d = [rng.choice([1, 2, 2, 3, 4, 5, 7, 10] if r < 4 else [1, 1, 2, 3]) for _ in range(r)]
        if zero and r and rng.random() < 0.06:
            d[rng.randrange(r)] = 0
        return d

    def array_for(self, rng, count):
        """Shape of an array in memory for data of this shape"""
        d = list(count)
        if rng.random() < 0.3:
            # without some of the dimensions of one element, or with others
            d = [x for x in d if x != 1 or rng.random() < 0.5]
            while len(d) < 7 and rng.random() < 0.3:
                d.insert(rng.randrange(len(d) + 1), 1)
        if rng.random() < 0.25 and 0 not in d:
            d = [x + rng.choice([0, 0, 1, 3]) if x > 1 else x for x in d]
        return d

    def gen_sel(self, rng, shape, beyond):
        start, count = [], []
        for n in shape:
            r = rng.random()
            if r < 0.3:
                s, c = 1, n
            elif beyond and r < 0.6:
                s = n + 1 if rng.random() < 0.6 else max(1, rng.randint(1, n + 3))
                c = rng.choice([1, 2, 3, 5])
            else:
                s = rng.randint(1, max(1, n))
                c = rng.randint(1, max(1, n - s + 1)) if n else 0
            start.append(s)
            count.append(c)
        if rng.random() < 0.1 and len(start) < 7:
            # more elements than the rank: ignored
            start.append(rng.randint(1, 3))
            count.append(rng.randint(1, 3))
        return [start, count]

    def gen_op(self, rng, m, big, hist):
        free = [s for s in range(6) if s not in m.slots]
        r = rng.random()
        if free and (r < 0.001 or (not m.slots and r < 0.03)):
            x = dict(slot=rng.choice(free), wrong=True)
            k = rng.choice(["close", "read", "write", "dims", "type", "group", "ldsets", "lgroups", "lattrs", "wattr", "rattr"])
            if k == "close":
                return dict(x, op=k)
            x.update(op=k, path=rng.choice(DSETS) if k in ("read", "write", "dims", "type") else rng.choice(GROUPS) if k == "group" else "/A" if "w" in k or k == "rattr" else "/")
            if k in ("read", "write", "wattr", "rattr"):
                x.update(type=rng.choice([1, 2, 3, 4]), len=0, dims=rng.choice([[1], [3], [2, 2]]), seed=rng.randrange(1 << 30))
            return x
        if not m.slots or (r < 0.08 and free):
            f = rng.choice(FILES)
            if free and rng.random() < 0.002:
                return dict(op="cycle", slot=rng.choice(free), file=f, count=rng.choice([30, 1020]))
            pre = rng.choice(["", "", "", "./", ".//"])
            if f not in m.files or (rng.random() < 0.15 and not m.handles(f)):
                if rng.random() < 0.02:
                    return dict(op="open", slot=rng.choice(free), file=f, ro=rng.choice([True, False]), prefix=pre)
                return dict(op="create", slot=rng.choice(free), file=f, prefix=pre)
            return dict(op="open", slot=rng.choice(free), file=f, ro=rng.choice([True, False, False, None, None]), prefix=pre)
        slot = rng.choice(sorted(m.slots))
        if r < 0.14:
            return dict(op="close", slot=slot)
        f, ro = m.at(dict(slot=slot))
        if ro and rng.random() < 0.5:
            rw = [s for s in m.slots if not m.slots[s][1]]
            if rw:
                slot = rng.choice(rw)
                f, ro = m.at(dict(slot=slot))
        seed = rng.randrange(1 << 30)
        # the same object again, often
        recent = [h for h in hist[-6:] if "path" in h and h["op"] in ("write", "read")]
        def pick_dset(existing):
            if recent and rng.random() < 0.5:
                p = rng.choice(recent)["path"]
                if not existing or norm(p) in f.dsets:
                    return p
            if existing:
                if not f.dsets:
                    return None
                p = rng.choice(sorted(f.dsets))
                return p if rng.random() < 0.8 else "/" + p
            p = rng.choice(DSETS)
            if rng.random() < 0.01:
                p = "/".join("G%d" % i for i in range(12)) + "/D"
            if rng.random() < 0.01:
                p = "G" + "x" * rng.choice([100, 198, 255, 260]) + "/D1"
            return p
        if r < 0.45:
            p = pick_dset(rng.random() < 0.4 and bool(f.dsets))
            if p is None:
                return None
            d = f.dsets.get(norm(p))
            t = rng.choice([1, 2, 3, 4, 5])
            op = dict(op="write", slot=slot, path=p, type=t, len=rng.choice([1, 3, 8, 20]) if t == 5 else 0, seed=seed)
            if rng.random() < 0.2:
                op["strided"] = True
            if rng.random() < 0.1:
                op["gzip"] = rng.choice([0, 1, 5, 9, 11, 16])
            if rng.random() < 0.1:
                op["over"] = rng.choice([True, False])
            if d is not None and rng.random() < 0.75:
                if rng.random() < 0.3:
                    op["over"] = True
                else:
                    op["type"], op["len"] = d.t if d.t != 6 else 1, d.L if rng.random() < 0.7 else max(1, d.L - 1)
                    if d.t != 5:
                        op["len"] = 0
                    if d.t < 5 and rng.random() < 0.02:
                        # the same kind of number, of the other size; now and then another kind
                        op["type"] = {1: 2, 2: 1, 3: 4, 4: 3}[d.t] if rng.random() < 0.7 else rng.choice([t for t in (1, 2, 3, 4) if t != d.t])
                        op["wrong"] = True
                    op["sel"] = self.gen_sel(rng, d.a.shape, d.ext or rng.random() < 0.02)
                    op["dims"] = self.array_for(rng, op["sel"][1][:d.a.ndim])
                    if rng.random() < 0.02 and max(op["dims"], default=0) > 2:
                        # less data than it says
                        i = rng.choice([i for i, n in enumerate(op["dims"]) if n > 2])
                        op["dims"][i] = min(op["dims"][i], max(op["sel"][1])) - 1
                        op["wrong"] = True
                    if rng.random() < 0.3:
                        op["ext"] = rng.choice([True, False])
                    return op
            dims = self.gen_dims(rng, big)
            op["dims"] = dims
            if rng.random() < 0.3:
                op["ext"] = rng.random() < 0.8
            if rng.random() < 0.1:
                op["chunk"] = [max(n // 20, rng.choice([1, 2, 3, 100])) for n in dims]
            x = rng.random()
            if x < 0.25 and dims:
                op["init"] = [n + rng.choice([0, 1, 4]) for n in dims]
                if op.get("ext") and rng.random() < 0.15:
                    op["init"][rng.randrange(len(dims))] = 0
                op["sel"] = self.gen_sel(rng, op["init"], False)
                op["dims"] = self.array_for(rng, op["sel"][1][:len(dims)])
                if len(op["dims"]) != len(dims):
                    op["dims"] = op["sel"][1][:len(dims)]
            elif x < 0.4 and dims:
                op["sel"] = [[rng.randint(1, 3) for _ in dims], list(dims)]
            if not op["dims"]:
                op.pop("ext", None), op.pop("gzip", None)
            return op
        if r < 0.7:
            p = pick_dset(rng.random() < 0.99)
            if p is None:
                return None
            d = f.dsets.get(norm(p))
            op = dict(op="read", slot=slot, path=p, type=1, len=0, dims=[1], seed=seed)
            if d is None:
                return op
            op["type"] = d.t if rng.random() < 0.99 and d.t != 6 else rng.choice([1, 2, 3, 4])
            op["len"] = d.L + rng.choice([0, 0, 1, 5]) if d.t == 5 else 0
            if op["type"] == 5 and not op["len"]:
                op["len"] = 3
            count = list(d.a.shape)
            if rng.random() < 0.4 and d.a.ndim:
                op["sel"] = self.gen_sel(rng, d.a.shape, rng.random() < 0.01)
                count = op["sel"][1][:d.a.ndim]
            op["dims"] = self.array_for(rng, count)
            if rng.random() < 0.2:
                op["strided"] = True
            if rng.random() < 0.02 and op["dims"]:
                # an array which can't hold the data, or which is of another type
                op["wrong"] = True
                i = rng.randrange(len(op["dims"]))
                x = rng.random()
                if x < 0.3 and d.t < 5:
                    op["type"] = rng.choice([1, 2, 3, 4])
                elif x < 0.6:
                    op["dims"][i] = max(1, op["dims"][i] - 1)
                elif x < 0.8 and len(op["dims"]) < 7:
                    op["dims"].insert(i, 2)
                else:
                    del op["dims"][i]
            return op
        if r < 0.76:
            kind = rng.choice(["dims", "type"])
            known = sorted(f.dsets) + [(p or "/") + "/" + n for p, n in sorted(f.attrs)]
            if not known:
                return None
            p = rng.choice(known)
            return dict(op=kind, slot=slot, path=p if rng.random() < 0.8 or p[0] == "/" else "/" + p)
        if r < 0.8:
            return dict(op="group", slot=slot, path=rng.choice(GROUPS) if rng.random() < 0.97 else "/".join("G%d" % i for i in range(12)))
        if r < 0.86:
            kind = rng.choice(["ldsets", "lgroups", "lattrs"])
            pool = sorted(f.groups) + (sorted(f.dsets) if kind == "lattrs" else [])
            p = rng.choice(pool)
            return dict(op=kind, slot=slot, path=p or "/")
        # attributes
        if rng.random() < 0.6:
            pool = sorted(f.groups) + sorted(f.dsets)
            p = rng.choice(pool)
            n = rng.choice(ATTRS)
            t = rng.choice([1, 2, 3, 4, 5])
            return dict(op="wattr", slot=slot, path=(p if rng.random() < 0.8 else "/" + p) + "/" + n if p else "//" + n, type=t, len=rng.choice([1, 3, 8, 20]) if t == 5 else 0,
                        dims=[x for x in self.gen_dims(rng, False, False)], over=rng.choice([None, True, True, False]), strided=rng.random() < 0.2, seed=seed)
        if not f.attrs:
            return None
        p, n = rng.choice(sorted(f.attrs))
        d = f.attrs[(p, n)]
        dims = list(d.a.shape)
        if len(dims) == 1 and rng.random() < 0.2:
            dims[0] += rng.choice([1, 4])
        if d.t == 6:
            return None
        return dict(op="rattr", slot=slot, path=(p or "/") + "/" + n, type=d.t, len=d.L + rng.choice([0, 2]) if d.t == 5 else 0, dims=dims, strided=rng.random() < 0.2, seed=seed)

    # ---------------------------------------------------------------- run
    def execute(self, case, log=False):
        h = hashlib.blake2b(digest_size=12)
        events = []
        info = dict(steps=0, clock=0.0, faults={}, probes={}, counts={}, trace=[], nontrivial=False)
        with env.rundir() as d:
            os.mkdir(d + "/data")
            m = Model()
            m.foreign(case.get("foreign", []))
            write_foreign(d + "/data", m, case.get("foreign", []))
            try:
                for j, job in enumerate(case["jobs"]):
                    self.play(j, job, m, d, h, events, info)
            except Violation as v:
                v.info = dict(digest=h.hexdigest(), trace=[], log=events)
                raise
        info["digest"] = h.hexdigest()
        if log:
            info["log"] = events
        return info

    def run_driver(self, d, script):
        with open(d + "/script", "wb") as f:
            f.write(script)
        e = dict(C20_SCRIPT=d + "/script", C20_RESULT=d + "/result", C20_LOG=d + "/log", C20_DIR=d + "/data", HDF5_USE_FILE_LOCKING="FALSE", PATH="/usr/bin:/bin",
                 GFORTRAN_ERROR_BACKTRACE="0", MALLOC_PERTURB_="165")
        def limits():
            resource.setrlimit(resource.RLIMIT_CPU, (30, 31))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        with open(d + "/stdout", "wb") as o, open(d + "/stderr", "wb") as x:
            p = subprocess.Popen([self.exe], env=e, stdin=subprocess.DEVNULL, stdout=o, stderr=x, cwd=d, preexec_fn=limits)
            rc = p.wait()
        def get(n):
            with open(d + "/" + n, "rb") as f:
                return f.read()
        return rc, get("stdout").decode("latin1"), get("stderr").decode("latin1"), get("result"), get("log").decode("latin1")

    def play(self, j, job, m, d, h, events, info):
        m.slots, m.used = {}, set()
        # what applies, and what it should return
        ops, wants, before = [], [], []
        bad = None
        own_h5 = False
        for number, op in enumerate(job["ops"]):
            b = m.copy()
            v, want = m.step(op)
            if v == SKIP:
                m.files, m.slots = b.files, b.slots
                continue
            if op["op"] == "config" and op.get("auto") is False:
                if own_h5 or any(o["op"] != "config" for i, o in ops):
                    continue
                own_h5 = True
            ops.append((number, op))
            wants.append(want)
            before.append(b)
            if v == BAD:
                bad = len(ops) - 1
                m.files, m.slots = b.files, b.slots
                break
        if bad is None:
            for s in sorted(m.slots):
                op = dict(op="close", slot=s)
                before.append(m.copy())
                m.step(op)
                ops.append((len(job["ops"]), op))
                wants.append([])
        index = [i for i, o in ops]
        faults = []
        for f in job["faults"]:
            k = sum(1 for i in index if i < f["op"])
            faults.append((SITES.index(f["site"]), k, f["nth"], KINDS[f["kind"]], ERR[f["err"]], f["repeat"], f["frac"]))
        script = struct.pack("<q", len(faults)) + b"".join(struct.pack("<6q", *([f[0], f[1]] + list(f[2:6]))) + struct.pack("<q", f[6]) for f in faults)
        script += b"".join(pack(o, d + "/data") for i, o in ops)
        rc, out, err, raw, lg = self.run_driver(d, script)
        h.update(("job %d %d\n" % (j, rc)).encode() + lg.encode() + raw)
        hits = 0
        for line in lg.splitlines():
            events.append("job %d: %s" % (j, line))
            info["steps"] += 1
            w = line.split()
            if w[0] == "fault":
                hits += 1
                f = job["faults"][int(w[1])]
                k = "%s:%s" % (f["site"], f["err"] if f["kind"] == "error" else f["kind"])
                info["faults"][k] = info["faults"].get(k, 0) + 1
            elif w[0].isdigit():
                info["counts"]["io." + w[1]] = info["counts"].get("io." + w[1], 0) + 1
        info["clock"] += 0.001 * len(lg.splitlines())
        done, res = parse_results(raw)
        for i in range(done + 1):
            k = ops[i][1]["op"]
            info["counts"][k] = info["counts"].get(k, 0) + 1
            if k in ("read", "write"):
                info["nontrivial"] = True
        if "error stack" not in err and err and log_stderr:
            events.append("stderr: " + err[-500:])

        def fail(cls, msg, i=None):
            raise Violation(cls, "job %d%s: %s\n%s" % (j, "" if i is None else " operation %d %s" % (i, json.dumps(ops[i][1])), msg, (out + err)[-1500:] if cls.startswith("stop") or "silent" in cls or "crash" in cls else ""))

        # whatever was returned is right, failures or not
        for i in range(done + 1):
            if bad is not None and i == bad:
                fail("accepted", "this must end with an error", i)
            self.check_outputs(i, ops[i][1], wants[i], res.get(i, []), fail)
        finished = "***Finished" in out
        aborted = "***Abort" in out
        at = done + 1                # the operation it did not get past
        state = "?"
        if rc == 98:
            state = "killed"
        elif rc == 97 or rc == -signal.SIGXCPU or rc == -signal.SIGKILL:
            fail("livelock", "does not end%s" % (" after an I/O failure" if hits else ""), min(at, len(ops) - 1))
        elif rc in (95, 96):
            raise HarnessError("driver: exit code %d" % rc)
        elif rc == 0 and finished and not aborted and at == len(ops):
            state = "finished"
        elif aborted and rc >= 0:
            state = "aborted"
            if not hits and at != bad:
                fail("stopped", "stops with an error, although nothing failed", min(at, len(ops) - 1))
        elif rc != 0:
            state = "crashed"
            if not hits and at != bad:
                fail("crash", "ends with %s" % ("signal %d" % -rc if rc < 0 else "exit code %d" % rc), min(at, len(ops) - 1))
            if not hits and at == bad:
                fail("crash", "ends with %s instead of an error message" % ("signal %d" % -rc if rc < 0 else "exit code %d" % rc), min(at, len(ops) - 1))
        else:
            fail("silent stop", "ends without an error message", min(at, len(ops) - 1))
        h.update(state.encode())
        events.append("job %d: %s at operation %d" % (j, state, at))
        info["probes"][state] = info["probes"].get(state, 0) + 1
        info["probes"][state + (" with faults" if hits else " without faults")] = info["probes"].get(state + (" with faults" if hits else " without faults"), 0) + 1

        if state != "finished":
            b = before[at] if at < len(before) else m
            m.files = {k: f.copy() for k, f in b.files.items()}
            m.slots = dict(b.slots)
            op = ops[at][1] if at < len(ops) else dict(op="close", slot=-1)
            open_rw = {n for n, ro in m.slots.values()}
            open_rw = {n for n in open_rw if any(not m.slots[s][1] for s in m.handles(n))}
            if op["op"] in ("create",):
                open_rw.add(op["file"])
                m.files.setdefault(op["file"], File())
            if op["op"] == "open" and not op["ro"] and op["file"] in m.files:
                open_rw.add(op["file"])
            for n in sorted(open_rw):
                f = m.files.get(n)
                if f is None:
                    continue
                if state == "aborted" and not hits and f.known and op["op"] not in ("create",):
                    skip = [norm(op["path"])] if "path" in op else []
                    if op["op"] == "wattr":
                        skip = [norm(op["path"]).rsplit("/", 1)[0]] if "/" in norm(op["path"]) else [""]
                        if skip == [""]:
                            f.known = False
                            continue
                    w = compare_file(d + "/data/" + n, f, skip)
                    if w:
                        fail("lost", "after a usage error ended the program, %s: %s" % (n, w), min(at, len(ops) - 1))
                f.known = False
        for n, f in sorted(m.files.items()):
            if not f.known:
                continue
            w = compare_file(d + "/data/" + n, f)
            if w:
                if state == "finished":
                    fail("wrong file" if not hits else "silent loss", "the program ended normally%s, but in %s %s" % (" although %d system call(s) failed" % hits if hits else "", n, w))
                fail("lost", "%s was closed (or not open for writing) when the program ended, but %s" % (n, w))
        for n in os.listdir(d + "/data"):
            if n not in m.files:
                fail("stray file", "there is a file %s" % n)

    def check_outputs(self, i, op, want, got, fail):
        for k, w in enumerate(want):
            if w[0] == "array":
                _, t, L, a, known = w
                x = np.frombuffer(got[0], dtype=dtype_of(t, L)).reshape(a.shape, order="F")
                if not same(x, a, known):
                    fail("wrong data", "returns %s, should be %s" % (brief(x), brief(a)), i)
            elif w[0] == "dims":
                x = np.frombuffer(got[0], dtype="<i4")
                if x[15] != len(w[1]) or tuple(x[:len(w[1])]) != tuple(w[1]) or any(v != -1 for v in x[len(w[1]):15]):
                    fail("wrong dimensions", "returns rank %d, dimensions %s, should be %s" % (x[15], x[:max(0, min(15, x[15]))].tolist(), w[1]), i)
            elif w[0] == "type":
                s = got[0].decode("latin1").strip()
                n = np.frombuffer(got[1], dtype="<i4")[0]
                ok = s == w[1] or (w[1] == "CHARACTER" and s == "STRING")
                if not ok or n != w[2]:
                    fail("wrong type", "returns %s of size %d, should be %s of size %d" % (s, n, w[1], w[2]), i)
            elif w[0] == "names":
                n = np.frombuffer(got[0], dtype="<i4")[0]
                names = [got[1][q:q + 64].decode("latin1").rstrip() for q in range(0, len(got[1]), 64)]
                if n != len(w[1]) or sorted(names) != list(w[1]):
                    fail("wrong names", "returns %d: %s, should be %s" % (n, names, w[1]), i)

    # ---------------------------------------------------------------- shrink
    def shrink(self, case):
        js = case["jobs"]
        for j in range(len(case.get("foreign", []))):
            c = copy.deepcopy(case)
            del c["foreign"][j]
            yield c
        for j in range(len(js)):
            if len(js) > 1:
                c = copy.deepcopy(case)
                del c["jobs"][j]
                yield c
        for j, job in enumerate(js):
            for k in range(len(job["faults"])):
                c = copy.deepcopy(case)
                del c["jobs"][j]["faults"][k]
                yield c
        def drop(c, j, k, n):
            ops = c["jobs"][j]["ops"]
            del ops[k:k + n]
            for f in c["jobs"][j]["faults"]:
                if f["op"] >= k + n:
                    f["op"] -= n
                elif f["op"] > k:
                    f["op"] = k
        for j, job in enumerate(js):
            n = len(job["ops"])
            size = max(1, n // 2)
            while True:
                for k in range(0, n, size):
                    c = copy.deepcopy(case)
                    drop(c, j, k, size)
                    yield c
                if size == 1:
                    break
                size //= 2
        for j, job in enumerate(js):
            for k, op in enumerate(job["ops"]):
                for key in ("strided", "gzip", "chunk", "ext", "over", "init", "prefix"):
                    if op.get(key):
                        c = copy.deepcopy(case)
                        del c["jobs"][j]["ops"][k][key]
                        yield c
                if "dims" in op and not op.get("sel") and not op.get("init"):
                    for q, x in enumerate(op["dims"]):
                        if x > 2:
                            c = copy.deepcopy(case)
                            c["jobs"][j]["ops"][k]["dims"][q] = 2
                            yield c
            for k, f in enumerate(job["faults"]):
                for key, v in (("nth", 0), ("repeat", 1), ("frac", 0)):
                    if f[key] != v:
                        c = copy.deepcopy(case)
                        c["jobs"][j]["faults"][k][key] = v
                        yield c


log_stderr = False
CHECK = C20()
