"""Shared parts of the checks which run on simulated parallel HDF5"""
import contextlib
import os

import h5py

from .common import *

H5_REAL = ["virgo.mpi.parallel_hdf5", "virgo.mpi.util", "numpy", "h5py", "HDF5 library (files on a memory file system)"]
H5_STUB = ["mpi4py.MPI (simulated)", "parallel HDF5: mpio driver and its collective calls (dst/h5.py, on top of ordinary HDF5 files)",
           "file locks between ranks", "time", "numpy allocator (poisoned)"]
H5_FAULTS = MPI_FAULTS[:4] + ["collective left before all arrived", "collective transfer done early or late"]

TYPES = dict(f8="<f8", f4="<f4", i4="<i4", i8="<i8", u1="u1", i2="<i2", u8="<u8", b1="?", S5="S5", be_f4=">f4", be_i8=">i8",
             comp=[("a", "<i4"), ("b", "<f8")], f2="<f2")
SIMPLE = ["f8", "f4", "i4", "i8", "u1", "i2", "u8"]
ODD = ["b1", "S5", "comp", "be_f4", "be_i8", "f2"]


def dt(name):
    return np.dtype(TYPES[name])


def make(name, ids, tail=(), salt=0):
    """Array with a recognisable row for every id"""
    ids = np.asarray(ids, dtype=np.int64)
    t = tuple(tail)
    m = int(np.prod(t, dtype=int))
    v = (ids[:, None] * 7 + np.arange(m)[None, :] * 3 + salt * 11 + 1).reshape((len(ids),) + t)
    d = dt(name)
    if d.names:
        r = np.zeros(v.shape, dtype=d)
        r["a"] = v
        r["b"] = v * 0.5
        return r
    if d.kind == "S":
        return (v % 99999).astype("U5").astype(d).reshape(v.shape)
    if d.kind == "b":
        return ((v * 2654435761) >> 7) % 2 == 1
    if d.kind in "iu" and d.itemsize < 4:
        return (v % 120).astype(d)
    if d == np.dtype("f2"):
        return (v % 2000).astype(d)
    return v.astype(d)


def equal(a, b):
    """Same type up to byte order, shape and content"""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype.newbyteorder("=") == b.dtype.newbyteorder("=") and bool(np.array_equal(a, b))


@contextlib.contextmanager
def hdf5_version(case):
    """Under HDF5 1.12 or newer the code writes compressed data in parallel, under older versions it does not"""
    old = h5py.version.hdf5_version_tuple
    try:
        h5py.version.hdf5_version_tuple = tuple(case.get("hdf5") or old)
        yield
    finally:
        h5py.version.hdf5_version_tuple = old


def write_options(opts):
    """Arguments of a write: the property list is made from what the case says about it"""
    res = dict(opts)
    if "dcpl" in res:
        res["dcpl"] = h5py.h5p.create(h5py.h5p.DATASET_CREATE)
        res["dcpl"].set_fill_time(opts["dcpl"])
    return res


def check_storage(ds, case, opts):
    """Is a dataset stored the way it was asked for?"""
    want = (None, None, False)
    if h5py.version.hdf5_version_tuple >= (1, 12, 0) and ds.size:
        want = ("gzip" if "gzip" in opts else None, opts.get("gzip"), bool(opts.get("shuffle")))
    if "dcpl" in opts and ds.size:
        a = ds.id.get_create_plist().get_fill_time()
        if a != opts["dcpl"]:
            raise Violation("storage", "%s was asked for with fill time %s, has %s" % (ds.name, opts["dcpl"], a))
    got = (ds.compression, ds.compression_opts, ds.shuffle)
    if got != want:
        raise Violation("storage", "%s written with options %s under HDF5 %s has compression %s, level %s, shuffle %s" % ((ds.name, opts, h5py.version.hdf5_version_tuple) + got))


# ------------------------------------------------------------------ sets of files
ATTRS = [dict(unit="cm"), dict(CGSFactor=3.08e24, aexp=-1.0), dict(flag=7, vec=[1, 2, 3]), {}]


def gen_files(rng, tier, minrows=False):
    nf = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8])
    style = rng.choice(["percent", "brace", "list", "percent"])
    if nf == 1 and rng.random() < 0.3:
        style = "plain"
    count = rng.choice(["attr", "dataset", "idx", "idx-sparse"])
    idx = list(range(nf))
    if count == "idx-sparse" and style in ("percent", "brace"):
        idx = rng.sample(range(20), nf)
        if rng.random() < 0.5:
            idx.sort()
    if style == "list":
        count = "list"
    if style == "plain" and count == "idx-sparse":
        count = "idx"
    group = rng.choice([None, "PartType0", "a/b"])
    sets = []
    for i in range(rng.choice([1, 2, 2, 3])):
        sets.append(dict(name="d%d" % i, type=rng.choice(SIMPLE + ODD), tail=rng.choice([[], [], [3], [2, 2], [1]]),
                         attrs=rng.randrange(len(ATTRS)), own=rng.random() < 0.2))
    scale = rng.choice([3, 10, 60, 200])
    rows, nogroup = [], []
    pe, pm, pg = rng.choice([0, 0.3, 0.7]), rng.choice([0, 0, 0.3, 0.7]), rng.choice([0, 0, 0.3])
    for f in range(nf):
        nogroup.append(group is not None and rng.random() < pg)
        rows.append([None if rng.random() < pm else 0 if rng.random() < pe else rng.randrange(scale + 1) for _ in sets])
    return dict(nf=nf, style=style, count=count, idx=idx, group=group, sets=sets, rows=rows, nogroup=nogroup)


def file_name(fs, dirname, f, prefix="in"):
    if fs["style"] == "plain":
        return os.path.join(dirname, prefix + ".hdf5")
    if fs["style"] == "list":
        return os.path.join(dirname, prefix + "_part_%s.hdf5" % "abcdefghijkl"[f])
    return os.path.join(dirname, "%s.%d.hdf5" % (prefix, fs["idx"][f]))


def file_pattern(fs, dirname, prefix="in"):
    if fs["style"] == "list":
        return [file_name(fs, dirname, f, prefix) for f in range(fs["nf"])]
    if fs["style"] == "plain":
        return file_name(fs, dirname, 0, prefix)
    return os.path.join(dirname, prefix + (".%(file_nr)d.hdf5" if fs["style"] == "percent" else ".{file_nr}.hdf5"))


def present(fs, f, i):
    return fs["rows"][f][i] is not None and not (fs["group"] and fs["nogroup"][f])


def file_rows(fs, f, i):
    return make(fs["sets"][i]["type"], 1000 * f + np.arange(fs["rows"][f][i] if present(fs, f, i) else 0), fs["sets"][i]["tail"], i)


def file_attrs(fs, f, i):
    d = fs["sets"][i]
    a = dict(ATTRS[d["attrs"]])
    if d["own"]:
        a["file"] = f
    return a


def write_files(fs, dirname, prefix="in"):
    """Make the input files (outside the simulation)"""
    for f in range(fs["nf"]):
        with h5py.File(file_name(fs, dirname, f, prefix), "w") as out:
            h = out.create_group("Header")
            h.attrs["NumFilesPerSnapshot"] = fs["nf"]
            out["nfiles"] = fs["nf"]
            if fs["group"] and fs["nogroup"][f]:
                continue
            g = out.create_group(fs["group"]) if fs["group"] else out
            for i, d in enumerate(fs["sets"]):
                if fs["rows"][f][i] is None:
                    continue
                t = fs["types"][f][i] if fs.get("types") else d["type"]
                ids = 1000 * f + np.arange(fs["rows"][f][i])
                ds = g.create_dataset(d["name"], data=make(t, ids, d["tail"], i))
                for k, v in file_attrs(fs, f, i).items():
                    ds.attrs[k] = v


def open_set(fs, dirname, arg, prefix="in"):
    """A MultiFile for the set, as the calling rank would make it"""
    ph = V("mpi.parallel_hdf5")
    kw = {}
    if fs["count"] == "attr":
        kw["file_nr_attr"] = ("Header", "NumFilesPerSnapshot")
    elif fs["count"] == "dataset":
        kw["file_nr_dataset"] = "nfiles"
    elif fs["count"] != "list":
        kw["file_idx"] = np.asarray(fs["idx"]) if fs["nf"] % 2 else list(fs["idx"])
    if arg is not None:
        kw["comm"] = arg
    return ph.MultiFile(file_pattern(fs, dirname, prefix), **kw)


def whole(fs, i):
    """All rows of a dataset in file order, and the file index of each; None if no file has it"""
    have = [f for f in range(fs["nf"]) if present(fs, f, i)]
    if not have:
        return None, None
    return (np.concatenate([file_rows(fs, f, i) for f in have]),
            np.concatenate([np.full(fs["rows"][f][i], fs["idx"][f] if fs["count"] != "list" else f, dtype=int) for f in have]))


def shrink_files(case, key="fs"):
    fs = case[key]
    for f in range(fs["nf"] - 1, -1, -1):
        if fs["nf"] > 1 and fs["style"] != "plain":
            c = copy.deepcopy(case)
            x = c[key]
            x["nf"] -= 1
            for k in ("rows", "nogroup", "types"):
                if x.get(k):
                    del x[k][f]
            if x["count"] == "idx-sparse":
                del x["idx"][f]
            else:
                x["idx"].pop()
            yield c
    for i in range(len(fs["sets"]) - 1, -1, -1):
        if len(fs["sets"]) > 1:
            c = copy.deepcopy(case)
            x = c[key]
            del x["sets"][i]
            for k in ("rows", "types"):
                for r in x.get(k) or []:
                    del r[i]
            for j, d in enumerate(x["sets"]):
                d["name"] = "d%d" % j
            yield c
        for k, v in (("type", "i4"), ("tail", []), ("attrs", 3), ("own", False)):
            if fs["sets"][i][k] != v:
                c = copy.deepcopy(case)
                c[key]["sets"][i][k] = v
                yield c
    if fs["group"]:
        c = copy.deepcopy(case)
        c[key]["group"] = None
        yield c
    for f in range(fs["nf"]):
        for i in range(len(fs["sets"])):
            v = fs["rows"][f][i]
            if v:
                for w in sorted({0, 1, v // 2, v - 1}):
                    if w < v:
                        c = copy.deepcopy(case)
                        c[key]["rows"][f][i] = w
                        yield c


class FileSetCheck(MpiCheck):
    hdf5 = True
    fields = ()
    real = H5_REAL
    stubs = H5_STUB
    faults_possible = H5_FAULTS

    def nontrivial(self, case):
        fs = case["fs"]
        return case["n"] > 1 and any(present(fs, f, i) and fs["rows"][f][i] for f in range(fs["nf"]) for i in range(len(fs["sets"])))

    def shrink_data(self, case):
        yield from shrink_files(case)
