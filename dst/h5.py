"""
Simulated parallel HDF5 on top of the real HDF5 library.

All ranks live in one process, so a file opened with driver="mpio" is opened
once per rank through the ordinary driver, and the collective semantics of
parallel HDF5 are imposed on top: operations which change metadata must be
called by all ranks with the same arguments (they then happen once), collective
transfers must be entered by all ranks, a rank which misses one leaves the
others waiting. Files open for writing are locked against other processes.
I/O errors can be injected into open, create, read, write, attribute, flush and
close.
"""
import os

import numpy as np

from .core import current, SimViolation, SimKilled, SimUnsupported
from . import mpi

_installed = False
h5py = None
RealFile = None


def _err(f, what):
    no = f.get("errno", 5)
    sim, me = current()
    return OSError(no, "%s (injected: %s)" % (what, os.strerror(no)))


def _fault(site, what=""):
    sim, me = current()
    if sim is None or sim.stopping or not sim.faults:
        return None
    f = sim.fault_point(me, site, what)
    if f is not None and f["kind"] == "kill":
        if sim.failed is None:
            sim.failed = me.rank
        me.what = "killed"
        sim.stopping = True
        raise SimKilled()
    return f


def _point(site, what, exc=OSError):
    """A place where other ranks may run and an I/O error may strike"""
    sim, me = current()
    if sim is None or sim.stopping:
        return
    sim.event(me.rank, "%s %s" % (site, what))
    sim.count(site)
    f = _fault(site, what)
    sim.yield_(me, "%s %s" % (site, what))
    if f is not None:
        raise _err(f, "Can't %s" % site)


class Handle:
    """One rank's view of an open file"""
    def __init__(self, sim, rank, path, writable, group):
        self.sim, self.rank, self.path, self.writable, self.group = sim, rank, path, writable, group
        self.open = True
        self.depth = 0


def _short(sim, path):
    return os.path.relpath(path, sim.scratch) if getattr(sim, "scratch", None) and os.path.isabs(path) else os.path.basename(path)


class _Group:
    """The ranks which have one file open together"""
    def __init__(self, comm):
        self.comm_state = comm


def _lockcheck(sim, me, path, writable, group):
    for h in sim.h5handles:
        if h.path == path and h.open and not (group is not None and h.group is group):
            if h.rank == me.rank and h.group is None and group is None:
                continue
            if h.writable or writable:
                sim.probe("file locked by another rank")
                raise BlockingIOError(11, "Unable to lock file (it is open on rank %d): %s" % (h.rank, _short(sim, path)))


def _handle_of(loc):
    """(Handle, depth holder) of the mpio file an object lives in, or None"""
    sim, me = current()
    if sim is None or sim.stopping:
        return None
    try:
        fid = h5py.h5i.get_file_id(loc)
    except Exception:
        return None
    # several FileIDs share a file: find ours by the id of the open
    for h in sim.h5handles:
        if h.open and h.rank == me.rank and h.group is not None and h.fid is not None and h.fid.valid and h.fid == fid:
            return h
    return None


def _objpath(oid):
    try:
        n = h5py.h5i.get_name(oid)
        return n.decode("utf-8", "replace") if n else "?"
    except Exception:
        return "?"


def _collective(h, sig, fn):
    """fn is executed by one rank when all have arrived with the same sig"""
    def res(slot):
        if "r" not in slot.result:
            try:
                slot.result["r"] = (True, fn())
            except Exception as e:
                slot.result["r"] = (False, e)
                raise
            return slot.result["r"][1]
        ok, v = slot.result["r"]
        if not ok:
            raise type(v)(*v.args)
        return None
    h.depth += 1
    try:
        return h.comm._collective(sig, None, lambda s: len(s.arrived) == h.comm._st.size, res)
    finally:
        h.depth -= 1


def _digest(x):
    try:
        a = np.asarray(x)
        return (a.dtype.str, a.shape, a.tobytes() if a.dtype.kind != "O" else repr(a.tolist()))
    except Exception:
        return repr(x)


def install():
    global _installed, h5py, RealFile
    if _installed:
        return
    _installed = True
    import h5py as h5
    h5py = h5
    from h5py._hl import files, dataset, group as hgroup, attrs
    RealFile = files.File
    h5d, h5i, h5g, h5a, h5o, h5l = h5.h5d, h5.h5i, h5.h5g, h5.h5a, h5.h5o, h5.h5l

    # ------------------------------------------------------------ dataset ids
    class SimDatasetID(h5d.DatasetID):
        def _io(self, args, kw, which):
            dxpl = kw.get("dxpl")
            if dxpl is None and len(args) > 4:
                dxpl = args[4]
                args = args[:4]
            sim, me = current()
            real = h5d.DatasetID.read if which == "read" else h5d.DatasetID.write
            if sim is None or sim.stopping:
                kw["dxpl"] = None
                return real(self, *args, **kw)
            coll = False
            if dxpl is not None:
                try:
                    coll = dxpl.get_dxpl_mpio() == h5.h5fd.MPIO_COLLECTIVE
                except Exception:
                    coll = False
            kw["dxpl"] = None
            name = _objpath(self)
            h = _handle_of(self)
            f = _fault("h5." + which, name)
            sim.count("h5." + which)
            if coll and h is not None and 0 in self.shape:
                # what parallel HDF5 1.10 does with a dataset without any storage
                raise OSError("Can't %s data (addr overflow, addr = 18446744073709551615, size=0)" % which)
            sim.event(me.rank, "h5.%s %s%s" % (which, name, " collective" if coll else ""))
            # an error on one rank in a collective transfer: it fails there, after taking part or before
            if f is not None and f.get("early", True):
                raise _err(f, "Can't %s data" % which)
            late = sim.coin(0.5, "io-late")
            res = None
            if not late:
                res = real(self, *args, **kw)
            if coll and h is not None:
                h.comm._collective(("h5.collective-" + which, name), None, lambda s: True, lambda s: None)
            else:
                sim.yield_(me, "h5." + which)
            if late:
                res = real(self, *args, **kw)
            if f is not None:
                raise _err(f, "Can't %s data" % which)
            return res

        def read(self, *args, **kw):
            return self._io(args, kw, "read")

        def write(self, *args, **kw):
            return self._io(args, kw, "write")

        def set_extent(self, *args, **kw):
            h = _handle_of(self)
            if h is None or h.depth == 0:
                _point("h5.write", "set_extent")
            if h is not None and h.depth == 0:
                _collective(h, ("h5.set_extent", _objpath(self), repr(args)), lambda: h5d.DatasetID.set_extent(self, *args, **kw))
                return
            return h5d.DatasetID.set_extent(self, *args, **kw)

    real_ds_init = dataset.Dataset.__init__

    def ds_init(self, bind, *, readonly=False):
        if isinstance(bind, h5d.DatasetID) and not isinstance(bind, SimDatasetID) and current()[0] is not None:
            new = SimDatasetID(bind.id)
            h5i.inc_ref(new)
            bind = new
        real_ds_init(self, bind, readonly=readonly)
    dataset.Dataset.__init__ = ds_init

    real_getitem = dataset.Dataset.__getitem__

    def ds_getitem(self, args, new_dtype=None):
        sim, me = current()
        if sim is not None and not sim.stopping and self._fast_read_ok and new_dtype is None:
            # this path does not go through DatasetID.read (and ignores collective mode)
            f = _fault("h5.read", self.name or "?")
            sim.count("h5.read")
            sim.event(me.rank, "h5.read %s" % self.name)
            sim.yield_(me, "h5.read")
            if f is not None:
                raise _err(f, "Can't read data")
        return real_getitem(self, args, new_dtype)
    dataset.Dataset.__getitem__ = ds_getitem

    # ------------------------------------------------------- collective changes
    real_create = h5d.create

    def sim_create(loc, name, tid, space, dcpl=None, lcpl=None, dapl=None, **kw):
        sim, me = current()
        if sim is None or sim.stopping:
            return real_create(loc, name, tid, space, dcpl, lcpl, dapl, **kw)
        h = _handle_of(loc)
        if h is not None and h.depth:
            return real_create(loc, name, tid, space, dcpl, lcpl, dapl, **kw)
        _point("h5.create", "%s" % (name.decode() if name else None))
        if h is None or not h.writable:
            return real_create(loc, name, tid, space, dcpl, lcpl, dapl, **kw)
        if name is None:
            raise SimUnsupported("anonymous dataset in a parallel file")
        lay = dcpl.get_layout() if dcpl is not None else None
        chunk = dcpl.get_chunk() if dcpl is not None and lay == h5d.CHUNKED else None
        sig = ("H5Dcreate", _objpath(loc), name, tid.dtype.str if not tid.dtype.fields else str(tid.dtype), space.shape,
               lay, chunk)
        mine = []
        def go():
            d = real_create(loc, name, tid, space, dcpl, lcpl, dapl, **kw)
            mine.append(d)
        _collective(h, sig, go)
        if mine:
            return mine[0]
        return h5d.open(loc, name)
    h5d.create = sim_create

    def wrap_group(meth, args_of):
        real = getattr(hgroup.Group, meth)
        def f(self, name, *args, **kw):
            sim, me = current()
            if sim is None or sim.stopping:
                return real(self, name, *args, **kw)
            h = _handle_of(self.id)
            if h is not None and h.depth:
                return real(self, name, *args, **kw)
            if h is None or not h.writable:
                _point("h5.create", "%s %s" % (meth, name))
                return real(self, name, *args, **kw)
            _point("h5.create", "%s %s" % (meth, name))
            mine = []
            def go():
                mine.append(real(self, name, *args, **kw))
            if meth == "require_group" and name in self:
                # opens only: no collective needed
                return real(self, name, *args, **kw)
            _collective(h, (meth, _objpath(self.id), name) + args_of(args, kw), go)
            if mine:
                return mine[0]
            return self[name]
        setattr(hgroup.Group, meth, f)
    def nokw(args, kw):
        return (repr(args), repr(sorted(kw)))
    wrap_group("create_group", nokw)
    wrap_group("require_group", nokw)

    real_cds = hgroup.Group.create_dataset
    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        h = _handle_of(self.id)
        if h is None or h.depth or not h.writable or data is None:
            return real_cds(self, name, shape=shape, dtype=dtype, data=data, **kw)
        # as with real parallel HDF5: every rank creates, then every rank writes its copy
        data = np.asarray(data)
        d = real_cds(self, name, shape=data.shape if shape is None else shape, dtype=dtype or data.dtype, **kw)
        d[...] = data
        return d
    hgroup.Group.create_dataset = create_dataset

    real_del = hgroup.Group.__delitem__
    def delitem(self, name):
        h = _handle_of(self.id)
        if h is not None and h.depth:
            return real_del(self, name)
        _point("h5.create", "delete %s" % name)
        if h is None:
            return real_del(self, name)
        _collective(h, ("delete", _objpath(self.id), str(name)), lambda: real_del(self, name))
    hgroup.Group.__delitem__ = delitem

    real_ggetitem = hgroup.Group.__getitem__
    def group_getitem(self, name):
        sim, me = current()
        if sim is not None and not sim.stopping:
            f = _fault("h5.lookup", str(name))
            sim.count("h5.lookup")
            if f is not None:
                raise KeyError("Unable to open object (injected: %s)" % os.strerror(f.get("errno", 5)))
        return real_ggetitem(self, name)
    hgroup.Group.__getitem__ = group_getitem

    def wrap_attr(meth, write):
        real = getattr(attrs.AttributeManager, meth)
        def f(self, name, *args, **kw):
            sim, me = current()
            if sim is None or sim.stopping:
                return real(self, name, *args, **kw)
            h = _handle_of(self._id)
            if h is not None and h.depth:
                return real(self, name, *args, **kw)
            _point("h5.attr", "%s %s" % (meth, name))
            if h is None or not write:
                return real(self, name, *args, **kw)
            sig = ("attr-" + meth, _objpath(self._id), str(name)) + tuple(_digest(a) for a in args) + tuple((k, _digest(v)) for k, v in sorted(kw.items()))
            _collective(h, sig, lambda: real(self, name, *args, **kw))
        setattr(attrs.AttributeManager, meth, f)
    wrap_attr("create", True)
    wrap_attr("modify", True)
    wrap_attr("__delitem__", True)
    wrap_attr("__getitem__", False)

    # ------------------------------------------------------------------ files
    class SimFile(RealFile):
        _sim_handle = None

        def __init__(self, name, mode="r", driver=None, comm=None, info=None, **kw):
            if driver is None and (comm is not None or info is not None):
                raise TypeError("'comm' is an invalid keyword argument for this function")
            sim, me = current()
            if sim is None or sim.stopping or isinstance(name, h5.h5f.FileID) or not isinstance(name, (str, bytes, os.PathLike)):
                if driver == "mpio" and sim is None:
                    raise SimUnsupported("mpio outside a simulation")
                if driver is not None and driver != "mpio":
                    kw["driver"] = driver
                RealFile.__init__(self, name, mode, **kw)
                return
            path = os.path.realpath(os.fsdecode(name))
            writable = mode != "r"
            short = _short(sim, path)
            if driver == "mpio":
                self._open_parallel(sim, me, path, short, mode, writable, comm, kw)
                return
            if driver is not None:
                kw["driver"] = driver
            _point("h5.open", "%s %s" % (short, mode))
            _lockcheck(sim, me, path, writable, None)
            RealFile.__init__(self, path, mode, **kw)
            h = Handle(sim, me.rank, path, writable, None)
            h.fid, h.comm = self.id, None
            sim.h5handles.append(h)
            sim.handle("file", 1)
            self._sim_handle = h

        def _open_parallel(self, sim, me, path, short, mode, writable, comm, kw):
            if comm is None:
                comm = mpi.COMM_WORLD
            c = comm._mine() if isinstance(comm, mpi.CommWorld) else comm
            f = _fault("h5.open", short)
            sim.count("h5.open")
            def res(slot):
                if "st" not in slot.result:
                    # the first to come through opens (and truncates) the file; an error strikes all
                    bad = [x for x in slot.arrived.values() if x is not None]
                    slot.result["st"] = None
                    if bad:
                        slot.result["exc"] = _err(bad[0], "Can't open file")
                        raise slot.result["exc"]
                    grp = _Group(None)
                    try:
                        _lockcheck(sim, me, path, writable, grp)
                        RealFile.__init__(self, path, mode, **kw)
                    except Exception as e:
                        slot.result["exc"] = e
                        raise
                    st = mpi.CommState(sim, list(c._st.ranks), "file:" + short)
                    grp.comm_state = st
                    slot.result["st"] = grp
                    return grp
                if slot.result["st"] is None:
                    e = slot.result.get("exc") or OSError("open failed")
                    raise type(e)(*e.args)
                RealFile.__init__(self, path, "r+" if writable else "r")
                return slot.result["st"]
            # all handles are made before anybody can use or close the file
            grp = c._collective(("MPI_File_open", short, mode), f, lambda s: len(s.arrived) == c._st.size, res)
            h = Handle(sim, me.rank, path, writable, grp)
            h.fid = self.id
            h.comm = mpi.Comm(grp.comm_state, c._rank)
            sim.h5handles.append(h)
            sim.handle("file", 1)
            self._sim_handle = h
            # opening is synchronising in practice: without this a fast rank could close (and reopen) first
            h.comm._collective(("opened",), None, lambda s: len(s.arrived) == h.comm._st.size, lambda s: None)

        def close(self):
            h = self._sim_handle
            sim, me = current()
            if h is None or not h.open or sim is None or sim is not h.sim or sim.stopping:
                if h is not None:
                    h.open = False
                return RealFile.close(self)
            f = None
            if h.writable:
                f = _fault("h5.close", _short(sim, h.path))
            sim.event(me.rank, "h5.close %s" % _short(sim, h.path))
            sim.count("h5.close")
            try:
                if h.comm is not None:
                    if h.writable:
                        # closing flushes, which synchronises the ranks
                        h.comm._collective(("MPI_File_close",), None, lambda s: len(s.arrived) == h.comm._st.size, lambda s: None)
                    else:
                        h.comm._collective(("MPI_File_close",), None, lambda s: True, lambda s: None)
            finally:
                RealFile.close(self)
                self._gone(h)
            if h.comm is not None and h.writable and not sim.stopping:
                # nobody gets away before the data of all ranks are in the file
                h.comm._collective(("MPI_File_closed",), None, lambda s: len(s.arrived) == h.comm._st.size, lambda s: None)
            if f is not None:
                raise _err(f, "Can't close file (unable to flush)")

        def _gone(self, h):
            if h.open:
                h.open = False
                h.sim.handle("file", -1)
                if h in h.sim.h5handles:
                    h.sim.h5handles.remove(h)

        def flush(self):
            h = self._sim_handle
            sim, me = current()
            if h is None or sim is None or sim.stopping:
                return RealFile.flush(self)
            _point("h5.close", "flush")
            if h.comm is not None:
                h.comm._collective(("flush",), None, lambda s: len(s.arrived) == h.comm._st.size, lambda s: None)
            return RealFile.flush(self)

        def __del__(self):
            h = self._sim_handle
            if h is not None and h.open:
                self._gone(h)

    h5.File = SimFile
    SimFile.__name__ = "File"
    h5._sim_file = SimFile


def attach(sim, scratch):
    sim.h5handles = []
    sim.scratch = scratch


def cleanup():
    """Close whatever a simulation left open (killed processes, leaked handles)"""
    if not _installed:
        return 0
    h5f = h5py.h5f
    n = 0
    for fid in h5f.get_obj_ids(h5f.OBJ_ALL, h5f.OBJ_FILE):
        try:
            if fid.valid:
                RealFile(fid).close()
                n += 1
        except Exception:
            pass
    return n
