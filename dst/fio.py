"""
Ordinary files of the code under test: real files below the run's scratch
directory, with every open, map, read, write, flush and stat a place where the
simulator may inject a failure. Files elsewhere are left alone.
"""
import builtins
import io
import mmap
import os
import re
import sys

from . import core

real_open = builtins.open
real_io_open = io.open
real_os_open = os.open
real_os_read = os.read
real_os_stat = os.stat
real_mmap = mmap.mmap
real_listdir = os.listdir
real_scandir = os.scandir

_installed = False


def _mine(path):
    """The path if a simulated process uses a file in its scratch directory"""
    sim, me = core.current()
    if sim is None or not getattr(sim, "scratch", None) or getattr(me, "plain_io", False):
        return None
    try:
        p = os.fsdecode(path)
    except TypeError:
        return None
    p = os.path.abspath(p)
    return p if p.startswith(sim.scratch + "/") else None


def _fault(site, path):
    """Raise the failure planned for this visit, or return a modification of the call"""
    sim, me = core.current()
    if sim is None:
        return None
    if sim.stopping:
        # this process is being ended: nothing it does has an effect any more
        raise core.SimKilled()
    sim.count(site)
    if sim.io_yield:
        sim.yield_(me, site)
    if site == "io.open" and sim.opened is not None:
        sim.opened.append(str(path))
    if not sim.faults:
        return None
    f = sim.fault_point(me, site, os.path.basename(str(path)))
    if f is None:
        return None
    f["path"] = str(path)
    if f["kind"] == "interrupt":
        raise KeyboardInterrupt()
    if f["kind"] == "kill":
        sim.stopping = True
        raise core.SimKilled()
    if f["kind"] == "short read":
        return f
    e = f.get("errno", 5)
    raise OSError(e, os.strerror(e), str(path))


class SimFileIO(io.FileIO):
    """Raw file whose reads and writes can fail or be short"""
    def _site(self, site):
        sim, me = core.current()
        if sim is None or getattr(me, "plain_io", False):
            return None
        return _fault(site, self.name)

    def readinto(self, b):
        f = self._site("io.read")
        if f is not None and len(b) > 1:
            b = memoryview(b)[:max(1, len(b) // 3)]
        return super().readinto(b)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        f = self._site("io.read")
        if f is not None and n > 1:
            n = max(1, n // 3)
        return super().read(n)

    def readall(self):
        # in pieces, so that a failure can strike in the middle
        out = []
        while True:
            d = self.read(1 << 16)
            if not d:
                return b"".join(out)
            out.append(d)

    def write(self, b):
        self._site("io.write")
        return super().write(b)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = None if isinstance(file, int) else _mine(file)
    m = set(mode) if isinstance(mode, str) else set("?")
    if p is None or opener is not None or m - set("axrwb+t") or len(m) != len(mode) or ("b" in m and "t" in m) or len(m & set("axrw")) != 1:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if "b" in m and (encoding is not None or errors is not None or newline is not None):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    _fault("io.open", p)
    raw = SimFileIO(file, "".join(c for c in mode if c not in "bt"))
    if "b" in m and buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in m:
        buf = io.BufferedRandom(raw, size)
    elif "r" in m:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if "b" in m:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = _mine(path) if dir_fd is None else None
    if p is not None:
        _fault("io.open", p)
    fd = real_os_open(path, flags, mode, dir_fd=dir_fd)
    if p is not None:
        _names[fd] = p
    return fd


_names = {}

def fd_path(fd):
    """The name a file was opened by, which symbolic links don't change"""
    real = os.readlink("/proc/self/fd/%d" % fd)
    p = _names.get(fd)
    return p if p is not None and os.path.realpath(p) == real else real


def sim_os_read(fd, n):
    sim, me = core.current()
    if sim is not None and getattr(sim, "scratch", None) and not getattr(me, "plain_io", False):
        try:
            p = _mine(fd_path(fd))
        except OSError:
            p = None
        if p is not None:
            f = _fault("io.read", p)
            if f is not None and n > 1:
                n = max(1, n // 3)
    return real_os_read(fd, n)


def sim_stat(path, *, dir_fd=None, follow_symlinks=True):
    sim, me = core.current()
    if sim is not None and sim.faults and dir_fd is None and not isinstance(path, int):
        p = _mine(path)
        if p is not None:
            _fault("io.stat", p)
    return real_os_stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)


def sim_listdir(path="."):
    sim, me = core.current()
    if sim is not None and (sim.faults or sim.io_yield) and not isinstance(path, int):
        p = _mine(path)
        if p is not None:
            _fault("io.listdir", p)
    return real_listdir(path)


class Listing:
    """Directory entries in an order the simulator chose; reading on may fail"""
    def __init__(self, path, entries):
        self.path = path
        self.entries = entries

    def __iter__(self):
        return self

    def __next__(self):
        if not self.entries:
            raise StopIteration
        _fault("io.readdir", self.path)
        return self.entries.pop(0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.entries = []


def sim_scandir(path="."):
    sim, me = core.current()
    if sim is not None and not isinstance(path, int) and (sim.faults or sim.listing is not None or sim.io_yield):
        p = _mine(path)
        if p is not None:
            _fault("io.listdir", p)
            if sim.listing is not None:
                with real_scandir(path) as it:
                    entries = sorted(it, key=lambda e: os.fsencode(e.name))
                sim.listing.shuffle(entries)
                return Listing(path, entries)
    return real_scandir(path)


class SimMmap(mmap.mmap):
    def __new__(cls, fileno, length, *args, **kw):
        sim, me = core.current()
        if sim is not None and fileno >= 0 and not getattr(me, "plain_io", False):
            try:
                p = _mine(os.readlink("/proc/self/fd/%d" % fileno))
            except OSError:
                p = None
            if p is not None:
                _fault("io.map", p)
        return super().__new__(cls, fileno, length, *args, **kw)


_h5_installed = False


def install_h5():
    """Opens of HDF5 files and reads of their datasets and attributes as places for failures"""
    global _h5_installed
    if _h5_installed:
        return
    _h5_installed = True
    import h5py
    real_init, real_getitem, real_attr = h5py.File.__init__, h5py.Dataset.__getitem__, h5py.AttributeManager.__getitem__

    def init(self, name, *a, **kw):
        p = _mine(name) if isinstance(name, (str, bytes, os.PathLike)) else None
        if p is not None:
            _fault("h5.open", p)
        real_init(self, name, *a, **kw)

    def getitem(self, *a, **kw):
        if core.current()[0] is not None:
            p = _mine(self.file.filename)
            if p is not None:
                _fault("h5.read", p)
        return real_getitem(self, *a, **kw)

    def attr(self, name):
        sim = core.current()[0]
        if sim is not None and (sim.faults or sim.io_yield):
            import h5py
            p = _mine(h5py.h5i.get_file_id(self._id).name)
            if p is not None:
                _fault("h5.read", p)
        return real_attr(self, name)
    h5py.File.__init__, h5py.Dataset.__getitem__, h5py.AttributeManager.__getitem__ = init, getitem, attr


class plain:
    """The harness's own use of files: no faults"""
    def __enter__(self):
        self.me = core.current()[1]
        if self.me is not None:
            self.old = getattr(self.me, "plain_io", False)
            self.me.plain_io = True

    def __exit__(self, *a):
        if self.me is not None:
            self.me.plain_io = self.old
        return False


_real_unraisable = sys.unraisablehook


def _unraisable(u):
    # a destructor which was cut short by the end of its process
    if u.exc_type is None or not issubclass(u.exc_type, core.SimKilled):
        _real_unraisable(u)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.unraisablehook = _unraisable
    builtins.open = io.open = sim_open
    os.open = sim_os_open
    os.read = sim_os_read
    os.stat = sim_stat
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    mmap.mmap = SimMmap


def open_files(scratch, maps=True):
    """Files below a directory which this process holds open or mapped (a map keeps a descriptor of its own as well)"""
    res = set()
    with real_open("/proc/self/maps", "rb", 0) as f:
        parts = []
        while maps:
            d = f.read(1 << 18)
            if not d:
                break
            parts.append(d)
    for m in re.finditer(re.escape(scratch.encode()) + rb"/[^\n]*", b"".join(parts)):
        res.add(m.group().decode().replace(" (deleted)", ""))
    for fd in real_listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if p.startswith(scratch + "/"):
            res.add(p.replace(" (deleted)", ""))
    return res
