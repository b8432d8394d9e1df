"""
SQLite databases of the code under test: the real SQLite library on real files
below the run's scratch directory, with the system calls it makes replaced
(SQLite offers this for its unix VFS), so that each of them can fail, be short
or be the last thing the process does.
"""
import ctypes
import os
import sqlite3

from . import core, fio

_lib = None
_keep = []
_fds = {}
connections = []

INT, LL, SZ, P, S = ctypes.c_int, ctypes.c_longlong, ctypes.c_size_t, ctypes.c_void_p, ctypes.c_char_p
# name, result, arguments, fault site
CALLS = [
    ("open", INT, (S, INT, INT), "sql.open"),
    ("close", INT, (INT,), None),
    ("read", ctypes.c_ssize_t, (INT, P, SZ), "sql.read"),
    ("pread", ctypes.c_ssize_t, (INT, P, SZ, LL), "sql.read"),
    ("pread64", ctypes.c_ssize_t, (INT, P, SZ, LL), "sql.read"),
    ("write", ctypes.c_ssize_t, (INT, P, SZ), "sql.write"),
    ("pwrite", ctypes.c_ssize_t, (INT, P, SZ, LL), "sql.write"),
    ("pwrite64", ctypes.c_ssize_t, (INT, P, SZ, LL), "sql.write"),
    ("ftruncate", INT, (INT, LL), "sql.truncate"),
    ("unlink", INT, (S,), "sql.unlink"),
]


class _VFS(ctypes.Structure):
    _fields_ = [("iVersion", INT), ("szOsFile", INT), ("mxPathname", INT), ("pNext", P), ("zName", S), ("pAppData", P)] + [
        (n, P) for n in ("xOpen", "xDelete", "xAccess", "xFullPathname", "xDlOpen", "xDlError", "xDlSym", "xDlClose", "xRandomness",
                         "xSleep", "xCurrentTime", "xGetLastError", "xCurrentTimeInt64", "xSetSystemCall", "xGetSystemCall", "xNextSystemCall")]


def _path(name, args):
    if name in ("open", "unlink"):
        return fio._mine(os.path.abspath(os.fsdecode(args[0])))
    return _fds.get(args[0])


def _wrap(name, res, argtypes, site, orig):
    def call(*args):
        try:
            sim, me = core.current()
            if sim is None or getattr(me, "plain_io", False):
                r = orig(*args)
            else:
                path = _path(name, args)
                if path is not None and sim.stopping and name != "close":
                    # this process is dead: nothing it does has an effect
                    ctypes.set_errno(5)
                    return -1
                f = None
                if path is not None and site is not None:
                    sim.count(site)
                    if sim.faults:
                        f = sim.fault_point(me, site, os.path.basename(path))
                if f is not None:
                    if f["kind"] == "kill":
                        sim.stopping = True
                        ctypes.set_errno(5)
                        return -1
                    if f["kind"] == "short write" and args[2] > 1:
                        args = (args[0], args[1], args[2] // 2) + args[3:]
                    elif f["kind"] != "interrupt":
                        ctypes.set_errno(f.get("errno", 5))
                        return -1
                r = orig(*args)
            if name == "open" and r >= 0:
                p = fio._mine(os.path.abspath(os.fsdecode(args[0])))
                if p is not None:
                    _fds[r] = p
            elif name == "close":
                _fds.pop(args[0], None)
            return r
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(3)
    return call


_real_connect = sqlite3.connect


def _connect(*args, **kw):
    sim, me = core.current()
    c = _real_connect(*args, **kw)
    if sim is not None:
        connections.append((me, c))
    return c


def leave(me):
    """The process ends: its connections go with it"""
    for x in list(connections):
        if x[0] is me:
            connections.remove(x)
            try:
                x[1].close()
            except sqlite3.Error:
                pass


def install():
    global _lib
    if _lib is not None:
        return
    import _sqlite3
    # the library the sqlite3 module uses
    path = None
    _real_connect(":memory:").close()
    with fio.real_open("/proc/self/maps") as f:
        for line in f:
            if "libsqlite3" in line:
                path = line.split()[-1]
    _lib = ctypes.CDLL(path or _sqlite3.__file__)
    _lib.sqlite3_vfs_find.restype = ctypes.POINTER(_VFS)
    _lib.sqlite3_vfs_find.argtypes = [S]
    vfs = _lib.sqlite3_vfs_find(None)
    get = ctypes.CFUNCTYPE(P, P, S)(vfs.contents.xGetSystemCall)
    put = ctypes.CFUNCTYPE(INT, P, S, P)(vfs.contents.xSetSystemCall)
    for name, res, argtypes, site in CALLS:
        proto = ctypes.CFUNCTYPE(res, *argtypes, use_errno=True)
        ptr = get(ctypes.cast(vfs, P), name.encode())
        if not ptr:
            continue
        fn = proto(_wrap(name, res, argtypes, site, proto(ptr)))
        _keep.append(fn)
        if put(ctypes.cast(vfs, P), name.encode(), ctypes.cast(fn, P)) != 0:
            raise RuntimeError("can't replace SQLite's " + name)
    sqlite3.connect = _connect
    sqlite3.dbapi2.connect = _connect
