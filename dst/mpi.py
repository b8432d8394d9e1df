"""
A simulated MPI: implements the part of mpi4py's interface that virgo (or a
reasonable rewrite of it) uses, on top of core.Sim.
"""
import ctypes
import pickle
import sys
import types

import numpy as np

from .core import current, SimViolation, SimUnsupported, SimAbort, SimKilled

ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
UNDEFINED = -32766
_MAXTAG = 2**31 - 1
_INT_MAX = 2**31 - 1


class MPIException(RuntimeError):
    """Stand-in for MPI.Exception"""
    def __init__(self, msg="", code=15):
        super().__init__(msg)
        self.ob_mpi = code
    def Get_error_class(self): return self.ob_mpi
    def Get_error_code(self): return self.ob_mpi
    def Get_error_string(self): return str(self)
    error_class = property(Get_error_class)
    error_code = property(Get_error_code)
    error_string = property(Get_error_string)


def _need():
    sim, me = current()
    if sim is None:
        raise SimUnsupported("MPI used outside a simulated process")
    if me.finalized:
        raise SimViolation("mpi-after-finalize", "MPI call after MPI_Finalize")
    return sim, me


# ---------------------------------------------------------------- datatypes
class Datatype:
    def __init__(self, size, name, predefined=False, extent=None, typechar=None, sim=None):
        self.size_ = size
        self.extent_ = size if extent is None else extent
        self.name = name
        self.is_predefined = predefined
        self.committed = predefined
        self.freed = False
        self.typechar = typechar
        self.sim = sim
        if sim is not None:
            sim.handle("datatype", 1)

    def Get_size(self): return self.size_
    def Get_extent(self): return (0, self.extent_)
    size = property(Get_size)
    extent = property(lambda self: self.extent_)

    def Commit(self):
        if self.freed:
            raise SimViolation("freed-datatype", "Commit on a freed datatype")
        self.committed = True
        return self

    def Free(self):
        if self.is_predefined:
            raise MPIException("MPI_ERR_TYPE: cannot free a predefined datatype")
        if self.freed:
            raise SimViolation("freed-datatype", "datatype freed twice")
        self.freed = True
        if self.sim is not None:
            self.sim.handle("datatype", -1)

    def Dup(self):
        return _newtype(self.extent_, self.name, self.typechar)

    def Create_contiguous(self, count):
        return _newtype(self.extent_ * count, "%s*%d" % (self.name, count))

    def _check(self):
        if self.freed:
            raise SimViolation("freed-datatype", "communication with a freed datatype")
        if not self.committed:
            raise MPIException("MPI_ERR_TYPE: invalid datatype (not committed)")

    @staticmethod
    def Create_struct(blocklengths, displacements, datatypes):
        size = sum(b * t.extent_ for b, t in zip(blocklengths, datatypes))
        ext = max([d + b * t.extent_ for b, d, t in zip(blocklengths, displacements, datatypes)] or [0])
        t = _newtype(size, "struct")
        t.extent_ = ext
        return t

    def Create_resized(self, lb, extent):
        t = _newtype(self.size_, self.name)
        t.extent_ = extent
        return t

    def Create_vector(self, *a):
        raise SimUnsupported("vector datatypes")

    Create_indexed = Create_hindexed = Create_subarray = Create_hvector = Create_vector


def _newtype(size, name, typechar=None):
    sim, me = current()
    t = Datatype(size, name, typechar=typechar, sim=sim)
    t.committed = False
    return t


class _DTypeType(Datatype):
    pass


_chars = {c: np.dtype(c) for c in "?bBhHiIlLqQfdgFDG"}
_typedict = {c: Datatype(d.itemsize, d.name, True, typechar=c) for c, d in _chars.items()}
# strings are sent character by character
_typedict["S"] = Datatype(1, "char", True, typechar="S")
_typedict["U"] = Datatype(4, "wchar", True, typechar="U")
BYTE = Datatype(1, "byte", True, typechar="B")


def from_numpy_dtype(dtype):
    dtype = np.dtype(dtype)
    if dtype.hasobject:
        raise ValueError("NumPy datatype with object entries")
    if not dtype.isnative:
        raise ValueError("NumPy datatype with non-native byteorder")

    def check(d):
        if d.fields:
            for n in d.names:
                check(d.fields[n][0])
        elif d.subdtype:
            check(d.subdtype[0])
        elif d.char not in _typedict:
            raise ValueError("cannot convert NumPy datatype to MPI")
    check(dtype)
    if dtype.fields or dtype.subdtype:
        return _newtype(dtype.itemsize, str(dtype.itemsize))
    return _typedict[dtype.char].Dup()


# ---------------------------------------------------------------- buffers
class Buf:
    """A resolved buffer: address, bytes per element, counts and displacements"""
    __slots__ = ("keep", "ptr", "nbytes", "itemsize", "count", "counts", "displs", "dtype", "readonly")


def _address(obj):
    if isinstance(obj, np.ndarray) or isinstance(obj, np.generic):
        if isinstance(obj, np.generic):
            a = np.array(obj)
            ro = True
        else:
            a = obj
            if not (a.flags.c_contiguous or a.flags.f_contiguous):
                raise BufferError("ndarray is not contiguous")
            ro = not a.flags.writeable
        return a, a.ctypes.data, a.nbytes, a.dtype, ro
    if isinstance(obj, (bytes, bytearray, memoryview)):
        a = np.frombuffer(obj, dtype=np.uint8)
        return a, a.ctypes.data, a.nbytes, a.dtype, not a.flags.writeable
    try:
        m = memoryview(obj)
    except TypeError:
        raise TypeError("message: expecting buffer or list/tuple")
    a = np.asarray(m)
    if not a.flags.c_contiguous:
        raise BufferError("not contiguous")
    return a, a.ctypes.data, a.nbytes, a.dtype, not a.flags.writeable


class _InPlace:
    def __repr__(self): return "IN_PLACE"
IN_PLACE = _InPlace()


def _isint(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


def parse(spec, size=None, vector=False, blocks=0, write=False):
    """
    Interpret a buffer specification. vector=True for the v-collectives,
    blocks=n if the buffer holds n equal blocks.
    """
    b = Buf()
    dt = None
    count = None
    counts = displs = None
    if isinstance(spec, (list, tuple)):
        items = list(spec)
        obj = items.pop(0)
        if items and (isinstance(items[-1], (Datatype, str))):
            dt = items.pop()
        if len(items) == 1:
            it = items[0]
            if it is None:
                pass
            elif _isint(it):
                count = int(it)
            elif isinstance(it, (tuple, list)) and len(it) == 2 and (vector and not all(_isint(q) for q in it) or not vector):
                if vector:
                    counts, displs = it
                else:
                    count = None if it[0] is None else int(it[0])
                    if it[1]:
                        raise SimUnsupported("buffer displacement")
            else:
                counts = it
        elif len(items) == 2:
            counts, displs = items
            if not vector:
                if _isint(counts) and not displs:
                    count = int(counts)
                    counts = displs = None
                else:
                    raise SimUnsupported("buffer specification")
        elif len(items) > 2:
            raise ValueError("message: expecting 2 to 4 items")
    else:
        obj = spec
    if obj is None:
        b.keep = None
        b.ptr = 0
        b.nbytes = 0
        b.dtype = np.dtype("u1")
        b.readonly = False
        # nothing to send or receive here
        if isinstance(dt, Datatype):
            b.itemsize = dt.extent_
        else:
            b.itemsize = 1
        b.count = 0
        b.counts = None if counts is None else np.asarray(counts, dtype=np.int64)
        b.displs = None if displs is None else np.asarray(displs, dtype=np.int64)
        return b
    b.keep, b.ptr, b.nbytes, b.dtype, b.readonly = _address(obj)
    if write and b.readonly:
        raise BufferError("buffer is read-only")
    if dt is None:
        d = b.dtype
        if not d.isnative:
            raise ValueError("message: cannot handle non-native byte order")
        if d.char not in _typedict:
            raise KeyError(d.char if not d.fields else "T{...}")
        b.itemsize = d.itemsize
    elif isinstance(dt, str):
        b.itemsize = _typedict[dt].extent_ if dt in _typedict else np.dtype(dt).itemsize
    else:
        dt._check()
        b.itemsize = dt.extent_
    isz = max(b.itemsize, 1)
    if counts is None and count is None:
        if b.nbytes % isz:
            raise ValueError("message: buffer length %d is not a multiple of datatype extent %d" % (b.nbytes, isz))
        count = b.nbytes // isz
        b.count = count
        if count > _INT_MAX:
            raise OverflowError("integer %d does not fit in 'int'" % count)
        if blocks and count % blocks:
            raise ValueError("message: buffer of %d items cannot be split into %d blocks" % (count, blocks))
    elif count is not None:
        if count < 0:
            raise MPIException("MPI_ERR_COUNT: negative count")
        if vector:
            counts = [count] * size
        else:
            if count * isz > b.nbytes:
                raise SimViolation("buffer-overrun", "count of %d items of %d bytes exceeds a buffer of %d bytes" % (count, isz, b.nbytes))
            b.count = count
    if vector:
        if counts is None:
            n, r = divmod(b.count, size)
            counts = [n + (1 if i < r else 0) for i in range(size)]
        counts = np.asarray(counts)
        if counts.ndim == 0:
            counts = np.full(size, int(counts))
        if counts.dtype.kind not in "iu":
            raise TypeError("counts must be integers")
        counts = counts.astype(np.int64)
        if np.any(counts > _INT_MAX):
            raise OverflowError("value too large to convert to int")
        if np.any(counts < 0):
            raise MPIException("MPI_ERR_COUNT: invalid count")
        if len(counts) != size:
            raise ValueError("counts: expecting %d items, got %d" % (size, len(counts)))
        if displs is None:
            displs = np.cumsum(counts) - counts
        displs = np.asarray(displs).astype(np.int64)
        if np.any(displs > _INT_MAX):
            raise OverflowError("value too large to convert to int")
        if len(displs) != size:
            raise ValueError("displs: expecting %d items, got %d" % (size, len(displs)))
        for c, d in zip(counts, displs):
            if c > 0 and (d < 0 or (d + c) * isz > b.nbytes):
                raise SimViolation("buffer-overrun", "block [%d,%d) of items of %d bytes outside a buffer of %d bytes" % (d, d + c, isz, b.nbytes))
        b.counts = counts
        b.displs = displs
        b.count = int(counts.sum())
    else:
        b.counts = b.displs = None
    return b


HUGE = 1 << 25
_BLOCK = 1 << 16
_ZERO = ctypes.create_string_buffer(_BLOCK)
_memcmp = ctypes.CDLL(None).memcmp
_memcmp.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t]


def nonzero_blocks(ptr, n):
    """Offsets and contents of the blocks of [ptr, ptr+n) which are not all zero"""
    z = ctypes.addressof(_ZERO)
    for o in range(0, n, _BLOCK):
        m = min(_BLOCK, n - o)
        if _memcmp(ptr + o, z, m):
            yield o, m


class Sparse:
    """The contents of a very large buffer which is nearly all zeros"""
    def __init__(self, ptr, n):
        self.n = n
        self.blocks = [(o, ctypes.string_at(ptr + o, m)) for o, m in nonzero_blocks(ptr, n)]

    def __len__(self):
        return self.n

    def __getitem__(self, k):
        if not (isinstance(k, slice) and k.start is None and k.step is None):
            raise SimUnsupported("part of a large message")
        r = Sparse(0, 0)
        r.n = k.indices(self.n)[1]
        r.blocks = [(o, d[:r.n - o]) for o, d in self.blocks if o < r.n]
        return r

    def write(self, ptr):
        z = ctypes.addressof(_ZERO)
        todo = dict(self.blocks)
        for o in range(0, self.n, _BLOCK):
            m = min(_BLOCK, self.n - o)
            if o in todo:
                ctypes.memmove(ptr + o, todo[o], m)
            elif _memcmp(ptr + o, z, m):
                ctypes.memset(ptr + o, 0, m)


def get_bytes(b, first=0, count=None):
    if count is None:
        count = b.count
    n = count * b.itemsize
    if n <= 0:
        return b""
    if n > HUGE:
        return Sparse(b.ptr + first * b.itemsize, n)
    return ctypes.string_at(b.ptr + first * b.itemsize, n)


def put_bytes(b, data, first=0):
    if isinstance(data, Sparse):
        data.write(b.ptr + first * b.itemsize)
    elif data:
        ctypes.memmove(b.ptr + first * b.itemsize, data, len(data))


# ---------------------------------------------------------------- operators
class Op:
    def __init__(self, fn, pyfn, name, commute=True, predefined=True, arrayfn=None):
        self.fn = fn          # on arrays: fn(a, b) -> result
        self.pyfn = pyfn      # on objects
        self.name = name
        self.commute = commute
        self.is_predefined = predefined

    def __call__(self, x, y):
        return self.pyfn(x, y)

    def Is_commutative(self): return self.commute
    is_commutative = property(Is_commutative)

    def Reduce_local(self, inbuf, inoutbuf):
        a = parse(inbuf)
        b = parse(inoutbuf, write=True)
        if a.count * a.itemsize != b.count * b.itemsize:
            raise ValueError("Reduce_local(): mismatch in send count %d and receive count %d" % (a.count, b.count))
        x = np.frombuffer(get_bytes(a), dtype=a.dtype)
        y = np.frombuffer(get_bytes(b), dtype=b.dtype)
        r = np.asarray(self.fn(x, y))
        put_bytes(b, r.astype(b.dtype).tobytes())

    def Free(self):
        pass

    @classmethod
    def Create(cls, function, commute=False):
        def arr(x, y):
            y = y.copy()
            function(memoryview(x), memoryview(y), None)
            return y
        return cls(arr, function, "user", commute, False)


def _loc(better):
    def fn(x, y):
        if x[0] == y[0]:
            return (x[0], min(x[1], y[1]))
        return x if better(x[0], y[0]) else y
    return fn

SUM = Op(np.add, lambda x, y: x + y, "SUM")
PROD = Op(np.multiply, lambda x, y: x * y, "PROD")
MAX = Op(np.maximum, lambda x, y: y if y > x else x, "MAX")
MIN = Op(np.minimum, lambda x, y: y if y < x else x, "MIN")
LAND = Op(np.logical_and, lambda x, y: bool(x) & bool(y), "LAND")
LOR = Op(np.logical_or, lambda x, y: bool(x) | bool(y), "LOR")
LXOR = Op(np.logical_xor, lambda x, y: bool(x) ^ bool(y), "LXOR")
BAND = Op(np.bitwise_and, lambda x, y: x & y, "BAND")
BOR = Op(np.bitwise_or, lambda x, y: x | y, "BOR")
BXOR = Op(np.bitwise_xor, lambda x, y: x ^ y, "BXOR")
MAXLOC = Op(None, _loc(lambda a, b: a > b), "MAXLOC")
MINLOC = Op(None, _loc(lambda a, b: a < b), "MINLOC")


# ---------------------------------------------------------------- status, requests
class Status:
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG
        self.error = 0
        self._nbytes = 0
        self._cancelled = False
    def Get_source(self): return self.source
    def Get_tag(self): return self.tag
    def Get_error(self): return self.error
    def Set_source(self, s): self.source = s
    def Set_tag(self, t): self.tag = t
    def Is_cancelled(self): return self._cancelled
    def Get_count(self, datatype=None):
        return self._nbytes // (datatype.extent_ if datatype is not None else 1)
    Get_elements = Get_count
    count = property(lambda self: self._nbytes)
    def _set(self, m):
        self.source, self.tag, self._nbytes = m.src, m.tag, m.nbytes()


class Message:
    __slots__ = ("src", "dst", "tag", "data", "buf", "first", "state", "req", "seq", "kind", "chan", "eager")
    # state: 0 posted, 1 arrived (may be matched), 2 matched, 3 done
    def nbytes(self):
        if self.data is not None:
            return len(self.data)
        return self.buf.count * self.buf.itemsize

    def payload(self):
        """The bytes sent; reads the sender's buffer if not captured yet"""
        if self.data is None:
            self.data = get_bytes(self.buf)
        return self.data


class RecvPost:
    __slots__ = ("src", "tag", "buf", "pickled", "msg", "done", "status", "obj", "err", "dst")


class Request:
    """Non-blocking operation"""
    def __init__(self, sim, me, kind, msg=None, post=None):
        self.sim = sim
        self.owner = me
        self.kind = kind
        self.msg = msg
        self.post = post
        self.complete = False
        sim.handle("request", 1)

    def _ready(self):
        if self.complete:
            return True
        if self.kind == "send":
            return self.msg.state >= 2 or self.msg.eager
        if self.kind == "recv":
            return self.post.msg is not None
        return self.post()

    def _finish(self, status=None):
        if self.complete:
            return self.post.obj if self.kind == "recv" else None
        self.complete = True
        self.sim.handle("request", -1)
        if self.kind == "send":
            # the buffer belongs to the caller again: contents are fixed now
            self.msg.payload()
            return None
        if self.kind == "recv":
            fill(self.sim, self.post)
            if status is not None:
                status._set(self.post.msg)
            if self.post.err:
                raise MPIException(self.post.err)
            return self.post.obj
        return self.msg()

    def _waitfor(self, status=None):
        sim, me = _need()
        if me is not self.owner:
            raise SimViolation("foreign-request", "request completed by another process")
        sim.event(me.rank, "wait %s" % self.kind)
        sim.yield_(me, "Wait")
        sim.block(me, self._ready, "Wait(%s)" % self.kind)
        return self._finish(status)

    def Wait(self, status=None):
        self._waitfor(status)
        return True

    def wait(self, status=None):
        return self._waitfor(status)

    def Test(self, status=None):
        sim, me = _need()
        sim.yield_(me, "Test")
        if self._ready():
            self._finish(status)
            return True
        return False

    def test(self, status=None):
        if self.Test(status):
            return (True, self.post.obj if self.kind == "recv" else None)
        return (False, None)

    def Cancel(self):
        raise SimUnsupported("Request.Cancel")

    def Free(self):
        if self.kind != "send":
            raise SimUnsupported("Request.Free of a receive or collective")
        if not self.complete:
            # the send goes on; its buffer may still be read later
            self.complete = True
            self.sim.handle("request", -1)

    def Get_status(self, status=None):
        sim, me = _need()
        sim.yield_(me, "Get_status")
        return self._ready()

    @staticmethod
    def _waitall(requests, statuses=None):
        sim, me = _need()
        requests = [r for r in requests if r is not None and r is not REQUEST_NULL]
        sim.event(me.rank, "waitall %d" % len(requests))
        sim.yield_(me, "Waitall")
        todo = list(requests)
        while todo:
            sim.block(me, lambda: any(r._ready() for r in todo), "Waitall(%d left)" % len(todo))
            rdy = [r for r in todo if r._ready()]
            r = rdy[sim.choose(len(rdy), "waitall")]
            r._finish()
            todo.remove(r)
        return [r.post.obj if r.kind == "recv" else None for r in requests]

    @classmethod
    def Waitall(cls, requests, statuses=None):
        cls._waitall(requests, statuses)
        return True

    @classmethod
    def waitall(cls, requests, statuses=None):
        return cls._waitall(requests, statuses)

    @classmethod
    def Testall(cls, requests, statuses=None):
        sim, me = _need()
        sim.yield_(me, "Testall")
        requests = [r for r in requests if r is not None and r is not REQUEST_NULL]
        if all(r._ready() for r in requests):
            for r in requests:
                r._finish()
            return True
        return False

    @classmethod
    def Waitany(cls, requests, status=None):
        sim, me = _need()
        sim.yield_(me, "Waitany")
        todo = [r for r in requests if r is not None and r is not REQUEST_NULL and not r.complete]
        if not todo:
            return UNDEFINED
        sim.block(me, lambda: any(r._ready() for r in todo), "Waitany")
        rdy = [r for r in todo if r._ready()]
        r = rdy[sim.choose(len(rdy), "waitany")]
        r._finish(status)
        return requests.index(r)

    @classmethod
    def waitany(cls, requests, status=None):
        i = cls.Waitany(requests, status)
        if i == UNDEFINED:
            return (i, None)
        r = requests[i]
        return (i, r.post.obj if r.kind == "recv" else None)

    @classmethod
    def Waitsome(cls, requests, statuses=None):
        i = cls.Waitany(requests)
        return None if i == UNDEFINED else [i]

    @classmethod
    def waitsome(cls, requests, statuses=None):
        i, x = cls.waitany(requests)
        return (None, None) if i == UNDEFINED else ([i], [x])

    @classmethod
    def Testany(cls, requests, status=None):
        sim, me = _need()
        sim.yield_(me, "Testany")
        todo = [r for r in requests if r is not None and r is not REQUEST_NULL and not r.complete]
        if not todo:
            return (UNDEFINED, True)
        rdy = [r for r in todo if r._ready()]
        if not rdy:
            return (UNDEFINED, False)
        r = rdy[sim.choose(len(rdy), "testany")]
        r._finish(status)
        return (requests.index(r), True)

    @classmethod
    def testany(cls, requests, status=None):
        i, flag = cls.Testany(requests, status)
        return (i, flag, requests[i].post.obj if i != UNDEFINED and requests[i].kind == "recv" else None)

    @classmethod
    def Testsome(cls, requests, statuses=None):
        i, flag = cls.Testany(requests)
        return ([] if not flag else None) if i == UNDEFINED else [i]

    @classmethod
    def testsome(cls, requests, statuses=None):
        i, flag, x = cls.testany(requests)
        return (([], []) if not flag else (None, None)) if i == UNDEFINED else ([i], [x])

    @classmethod
    def testall(cls, requests, statuses=None):
        if not cls.Testall(requests):
            return (False, None)
        return (True, [r.post.obj if r is not REQUEST_NULL and r.kind == "recv" else None for r in requests])


class MatchedMessage:
    """What a matched probe gives"""
    def __init__(self, comm, m):
        self.comm, self.m = comm, m

    def _start(self, buf, pickled):
        if self.m is None:
            raise MPIException("MPI_ERR_REQUEST: message received already")
        p = RecvPost()
        p.src, p.tag, p.dst, p.buf, p.pickled = self.m.src, self.m.tag, self.m.dst, buf, pickled
        p.obj = p.err = None
        p.done = False
        p.msg, self.m = self.m, None
        return p

    def recv(self, status=None):
        sim, me, st = self.comm._enter()
        return self.comm._finish_recv(sim, me, self._start(None, True), "Message.recv", status)

    def Recv(self, buf, status=None):
        sim, me, st = self.comm._enter()
        self.comm._finish_recv(sim, me, self._start(parse(buf, write=True), False), "Message.Recv", status)

    def irecv(self):
        sim, me, st = self.comm._enter()
        return Request(sim, me, "recv", post=self._start(None, True))

    def Irecv(self, buf):
        sim, me, st = self.comm._enter()
        return Request(sim, me, "recv", post=self._start(parse(buf, write=True), False))


class _ReqNull:
    def Wait(self, status=None): return True
    def wait(self, status=None): return None
    def Test(self, status=None): return True
REQUEST_NULL = _ReqNull()


def fill(sim, post):
    """Move a matched message into the receive buffer"""
    if post.done:
        return
    post.done = True
    data = post.msg.payload()
    post.msg.state = 3
    if post.pickled:
        post.obj = pickle.loads(data)
        return
    if len(data) > post.buf.count * post.buf.itemsize:
        post.err = "MPI_ERR_TRUNCATE: message truncated"
        data = data[:post.buf.count * post.buf.itemsize]
    put_bytes(post.buf, data)


class Delivery:
    """The event 'the oldest undelivered message of this channel arrives'"""
    __slots__ = ("st", "msg")
    def __init__(self, st, msg):
        self.st, self.msg = st, msg
    def deliver(self):
        m = self.msg
        sim = self.st.sim
        sim.event(m.dst, "arrive %d<-%d tag %d" % (m.dst, m.src, m.tag))
        if sim.steps - m.seq[0] > 10:
            sim.hit("message delayed by more than 10 steps")
        if any(q and q[0].seq < m.seq for n in sim.net if isinstance(n, CommState) for q in n.chan.values()):
            sim.hit("message overtakes an older one")
        self.st.sim.clock += 1e-4
        m.state = 1
        self.st.arrived(m)


# ---------------------------------------------------------------- communicators
class CommState:
    """What the members of one communicator share"""
    def __init__(self, sim, ranks, name):
        self.sim = sim
        self.ranks = ranks              # world rank of each member
        self.size = len(ranks)
        self.name = name
        self.chan = {}                  # (src,dst) -> undelivered messages in order
        self.unexpected = [[] for _ in ranks]  # arrived, unmatched
        self.posts = [[] for _ in ranks]       # posted receives, unmatched
        self.slots = {}                 # collective operations by sequence number
        self.nslot = [0] * self.size
        self.freed = [False] * self.size
        self.sent = 0
        sim.net.append(self)

    def pending(self):
        return [Delivery(self, q[0]) for k, q in sorted(self.chan.items()) if q]

    def post_message(self, m):
        self.sent += 1
        m.state = 0
        sim = self.sim
        sim.nmsg = getattr(sim, "nmsg", 0) + 1
        m.seq = (sim.steps, sim.nmsg)
        self.chan.setdefault((m.src, m.dst), []).append(m)

    def arrived(self, m):
        q = self.chan[(m.src, m.dst)]
        q.pop(0)
        for p in self.posts[m.dst]:
            if p.src in (ANY_SOURCE, m.src) and p.tag in (ANY_TAG, m.tag):
                self.posts[m.dst].remove(p)
                self.match(m, p)
                return
        self.unexpected[m.dst].append(m)

    def match(self, m, p):
        m.state = 2
        p.msg = m
        if not self.sim.coin(self.sim.cfg["p_late_write"], "late-write"):
            if not p.pickled:
                fill(self.sim, p)
        else:
            self.sim.hit("receive buffer filled late")

    def post_recv(self, p):
        for m in self.unexpected[p.dst]:
            if p.src in (ANY_SOURCE, m.src) and p.tag in (ANY_TAG, m.tag):
                self.unexpected[p.dst].remove(m)
                self.match(m, p)
                return
        self.posts[p.dst].append(p)

    def leftovers(self):
        n = sum(len(q) for q in self.chan.values()) + sum(len(q) for q in self.unexpected)
        return n + sum(len(q) for q in self.posts)


class Slot:
    """One collective operation"""
    __slots__ = ("sig", "arrived", "data", "sync", "result", "order", "left")
    def __init__(self, sig):
        self.sig = sig
        self.arrived = {}
        self.sync = None
        self.result = {}
        self.order = None
        self.left = 0


class Comm:
    def __init__(self, st, rank):
        self._st = st
        self._rank = rank
        self._nb = False        # start the next collective without waiting for it
        self._nbreq = None

    # --- plumbing
    def _enter(self):
        sim, me = _need()
        st = self._st
        if st.ranks[self._rank] != me.rank:
            raise SimViolation("foreign-comm", "communicator handle used by another process")
        if st.freed[self._rank]:
            raise SimViolation("freed-comm", "communicator used after Free")
        me.nops += 1
        f = sim.fault_point(me, "mpi")
        if f is not None:
            if f["kind"] == "kill":
                # ends at once, without running any handler; mpirun then ends the job
                if sim.failed is None:
                    sim.failed = me.rank
                me.what = "killed"
                sim.stopping = True
                raise SimKilled()
            if f["kind"] == "interrupt":
                raise KeyboardInterrupt()
            if f["kind"] == "mpi-error":
                raise MPIException("MPI_ERR_OTHER: injected failure")
            if f["kind"] == "memory":
                raise MemoryError("injected failure")
        return sim, me, st

    def Get_rank(self):
        _need()
        return self._rank

    def Get_size(self):
        _need()
        return self._st.size

    rank = property(Get_rank)
    size = property(Get_size)
    name = property(lambda self: self._st.name)
    def Get_name(self): return self._st.name
    def Set_name(self, name): pass
    is_inter = False
    is_intra = True
    def Is_inter(self): return False
    def Is_intra(self): return True
    def Set_errhandler(self, e): pass
    def Get_errhandler(self): return None

    def __eq__(self, other):
        return isinstance(other, (Comm, CommWorld)) and other._st is self._st
    def __hash__(self):
        return id(self._st)
    def __bool__(self):
        return not self._st.freed[self._rank]

    def Abort(self, errorcode=0):
        sim, me = current()
        if sim is None:
            raise SimUnsupported("Abort outside a simulated process")
        sim.abort(me, errorcode)

    # --- collectives
    def _collective(self, sig, contrib, need, result):
        """
        Take part in the next collective of this communicator.

        need(slot) says whether this rank can leave; result(slot) computes
        what it leaves with.
        """
        sim, me, st = self._enter()
        k = st.nslot[self._rank]
        st.nslot[self._rank] = k + 1
        slot = st.slots.get(k)
        sim.event(me.rank, "%s #%d %s" % (st.name, k, sig))
        sim.count(sig[0])
        if slot is None:
            slot = st.slots[k] = Slot(sig)
            slot.sync = sim.coin(sim.cfg["p_sync"], "sync")
        elif slot.sig != sig:
            raise SimViolation("collective-mismatch", "%s: collective number %d is %s on rank %d, %s on rank %s"
                               % (st.name, k, sig, self._rank, slot.sig, sorted(slot.arrived)))
        slot.arrived[self._rank] = contrib
        n = st.size
        if self._nb:
            self._nb = False
            def complete():
                result(slot)
                slot.left += 1
                if slot.left == n:
                    del st.slots[k]
            sim.yield_(me, "I%s on %s" % (sig[0], st.name))
            self._nbreq = Request(sim, me, "coll", msg=complete,
                                  post=(lambda: len(slot.arrived) == n or (not slot.sync and need(slot))))
            return None
        sim.yield_(me, "%s on %s" % (sig[0], st.name))
        if slot.sync:
            ready = lambda: len(slot.arrived) == n
        else:
            ready = lambda: need(slot)
            if len(slot.arrived) < n and need(slot):
                sim.hit("collective left before all arrived")
        sim.block(me, ready, "%s on %s (%d of %d here)" % (sig[0], st.name, len(slot.arrived), n))
        res = result(slot)
        slot.left += 1
        if slot.left == n:
            del st.slots[k]
        return res

    def _all(self, slot):
        return len(slot.arrived) == self._st.size

    def Barrier(self):
        self._collective(("Barrier",), None, self._all, lambda s: None)
    barrier = Barrier

    def bcast(self, obj, root=0):
        self._root(root)
        data = pickle.dumps(obj, -1) if self._rank == root else None
        def res(s):
            if self._rank == root:
                return obj
            return pickle.loads(s.arrived[root])
        return self._collective(("bcast", root), data, lambda s: root in s.arrived, res)

    def _root(self, root):
        if not (_isint(root) and 0 <= root < self._st.size):
            raise MPIException("MPI_ERR_ROOT: invalid root %r" % (root,))

    def gather(self, sendobj, root=0):
        self._root(root)
        me = self._rank
        def res(s):
            if me != root:
                return None
            return [pickle.loads(s.arrived[i]) for i in range(self._st.size)]
        return self._collective(("gather", root), pickle.dumps(sendobj, -1),
                                (self._all if me == root else lambda s: True), res)

    def allgather(self, sendobj):
        return self._collective(("allgather",), pickle.dumps(sendobj, -1), self._all,
                                lambda s: [pickle.loads(s.arrived[i]) for i in range(self._st.size)])

    def scatter(self, sendobj, root=0):
        self._root(root)
        me = self._rank
        data = None
        if me == root:
            sendobj = list(sendobj)
            if len(sendobj) != self._st.size:
                raise ValueError("expecting %d items, got %d" % (self._st.size, len(sendobj)))
            data = [pickle.dumps(o, -1) for o in sendobj]
        return self._collective(("scatter", root), data, lambda s: root in s.arrived,
                                lambda s: pickle.loads(s.arrived[root][me]))

    def alltoall(self, sendobj):
        sendobj = list(sendobj)
        if len(sendobj) != self._st.size:
            raise ValueError("expecting %d items, got %d" % (self._st.size, len(sendobj)))
        return self._collective(("alltoall",), [pickle.dumps(o, -1) for o in sendobj], self._all,
                                lambda s: [pickle.loads(s.arrived[i][self._rank]) for i in range(self._st.size)])

    def _order(self, slot, op, ranks):
        sim = self._st.sim
        if slot.order is None:
            order = list(range(self._st.size))
            if op.commute and sim.cfg["reorder_reduce"]:
                for i in range(len(order) - 1, 0, -1):
                    j = i - sim.choose(i + 1, "reduce-order")
                    order[i], order[j] = order[j], order[i]
            slot.order = order
        return [r for r in slot.order if r in ranks]

    def _reduce_obj(self, slot, op, ranks):
        vals = [pickle.loads(slot.arrived[r]) for r in self._order(slot, op, ranks)]
        acc = vals[0]
        for v in vals[1:]:
            acc = op(acc, v)
        return acc

    def _op(self, op):
        if not isinstance(op, Op) and not callable(op):
            raise TypeError("expecting an MPI operator")
        if not isinstance(op, Op):
            op = Op(None, op, "callable", False, False)
        return op

    def allreduce(self, sendobj, op=SUM):
        op = self._op(op)
        allr = range(self._st.size)
        return self._collective(("allreduce", op.name), pickle.dumps(sendobj, -1), self._all,
                                lambda s: self._reduce_obj(s, op, allr))

    def reduce(self, sendobj, op=SUM, root=0):
        self._root(root)
        op = self._op(op)
        me = self._rank
        return self._collective(("reduce", op.name, root), pickle.dumps(sendobj, -1),
                                (self._all if me == root else lambda s: True),
                                lambda s: self._reduce_obj(s, op, range(self._st.size)) if me == root else None)

    def scan(self, sendobj, op=SUM):
        op = self._op(op)
        upto = range(self._rank + 1)
        return self._collective(("scan", op.name), pickle.dumps(sendobj, -1),
                                lambda s: all(r in s.arrived for r in upto),
                                lambda s: self._reduce_obj(s, op, upto))

    def exscan(self, sendobj, op=SUM):
        op = self._op(op)
        upto = range(self._rank)
        return self._collective(("exscan", op.name), pickle.dumps(sendobj, -1),
                                lambda s: all(r in s.arrived for r in upto),
                                lambda s: self._reduce_obj(s, op, upto) if self._rank else None)

    # buffer collectives
    def Bcast(self, buf, root=0):
        self._root(root)
        me = self._rank
        b = parse(buf, write=(me != root))
        data = get_bytes(b) if me == root else None
        def res(s):
            if me != root:
                d = s.arrived[root]
                if len(d) > b.count * b.itemsize:
                    raise MPIException("MPI_ERR_TRUNCATE: message truncated")
                put_bytes(b, d)
        self._collective(("Bcast", root), data, lambda s: root in s.arrived, res)

    def _put(self, b, data, first, room, what):
        if len(data) > room * b.itemsize:
            raise MPIException("MPI_ERR_TRUNCATE: message truncated in %s" % what)
        put_bytes(b, data, first)

    def _pair(self, sendbuf, recvbuf, blocks):
        if sendbuf is IN_PLACE:
            raise SimUnsupported("IN_PLACE")
        return parse(sendbuf), parse(recvbuf, write=True, blocks=blocks)

    def Allgather(self, sendbuf, recvbuf):
        n = self._st.size
        r = parse(recvbuf, write=True, blocks=n)
        per = r.count // n
        if sendbuf is IN_PLACE:
            data = get_bytes(r, self._rank * per, per)
        else:
            data = get_bytes(parse(sendbuf))
        def res(s):
            for i in range(n):
                self._put(r, s.arrived[i], i * per, per, "Allgather")
        self._collective(("Allgather",), data, self._all, res)

    def Gather(self, sendbuf, recvbuf, root=0):
        self._root(root)
        n = self._st.size
        me = self._rank
        s_ = parse(sendbuf)
        r = parse(recvbuf, write=True, blocks=n) if me == root else None
        def res(s):
            if me == root:
                per = r.count // n
                for i in range(n):
                    self._put(r, s.arrived[i], i * per, per, "Gather")
        self._collective(("Gather", root), get_bytes(s_), (self._all if me == root else lambda s: True), res)

    def Scatter(self, sendbuf, recvbuf, root=0):
        self._root(root)
        n = self._st.size
        me = self._rank
        r = parse(recvbuf, write=True)
        data = None
        if me == root:
            b = parse(sendbuf, blocks=n)
            per = b.count // n
            data = [get_bytes(b, i * per, per) for i in range(n)]
        self._collective(("Scatter", root), data, lambda s: root in s.arrived,
                         lambda s: self._put(r, s.arrived[root][me], 0, r.count, "Scatter"))

    def Allgatherv(self, sendbuf, recvbuf):
        n = self._st.size
        r = parse(recvbuf, size=n, vector=True, write=True)
        s_ = parse(sendbuf)
        def res(s):
            for i in range(n):
                self._put(r, s.arrived[i], int(r.displs[i]), int(r.counts[i]), "Allgatherv")
        self._collective(("Allgatherv",), get_bytes(s_), self._all, res)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self._root(root)
        n = self._st.size
        me = self._rank
        s_ = parse(sendbuf)
        r = parse(recvbuf, size=n, vector=True, write=True) if me == root else None
        if me == root and r.keep is None:
            raise ValueError("Gatherv: no receive buffer on the root")
        def res(s):
            if me == root:
                for i in range(n):
                    self._put(r, s.arrived[i], int(r.displs[i]), int(r.counts[i]), "Gatherv")
        self._collective(("Gatherv", root), get_bytes(s_), (self._all if me == root else lambda s: True), res)

    def Scatterv(self, sendbuf, recvbuf, root=0):
        self._root(root)
        n = self._st.size
        me = self._rank
        r = parse(recvbuf, write=True)
        data = None
        if me == root:
            b = parse(sendbuf, size=n, vector=True)
            data = [get_bytes(b, int(b.displs[i]), int(b.counts[i])) for i in range(n)]
        self._collective(("Scatterv", root), data, lambda s: root in s.arrived,
                         lambda s: self._put(r, s.arrived[root][me], 0, r.count, "Scatterv"))

    def Alltoall(self, sendbuf, recvbuf):
        n = self._st.size
        s_ = parse(sendbuf, blocks=n)
        r = parse(recvbuf, write=True, blocks=n)
        sp, rp = s_.count // n, r.count // n
        data = [get_bytes(s_, i * sp, sp) for i in range(n)]
        def res(s):
            for i in range(n):
                self._put(r, s.arrived[i][self._rank], i * rp, rp, "Alltoall")
        self._collective(("Alltoall",), data, self._all, res)

    def Alltoallv(self, sendbuf, recvbuf):
        n = self._st.size
        s_ = parse(sendbuf, size=n, vector=True)
        r = parse(recvbuf, size=n, vector=True, write=True)
        data = [get_bytes(s_, int(s_.displs[i]), int(s_.counts[i])) for i in range(n)]
        def res(s):
            for i in range(n):
                self._put(r, s.arrived[i][self._rank], int(r.displs[i]), int(r.counts[i]), "Alltoallv")
        self._collective(("Alltoallv",), data, self._all, res)

    def _reduce_arr(self, slot, op, ranks):
        acc = None
        for i in self._order(slot, op, ranks):
            d, dt = slot.arrived[i]
            x = np.frombuffer(d, dtype=dt)
            if acc is not None and len(x) != len(acc):
                raise SimViolation("collective-mismatch", "reduction of %d and %d elements" % (len(acc), len(x)))
            acc = x if acc is None else np.asarray(op.fn(acc, x)).astype(dt)
        return acc.tobytes()

    def _redbuf(self, sendbuf, recvbuf):
        if sendbuf is IN_PLACE:
            r = parse(recvbuf, write=True)
            return r, r
        s_ = parse(sendbuf)
        r = parse(recvbuf, write=True) if recvbuf is not None else None
        if r is not None and s_.count * s_.itemsize != r.count * r.itemsize:
            raise ValueError("mismatch in send count %d and receive count %d" % (s_.count, r.count))
        return s_, r

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        s_, r = self._redbuf(sendbuf, recvbuf)
        allr = range(self._st.size)
        self._collective(("Allreduce", op.name), (get_bytes(s_), s_.dtype), self._all,
                         lambda s: put_bytes(r, self._reduce_arr(s, op, allr)))

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        self._root(root)
        me = self._rank
        s_, r = self._redbuf(sendbuf, recvbuf if me == root else None)
        self._collective(("Reduce", op.name, root), (get_bytes(s_), s_.dtype),
                         (self._all if me == root else lambda s: True),
                         lambda s: put_bytes(r, self._reduce_arr(s, op, range(self._st.size))) if me == root else None)

    def Scan(self, sendbuf, recvbuf, op=SUM):
        s_, r = self._redbuf(sendbuf, recvbuf)
        upto = range(self._rank + 1)
        self._collective(("Scan", op.name), (get_bytes(s_), s_.dtype), lambda s: all(i in s.arrived for i in upto),
                         lambda s: put_bytes(r, self._reduce_arr(s, op, upto)))

    def Reduce_scatter(self, sendbuf, recvbuf, recvcounts=None, op=SUM):
        n = self._st.size
        if sendbuf is IN_PLACE:
            raise SimUnsupported("Reduce_scatter(IN_PLACE)")
        s_, r = parse(sendbuf), parse(recvbuf, write=True)
        if recvcounts is None:
            if r.count * n != s_.count:
                raise SimUnsupported("Reduce_scatter without counts")
            recvcounts = [r.count] * n
        c = [int(x) for x in recvcounts]
        if len(c) != n or sum(c) != s_.count or c[self._rank] != r.count:
            raise ValueError("mismatch in send count %d and receive counts %s" % (s_.count, c))
        a, b = sum(c[:self._rank]) * s_.itemsize, sum(c[:self._rank + 1]) * s_.itemsize
        self._collective(("Reduce_scatter", op.name, tuple(c)), (get_bytes(s_), s_.dtype), self._all,
                         lambda s: put_bytes(r, self._reduce_arr(s, op, range(n))[a:b]))

    def Reduce_scatter_block(self, sendbuf, recvbuf, op=SUM):
        r = parse(recvbuf)
        self.Reduce_scatter(sendbuf, recvbuf, [r.count] * self._st.size, op)

    def Exscan(self, sendbuf, recvbuf, op=SUM):
        s_, r = self._redbuf(sendbuf, recvbuf)
        upto = range(self._rank)
        self._collective(("Exscan", op.name), (get_bytes(s_), s_.dtype), lambda s: all(i in s.arrived for i in upto),
                         lambda s: put_bytes(r, self._reduce_arr(s, op, upto)) if self._rank else None)

    # --- communicator management
    def Split(self, color=0, key=0):
        st = self._st
        if color == UNDEFINED:
            c = None
        else:
            c = int(color)
            if c < 0:
                raise MPIException("MPI_ERR_ARG: negative color")
        me = self._rank
        def res(s):
            if c is None:
                return COMM_NULL
            if c not in s.result:
                members = sorted((k, i) for i, (cc, k) in s.arrived.items() if cc == c)
                ranks = [i for _, i in members]
                st.sim.ncomm = getattr(st.sim, "ncomm", 0) + 1
                s.result[c] = (CommState(st.sim, [st.ranks[i] for i in ranks], "comm%d" % st.sim.ncomm), ranks)
            ns, ranks = s.result[c]
            st.sim.handle("comm", 1)
            return Comm(ns, ranks.index(me))
        return self._collective(("Split",), (c, int(key)), self._all, res)

    def Dup(self, info=None):
        return self.Split(0, self._rank)

    Clone = Dup

    def Split_type(self, split_type, key=0, info=None):
        # all ranks share a node
        return self.Split(0, key)

    def Free(self):
        sim, me, st = self._enter()
        sim.event(me.rank, "%s free" % st.name)
        if st.name == "world":
            raise MPIException("MPI_ERR_COMM: cannot free COMM_WORLD")
        left = [m for m in st.unexpected[self._rank]] + st.posts[self._rank]
        if left:
            raise SimViolation("lost-message", "communicator freed on rank %d with %d unmatched messages or receives" % (self._rank, len(left)))
        st.freed[self._rank] = True
        sim.handle("comm", -1)
        if all(st.freed):
            n = st.leftovers()
            if n:
                raise SimViolation("lost-message", "communicator freed with %d unreceived messages" % n)
            if st in sim.net:
                sim.net.remove(st)

    Disconnect = Free

    def Get_group(self):
        raise SimUnsupported("groups")

    # --- point to point
    def _msg(self, dest, tag, data=None, buf=None):
        st = self._st
        if not _isint(dest) or not 0 <= dest < st.size:
            raise MPIException("MPI_ERR_RANK: invalid rank %r" % (dest,))
        if not _isint(tag) or not 0 <= tag <= _MAXTAG:
            raise MPIException("MPI_ERR_TAG: invalid tag %r" % (tag,))
        if buf is not None and buf.count * buf.itemsize > _INT_MAX:
            # many MPI libraries can't transfer these
            raise MPIException("MPI_ERR_OTHER: message of %d bytes" % (buf.count * buf.itemsize))
        m = Message()
        m.src, m.dst, m.tag = self._rank, int(dest), int(tag)
        m.data, m.buf = data, buf
        m.req = None
        m.eager = st.sim.coin(st.sim.cfg["p_eager"], "eager")
        if not m.eager:
            st.sim.hit("send waits for its receiver")
        if buf is not None:
            if m.eager or not st.sim.coin(st.sim.cfg["p_late_read"], "late-read"):
                m.payload()
            else:
                st.sim.hit("send buffer read late")
        st.post_message(m)
        return m

    def _post(self, source, tag, buf=None, pickled=False):
        st = self._st
        if not _isint(source) or not (source == ANY_SOURCE or 0 <= source < st.size):
            raise MPIException("MPI_ERR_RANK: invalid rank %r" % (source,))
        if buf is not None and buf.count > _INT_MAX:
            raise OverflowError("integer %d does not fit in 'int'" % buf.count)
        p = RecvPost()
        p.src, p.tag, p.buf, p.pickled = int(source), int(tag), buf, pickled
        p.msg = p.obj = p.err = None
        p.done = False
        p.dst = self._rank
        st.post_recv(p)
        return p

    def _finish_send(self, sim, me, m, what):
        sim.block(me, lambda: m.eager or m.state >= 2, what)
        m.payload()

    def _finish_recv(self, sim, me, p, what, status):
        sim.block(me, lambda: p.msg is not None, what)
        fill(sim, p)
        if status is not None:
            status._set(p.msg)
        if p.err:
            raise MPIException(p.err)
        return p.obj

    def send(self, obj, dest, tag=0):
        sim, me, st = self._enter()
        if dest == PROC_NULL:
            return
        m = self._msg(dest, tag, data=pickle.dumps(obj, -1))
        sim.event(me.rank, "%s send ->%d tag %d (%d)" % (st.name, m.dst, m.tag, m.nbytes()))
        sim.count("send")
        sim.yield_(me, "send")
        self._finish_send(sim, me, m, "send to %d" % dest)

    ssend = bsend = send

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        sim, me, st = self._enter()
        if source == PROC_NULL:
            return None
        p = self._post(source, tag, pickled=True)
        sim.event(me.rank, "%s recv <-%d tag %d" % (st.name, p.src, p.tag))
        sim.count("recv")
        sim.yield_(me, "recv")
        return self._finish_recv(sim, me, p, "recv from %d" % source, status)

    def isend(self, obj, dest, tag=0):
        sim, me, st = self._enter()
        if dest == PROC_NULL:
            return REQUEST_NULL
        m = self._msg(dest, tag, data=pickle.dumps(obj, -1))
        sim.event(me.rank, "%s isend ->%d" % (st.name, m.dst))
        sim.count("isend")
        sim.yield_(me, "isend")
        return Request(sim, me, "send", msg=m)

    issend = ibsend = isend

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        sim, me, st = self._enter()
        if source == PROC_NULL:
            return REQUEST_NULL
        p = self._post(source, tag, pickled=True)
        sim.event(me.rank, "%s irecv <-%d" % (st.name, p.src))
        sim.count("irecv")
        sim.yield_(me, "irecv")
        return Request(sim, me, "recv", post=p)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        sim, me, st = self._enter()
        p = None if source == PROC_NULL else self._post(source, recvtag, pickled=True)
        m = None if dest == PROC_NULL else self._msg(dest, sendtag, data=pickle.dumps(sendobj, -1))
        sim.event(me.rank, "%s sendrecv ->%d <-%d" % (st.name, dest, source))
        sim.count("sendrecv")
        sim.yield_(me, "sendrecv")
        if m is not None:
            self._finish_send(sim, me, m, "sendrecv (send to %d)" % dest)
        if p is not None:
            return self._finish_recv(sim, me, p, "sendrecv (recv from %d)" % source, status)

    def Send(self, buf, dest, tag=0):
        sim, me, st = self._enter()
        if dest == PROC_NULL:
            return
        m = self._msg(dest, tag, buf=parse(buf))
        sim.event(me.rank, "%s Send ->%d tag %d (%d)" % (st.name, m.dst, m.tag, m.nbytes()))
        sim.count("Send")
        sim.yield_(me, "Send")
        self._finish_send(sim, me, m, "Send to %d" % dest)

    Bsend = Rsend = Send

    def Sendrecv_replace(self, buf, dest, sendtag=0, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        sim, me, st = self._enter()
        m = None if dest == PROC_NULL else self._msg(dest, sendtag, buf=parse(buf))
        if m is not None:
            m.payload()
        p = None if source == PROC_NULL else self._post(source, recvtag, buf=parse(buf, write=True))
        sim.event(me.rank, "%s Sendrecv_replace ->%d <-%d" % (st.name, dest, source))
        sim.yield_(me, "Sendrecv_replace")
        if m is not None:
            self._finish_send(sim, me, m, "Sendrecv_replace (send to %d)" % dest)
        if p is not None:
            self._finish_recv(sim, me, p, "Sendrecv_replace (recv from %d)" % source, status)

    def Ssend(self, buf, dest, tag=0):
        sim, me, st = self._enter()
        m = self._msg(dest, tag, buf=parse(buf))
        m.payload()
        m.eager = False
        sim.event(me.rank, "%s Ssend ->%d" % (st.name, m.dst))
        sim.yield_(me, "Ssend")
        self._finish_send(sim, me, m, "Ssend to %d" % dest)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        sim, me, st = self._enter()
        if source == PROC_NULL:
            return
        p = self._post(source, tag, buf=parse(buf, write=True))
        sim.event(me.rank, "%s Recv <-%d tag %d" % (st.name, p.src, p.tag))
        sim.count("Recv")
        sim.yield_(me, "Recv")
        self._finish_recv(sim, me, p, "Recv from %d" % source, status)

    def Isend(self, buf, dest, tag=0):
        sim, me, st = self._enter()
        if dest == PROC_NULL:
            return REQUEST_NULL
        m = self._msg(dest, tag, buf=parse(buf))
        sim.event(me.rank, "%s Isend ->%d (%d)" % (st.name, m.dst, m.nbytes()))
        sim.count("Isend")
        sim.yield_(me, "Isend")
        return Request(sim, me, "send", msg=m)

    Issend = Ibsend = Isend

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        sim, me, st = self._enter()
        if source == PROC_NULL:
            return REQUEST_NULL
        p = self._post(source, tag, buf=parse(buf, write=True))
        sim.event(me.rank, "%s Irecv <-%d" % (st.name, p.src))
        sim.count("Irecv")
        sim.yield_(me, "Irecv")
        return Request(sim, me, "recv", post=p)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        sim, me, st = self._enter()
        p = None if source == PROC_NULL else self._post(source, recvtag, buf=parse(recvbuf, write=True))
        m = None if dest == PROC_NULL else self._msg(dest, sendtag, buf=parse(sendbuf))
        sim.event(me.rank, "%s Sendrecv ->%d <-%d (%d)" % (st.name, dest, source, m.nbytes() if m else 0))
        sim.count("Sendrecv")
        sim.yield_(me, "Sendrecv")
        if m is not None:
            self._finish_send(sim, me, m, "Sendrecv (send to %d)" % dest)
        if p is not None:
            self._finish_recv(sim, me, p, "Sendrecv (recv from %d)" % source, status)

    def _probe(self, source, tag, status):
        st = self._st
        for m in st.unexpected[self._rank]:
            if source in (ANY_SOURCE, m.src) and tag in (ANY_TAG, m.tag):
                if status is not None:
                    status._set(m)
                return True
        return False

    def Iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        sim, me, st = self._enter()
        sim.event(me.rank, "%s Iprobe" % st.name)
        sim.count("Iprobe")
        sim.yield_(me, "Iprobe")
        return self._probe(source, tag, status)

    iprobe = Iprobe

    def Probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        sim, me, st = self._enter()
        sim.yield_(me, "Probe")
        sim.block(me, lambda: self._probe(source, tag, None), "Probe")
        self._probe(source, tag, status)
        return True

    probe = Probe

    def _take(self, source, tag, status):
        st = self._st
        for m in st.unexpected[self._rank]:
            if source in (ANY_SOURCE, m.src) and tag in (ANY_TAG, m.tag):
                st.unexpected[self._rank].remove(m)
                m.state = 2
                if status is not None:
                    status._set(m)
                return MatchedMessage(self, m)
        return None

    def Improbe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        sim, me, st = self._enter()
        sim.event(me.rank, "%s Improbe" % st.name)
        sim.yield_(me, "Improbe")
        return self._take(source, tag, status)

    improbe = Improbe

    def Mprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        sim, me, st = self._enter()
        sim.yield_(me, "Mprobe")
        sim.block(me, lambda: self._probe(source, tag, None), "Mprobe")
        return self._take(source, tag, status)

    mprobe = Mprobe

    def py2f(self): return 0

    def __getattr__(self, name):
        if name.startswith("__") or name in ("_st", "_rank"):
            raise AttributeError(name)
        if name in _NONBLOCKING:
            def start(*args, **kwargs):
                self._nb = True
                try:
                    getattr(self, _NONBLOCKING[name])(*args, **kwargs)
                finally:
                    self._nb = False
                return self._nbreq
            return start
        if name in _KNOWN:
            raise SimUnsupported("MPI.Comm.%s" % name)
        raise AttributeError(name)


_NONBLOCKING = {"I" + n.lower(): n for n in ("Barrier", "Bcast", "Gather", "Gatherv", "Scatter", "Scatterv", "Allgather", "Allgatherv",
                                             "Alltoall", "Alltoallv", "Allreduce", "Reduce", "Scan", "Exscan", "Reduce_scatter", "Reduce_scatter_block")}
_KNOWN = set("""Alltoallw Ialltoallw
Create Create_group Create_cart Send_init Recv_init Get_attr Idup
Dup_with_info Create_graph Get_topology Spawn Connect Accept Irsend Ssend_init Get_info Set_info group""".split())


class CommNull:
    def __eq__(self, other): return isinstance(other, CommNull)
    def __hash__(self): return 0
    def __bool__(self): return False
    def __getattr__(self, name):
        raise MPIException("MPI_ERR_COMM: invalid communicator")
COMM_NULL = CommNull()


class CommWorld:
    """The same object on every rank; resolves to the caller's own handle"""
    def _mine(self):
        sim, me = current()
        if sim is None:
            raise SimUnsupported("COMM_WORLD outside a simulated process")
        return sim.world[me.rank]

    @property
    def _st(self):
        return self._mine()._st

    def Get_rank(self):
        return self._mine().Get_rank()

    def Get_size(self):
        return self._mine().Get_size()

    rank = property(Get_rank)
    size = property(Get_size)

    def __eq__(self, other):
        return self is other or (isinstance(other, Comm) and other._st is self._st)
    def __hash__(self): return 1

    def __getattr__(self, name):
        return getattr(self._mine(), name)


class CommSelf(CommWorld):
    def _mine(self):
        sim, me = current()
        if sim is None:
            raise SimUnsupported("COMM_SELF outside a simulated process")
        if "self" not in me.local:
            me.local["self"] = Comm(CommState(sim, [me.rank], "world"), 0)
        return me.local["self"]


COMM_WORLD = CommWorld()
COMM_SELF = CommSelf()


def Finalize():
    sim, me = current()
    if me.finalized:
        raise SimViolation("mpi-after-finalize", "MPI_Finalize called twice")
    # collective over all processes
    COMM_WORLD._mine()._collective(("Finalize",), None, COMM_WORLD._mine()._all, lambda s: None)
    me.finalized = True

def Is_finalized():
    sim, me = current()
    return me.finalized if me else False

def Is_initialized():
    return True

def Wtime():
    sim, me = current()
    sim.clock += 1e-6
    return sim.clock

def Get_processor_name():
    return "node0"

def _make_module():
    m = types.ModuleType("mpi4py.MPI")
    g = globals()
    for k in ("ANY_SOURCE", "ANY_TAG", "PROC_NULL", "UNDEFINED", "IN_PLACE", "SUM", "PROD", "MAX", "MIN", "LAND", "LOR",
              "LXOR", "BAND", "BOR", "BXOR", "MAXLOC", "MINLOC", "COMM_WORLD", "COMM_SELF", "COMM_NULL", "Comm", "Op",
              "Request", "Status", "Datatype", "REQUEST_NULL", "BYTE", "Finalize", "Is_finalized", "Is_initialized",
              "Wtime", "Get_processor_name", "_typedict"):
        setattr(m, k, g[k])
    m.Intracomm = Comm
    m.Message = MatchedMessage
    m.Exception = MPIException
    m.INFO_NULL = None
    m.COMM_TYPE_SHARED = 1
    m.THREAD_MULTIPLE = 3
    m.ERRORS_RETURN = 1
    m.ERRORS_ARE_FATAL = 0
    m.Query_thread = lambda: 0
    for name, c in dict(BOOL="?", C_BOOL="?", CHAR="b", SIGNED_CHAR="b", UNSIGNED_CHAR="B", SHORT="h", UNSIGNED_SHORT="H", INT="i",
                        UNSIGNED="I", UNSIGNED_INT="I", LONG="l", UNSIGNED_LONG="L", LONG_LONG="q", UNSIGNED_LONG_LONG="Q", FLOAT="f",
                        DOUBLE="d", LONG_DOUBLE="g", COMPLEX="F", DOUBLE_COMPLEX="D", INT8_T="b", UINT8_T="B", INT16_T="h",
                        UINT16_T="H", INT32_T="i", UINT32_T="I", INT64_T="l", UINT64_T="L").items():
        setattr(m, name, _typedict[c])
    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise SimUnsupported("MPI.%s" % name)
    m.__getattr__ = missing
    return m

module = None

def install():
    """Replace mpi4py.MPI and mpi4py.util.dtlib in this process"""
    global module
    if module is not None:
        return module
    import mpi4py
    import mpi4py.util
    if "mpi4py.MPI" in sys.modules:
        raise RuntimeError("the real mpi4py.MPI is loaded already")
    module = _make_module()
    sys.modules["mpi4py.MPI"] = module
    mpi4py.MPI = module
    d = types.ModuleType("mpi4py.util.dtlib")
    d.from_numpy_dtype = from_numpy_dtype
    sys.modules["mpi4py.util.dtlib"] = d
    mpi4py.util.dtlib = d
    return module


def attach(sim):
    """Give a simulation its COMM_WORLD"""
    st = CommState(sim, list(range(sim.nranks)), "world")
    sim.world = [Comm(st, r) for r in range(sim.nranks)]
    sim.world_state = st
    return sim
