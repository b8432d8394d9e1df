PS = "python/virgo/mpi/parallel_sort.py"
UT = "python/virgo/mpi/util.py"
MT = "python/virgo/mpi/merger_tree.py"
GA = "python/virgo/mpi/gather_array.py"
PH = "python/virgo/mpi/parallel_hdf5.py"
EC = "python/virgo/mpi/errchk.py"
HEAD = """import sys, numpy as np
from mpi4py import MPI
comm = MPI.COMM_WORLD; rank = comm.Get_rank(); size = comm.Get_size()
def fail(msg):
    sys.stderr.write("FAIL on rank %d: %s\\n" % (rank, msg)); sys.stderr.flush(); comm.Abort(3)
import virgo.mpi.parallel_sort as psort
"""
WRAP = HEAD + """
def main():
%s
try:
    main()
except Exception as e:
    import traceback; traceback.print_exc(); fail(repr(e))
comm.Barrier()
if rank == 0:
    open("finished", "w").close()
"""
def D(body):
    return WRAP.replace("%s\ntry", "\n".join("    " + l for l in body.strip("\n").splitlines()) + "\ntry")
BUGS = [
dict(id="b01-sort-index-inorder", prop="C01", np=3,
 edits=[(PS, """            index = index[sort_idx1]
            del sort_idx1
            # Exchange index data in same way as array values
            index_tmp = np.ndarray(sum(recv_count), dtype=index_dtype)
            my_alltoallv(index,     send_count, send_displ,
                         index_tmp, recv_count, recv_displ,
                         comm=mycomm)
""", """            # Exchange index data in same way as array values,
            # unless no elements have changed rank
            nr_moved = mycomm.allreduce(n - send_count[mycomm_rank])
            if nr_moved > 0 or mycomm_size == 1:
                index = index[sort_idx1]
                index_tmp = np.ndarray(sum(recv_count), dtype=index_dtype)
                my_alltoallv(index,     send_count, send_displ,
                             index_tmp, recv_count, recv_displ,
                             comm=mycomm)
            else:
                index_tmp = index.copy()
            del sort_idx1
""")],
 needs="several ranks which hold consecutive ranges of values, unsorted within a rank, and an index requested", breaks="the index leaves out the local sort",
 demo=D("""
arr = np.array([3, 1, 2]) + 10 * rank
a = np.concatenate(comm.allgather(arr))
ind = np.concatenate(comm.allgather(psort.parallel_sort(arr, return_index=True)))
if not np.array_equal(a[ind], np.sort(a)): fail(str(ind))
""")),
dict(id="b02-match-cast", prop="C02", np=2,
 edits=[(PS, """    arr1 = np.asanyarray(arr1)
    arr2 = np.asanyarray(arr2)

    # Sanity checks on input arrays""", """    arr2 = np.asanyarray(arr2)
    arr1 = np.asanyarray(arr1).astype(arr2.dtype, copy=False)

    # Sanity checks on input arrays""")],
 needs="element types which differ, with a value of the first array outside the range of the second's type", breaks="values wrap around (or are truncated) and match elements they are not equal to",
 demo=D("""
a = np.array([2**32+5, 7, -1], dtype=np.int64)
b = np.array([5, 6, 7, 2**32-1], dtype=np.uint32) if rank == 0 else np.array([9], dtype=np.uint32)
r = psort.parallel_match(a, b)
if list(r) != [-1, 2, -1]: fail(str(r))
""")),
dict(id="b03-unique-count-span", prop="C03", np=4,
 edits=[(PS, """        while rank_nr < mycomm_size and all_first_unique[rank_nr] == all_last_unique[mycomm_rank]:
            local_count[-1] += all_first_counts[rank_nr]
            rank_nr += 1
""", """        while rank_nr < mycomm_size and all_first_unique[rank_nr] == all_last_unique[mycomm_rank]:
            local_count[-1] += all_first_counts[rank_nr]
            # A rank with other values too is the last one with this value
            rank_nr = rank_nr + 1 if all_last_counts[rank_nr] == all_first_counts[rank_nr] else mycomm_size
"""),
  ],
 needs="", breaks="", demo=""),
dict(id="b03-unique-subcomm", prop="C03", np=4,
 edits=[(PS, """        local_count = repartition(local_count, ndesired, comm=comm)

    # Return the results""", """        local_count = repartition(local_count, ndesired)

    # Return the results""")],
 needs="balanced output requested on a communicator other than the world", breaks="counts are repartitioned over the wrong communicator: hang or abort",
 demo=D("""
c = comm.Split(rank // 2, rank)
a = np.array([1, 1, 2, 3, 3, 3]) if rank % 2 else np.array([4, 5, 9])
v, n = psort.parallel_unique(a, comm=c, return_counts=True, repartition_output=True)
v, n = np.concatenate(c.allgather(v)), np.concatenate(c.allgather(n))
if list(v) != [1, 2, 3, 4, 5, 9] or list(n) != [2, 1, 3, 1, 1, 1]: fail(str(n))
""")),
dict(id="b04-bincount-narrow", prop="C04", np=2,
 edits=[(PS, """    if weights is None:
        weights = np.ones(len(x), dtype=index_dtype)""", """    if weights is None:
        weights = np.ones(len(x), dtype=x.dtype)""")],
 needs="an 8 (or 16) bit input array with more equal values on a rank than that type can count", breaks="counts wrap around",
 demo=D("""
x = np.full(300, 3, dtype=np.uint8)
r = np.concatenate(comm.allgather(psort.parallel_bincount(x)))
if list(r) != [0, 0, 0, 600]: fail(str(r))
""")),
dict(id="b05-fetch-3d", prop="C05", np=2,
 edits=[(PS, """    n        = arr.shape[0]
    nperproc = comm.allgather(n)
    ntot     = sum(nperproc)

    # Check total doesn't change""", """    n        = arr.shape[0]
    nvalues  = arr.shape[-1] if arr.ndim > 1 else 1
    nperproc = comm.allgather(n)
    ntot     = sum(nperproc)

    # Check total doesn't change""")],
 needs="an array with three or more dimensions", breaks="only part of each element is transferred",
 demo=D("""
a = (np.arange(24).reshape(4, 3, 2) + 100*rank)
r = psort.repartition(a, [1, 7])
exp = np.concatenate([np.arange(24).reshape(4, 3, 2) + 100*k for k in range(2)])
exp = exp[:1] if rank == 0 else exp[1:]
if not np.array_equal(r, exp): fail("repartition")
""")),
dict(id="b06-async-chunks", prop="C06", np=3,
 edits=[(PS, """            while left_to_recv > 0:
                num_to_recv = min((left_to_recv, nchunk))
                recv_buf_spec = [recvbuf[current_recv_offset:current_recv_offset+num_to_recv], mpi_type_recv]
                receives.append(comm.Irecv(recv_buf_spec, rank))
                left_to_recv        -= num_to_recv
                current_recv_offset += num_to_recv""",
 """            while left_to_recv > 0:
                num_to_recv = min((left_to_recv, nchunk))
                left_to_recv -= num_to_recv
                recv_buf_spec = [recvbuf[current_recv_offset+left_to_recv:current_recv_offset+left_to_recv+num_to_recv], mpi_type_recv]
                receives.append(comm.Irecv(recv_buf_spec, rank))""")],
 needs="the async method and a block larger than the message size limit", breaks="the pieces of a block are received in reverse order",
 demo="import os\nos.environ['VIRGODC_SIM_MAX_MESSAGE_BYTES'] = '32'\n" + D("""
for method in ("hypercube", "async"):
    n = 8
    s = np.arange(size*n, dtype=np.int64) + 1000*rank
    r = np.zeros_like(s); c = np.full(size, n); o = np.cumsum(c) - c
    psort.my_alltoallv(s, c, o, r, c, o, comm=comm, method=method)
    e = np.concatenate([np.arange(n) + rank*n + 1000*k for k in range(size)])
    if not np.array_equal(r, e): fail(method + str(r))
""")),
dict(id="b06-hypercube-offset", prop="C06", np=3,
 edits=[(PS, """                    left_to_recv        -= num_to_recv
                    current_recv_offset += num_to_recv
    elif""", """                    left_to_recv        -= num_to_recv
                    current_recv_offset += num_to_send
    elif""")],
 needs="a pair of ranks which exchange blocks of different size, at least one larger than the message size limit", breaks="data is received at the wrong offset",
 demo="import os\nos.environ['VIRGODC_SIM_MAX_MESSAGE_BYTES'] = '32'\n" + D("""
n = 1 + 7*rank                      # send n elements to everybody
s = np.arange(size*n, dtype=np.int64) + 1000*rank
c = np.full(size, n); rc = np.array([1 + 7*k for k in range(size)])
o = np.cumsum(c) - c; ro = np.cumsum(rc) - rc
r = np.zeros(rc.sum(), dtype=np.int64)
psort.my_alltoallv(s, c, o, r, rc, ro, comm=comm)
e = np.concatenate([np.arange(rc[k]) + rank*rc[k] + 1000*k for k in range(size)])
if not np.array_equal(r, e): fail(str(r))
""")),
dict(id="b07-unique-leak", prop="C07", np=2,
 edits=[(PS, """        local_unique = np.zeros(0, dtype=arr.dtype)
        local_count = np.zeros(0, dtype=int)

    mycomm.Free()
""", """        local_unique = np.zeros(0, dtype=arr.dtype)
        local_count = np.zeros(0, dtype=int)
        mycomm.Free()
""")],
 needs="many repeated calls", breaks="ranks with data never free the communicator they split off",
 demo=D("""
real = MPI.Comm
live = [0]
class C:
    def __init__(self, c): self._c = c
    def __getattr__(self, n): return getattr(self._c, n)
    def Split(self, *a, **k):
        live[0] += 1
        return C(self._c.Split(*a, **k))
    def Free(self):
        live[0] -= 1
        self._c.Free()
c = C(comm)
psort.parallel_unique(np.array([1, 2, 2, 3]), comm=c, return_counts=True)
if live[0]: fail("%d communicators left" % live[0])
""")),
dict(id="b08-errchk-interrupt", prop="C08", np=3, timeout=40,
 edits=[(EC, """        except (Exception, KeyboardInterrupt) as e:""", """        except Exception as e:""")],
 needs="an interrupt (not an exception) on one rank while others wait for it", breaks="the job is not aborted: it hangs, the other ranks wait for ever", demo=None,
 sh=None),
dict(id="b13-empty-groups", prop="C13", np=2,
 edits=[(UT, """    for i in range(nr_groups_local):
        # Find first rank this group should be sent to""", """    for i in np.flatnonzero(length > 0):
        # Find first rank this group should be sent to""")],
 needs="a group without particles between two groups with particles", breaks="the range of groups sent to a rank is too short: the last groups' particles are left unassigned",
 demo=D("""
import virgo.mpi.util as util
length = np.array([1, 0, 2, 0, 0, 3]); offset = np.array([0, 1, 1, 3, 3, 3])
if rank == 1: length = length[:0]; offset = offset[:0]
g = util.group_index_from_length_and_offset(length, offset, 3)
e = [0, 2, 2] if rank == 0 else [5, 5, 5]
if list(g) != e: fail(str(g))
""")),
dict(id="b14-consistent-zero", prop="C14", np=2,
 edits=[(MT, """    match_back = -np.ones(nr_local_halos, dtype=int)""", """    match_back = np.zeros(nr_local_halos, dtype=int)""")],
 needs="halo 0 of the first catalogue without a match", breaks="halo 0 is reported as consistently matched",
 demo=D("""
from virgo.mpi.merger_tree import consistent_match
m12 = np.array([-1, 1]) if rank == 0 else np.array([2])
m21 = np.array([-1, 1, 2]) if rank == 0 else np.zeros(0, dtype=int)
c = consistent_match(m12, m21)
e = [0, 1] if rank == 0 else [1]
if list(c) != e: fail(str(c))
""")),
dict(id="b15-gather-dims", prop="C15", np=3,
 edits=[(UT, """    arr_shapes = comm.allgather(arr_shape)
    for ashp in arr_shapes:
        if ashp is not None and arr_shape is None:
            arr_shape = ashp
""", """    arr_shapes = comm.allgather(arr_shape)
    for ashp in arr_shapes:
        if ashp and not arr_shape:
            arr_shape = ashp
""")],
 needs="a 1D array absent on some rank", breaks="ranks without the array raise an exception (no trailing shape was found)",
 demo=D("""
import virgo.mpi.util as util
a = None if rank == 1 else np.arange(3.0)
r = util.replace_none_with_zero_size(a)
if rank == 1 and (r.shape != (0,) or r.dtype != np.float64): fail(str(r))
""")),
]
BUGS += [
dict(id="b06-isend-nowait", prop="C06", np=2,
 edits=[(PS, """                    comm.Sendrecv(send_buf_spec, rank, 0, recv_buf_spec, rank, 0)
""", """                    send_request = comm.Isend(send_buf_spec, rank, 0)
                    comm.Recv(recv_buf_spec, rank, 0)
                    # The exchange with this rank is complete now, so this does not wait
                    send_request.Free()
""")],
 needs="a large message whose receiver is late, and a send buffer which is changed after the call", breaks="the call returns before the data has left the send buffer",
 demo=D("""
import time
n = 3000000
s = np.full(2*n, rank + 1.0); r = np.zeros(2*n)
if rank == 0:
    c = np.array([0, n]); rc = np.array([0, 0])
else:
    c = np.array([0, 0]); rc = np.array([n, 0])
if rank == 1: time.sleep(2)
psort.my_alltoallv(s, c, np.array([0, n]), r, rc, np.array([0, n]), comm=comm)
s[:] = -1
if rank == 1 and not np.all(r[:n] == 1.0): fail("overwritten")
""")),
]
BUGS = [b for b in BUGS if b["id"] not in ("b15-gather-dims",) and b["id"] != "b03-unique-count-span"]
for b in BUGS:
    if b["id"].startswith("b08"):
        del b["sh"]
        b["demo"] = """
# the job must end by itself (with an error) soon after a rank fails
import os, subprocess, sys
job = '''
from mpi4py import MPI
from virgo.mpi.errchk import mpi_errchk
@mpi_errchk
def f():
    if MPI.COMM_WORLD.Get_rank() == 1:
        raise KeyboardInterrupt()
    MPI.COMM_WORLD.recv(source=1, tag=77)
f()
'''
open("job.py", "w").write(job)
p = subprocess.Popen(["mpirun", "--oversubscribe", "-n", "3", sys.executable, "job.py"])
try:
    rc = p.wait(30)
except subprocess.TimeoutExpired:
    p.terminate()
    try: p.wait(5)
    except subprocess.TimeoutExpired: p.kill()
    sys.exit("the job hangs")
sys.exit(0 if rc else "the job ended without an error")
"""
        b["np"] = None
        b["timeout"] = 60
