exec(open("/verif/tools/specs/a.py").read().split("BUGS = [")[0])
BUGS = [
dict(id="b03-input-sorted", prop="C03", np=2,
 edits=[(PS, """        if not arr_sorted:
            arr = arr.copy()
            parallel_sort(arr, comm=mycomm)

        # Find unique""", """        if not arr_sorted:
            # mpi4py needs native endian data in a contiguous array
            arr = np.ascontiguousarray(arr, dtype=arr.dtype.newbyteorder("="))
            parallel_sort(arr, comm=mycomm)

        # Find unique""")],
 needs="a contiguous array of native byte order which is used again after the call", breaks="the caller's array is sorted in place",
 demo=D("""
a = np.array([5, 3, 3, 9 + rank, 1])
k = a.copy()
u = psort.parallel_unique(a)
u = np.concatenate(comm.allgather(u))
if list(u) != sorted({1, 3, 5} | {9 + r for r in range(size)}): fail("values %s" % u)
if not np.array_equal(a, k): fail("input is now %s" % a)
""")),
dict(id="b04-unbuffered", prop="C04", np=2,
 edits=[(PS, """        # op is a numpy ufunc
        op.at(arr, index_recv, updates_recv)
""", """        # op is a numpy ufunc
        if nvalues > 1 and np.all(index[1:] != index[:-1]):
            # No element is updated twice, so there's no need for the slow ufunc.at()
            arr[index_recv,...] = op(arr[index_recv,...], updates_recv)
        else:
            op.at(arr, index_recv, updates_recv)
""")],
 needs="elements with several values each, and an element updated from two ranks but at most once by each", breaks="only one of the updates is applied",
 demo=D("""
arr = np.zeros((3, 2))
idx = np.array([4, 1]) if rank == 0 else np.array([0, 4, 5])
psort.reduce_elements(arr, np.ones((len(idx), 2)), idx, op=np.add)
want = np.zeros((3 * size, 2))
for i in np.concatenate(comm.allgather(idx)): want[i] += 1
got = np.concatenate(comm.allgather(arr))
if not np.array_equal(got, want): fail(str(got))
""")),
dict(id="b07-send-then-receive", prop="C07", np=2,
 edits=[(PS, """        comm.Sendrecv([sendbuf[send_offset:send_offset+nr_send], mpi_type_send], dest,
                      recvbuf=[recvbuf[recv_offset:recv_offset+nr_recv], mpi_type_recv],
                      source=dest)
""", """        if nr_send > 0:
            comm.Send([sendbuf[send_offset:send_offset+nr_send], mpi_type_send], dest)
        if nr_recv > 0:
            comm.Recv([recvbuf[recv_offset:recv_offset+nr_recv], mpi_type_recv], dest)
""")],
 needs="messages too large to be buffered by MPI", breaks="both sides wait for the other to receive", timeout=40,
 demo=D("""
for n in (10, 10**6):
    a = np.arange(n) + rank
    b = np.zeros(n, dtype=a.dtype)
    psort.sendrecv(1 - rank, a, b)
    if not np.array_equal(b, np.arange(n) + 1 - rank): fail("data")
""")),
dict(id="b09-type-size", prop="C09", np=2,
 edits=[(PH, """    dtype_rank0 = comm.bcast(dtype_local)
    if comm.allreduce(dtype_local != dtype_rank0, op=MPI.LOR):
""", """    dtype_rank0 = comm.bcast(dtype_local)
    # (byte order may differ)
    if comm.allreduce(dtype_local.itemsize != dtype_rank0.itemsize, op=MPI.LOR):
""")],
 needs="ranks which pass types of the same size, such as float32 and int32", breaks="data is converted to the type of one of the ranks, or each rank creates another type of dataset, instead of an error",
 demo=D("""
import h5py, virgo.mpi.parallel_hdf5 as ph
class G:
    def __init__(self): self.id = None
bad = False
import unittest.mock as mock
made = []
def create(*a, **k): made.append(1); raise SystemExit
with mock.patch("h5py.h5d.create", create):
    try:
        ph.collective_write(G(), "x", np.ones(3, dtype="f4" if rank == 0 else "i4"), comm)
    except ValueError:
        pass
    except SystemExit:
        fail("went on to create the dataset")
""")),
dict(id="b11-attrs-empty", prop="C11", np=1,
 edits=[(PH, """                    dataset[...] = data[name][offset:offset+length,...]
                    if attrs is not None and name in attrs:
""", """                    if length == 0:
                        continue # Nothing to write to this file
                    dataset[...] = data[name][offset:offset+length,...]
                    if attrs is not None and name in attrs:
""")],
 needs="attributes, and a file which has no elements", breaks="the empty dataset lacks the requested attributes",
 demo=D("""
import h5py, virgo.mpi.parallel_hdf5 as ph
for i, n in enumerate([3, 0, 2]):
    with h5py.File("f.%d" % i, "w") as f: f["x"] = np.ones(n)
mf = ph.MultiFile("f.%(file_nr)d", file_idx=[0, 1, 2])
mf.write({"y": mf.read("x")}, mf.get_elements_per_file("x"), "g.%(file_nr)d", "w", attrs={"y": {"unit": "cm"}})
for i in range(3):
    with h5py.File("g.%d" % i, "r") as f:
        if f["y"].attrs.get("unit") != "cm": fail("file %d" % i)
""")),
dict(id="b12-keyerror", prop="C12", np=1,
 edits=[(PH, """                elif group in infile:
                    # We have a group name and it exists in the file
                    loc = infile[group]
                else:
                    # The specified group does not exist in this file
                    loc = None

                # Read the data, skipping""", """                else:
                    # We have a group name, but it may not exist in this file
                    try:
                        loc = infile[group]
                    except KeyError:
                        loc = None

                # Read the data, skipping""")],
 needs="a file whose group can't be opened because of damage or an I/O error, which h5py reports as a KeyError", breaks="the file's rows are left out without an error",
 demo=D("""
import h5py, virgo.mpi.parallel_hdf5 as ph
for i in range(3):
    with h5py.File("f.%d" % i, "w") as f:
        f["PartType0/x"] = np.ones(3) + i
        addr = h5py.h5o.get_info(f["PartType0"].id).addr
mf = ph.MultiFile("f.%(file_nr)d", file_idx=[0, 1, 2])
if len(mf.read("x", group="PartType0")) != 9: fail("clean")
with open("f.1", "r+b") as f:
    f.seek(addr); f.write(b"\\xff" * 8)
try:
    x = mf.read("x", group="PartType0")
except Exception as e:
    print("error, as it should be:", e)
else:
    fail("got %s" % x)
""")),
dict(id="b14-key-overflow", prop="C14", np=2,
 edits=[(MT, """    grnr_pair = grnr_pair[keep]
    del keep
        
    # Find unique (grnr1, grnr2) combinations and number of instances of each
    unique_grnr, unique_grnr_count = psort.parallel_unique(grnr_pair, comm=comm, arr_sorted=False,
                                                           return_counts=True, repartition_output=True)
""", """    grnr_pair = grnr_pair[keep]
    del keep

    # Find unique (grnr1, grnr2) combinations and number of instances of each.
    # Sorting a single integer is much faster than sorting pairs.
    nr_halos2 = int(comm.allreduce(np.amax(grnr_pair["grnr2"], initial=0), op=MPI.MAX)) + 1
    key = grnr_pair["grnr1"] * nr_halos2 + grnr_pair["grnr2"]
    unique_key, unique_grnr_count = psort.parallel_unique(key, comm=comm, arr_sorted=False,
                                                          return_counts=True, repartition_output=True)
    unique_grnr = np.ndarray(len(unique_key), dtype=grnr_pair_t)
    unique_grnr["grnr1"] = unique_key // nr_halos2
    unique_grnr["grnr2"] = unique_key % nr_halos2
    del unique_key
""")],
 needs="32 bit group numbers and more than about 46000 halos in both catalogues", breaks="the product overflows, and matches are assigned to other halos",
 demo=D("""
import virgo.mpi.merger_tree as mt
nh = 60000
ids = np.arange(8) + 8 * rank
g1 = np.array([0, 0, 5, 5, 59998, 59998, 59999, -1], dtype=np.int32) - (0 if rank == 0 else 0)
g2 = np.array([59999, 59999, 7, 7, 59998, 59998, 3, 3], dtype=np.int32)
m = mt.match_halos(g1, ids, g2, ids, nh if rank == 0 else 0)
m = np.concatenate(comm.allgather(m))
w = -np.ones(nh, dtype=int); w[0] = 59999; w[5] = 7; w[59998] = 59998; w[59999] = 3
if not np.array_equal(m, w): fail("%s" % np.flatnonzero(m != w))
""")),
dict(id="b15-negative-axis", prop="C15", np=2,
 edits=[(GA, """    if axis != 0 and outdata is not None:
        outdata = outdata.swapaxes(0, axis)
""", """    if outdata is not None and axis > 0:
        outdata = outdata.swapaxes(0, axis)
""")],
 needs="an axis counted from the end", breaks="the axes of the result are swapped",
 demo=D("""
import virgo.mpi.gather_array as ga
a = np.arange(6).reshape(2, 3) + 10 * rank
w = np.concatenate(comm.allgather(a), axis=-1)
for r in (ga.allgather_array(a, axis=-1), ga.allgather_array(a, axis=1)):
    if r.shape != w.shape or not np.array_equal(r, w): fail("%s" % (r,))
""")),
]
