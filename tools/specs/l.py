exec(open("/verif/tools/specs/a.py").read().split("BUGS = [")[0])
BUGS = [
dict(id="b01-endian-copy", prop="C01", np=2,
 edits=[(PS, """        print("parallel_sort.py: Unable to operate on non-native endian data!")
        comm.Abort()
""", """        arr = arr.astype(arr.dtype.newbyteorder("="))
""")],
 needs="an array in the other byte order", breaks="a copy in native byte order is sorted, the caller's array isn't, while the index says it was",
 after="[ -e started.0 ] && [ ! -e wrong ]",
 demo=D("""
arr = (np.arange(5)[::-1] + 3 * rank).astype(">i8")
a = np.concatenate(comm.allgather(arr.astype("i8")))
open("started.%d" % rank, "w").close()
psort.parallel_sort(arr, comm=comm)
b = np.concatenate(comm.allgather(arr.astype("i8")))
if not np.array_equal(b, np.sort(a)): open("wrong", "w").close()
""")),
dict(id="b04-short-result", prop="C04", np=2,
 edits=[(PS, """        if comm.allreduce(len(result)) < total_nr_bins:
            raise""", """        if comm.allreduce(len(result), op=MPI.MAX) * comm_size < total_nr_bins:
            raise"""),
        (PS, """    assert np.all(index_recv >= 0)
    assert np.all(index_recv <= len(arr))
""", """    in_range = (index_recv >= 0) & (index_recv < len(arr))
    index_recv, updates_recv = index_recv[in_range], updates_recv[in_range]
""")],
 needs="a result array which is too small in total, as most but not all ranks have enough", breaks="counts of the largest values are dropped without an error",
 demo=D("""
x = np.array([0, 1, 2, 4, 4])
result = np.zeros((3, 1)[rank], dtype=int)
try:
    psort.parallel_bincount(x, result=result, comm=comm)
except Exception:
    return
fail("returned %s" % result)
""")),
]
