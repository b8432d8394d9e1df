exec(open("/tmp/specs/a.py").read().split("BUGS = [")[0])
H5H = HEAD.replace("import virgo.mpi.parallel_sort as psort", "import h5py, os\nimport virgo.mpi.parallel_hdf5 as phdf5")
def DH(body):
    return D(body).replace("import virgo.mpi.parallel_sort as psort", "import h5py, os\nimport virgo.mpi.parallel_hdf5 as phdf5")
BUGS = [
dict(id="b02-match-early-return", prop="C02", np=3, timeout=40,
 edits=[(PS, """    if comm.allreduce(arr2.shape[0]) == 0:
        return -np.ones(arr1.shape, dtype=index_dtype)
""", """    if comm.allreduce(arr2.shape[0], op=MPI.MIN) == 0 and comm.allreduce(int(arr2.shape[0] > 0)) < 2:
        return -np.ones(arr1.shape, dtype=index_dtype)
""")],
 needs="a second array which is stored on a single rank of several", breaks="no element is found",
 demo=D("""
a = np.array([7, 1, 3]) if rank != 1 else np.array([2])
b = np.array([3, 7]) if rank == 2 else np.zeros(0, dtype=int)
r = psort.parallel_match(a, b)
e = [1, -1, 0] if rank != 1 else [-1]
if list(r) != e: fail(str(r))
""")),
dict(id="b09-read-last-chunk", prop="C09", np=2,
 edits=[(PH, """        if num_on_task[comm_rank] % buffer_size_elements > 0:
            local_nr_iterations += 1""", """        if local_nr_bytes % buffer_size > 0:
            local_nr_iterations += 1""")],
 needs="a buffer which does not hold a whole number of rows and a share of the data which is a multiple of the buffer size", breaks="the last rows of a rank are never read: it gets uninitialised memory",
 demo=DH("""
with h5py.File("x.hdf5", "w", driver="mpio", comm=comm) as f:
    f.create_dataset("d", data=np.arange(60).reshape(20, 3) + 1)
with h5py.File("x.hdf5", "r", driver="mpio", comm=comm) as f:
    d = phdf5.collective_read(f["d"], comm, buffer_size=80)   # 24 bytes per row, 240 bytes per rank
if not np.array_equal(d, np.arange(60).reshape(20, 3)[rank*10:rank*10+10] + 1): fail(str(d))
""")),
dict(id="b10-file-nr-sparse", prop="C10", np=2,
 edits=[(PH, """                                file_nr[name].append(np.ones(n, dtype=int)*self.all_file_indexes[i])""",
             """                                file_nr[name].append(np.full(n, i, dtype=int))""")],
 needs="a set of files whose indexes are not 0..N-1, at least as many files as ranks, and file numbers requested", breaks="the file numbers returned are positions in the list",
 demo=DH("""
if rank == 0:
    for i in (3, 5, 8):
        with h5py.File("f.%d.hdf5" % i, "w") as f: f["d"] = np.full(2, i)
comm.Barrier()
mf = phdf5.MultiFile("f.%(file_nr)d.hdf5", file_idx=(3, 5, 8), comm=comm)
d, nr = mf.read("d", return_file_nr=("d",))
if not np.array_equal(d, nr): fail(str(nr))
""")),
dict(id="b10-collective-attrs", prop="C10", np=3,
 edits=[(PH, """                if len(files_on_rank) > 99: pass""", "")] if False else
 [(PH, """    if remainder > 0:
        step = max(nr_files // (remainder+1), 1)
        for i in range(remainder):
            files_on_rank[(i*step) % nr_ranks] += 1""", """    if remainder > 0:
        # Spread the extra files over the ranks
        step = max(nr_ranks // remainder, 1)
        for i in range(remainder):
            files_on_rank[i*step] += 1
        # Ranks without files can't take part in the read
        files_on_rank[files_on_rank==0] = 0""")],
 needs="", breaks="", demo="pass"),
dict(id="b11-write-sparse-names", prop="C11", np=2,
 edits=[(PH, """            all_filenames = [substitute_file_nr(filenames, i) for i in self.all_file_indexes]""",
             """            all_filenames = [substitute_file_nr(filenames, i) for i in range(len(self.filenames))]""")],
 needs="a set of files whose indexes are not 0..N-1 written with a name pattern", breaks="output files are named by position: they do not correspond to (and might overwrite other) input files",
 demo=DH("""
if rank == 0:
    for i in (3, 5, 8):
        with h5py.File("f.%d.hdf5" % i, "w") as f: f["d"] = np.full(i, i)
comm.Barrier()
mf = phdf5.MultiFile("f.%(file_nr)d.hdf5", file_idx=(3, 5, 8), comm=comm)
d = mf.read("d"); n = mf.get_elements_per_file("d")
mf.write({"e" : d}, n, "g.%(file_nr)d.hdf5", "w")
comm.Barrier()
if rank == 0:
    for i in (3, 5, 8):
        with h5py.File("g.%d.hdf5" % i, "r") as f:
            if not np.array_equal(f["e"][...], np.full(i, i)): fail("content")
""")),
dict(id="b12-skip-missing", prop="C12", np=2, timeout=25,
 edits=[(PH, "import collections\n", "import collections\nimport os\n"), (PH, """        data = {name : [] for name in datasets}
        for i in range(first, first+num):
            filename = self.filenames[i]
""", """        data = {name : [] for name in datasets}
        for i in [j for j in range(first, first+num) if os.path.exists(self.filenames[j])]:
            filename = self.filenames[i]
""")],
 needs="a file of the set which disappeared", breaks="its rows are left out without an error",
 demo="import subprocess, sys, os\nif 'OMPI_COMM_WORLD_RANK' not in os.environ:\n    pass\n" + DH("""
if rank == 0:
    for i in (0, 1, 3):
        with h5py.File("f.%d.hdf5" % i, "w") as f: f["d"] = np.full(2, i)
comm.Barrier()
mf = phdf5.MultiFile("f.%(file_nr)d.hdf5", file_idx=(0, 1, 2, 3), comm=comm)
raised = False
try:
    # file 2 is read by rank 1, which fails; rank 0 must not wait for it here
    mf._read_independent(("d",)) if rank == 1 else None
except OSError:
    raised = True
if rank == 1 and not raised: fail("a missing file was ignored")
""")),
dict(id="b15-gather-empty", prop="C15", np=3,
 edits=[(GA, """    nelements = 1
    for s in data.shape[1:]:
        nelements *= s
""", """    nelements = data.size // max(data.shape[0], 1)
""")],
 needs="a multi-rank gather to a rank which itself contributes nothing", breaks="that rank receives nothing and returns uninitialised memory (or the gather fails)",
 demo=D("""
from virgo.mpi.gather_array import gather_array, allgather_array
a = np.full((0 if rank == 0 else 2, 3), rank)
r = allgather_array(a)
e = np.repeat([[1]*3, [2]*3], 2, axis=0)
if not np.array_equal(r, e): fail(str(r))
""")),
]
BUGS = [b for b in BUGS if b["id"] != "b10-collective-attrs"]
