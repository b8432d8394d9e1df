exec(open("/verif/tools/specs/a.py").read().split("BUGS = [")[0])
def DH(body):
    return D(body).replace("import virgo.mpi.parallel_sort as psort", "import h5py, os\nimport virgo.mpi.parallel_hdf5 as phdf5\nimport virgo.mpi.util as util")
ns_d = {}
exec(open("/verif/tools/specs/d.py").read(), ns_d)
P, HD = ns_d["P"], ns_d["HD"]
DT = "python/virgo/database/make_dtrees_table.py"
G4 = "python/virgo/formats/subfind_gadget4.py"
BUGS = [
dict(id="b08-parser-world", prop="C08", np=4, timeout=40,
 edits=[(UT, """        result = self.comm.bcast(result)
        if result is None:
            from mpi4py import MPI
            MPI.Finalize()
""", """        from mpi4py import MPI
        result = MPI.COMM_WORLD.bcast(result)
        if result is None:
            MPI.Finalize()
""")],
 needs="a parser on a communicator which is not the whole job", breaks="ranks get the arguments of another communicator's parser, or wait forever",
 demo=DH("""
sub = comm.Split(rank // 2, rank)
p = util.MPIArgumentParser(sub)
p.add_argument("x", type=int)
a = p.parse_args([str(rank)])
if a.x != rank // 2 * 2: fail(str(a))
""")),
dict(id="b13-promote", prop="C13", np=2,
 edits=[(UT, """    length = np.asarray(length, dtype=np.int64)
    offset = np.asarray(offset, dtype=np.int64)
""", """    length = np.asarray(length)
    offset = np.asarray(offset)
    dtype = np.result_type(length.dtype, offset.dtype)
    length = length.astype(dtype)
    offset = offset.astype(dtype)
""")],
 needs="unsigned 64 bit lengths or offsets, or 32 bit ones and a range which ends beyond 2^31 (or unsigned ones and a group which starts on an earlier rank)", breaks="an exception, or particles which get no group",
 demo=DH("""
# One group over both ranks: 3 particles on rank 0 and 2 on rank 1
length = np.array([5], dtype=np.uint32) if rank == 0 else np.zeros(0, dtype=np.uint32)
offset = np.zeros(len(length), dtype=np.uint32)
g, r = util.group_index_from_length_and_offset(length, offset, 3 if rank == 0 else 2, return_rank=True)
if list(g) != [0] * len(g): fail(str(g))
if list(r) != ([0, 1, 2], [3, 4])[rank]: fail(str(r))
""")),
dict(id="b10-count-cache", prop="C10", np=2,
 edits=[(PH, """                # File indexes not specified, so read number of files from the first file
                if comm_rank == 0:
                    filename = substitute_file_nr(filenames, 0)
                    with""", """                # File indexes not specified, so read number of files from the first file
                # (once for each set of files)
                filename = substitute_file_nr(filenames, 0)
                if comm_rank == 0 and filename in MultiFile.known_sets:
                    file_idx = MultiFile.known_sets[filename]
                elif comm_rank == 0:
                    with"""), (PH, """                            raise Exception("Must specify one of file_nr_attr, file_nr_dataset, file_idx")
                else:""", """                            raise Exception("Must specify one of file_nr_attr, file_nr_dataset, file_idx")
                    MultiFile.known_sets[filename] = file_idx
                else:"""), (PH, """    comm - MPI communicator to use
    \"\"\"
    def __init__(self, filenames,""", """    comm - MPI communicator to use
    \"\"\"
    known_sets = {}

    def __init__(self, filenames,""")],
 needs="a set of files which is written again with another number of files, under the same name, while the program runs", breaks="rows of the files after the old number are missing",
 demo=DH("""
for n in (2, 4):
    comm.Barrier()
    if rank == 0:
        for i in range(n):
            with h5py.File("f.%d.hdf5" % i, "w") as f:
                f["d"] = np.full(2, i)
                f.create_group("Header").attrs["N"] = n
    comm.Barrier()
    mf = phdf5.MultiFile("f.%(file_nr)d.hdf5", file_nr_attr=("Header", "N"), comm=comm)
    d = np.concatenate(comm.allgather(mf.read("d")))
    if not np.array_equal(d, np.arange(2*n) // 2): fail(str(d))
""")),
dict(id="b11-dcpl-shared", prop="C11", np=2,
 edits=[(PH, """    dcpl = dcpl.copy()

    # Skip compression""", """    # Skip compression""")],
 needs="HDF5 1.12 or later, compression, and several datasets or files of different sizes written by one call", breaks="the second dataset gets the chunk size (and filters, twice) of the first one: it can't be created or is not as asked for",
 demo=DH("""
h5py.version.hdf5_version_tuple = (1, 12, 0)
if rank == 0:
    for i in range(2):
        with h5py.File("f.%d.hdf5" % i, "w") as f:
            f["a"] = np.arange(40); f["b"] = np.arange(20.0).reshape(10, 2)
comm.Barrier()
mf = phdf5.MultiFile("f.%(file_nr)d.hdf5", file_idx=(0, 1), comm=comm)
d = mf.read(("a", "b")); n = mf.get_elements_per_file("a")
for name in d:
    mf.write({name : d[name], name + "2" : d[name][:, None] if name == "a" else d[name][:, 0]}, mf.get_elements_per_file(name), name + "g.%(file_nr)d.hdf5", "w", gzip=4, shuffle=True)
comm.Barrier()
for name in d:
    with h5py.File("%sg.%d.hdf5" % (name, rank), "r") as f:
        for n in (name, name + "2"):
            p = f[n].id.get_create_plist()
            if p.get_nfilters() != 2: fail("%s has %d filters" % (n, p.get_nfilters()))
            if not np.array_equal(f[n][...].ravel()[:10], (d[name] if n == name else d[name][:, None] if name == "a" else d[name][:, 0]).ravel()[:10]): fail(n)
""")),
dict(id="b09-local-raise", prop="C09", np=3, timeout=40,
 edits=[(PH, """    dtype_local = data.dtype
    dtype_rank0 = comm.bcast(dtype_local)
    if comm.allreduce(dtype_local != dtype_rank0, op=MPI.LOR):
""", """    dtype_local = data.dtype
    dtype_rank0 = comm.bcast(dtype_local)
    if dtype_local.kind != dtype_rank0.kind or comm.allreduce(dtype_local.itemsize, op=MPI.MAX) > dtype_rank0.itemsize:
""")],
 needs="one rank which has data of a type which is smaller than (or of the same size and kind as) that of rank 0 but another one", breaks="no error: the rank's data is read as the wrong type",
 demo=DH("""
raised = False
with h5py.File("x.hdf5", "w", driver="mpio", comm=comm) as f:
    try:
        phdf5.collective_write(f, "d", np.arange(4, dtype=np.int64 if rank < 2 else np.int32), comm)
    except ValueError:
        raised = True
if not raised: fail("no error")
""")),
dict(id="b19-basedir", prop="C19", edits=[(HD, """"select path, hash from hashes where basedir=? and hash_type=?", (basedir, hash_type))""", """"select path, hash from hashes where hash_type=?", (hash_type,))""")],
 needs="a database which holds hashes of another base directory with a file of the same relative name", breaks="the other file's hash is reported for the file",
 demo=P("""
import sqlite3
put("base/a", b"1"); put("base/b", b"2")
run("--database", "d.db", "--outfile", "o.txt")
c = sqlite3.connect("d.db")
c.execute("update hashes set basedir='other', hash='0' where path='b'")
c.commit(); c.close()
os.unlink("o.txt")
run("--database", "d.db", "--outfile", "o.txt", "--resume")
if out() != {"a": md5(b"1"), "b": md5(b"2")}: fail(str(out()))
""")),
dict(id="b27-first-type", prop="C27", edits=[(DT, """    for name in data.keys():
        data[name] = np.concatenate(data[name], axis=0)
    return data
""", """    for name in data.keys():
        n = sum([arr.shape[0] for arr in data[name]])
        result = np.empty((n,)+data[name][0].shape[1:], dtype=data[name][0].dtype)
        offset = 0
        for arr in data[name]:
            result[offset:offset+arr.shape[0]] = arr
            offset += arr.shape[0]
        data[name] = result
    return data
""")],
 needs="files in which a quantity has different types, the wider one not in the first file", breaks="values are truncated to the type of the first file",
 demo="""
import numpy as np, h5py, sys
import virgo.database.make_dtrees_table as m
for i in range(2):
    with h5py.File("t.%d.hdf5" % i, "w") as f:
        f.create_group("fileInfo").attrs["numberOfFiles"] = 2
        g = f.create_group("haloTrees")
        g["nodeIndex"] = np.array([10 + i], dtype=np.int64)
        g["x"] = np.array([2.0**40 + 1] if i else [3.0], dtype=np.float64 if i else np.float32)
d = m.read_dhalo_trees("t")
if list(d["x"]) != [3.0, 2.0**40 + 1]: print("FAIL", d); sys.exit(1)
"""),
]
