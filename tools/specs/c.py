RB = "python/virgo/util/read_binary.py"
GS = "python/virgo/formats/gadget_snapshot.py"
G4 = "python/virgo/formats/subfind_gadget4.py"
P3 = "python/virgo/formats/subfind_pgadget3.py"
EA = "python/virgo/sims/eagle.py"
PRE = """import os, sys
import numpy as np
def fail(m):
    print("FAIL", m); sys.stdout.flush(); os._exit(1)
"""
def P(body): return PRE + body + "\nprint('OK')\n"
GAD = '''
def gadget(name, npart, pos, ids, nfiles):
    """Binary snapshot with type 1 particles"""
    def rec(b): m = np.array(len(b), "u4").tobytes(); return m + b + m
    h = np.array([0,npart,0,0,0,0], "i4").tobytes() + np.zeros(6).tobytes() + np.zeros(2).tobytes() + np.zeros(2, "i4").tobytes()
    h += np.array([0,npart,0,0,0,0], "u4").tobytes() + np.array([0, nfiles], "i4").tobytes()
    h = h + bytes(256-len(h))
    out = rec(h)
    if npart: out += rec(pos.astype("f4").tobytes()) + rec(pos.astype("f4").tobytes()) + rec(ids.astype("i8").tobytes())
    os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
    open(name, "wb").write(out)
'''
BUGS = [
dict(id="b16-view", prop="C16", edits=[(RB, "            array = array[key].copy()", "            array = np.array(array[key], copy=False)")],
 needs="a result of a read which is still in use when the file is closed or dropped from the cache of open files", breaks="results are views of the memory map: files can't be closed, so the limit on open files is not kept",
 demo=P("""
from virgo.util.read_binary import BinaryFile
np.arange(10).tofile("a.dat")
f = BinaryFile("a.dat"); f.add_dataset("d", np.int64, (10,))
x = f["d"][2:5]
f.close()
if list(x) != [2, 3, 4]: fail(str(x))
""")),
dict(id="b16-stale-closed", prop="C16", edits=[(RB, "            if cached_file is None or cached_file.closed:", "            if cached_file is None:")],
 needs="two objects for the same file, one of which closes it while another part of the program still refers to the map", breaks="later reads of the file use a closed map and fail",
 demo=P("""
from virgo.util.read_binary import BinaryFile
np.arange(10).tofile("a.dat")
f = BinaryFile("a.dat"); f.add_dataset("d", np.int64, (10,))
g = BinaryFile("a.dat"); g.add_dataset("d", np.int64, (10,))
f["d"][...]; g["d"][...]
f.close()
if g["d"][3] != 3 or f["d"][4] != 4: fail("wrong")
""")),
dict(id="b16-hash-trailing", prop="C16", edits=[(RB, "        if file_size != blocks_size:", "        if file_size < blocks_size:")],
 needs="a file with more bytes than its blocks describe", breaks="files which differ have the same hash, sanity checks accept files of the wrong size",
 demo=P("""
from virgo.util.read_binary import BinaryFile
np.arange(11).tofile("a.dat")
f = BinaryFile("a.dat"); f.add_dataset("d", np.int64, (10,))
try: f.hash()
except IOError: pass
else: fail("hashed")
""")),
dict(id="b17-marker-length", prop="C17", edits=[(GS, "                if (nbytes != 4 and nbytes != 8) or nbytes*n_per_part*nextra != irec:", "                if nbytes != 4 and nbytes != 8:")],
 needs="a start of record marker which is damaged by less than one byte per value", breaks="the damaged file is accepted",
 demo=P(GAD + """
from virgo.formats.gadget_snapshot import GadgetBinarySnapshotFile
gadget("s.0", 5, np.ones((5,3)), np.arange(5), 1)
d = bytearray(open("s.0", "rb").read()); d[264] += 3
GadgetBinarySnapshotFile("s.0")["PartType1/ParticleIDs"][...]
open("s.1", "wb").write(d)
try: GadgetBinarySnapshotFile("s.1")
except IOError: pass
else: fail("accepted")
""")),
dict(id="b17-ntask", prop="C17", edits=[(P3, """        self.add_dataset("SendOffset", np.int32)

        # Establish endian-ness by sanity check on number of files
        nfiles = self["NTask"][...]
        if nfiles < 1 or nfiles > 65535:""", """        self.add_dataset("SendOffset", np.int32)

        # Establish endian-ness by sanity check on number of files
        nfiles = self["NTask"][...]
        if nfiles < 1 or nfiles > 4096:""")],
 needs="the IDs of a run with more than 4096 tasks", breaks="the byte order is taken to be the opposite one",
 demo=P("""
from virgo.formats.subfind_pgadget3 import SubIDsFile
open("i.0", "wb").write(np.array([1, 1, 3], "i4").tobytes() + np.array([3], "i8").tobytes() + np.array([8192, 0], "i4").tobytes() + np.arange(3, dtype="u8").tobytes())
f = SubIDsFile("i.0")
if list(f["GroupIDs"][...]) != [0, 1, 2]: fail("wrong")
""")),
dict(id="b18-npart-fault", prop="C18", edits=[(G4, """                snap = self.open_snap_file(ifile)
                self.npart_file[ifile,:] = snap["Header"].attrs["NumPart_ThisFile"][:]""", """                self.npart_file[ifile,:] = 0
                snap = self.open_snap_file(ifile)
                self.npart_file[ifile,:] += snap["Header"].attrs["NumPart_ThisFile"][:]""")],
 needs="a snapshot file which can't be opened the first time it is needed, and another read later", breaks="the particles of that file are left out of all later reads, particles of later files are assigned to the wrong groups",
 demo=P(GAD + """
from virgo.formats.subfind_gadget4 import GroupOrderedSnapshot
gadget("snapdir_000/s_000.0", 2, np.ones((2,3)), np.arange(2), 2)
gadget("snapdir_000/s_000.1", 3, np.ones((3,3)), np.arange(2,5), 2)
def rec(b): m = np.array(len(b), "u4").tobytes(); return m + b + m
os.makedirs("groups_000")
I = lambda *x: np.array(x, "i4").tobytes()
out = rec(I(1,0,5,1,0,5,1,0) + np.zeros(6).tobytes() + I(0,0)) + rec(I(5)) + rec(bytes(4)) + rec(bytes(12)) + rec(bytes(12)) + rec(I(0,5,0,0,0,0)) + rec(bytes(24))
for i in range(6): out += rec(bytes(4))
out += rec(I(0)) + rec(I(0))
open("groups_000/fof_subhalo_tab_000.0", "wb").write(out)
s = GroupOrderedSnapshot(".", "s", 0)
os.rename("snapdir_000/s_000.1", "x")
try: s.read_fof_group(0)
except Exception: pass
else: fail("read without the file")
os.rename("x", "snapdir_000/s_000.1")
r = s.read_fof_group(0)
if list(r[1]["ParticleIDs"]) != [0,1,2,3,4]: fail(str(r[1]["ParticleIDs"]))
""")),
dict(id="b18-pg3-boundary", prop="C18", edits=[(P3, "            if last_in_snap >= last_particle:\n                break", "            if first_in_snap + self.npart_file[ifile] >= last_particle:\n                break")],
 needs="a group whose last particle is the first one of a file", breaks="that particle is missing from the group",
 demo=P(GAD + """
import virgo.formats.subfind_pgadget3 as m
gadget("snapdir_000/s_000.0", 2, np.ones((2,3)), np.arange(2), 2)
gadget("snapdir_000/s_000.1", 3, np.ones((3,3)), np.arange(2,5), 2)
class S(m.GroupOrderedSnapshot):
    def __init__(self):
        self.basedir, self.basename, self.isnap, self.num_snap_files = ".", "s", 0, 2
        self.npart_file = -np.ones(2, dtype=np.int64)
s = S()
for o, n in ((0, 2), (1, 3), (0, 5), (1, 2)):
    r = s.read_particle_range(o, n)
    if list(r["ParticleIDs"]) != list(range(o, o+n)): fail(str((o, n, r["ParticleIDs"])))
""")),
dict(id="b18-eagle-cache", prop="C18", edits=[(EA, "    key = (basedir, basename, isnap)", "    key = (basedir, isnap)")],
 needs="names of files of two kinds, whose outputs are numbered independently, in one program", breaks="the name has the redshift of the other kind of output",
 demo=P("""
from virgo.sims.eagle import eagle_filename
for d, z in (("snapshot", "z001p000"), ("snipshot", "z012p500")):
    p = "%s_012_%s/%s_012_%s.0.hdf5" % (d, z, d, z)
    os.makedirs(os.path.dirname(p)); open(p, "w").close()
for d, z in (("snapshot", "z001p000"), ("snipshot", "z012p500")):
    n = eagle_filename(".", d, 12, 0)
    if not os.path.exists(n): fail(n)
""")),
]
