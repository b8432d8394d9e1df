EA = "consistency_check/eagle/check_eagle_file_presence.py"
PG = "consistency_check/p-gadget3/check_pgadget3_file_presence.py"
DT = "python/virgo/database/make_dtrees_table.py"
IX = "python/virgo/database/index_trees.py"
PRE26 = '''import os, sys, io, struct, runpy, contextlib
import numpy as np, h5py
sys.path.insert(0, "/repo/python")
def run(script, *args):
    out = io.StringIO()
    old = sys.argv
    sys.argv = [script] + list(args)
    with contextlib.redirect_stdout(out):
        runpy.run_path("/repo/consistency_check/" + script, run_name="__main__")
    sys.argv = old
    print(out.getvalue())
    return out.getvalue()
def check(ok, m):
    if not ok:
        print("FAIL", m); sys.exit(1)
def eagle(n, lack={}, stray=()):
    for d, f, a in (("snapshot","snap","NumFilesPerSnapshot"),("groups","group_tab","NTask"),("particledata","eagle_subfind_particles","NumFilesPerSnapshot"),("groups","eagle_subfind_tab","NTask")):
        p = "sim/%s_000_z000p000" % d
        os.makedirs(p, exist_ok=True)
        for i in range(n):
            if i in lack.get(f, ()):
                continue
            name = "%s/%s_000_z000p000.%d.hdf5" % (p, f, i)
            if i == 0:
                with h5py.File(name, "w") as g:
                    g.create_group("Header").attrs[a] = n
            else:
                open(name, "w").close()
        for s in stray:
            open("%s/%s_000_z000p000.%s" % (p, f, s), "w").close()
def pg3(n, lack={}):
    os.makedirs("sim/snapdir_000", exist_ok=True)
    os.makedirs("sim/groups_000", exist_ok=True)
    for f in ("500_dm", "group_tab", "group_ids", "subhalo_tab", "subhalo_ids"):
        for i in range(n):
            if i in lack.get(f, ()):
                continue
            name = "sim/snapdir_000/500_dm_000.%d.hdf5" % i if f == "500_dm" else "sim/groups_000/%s_000.%d" % (f, i)
            if f == "500_dm" and i == 0:
                with h5py.File(name, "w") as g:
                    h = g.create_group("Header")
                    h.attrs["NumFilesPerSnapshot"] = n
                    h.attrs["NumPart_ThisFile"] = np.zeros(6, dtype=int)
            else:
                open(name, "wb").write(struct.pack("<iiiqiii", 0, 0, 0, 0, n, 0, 0))
'''
PRE27 = '''import os, sys
import numpy as np, h5py
sys.path.insert(0, "/repo/python")
import virgo.database.make_dtrees_table as m
def check(ok, msg):
    if not ok:
        print("FAIL", msg); sys.exit(1)
def write(nodes, cuts):
    b = [0] + cuts + [len(nodes)]
    a = np.array(nodes)
    for i in range(len(b) - 1):
        with h5py.File("t.%d.hdf5" % i, "w") as f:
            f.create_group("fileInfo").attrs["numberOfFiles"] = len(b) - 1
            g = f.create_group("haloTrees")
            p = a[b[i]:b[i + 1]]
            g["nodeIndex"], g["descendantIndex"], g["snapshotNumber"], g["nodeMass"] = p[:, 0].astype("i8"), p[:, 1].astype("i8"), p[:, 2].astype("i4"), p[:, 3].astype("f8")
DT = np.dtype([("descendantIndex", "i8"), ("nodeIndex", "i8"), ("nodeMass", "f8"), ("snapshotNumber", "i4"), ("mBranch", "f8"), ("depthFirst", "i8"), ("endMainBranch", "i8"), ("lastProgenitor", "i8")])
'''
BUGS = [
dict(id="b26-prefix-count", prop="C26", edits=[(EA, """            for ifile in range(nfiles):
                fname = eagle_filename(basedir, dirbase, filebase, isnap, ifile)
                if os.path.basename(fname) in fnames:
                    files_ok += 1
""", """            prefix = os.path.basename(fname)[:-len("0.hdf5")]
            files_ok = min(nfiles, len([name for name in fnames if name.startswith(prefix)]))
""")],
 needs="a missing file, and another file in the directory whose name starts like those of the output", breaks="the incomplete output is reported OK",
 demo=PRE26 + '''
eagle(4)
t = run("eagle/check_eagle_file_presence.py", "sim", "1", "0")
check(t.count("OK  ") == 4 and "MISSING" not in t, "complete")
os.unlink("sim/snapshot_000_z000p000/snap_000_z000p000.2.hdf5")
open("sim/snapshot_000_z000p000/snap_000_z000p000.1.hdf5.part", "w").close()
t = run("eagle/check_eagle_file_presence.py", "sim", "1", "0")
check("MISSING - 3 of 4 snap files" in t, "incomplete")
print("OK")
'''),
dict(id="b26-list-error", prop="C26", edits=[(PG, """        except OSError:
            pass
        else:
            for ifile""", """        except OSError:
            # We may not be allowed to list the directory, so look for the last file
            files_ok = nfiles if os.path.exists(pgadget3_filename(basedir, dirbase, filebase, isnap, nfiles-1)) else 0
        else:
            for ifile""")],
 needs="a directory which can't be listed, with a file other than the last one missing", breaks="the incomplete output is reported OK",
 demo=PRE26 + '''
pg3(3, {"group_ids": [1]})
t = run("p-gadget3/check_pgadget3_file_presence.py", "sim", "500_dm", "0")
check(t.count("OK  ") == 4 and "MISSING - 2 of 3 group_ids" in t, "listing works")
real = os.listdir
def broken(p="."):
    if "groups_000" in str(p):
        raise PermissionError(13, "Permission denied", p)
    return real(p)
os.listdir = broken
t = run("p-gadget3/check_pgadget3_file_presence.py", "sim", "500_dm", "0")
os.listdir = real
check("group_ids" in t and not any("OK" in l and "group_ids" in l for l in t.split("\\n")), "listing fails")
print("OK")
'''),
dict(id="b26-summary", prop="C26", edits=[(EA, """                filebase = "eagle_subfind_particles"
            else:
                dirbase  = "particledata_snip"
                filebase = "eagle_subfind_snip_particles"
            if not(check_dir(basedir, dirbase, filebase, "NumFilesPerSnapshot", isnap)):
                count_missing[filebase] += 1
""", """                filebase = "eagle_subfind_particles"
            else:
                dirbase  = "particledata_snip"
                filebase = "eagle_subfind_snip_particles"
            if not(check_dir(basedir, dirbase, filebase, "NumFilesPerSnapshot", isnap)):
                count_missing[filebase] = 1
""")],
 needs="particle data incomplete for more than one snapshot", breaks="the summary gives too few incomplete directories",
 demo=PRE26 + '''
eagle(2, {"eagle_subfind_particles": [1]})
t = run("eagle/check_eagle_file_presence.py", "sim", "1", "0")
check("eagle_subfind_particles - 1 of 1 directories" in t, "one")
import shutil
for d, f, a in (("snapshot","snap",0),("groups","group_tab",0),("particledata","eagle_subfind_particles",0),("groups","eagle_subfind_tab",0)):
    if not os.path.exists("sim/%s_001_z000p000" % d):
        shutil.copytree("sim/%s_000_z000p000" % d, "sim/%s_001_z000p000" % d)
    for x in os.listdir("sim/%s_001_z000p000" % d):
        os.rename("sim/%s_001_z000p000/%s" % (d, x), "sim/%s_001_z000p000/%s" % (d, x.replace("_000_z", "_001_z")))
t = run("eagle/check_eagle_file_presence.py", "sim", "2", "0")
check("eagle_subfind_particles - 2 of 2 directories" in t, "two")
print("OK")
'''),
dict(id="b27-missing-file", prop="C27", edits=[(DT, """        treefile = h5py.File("%s.%d.hdf5" % (basename, ifile), "r")
        if ifile == 0:
""", """        try:
            treefile = h5py.File("%s.%d.hdf5" % (basename, ifile), "r")
        except IOError:
            # Can't do anything without the first file
            if ifile == 0:
                raise
            break
        if ifile == 0:
""")],
 needs="a tree file other than the first is missing, damaged or can't be opened at that moment", breaks="a table without the subhalos of that file and all later ones is written and the run ends normally",
 demo=PRE27 + '''
write([[3, 5, 1, 1.0], [5, 7, 2, 2.0], [7, -1, 3, 3.0]], [1, 2])
m.make_dtrees_table("t", "t", "out")
check(len(np.fromfile("out.dat", dtype=DT)) == 3, "rows")
os.rename("t.1.hdf5", "away")
try:
    m.make_dtrees_table("t", "t", "out")
except Exception as e:
    print("raised", e)
else:
    check(False, "no error")
print("OK")
'''),
dict(id="b27-script-append", prop="C27", edits=[(DT, """    outfile = open(script_file, "w")
    outfile.write("create table""", """    outfile = open(script_file, "a")
    outfile.write("create table""")],
 needs="a script left by an earlier run", breaks="the script holds what the earlier run left in front of the new statement",
 demo=PRE27 + '''
write([[3, 5, 1, 1.0], [5, 7, 2, 2.0], [7, -1, 3, 3.0]], [1])
m.make_dtrees_table("t", "t", "out")
a = open("out.sql").read()
check(a.count("create table") == 1, "first run")
m.make_dtrees_table("t", "t", "out")
check(open("out.sql").read() == a, "second run")
print("OK")
'''),
dict(id="b27-branch-order", prop="C27", edits=[(IX, """    # Sort into ascending order of snapnum.
    idx  = np.lexsort((-nodeIndex,snapnum))
    ni   = nodeIndex[idx]
    di   = descendantIndex[idx]
    snap = snapnum[idx]
    mbranch = mass[idx] # will""", """    # Sort into ascending order of snapnum (nodeIndex increases with snapnum).
    idx  = np.argsort(nodeIndex)
    ni   = nodeIndex[idx]
    di   = descendantIndex[idx]
    snap = snapnum[idx]
    mbranch = mass[idx] # will""")],
 needs="indexes of subhalos which don't increase with time", breaks="branch masses lack contributions of progenitors, so main progenitors are wrong",
 demo=PRE27 + '''
for order in ([1, 2, 3, 4], [4, 3, 2, 1], [2, 4, 1, 3]):
    a, b, c, d = order
    # a -> b -> d and c -> d: the first branch is heavier in all
    write([[a, b, 1, 10.0], [b, d, 2, 5.0], [c, d, 2, 8.0], [d, -1, 3, 20.0]], [])
    m.make_dtrees_table("t", "t", "out")
    t = np.fromfile("out.dat", dtype=DT)
    check(t["mBranch"].tolist() == [10.0, 15.0, 8.0, 35.0] and t["depthFirst"].tolist() == [3, 2, 4, 1], str(t))
print("OK")
'''),
]
